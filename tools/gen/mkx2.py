# ---------------------------------------------------------------- FProperty (executed by mkx.py)
ND=' attr="#[verifier::exec_allows_no_decreases_clause]"'
e(f'''
//@ rewrite asset\\s*\\.get_name_map\\(\\)\\s*\\.get_mut\\(\\)\\s*\\.add_fname\\( ==> vx_add_name(asset, 
//@ rewrite asset\\.add_fname\\( ==> vx_add_name(asset, 
/// how the name of a type or of the end of a list is stored: the name map's own entry of the text, without a number.
/// Reading assumes it stored like that (vx_read_type, vx_property).
pub uninterp spec fn ptn(t: Seq<char>) -> Seq<Pat>;
#[verifier::external_body]
pub fn vx_add_name<S: ArchiveWriterX>(asset: &S, t: &str) -> (r: FName) ensures pname(r) == ptn(t@) {{ unimplemented!() }}
#[verifier::external_body]
pub fn vx_read_type<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<FName, Error>) ensures r is Ok ==> rd(old(asset), final(asset), ptn(ftxt(r->Ok_0))) {{ unimplemented!() }}
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ {{ s.to_string() }}
#[verifier::external_body]
pub fn vx_owned(n: &FName) -> (r: String) ensures r@ == ftxt(*n) {{ unimplemented!() }}
//@ macros {F} parse_simple_property parse_simple_property_index parse_simple_property_prop
''')
FK={'FEnumProperty':'=enum_value *underlying_prop','FArrayProperty':'*inner','FSetProperty':'*element_prop','FObjectProperty':'=property_class','FSoftObjectProperty':'=property_class',
 'FClassProperty':'=property_class =meta_class','FSoftClassProperty':'=property_class =meta_class','FDelegateProperty':'=signature_function','FMulticastDelegateProperty':'=signature_function',
 'FMulticastInlineDelegateProperty':'=signature_function','FInterfaceProperty':'=interface_class','FMapProperty':'*key_prop *value_prop','FByteProperty':'=enum_value','FStructProperty':'=struct_value','FNumericProperty':'',
 'FBoolProperty':'.field_size .byte_offset .byte_mask .field_mask ?native_bool ?value'}
FV=['FGenericProperty','FEnumProperty','FArrayProperty','FSetProperty','FObjectProperty','FSoftObjectProperty','FClassProperty','FSoftClassProperty','FDelegateProperty','FMulticastDelegateProperty',
 'FMulticastInlineDelegateProperty','FInterfaceProperty','FMapProperty','FBoolProperty','FByteProperty','FStructProperty','FNumericProperty']
e(f'//@ variants {F} FProperty '+' '.join(FV))
e('pub enum FProperty { '+', '.join(f'{v}({v})' for v in FV)+' }')
e(f'//@ struct {F} FGenericProperty')
for T in FK: e(f'//@ struct {F} {T}')
e('''pub open spec fn pfgen(v: FGenericProperty, c: Ctx) -> Seq<Pat> {
    (((((((pname(v.name) + p32(v.flags.b)) + p32(EArrayDim_n(v.array_dim) as u32)) + p32(v.element_size as u32)) + p64(v.property_flags.b)) + p16(v.rep_index)) + pname(v.rep_notify_func)) + p8(ELifetimeCondition_n(v.blueprint_replication_condition)))
}
pub open spec fn pf_FGenericProperty(v: FGenericProperty, c: Ctx) -> Seq<Pat> { pfgen(v, c) }
''')
for T,ix in FK.items():
    s='pfgen(v.generic_property, c)'; ok='v.generic_property.serialized_type is None'
    for x in ix.split():
        k,x=x[0],x[1:]
        s=f'({s} + '+{'=':f'p32(v.{x}.index as u32)','*':f'pfp(*v.{x}, c)','.':f'p8(v.{x})','?':f'pbool(v.{x}, c)'}[k]+')'
        if k=='*': ok+=f' && ok_fp(*v.{x})'
    e(f'pub open spec fn pf_{T}(v: {T}, c: Ctx) -> Seq<Pat> decreases v, 0int {{ {s} }}')
    e(f'pub open spec fn ok_{T}(v: {T}) -> bool decreases v, 0int {{ {ok} }}')
e('''/// the type name an FProperty is stored with
pub open spec fn ftext(v: FProperty) -> Seq<char> { match v {
    FProperty::FGenericProperty(g) => (match g.serialized_type { Some(n) => ftxt(n), None => "Generic"@ }),
'''+'\n'.join(f'    FProperty::{v}(_) => "{v[1:]}"@,' for v in FV[1:])+'\n} }')
e('pub open spec fn pfb(v: FProperty, c: Ctx) -> Seq<Pat> decreases v, 1int { match v { '+', '.join(f'FProperty::{v}(x) => pf_{v}(x, c)' for v in FV)+' } }')
e('pub open spec fn pfp(v: FProperty, c: Ctx) -> Seq<Pat> decreases v, 2int { ptn(ftext(v)) + pfb(v, c) }')
e('/// a property as reading gives it: only types without a kind of their own are generic')
e('pub open spec fn ok_fp(v: FProperty) -> bool decreases v, 2int { match v { FProperty::FGenericProperty(g) => g.serialized_type is Some'+''.join(f' && ftxt(g.serialized_type->0) != "{v[1:]}"@' for v in FV[1:])+', '+', '.join(f'FProperty::{v}(x) => ok_{v}(x)' for v in FV[1:])+' } }')
distinct('f_distinct',[v[1:] for v in FV[1:]])
e(f'''//@ fn {F} FGenericProperty with_serialized_type params=asset,serialized_type
    ensures r is Ok ==> rd(old(asset), final(asset), pfgen(r->Ok_0, rc(old(asset)))) && r->Ok_0.serialized_type == serialized_type,
//@ end''')
rw(F,'FGenericProperty','pfgen',wowner='FPropertyTrait for FGenericProperty',rens=' && r->Ok_0.serialized_type is None',wx='//@ rw! write_u8\\((self\\.\\w+)\\.into\\(\\)\\) ==> write_u8(\\1.to_u8())')
for T in FK:
    rw(F,T,f'pf_{T}',wowner=f'FPropertyTrait for {T}',rens=f' && ok_{T}(r->Ok_0)',rargs=ND,wargs=ND,
       wx='//@ rw self\\.(\\w+)\\.as_ref\\(\\) ==> &*self.\\1')
e(f'''//@ fn {F} FProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause];#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"
    ensures r is Ok ==> rd(old(asset), final(asset), pfp(r->Ok_0, rc(old(asset)))) && ok_fp(r->Ok_0),
//@ rw! asset\\.read_fname\\(\\) ==> vx_read_type(asset)
{DISP.format(T='F',E='FProperty').replace('serialized_type\\\\.clone','serialized_type\\\\.clone')}
//@ rw Some\\(serialized_type\\.clone\\(\\)\\) ==> Some(vx_dup(&serialized_type))
//@ at body-start
    proof {{ f_distinct(); }}
//@ end
//@ fn {F} "ToSerializedName for FProperty" to_serialized_name
    ensures r@ == ftext(*self),
//@ rw! generic\\s*\\.serialized_type\\s*\\.as_ref\\(\\)\\s*\\.map\\(\\|e\\| e\\.get_owned_content\\(\\)\\)\\s*\\.unwrap_or\\("(\\w+)"\\.to_string\\(\\)\\) ==> match &generic.serialized_type {{ Some(e) => vx_owned(e), None => vx_string("\\1") }}
//@ rw! String::from\\( ==> vx_string(
//@ end
//@ fn {F} FProperty write params=property,asset{ND}
    ensures r is Ok ==> wr(old(asset), final(asset), pfp(*property, wc(old(asset)))),
//@ rw! add_fname\\(&property_serialized_name\\) ==> add_fname(property_serialized_name.as_str())
//@ rw! property\\.write\\(asset\\) ==> property.vx_dispatch(asset)
//@ end
impl FProperty {{
/// what enum_dispatch generates for the trait's write
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_dispatch<Writer: ArchiveWriterX>(&self, asset: &mut Writer) -> (r: Result<(), Error>)
    ensures r is Ok ==> wr(old(asset), final(asset), pfb(*self, wc(old(asset)))),
{{ match self {{ {', '.join(f'FProperty::{v}(x) => x.write(asset)' for v in FV)} }} }}
}}''')
