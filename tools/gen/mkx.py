"""Writes units/exports.vrs: readers and writers of exports, UProperty, FProperty and UEnum (E01)."""
import os,re,sys
ROOT=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
X='unreal_asset/unreal_asset_exports/src/'
B='unreal_asset/unreal_asset_base/src/'
U=X+'properties/uproperty.rs'; F=X+'properties/fproperty.rs'
out=[]
def e(s): out.append(s)
head=open(ROOT+'/units/props.vrs').read()
head=head[:head.index('// ---- the guid of a property tag ----')]
head=head.replace('// Leaf property values: every reader and writer against one stored form per property kind and package version.',
 '// Exports: every reader and writer against one stored form per export kind and package version.')
head=head.replace("{ if n > 0 { pseq_len(s, (n - 1) as nat, f, k); assert((n - 1) * k + k == n * k) by (nonlinear_arith) requires n > 0; } }",
 "{ if n > 0 { pseq_len(s, (n - 1) as nat, f, k); assert(pseq(s, n, f) == pseq(s, (n - 1) as nat, f) + f(s[n - 1])); assert((n - 1) * k + k == n * k) by (nonlinear_arith) requires n > 0; } else { assert(n * k == 0) by (nonlinear_arith) requires n == 0; } }")
e(head)
LI=' attr="#[verifier::loop_isolation(false)]"'
e(f'''
//@ rewrite \\s*\\+ Debug \\+ Clone \\+ PartialEq \\+ Eq ==>
//@ rewrite <\\s*Index: PackageIndexTrait\\s*> ==>
//@ rewrite (Archive\\w+X|Export|\\w+Export)(?:::)?<\\s*Index\\s*> ==> \\1
//@ rewrite let (\\w+): (E\\w+) =\\s*(asset\\.read_\\w+(?:::<LE>)?\\(\\)\\?)\\.try_into\\(\\)\\? ==> let \\1: \\2 = \\2::try_from(\\3)?
//@ rewrite (E\\w+Flags)::from_bits\\((.*?)\\)\\s*\\.ok_or\\(Error::Any\\)\\? ==> \\1::vx_from_bits(\\2)?
//@ rewrite write_i32::<LE>\\((self\\.\\w+)\\.into\\(\\)\\) ==> write_i32::<LE>(\\1.to_i32())
//@ enumnum {B}enums.rs EArrayDim
//@ enumnum {B}enums.rs ELifetimeCondition
// bit flags: their bits, as far as from_bits accepts them
macro_rules! flags {{ ($t:ident, $i:ty) => {{ verus! {{
    #[derive(Copy, Clone)]
    pub struct $t {{ pub b: $i }}
    impl $t {{
        #[verifier::external_body]
        pub fn vx_from_bits(v: $i) -> (r: Result<$t, Error>) ensures r is Ok ==> r->Ok_0.b == v {{ unimplemented!() }}
        pub fn bits(&self) -> (r: $i) ensures r == self.b {{ self.b }}
    }}
}} }} }}
flags!(EObjectFlags, u32);
flags!(EPropertyFlags, u64);
flags!(EFunctionFlags, u32);
flags!(EStructFlags, u32);
flags!(EClassFlags, u32);
#[verifier::external_body]
pub fn vx_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) {{ a == b }}
pub uninterp spec fn ftxt(n: FName) -> Seq<char>;
#[verifier::external_body]
pub fn vx_text<'a>(n: &'a FName) -> (r: &'a str) ensures r@ == ftxt(*n) {{ unimplemented!() }}
''')
for k,v in {'FFrameworkObjectVersion':['RemoveUfieldNext'],'FReleaseObjectVersion':['PropertiesSerializeRepCondition'],'FCoreObjectVersion':['EnumProperties','FProperties']}.items():
    e(f'pub struct {k};'); e(f'//@ vernum {B}custom_version.rs {k} '+' '.join(v))
def rw(f,T,spec,own=None,rx='',wx='',wreq='',rens='',params='asset',rargs='',wargs='',wowner=None,new='new'):
    """reader and writer of T against spec(v, c)"""
    e(f'//@ fn {f} {own or T} {new} params={params}{rargs}')
    e(f'    ensures r is Ok ==> rd(old(asset), final(asset), {spec}(r->Ok_0, rc(old(asset)))){rens},')
    if rx: e(rx)
    e('//@ end')
    e(f'//@ fn {f} "{wowner or T}" write params=asset{wargs}')
    if wreq: e(f'    requires {wreq},')
    e(f'    ensures r is Ok ==> wr(old(asset), final(asset), {spec}(*self, wc(old(asset)))),')
    if wx: e(wx)
    e('//@ end')
# ---------------------------------------------------------------- UProperty
e(f'//@ macros {U} parse_simple_property')
for t in ('UField','UGenericProperty','UBoolProperty'): e(f'//@ struct {U} {t}')
e('''pub open spec fn pfield(v: UField, c: Ctx) -> Seq<Pat> {
    if cvn::<FFrameworkObjectVersion>(c.cv) < FFrameworkObjectVersion_RemoveUfieldNext { match v.next { Some(x) => p32(x.index as u32), None => Seq::empty() } } else { Seq::empty() }
}
/// the next field is there exactly in the versions that store one
pub open spec fn ok_field(v: UField, c: Ctx) -> bool { v.next is Some == (cvn::<FFrameworkObjectVersion>(c.cv) < FFrameworkObjectVersion_RemoveUfieldNext) }
pub open spec fn pugen(v: UGenericProperty, c: Ctx) -> Seq<Pat> {
    let x = (((pfield(v.u_field, c) + p32(EArrayDim_n(v.array_dim) as u32)) + p64(v.property_flags.b)) + pname(v.rep_notify_func));
    if cvn::<FReleaseObjectVersion>(c.cv) >= FReleaseObjectVersion_PropertiesSerializeRepCondition { match v.blueprint_replication_condition { Some(y) => x + p8(ELifetimeCondition_n(y)), None => x } } else { x }
}
pub open spec fn ok_ugen(v: UGenericProperty, c: Ctx) -> bool { ok_field(v.u_field, c) && v.blueprint_replication_condition is Some == (cvn::<FReleaseObjectVersion>(c.cv) >= FReleaseObjectVersion_PropertiesSerializeRepCondition) }
''')
rw(U,'UField','pfield',rens=' && ok_field(r->Ok_0, rc(old(asset)))',rx='//@ at body-start\n    proof { rd_nil(asset); }',wx='//@ at body-start\n    proof { wr_nil(asset); }')
rw(U,'UGenericProperty','pugen',wowner='UPropertyTrait for UGenericProperty',rens=' && ok_ugen(r->Ok_0, rc(old(asset)))',
 rx='//@ rw! Some\\(asset\\.read_u8\\(\\)\\?\\.try_into\\(\\)\\?\\) ==> Some(ELifetimeCondition::try_from(asset.read_u8()?)?)',
 wx='//@ rw! \\)\\?\\.into\\(\\) ==> )?.to_u8()')
e('pub open spec fn pu_UBoolProperty(v: UBoolProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p8(v.element_size)) + pbool(v.native_bool, c) }')
rw(U,'UBoolProperty','pu_UBoolProperty',wowner='UPropertyTrait for UBoolProperty',rens=' && ok_ugen(r->Ok_0.generic_property, rc(old(asset)))')
# layout kept independently of the code: kind -> package indexes that follow the generic part
UK={'UEnumProperty':'value underlying_prop','UArrayProperty':'inner','USetProperty':'element_prop','UObjectProperty':'property_class','USoftObjectProperty':'property_class',
 'ULazyObjectProperty':'property_class','UClassProperty':'property_class meta_class','USoftClassProperty':'property_class meta_class','UDelegateProperty':'signature_function',
 'UMulticastDelegateProperty':'signature_function','UMulticastInlineDelegateProperty':'signature_function','UInterfaceProperty':'interface_class','UMapProperty':'key_prop value_prop',
 'UByteProperty':'enum_value','UStructProperty':'struct_value'}
for k in 'Double Float Int Int8 Int16 Int64 UInt8 UInt16 UInt64 Name Str'.split(): UK[f'U{k}Property']=''
for T,ix in UK.items():
    e(f'//@ struct {U} {T}')
    s='pugen(v.generic_property, c)'
    for x in ix.split(): s=f'({s} + p32(v.{x}.index as u32))'
    e(f'pub open spec fn pu_{T}(v: {T}, c: Ctx) -> Seq<Pat> {{ {s} }}')
    rw(U,T,f'pu_{T}',wowner=f'UPropertyTrait for {T}',rens=' && ok_ugen(r->Ok_0.generic_property, rc(old(asset)))')
UV=['UGenericProperty','UEnumProperty','UArrayProperty','USetProperty','UObjectProperty','USoftObjectProperty','ULazyObjectProperty','UClassProperty','USoftClassProperty','UDelegateProperty',
 'UMulticastDelegateProperty','UMulticastInlineDelegateProperty','UInterfaceProperty','UMapProperty','UBoolProperty','UByteProperty','UStructProperty','UDoubleProperty','UFloatProperty','UIntProperty',
 'UInt8Property','UInt16Property','UInt64Property','UUInt8Property','UUInt16Property','UUInt64Property','UNameProperty','UStrProperty']
e(f'//@ variants {U} UProperty '+' '.join(UV))
e('pub enum UProperty { '+', '.join(f'{v}({v})' for v in UV)+' }')
e('pub open spec fn pu_UGenericProperty(v: UGenericProperty, c: Ctx) -> Seq<Pat> { pugen(v, c) }')
e('pub open spec fn pu(v: UProperty, c: Ctx) -> Seq<Pat> { match v { '+', '.join(f'UProperty::{v}(x) => pu_{v}(x, c)' for v in UV)+' } }')
e('/// which kind of property a class of a package describes')
e('pub open spec fn ukind(t: Seq<char>, v: UProperty) -> bool {\n'+'\n'.join(f'    &&& (v is {v}) == (t == "{v[1:]}"@)' for v in UV[1:])+'\n}')
def distinct(name,lits):
    e(f'pub proof fn {name}()\n    ensures')
    prs=[(a,b) for i,a in enumerate(lits) for b in lits[i+1:]]
    e(',\n'.join(f'        "{a}"@ != "{b}"@' for a,b in prs)+',')
    e('{')
    e('    '+' '.join(f'reveal_strlit("{a}");' for a in lits))
    for a,b in prs:
        if len(a)==len(b):
            i=[k for k in range(len(a)) if a[k]!=b[k]][0]
            e(f'    assert("{a}"@[{i}] != "{b}"@[{i}]);')
        else: e(f'    assert("{a}"@.len() != "{b}"@.len());')
    e('}')
distinct('u_distinct',[v[1:] for v in UV[1:]])
DISP='''//@ rw! serialized_type\\.get_content\\(\\|ty\\| \\{{ ==> ({{ let ty = vx_text(&serialized_type);
//@ rw! "(\\w+)" => ==> _ if vx_is(ty, "\\1") =>
//@ rw! \\b({T}\\w+Property)::(\\w+)\\((asset(?:, Some\\(serialized_type\\.clone\\(\\)\\))?)\\)\\?\\s*\\.into\\(\\) ==> {E}::\\1(\\1::\\2(\\3)?)'''
e(f'''//@ fn {U} UProperty new params=asset,serialized_type attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"
    ensures r is Ok ==> rd(old(asset), final(asset), pu(r->Ok_0, rc(old(asset)))) && ukind(ftxt(serialized_type), r->Ok_0),
{DISP.format(T='U',E='UProperty')}
//@ at body-start
    proof {{ u_distinct(); }}
//@ end
impl UProperty {{
/// what enum_dispatch generates
pub fn write<Writer: ArchiveWriterX>(&self, asset: &mut Writer) -> (r: Result<(), Error>)
    ensures r is Ok ==> wr(old(asset), final(asset), pu(*self, wc(old(asset)))),
{{ match self {{ {', '.join(f'UProperty::{v}(x) => x.write(asset)' for v in UV)} }} }}
}}''')
exec(open(ROOT+'/tools/gen/mkx2.py').read()) if os.path.exists(ROOT+'/tools/gen/mkx2.py') else None
exec(open(ROOT+'/tools/gen/mkx3.py').read())
exec(open(ROOT+'/tools/gen/mkx4.py').read())
exec(open(ROOT+'/tools/gen/mkx5.py').read())
e('fn main() {}')
e('}')
open(ROOT+'/units/exports.vrs','w').write('\n'.join(out)+'\n')
