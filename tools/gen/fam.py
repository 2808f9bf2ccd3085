I=R+'int_property.rs'
for T,p in (('IntProperty','p32(v.value as u32)'),('Int16Property','p16(v.value as u16)'),('Int64Property','p64(v.value as u64)'),('UInt16Property','p16(v.value)'),('UInt32Property','p32(v.value)'),('UInt64Property','p64(v.value)'),('Int8Property','p8(v.value as u8)'),('FloatProperty','p32(v.value.0.bits)'),('DoubleProperty','p64(v.value.0.bits)')):
    prop(I,T,[p])
# the value of a bool lies in its tag, before the guid
boolprop()
F=R+'color_property.rs'
prop(F,'ColorProperty',['p32(s_argb(v.color))'])
prop(F,'LinearColorProperty',[f'p32(v.color.{x}.0.bits)' for x in 'rgba'])
F=R+'date_property.rs'
for T in ('TimeSpanProperty','DateTimeProperty'): prop(F,T,['p64(v.ticks as u64)'])
prop(R+'guid_property.rs','GuidProperty',['pblob(v.value.0@)'])
F=R+'vector_property.rs'
e('pub open spec fn pf3(v: Vector<OrderedFloat<F64>>, c: Ctx) -> Seq<Pat> { (pf(v.x, c) + pf(v.y, c)) + pf(v.z, c) }')
for T,n in (('VectorProperty',3),('RotatorProperty',3),('Vector4Property',4),('QuatProperty',4),('PlaneProperty',4),('Vector2DProperty',2)):
    prop(F,T,[f'pf(v.value.{x}, c)' for x in 'xyzw'[:n]])
prop(F,'IntPointProperty',['p32(v.value.x as u32)','p32(v.value.y as u32)'])
for T,V_ in (('BoxProperty','VectorProperty'),('Box2DProperty','Vector2DProperty')):
    prop(F,T,[f'pv_{V_}(Seq::empty(), v.v1, c)',f'pv_{V_}(Seq::empty(), v.v2, c)','pbool(v.is_valid, c)'])
F=R+'delegate_property.rs'
src(F)
e(f'//@ struct {F} Delegate')
e(f'//@ fn {F} Delegate new params=object,delegate\n    ensures r.object == object && r.delegate == delegate,\n//@ end')
e('pub open spec fn f_del() -> spec_fn(Delegate) -> Seq<Pat> { |d: Delegate| p32(d.object.index as u32) + pname(d.delegate) }')
prop(F,'DelegateProperty',['p32(v.value.object.index as u32)','pname(v.value.delegate)'])
LQ='self.value@.len() <= i32::MAX'
def listprop(F,T,fn,klen,cnt,fld='value',usz=False):
    prop(F,T,[f'p32(v.{fld}@.len() as u32)',f'pseq(v.{fld}@, v.{fld}@.len(), {fn})'],attr=LI,wreq=f'self.{fld}@.len() <= i32::MAX',
      rextra=lr(0,cnt,fld,fn,H),wextra=lw(0,f'self.{fld}',fn,HW,klen))
for T in ('MulticastDelegateProperty','MulticastSparseDelegateProperty','MulticastInlineDelegateProperty'):
    listprop(F,T,'f_del()',12,'length')
e('pub open spec fn f_name() -> spec_fn(FName) -> Seq<Pat> { |v: FName| pname(v) }')
e('pub open spec fn f_i32() -> spec_fn(i32) -> Seq<Pat> { |v: i32| p32(v as u32) }')
e('pub open spec fn f_f32() -> spec_fn(OrderedFloat<F32>) -> Seq<Pat> { |v: OrderedFloat<F32>| p32(v.0.bits) }')
e('pub open spec fn f_bool(c: Ctx) -> spec_fn(bool) -> Seq<Pat> { |v: bool| pbool(v, c) }')
F=R+'per_platform_property.rs'
listprop(F,'PerPlatformIntProperty','f_i32()',4,'num_entries')
listprop(F,'PerPlatformFloatProperty','f_f32()',4,'num_entries')
prop(R+'per_platform_property.rs','PerPlatformBoolProperty',['p32(v.value@.len() as u32)','pseq(v.value@, v.value@.len(), f_bool(c))'],attr=LI,wreq=LQ,
      rextra=lr(0,'num_entries','value','f_bool(rc(old(asset)))',H),wextra=lw(0,'self.value','f_bool(wc(old(asset)))',HW,1))
F=R+'gameplay_tag_container_property.rs'
prop(F,'GameplayTagContainerProperty',['p32(v.value@.len() as u32)','pseq(v.value@, v.value@.len(), f_name())'],attr=LI,wreq=LQ,
      rextra=lr(0,'length','value','f_name()',H),wextra=[x.replace('it.seq() ==','total_size == 4 + 8 * it.index(), it.seq() ==') for x in lw(0,'self.value','f_name()',HW,8)])
prop(R+'float_range_property.rs','FloatRangeProperty',['p32(v.lower_bound.0.bits)','p32(v.upper_bound.0.bits)'])
F=R+'font_character_property.rs'
rec(F,'FontCharacter',['p32(v.start_u as u32)','p32(v.start_v as u32)','p32(v.size_u as u32)','p32(v.size_v as u32)','p8(v.texture_index)','p32(v.vertical_offset as u32)'])
prop(F,'FontCharacterProperty',['pr_FontCharacter(v.value, c)'])
F=R+'rich_curve_key_property.rs'
for x in ('RichCurveExtrapolation','RichCurveInterpMode','RichCurveTangentMode','RichCurveTangentWeightMode'): e(f'//@ enumnum {F} {x}')
prop(F,'RichCurveKeyProperty',['p8(RichCurveInterpMode_n(v.interp_mode) as u8)','p8(RichCurveTangentMode_n(v.tangent_mode) as u8)','p8(RichCurveTangentWeightMode_n(v.tangent_weight_mode) as u8)']+[f'p32(v.{x}.0.bits)' for x in 'time value arrive_tangent arrive_tangent_weight leave_tangent leave_tangent_weight'.split()])
F=R+'sampler_property.rs'
for T in ('WeightedRandomSamplerProperty','SkeletalMeshAreaWeightedTriangleSampler'):
    A='p32(v.prob@.len() as u32)','pseq(v.prob@, v.prob@.len(), f_f32())'
    def two(rw,s,c):
        l=lr if rw=='r' else lw
    r0=lr(0,'size','prob','f_f32()',H)
    r1=lr(1,'size','alias','f_i32()',f'vx_p0 + pseq(prob@, prob@.len(), f_f32())')
    w0=lw(0,'self.prob','f_f32()',HW,4)
    w1=lw(1,'self.alias','f_i32()','vx_p0 + pseq(self.prob@, self.prob@.len(), f_f32())',4)
    prop(F,T,['p32(v.prob@.len() as u32)','pseq(v.prob@, v.prob@.len(), f_f32())','p32(v.alias@.len() as u32)','pseq(v.alias@, v.alias@.len(), f_i32())','p32(v.total_weight.0.bits)'],attr=LI,
      wreq='self.prob@.len() <= i32::MAX, self.alias@.len() <= i32::MAX',rextra=r0+r1,wextra=w0+w1)
prop(F,'SkeletalMeshSamplingLODBuiltDataProperty',['pv_WeightedRandomSamplerProperty(Seq::empty(), v.sampler_property, c)'],wreq='self.sampler_property.prob@.len() <= i32::MAX, self.sampler_property.alias@.len() <= i32::MAX')
F=R+'smart_name_property.rs'
cv='cvn::<FAnimPhysObjectVersion>(c.cv) < FAnimPhysObjectVersion_'
prop(F,'SmartNameProperty',['pname(v.display_name)',('if',cv+'RemoveUIDFromSmartNameSerialize',['p16(v.smart_name_id->0)']),('if',cv+'SmartNameRefactorForDeterministicCooking',['pblob((v.temp_guid->0).0@)'])],
  rens=' && (r->Ok_0.smart_name_id is Some == (cvn::<FAnimPhysObjectVersion>(old(asset).cv()) < FAnimPhysObjectVersion_RemoveUIDFromSmartNameSerialize)) && (r->Ok_0.temp_guid is Some == (cvn::<FAnimPhysObjectVersion>(old(asset).cv()) < FAnimPhysObjectVersion_SmartNameRefactorForDeterministicCooking))')
F=R+'object_property.rs'
prop(F,'ObjectProperty',['p32(v.value.index as u32)'])
prop(F,'AssetObjectProperty',['pstr(sv(v.value))'])
TL='o5n(c.o5) >= o5n(ObjectVersionUE5::FSOFTOBJECTPATH_REMOVE_ASSET_PATH_FNAMES)'
rec(F,'TopLevelAssetPath',[('if',TL,['pname(v.package_name->0)']),'pname(v.asset_name)'],new='read',ok='(r->Ok_0.package_name is Some) == (o5n(old(asset).o5()) >= o5n(ObjectVersionUE5::FSOFTOBJECTPATH_REMOVE_ASSET_PATH_FNAMES))')
rec(F,'SoftObjectPath',['pr_TopLevelAssetPath(v.asset_path, c)','pstr(sv(v.sub_path_string))'])
prop(F,'SoftObjectProperty',['pr_SoftObjectPath(v.value, c)'])
F=R+'soft_path_property.rs'
src(F)
e(f'//@ enum {F} SoftObjectPathPropertyValue')
rec(F,'SoftObjectPathPropertyValue',['(match v { SoftObjectPathPropertyValue::Old(s) => pstr(sv(s)), SoftObjectPathPropertyValue::New(p) => pr_SoftObjectPath(p, c) })'],isstruct=False,ok='r->Ok_0 is Old == (on(old(asset).ov()) < on(ObjectVersion::VER_UE4_ADDED_SOFT_OBJECT_PATH))')
for T in ('SoftAssetPathProperty','SoftObjectPathProperty','SoftClassPathProperty','StringAssetReferenceProperty'):
    prop(F,T,['pr_SoftObjectPathPropertyValue(v.value, c)'])
F=R+'str_property.rs'
prop(F,'NameProperty',['pname(v.value)'])
prop(F,'StrProperty',['pstr(sv(v.value))'])
F=R+'unknown_property.rs'
prop(F,'UnknownProperty',['pblob(v.value@)'],rens=' && r->Ok_0.value@.len() == length && r->Ok_0.serialized_type == serialized_type',rextra=['//@ rw asset\\.read_exact\\(&mut value\\) ==> asset.read_exact_vec(&mut value)','//@ rw (let mut value = vec!\\[0u8; length as usize\\];) ==> \\1 proof { cap64(length); }'])
F=R+'view_target_blend_property.rs'
e(f'//@ enumnum {F} ViewTargetBlendFunction')
FL=['//@ at body-start','    let ghost mut vx_w: i32 = 0;','//@ rw! asset\\.read_i32::<LE>\\(\\)\\? (!= 0|== 1) ==> { let vx_x = asset.read_i32::<LE>()?; proof { vx_w = vx_x; } vx_x \\1 }']
def okr(T,ty=None,inc=True,some=False):
    pat=f'//@ rw! Ok\\(({T} \\{{[^}}]*\\}})\\) ==> let vx_r = \\1; proof {{ assert(ok_{T}(vx_r, vx_w, rc(old(asset)))); assert(rd_{T}(old(asset), asset, {"include_header, " if inc else ""}vx_r)); }} Ok(vx_r)'
    return pat
prop(F,'ViewTargetBlendParamsProperty',['p32(v.blend_time.0.bits)','p8(ViewTargetBlendFunction_n(v.blend_function))','p32(v.blend_exp.0.bits)','p32(w as u32)'],w=('v.lock_outgoing == (w != 0)','flag(self.lock_outgoing)'),
  rextra=FL+[okr('ViewTargetBlendParamsProperty')])
F=R+'material_input_property.rs'
rec(F,'MaterialExpression',['p32(v.output_index as u32)','pname(v.input_name)','pblob(v.extras@)','pname(v.expression_name)'],sized=True,ok='r->Ok_0.name == name && r->Ok_0.extras@.len() == 20',wreq='self.extras@.len() == 20')
M='pr_MaterialExpression(v.material_expression, c)'
XR='self.material_expression.extras@.len() == 20'; XE=' && r->Ok_0.material_expression.extras@.len() == 20'
prop(F,'ColorMaterialInputProperty',[M,'pskip(c)','pv_ColorProperty(Seq::empty(), v.value, c)'],wreq=XR,rens=XE)
prop(F,'ScalarMaterialInputProperty',[M,'pskip(c)','p32(v.value.0.bits)'],wreq=XR,rens=XE)
prop(F,'ShadingModelMaterialInputProperty',[M,'pskip(c)','p32(v.value)'],wreq=XR,rens=XE)
prop(F,'VectorMaterialInputProperty',[M,'pskip(c)','pv_VectorProperty(Seq::empty(), v.value, c)'],wreq=XR,rens=XE)
prop(F,'Vector2MaterialInputProperty',[M,'pskip(c)','pv_Vector2DProperty(Seq::empty(), v.value, c)'],wreq=XR,rens=XE)
for T in ('ExpressionInputProperty','MaterialAttributesInputProperty'): prop(F,T,[M],wreq=XR,rens=XE)
# text
F=R+'str_property.rs'
e(f'//@ enumnum {F} TextHistoryType')
OV='on(c.ov) {} on(ObjectVersion::{})'
TH='TextHistoryType::'
prop(F,'TextProperty',[
 ('if',OV.format('<','VER_UE4_FTEXT_HISTORY'),['pstr(sv(v.culture_invariant_string))',('if',OV.format('>=','VER_UE4_ADDED_NAMESPACE_AND_KEY_DATA_TO_FTEXT'),['pstr(sv(v.namespace))']),'pstr(sv(v.value))']),
 'p32(v.flags)',
 ('if',OV.format('>=','VER_UE4_FTEXT_HISTORY'),['p8(TextHistoryType_n(v.history_type) as u8)',
   ('if','v.history_type == '+TH+'None',[('if','cvn::<FEditorObjectVersion>(c.cv) >= FEditorObjectVersion_CultureInvariantTextSerializationKeyStability',['p32(w as u32)',('if','w == 1',['pstr(sv(v.culture_invariant_string))'])])],
     [('if','v.history_type == '+TH+'Base',['pstr(sv(v.namespace))','pstr(sv(v.value))','pstr(sv(v.culture_invariant_string))'],['pname(v.table_id->0)','pstr(sv(v.value))'])])])],
 w=('true','text_flag(*self)'),
 rextra=FL+[okr('TextProperty')],
 wextra=['//@ rw! e\\.is_empty\\(\\) ==> vx_empty(e)'])
e('''/// a text without history stores its culture invariant string when there is one that is not empty
pub open spec fn text_flag(v: TextProperty) -> i32 { match v.culture_invariant_string { Some(s) => flag(s@.len() > 0), None => 0 } }
#[verifier::external_body]
pub fn vx_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub struct VxVer { pub version: i32 }''')
# byte
e(f'''//@ enum {I} BytePropertyValue
//@ struct {I} ByteProperty
pub open spec fn pbyte(v: BytePropertyValue) -> Seq<Pat> {{ match v {{ BytePropertyValue::Byte(b) => p8(b), BytePropertyValue::FName(n) => pname(n) }} }}
/// when the declared length is 0 the kind of value is guessed from the name map (not under contract)
#[verifier::external_body]
pub fn vx_guess<S: ArchiveReaderX>(asset: &mut S) -> Result<Option<BytePropertyValue>, Error> {{ unimplemented!() }}
//@ fn {I} ByteProperty read_value params=asset,length
    ensures r is Ok && length != 0 ==> rd(old(asset), final(asset), pbyte(r->Ok_0)) && pbyte(r->Ok_0).len() == length,
//@ rw! 0 => \\{{.*?Some\\(byte_value\\)\\s*\\}} ==> 0 => vx_guess(asset)?,
//@ rw! value\\.ok_or_else\\(.*\\)\\s*\\}}\\s*$ ==> value.ok_or(Error::Any) }}
//@ end
//@ fn {I} ByteProperty new params={",".join(params(I,'ByteProperty','new'))}
    ensures r is Ok ==> ({{ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None && v.enum_type is None) && (include_header ==> v.enum_type is Some)
        && (length != 0 ==> rd(old(asset), final(asset), hdre(include_header, v.enum_type, v.property_guid, rc(old(asset))) + pbyte(v.value)) && pbyte(v.value).len() == length) }}),
//@ rw! \\.or_else\\(\\|_\\| ByteProperty::read_value\\(asset, fallback_length\\)\\)\\? ==> ?
//@ end
//@ fn {I} "PropertyTrait for ByteProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), hdre(include_header, self.enum_type, self.property_guid, wc(old(asset))) + pbyte(self.value)) && r->Ok_0 == pbyte(self.value).len(),
//@ end
/// the tag of an enum value names its enum before the guid
pub open spec fn hdre(b: bool, t: Option<FName>, g: Option<Guid>, c: Ctx) -> Seq<Pat> {{ if b {{ pname(t->0) + pguid(g, c) }} else {{ Seq::empty() }} }}''')
F=R+'enum_property.rs'
src(F)
e(f'''//@ struct {F} EnumProperty
// packages with unversioned properties store enums by index; that part is dropped here, and the contract is for versioned packages
//@ fn {F} EnumProperty new params={",".join(params(F,'EnumProperty','new'))}
    ensures r is Ok ==> ({{ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None && v.enum_type is None) && (include_header ==> v.enum_type is Some) && v.value is Some
        && rd(old(asset), final(asset), hdre(include_header, v.enum_type, v.property_guid, rc(old(asset))) + pname(v.value->0)) }}),
//@ rw! if asset\\.has_unversioned_properties\\(\\) \\{{.*?\\}}\\s*(?=let property_guid = match) ==>
//@ end
//@ fn {F} "PropertyTrait for EnumProperty" write params=asset,include_header
    requires self.value is Some,
    ensures r is Ok ==> wr(old(asset), final(asset), hdre(include_header, self.enum_type, self.property_guid, wc(old(asset))) + pname(self.value->0)) && r->Ok_0 == 8,
//@ rw! if asset\\.has_unversioned_properties\\(\\).*?return Ok\\(size_of::<u8>\\(\\)\\);\\s*\\}} ==>
//@ end''')
# world tiles
F=R+'world_tile_property.rs'
WL='VER_UE4_WORLD_LEVEL_INFO_UPDATED'
ANC='//@ rw! Ancestry::new\\(asset\\.get_parent_class_export_name\\(\\)\\.unwrap_or_default\\(\\)\\) ==> vx_any::<Ancestry>()'
DEF='//@ rw! FName::default\\(\\) ==> vx_any::<FName>()'
e('#[verifier::external_body]\npub fn vx_any<T>() -> T { unimplemented!() }')
rec(F,'FWorldTileLayer',['pstr(sv(v.name))','p32(v.reserved_0 as u32)','pv_IntPointProperty(Seq::empty(), v.reserved_1, c)',('if',OV.format('>=',WL),['p32(v.streaming_distance->0 as u32)']),('if',OV.format('>=','VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING'),['p32(w as u32)'])],
  w=('(v.streaming_distance is Some) == ('+OV.format('>=',WL)+') && (v.distance_streaming_enabled is Some) == ('+OV.format('>=','VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING')+') && (v.distance_streaming_enabled is Some ==> v.distance_streaming_enabled->0 == (w == 1))','flag(self.distance_streaming_enabled->0)'),
  rextra=[ANC,DEF]+FL+[okr('FWorldTileLayer',inc=False)])
rec(F,'FWorldTileLODInfo',['p32(v.relative_streaming_distance as u32)','p32(v.reserved_0.0.bits)','p32(v.reserved_1.0.bits)','p32(v.reserved_2 as u32)','p32(v.reserved_3 as u32)'])
# font data
F=R+'slate_core/font_data_property.rs'
for x in ('EFontHinting','EFontLoadingPolicy'): e(f'//@ enumnum {F} {x}')
struct(F,'FontData')
ED='cvn::<FEditorObjectVersion>(c.cv) < FEditorObjectVersion_AddedFontFaceAssets'
e(f'''pub open spec fn pr_FontData(v: FontData, w: i32, c: Ctx) -> Seq<Pat> {{
{chain([('if','!('+ED+')',['p32(w as u32)',('if','v.is_cooked',['p32(v.local_font_face_asset.index as u32)',('if','v.local_font_face_asset.index == 0',['pstr(sv(v.font_filename))','p8(EFontHinting_n(v.hinting->0))','p8(EFontLoadingPolicy_n(v.loading_policy->0))']),'p32(v.sub_face_index->0 as u32)'])])],'Seq::<Pat>::empty()')}
}}
pub open spec fn ok_FontData(v: FontData, w: i32) -> bool {{ v.is_cooked == (w != 0) }}
pub open spec fn rd_FontData<S: Archive>(a: &S, b: &S, v: Option<FontData>) -> bool {{
    match v {{ Some(x) => exists|w: i32| #[trigger] ok_FontData(x, w) && rd(a, b, pr_FontData(x, w, rc(a))), None => *a == *b }}
}}
pub open spec fn old_font<S: Archive + ?Sized>(a: &S) -> bool {{ let c = rc(a); {ED} }}
//@ fn {F} FontData new params=asset
    ensures r is Ok ==> rd_FontData(old(asset), final(asset), r->Ok_0) && (r->Ok_0 is None) == old_font(old(asset)),
''' + '\n'.join(FL) + f'''
//@ rw! Ok\\(Some\\((FontData \\{{[^}}]*\\}})\\)\\) ==> let vx_r = \\1; proof {{ assert(ok_FontData(vx_r, vx_w)); assert(rd(old(asset), asset, pr_FontData(vx_r, vx_w, rc(old(asset))))); assert(rd_FontData(old(asset), asset, Some(vx_r))); }} Ok(Some(vx_r))
//@ end
//@ fn {F} FontData write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FontData(*self, flag(self.is_cooked), wc(old(asset)))),
//@ rw! (self\\.\\w+)\\.ok_or_else\\(\\|\\| \\{{\\s*PropertyError::property_field_none\\("\\w+", "Some\\(\\w+\\)"\\)\\s*\\}}\\)\\? as u8 ==> \\1.ok_or(Error::Any)?.to_u8()
//@ at body-start
    proof {{ wr_nil(asset); }}
//@ end''')
prop_font=None
struct(F,'FontDataProperty')
e(f'''pub open spec fn pv_FontDataProperty(h: Seq<Pat>, v: FontDataProperty, w: i32, c: Ctx) -> Seq<Pat> {{ match v.value {{ Some(x) => h + pr_FontData(x, w, c), None => h }} }}
pub open spec fn rd_FontDataProperty<S: Archive>(a: &S, b: &S, include_header: bool, v: FontDataProperty) -> bool {{
    exists|w: i32| #[trigger] font_ok(v, w) && rd(a, b, pv_FontDataProperty(hdr(include_header, v.property_guid, rc(a)), v, w, rc(a)))
}}
pub open spec fn font_ok(v: FontDataProperty, w: i32) -> bool {{ v.value is Some ==> ok_FontData(v.value->0, w) }}
//@ fn {F} FontDataProperty new params={",".join(params(F,'FontDataProperty','new'))}
    ensures r is Ok ==> ({{ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && (v.value is None) == old_font(old(asset)) && rd_FontDataProperty(old(asset), final(asset), include_header, v) }}),
//@ rw! let value = FontData::new\\(asset\\)\\?; ==> proof {{ rd_nil(asset); }} let ghost vx_b = *asset; let value = FontData::new(asset)?; let ghost vx_w: i32 = if value is Some {{ choose|w: i32| ok_FontData(value->0, w) && rd(&vx_b, asset, pr_FontData(value->0, w, rc(&vx_b))) }} else {{ 0 }};
//@ rw! Ok\\((FontDataProperty \\{{[^}}]*\\}})\\) ==> let vx_r = \\1; proof {{ assert(font_ok(vx_r, vx_w)); assert(rd(old(asset), asset, pv_FontDataProperty(hdr(include_header, vx_r.property_guid, rc(old(asset))), vx_r, vx_w, rc(old(asset))))); assert(rd_FontDataProperty(old(asset), asset, include_header, vx_r)); }} Ok(vx_r)
//@ end
//@ fn {F} "PropertyTrait for FontDataProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_FontDataProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, flag(self.value is Some && self.value->0.is_cooked), wc(old(asset)))) && r->Ok_0 == pv_FontDataProperty(Seq::empty(), *self, flag(self.value is Some && self.value->0.is_cooked), wc(old(asset))).len(),
//@ at body-start
    proof {{ wr_nil(asset); }}
//@ end''')
