# composes units/plist.vrs: tagged property lists and the containers among them (S02)
import os
HERE=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","..","units")
x=open(HERE+"/exports.vrs").read()
head=x[:x.index("pub struct FFrameworkObjectVersion;")]
# not needed here
for a,b in [("//@ enumnum unreal_asset/unreal_asset_base/src/enums.rs EArrayDim\n",""),("//@ enumnum unreal_asset/unreal_asset_base/src/enums.rs ELifetimeCondition\n",""),
 ("// Exports: every reader and writer against one stored form per export kind and package version.","// Tagged property lists, and the structs, arrays, sets and maps in them, in packages with tagged properties."),
 ("//@ rewrite \\bVec::with_capacity\\( ==> vx_with_capacity(\n","")]:
    assert a in head,a
    head=head.replace(a,b)
pos=x[x.index("// ---- positions:"):x.index("use pos::*;")]
i=pos.index("/// the two sizes filled in")
pos=pos[:i]+r'''/// a size filled in after what follows it
pub proof fn patched1<S: Archive + ?Sized>(o: &S, m: &S, s1: &S, s2: &S, s3: &S, a: Seq<Pat>, x: u32, t: Seq<Pat>, p1: u64, p3: u64)
    requires wr(o, m, (a + p32(0)) + t), p1 == o.pre().len() + a.len(), p3 == m.pre().len(),
        at(m, s1, p1), wr(s1, s2, p32(x)), at(s2, s3, p3),
    ensures wr(o, s3, (a + p32(x)) + t),
{
    p32_len(x); p32_len(0);
    let q = (a + p32(x)) + t;
    let q0 = (a + p32(0)) + t;
    assert(q.len() == q0.len() && q.len() == a.len() + 4 + t.len());
    let n = o.pre().len() as int;
    assert(m.pre().len() == n + q0.len() && m.pre().take(n) == o.pre() && fit(m.pre().skip(n), q0) && m.post() == (if o.post().len() <= q.len() { Seq::empty() } else { o.post().skip(q.len() as int) }) && m.ov() == o.ov() && m.o5() == o.o5() && m.cv() == o.cv()) by { reveal(wr); }
    over(m, s1, s2, p32(x), p1);
    moved(s2, s3, p3);
    let w = whole(s2);
    assert(s3.ov() == o.ov() && s3.o5() == o.o5() && s3.cv() == o.cv()) by { reveal(wr); }
    assert(s3.post() =~= m.post()) by { assert forall|z: int| 0 <= z < m.post().len() implies s3.post()[z] == m.post()[z] by { assert(w[p3 + z] == whole(m)[p3 + z]); } }
    assert(s3.pre().take(n) =~= o.pre()) by { assert forall|z: int| 0 <= z < n implies s3.pre()[z] == o.pre()[z] by { assert(w[z] == whole(m)[z]); assert(m.pre().take(n)[z] == m.pre()[z]); } }
    let b = s3.pre().skip(n);
    assert forall|z: int| 0 <= z < b.len() implies fits(#[trigger] b[z], q[z]) by {
        let g = n + z;
        assert(b[z] == w[g]);
        if p1 <= g < p1 + 4 { assert(q[z] == p32(x)[g - p1]); }
        else { assert(w[g] == whole(m)[g]); assert(m.pre().skip(n)[z] == whole(m)[g]); assert(q[z] == q0[z]); assert(fits(m.pre().skip(n)[z], q0[z])); }
    }
    assert(wr(o, s3, q)) by { reveal(wr); }
}
pub proof fn wr_len<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>) requires wr(a, b, p) ensures b.pre().len() == a.pre().len() + p.len() { reveal(wr); }
pub proof fn p64_halves(x: u32) ensures p64(x as u64) == p32(x) + p32(0) {
    reveal(p64); reveal(p32); reveal(le64); reveal(le32);
    assert((x as u64 & 0xff) as u8 == (x & 0xff) as u8 && ((x as u64 >> 8) & 0xff) as u8 == ((x >> 8) & 0xff) as u8 && ((x as u64 >> 16) & 0xff) as u8 == ((x >> 16) & 0xff) as u8 && ((x as u64 >> 24) & 0xff) as u8 == ((x >> 24) & 0xff) as u8
        && ((x as u64 >> 32) & 0xff) == 0 && ((x as u64 >> 40) & 0xff) == 0 && ((x as u64 >> 48) & 0xff) == 0 && ((x as u64 >> 56) & 0xff) == 0) by (bit_vector);
    assert((0u32 & 0xff) == 0 && ((0u32 >> 8) & 0xff) == 0 && ((0u32 >> 16) & 0xff) == 0 && ((0u32 >> 24) & 0xff) == 0) by (bit_vector);
    assert(le64(x as u64) =~= le32(x) + le32(0));
    assert(p64(x as u64) =~= p32(x) + p32(0));
}
}
use pos::*;
'''
guid=open(HERE+"/props.vrs").read()
guid=guid[guid.index("// ---- the guid of a property tag ----"):guid.index("pub struct FAnimPhysObjectVersion;")]
u=r'''
//@ rewrite asset\.position\(\) ==> vx_pos(asset)
//@ rewrite asset\.seek\(SeekFrom::Start\( ==> vx_seek(asset, (
//@ rewrite asset\.has_unversioned_properties\(\) ==> vx_unversioned(asset)
//@ rewrite (?:&\s*)?asset\s*\.get_name_map\(\)\s*\.get_mut\(\)\s*\.add_fname\( ==> vx_add_name(asset, 
/// packages with tagged properties
#[verifier::external_body]
pub fn vx_unversioned<S: Archive>(asset: &S) -> (r: bool) ensures !r { unimplemented!() }
/// how the name of a type or of the end of a list is stored: the name map's own entry of the text, without a number
pub mod tn { use vstd::prelude::*; use super::arch::*;
pub uninterp spec fn ptn(t: Seq<char>) -> Seq<Pat>;
#[verifier::external_body]
pub broadcast proof fn ptn_len(t: Seq<char>) ensures #[trigger] ptn(t).len() == 8 {} }
use tn::*;
#[verifier::external_body]
pub fn vx_add_name<S: ArchiveWriterX>(asset: &S, t: &str) -> (r: &'static FName) ensures pname(*r) == ptn(t@), ftxt(*r) == t@ { unimplemented!() }
/// type names are assumed stored like that
#[verifier::external_body]
pub fn vx_read_type<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<FName, Error>) ensures r is Ok ==> rd(old(asset), final(asset), ptn(ftxt(r->Ok_0))) && pname(r->Ok_0) == ptn(ftxt(r->Ok_0)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_named(n: &FName, t: &str) -> (r: bool) ensures r == (ftxt(*n) == t@) { unimplemented!() }
// ---- properties ----
#[verifier::external_body]
pub struct OtherProperty { x: u8 }
//@ struct unreal_asset/unreal_asset_properties/src/struct_property.rs StructProperty
//@ struct unreal_asset/unreal_asset_properties/src/array_property.rs ArrayProperty
//@ struct unreal_asset/unreal_asset_properties/src/set_property.rs SetProperty
/// the entries of a map, in order (C01)
#[verifier::external_body]
pub struct PMap { x: u8 }
//@ rewrite IndexedMap<Property, Property> ==> PMap
//@ rewrite IndexedMap::new ==> PMap::new
//@ rewrite in &self\.value \{ ==> in &self.value {
//@ struct unreal_asset/unreal_asset_properties/src/map_property.rs MapProperty
/// the property kinds, those without tagged properties inside (S01) and the other containers folded into one
pub enum Property { StructProperty(StructProperty), ArrayProperty(ArrayProperty), SetProperty(SetProperty), MapProperty(MapProperty), Other(OtherProperty) }
/// stored form of a value: behind its tag (with the type's part of the tag), or alone
pub uninterp spec fn pval(v: Property, c: Ctx, tagged: bool) -> Seq<Pat>;
/// the size a tag records: the value without the type's part of the tag
pub uninterp spec fn plen(v: Property, c: Ctx) -> nat;
pub uninterp spec fn nm(v: Property) -> FName;
pub uninterp spec fn dupl(v: Property) -> i32;
/// the name of its type
pub uninterp spec fn sname(v: Property) -> Seq<char>;
pub uninterp spec fn frange(v: Property) -> bool;
pub open spec fn fval(c: Ctx) -> spec_fn(Property) -> Seq<Pat> { |v: Property| pval(v, c, false) }
/// a size the readers do not rely on
pub open spec fn psize(n: u32, c: Ctx) -> Seq<Pat> { if c.exact { p32(n) } else { anyb(4) } }
/// stored form of a tagged property
pub open spec fn pprop(v: Property, c: Ctx) -> Seq<Pat> { (((pname(nm(v)) + ptn(sname(v))) + psize(plen(v, c) as u32, c)) + p32(dupl(v) as u32)) + pval(v, c, true) }
pub open spec fn fprop(c: Ctx) -> spec_fn(Property) -> Seq<Pat> { |v: Property| pprop(v, c) }
pub open spec fn pprops(s: Seq<Property>, c: Ctx) -> Seq<Pat> { pseq(s, s.len(), fprop(c)) + ptn("None"@) }
impl Property {
    #[verifier::external_body]
    pub fn get_name(&self) -> (r: FName) ensures r == nm(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_duplication_index(&self) -> (r: i32) ensures r == dupl(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_serialized_name(&self) -> (r: String) ensures r@ == sname(*self) { unimplemented!() }
    /// the dispatch over the types: S01 and the containers below
    #[verifier::external_body]
    pub fn from_type<S: ArchiveReaderX>(asset: &mut S, type_name: &FName, name: FName, ancestry: Ancestry, include_header: bool, length: i64, fallback_length: i64, duplication_index: i32, is_zero: bool) -> (r: Result<Property, Error>)
        requires length >= -0x8000_0000
        ensures r is Ok && !is_zero ==> rd(old(asset), final(asset), pval(r->Ok_0, rc(old(asset)), include_header)) && nm(r->Ok_0) == name && dupl(r->Ok_0) == duplication_index && sname(r->Ok_0) == ftxt(*type_name) && frange(r->Ok_0) == (ftxt(*type_name) == "FloatRange"@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_value<S: ArchiveWriterX>(v: &Property, asset: &mut S, include_header: bool) -> (r: Result<usize, Error>)
    ensures r is Ok ==> wr(old(asset), final(asset), pval(*v, wc(old(asset)), include_header)) && r->Ok_0 == plen(*v, wc(old(asset))) { unimplemented!() }
/// the types tags name are types of properties, not of structs with a form of their own
#[verifier::external_body]
pub fn vx_read_tag<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<FName, Error>) ensures r is Ok ==> rd(old(asset), final(asset), ptn(ftxt(r->Ok_0))) && ftxt(r->Ok_0) != "FloatRange"@ { unimplemented!() }
/// a name; the one that ends a list is stored like the names of types
#[verifier::external_body]
pub fn vx_read_name<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<FName, Error>) ensures r is Ok ==> rd(old(asset), final(asset), pname(r->Ok_0)) && (ftxt(r->Ok_0) == "None"@ ==> pname(r->Ok_0) == ptn("None"@)) { unimplemented!() }
#[verifier::external_body]
pub struct UnversionedHeader { x: u8 }
impl UnversionedHeader {
    #[verifier::external_body]
    pub fn new<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<Option<UnversionedHeader>, Error>) ensures r is Ok ==> r->Ok_0 is None && *final(asset) == *old(asset) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<S: ArchiveWriterX>(&self, asset: &mut S) -> (r: Result<(), Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn generate_unversioned_header<S: ArchiveWriterX>(asset: &S, p: &[Property], n: &FName) -> (r: Result<Option<(UnversionedHeader, Vec<Property>)>, Error>) ensures r is Ok ==> r->Ok_0 is None { unimplemented!() }
pub proof fn usz_cast(n: usize) ensures (n as i32) as u32 == n as u32 { assert((n as i32) as u32 == n as u32) by (bit_vector); }
pub proof fn i32_i64(n: i32) ensures (n as i64) as int == n as int {}
pub fn vx_read_size<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<i32, Error>) ensures r is Ok ==> rd(old(asset), final(asset), anyb(4))
{ let v = asset.read_i32::<LE>()?; proof { rd_any32(old(asset), asset, v as u32); } Ok(v) }
// the reading of one tagged property; the branch for packages with unversioned properties is cut out (T01, A01)
pub open spec fn one<S: ArchiveReaderX>(a: &S, b: &S, r: Option<Property>) -> bool { match r { Some(v) => rd(a, b, pprop(v, rc(a))) && !frange(v), None => rd(a, b, ptn("None"@)) } }
//@ fn unreal_asset/unreal_asset_properties/src/lib.rs Property new params=asset,ancestry,unversioned_header,include_header
    requires include_header,
    ensures r is Ok ==> one(old(asset), final(asset), r->Ok_0),
//@ rw Option<&mut UnversionedHeader> ==> Option<UnversionedHeader>
//@ rw! let header = unversioned_header\.ok_or_else.*?(?=\n        \} else \{\n            name) ==> return Err(Error::Any);
//@ rw name = asset\.read_fname\(\)\? ==> name = vx_read_name(asset)?
//@ rw name == "None" ==> vx_named(&name, "None")
//@ rw property_type = asset\.read_fname\(\)\? ==> property_type = vx_read_tag(asset)?
//@ rw (?s)Property::from_type\((.*?)\)\s*\.map\(Some\) ==> { let vx_r = Property::from_type(\1)?; Ok(Some(vx_r)) }
//@ rw length = (asset\.read_i32::<LE>\(\)\?) ==> length = vx_read_size(asset)?
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/lib.rs Property write params=property,asset,include_header
    requires include_header,
    ensures r is Ok ==> wr(old(asset), final(asset), pprop(*property, wc(old(asset)))),
//@ rw property\.write\(asset, include_header\) ==> vx_value(property, asset, include_header)
//@ rw (let begin = asset\.position\(\);) ==> \1 let ghost vx_a = pname(nm(*property)) + ptn(sname(*property));
//@ rw (let end = asset\.position\(\);) ==> \1 let ghost m = *asset;
//@ rw (asset\.seek\(SeekFrom::Start\(begin\)\)\?;) ==> \1 let ghost s1 = *asset;
//@ rw (asset\.seek\(SeekFrom::Start\(end\)\)\?;) ==> let ghost s2 = *asset; \1 proof { usz_cast(len); let t = p32(dupl(*property) as u32) + pval(*property, wc(old(asset)), true); pat_assoc(vx_a + p32(0), p32(dupl(*property) as u32), pval(*property, wc(old(asset)), true)); pat_assoc(vx_a + p32(len as u32), p32(dupl(*property) as u32), pval(*property, wc(old(asset)), true)); assert(wr(old(asset), &m, ((vx_a + p32(0)) + p32(dupl(*property) as u32)) + pval(*property, wc(old(asset)), true))); patched1(old(asset), &m, &s1, &s2, asset, vx_a, len as u32, t, begin, end); }
//@ end
// ---- structs ----
pub struct FEditorObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FEditorObjectVersion MovieSceneMetaDataSerialization
pub struct FSequencerObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FSequencerObjectVersion SerializeFloatChannelCompletely
pub struct FFortniteMainBranchObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FFortniteMainBranchObjectVersion SerializeFloatChannelShowCurve
pub uninterp spec fn hascustom(t: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_has_custom(n: &FName) -> (r: bool) ensures r == hascustom(ftxt(*n)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_frange(v: &Property) -> (r: bool) ensures r == frange(*v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_name(t: &str) -> (r: FName) ensures ftxt(r) == t@ { unimplemented!() }
/// panics without a value
#[verifier::external_body]
pub fn vx_unwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_name_count<S: Archive>(asset: &S) -> i32 { unimplemented!() }
#[verifier::external_body]
pub fn vx_name_at<S: Archive>(asset: &S, i: i32, t: &str) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_skip<S: Archive>(asset: &mut S, d: i64) -> (r: Result<u64, Error>) ensures r is Ok ==> 0 <= old(asset).pre().len() + d <= u64::MAX && at(old(asset), final(asset), (old(asset).pre().len() + d) as u64) { unimplemented!() }
/// whether the value is stored in a form of its type's own instead of as a list of properties
pub open spec fn custw(v: StructProperty, c: Ctx) -> bool { match v.struct_type { None => false, Some(n) => {
    let t = ftxt(n);
    if t == "FloatRange"@ { v.value@.len() == 1 && frange(v.value@[0]) }
    else if t == "RichCurveKey"@ && on(c.ov) < on(ObjectVersion::VER_UE4_SERIALIZE_RICH_CURVE_KEY) { false }
    else if t == "MovieSceneTrackIdentifier"@ && cvn::<FEditorObjectVersion>(c.cv) < FEditorObjectVersion_MovieSceneMetaDataSerialization { false }
    else if t == "MovieSceneFloatChannel"@ && cvn::<FSequencerObjectVersion>(c.cv) < FSequencerObjectVersion_SerializeFloatChannelCompletely && cvn::<FFortniteMainBranchObjectVersion>(c.cv) < FFortniteMainBranchObjectVersion_SerializeFloatChannelShowCurve { false }
    else { hascustom(t) } } } }
pub proof fn type_names() ensures "FloatRange"@.len() == 10, "RichCurveKey"@.len() == 12, "MovieSceneTrackIdentifier"@.len() == 25, "MovieSceneFloatChannel"@.len() == 22
{ reveal_strlit("FloatRange"); reveal_strlit("RichCurveKey"); reveal_strlit("MovieSceneTrackIdentifier"); reveal_strlit("MovieSceneFloatChannel"); }
pub open spec fn shead(v: StructProperty, c: Ctx, b: bool) -> Seq<Pat> { if b {
    let n = match v.struct_type { Some(n) => pname(n), None => Seq::empty() };
    let g = if on(c.ov) >= on(ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG) { match v.struct_guid { Some(g) => n + pblob(g.0@), None => n } } else { n };
    g + pguid(v.property_guid, c) } else { Seq::empty() } }
pub open spec fn sbody(v: StructProperty, c: Ctx) -> Seq<Pat> {
    if v.value@.len() == 0 && !v.serialize_none { Seq::empty() } else if custw(v, c) { pval(v.value@[0], c, false) } else { pprops(v.value@, c) } }
pub open spec fn pstruct(v: StructProperty, c: Ctx, b: bool) -> Seq<Pat> { shead(v, c, b) + sbody(v, c) }
pub open spec fn slen(v: StructProperty, c: Ctx) -> nat { if custw(v, c) { plen(v.value@[0], c) } else { sbody(v, c).len() } }
pub open spec fn given(r: StructProperty, name: FName, d: i32, t: Option<FName>, g: Option<Guid>, pg: Option<Guid>) -> bool { r.name == name && r.duplication_index == d && r.struct_type == t && r.struct_guid == g && r.property_guid == pg }
//@ fn unreal_asset/unreal_asset_properties/src/struct_property.rs StructProperty custom_header params=asset,name,ancestry,length,duplication_index,struct_type,struct_guid,property_guid attr="#[verifier::loop_isolation(false)];#[verifier::allow_complex_invariants];#[verifier::exec_allows_no_decreases_clause];#[verifier::rlimit(60)]"
    ensures r is Ok ==> rd(old(asset), final(asset), sbody(r->Ok_0, rc(old(asset)))) && given(r->Ok_0, name, duplication_index, struct_type, struct_guid, property_guid),
//@ rw! (?s)if let Some\(struct_mapping\) = asset\s*\.get_mappings\(\).*?\n        \}\n ==> \n
//@ rw (?s)return name\.get_content\(\|name\| Err\(PropertyError::no_type\(name, &ancestry\)\.into\(\)\)\); ==> return Err(Error::Any);
//@ rw e\.get_content\(Property::has_custom_serialization\) ==> vx_has_custom(e)
//@ rw! (?s)struct_type\s*\.as_ref\(\)\s*\.unwrap_or\(&FName::from_slice\(""\)\)\s*\.get_content\(\|ty\| \{(.*?)Ok::<\(\), Error>\(\(\)\)\s*\}\)\?; ==> let vx_e = vx_slice_name(""); let ty: &FName = match struct_type { Some(ref e) => e, None => &vx_e }; proof { type_names(); reveal_strlit(""); } \1
//@ rw "(\w+)"\s+if ==> _ if vx_named(ty, "\1") &&
//@ rw "(\w+)" => ==> _ if vx_named(ty, "\1") =>
//@ rw (let name_map_index = asset\.read_i32::<LE>\(\)\?;) ==> let ghost vx_o = *asset; \1 let ghost vx_m = *asset; proof { rd_kin(&vx_o, asset, p32(name_map_index as u32)); }
//@ rw (asset\.seek\(SeekFrom::)Current\((.*?)\)\?; ==> vx_skip(asset, \2?; proof { back(&vx_o, &vx_m, asset); }
//@ rw (?s)asset\s*\.get_name_map\(\)\s*\.get_ref\(\)\s*\.get_name_map_index_list\(\)\s*\.len\(\) as i32 ==> vx_name_count(asset)
//@ rw (?s)asset\s*\.get_name_reference\(name_map_index, \|name\| name == ("\w+")\) ==> vx_name_at(asset, name_map_index, \1)
//@ rw struct_type\.as_ref\(\)\.unwrap\(\) ==> vx_unwrap(struct_type.as_ref())
//@ rw struct_type\.clone\(\)\.unwrap\(\) ==> vx_unwrap(vx_dup(&struct_type))
//@ rw! (?s)while let Some\(property\) = Property::new\(\s*asset,\s*new_ancestry\.clone\(\),\s*unversioned_header\.as_mut\(\),\s*true,?\s*\)\? \{ ==> loop { let property = match Property::new(asset, vx_dup(&new_ancestry), None, true)? { Some(x) => x, None => break };
//@ rw (if length == 0 \{) ==> let ghost vx_s = *asset; proof { assert(view(old(asset), &vx_s)); rd_nil(asset); view_rd(asset, asset, old(asset), Seq::empty()); } \1
//@ at pre-loop 0
    proof { rd_nil(asset); }
    let ghost vx_p = Seq::<Pat>::empty();
//@ loop 0
    invariant_except_break rd(&vx_s, asset, vx_p + pseq(values@, values@.len(), fprop(rc(old(asset))))), rc(asset) == rc(old(asset)),
    invariant forall|i: int| 0 <= i < values@.len() ==> !frange(#[trigger] values@[i]),
    ensures rd(&vx_s, asset, vx_p + pprops(values@, rc(old(asset)))),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, values@);
    proof { pat_assoc(vx_p, pseq(r1, r1.len(), fprop(rc(old(asset)))), ptn("None"@)); }
//@ at loop-end 0
    proof { let f = fprop(rc(old(asset))); assert(rd(&a1, asset, f(values@.last()))); pseq_push(vx_p, r1, values@.last(), f); }
//@ at post-loop 0
    proof { assert(vx_p + pprops(values@, rc(old(asset))) =~= pprops(values@, rc(old(asset)))); view_rd(&vx_s, asset, old(asset), pprops(values@, rc(old(asset)))); }
//@ rw (let value = vec!\[property\];) ==> proof { view_rd(&vx_s, asset, old(asset), pval(property, rc(old(asset)), false)); } \1
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/struct_property.rs StructProperty new params=asset,name,ancestry,include_header,length,duplication_index
    ensures r is Ok ==> rd(old(asset), final(asset), pstruct(r->Ok_0, rc(old(asset)), include_header)) && r->Ok_0.name == name && r->Ok_0.duplication_index == duplication_index,
//@ at body-start
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/struct_property.rs StructProperty write_with_type params=asset,include_header,struct_type attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pstruct(StructProperty { struct_type, ..*self }, wc(old(asset)), include_header)) && r->Ok_0 == slen(StructProperty { struct_type, ..*self }, wc(old(asset))),
//@ rw e\.get_content\(Property::has_custom_serialization\) ==> vx_has_custom(e)
//@ rw struct_type == ("\w+") ==> vx_named(struct_type, \1)
//@ rw cast!\(Property, FloatRangeProperty, &self\.value\[0\]\)\.is_some\(\) ==> vx_frange(&self.value[0])
//@ rw (?s)Err\(PropertyError::invalid_struct\(.*?\)\s*\.into\(\)\) ==> Err(Error::Any)
//@ rw self\.value\[0\]\.write\(asset, false\) ==> vx_value(&self.value[0], asset, false)
//@ rw &FName::default\(\) ==> &vx_slice_name("")
//@ at body-start
    let ghost vx_v = StructProperty { struct_type, ..*self };
    let ghost c = wc(old(asset));
    let ghost vx_p = shead(vx_v, c, include_header);
    proof { wr_nil(asset); type_names(); }
//@ at pre-loop 0
    let ghost vx_s = *asset;
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_p + pseq(self.value@, it.index() as nat, fprop(c))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fprop(c)(self.value@[it.index() as int]))); pseq_step(vx_p, self.value@, it.index() as nat, fprop(c)); }
//@ rw (Ok\(\(asset\.position\(\) - begin\) as usize\)) ==> proof { pat_assoc(vx_p, pseq(self.value@, self.value@.len(), fprop(c)), ptn("None"@)); wr_len(old(asset), asset, vx_p + pprops(self.value@, c)); wr_len(old(asset), &vx_b, vx_p); } \1
//@ rw (let begin = asset\.position\(\);) ==> \1 let ghost vx_b = *asset;
//@ rw (if has_custom_serialization \{) ==> proof { assert(wr(old(asset), asset, vx_p)); assert(has_custom_serialization == custw(vx_v, c)); } \1
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/struct_property.rs "PropertyTrait for StructProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pstruct(*self, wc(old(asset)), include_header)) && r->Ok_0 == slen(*self, wc(old(asset))),
//@ rw self\.struct_type\.clone\(\) ==> vx_dup(&self.struct_type)
//@ end
// ---- arrays ----
/// definitions: what the dispatch does with structs
#[verifier::external_body]
pub proof fn is_struct(s: StructProperty, c: Ctx, b: bool) ensures pval(Property::StructProperty(s), c, b) == pstruct(s, c, b), plen(Property::StructProperty(s), c) == slen(s, c), nm(Property::StructProperty(s)) == s.name, dupl(Property::StructProperty(s)) == s.duplication_index, sname(Property::StructProperty(s)) == "StructProperty"@, !frange(Property::StructProperty(s)) {}
pub fn vx_sp(s: StructProperty) -> (r: Property) ensures r == Property::StructProperty(s) { Property::StructProperty(s) }
pub uninterp spec fn dflt(v: ArrayProperty) -> bool;
impl ArrayProperty { #[verifier::external_body] pub fn default() -> (r: ArrayProperty) ensures dflt(r) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_override<S: Archive>(asset: &S, n: &FName) -> Option<String> { unimplemented!() }
#[verifier::external_body]
pub fn vx_same_text(a: &FName, b: &FName) -> (r: bool) ensures r == (ftxt(*a) == ftxt(*b)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_dummy(i: i32) -> FName { unimplemented!() }
#[verifier::external_body]
pub fn vx_div(a: i64, b: i64) -> (r: i64) requires b > 0 ensures a >= 0 ==> 0 <= r <= a, a < 0 ==> a <= r <= 0 { a / b }
/// tags inside arrays carry no guid of their own
#[verifier::external_body]
pub fn vx_no_guid<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<(), Error>) ensures r is Ok ==> rd(old(asset), final(asset), pguid(None, rc(old(asset)))) { unimplemented!() }
pub fn vx_read_size64<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<i64, Error>) ensures r is Ok ==> rd(old(asset), final(asset), anyb(8))
{ let v = asset.read_i64::<LE>()?; proof { rd_anyb(old(asset), asset, p64(v as u64)); p64_len(v as u64); } Ok(v) }
pub proof fn rd_anyb<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>) requires rd(a, b, p) ensures rd(a, b, anyb(p.len())) { reveal(rd); }
/// a number of elements; none are read for zero or less
pub open spec fn pcnt(n: nat, c: Ctx) -> Seq<Pat> { if c.exact || n > 0 { p32(n as u32) } else { anyb(4) } }
pub open spec fn psize64(n: u32, c: Ctx) -> Seq<Pat> { if c.exact { p32(n) + p32(0) } else { anyb(8) } }
#[verifier::external_body]
pub fn vx_or_zero(g: Option<Guid>) -> (r: Guid) ensures r == gz(g) { unimplemented!() }
pub uninterp spec fn gdef() -> Guid;
pub open spec fn gz(g: Option<Guid>) -> Guid { match g { Some(x) => x, None => gdef() } }
/// the type the elements have, if any
pub open spec fn astruct(v: ArrayProperty) -> bool { if v.value@.len() > 0 { sname(v.value@[0]) == "StructProperty"@ } else { match v.array_type { Some(n) => ftxt(n) == "StructProperty"@, None => false } } }
pub open spec fn ptype(v: Seq<Property>, t: Option<FName>) -> Seq<Pat> { if v.len() > 0 { ptn(sname(v[0])) } else { match t { Some(n) => pname(n), None => Seq::empty() } } }
pub open spec fn ahead(v: ArrayProperty, c: Ctx, b: bool) -> Seq<Pat> { if b { ptype(v.value@, v.array_type) + pguid(v.property_guid, c) } else { Seq::empty() } }
/// the struct the elements are described by
pub open spec fn sample(v: ArrayProperty) -> StructProperty { if v.value@.len() > 0 { v.value@[0]->StructProperty_0 } else { v.dummy_property->0 } }
pub open spec fn atag(v: ArrayProperty, c: Ctx) -> Seq<Pat> {
    let s = sample(v);
    if on(c.ov) >= on(ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO) {
        ((((pname(s.name) + ptn("StructProperty"@)) + psize64(pseq(v.value@, v.value@.len(), fval(c)).len() as u32, c)) + pname(s.struct_type->0)) + pblob(gz(s.struct_guid).0@)) + pguid(None, c)
    } else { Seq::empty() } }
/// d: whether structs in it are described once for all
pub open spec fn abody(v: ArrayProperty, c: Ctx, d: bool) -> Seq<Pat> {
    let n = pcnt(v.value@.len(), c);
    (if astruct(v) && d { n + atag(v, c) } else { n }) + pseq(v.value@, v.value@.len(), fval(c)) }
pub open spec fn parr(v: ArrayProperty, c: Ctx, b: bool, d: bool) -> Seq<Pat> { ahead(v, c, b) + abody(v, c, d) }
/// left out: counts below zero of structs, and tags inside arrays that name nothing
pub open spec fn aread(v: ArrayProperty, d: bool) -> bool { d ==> !dflt(v) && (v.value@.len() == 0 && astruct(v) ==> v.dummy_property is Some) }
//@ fn unreal_asset/unreal_asset_properties/src/struct_property.rs StructProperty dummy params=name,ancestry,struct_type,struct_guid
    ensures given(r, name, 0, Some(struct_type), struct_guid, None),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/array_property.rs ArrayProperty new_no_header params=asset,name,ancestry,_include_header,length,duplication_index,serialize_struct_differently,array_type,property_guid attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"
    requires -0x8000_0000 <= length,
    ensures r is Ok && aread(r->Ok_0, serialize_struct_differently) ==> rd(old(asset), final(asset), abody(r->Ok_0, rc(old(asset)), serialize_struct_differently)) && r->Ok_0.duplication_index == duplication_index && r->Ok_0.array_type == array_type && r->Ok_0.property_guid == property_guid
        && (r->Ok_0.value@.len() > 0 ==> array_type is Some && sname(r->Ok_0.value@[0]) == ftxt(array_type->0)),
//@ rw! (?s)if array_type\.is_none\(\) \{\s*if let Some\(struct_data\) = asset.*?\n        \}\n ==> \n
//@ rw (?s)return name\.get_content\(\|name\| Err\(PropertyError::no_type\(name, &ancestry\)\.into\(\)\)\); ==> return Err(Error::Any);
//@ rw let mut array_struct_type = None; ==> let array_struct_type: Option<FName> = None;
//@ rw let mut struct_guid = None; ==> let mut struct_guid: Option<Guid> = None;
//@ rw let mut dummy_struct = None; ==> let mut dummy_struct: Option<StructProperty> = None;
//@ rw let mut struct_length = 1; ==> let mut struct_length: i64 = 1;
//@ rw (?s)array_type\.as_ref\(\)\.is_some_and\(\|ty\| ty == ("\w+")\) ==> (match array_type { Some(ref ty) => vx_named(ty, \1), None => false })
//@ rw FName::from_slice\(("\w+")\) ==> vx_slice_name(\1)
//@ rw FName::from_slice\(&type_override\) ==> vx_slice_name(type_override.as_str())
//@ rw name = asset\.read_fname\(\)\? ==> name = vx_read_name(asset)?
//@ rw let this_array_type = asset\.read_fname\(\)\? ==> let this_array_type = vx_read_type(asset)?
//@ rw if (\w+) == "None" ==> if vx_named(&\1, "None")
//@ rw! (?s)this_array_type\.get_content\(\|this_array_type\| \{.*?\}\)\s*\}\)\?; ==> if !vx_same_text(&this_array_type, vx_unwrap(array_type.as_ref())) { return Err(Error::Any); }
//@ rw asset\.read_i64::<LE>\(\)\? ==> vx_read_size64(asset)?
//@ rw (struct_guid = Some\(asset\.read_guid\(\)\?\);\s*)asset\.read_property_guid\(\)\?; ==> \1 vx_no_guid(asset)?;
//@ rw! (?s)name\s*\.get_content\(\|name\| asset\.get_array_struct_type_override\(\)\.get_by_key\(name\)\)\s*\.cloned\(\) ==> vx_override(asset, &name)
//@ rw full_type\.clone\(\) ==> vx_dup(&full_type)
//@ rw data\.into\(\) ==> vx_sp(data)
//@ rw (?s)StructProperty::custom_header\(((?:(?!custom_header).)*?)\)\?\s*\.into\(\) ==> vx_sp(StructProperty::custom_header(\1)?)
//@ rw FName::new_dummy\(i\.to_string\(\), i32::MIN\) ==> vx_dummy(i)
//@ rw length / num_entries as i64 ==> vx_div(length, num_entries as i64)
//@ rw \(length - 4\) / num_entries as i64 ==> vx_div(length - 4, num_entries as i64)
//@ rw array_type == ("\w+") ==> vx_named(array_type, \1)
//@ rw \be\.clone\(\) ==> vx_dup(e)
//@ rw (let num_entries = asset\.read_i32::<LE>\(\)\?;) ==> \1 let ghost np = if num_entries > 0 { p32(num_entries as u32) } else { anyb(4) }; let ghost vx_n = *asset; proof { rd_any32(old(asset), asset, num_entries as u32); rd_nil(asset); assert(rd(old(asset), &vx_n, np)); assert(rc(&vx_n) == c) by { rd_ctx(old(asset), &vx_n, np); } }
//@ rw (if num_entries == 0 \{) ==> let ghost vx_t = if on(c.ov) >= on(ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO) { ((((pname(name) + ptn("StructProperty"@)) + anyb(8)) + pname(full_type)) + pblob(gz(struct_guid).0@)) + pguid(None, c) } else { Seq::empty() }; let ghost vx_p = np + vx_t; proof { assert(rd(&vx_n, asset, vx_t)); rd_trans(old(asset), &vx_n, asset, np, vx_t); assert(vx_p + Seq::<Pat>::empty() =~= vx_p); } let ghost nm0 = name; \1
//@ at body-start
    let ghost c = rc(old(asset));
//@ loop 0 it=it
    invariant entries@.len() == it.index(), rd(old(asset), asset, vx_p + pseq(entries@, entries@.len(), fval(c))), rc(asset) == c,
        forall|i: int| 0 <= i < entries@.len() ==> #[trigger] entries@[i] is StructProperty && given(entries@[i]->StructProperty_0, nm0, 0, Some(full_type), struct_guid, None),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, entries@);
//@ at loop-end 0
    proof { is_struct(data, c, false); assert(pstruct(data, c, false) =~= sbody(data, c)); assert(entries@.last() == Property::StructProperty(data)); assert(rd(&a1, asset, fval(c)(entries@.last()))); pseq_push(vx_p, r1, entries@.last(), fval(c)); }
//@ at post-loop 0
    proof { if entries@.len() > 0 { is_struct(entries@[0]->StructProperty_0, c, false); assert(np == pcnt(entries@.len(), c)); } else { assert(num_entries <= 0); assert(np == pcnt(0, c)); }
        assert(rd(old(asset), asset, (np + vx_t) + pseq(entries@, entries@.len(), fval(c)))); }
//@ at before-tail
    proof { assert(np + Seq::<Pat>::empty() =~= np); assert(np == pcnt(entries@.len(), c)); }
//@ at pre-loop 1
    proof { assert(np + Seq::<Pat>::empty() =~= np); }
//@ loop 1 it=it
    invariant entries@.len() == it.index(), rd(old(asset), asset, np + pseq(entries@, entries@.len(), fval(c))), rc(asset) == c,
        forall|i: int| 0 <= i < entries@.len() ==> sname(#[trigger] entries@[i]) == ftxt(*array_type),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, entries@);
//@ at loop-end 1
    proof { if entry is StructProperty { is_struct(entry->StructProperty_0, c, false); assert(pstruct(entry->StructProperty_0, c, false) =~= sbody(entry->StructProperty_0, c)); } assert(entries@.last() == entry); assert(rd(&a1, asset, fval(c)(entry))); pseq_push(np, r1, entry, fval(c)); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/array_property.rs ArrayProperty new params=asset,name,ancestry,include_header,length,duplication_index,serialize_struct_differently
    requires -0x8000_0000 <= length,
    ensures r is Ok && aread(r->Ok_0, serialize_struct_differently) ==> rd(old(asset), final(asset), parr(r->Ok_0, rc(old(asset)), include_header, serialize_struct_differently)) && r->Ok_0.duplication_index == duplication_index,
//@ rw asset\.read_fname\(\)\? ==> vx_read_type(asset)?
//@ at body-start
    proof { rd_nil(asset); }
//@ end
pub proof fn shape(h: Seq<Pat>, n: Seq<Pat>, nm: Seq<Pat>, ty: Seq<Pat>, x: Seq<Pat>, y: Seq<Pat>, st: Seq<Pat>, g: Seq<Pat>, pg: Seq<Pat>, q: Seq<Pat>) ensures
    (((((((h + n) + nm) + ty) + (x + y)) + st) + g) + pg) + q == ((((h + n) + nm) + ty) + x) + (((((y + st) + g) + pg)) + q),
    (((((((h + n) + nm) + ty) + (x + y)) + st) + g) + pg) + q == h + ((n + (((((nm + ty) + (x + y)) + st) + g) + pg)) + q),
{
    let w = (((((((h + n) + nm) + ty) + (x + y)) + st) + g) + pg) + q;
    assert(w =~= ((((h + n) + nm) + ty) + x) + (((((y + st) + g) + pg)) + q));
    assert(w =~= h + ((n + (((((nm + ty) + (x + y)) + st) + g) + pg)) + q));
}
//@ fn unreal_asset/unreal_asset_properties/src/array_property.rs ArrayProperty write_full params=asset,include_header,serialize_structs_differently attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"
    ensures r is Ok ==> wr(old(asset), final(asset), parr(*self, wc(old(asset)), include_header, serialize_structs_differently)) && r->Ok_0 == abody(*self, wc(old(asset)), serialize_structs_differently).len() && r->Ok_0 <= i64::MAX,
//@ rw asset\.get_name_map\(\)\.get_mut\(\)\.add_fname\(&value\) ==> vx_dup(vx_add_name(asset, value.as_str()))
//@ rw self\.array_type\.clone\(\) ==> vx_dup(&self.array_type)
//@ rw array_type\.as_ref\(\)\.is_some_and\(\|ty\| ty == ("\w+")\) ==> (match array_type { Some(ref ty) => vx_named(ty, \1), None => false })
//@ rw (?s)Err\(PropertyError::invalid_array\((?:format!\(.*?\)|".*?"\.to_string\(\),?\s*)\)\) ==> Err(Error::Any)
//@ rw (?s)Err\(PropertyError::invalid_array\(\s*"[^"]*"\.to_string\(\),?\s*\)\) ==> Err(Error::Any)
//@ rw let mut length_loc = None; ==> let mut length_loc: Option<u64> = None;
//@ rw length_loc\.expect\("[^"]*"\) ==> vx_unwrap(length_loc)
//@ rw property\.struct_guid\.unwrap_or_default\(\) ==> vx_or_zero(property.struct_guid)
//@ rw \bentry\.write\(asset, false\) ==> vx_value(entry, asset, false)
//@ rw (let begin = asset\.position\(\);) ==> \1 let ghost vx_b = *asset; proof { assert(wr(old(asset), &vx_b, vx_h)); }
//@ rw (let full_len = asset\.position\(\) - length_loc;) ==> \1 let ghost m = *asset;
//@ rw (asset\.seek\(SeekFrom::Start\(length_loc\)\)\?;) ==> \1 let ghost s1 = *asset;
//@ rw (asset\.seek\(SeekFrom::Start\(new_loc\)\)\?;) ==> let ghost s2 = *asset; \1 proof { assert(length == vx_q.len()); assert((length as i32) as u32 == length as u32) by (bit_vector); shape(vx_h, np, vx_nm, vx_ty, p32(length as u32), p32(0), vx_st, vx_g, vx_pg, vx_q); let t = (((p32(0) + vx_st) + vx_g) + vx_pg) + vx_q; patched1(old(asset), &m, &s1, &s2, asset, ((vx_h + np) + vx_nm) + vx_ty, length as u32, t, length_loc, new_loc); assert(wr(old(asset), asset, parr(*self, c, include_header, serialize_structs_differently))); }
//@ rw (let full_len = ) ==> let ghost vx_q = pseq(self.value@, self.value@.len(), fval(c)); proof { shape(vx_h, np, vx_nm, vx_ty, p32(0), p32(0), vx_st, vx_g, vx_pg, vx_q); assert(wr(old(asset), asset, vx_a + vx_q)); wr_len(old(asset), asset, vx_a + vx_q); wr_len(old(asset), &vx_l, ((vx_h + np) + vx_nm) + vx_ty); } \1
//@ rw (length_loc = Some\(asset\.position\(\)\);) ==> \1 proof { vx_l = *asset; p64_halves(0); }
//@ rw (let mut length_loc: Option<u64> = None;) ==> \1 let ghost mut vx_l = *asset; let ghost (vx_nm, vx_ty, vx_st, vx_g, vx_pg) = (pname(property.name), ptn("StructProperty"@), pname(property.struct_type->0), pblob(gz(property.struct_guid).0@), pguid(None, c)); let ghost vx_tag = on(c.ov) >= on(ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO); let ghost vx_a = if vx_tag { ((((((vx_h + np) + vx_nm) + vx_ty) + (p32(0) + p32(0))) + vx_st) + vx_g) + vx_pg } else { vx_h + np };
//@ rw (Ok\(\(asset\.position\(\) - begin\) as usize\)) ==> proof { wr_len(old(asset), asset, parr(*self, c, include_header, serialize_structs_differently)); wr_len(old(asset), &vx_b, vx_h); } \1
//@ at body-start
    let ghost c = wc(old(asset));
    let ghost vx_h = ahead(*self, c, include_header);
    let ghost np = p32(self.value@.len() as u32);
    proof { wr_nil(asset); reveal(pguid); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_a + pseq(self.value@, it.index() as nat, fval(c))),
//@ at pre-loop 0
    proof { assert(pguid(None, c) =~= if on(c.ov) >= on(ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG) { p8(0) } else { Seq::empty() }); assert(vx_a + Seq::<Pat>::empty() =~= vx_a); }
    proof { assert(wr(old(asset), asset, vx_a)); assert(vx_tag ==> length_loc is Some && length_loc->0 == vx_l.pre().len() && wr(old(asset), &vx_l, ((vx_h + np) + vx_nm) + vx_ty)); }
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { is_struct(*struct_property, c, false); assert(self.value@[it.index() as int] == Property::StructProperty(*struct_property)); assert(wr(&a1, asset, fval(c)(self.value@[it.index() as int]))); pseq_step(vx_a, self.value@, it.index() as nat, fval(c)); }
//@ at post-loop 0
    proof { if !vx_tag { assert((np + Seq::<Pat>::empty()) =~= np); pat_assoc(vx_h, np, pseq(self.value@, self.value@.len(), fval(c))); assert(wr(old(asset), asset, parr(*self, c, include_header, serialize_structs_differently))); } }
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, (vx_h + np) + pseq(self.value@, it.index() as nat, fval(c))),
//@ at pre-loop 1
    proof { assert((vx_h + np) + Seq::<Pat>::empty() =~= (vx_h + np)); }
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, fval(c)(self.value@[it.index() as int]))); pseq_step(vx_h + np, self.value@, it.index() as nat, fval(c)); }
//@ at post-loop 1
    proof { pat_assoc(vx_h, np, pseq(self.value@, self.value@.len(), fval(c))); assert(wr(old(asset), asset, parr(*self, c, include_header, serialize_structs_differently))); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/array_property.rs "PropertyTrait for ArrayProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), parr(*self, wc(old(asset)), include_header, true)) && r->Ok_0 == abody(*self, wc(old(asset)), true).len(),
//@ end
// ---- sets ----
pub open spec fn thead(v: SetProperty, c: Ctx, b: bool) -> Seq<Pat> { if b { ptype(v.value.value@, v.array_type) + pguid(v.property_guid, c) } else { Seq::empty() } }
/// the elements taken out of the parent's set, then the elements
pub open spec fn pset(v: SetProperty, c: Ctx, b: bool) -> Seq<Pat> { (thead(v, c, b) + abody(v.removed_items, c, false)) + abody(v.value, c, false) }
//@ fn unreal_asset/unreal_asset_properties/src/set_property.rs SetProperty new params=asset,name,ancestry,include_header,length,duplication_index
    requires -0x8000_0000 <= length,
    ensures r is Ok ==> rd(old(asset), final(asset), pset(r->Ok_0, rc(old(asset)), include_header)) && r->Ok_0.duplication_index == duplication_index && r->Ok_0.name == name,
//@ rw asset\.read_fname\(\)\? ==> vx_read_type(asset)?
//@ rw array_type\.clone\(\) ==> vx_dup(&array_type)
//@ at body-start
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/set_property.rs "PropertyTrait for SetProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pset(*self, wc(old(asset)), include_header)) && r->Ok_0 == abody(self.removed_items, wc(old(asset)), false).len() + abody(self.value, wc(old(asset)), false).len(),
//@ rw asset\.get_name_map\(\)\.get_mut\(\)\.add_fname\(&value\) ==> vx_dup(vx_add_name(asset, value.as_str()))
//@ rw self\.array_type\.clone\(\) ==> vx_dup(&self.array_type)
//@ at body-start
    proof { wr_nil(asset); }
//@ end
// ---- maps ----
impl PMap {
    pub uninterp spec fn e(&self) -> Seq<(Property, Property)>;
    #[verifier::external_body]
    pub fn new() -> (r: PMap) ensures r.e() == Seq::<(Property, Property)>::empty() { unimplemented!() }
    /// the keys of one map are distinct
    #[verifier::external_body]
    pub fn insert(&mut self, k: Property, v: Property) ensures final(self).e() == old(self).e().push((k, v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.e().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_first(&self) -> (r: Option<(&Property, &Property)>) ensures match r { Some(x) => self.e().len() > 0 && *x.0 == self.e()[0].0 && *x.1 == self.e()[0].1, None => self.e().len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entries<'a>(&'a self) -> (r: Vec<(usize, &'a Property, &'a Property)>) ensures r@.len() == self.e().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).1 == self.e()[i].0 && *r@[i].2 == self.e()[i].1 { unimplemented!() }
}
pub open spec fn okeys(k: Option<Vec<Property>>) -> Seq<Property> { match k { Some(v) => v@, None => Seq::empty() } }
#[verifier::external_body]
pub fn vx_push_opt(k: &mut Option<Vec<Property>>, v: Property) ensures okeys(*final(k)) == okeys(*old(k)).push(v) { unimplemented!() }
/// the struct type given for the keys or values of a map; any
#[verifier::external_body]
pub fn vx_map_struct<S: Archive>(asset: &S, n: &FName, is_key: bool) -> FName { unimplemented!() }
pub open spec fn pair(v: (Property, Property), c: Ctx) -> Seq<Pat> { pval(v.0, c, false) + pval(v.1, c, false) }
pub open spec fn fpair(c: Ctx) -> spec_fn((Property, Property)) -> Seq<Pat> { |v: (Property, Property)| pair(v, c) }
pub open spec fn mhead(v: MapProperty, c: Ctx, b: bool) -> Seq<Pat> { if b {
    (if v.value.e().len() > 0 { ptn(sname(v.value.e()[0].0)) + ptn(sname(v.value.e()[0].1)) } else { pname(v.key_type) + pname(v.value_type) }) + pguid(v.property_guid, c) } else { Seq::empty() } }
pub open spec fn pmap(v: MapProperty, c: Ctx, b: bool) -> Seq<Pat> {
    let k = okeys(v.keys_to_remove);
    (((mhead(v, c, b) + p32(k.len() as u32)) + pseq(k, k.len(), fval(c))) + pcnt(v.value.e().len(), c)) + pseq(v.value.e(), v.value.e().len(), fpair(c)) }
pub open spec fn mlen(v: MapProperty, c: Ctx) -> nat { let k = okeys(v.keys_to_remove); (8 + pseq(k, k.len(), fval(c)).len() + pseq(v.value.e(), v.value.e().len(), fpair(c)).len()) as nat }
pub proof fn usz_neg(n: i32) ensures (n as usize) as u32 == n as u32 { assert((n as usize) as u32 == n as u32) by (bit_vector); }
//@ fn unreal_asset/unreal_asset_properties/src/map_property.rs MapProperty map_type_to_class params=asset,type_name,name,ancestry,length,include_header,is_key
    requires !include_header, length >= -0x8000_0000,
    ensures r is Ok ==> rd(old(asset), final(asset), pval(r->Ok_0, rc(old(asset)), false)) && sname(r->Ok_0) == ftxt(type_name),
//@ rw! (?s)FName::from_slice\(&type_name\.get_owned_content\(\)\)\.get_content\(\|ty\| match ty \{ ==> (match () {
//@ rw "(\w+)" => \{ ==> _ if vx_named(&type_name, "\1") => {
//@ rw! (?s)let mut struct_type = None;.*?\.unwrap_or_else\(\|\| FName::from_slice\("Generic"\)\); ==> let struct_type = vx_map_struct(asset, &name, is_key);
//@ rw (?s)StructProperty::custom_header\((.*?)\)\?\s*\.into\(\) ==> { let vx_s = StructProperty::custom_header(\1)?; proof { is_struct(vx_s, rc(old(asset)), false); assert(pstruct(vx_s, rc(old(asset)), false) =~= sbody(vx_s, rc(old(asset)))); } vx_sp(vx_s) }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/map_property.rs MapProperty new params=asset,name,ancestry,include_header,duplication_index attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]"
    ensures r is Ok ==> rd(old(asset), final(asset), pmap(r->Ok_0, rc(old(asset)), include_header)) && r->Ok_0.duplication_index == duplication_index && r->Ok_0.name == name,
//@ rw! (?s)if type_1\.is_none\(\) && type_2\.is_none\(\) \{\s*if let Some\(property\) = asset.*?\n        \}\n ==> \n
//@ rw asset\.read_fname\(\)\? ==> vx_read_type(asset)?
//@ rw (let mut type_[12]) = None ==> \1: Option<FName> = None
//@ rw (let mut property_guid) = None ==> \1: Option<Guid> = None
//@ rw (let mut keys_to_remove) = None ==> \1: Option<Vec<Property>> = None
//@ rw keys_to_remove\.get_or_insert_with\(Vec::new\)\.push\(key\) ==> vx_push_opt(&mut keys_to_remove, key)
//@ rw (type_[12])\.clone\(\) ==> vx_dup(&\1)
//@ rw (let num_entries = asset\.read_i32::<LE>\(\)\?;) ==> let ghost vx_m = *asset; \1 let ghost np = if num_entries > 0 { p32(num_entries as u32) } else { anyb(4) }; proof { rd_any32(&vx_m, asset, num_entries as u32); assert(rd(&vx_m, asset, np)); rd_trans(old(asset), &vx_m, asset, vx_h + pseq(okeys(keys_to_remove), okeys(keys_to_remove).len(), fval(c)), np); }
//@ at body-start
    let ghost c = rc(old(asset));
    proof { rd_nil(asset); }
//@ at pre-loop 0
    let ghost vx_t = if include_header { (ptn(ftxt(type_1)) + ptn(ftxt(type_2))) + pguid(property_guid, c) } else { Seq::empty() };
    let ghost vx_h = vx_t + p32(num_keys_to_remove as u32);
    proof { assert(rd(old(asset), asset, vx_h)); assert(vx_h + Seq::<Pat>::empty() =~= vx_h); }
//@ loop 0 it=it
    invariant okeys(keys_to_remove).len() == it.index(), rd(old(asset), asset, vx_h + pseq(okeys(keys_to_remove), okeys(keys_to_remove).len(), fval(c))), rc(asset) == c,
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, okeys(keys_to_remove));
//@ at loop-end 0
    proof { let k1 = okeys(keys_to_remove); assert(rd(&a1, asset, fval(c)(k1.last()))); pseq_push(vx_h, r1, k1.last(), fval(c)); }
//@ at post-loop 0
    proof { usz_neg(num_keys_to_remove); }
//@ at pre-loop 1
    let ghost vx_g = (vx_h + pseq(okeys(keys_to_remove), okeys(keys_to_remove).len(), fval(c))) + np;
    proof { assert(vx_g + Seq::<Pat>::empty() =~= vx_g); }
//@ loop 1 it=it
    invariant values.e().len() == it.index(), rd(old(asset), asset, vx_g + pseq(values.e(), values.e().len(), fpair(c))), rc(asset) == c,
        values.e().len() > 0 ==> sname(values.e()[0].0) == ftxt(type_1) && sname(values.e()[0].1) == ftxt(type_2),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, values.e());
//@ at loop-end 1
    proof { let k1 = values.e(); assert(rd(&a1, asset, fpair(c)(k1.last()))); pseq_push(vx_g, r1, k1.last(), fpair(c)); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/map_property.rs "PropertyTrait for MapProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(60)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pmap(*self, wc(old(asset)), include_header)) && r->Ok_0 == mlen(*self, wc(old(asset))),
//@ rw Some\(\(_, key, value\)\) = self\.value\.iter\(\)\.next\(\) ==> Some((key, value)) = self.value.vx_first()
//@ rw (?s)let mut name_map = asset\.get_name_map\(\);\s*let mut name_map = name_map\.get_mut\(\); ==> 
//@ rw name_map\.add_fname\(&(\w+)\) ==> vx_dup(vx_add_name(asset, \1.as_str()))
//@ rw drop\(name_map\); ==> 
//@ rw \b(key|value)\.write\(asset, false\) ==> vx_value(\1, asset, false)
//@ rw for \(_, key, value\) in &self\.value ==> for vx_kv in &self.value.vx_entries()
//@ rw (let begin = asset\.position\(\);) ==> \1 let ghost vx_b = *asset; proof { assert(wr(old(asset), &vx_b, mhead(*self, c, include_header))); }
//@ rw (Ok\(\(asset\.position\(\) - begin\) as usize\)) ==> proof { wr_len(old(asset), asset, pmap(*self, c, include_header)); wr_len(old(asset), &vx_b, mhead(*self, c, include_header)); } \1
//@ at body-start
    let ghost c = wc(old(asset));
    let ghost ks = okeys(self.keys_to_remove);
    proof { wr_nil(asset); }
//@ at pre-loop 0
    let ghost vx_h = mhead(*self, c, include_header) + p32(ks.len() as u32);
    proof { assert(vx_h + Seq::<Pat>::empty() =~= vx_h); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(ks), wr(old(asset), asset, vx_h + pseq(ks, it.index() as nat, fval(c))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fval(c)(ks[it.index() as int]))); pseq_step(vx_h, ks, it.index() as nat, fval(c)); }
//@ rw (asset\.write_i32::<LE>\(self\.value\.len\(\) as i32\)\?;) ==> let ghost vx_k = (mhead(*self, c, include_header) + p32(ks.len() as u32)) + pseq(ks, ks.len(), fval(c)); proof { assert((mhead(*self, c, include_header) + p32(ks.len() as u32)) + Seq::<Pat>::empty() =~= mhead(*self, c, include_header) + p32(ks.len() as u32)); assert(wr(old(asset), asset, vx_k)); } \1
//@ at pre-loop 1
    let ghost vx_g = vx_k + p32(self.value.e().len() as u32);
    proof { assert(vx_g + Seq::<Pat>::empty() =~= vx_g); }
//@ loop 1 it=it
    invariant it.seq().len() == self.value.e().len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).1 == self.value.e()[i].0 && *it.seq()[i].2 == self.value.e()[i].1, wr(old(asset), asset, vx_g + pseq(self.value.e(), it.index() as nat, fpair(c))),
//@ at loop-start 1
    let ghost a1 = *asset;
    let (key, value) = (vx_kv.1, vx_kv.2);
//@ at loop-end 1
    proof { assert(wr(&a1, asset, fpair(c)(self.value.e()[it.index() as int]))); pseq_step(vx_g, self.value.e(), it.index() as nat, fpair(c)); }
//@ end
'''
open(HERE+"/plist.vrs","w").write(head.replace("broadcast use {group_arch, group_plen, pname_len, casts::cnt_cast, pf_len};","broadcast use {group_arch, group_plen, pname_len, casts::cnt_cast, pf_len, tn::ptn_len};")+guid+pos+u+"//REST\n} // verus!\nfn main() {}\n")
