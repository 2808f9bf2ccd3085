#![allow(warnings)]
use vstd::prelude::*;
verus! {
// Leaf property values: every reader and writer against one stored form per property kind and package version.
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/strs.rs
}
use base::*;
global size_of usize == 8;
pub enum Error { Any }
pub trait ByteOrder { spec fn little() -> bool; }
pub struct LE;
pub struct BE;
impl ByteOrder for LE { open spec fn little() -> bool { true } }
impl ByteOrder for BE { open spec fn little() -> bool { false } }
#[verifier::external_body]
pub struct FName { x: u8 }
#[derive(Copy, Clone)]
pub struct Guid(pub [u8; 16]);
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=on
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=o5n
macro_rules! cmp_as { ($t:ident, $n:ident) => { verus! {
impl vstd::std_specs::cmp::PartialEqSpecImpl for $t {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &$t) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$t) -> Option<core::cmp::Ordering> {
        if $n(*self) < $n(*o) { Some(core::cmp::Ordering::Less) } else if $n(*self) == $n(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
} } }
cmp_as!(ObjectVersion, on);
cmp_as!(ObjectVersionUE5, o5n);
pub mod arch {
use vstd::prelude::*;
use super::*;
//@ include prelude/arch.rs
//@ include prelude/archx.rs
}
use arch::*;
broadcast use {group_arch, group_plen, pname_len, casts::cnt_cast, pf_len};
pub open spec fn refs_of<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
/// stored form of a single precision number kept in double precision (its bits, unless it is a NaN)
pub mod fl { use vstd::prelude::*; use super::*;
#[verifier::opaque]
pub open spec fn pnarrow(v: F64, c: Ctx) -> Seq<Pat> { if nan(v) && !c.exact { anyb(4) } else { p32(narrow_(v).bits) } }
pub broadcast proof fn pf_len(v: F64, c: Ctx) ensures #[trigger] pnarrow(v, c).len() == 4 { reveal(pnarrow); p32_len(narrow_(v).bits); }
}
use fl::*;
// ---- machine integers ----
pub mod casts { use vstd::prelude::*;
pub broadcast proof fn cnt_cast(n: usize) ensures #[trigger] ((n as i32) as u32) == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); } }
pub proof fn cap(n: i32) requires (n as usize) <= isize::MAX ensures n >= 0, (n as usize) as int == n as int { assert(n < 0 ==> (n as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector); }
pub proof fn cap64(n: i64) requires (n as usize) <= isize::MAX ensures n >= 0, (n as usize) as int == n as int { assert(n < 0 ==> (n as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector); }
/// only returns when that much can be allocated
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty(), n <= isize::MAX { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, n <= isize::MAX { vec![0u8; n] }
pub proof fn pseq_len<T>(s: Seq<T>, n: nat, f: spec_fn(T) -> Seq<Pat>, k: nat)
    requires forall|v: T| (#[trigger] f(v)).len() == k
    ensures pseq(s, n, f).len() == n * k decreases n
{ if n > 0 { pseq_len(s, (n - 1) as nat, f, k); assert((n - 1) * k + k == n * k) by (nonlinear_arith) requires n > 0; } }

// ---- what surrounds the lifted code ----
//@ rewrite <\s*impl PackageIndexTrait\s*> ==>
//@ rewrite where\s+T: Debug \+ Clone \+ PartialEq \+ Eq \+ Hash,? ==>
//@ rewrite \bArchiveReader\b ==> ArchiveReaderX
//@ rewrite \bArchiveWriter\b ==> ArchiveWriterX
//@ rewrite \.ok_or_else\(\s*(\|\|)?\s*\{?\s*(PropertyError|Error)::\w+(\((?:[^()]|\([^()]*\))*\))?\s*\}?\s*\)\? ==> .ok_or(Error::Any)?
//@ rewrite Err\(Error::\w+\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\) ==> Err(Error::Any)
//@ rewrite (self(?:\.\w+)+|\be)\.as_deref\(\) ==> vx_deref(&\1)
//@ rewrite \b(name|new_ancestry|ancestry)\.clone\(\) ==> vx_dup(&\1)
//@ rewrite \bVec::with_capacity\( ==> vx_with_capacity(
//@ rewrite vec!\[0u8; ([^\]]*)\] ==> vx_zeros(\1)
//@ rewrite asset\.(read|write)_property_guid\( ==> \1_property_guid(asset, 
//@ rewrite let version(?:: CustomVersion)? = asset\.get_custom_version::<(\w+)>\(\); ==> let version = VxVer { version: asset.vx_cv::<\1>() };
//@ rewrite asset\s*\.get_custom_version::<(\w+)>\(\)\s*\.version ==> asset.vx_cv::<\1>()
//@ rewrite (F\w+Version)::(\w+)\s+as i32 ==> \1_\2
// f32 kept as f64: the conversions, and the stored form of their result
//@ rewrite asset\.read_f32::<LE>\(\)\? as f64 ==> vx_read_wide(asset)?
//@ rewrite asset\.write_f32::<LE>\((self[\w.]+) as f32\)\? ==> vx_write_narrow(asset, \1)?
//@ rewrite size_of::<(?:i32|u32|f32)>\(\) ==> 4usize
//@ rewrite size_of::<(?:i64|u64|f64)>\(\) ==> 8usize
//@ rewrite size_of::<(?:i16|u16)>\(\) ==> 2usize
//@ rewrite size_of::<(?:i8|u8|bool)>\(\) ==> 1usize
//@ rewrite \bf32\b ==> F32
//@ rewrite \bf64\b ==> F64
// a value that is read and dropped
//@ rewrite ;\s*asset\.read_(i32|u32)::<LE>\(\)\?; ==> ; let ghost vx_q = *asset; let vx_d = asset.read_\1::<LE>()?; proof { rd_any32(&vx_q, asset, vx_d as u32); }
//@ rewrite asset\.write_(i8|u8)\((self\.\w+|history_type)(?:\.into\(\)| as \w+)\) ==> asset.write_\1(\2.to_\1())
//@ rewrite (\w+)\.to_vec\(\) ==> vx_to_vec(&\1)
#[verifier::external_body]
pub fn vx_to_vec<const N: usize>(x: &[u8; N]) -> (r: Vec<u8>) ensures r@ == x@ { x.to_vec() }
pub fn vx_deref<'a>(s: &'a Option<String>) -> (r: Option<&'a str>) ensures dv(r) == sv(*s) { match s { Some(x) => Some(x.as_str()), None => None } }
#[verifier::external_body]
pub fn vx_dup<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[derive(Copy, Clone)]
pub struct OrderedFloat<T>(pub T);
#[verifier::external_body]
pub struct Ancestry { x: u8 }
impl Ancestry { #[verifier::external_body] pub fn with_parent(&self, p: FName) -> Ancestry { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct PackageIndex { pub index: i32 }
impl PackageIndex { pub fn new(index: i32) -> (r: PackageIndex) ensures r.index == index { PackageIndex { index } } }
pub open spec fn lwc(c: Ctx) -> bool { o5n(c.o5) >= o5n(ObjectVersionUE5::LARGE_WORLD_COORDINATES) }
pub open spec fn pf(v: OrderedFloat<F64>, c: Ctx) -> Seq<Pat> { if lwc(c) { p64(v.0.bits) } else { pnarrow(v.0, c) } }
pub fn vx_read_wide<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<F64, Error>)
    ensures r is Ok ==> rd(old(asset), final(asset), pnarrow(r->Ok_0, rc(old(asset)))),
{
    let v = asset.read_f32::<LE>()?;
    let w = widen(v);
    proof { reveal(pnarrow); narrow_widen(v); rd_any32(old(asset), asset, v.bits); }
    Ok(w)
}
pub fn vx_write_narrow<S: ArchiveWriterX>(asset: &mut S, v: F64) -> (r: Result<(), Error>)
    ensures r is Ok ==> wr(old(asset), final(asset), pnarrow(v, wc(old(asset)))),
{ proof { reveal(pnarrow); } asset.write_f32::<LE>(narrow(v)) }
/// four bytes the reader ignores, stored as zero
pub open spec fn pskip(c: Ctx) -> Seq<Pat> { if c.exact { p32(0) } else { anyb(4) } }
/// the flag words the writer stores
pub open spec fn flag(b: bool) -> i32 { if b { 1 } else { 0 } }

// ---- the guid of a property tag ----
#[verifier::opaque]
pub open spec fn pguid(g: Option<Guid>, c: Ctx) -> Seq<Pat> {
    if on(c.ov) >= on(ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG) { match g { Some(x) => pbool(true, c) + pblob(x.0@), None => pbool(false, c) } } else { Seq::empty() }
}
pub open spec fn hdr(b: bool, g: Option<Guid>, c: Ctx) -> Seq<Pat> { if b { pguid(g, c) } else { Seq::empty() } }
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_reader.rs "trait ArchiveReader" read_property_guid mode=free self=S igen="<S: ArchiveReaderX>"
    ensures r is Ok ==> rd(old(this), final(this), pguid(r->Ok_0, rc(old(this)))),
//@ at body-start
    proof { reveal(pguid); rd_nil(this); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_writer.rs "trait ArchiveWriter" write_property_guid mode=free self=S igen="<S: ArchiveWriterX>" params=guid
    ensures r is Ok ==> wr(old(this), final(this), pguid(match guid { Some(x) => Some(*x), None => None }, wc(old(this)))),
//@ at body-start
    proof { reveal(pguid); wr_nil(this); }
//@ end

pub struct FAnimPhysObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FAnimPhysObjectVersion RemoveUIDFromSmartNameSerialize SmartNameRefactorForDeterministicCooking
pub struct FEditorObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FEditorObjectVersion AddedFontFaceAssets CultureInvariantTextSerializationKeyStability
pub struct FFortniteMainBranchObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FFortniteMainBranchObjectVersion WorldCompositionTile3DOffset
//@ struct unreal_asset/unreal_asset_base/src/types/vector.rs Vector
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Vector<T> new params=x,y,z ret=vx_v
    ensures vx_v.x == x, vx_v.y == y, vx_v.z == z,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/vector.rs Vector2
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Vector2<T> new params=x,y ret=vx_v
    ensures vx_v.x == x, vx_v.y == y,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/vector.rs Vector4
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Vector4<T> new params=x,y,z,w ret=vx_v
    ensures vx_v.x == x, vx_v.y == y, vx_v.z == z, vx_v.w == w,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/vector.rs Plane
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Plane<T> new params=x,y,z,w ret=vx_v
    ensures vx_v.x == x, vx_v.y == y, vx_v.z == z, vx_v.w == w,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/vector.rs Color
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Color<T> new params=r,g,b,a ret=vx_v
    ensures vx_v.r == r, vx_v.g == g, vx_v.b == b, vx_v.a == a,
//@ end
pub open spec fn s_argb(c: Color<u8>) -> u32 { ((c.r as u32) << 24) | ((c.g as u32) << 16) | ((c.b as u32) << 8) | (c.a as u32) }
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Color<u8> from_argb params=argb_
    ensures s_argb(r) == argb_ as u32,
//@ at before-tail
    proof { let n = argb_; assert((((((n >> 24) & 0xff) as u8) as u32) << 24) | (((((n >> 16) & 0xff) as u8) as u32) << 16) | (((((n >> 8) & 0xff) as u8) as u32) << 8) | (((n & 0xff) as u8) as u32) == n as u32) by (bit_vector); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/vector.rs Color<u8> to_argb
    ensures r as u32 == s_argb(*self),
//@ at before-tail
    proof { let (a, b, c, d) = (self.r, self.g, self.b, self.a); assert((((a as i32) << 24) | ((b as i32) << 16) | ((c as i32) << 8) | (d as i32)) as u32 == ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32)) by (bit_vector); }
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/int_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs impl_int_property
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs IntProperty
pub open spec fn pv_IntProperty(h: Seq<Pat>, v: IntProperty, c: Ctx) -> Seq<Pat> {
    (h + p32(v.value as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs IntProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_IntProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for IntProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_IntProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_IntProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs Int16Property
pub open spec fn pv_Int16Property(h: Seq<Pat>, v: Int16Property, c: Ctx) -> Seq<Pat> {
    (h + p16(v.value as u16))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs Int16Property new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_Int16Property(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for Int16Property" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_Int16Property(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_Int16Property(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs Int64Property
pub open spec fn pv_Int64Property(h: Seq<Pat>, v: Int64Property, c: Ctx) -> Seq<Pat> {
    (h + p64(v.value as u64))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs Int64Property new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_Int64Property(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for Int64Property" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_Int64Property(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_Int64Property(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs UInt16Property
pub open spec fn pv_UInt16Property(h: Seq<Pat>, v: UInt16Property, c: Ctx) -> Seq<Pat> {
    (h + p16(v.value))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs UInt16Property new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_UInt16Property(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for UInt16Property" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_UInt16Property(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_UInt16Property(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs UInt32Property
pub open spec fn pv_UInt32Property(h: Seq<Pat>, v: UInt32Property, c: Ctx) -> Seq<Pat> {
    (h + p32(v.value))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs UInt32Property new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_UInt32Property(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for UInt32Property" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_UInt32Property(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_UInt32Property(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs UInt64Property
pub open spec fn pv_UInt64Property(h: Seq<Pat>, v: UInt64Property, c: Ctx) -> Seq<Pat> {
    (h + p64(v.value))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs UInt64Property new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_UInt64Property(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for UInt64Property" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_UInt64Property(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_UInt64Property(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs Int8Property
pub open spec fn pv_Int8Property(h: Seq<Pat>, v: Int8Property, c: Ctx) -> Seq<Pat> {
    (h + p8(v.value as u8))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs Int8Property new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_Int8Property(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for Int8Property" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_Int8Property(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_Int8Property(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs FloatProperty
pub open spec fn pv_FloatProperty(h: Seq<Pat>, v: FloatProperty, c: Ctx) -> Seq<Pat> {
    (h + p32(v.value.0.bits))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs FloatProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_FloatProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for FloatProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_FloatProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_FloatProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs DoubleProperty
pub open spec fn pv_DoubleProperty(h: Seq<Pat>, v: DoubleProperty, c: Ctx) -> Seq<Pat> {
    (h + p64(v.value.0.bits))
}
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs DoubleProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_DoubleProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for DoubleProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_DoubleProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_DoubleProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs BoolProperty
pub open spec fn pv_BoolProperty(b: bool, v: BoolProperty, c: Ctx) -> Seq<Pat> { pbool(v.value, c) + hdr(b, v.property_guid, c) }
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs BoolProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_BoolProperty(include_header, v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for BoolProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_BoolProperty(include_header, *self, wc(old(asset)))) && r->Ok_0 == 0,
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/color_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/color_property.rs ColorProperty
pub open spec fn pv_ColorProperty(h: Seq<Pat>, v: ColorProperty, c: Ctx) -> Seq<Pat> {
    (h + p32(s_argb(v.color)))
}
//@ fn unreal_asset/unreal_asset_properties/src/color_property.rs ColorProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_ColorProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/color_property.rs "PropertyTrait for ColorProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_ColorProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_ColorProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/color_property.rs LinearColorProperty
pub open spec fn pv_LinearColorProperty(h: Seq<Pat>, v: LinearColorProperty, c: Ctx) -> Seq<Pat> {
    ((((h + p32(v.color.r.0.bits)) + p32(v.color.g.0.bits)) + p32(v.color.b.0.bits)) + p32(v.color.a.0.bits))
}
//@ fn unreal_asset/unreal_asset_properties/src/color_property.rs LinearColorProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_LinearColorProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/color_property.rs "PropertyTrait for LinearColorProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_LinearColorProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_LinearColorProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/date_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/date_property.rs TimeSpanProperty
pub open spec fn pv_TimeSpanProperty(h: Seq<Pat>, v: TimeSpanProperty, c: Ctx) -> Seq<Pat> {
    (h + p64(v.ticks as u64))
}
//@ fn unreal_asset/unreal_asset_properties/src/date_property.rs TimeSpanProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_TimeSpanProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/date_property.rs "PropertyTrait for TimeSpanProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_TimeSpanProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_TimeSpanProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/date_property.rs DateTimeProperty
pub open spec fn pv_DateTimeProperty(h: Seq<Pat>, v: DateTimeProperty, c: Ctx) -> Seq<Pat> {
    (h + p64(v.ticks as u64))
}
//@ fn unreal_asset/unreal_asset_properties/src/date_property.rs DateTimeProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_DateTimeProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/date_property.rs "PropertyTrait for DateTimeProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_DateTimeProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_DateTimeProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/guid_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/guid_property.rs GuidProperty
pub open spec fn pv_GuidProperty(h: Seq<Pat>, v: GuidProperty, c: Ctx) -> Seq<Pat> {
    (h + pblob(v.value.0@))
}
//@ fn unreal_asset/unreal_asset_properties/src/guid_property.rs GuidProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_GuidProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/guid_property.rs "PropertyTrait for GuidProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_GuidProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_GuidProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
pub open spec fn pf3(v: Vector<OrderedFloat<F64>>, c: Ctx) -> Seq<Pat> { (pf(v.x, c) + pf(v.y, c)) + pf(v.z, c) }
//@ macros unreal_asset/unreal_asset_properties/src/vector_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs VectorProperty
pub open spec fn pv_VectorProperty(h: Seq<Pat>, v: VectorProperty, c: Ctx) -> Seq<Pat> {
    (((h + pf(v.value.x, c)) + pf(v.value.y, c)) + pf(v.value.z, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs VectorProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_VectorProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for VectorProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_VectorProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_VectorProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs RotatorProperty
pub open spec fn pv_RotatorProperty(h: Seq<Pat>, v: RotatorProperty, c: Ctx) -> Seq<Pat> {
    (((h + pf(v.value.x, c)) + pf(v.value.y, c)) + pf(v.value.z, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs RotatorProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_RotatorProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for RotatorProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_RotatorProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_RotatorProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs Vector4Property
pub open spec fn pv_Vector4Property(h: Seq<Pat>, v: Vector4Property, c: Ctx) -> Seq<Pat> {
    ((((h + pf(v.value.x, c)) + pf(v.value.y, c)) + pf(v.value.z, c)) + pf(v.value.w, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs Vector4Property new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_Vector4Property(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for Vector4Property" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_Vector4Property(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_Vector4Property(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs QuatProperty
pub open spec fn pv_QuatProperty(h: Seq<Pat>, v: QuatProperty, c: Ctx) -> Seq<Pat> {
    ((((h + pf(v.value.x, c)) + pf(v.value.y, c)) + pf(v.value.z, c)) + pf(v.value.w, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs QuatProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_QuatProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for QuatProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_QuatProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_QuatProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs PlaneProperty
pub open spec fn pv_PlaneProperty(h: Seq<Pat>, v: PlaneProperty, c: Ctx) -> Seq<Pat> {
    ((((h + pf(v.value.x, c)) + pf(v.value.y, c)) + pf(v.value.z, c)) + pf(v.value.w, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs PlaneProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_PlaneProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for PlaneProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_PlaneProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_PlaneProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs Vector2DProperty
pub open spec fn pv_Vector2DProperty(h: Seq<Pat>, v: Vector2DProperty, c: Ctx) -> Seq<Pat> {
    ((h + pf(v.value.x, c)) + pf(v.value.y, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs Vector2DProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_Vector2DProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for Vector2DProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_Vector2DProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_Vector2DProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs IntPointProperty
pub open spec fn pv_IntPointProperty(h: Seq<Pat>, v: IntPointProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value.x as u32)) + p32(v.value.y as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs IntPointProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_IntPointProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for IntPointProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_IntPointProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_IntPointProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs BoxProperty
pub open spec fn pv_BoxProperty(h: Seq<Pat>, v: BoxProperty, c: Ctx) -> Seq<Pat> {
    (((h + pv_VectorProperty(Seq::empty(), v.v1, c)) + pv_VectorProperty(Seq::empty(), v.v2, c)) + pbool(v.is_valid, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs BoxProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_BoxProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for BoxProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_BoxProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_BoxProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/vector_property.rs Box2DProperty
pub open spec fn pv_Box2DProperty(h: Seq<Pat>, v: Box2DProperty, c: Ctx) -> Seq<Pat> {
    (((h + pv_Vector2DProperty(Seq::empty(), v.v1, c)) + pv_Vector2DProperty(Seq::empty(), v.v2, c)) + pbool(v.is_valid, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs Box2DProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_Box2DProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/vector_property.rs "PropertyTrait for Box2DProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_Box2DProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_Box2DProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/delegate_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs impl_multicast
//@ struct unreal_asset/unreal_asset_properties/src/delegate_property.rs Delegate
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs Delegate new params=object,delegate
    ensures r.object == object && r.delegate == delegate,
//@ end
pub open spec fn f_del() -> spec_fn(Delegate) -> Seq<Pat> { |d: Delegate| p32(d.object.index as u32) + pname(d.delegate) }
//@ struct unreal_asset/unreal_asset_properties/src/delegate_property.rs DelegateProperty
pub open spec fn pv_DelegateProperty(h: Seq<Pat>, v: DelegateProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value.object.index as u32)) + pname(v.value.delegate))
}
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs DelegateProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_DelegateProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs "PropertyTrait for DelegateProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_DelegateProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_DelegateProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/delegate_property.rs MulticastDelegateProperty
pub open spec fn pv_MulticastDelegateProperty(h: Seq<Pat>, v: MulticastDelegateProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value@.len() as u32)) + pseq(v.value@, v.value@.len(), f_del()))
}
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs MulticastDelegateProperty new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MulticastDelegateProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(length); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(length as u32);
//@ loop 0 it=it
    invariant value@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(value@, value@.len(), f_del())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, value@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_del()(value@.last()))); pseq_push(vx_p0, r1, value@.last(), f_del()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs "PropertyTrait for MulticastDelegateProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.value@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MulticastDelegateProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MulticastDelegateProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.value.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_p0 + pseq(self.value@, it.index() as nat, f_del())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_del()(self.value@[it.index() as int]))); pseq_step(vx_p0, self.value@, it.index() as nat, f_del()); }
//@ at post-loop 0
    proof { pseq_len(self.value@, self.value@.len(), f_del(), 12); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/delegate_property.rs MulticastSparseDelegateProperty
pub open spec fn pv_MulticastSparseDelegateProperty(h: Seq<Pat>, v: MulticastSparseDelegateProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value@.len() as u32)) + pseq(v.value@, v.value@.len(), f_del()))
}
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs MulticastSparseDelegateProperty new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MulticastSparseDelegateProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(length); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(length as u32);
//@ loop 0 it=it
    invariant value@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(value@, value@.len(), f_del())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, value@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_del()(value@.last()))); pseq_push(vx_p0, r1, value@.last(), f_del()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs "PropertyTrait for MulticastSparseDelegateProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.value@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MulticastSparseDelegateProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MulticastSparseDelegateProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.value.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_p0 + pseq(self.value@, it.index() as nat, f_del())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_del()(self.value@[it.index() as int]))); pseq_step(vx_p0, self.value@, it.index() as nat, f_del()); }
//@ at post-loop 0
    proof { pseq_len(self.value@, self.value@.len(), f_del(), 12); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/delegate_property.rs MulticastInlineDelegateProperty
pub open spec fn pv_MulticastInlineDelegateProperty(h: Seq<Pat>, v: MulticastInlineDelegateProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value@.len() as u32)) + pseq(v.value@, v.value@.len(), f_del()))
}
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs MulticastInlineDelegateProperty new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MulticastInlineDelegateProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(length); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(length as u32);
//@ loop 0 it=it
    invariant value@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(value@, value@.len(), f_del())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, value@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_del()(value@.last()))); pseq_push(vx_p0, r1, value@.last(), f_del()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/delegate_property.rs "PropertyTrait for MulticastInlineDelegateProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.value@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MulticastInlineDelegateProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MulticastInlineDelegateProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.value.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_p0 + pseq(self.value@, it.index() as nat, f_del())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_del()(self.value@[it.index() as int]))); pseq_step(vx_p0, self.value@, it.index() as nat, f_del()); }
//@ at post-loop 0
    proof { pseq_len(self.value@, self.value@.len(), f_del(), 12); }
//@ end
pub open spec fn f_name() -> spec_fn(FName) -> Seq<Pat> { |v: FName| pname(v) }
pub open spec fn f_i32() -> spec_fn(i32) -> Seq<Pat> { |v: i32| p32(v as u32) }
pub open spec fn f_f32() -> spec_fn(OrderedFloat<F32>) -> Seq<Pat> { |v: OrderedFloat<F32>| p32(v.0.bits) }
pub open spec fn f_bool(c: Ctx) -> spec_fn(bool) -> Seq<Pat> { |v: bool| pbool(v, c) }
//@ macros unreal_asset/unreal_asset_properties/src/per_platform_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/per_platform_property.rs PerPlatformIntProperty
pub open spec fn pv_PerPlatformIntProperty(h: Seq<Pat>, v: PerPlatformIntProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value@.len() as u32)) + pseq(v.value@, v.value@.len(), f_i32()))
}
//@ fn unreal_asset/unreal_asset_properties/src/per_platform_property.rs PerPlatformIntProperty new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_PerPlatformIntProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(num_entries); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(num_entries as u32);
//@ loop 0 it=it
    invariant value@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(value@, value@.len(), f_i32())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, value@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_i32()(value@.last()))); pseq_push(vx_p0, r1, value@.last(), f_i32()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/per_platform_property.rs "PropertyTrait for PerPlatformIntProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.value@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_PerPlatformIntProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_PerPlatformIntProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.value.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_p0 + pseq(self.value@, it.index() as nat, f_i32())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_i32()(self.value@[it.index() as int]))); pseq_step(vx_p0, self.value@, it.index() as nat, f_i32()); }
//@ at post-loop 0
    proof { pseq_len(self.value@, self.value@.len(), f_i32(), 4); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/per_platform_property.rs PerPlatformFloatProperty
pub open spec fn pv_PerPlatformFloatProperty(h: Seq<Pat>, v: PerPlatformFloatProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value@.len() as u32)) + pseq(v.value@, v.value@.len(), f_f32()))
}
//@ fn unreal_asset/unreal_asset_properties/src/per_platform_property.rs PerPlatformFloatProperty new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_PerPlatformFloatProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(num_entries); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(num_entries as u32);
//@ loop 0 it=it
    invariant value@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(value@, value@.len(), f_f32())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, value@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_f32()(value@.last()))); pseq_push(vx_p0, r1, value@.last(), f_f32()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/per_platform_property.rs "PropertyTrait for PerPlatformFloatProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.value@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_PerPlatformFloatProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_PerPlatformFloatProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.value.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_p0 + pseq(self.value@, it.index() as nat, f_f32())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_f32()(self.value@[it.index() as int]))); pseq_step(vx_p0, self.value@, it.index() as nat, f_f32()); }
//@ at post-loop 0
    proof { pseq_len(self.value@, self.value@.len(), f_f32(), 4); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/per_platform_property.rs PerPlatformBoolProperty
pub open spec fn pv_PerPlatformBoolProperty(h: Seq<Pat>, v: PerPlatformBoolProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value@.len() as u32)) + pseq(v.value@, v.value@.len(), f_bool(c)))
}
//@ fn unreal_asset/unreal_asset_properties/src/per_platform_property.rs PerPlatformBoolProperty new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_PerPlatformBoolProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(num_entries); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(num_entries as u32);
//@ loop 0 it=it
    invariant value@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(value@, value@.len(), f_bool(rc(old(asset))))),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, value@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_bool(rc(old(asset)))(value@.last()))); pseq_push(vx_p0, r1, value@.last(), f_bool(rc(old(asset)))); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/per_platform_property.rs "PropertyTrait for PerPlatformBoolProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.value@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_PerPlatformBoolProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_PerPlatformBoolProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.value.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_p0 + pseq(self.value@, it.index() as nat, f_bool(wc(old(asset))))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_bool(wc(old(asset)))(self.value@[it.index() as int]))); pseq_step(vx_p0, self.value@, it.index() as nat, f_bool(wc(old(asset)))); }
//@ at post-loop 0
    proof { pseq_len(self.value@, self.value@.len(), f_bool(wc(old(asset))), 1); }
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs GameplayTagContainerProperty
pub open spec fn pv_GameplayTagContainerProperty(h: Seq<Pat>, v: GameplayTagContainerProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.value@.len() as u32)) + pseq(v.value@, v.value@.len(), f_name()))
}
//@ fn unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs GameplayTagContainerProperty new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_GameplayTagContainerProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(length); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(length as u32);
//@ loop 0 it=it
    invariant value@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(value@, value@.len(), f_name())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, value@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_name()(value@.last()))); pseq_push(vx_p0, r1, value@.last(), f_name()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs "PropertyTrait for GameplayTagContainerProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.value@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_GameplayTagContainerProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_GameplayTagContainerProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.value.len() as u32);
//@ loop 0 it=it
    invariant total_size == 4 + 8 * it.index(), it.seq() == refs_of(self.value@), wr(old(asset), asset, vx_p0 + pseq(self.value@, it.index() as nat, f_name())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_name()(self.value@[it.index() as int]))); pseq_step(vx_p0, self.value@, it.index() as nat, f_name()); }
//@ at post-loop 0
    proof { pseq_len(self.value@, self.value@.len(), f_name(), 8); }
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/float_range_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/float_range_property.rs FloatRangeProperty
pub open spec fn pv_FloatRangeProperty(h: Seq<Pat>, v: FloatRangeProperty, c: Ctx) -> Seq<Pat> {
    ((h + p32(v.lower_bound.0.bits)) + p32(v.upper_bound.0.bits))
}
//@ fn unreal_asset/unreal_asset_properties/src/float_range_property.rs FloatRangeProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_FloatRangeProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/float_range_property.rs "PropertyTrait for FloatRangeProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_FloatRangeProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_FloatRangeProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/font_character_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/font_character_property.rs FontCharacter
pub open spec fn pr_FontCharacter(v: FontCharacter, c: Ctx) -> Seq<Pat> {
    ((((((Seq::<Pat>::empty() + p32(v.start_u as u32)) + p32(v.start_v as u32)) + p32(v.size_u as u32)) + p32(v.size_v as u32)) + p8(v.texture_index)) + p32(v.vertical_offset as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/font_character_property.rs FontCharacter new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_FontCharacter(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/font_character_property.rs FontCharacter write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FontCharacter(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/font_character_property.rs FontCharacterProperty
pub open spec fn pv_FontCharacterProperty(h: Seq<Pat>, v: FontCharacterProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_FontCharacter(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/font_character_property.rs FontCharacterProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_FontCharacterProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/font_character_property.rs "PropertyTrait for FontCharacterProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_FontCharacterProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_FontCharacterProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ enumnum unreal_asset/unreal_asset_properties/src/rich_curve_key_property.rs RichCurveExtrapolation
//@ enumnum unreal_asset/unreal_asset_properties/src/rich_curve_key_property.rs RichCurveInterpMode
//@ enumnum unreal_asset/unreal_asset_properties/src/rich_curve_key_property.rs RichCurveTangentMode
//@ enumnum unreal_asset/unreal_asset_properties/src/rich_curve_key_property.rs RichCurveTangentWeightMode
//@ macros unreal_asset/unreal_asset_properties/src/rich_curve_key_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/rich_curve_key_property.rs RichCurveKeyProperty
pub open spec fn pv_RichCurveKeyProperty(h: Seq<Pat>, v: RichCurveKeyProperty, c: Ctx) -> Seq<Pat> {
    (((((((((h + p8(RichCurveInterpMode_n(v.interp_mode) as u8)) + p8(RichCurveTangentMode_n(v.tangent_mode) as u8)) + p8(RichCurveTangentWeightMode_n(v.tangent_weight_mode) as u8)) + p32(v.time.0.bits)) + p32(v.value.0.bits)) + p32(v.arrive_tangent.0.bits)) + p32(v.arrive_tangent_weight.0.bits)) + p32(v.leave_tangent.0.bits)) + p32(v.leave_tangent_weight.0.bits))
}
//@ fn unreal_asset/unreal_asset_properties/src/rich_curve_key_property.rs RichCurveKeyProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_RichCurveKeyProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/rich_curve_key_property.rs "PropertyTrait for RichCurveKeyProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_RichCurveKeyProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_RichCurveKeyProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/sampler_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/sampler_property.rs WeightedRandomSamplerProperty
pub open spec fn pv_WeightedRandomSamplerProperty(h: Seq<Pat>, v: WeightedRandomSamplerProperty, c: Ctx) -> Seq<Pat> {
    (((((h + p32(v.prob@.len() as u32)) + pseq(v.prob@, v.prob@.len(), f_f32())) + p32(v.alias@.len() as u32)) + pseq(v.alias@, v.alias@.len(), f_i32())) + p32(v.total_weight.0.bits))
}
//@ fn unreal_asset/unreal_asset_properties/src/sampler_property.rs WeightedRandomSamplerProperty new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_WeightedRandomSamplerProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(size); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(size as u32);
//@ loop 0 it=it
    invariant prob@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(prob@, prob@.len(), f_f32())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, prob@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_f32()(prob@.last()))); pseq_push(vx_p0, r1, prob@.last(), f_f32()); }
//@ at pre-loop 1
    proof { cap(size); }
    let ghost vx_p1 = vx_p0 + pseq(prob@, prob@.len(), f_f32()) + p32(size as u32);
//@ loop 1 it=it
    invariant alias@.len() == it.index(), rd(old(asset), asset, vx_p1 + pseq(alias@, alias@.len(), f_i32())),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, alias@);
//@ at loop-end 1
    proof { assert(rd(&a1, asset, f_i32()(alias@.last()))); pseq_push(vx_p1, r1, alias@.last(), f_i32()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/sampler_property.rs "PropertyTrait for WeightedRandomSamplerProperty" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.prob@.len() <= i32::MAX, self.alias@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_WeightedRandomSamplerProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_WeightedRandomSamplerProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.prob.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.prob@), wr(old(asset), asset, vx_p0 + pseq(self.prob@, it.index() as nat, f_f32())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_f32()(self.prob@[it.index() as int]))); pseq_step(vx_p0, self.prob@, it.index() as nat, f_f32()); }
//@ at post-loop 0
    proof { pseq_len(self.prob@, self.prob@.len(), f_f32(), 4); }
//@ at pre-loop 1
    let ghost vx_p1 = vx_p0 + pseq(self.prob@, self.prob@.len(), f_f32()) + p32(self.alias.len() as u32);
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.alias@), wr(old(asset), asset, vx_p1 + pseq(self.alias@, it.index() as nat, f_i32())),
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, f_i32()(self.alias@[it.index() as int]))); pseq_step(vx_p1, self.alias@, it.index() as nat, f_i32()); }
//@ at post-loop 1
    proof { pseq_len(self.alias@, self.alias@.len(), f_i32(), 4); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/sampler_property.rs SkeletalMeshAreaWeightedTriangleSampler
pub open spec fn pv_SkeletalMeshAreaWeightedTriangleSampler(h: Seq<Pat>, v: SkeletalMeshAreaWeightedTriangleSampler, c: Ctx) -> Seq<Pat> {
    (((((h + p32(v.prob@.len() as u32)) + pseq(v.prob@, v.prob@.len(), f_f32())) + p32(v.alias@.len() as u32)) + pseq(v.alias@, v.alias@.len(), f_i32())) + p32(v.total_weight.0.bits))
}
//@ fn unreal_asset/unreal_asset_properties/src/sampler_property.rs SkeletalMeshAreaWeightedTriangleSampler new params=asset,name,ancestry,include_header,_length,duplication_index attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_SkeletalMeshAreaWeightedTriangleSampler(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ at pre-loop 0
    proof { cap(size); }
    let ghost vx_p0 = hdr(include_header, property_guid, rc(old(asset))) + p32(size as u32);
//@ loop 0 it=it
    invariant prob@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(prob@, prob@.len(), f_f32())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, prob@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_f32()(prob@.last()))); pseq_push(vx_p0, r1, prob@.last(), f_f32()); }
//@ at pre-loop 1
    proof { cap(size); }
    let ghost vx_p1 = vx_p0 + pseq(prob@, prob@.len(), f_f32()) + p32(size as u32);
//@ loop 1 it=it
    invariant alias@.len() == it.index(), rd(old(asset), asset, vx_p1 + pseq(alias@, alias@.len(), f_i32())),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, alias@);
//@ at loop-end 1
    proof { assert(rd(&a1, asset, f_i32()(alias@.last()))); pseq_push(vx_p1, r1, alias@.last(), f_i32()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/sampler_property.rs "PropertyTrait for SkeletalMeshAreaWeightedTriangleSampler" write params=asset,include_header attr="#[verifier::loop_isolation(false)]"
    requires self.prob@.len() <= i32::MAX, self.alias@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_SkeletalMeshAreaWeightedTriangleSampler(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_SkeletalMeshAreaWeightedTriangleSampler(Seq::empty(), *self, wc(old(asset))).len(),
//@ at pre-loop 0
    let ghost vx_p0 = hdr(include_header, self.property_guid, wc(old(asset))) + p32(self.prob.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.prob@), wr(old(asset), asset, vx_p0 + pseq(self.prob@, it.index() as nat, f_f32())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_f32()(self.prob@[it.index() as int]))); pseq_step(vx_p0, self.prob@, it.index() as nat, f_f32()); }
//@ at post-loop 0
    proof { pseq_len(self.prob@, self.prob@.len(), f_f32(), 4); }
//@ at pre-loop 1
    let ghost vx_p1 = vx_p0 + pseq(self.prob@, self.prob@.len(), f_f32()) + p32(self.alias.len() as u32);
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.alias@), wr(old(asset), asset, vx_p1 + pseq(self.alias@, it.index() as nat, f_i32())),
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, f_i32()(self.alias@[it.index() as int]))); pseq_step(vx_p1, self.alias@, it.index() as nat, f_i32()); }
//@ at post-loop 1
    proof { pseq_len(self.alias@, self.alias@.len(), f_i32(), 4); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/sampler_property.rs SkeletalMeshSamplingLODBuiltDataProperty
pub open spec fn pv_SkeletalMeshSamplingLODBuiltDataProperty(h: Seq<Pat>, v: SkeletalMeshSamplingLODBuiltDataProperty, c: Ctx) -> Seq<Pat> {
    (h + pv_WeightedRandomSamplerProperty(Seq::empty(), v.sampler_property, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/sampler_property.rs SkeletalMeshSamplingLODBuiltDataProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_SkeletalMeshSamplingLODBuiltDataProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/sampler_property.rs "PropertyTrait for SkeletalMeshSamplingLODBuiltDataProperty" write params=asset,include_header
    requires self.sampler_property.prob@.len() <= i32::MAX, self.sampler_property.alias@.len() <= i32::MAX,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_SkeletalMeshSamplingLODBuiltDataProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_SkeletalMeshSamplingLODBuiltDataProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/smart_name_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/smart_name_property.rs SmartNameProperty
pub open spec fn pv_SmartNameProperty(h: Seq<Pat>, v: SmartNameProperty, c: Ctx) -> Seq<Pat> {
    let x1 = (h + pname(v.display_name));
    let x2 = if cvn::<FAnimPhysObjectVersion>(c.cv) < FAnimPhysObjectVersion_RemoveUIDFromSmartNameSerialize { (x1 + p16(v.smart_name_id->0)) } else { x1 };
    let x3 = x2;
    let x4 = if cvn::<FAnimPhysObjectVersion>(c.cv) < FAnimPhysObjectVersion_SmartNameRefactorForDeterministicCooking { (x3 + pblob((v.temp_guid->0).0@)) } else { x3 };
    x4
}
//@ fn unreal_asset/unreal_asset_properties/src/smart_name_property.rs SmartNameProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_SmartNameProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && (r->Ok_0.smart_name_id is Some == (cvn::<FAnimPhysObjectVersion>(old(asset).cv()) < FAnimPhysObjectVersion_RemoveUIDFromSmartNameSerialize)) && (r->Ok_0.temp_guid is Some == (cvn::<FAnimPhysObjectVersion>(old(asset).cv()) < FAnimPhysObjectVersion_SmartNameRefactorForDeterministicCooking)),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/smart_name_property.rs "PropertyTrait for SmartNameProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_SmartNameProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_SmartNameProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/object_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/object_property.rs ObjectProperty
pub open spec fn pv_ObjectProperty(h: Seq<Pat>, v: ObjectProperty, c: Ctx) -> Seq<Pat> {
    (h + p32(v.value.index as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs ObjectProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_ObjectProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs "PropertyTrait for ObjectProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_ObjectProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_ObjectProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/object_property.rs AssetObjectProperty
pub open spec fn pv_AssetObjectProperty(h: Seq<Pat>, v: AssetObjectProperty, c: Ctx) -> Seq<Pat> {
    (h + pstr(sv(v.value)))
}
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs AssetObjectProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_AssetObjectProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs "PropertyTrait for AssetObjectProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_AssetObjectProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_AssetObjectProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/object_property.rs TopLevelAssetPath
pub open spec fn pr_TopLevelAssetPath(v: TopLevelAssetPath, c: Ctx) -> Seq<Pat> {
    let x1 = Seq::<Pat>::empty();
    let x2 = if o5n(c.o5) >= o5n(ObjectVersionUE5::FSOFTOBJECTPATH_REMOVE_ASSET_PATH_FNAMES) { (x1 + pname(v.package_name->0)) } else { x1 };
    (x2 + pname(v.asset_name))
}
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs TopLevelAssetPath read params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_TopLevelAssetPath(r->Ok_0, rc(old(asset)))) && ((r->Ok_0.package_name is Some) == (o5n(old(asset).o5()) >= o5n(ObjectVersionUE5::FSOFTOBJECTPATH_REMOVE_ASSET_PATH_FNAMES))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs TopLevelAssetPath write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_TopLevelAssetPath(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/object_property.rs SoftObjectPath
pub open spec fn pr_SoftObjectPath(v: SoftObjectPath, c: Ctx) -> Seq<Pat> {
    ((Seq::<Pat>::empty() + pr_TopLevelAssetPath(v.asset_path, c)) + pstr(sv(v.sub_path_string)))
}
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs SoftObjectPath new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_SoftObjectPath(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs SoftObjectPath write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_SoftObjectPath(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/object_property.rs SoftObjectProperty
pub open spec fn pv_SoftObjectProperty(h: Seq<Pat>, v: SoftObjectProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_SoftObjectPath(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs SoftObjectProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_SoftObjectProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/object_property.rs "PropertyTrait for SoftObjectProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_SoftObjectProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_SoftObjectProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/soft_path_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs impl_soft_path_property
//@ enum unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftObjectPathPropertyValue
pub open spec fn pr_SoftObjectPathPropertyValue(v: SoftObjectPathPropertyValue, c: Ctx) -> Seq<Pat> {
    (Seq::<Pat>::empty() + (match v { SoftObjectPathPropertyValue::Old(s) => pstr(sv(s)), SoftObjectPathPropertyValue::New(p) => pr_SoftObjectPath(p, c) }))
}
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftObjectPathPropertyValue new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_SoftObjectPathPropertyValue(r->Ok_0, rc(old(asset)))) && (r->Ok_0 is Old == (on(old(asset).ov()) < on(ObjectVersion::VER_UE4_ADDED_SOFT_OBJECT_PATH))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftObjectPathPropertyValue write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_SoftObjectPathPropertyValue(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftAssetPathProperty
pub open spec fn pv_SoftAssetPathProperty(h: Seq<Pat>, v: SoftAssetPathProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_SoftObjectPathPropertyValue(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftAssetPathProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_SoftAssetPathProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs "PropertyTrait for SoftAssetPathProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_SoftAssetPathProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_SoftAssetPathProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftObjectPathProperty
pub open spec fn pv_SoftObjectPathProperty(h: Seq<Pat>, v: SoftObjectPathProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_SoftObjectPathPropertyValue(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftObjectPathProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_SoftObjectPathProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs "PropertyTrait for SoftObjectPathProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_SoftObjectPathProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_SoftObjectPathProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftClassPathProperty
pub open spec fn pv_SoftClassPathProperty(h: Seq<Pat>, v: SoftClassPathProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_SoftObjectPathPropertyValue(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs SoftClassPathProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_SoftClassPathProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs "PropertyTrait for SoftClassPathProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_SoftClassPathProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_SoftClassPathProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/soft_path_property.rs StringAssetReferenceProperty
pub open spec fn pv_StringAssetReferenceProperty(h: Seq<Pat>, v: StringAssetReferenceProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_SoftObjectPathPropertyValue(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs StringAssetReferenceProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_StringAssetReferenceProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/soft_path_property.rs "PropertyTrait for StringAssetReferenceProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_StringAssetReferenceProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_StringAssetReferenceProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/str_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/str_property.rs NameProperty
pub open spec fn pv_NameProperty(h: Seq<Pat>, v: NameProperty, c: Ctx) -> Seq<Pat> {
    (h + pname(v.value))
}
//@ fn unreal_asset/unreal_asset_properties/src/str_property.rs NameProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_NameProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/str_property.rs "PropertyTrait for NameProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_NameProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_NameProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/str_property.rs StrProperty
pub open spec fn pv_StrProperty(h: Seq<Pat>, v: StrProperty, c: Ctx) -> Seq<Pat> {
    (h + pstr(sv(v.value)))
}
//@ fn unreal_asset/unreal_asset_properties/src/str_property.rs StrProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_StrProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/str_property.rs "PropertyTrait for StrProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_StrProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_StrProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/unknown_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/unknown_property.rs UnknownProperty
pub open spec fn pv_UnknownProperty(h: Seq<Pat>, v: UnknownProperty, c: Ctx) -> Seq<Pat> {
    (h + pblob(v.value@))
}
//@ fn unreal_asset/unreal_asset_properties/src/unknown_property.rs UnknownProperty new params=asset,name,ancestry,include_header,length,duplication_index,serialized_type
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_UnknownProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && r->Ok_0.value@.len() == length && r->Ok_0.serialized_type == serialized_type,
//@ rw asset\.read_exact\(&mut value\) ==> asset.read_exact_vec(&mut value)
//@ rw (let mut value = vec!\[0u8; length as usize\];) ==> \1 proof { cap64(length); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/unknown_property.rs "PropertyTrait for UnknownProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_UnknownProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_UnknownProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ enumnum unreal_asset/unreal_asset_properties/src/view_target_blend_property.rs ViewTargetBlendFunction
//@ macros unreal_asset/unreal_asset_properties/src/view_target_blend_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/view_target_blend_property.rs ViewTargetBlendParamsProperty
pub open spec fn pv_ViewTargetBlendParamsProperty(h: Seq<Pat>, v: ViewTargetBlendParamsProperty, w: i32, c: Ctx) -> Seq<Pat> {
    ((((h + p32(v.blend_time.0.bits)) + p8(ViewTargetBlendFunction_n(v.blend_function))) + p32(v.blend_exp.0.bits)) + p32(w as u32))
}
pub open spec fn ok_ViewTargetBlendParamsProperty(v: ViewTargetBlendParamsProperty, w: i32, c: Ctx) -> bool { v.lock_outgoing == (w != 0) }
pub open spec fn rd_ViewTargetBlendParamsProperty<S: Archive + ?Sized>(a: &S, b: &S, include_header: bool, v: ViewTargetBlendParamsProperty) -> bool { exists|w: i32| #[trigger] ok_ViewTargetBlendParamsProperty(v, w, rc(a)) && rd(a, b, pv_ViewTargetBlendParamsProperty(hdr(include_header, v.property_guid, rc(a)), v, w, rc(a))) }
//@ fn unreal_asset/unreal_asset_properties/src/view_target_blend_property.rs ViewTargetBlendParamsProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd_ViewTargetBlendParamsProperty(old(asset), final(asset), include_header, v) }),
//@ at body-start
    let ghost mut vx_w: i32 = 0;
//@ rw! asset\.read_i32::<LE>\(\)\? (!= 0|== 1) ==> { let vx_x = asset.read_i32::<LE>()?; proof { vx_w = vx_x; } vx_x \1 }
//@ rw! Ok\((ViewTargetBlendParamsProperty \{[^}]*\})\) ==> let vx_r = \1; proof { assert(ok_ViewTargetBlendParamsProperty(vx_r, vx_w, rc(old(asset)))); assert(rd_ViewTargetBlendParamsProperty(old(asset), asset, include_header, vx_r)); } Ok(vx_r)
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/view_target_blend_property.rs "PropertyTrait for ViewTargetBlendParamsProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_ViewTargetBlendParamsProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, flag(self.lock_outgoing), wc(old(asset)))) && r->Ok_0 == pv_ViewTargetBlendParamsProperty(Seq::empty(), *self, flag(self.lock_outgoing), wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/material_input_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/material_input_property.rs MaterialExpression
pub open spec fn pr_MaterialExpression(v: MaterialExpression, c: Ctx) -> Seq<Pat> {
    ((((Seq::<Pat>::empty() + p32(v.output_index as u32)) + pname(v.input_name)) + pblob(v.extras@)) + pname(v.expression_name))
}
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs MaterialExpression new params=asset,name,_include_header
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MaterialExpression(r->Ok_0, rc(old(asset)))) && (r->Ok_0.name == name && r->Ok_0.extras@.len() == 20),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs MaterialExpression write params=asset,_include_header
    requires self.extras@.len() == 20,
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MaterialExpression(*self, wc(old(asset)))) && r->Ok_0 == pr_MaterialExpression(*self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/material_input_property.rs ColorMaterialInputProperty
pub open spec fn pv_ColorMaterialInputProperty(h: Seq<Pat>, v: ColorMaterialInputProperty, c: Ctx) -> Seq<Pat> {
    (((h + pr_MaterialExpression(v.material_expression, c)) + pskip(c)) + pv_ColorProperty(Seq::empty(), v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs ColorMaterialInputProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_ColorMaterialInputProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && r->Ok_0.material_expression.extras@.len() == 20,
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs "PropertyTrait for ColorMaterialInputProperty" write params=asset,include_header
    requires self.material_expression.extras@.len() == 20,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_ColorMaterialInputProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_ColorMaterialInputProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/material_input_property.rs ScalarMaterialInputProperty
pub open spec fn pv_ScalarMaterialInputProperty(h: Seq<Pat>, v: ScalarMaterialInputProperty, c: Ctx) -> Seq<Pat> {
    (((h + pr_MaterialExpression(v.material_expression, c)) + pskip(c)) + p32(v.value.0.bits))
}
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs ScalarMaterialInputProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_ScalarMaterialInputProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && r->Ok_0.material_expression.extras@.len() == 20,
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs "PropertyTrait for ScalarMaterialInputProperty" write params=asset,include_header
    requires self.material_expression.extras@.len() == 20,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_ScalarMaterialInputProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_ScalarMaterialInputProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/material_input_property.rs ShadingModelMaterialInputProperty
pub open spec fn pv_ShadingModelMaterialInputProperty(h: Seq<Pat>, v: ShadingModelMaterialInputProperty, c: Ctx) -> Seq<Pat> {
    (((h + pr_MaterialExpression(v.material_expression, c)) + pskip(c)) + p32(v.value))
}
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs ShadingModelMaterialInputProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_ShadingModelMaterialInputProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && r->Ok_0.material_expression.extras@.len() == 20,
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs "PropertyTrait for ShadingModelMaterialInputProperty" write params=asset,include_header
    requires self.material_expression.extras@.len() == 20,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_ShadingModelMaterialInputProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_ShadingModelMaterialInputProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/material_input_property.rs VectorMaterialInputProperty
pub open spec fn pv_VectorMaterialInputProperty(h: Seq<Pat>, v: VectorMaterialInputProperty, c: Ctx) -> Seq<Pat> {
    (((h + pr_MaterialExpression(v.material_expression, c)) + pskip(c)) + pv_VectorProperty(Seq::empty(), v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs VectorMaterialInputProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_VectorMaterialInputProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && r->Ok_0.material_expression.extras@.len() == 20,
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs "PropertyTrait for VectorMaterialInputProperty" write params=asset,include_header
    requires self.material_expression.extras@.len() == 20,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_VectorMaterialInputProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_VectorMaterialInputProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/material_input_property.rs Vector2MaterialInputProperty
pub open spec fn pv_Vector2MaterialInputProperty(h: Seq<Pat>, v: Vector2MaterialInputProperty, c: Ctx) -> Seq<Pat> {
    (((h + pr_MaterialExpression(v.material_expression, c)) + pskip(c)) + pv_Vector2DProperty(Seq::empty(), v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs Vector2MaterialInputProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_Vector2MaterialInputProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && r->Ok_0.material_expression.extras@.len() == 20,
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs "PropertyTrait for Vector2MaterialInputProperty" write params=asset,include_header
    requires self.material_expression.extras@.len() == 20,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_Vector2MaterialInputProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_Vector2MaterialInputProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/material_input_property.rs ExpressionInputProperty
pub open spec fn pv_ExpressionInputProperty(h: Seq<Pat>, v: ExpressionInputProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MaterialExpression(v.material_expression, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs ExpressionInputProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_ExpressionInputProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && r->Ok_0.material_expression.extras@.len() == 20,
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs "PropertyTrait for ExpressionInputProperty" write params=asset,include_header
    requires self.material_expression.extras@.len() == 20,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_ExpressionInputProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_ExpressionInputProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/material_input_property.rs MaterialAttributesInputProperty
pub open spec fn pv_MaterialAttributesInputProperty(h: Seq<Pat>, v: MaterialAttributesInputProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MaterialExpression(v.material_expression, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs MaterialAttributesInputProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MaterialAttributesInputProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && r->Ok_0.material_expression.extras@.len() == 20,
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/material_input_property.rs "PropertyTrait for MaterialAttributesInputProperty" write params=asset,include_header
    requires self.material_expression.extras@.len() == 20,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MaterialAttributesInputProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MaterialAttributesInputProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ enumnum unreal_asset/unreal_asset_properties/src/str_property.rs TextHistoryType
//@ struct unreal_asset/unreal_asset_properties/src/str_property.rs TextProperty
pub open spec fn pv_TextProperty(h: Seq<Pat>, v: TextProperty, w: i32, c: Ctx) -> Seq<Pat> {
    let x1 = h;
    let x2 = if on(c.ov) < on(ObjectVersion::VER_UE4_FTEXT_HISTORY) { ({ let y = (x1 + pstr(sv(v.culture_invariant_string))); if on(c.ov) >= on(ObjectVersion::VER_UE4_ADDED_NAMESPACE_AND_KEY_DATA_TO_FTEXT) { (y + pstr(sv(v.namespace))) } else { y } } + pstr(sv(v.value))) } else { x1 };
    let x3 = (x2 + p32(v.flags));
    let x4 = if on(c.ov) >= on(ObjectVersion::VER_UE4_FTEXT_HISTORY) { { let y = (x3 + p8(TextHistoryType_n(v.history_type) as u8)); if v.history_type == TextHistoryType::None { { let y = y; if cvn::<FEditorObjectVersion>(c.cv) >= FEditorObjectVersion_CultureInvariantTextSerializationKeyStability { { let y = (y + p32(w as u32)); if w == 1 { (y + pstr(sv(v.culture_invariant_string))) } else { y } } } else { y } } } else { { let y = y; if v.history_type == TextHistoryType::Base { (((y + pstr(sv(v.namespace))) + pstr(sv(v.value))) + pstr(sv(v.culture_invariant_string))) } else { ((y + pname(v.table_id->0)) + pstr(sv(v.value))) } } } } } else { x3 };
    x4
}
pub open spec fn ok_TextProperty(v: TextProperty, w: i32, c: Ctx) -> bool { true }
pub open spec fn rd_TextProperty<S: Archive + ?Sized>(a: &S, b: &S, include_header: bool, v: TextProperty) -> bool { exists|w: i32| #[trigger] ok_TextProperty(v, w, rc(a)) && rd(a, b, pv_TextProperty(hdr(include_header, v.property_guid, rc(a)), v, w, rc(a))) }
//@ fn unreal_asset/unreal_asset_properties/src/str_property.rs TextProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd_TextProperty(old(asset), final(asset), include_header, v) }),
//@ at body-start
    let ghost mut vx_w: i32 = 0;
//@ rw! asset\.read_i32::<LE>\(\)\? (!= 0|== 1) ==> { let vx_x = asset.read_i32::<LE>()?; proof { vx_w = vx_x; } vx_x \1 }
//@ rw! Ok\((TextProperty \{[^}]*\})\) ==> let vx_r = \1; proof { assert(ok_TextProperty(vx_r, vx_w, rc(old(asset)))); assert(rd_TextProperty(old(asset), asset, include_header, vx_r)); } Ok(vx_r)
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/str_property.rs "PropertyTrait for TextProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_TextProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, text_flag(*self), wc(old(asset)))) && r->Ok_0 == pv_TextProperty(Seq::empty(), *self, text_flag(*self), wc(old(asset))).len(),
//@ rw! e\.is_empty\(\) ==> vx_empty(e)
//@ end
/// a text without history stores its culture invariant string when there is one that is not empty
pub open spec fn text_flag(v: TextProperty) -> i32 { match v.culture_invariant_string { Some(s) => flag(s@.len() > 0), None => 0 } }
#[verifier::external_body]
pub fn vx_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub struct VxVer { pub version: i32 }
//@ enum unreal_asset/unreal_asset_properties/src/int_property.rs BytePropertyValue
//@ struct unreal_asset/unreal_asset_properties/src/int_property.rs ByteProperty
pub open spec fn pbyte(v: BytePropertyValue) -> Seq<Pat> { match v { BytePropertyValue::Byte(b) => p8(b), BytePropertyValue::FName(n) => pname(n) } }
/// when the declared length is 0 the kind of value is guessed from the name map (not under contract)
#[verifier::external_body]
pub fn vx_guess<S: ArchiveReaderX>(asset: &mut S) -> Result<Option<BytePropertyValue>, Error> { unimplemented!() }
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs ByteProperty read_value params=asset,length
    ensures r is Ok && length != 0 ==> rd(old(asset), final(asset), pbyte(r->Ok_0)) && pbyte(r->Ok_0).len() == length,
//@ rw! 0 => \{.*?Some\(byte_value\)\s*\} ==> 0 => vx_guess(asset)?,
//@ rw! value\.ok_or_else\(.*\)\s*\}\s*$ ==> value.ok_or(Error::Any) }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs ByteProperty new params=asset,name,ancestry,include_header,length,fallback_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None && v.enum_type is None) && (include_header ==> v.enum_type is Some)
        && (length != 0 ==> rd(old(asset), final(asset), hdre(include_header, v.enum_type, v.property_guid, rc(old(asset))) + pbyte(v.value)) && pbyte(v.value).len() == length) }),
//@ rw! \.or_else\(\|_\| ByteProperty::read_value\(asset, fallback_length\)\)\? ==> ?
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/int_property.rs "PropertyTrait for ByteProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), hdre(include_header, self.enum_type, self.property_guid, wc(old(asset))) + pbyte(self.value)) && r->Ok_0 == pbyte(self.value).len(),
//@ end
/// the tag of an enum value names its enum before the guid
pub open spec fn hdre(b: bool, t: Option<FName>, g: Option<Guid>, c: Ctx) -> Seq<Pat> { if b { pname(t->0) + pguid(g, c) } else { Seq::empty() } }
//@ macros unreal_asset/unreal_asset_properties/src/enum_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/enum_property.rs EnumProperty
// packages with unversioned properties store enums by index; that part is dropped here, and the contract is for versioned packages
//@ fn unreal_asset/unreal_asset_properties/src/enum_property.rs EnumProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None && v.enum_type is None) && (include_header ==> v.enum_type is Some) && v.value is Some
        && rd(old(asset), final(asset), hdre(include_header, v.enum_type, v.property_guid, rc(old(asset))) + pname(v.value->0)) }),
//@ rw! if asset\.has_unversioned_properties\(\) \{.*?\}\s*(?=let property_guid = match) ==>
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/enum_property.rs "PropertyTrait for EnumProperty" write params=asset,include_header
    requires self.value is Some,
    ensures r is Ok ==> wr(old(asset), final(asset), hdre(include_header, self.enum_type, self.property_guid, wc(old(asset))) + pname(self.value->0)) && r->Ok_0 == 8,
//@ rw! if asset\.has_unversioned_properties\(\).*?return Ok\(size_of::<u8>\(\)\);\s*\} ==>
//@ end
#[verifier::external_body]
pub fn vx_any<T>() -> T { unimplemented!() }
//@ macros unreal_asset/unreal_asset_properties/src/world_tile_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileLayer
pub open spec fn pr_FWorldTileLayer(v: FWorldTileLayer, w: i32, c: Ctx) -> Seq<Pat> {
    let x1 = (((Seq::<Pat>::empty() + pstr(sv(v.name))) + p32(v.reserved_0 as u32)) + pv_IntPointProperty(Seq::empty(), v.reserved_1, c));
    let x2 = if on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_UPDATED) { (x1 + p32(v.streaming_distance->0 as u32)) } else { x1 };
    let x3 = x2;
    let x4 = if on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING) { (x3 + p32(w as u32)) } else { x3 };
    x4
}
pub open spec fn ok_FWorldTileLayer(v: FWorldTileLayer, w: i32, c: Ctx) -> bool { (v.streaming_distance is Some) == (on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_UPDATED)) && (v.distance_streaming_enabled is Some) == (on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING)) && (v.distance_streaming_enabled is Some ==> v.distance_streaming_enabled->0 == (w == 1)) }
pub open spec fn rd_FWorldTileLayer<S: Archive + ?Sized>(a: &S, b: &S, v: FWorldTileLayer) -> bool { exists|w: i32| #[trigger] ok_FWorldTileLayer(v, w, rc(a)) && rd(a, b, pr_FWorldTileLayer(v, w, rc(a))) }
//@ fn unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileLayer new params=asset
    ensures r is Ok ==> rd_FWorldTileLayer(old(asset), final(asset), r->Ok_0),
//@ rw! Ancestry::new\(asset\.get_parent_class_export_name\(\)\.unwrap_or_default\(\)\) ==> vx_any::<Ancestry>()
//@ rw! FName::default\(\) ==> vx_any::<FName>()
//@ at body-start
    let ghost mut vx_w: i32 = 0;
//@ rw! asset\.read_i32::<LE>\(\)\? (!= 0|== 1) ==> { let vx_x = asset.read_i32::<LE>()?; proof { vx_w = vx_x; } vx_x \1 }
//@ rw! Ok\((FWorldTileLayer \{[^}]*\})\) ==> let vx_r = \1; proof { assert(ok_FWorldTileLayer(vx_r, vx_w, rc(old(asset)))); assert(rd_FWorldTileLayer(old(asset), asset, vx_r)); } Ok(vx_r)
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileLayer write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FWorldTileLayer(*self, flag(self.distance_streaming_enabled->0), wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileLODInfo
pub open spec fn pr_FWorldTileLODInfo(v: FWorldTileLODInfo, c: Ctx) -> Seq<Pat> {
    (((((Seq::<Pat>::empty() + p32(v.relative_streaming_distance as u32)) + p32(v.reserved_0.0.bits)) + p32(v.reserved_1.0.bits)) + p32(v.reserved_2 as u32)) + p32(v.reserved_3 as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileLODInfo new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_FWorldTileLODInfo(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileLODInfo write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FWorldTileLODInfo(*self, wc(old(asset)))),
//@ end
//@ enumnum unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs EFontHinting
//@ enumnum unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs EFontLoadingPolicy
//@ struct unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs FontData
pub open spec fn pr_FontData(v: FontData, w: i32, c: Ctx) -> Seq<Pat> {
    let x1 = Seq::<Pat>::empty();
    let x2 = if !(cvn::<FEditorObjectVersion>(c.cv) < FEditorObjectVersion_AddedFontFaceAssets) { { let y = (x1 + p32(w as u32)); if v.is_cooked { ({ let y = (y + p32(v.local_font_face_asset.index as u32)); if v.local_font_face_asset.index == 0 { (((y + pstr(sv(v.font_filename))) + p8(EFontHinting_n(v.hinting->0))) + p8(EFontLoadingPolicy_n(v.loading_policy->0))) } else { y } } + p32(v.sub_face_index->0 as u32)) } else { y } } } else { x1 };
    x2
}
pub open spec fn ok_FontData(v: FontData, w: i32) -> bool { v.is_cooked == (w != 0) }
pub open spec fn rd_FontData<S: Archive>(a: &S, b: &S, v: Option<FontData>) -> bool {
    match v { Some(x) => exists|w: i32| #[trigger] ok_FontData(x, w) && rd(a, b, pr_FontData(x, w, rc(a))), None => *a == *b }
}
pub open spec fn old_font<S: Archive + ?Sized>(a: &S) -> bool { let c = rc(a); cvn::<FEditorObjectVersion>(c.cv) < FEditorObjectVersion_AddedFontFaceAssets }
//@ fn unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs FontData new params=asset
    ensures r is Ok ==> rd_FontData(old(asset), final(asset), r->Ok_0) && (r->Ok_0 is None) == old_font(old(asset)),
//@ at body-start
    let ghost mut vx_w: i32 = 0;
//@ rw! asset\.read_i32::<LE>\(\)\? (!= 0|== 1) ==> { let vx_x = asset.read_i32::<LE>()?; proof { vx_w = vx_x; } vx_x \1 }
//@ rw! Ok\(Some\((FontData \{[^}]*\})\)\) ==> let vx_r = \1; proof { assert(ok_FontData(vx_r, vx_w)); assert(rd(old(asset), asset, pr_FontData(vx_r, vx_w, rc(old(asset))))); assert(rd_FontData(old(asset), asset, Some(vx_r))); } Ok(Some(vx_r))
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs FontData write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FontData(*self, flag(self.is_cooked), wc(old(asset)))),
//@ rw! (self\.\w+)\.ok_or_else\(\|\| \{\s*PropertyError::property_field_none\("\w+", "Some\(\w+\)"\)\s*\}\)\? as u8 ==> \1.ok_or(Error::Any)?.to_u8()
//@ at body-start
    proof { wr_nil(asset); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs FontDataProperty
//@ macros unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
pub open spec fn pv_FontDataProperty(h: Seq<Pat>, v: FontDataProperty, w: i32, c: Ctx) -> Seq<Pat> { match v.value { Some(x) => h + pr_FontData(x, w, c), None => h } }
pub open spec fn rd_FontDataProperty<S: Archive>(a: &S, b: &S, include_header: bool, v: FontDataProperty) -> bool {
    exists|w: i32| #[trigger] font_ok(v, w) && rd(a, b, pv_FontDataProperty(hdr(include_header, v.property_guid, rc(a)), v, w, rc(a)))
}
pub open spec fn font_ok(v: FontDataProperty, w: i32) -> bool { v.value is Some ==> ok_FontData(v.value->0, w) }
//@ fn unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs FontDataProperty new params=asset,name,ancestry,include_header,_length,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && (v.value is None) == old_font(old(asset)) && rd_FontDataProperty(old(asset), final(asset), include_header, v) }),
//@ rw! let value = FontData::new\(asset\)\?; ==> proof { rd_nil(asset); } let ghost vx_b = *asset; let value = FontData::new(asset)?; let ghost vx_w: i32 = if value is Some { choose|w: i32| ok_FontData(value->0, w) && rd(&vx_b, asset, pr_FontData(value->0, w, rc(&vx_b))) } else { 0 };
//@ rw! Ok\((FontDataProperty \{[^}]*\})\) ==> let vx_r = \1; proof { assert(font_ok(vx_r, vx_w)); assert(rd(old(asset), asset, pv_FontDataProperty(hdr(include_header, vx_r.property_guid, rc(old(asset))), vx_r, vx_w, rc(old(asset))))); assert(rd_FontDataProperty(old(asset), asset, include_header, vx_r)); } Ok(vx_r)
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs "PropertyTrait for FontDataProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_FontDataProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, flag(self.value is Some && self.value->0.is_cooked), wc(old(asset)))) && r->Ok_0 == pv_FontDataProperty(Seq::empty(), *self, flag(self.value is Some && self.value->0.is_cooked), wc(old(asset))).len(),
//@ at body-start
    proof { wr_nil(asset); }
//@ end
pub open spec fn f_lod(c: Ctx) -> spec_fn(FWorldTileLODInfo) -> Seq<Pat> { |v: FWorldTileLODInfo| pr_FWorldTileLODInfo(v, c) }
//@ struct unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileInfo
pub open spec fn plods(v: Seq<FWorldTileLODInfo>, c: Ctx) -> Seq<Pat> { p32(v.len() as u32) + pseq(v, v.len(), f_lod(c)) }
pub open spec fn pr_FWorldTileInfo(v: FWorldTileInfo, wl: i32, wh: i32, c: Ctx) -> Seq<Pat> {
    let x1 = ((Seq::<Pat>::empty() + p32(v.position.x as u32)) + p32(v.position.y as u32));
    let x2 = if !(cvn::<FFortniteMainBranchObjectVersion>(c.cv) < FFortniteMainBranchObjectVersion_WorldCompositionTile3DOffset) { (x1 + p32(v.position.z as u32)) } else { x1 };
    let x3 = ((x2 + pv_BoxProperty(Seq::empty(), v.bounds, c)) + pr_FWorldTileLayer(v.layer, wl, c));
    let x4 = if on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_UPDATED) { ((x3 + p32(wh as u32)) + pstr(sv(v.parent_tile_package_name))) } else { x3 };
    let x5 = x4;
    let x6 = if on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST) { (x5 + plods((v.lod_list->0)@, c)) } else { x5 };
    let x7 = x6;
    let x8 = if on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_ZORDER) { (x7 + p32(v.z_order->0 as u32)) } else { x7 };
    x8
}
pub open spec fn ok_FWorldTileInfo(v: FWorldTileInfo, wl: i32, wh: i32, c: Ctx) -> bool {
    ok_FWorldTileLayer(v.layer, wl, c) && (cvn::<FFortniteMainBranchObjectVersion>(c.cv) < FFortniteMainBranchObjectVersion_WorldCompositionTile3DOffset ==> v.position.z == 0)
    && (v.hide_in_tile_view is Some) == (on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_UPDATED)) && (v.hide_in_tile_view is Some ==> v.hide_in_tile_view->0 == (wh == 1))
    && (v.lod_list is Some) == (on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST)) && (v.z_order is Some) == (on(c.ov) >= on(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_ZORDER))
}
pub open spec fn rd_FWorldTileInfo<S: Archive + ?Sized>(a: &S, b: &S, v: FWorldTileInfo) -> bool { exists|wl: i32, wh: i32| #[trigger] ok_FWorldTileInfo(v, wl, wh, rc(a)) && rd(a, b, pr_FWorldTileInfo(v, wl, wh, rc(a))) }
//@ fn unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileInfo new params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd_FWorldTileInfo(old(asset), final(asset), r->Ok_0),
//@ rw! Ancestry::new\(asset\.get_parent_class_export_name\(\)\.unwrap_or_default\(\)\) ==> vx_any::<Ancestry>()
//@ rw! FName::default\(\) ==> vx_any::<FName>()
//@ rw! let layer = FWorldTileLayer::new\(asset\)\?; ==> let ghost vx_b = *asset; let layer = FWorldTileLayer::new(asset)?; let ghost vx_l: i32 = choose|w: i32| ok_FWorldTileLayer(layer, w, rc(&vx_b)) && rd(&vx_b, asset, pr_FWorldTileLayer(layer, w, rc(&vx_b)));
//@ at body-start
    let ghost mut vx_w: i32 = 0;
//@ rw! asset\.read_i32::<LE>\(\)\? (!= 0|== 1) ==> { let vx_x = asset.read_i32::<LE>()?; proof { vx_w = vx_x; } vx_x \1 }
//@ rw! let num_entries = asset\.read_i32::<LE>\(\)\? as usize; ==> let ghost vx_s0 = *asset; let vx_n = asset.read_i32::<LE>()?; let num_entries = vx_n as usize;
//@ at pre-loop 0
    proof { cap(vx_n); } let ghost vx_p0 = p32(vx_n as u32);
//@ loop 0 it=it
    invariant list@.len() == it.index(), rd(&vx_s0, asset, vx_p0 + pseq(list@, list@.len(), f_lod(rc(old(asset))))),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, list@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_lod(rc(old(asset)))(list@.last()))); pseq_push(vx_p0, r1, list@.last(), f_lod(rc(old(asset)))); }
//@ at post-loop 0
    proof { assert(rd(&vx_s0, asset, plods(list@, rc(old(asset))))); }
//@ rw! Ok\((FWorldTileInfo \{[^}]*\})\) ==> let vx_r = \1; proof { assert(ok_FWorldTileInfo(vx_r, vx_l, vx_w, rc(old(asset)))); assert(rd(old(asset), asset, pr_FWorldTileInfo(vx_r, vx_l, vx_w, rc(old(asset))))); assert(rd_FWorldTileInfo(old(asset), asset, vx_r)); } Ok(vx_r)
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/world_tile_property.rs FWorldTileInfo write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FWorldTileInfo(*self, flag(self.layer.distance_streaming_enabled->0), flag(self.hide_in_tile_view->0), wc(old(asset)))),
//@ rw! asset\.write_i32::<LE>\(lod_list\.len\(\) as i32\)\?; ==> let ghost vx_s0 = *asset; asset.write_i32::<LE>(lod_list.len() as i32)?;
//@ at pre-loop 0
    let ghost vx_p0 = p32(lod_list@.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(lod_list@), wr(&vx_s0, asset, vx_p0 + pseq(lod_list@, it.index() as nat, f_lod(wc(old(asset))))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_lod(wc(old(asset)))(lod_list@[it.index() as int]))); pseq_step(vx_p0, lod_list@, it.index() as nat, f_lod(wc(old(asset)))); }
//@ at post-loop 0
    proof { assert(wr(&vx_s0, asset, plods(lod_list@, wc(old(asset))))); }
//@ end
//@ macros unreal_asset/unreal_asset_base/src/types/movie.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ enumnum unreal_asset/unreal_asset_base/src/types/movie.rs ERangeBoundTypes
//@ struct unreal_asset/unreal_asset_base/src/types/movie.rs FrameNumber
//@ fn unreal_asset/unreal_asset_base/src/types/movie.rs FrameNumber new params=value
    ensures r.value == value,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/movie.rs FrameRate
//@ fn unreal_asset/unreal_asset_base/src/types/movie.rs FrameRate new params=numerator,denominator
    ensures r.numerator == numerator, r.denominator == denominator,
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/movie.rs FFrameNumberRangeBound
pub open spec fn pr_FFrameNumberRangeBound(v: FFrameNumberRangeBound, c: Ctx) -> Seq<Pat> {
    ((Seq::<Pat>::empty() + p8(ERangeBoundTypes_n(v.ty) as u8)) + p32(v.value.value as u32))
}
//@ fn unreal_asset/unreal_asset_base/src/types/movie.rs FFrameNumberRangeBound new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_FFrameNumberRangeBound(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/movie.rs FFrameNumberRangeBound write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FFrameNumberRangeBound(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_base/src/types/movie.rs FFrameNumberRange
pub open spec fn pr_FFrameNumberRange(v: FFrameNumberRange, c: Ctx) -> Seq<Pat> {
    ((Seq::<Pat>::empty() + pr_FFrameNumberRangeBound(v.lower_bound, c)) + pr_FFrameNumberRangeBound(v.upper_bound, c))
}
//@ fn unreal_asset/unreal_asset_base/src/types/movie.rs FFrameNumberRange new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_FFrameNumberRange(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/movie.rs FFrameNumberRange write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FFrameNumberRange(*self, wc(old(asset)))),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_frame_range_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_frame_range_property.rs Int32RangeBound
pub open spec fn pr_Int32RangeBound(v: Int32RangeBound, c: Ctx) -> Seq<Pat> {
    ((Seq::<Pat>::empty() + p8(ERangeBoundTypes_n(v.ty) as u8)) + p32(v.value as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_frame_range_property.rs Int32RangeBound new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_Int32RangeBound(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_frame_range_property.rs Int32RangeBound write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_Int32RangeBound(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_frame_range_property.rs MovieSceneFrameRangeProperty
pub open spec fn pv_MovieSceneFrameRangeProperty(h: Seq<Pat>, v: MovieSceneFrameRangeProperty, c: Ctx) -> Seq<Pat> {
    ((h + pr_Int32RangeBound(v.lower_bound, c)) + pr_Int32RangeBound(v.upper_bound, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_frame_range_property.rs MovieSceneFrameRangeProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneFrameRangeProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_frame_range_property.rs "PropertyTrait for MovieSceneFrameRangeProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneFrameRangeProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneFrameRangeProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/mod.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/mod.rs MovieSceneTangentData
pub open spec fn pr_MovieSceneTangentData(v: MovieSceneTangentData, c: Ctx) -> Seq<Pat> {
    (((((Seq::<Pat>::empty() + p32(v.arrive_tangent.0.bits)) + p32(v.leave_tangent.0.bits)) + p32(v.arrive_tangent_weight.0.bits)) + p32(v.leave_tangent_weight.0.bits)) + p8(RichCurveTangentWeightMode_n(v.tangent_weight_mode) as u8))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/mod.rs MovieSceneTangentData new params=asset,clang_win64
    requires !clang_win64,
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneTangentData(r->Ok_0, rc(old(asset)))) && (!r->Ok_0.clang_win64),
//@ rw! asset\.read_exact\(&mut \[0u8; 3\]\)\?; ==> let mut vx_z = [0u8; 3]; asset.read_exact(&mut vx_z)?;
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/mod.rs MovieSceneTangentData write params=asset
    requires !self.clang_win64,
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneTangentData(*self, wc(old(asset)))),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_value_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_value_property.rs MovieSceneFloatValue
pub open spec fn pr_MovieSceneFloatValue(v: MovieSceneFloatValue, c: Ctx) -> Seq<Pat> {
    ((((Seq::<Pat>::empty() + p32(v.value.0.bits)) + pr_MovieSceneTangentData(v.tangent, c)) + p8(RichCurveInterpMode_n(v.interp_mode) as u8)) + p8(RichCurveTangentMode_n(v.tangent_mode) as u8))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_value_property.rs MovieSceneFloatValue new params=asset,clang_win64
    requires !clang_win64,
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneFloatValue(r->Ok_0, rc(old(asset)))) && (!r->Ok_0.tangent.clang_win64),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_value_property.rs MovieSceneFloatValue write params=asset
    requires !self.tangent.clang_win64,
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneFloatValue(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_value_property.rs MovieSceneFloatValueProperty
pub open spec fn pv_MovieSceneFloatValueProperty(h: Seq<Pat>, v: MovieSceneFloatValueProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneFloatValue(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_value_property.rs MovieSceneFloatValueProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneFloatValueProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }) && !r->Ok_0.value.tangent.clang_win64,
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_value_property.rs "PropertyTrait for MovieSceneFloatValueProperty" write params=asset,include_header
    requires !self.value.tangent.clang_win64,
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneFloatValueProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneFloatValueProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
pub open spec fn f_frame() -> spec_fn(FrameNumber) -> Seq<Pat> { |v: FrameNumber| p32(v.value as u32) }
pub open spec fn f_fval(c: Ctx) -> spec_fn(MovieSceneFloatValue) -> Seq<Pat> { |v: MovieSceneFloatValue| pr_MovieSceneFloatValue(v, c) }
/// a private field that is false in every value the crate makes
pub open spec fn plain(s: Seq<MovieSceneFloatValue>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).tangent.clang_win64 }
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs MovieSceneFloatChannel
pub open spec fn pr_MovieSceneFloatChannel(v: MovieSceneFloatChannel, w: i32, c: Ctx) -> Seq<Pat> {
    ((((((((((((Seq::<Pat>::empty() + p8(RichCurveExtrapolation_n(v.pre_infinity_extrap))) + p8(RichCurveExtrapolation_n(v.post_infinity_extrap))) + p32(v.times_struct_length as u32)) + p32(v.times@.len() as u32)) + pseq(v.times@, v.times@.len(), f_frame())) + p32(v.values_struct_length as u32)) + p32(v.values@.len() as u32)) + pseq(v.values@, v.values@.len(), f_fval(c))) + p32(v.default_value.0.bits)) + p32(w as u32)) + p32(v.tick_resolution.numerator as u32)) + p32(v.tick_resolution.denominator as u32))
}
pub open spec fn ok_MovieSceneFloatChannel(v: MovieSceneFloatChannel, w: i32, c: Ctx) -> bool { v.has_default_value == (w == 1) }
pub open spec fn rd_MovieSceneFloatChannel<S: Archive + ?Sized>(a: &S, b: &S, v: MovieSceneFloatChannel) -> bool { exists|w: i32| #[trigger] ok_MovieSceneFloatChannel(v, w, rc(a)) && rd(a, b, pr_MovieSceneFloatChannel(v, w, rc(a))) }
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs MovieSceneFloatChannel new params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd_MovieSceneFloatChannel(old(asset), final(asset), r->Ok_0) && (plain(r->Ok_0.values@)),
//@ at pre-loop 0
    proof { cap(times_length); }
    let ghost vx_p0 = ((p8(RichCurveExtrapolation_n(pre_infinity_extrap)) + p8(RichCurveExtrapolation_n(post_infinity_extrap))) + p32(times_struct_length as u32)) + p32(times_length as u32);
//@ loop 0 it=it
    invariant times@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(times@, times@.len(), f_frame())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, times@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_frame()(times@.last()))); pseq_push(vx_p0, r1, times@.last(), f_frame()); }
//@ at pre-loop 1
    proof { cap(values_length); }
    let ghost vx_p1 = (vx_p0 + pseq(times@, times@.len(), f_frame())) + p32(values_struct_length as u32) + p32(values_length as u32);
//@ loop 1 it=it
    invariant plain(values@), values@.len() == it.index(), rd(old(asset), asset, vx_p1 + pseq(values@, values@.len(), f_fval(rc(old(asset))))),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, values@);
//@ at loop-end 1
    proof { assert(rd(&a1, asset, f_fval(rc(old(asset)))(values@.last()))); pseq_push(vx_p1, r1, values@.last(), f_fval(rc(old(asset)))); }
//@ at body-start
    let ghost mut vx_w: i32 = 0;
//@ rw! asset\.read_i32::<LE>\(\)\? (!= 0|== 1) ==> { let vx_x = asset.read_i32::<LE>()?; proof { vx_w = vx_x; } vx_x \1 }
//@ rw! Ok\((MovieSceneFloatChannel \{[^}]*\})\) ==> let vx_r = \1; proof { assert(ok_MovieSceneFloatChannel(vx_r, vx_w, rc(old(asset)))); assert(rd_MovieSceneFloatChannel(old(asset), asset, vx_r)); } Ok(vx_r)
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs MovieSceneFloatChannel write params=asset attr="#[verifier::loop_isolation(false)]"
    requires plain(self.values@),
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneFloatChannel(*self, flag(self.has_default_value), wc(old(asset)))),
//@ at pre-loop 0
    let ghost vx_p0 = ((p8(RichCurveExtrapolation_n(self.pre_infinity_extrap)) + p8(RichCurveExtrapolation_n(self.post_infinity_extrap))) + p32(self.times_struct_length as u32)) + p32(self.times.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.times@), wr(old(asset), asset, vx_p0 + pseq(self.times@, it.index() as nat, f_frame())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_frame()(self.times@[it.index() as int]))); pseq_step(vx_p0, self.times@, it.index() as nat, f_frame()); }
//@ at pre-loop 1
    let ghost vx_p1 = (vx_p0 + pseq(self.times@, self.times@.len(), f_frame())) + p32(self.values_struct_length as u32) + p32(self.values.len() as u32);
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.values@), wr(old(asset), asset, vx_p1 + pseq(self.values@, it.index() as nat, f_fval(wc(old(asset))))),
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, f_fval(wc(old(asset)))(self.values@[it.index() as int]))); pseq_step(vx_p1, self.values@, it.index() as nat, f_fval(wc(old(asset)))); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs MovieSceneFloatChannelProperty
pub open spec fn pv_MovieSceneFloatChannelProperty(h: Seq<Pat>, v: MovieSceneFloatChannelProperty, w: i32, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneFloatChannel(v.value, w, c))
}
pub open spec fn ok_MovieSceneFloatChannelProperty(v: MovieSceneFloatChannelProperty, w: i32, c: Ctx) -> bool { ok_MovieSceneFloatChannel(v.value, w, c) }
pub open spec fn rd_MovieSceneFloatChannelProperty<S: Archive + ?Sized>(a: &S, b: &S, include_header: bool, v: MovieSceneFloatChannelProperty) -> bool { exists|w: i32| #[trigger] ok_MovieSceneFloatChannelProperty(v, w, rc(a)) && rd(a, b, pv_MovieSceneFloatChannelProperty(hdr(include_header, v.property_guid, rc(a)), v, w, rc(a))) }
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs MovieSceneFloatChannelProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd_MovieSceneFloatChannelProperty(old(asset), final(asset), include_header, v) }) && plain(r->Ok_0.value.values@),
//@ rw! let value = MovieSceneFloatChannel::new\(asset\)\?; ==> let ghost vx_b = *asset; let value = MovieSceneFloatChannel::new(asset)?; let ghost vx_w: i32 = choose|w: i32| ok_MovieSceneFloatChannel(value, w, rc(&vx_b)) && rd(&vx_b, asset, pr_MovieSceneFloatChannel(value, w, rc(&vx_b)));
//@ at body-start
    proof { rd_nil(asset); }
//@ rw! Ok\((MovieSceneFloatChannelProperty \{[^}]*\})\) ==> let vx_r = \1; proof { assert(ok_MovieSceneFloatChannelProperty(vx_r, vx_w, rc(old(asset)))); assert(rd_MovieSceneFloatChannelProperty(old(asset), asset, include_header, vx_r)); } Ok(vx_r)
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs "PropertyTrait for MovieSceneFloatChannelProperty" write params=asset,include_header
    requires plain(self.value.values@),
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneFloatChannelProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, flag(self.value.has_default_value), wc(old(asset)))) && r->Ok_0 == pv_MovieSceneFloatChannelProperty(Seq::empty(), *self, flag(self.value.has_default_value), wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_sequence_id_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_sequence_id_property.rs MovieSceneSequenceId
pub open spec fn pr_MovieSceneSequenceId(v: MovieSceneSequenceId, c: Ctx) -> Seq<Pat> {
    (Seq::<Pat>::empty() + p32(v.value))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sequence_id_property.rs MovieSceneSequenceId new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneSequenceId(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sequence_id_property.rs MovieSceneSequenceId write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneSequenceId(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_sequence_id_property.rs MovieSceneSequenceIdProperty
pub open spec fn pv_MovieSceneSequenceIdProperty(h: Seq<Pat>, v: MovieSceneSequenceIdProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneSequenceId(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sequence_id_property.rs MovieSceneSequenceIdProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneSequenceIdProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sequence_id_property.rs "PropertyTrait for MovieSceneSequenceIdProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneSequenceIdProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneSequenceIdProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_identifier_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_identifier_property.rs MovieSceneTrackIdentifier
pub open spec fn pr_MovieSceneTrackIdentifier(v: MovieSceneTrackIdentifier, c: Ctx) -> Seq<Pat> {
    (Seq::<Pat>::empty() + p32(v.value))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_identifier_property.rs MovieSceneTrackIdentifier new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneTrackIdentifier(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_identifier_property.rs MovieSceneTrackIdentifier write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneTrackIdentifier(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_identifier_property.rs MovieSceneTrackIdentifierProperty
pub open spec fn pv_MovieSceneTrackIdentifierProperty(h: Seq<Pat>, v: MovieSceneTrackIdentifierProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneTrackIdentifier(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_identifier_property.rs MovieSceneTrackIdentifierProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneTrackIdentifierProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_identifier_property.rs "PropertyTrait for MovieSceneTrackIdentifierProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneTrackIdentifierProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneTrackIdentifierProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_key_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_key_property.rs MovieSceneEvaluationKey
pub open spec fn pr_MovieSceneEvaluationKey(v: MovieSceneEvaluationKey, c: Ctx) -> Seq<Pat> {
    (((Seq::<Pat>::empty() + pr_MovieSceneSequenceId(v.sequence_id, c)) + pr_MovieSceneTrackIdentifier(v.track_identifier, c)) + p32(v.section_index))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_key_property.rs MovieSceneEvaluationKey new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneEvaluationKey(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_key_property.rs MovieSceneEvaluationKey write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneEvaluationKey(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_key_property.rs MovieSceneEvaluationKeyProperty
pub open spec fn pv_MovieSceneEvaluationKeyProperty(h: Seq<Pat>, v: MovieSceneEvaluationKeyProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneEvaluationKey(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_key_property.rs MovieSceneEvaluationKeyProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneEvaluationKeyProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_key_property.rs "PropertyTrait for MovieSceneEvaluationKeyProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneEvaluationKeyProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneEvaluationKeyProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs MovieSceneEventParameters
pub open spec fn pr_MovieSceneEventParameters(v: MovieSceneEventParameters, c: Ctx) -> Seq<Pat> {
    (((Seq::<Pat>::empty() + pr_SoftObjectPath(v.struct_type, c)) + p32(v.struct_bytes@.len() as u32)) + pblob(v.struct_bytes@))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs MovieSceneEventParameters new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneEventParameters(r->Ok_0, rc(old(asset)))),
//@ rw! asset\.read_exact\(&mut struct_bytes\) ==> asset.read_exact_vec(&mut struct_bytes)
//@ rw! (let mut struct_bytes = vec!\[0u8; struct_bytes_length as usize\];) ==> \1 proof { cap(struct_bytes_length); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs MovieSceneEventParameters write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneEventParameters(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs MovieSceneEventParametersProperty
pub open spec fn pv_MovieSceneEventParametersProperty(h: Seq<Pat>, v: MovieSceneEventParametersProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneEventParameters(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs MovieSceneEventParametersProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneEventParametersProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs "PropertyTrait for MovieSceneEventParametersProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneEventParametersProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneEventParametersProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs FEntry
pub open spec fn pr_FEntry(v: FEntry, c: Ctx) -> Seq<Pat> {
    (((Seq::<Pat>::empty() + p32(v.start_index as u32)) + p32(v.size as u32)) + p32(v.capacity as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs FEntry new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_FEntry(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs FEntry write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FEntry(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs EvaluationTreeEntryHandle
pub open spec fn pr_EvaluationTreeEntryHandle(v: EvaluationTreeEntryHandle, c: Ctx) -> Seq<Pat> {
    (Seq::<Pat>::empty() + p32(v.entry_index as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs EvaluationTreeEntryHandle new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_EvaluationTreeEntryHandle(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs EvaluationTreeEntryHandle write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_EvaluationTreeEntryHandle(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationTreeNodeHandle
pub open spec fn pr_MovieSceneEvaluationTreeNodeHandle(v: MovieSceneEvaluationTreeNodeHandle, c: Ctx) -> Seq<Pat> {
    ((Seq::<Pat>::empty() + pr_EvaluationTreeEntryHandle(v.children_handle, c)) + p32(v.index as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationTreeNodeHandle new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneEvaluationTreeNodeHandle(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationTreeNodeHandle write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneEvaluationTreeNodeHandle(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationTreeNode
pub open spec fn pr_MovieSceneEvaluationTreeNode(v: MovieSceneEvaluationTreeNode, c: Ctx) -> Seq<Pat> {
    ((((Seq::<Pat>::empty() + pr_FFrameNumberRange(v.range, c)) + pr_MovieSceneEvaluationTreeNodeHandle(v.parent, c)) + pr_EvaluationTreeEntryHandle(v.children_id, c)) + pr_EvaluationTreeEntryHandle(v.data_id, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationTreeNode new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneEvaluationTreeNode(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationTreeNode write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneEvaluationTreeNode(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs FEntityAndMetaDataIndex
pub open spec fn pr_FEntityAndMetaDataIndex(v: FEntityAndMetaDataIndex, c: Ctx) -> Seq<Pat> {
    ((Seq::<Pat>::empty() + p32(v.entity_index as u32)) + p32(v.meta_data_index as u32))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs FEntityAndMetaDataIndex new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_FEntityAndMetaDataIndex(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs FEntityAndMetaDataIndex write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_FEntityAndMetaDataIndex(*self, wc(old(asset)))),
//@ end
// the function pointers a tree takes for its items become values of these traits; the closures given for them become the structs below (mechanically, on every run)
pub trait VxGet<T> {
    spec fn form(v: T, c: Ctx) -> Seq<Pat>;
    fn get<S: ArchiveReaderX>(&self, asset: &mut S) -> (r: Result<T, Error>)
        ensures r is Ok ==> rd(old(asset), final(asset), Self::form(r->Ok_0, rc(old(asset))));
}
pub trait VxPut<T> {
    spec fn form(v: T, c: Ctx) -> Seq<Pat>;
    fn put<S: ArchiveWriterX>(&self, asset: &mut S, v: &T) -> (r: Result<(), Error>)
        ensures r is Ok ==> wr(old(asset), final(asset), Self::form(*v, wc(old(asset))));
}
pub open spec fn f_get<T, G: VxGet<T>>(c: Ctx) -> spec_fn(T) -> Seq<Pat> { |v: T| G::form(v, c) }
pub open spec fn f_put<T, G: VxPut<T>>(c: Ctx) -> spec_fn(T) -> Seq<Pat> { |v: T| G::form(v, c) }
pub open spec fn f_entry(c: Ctx) -> spec_fn(FEntry) -> Seq<Pat> { |v: FEntry| pr_FEntry(v, c) }
pub open spec fn pcont<T>(v: TEvaluationTreeEntryContainer<T>, f: spec_fn(T) -> Seq<Pat>, c: Ctx) -> Seq<Pat> {
    ((p32(v.entries@.len() as u32) + pseq(v.entries@, v.entries@.len(), f_entry(c))) + p32(v.items@.len() as u32)) + pseq(v.items@, v.items@.len(), f)
}
pub open spec fn ptree<T>(v: TMovieSceneEvaluationTree<T>, f: spec_fn(T) -> Seq<Pat>, c: Ctx) -> Seq<Pat> {
    (pr_MovieSceneEvaluationTreeNode(v.root_node, c) + pcont(v.child_nodes, f_get::<MovieSceneEvaluationTreeNode, IoNode>(c), c)) + pcont(v.data, f, c)
}
pub struct IoNode;
impl VxGet<MovieSceneEvaluationTreeNode> for IoNode {
    open spec fn form(v: MovieSceneEvaluationTreeNode, c: Ctx) -> Seq<Pat> { pr_MovieSceneEvaluationTreeNode(v, c) }
    fn get<S: ArchiveReaderX>(&self, reader: &mut S) -> Result<MovieSceneEvaluationTreeNode, Error> { MovieSceneEvaluationTreeNode::new(reader) }
}
impl VxPut<MovieSceneEvaluationTreeNode> for IoNode {
    open spec fn form(v: MovieSceneEvaluationTreeNode, c: Ctx) -> Seq<Pat> { pr_MovieSceneEvaluationTreeNode(v, c) }
    fn put<S: ArchiveWriterX>(&self, writer: &mut S, node: &MovieSceneEvaluationTreeNode) -> Result<(), Error> { node.write(writer)?; Ok(()) }
}
pub struct IoEntity;
impl VxGet<FEntityAndMetaDataIndex> for IoEntity {
    open spec fn form(v: FEntityAndMetaDataIndex, c: Ctx) -> Seq<Pat> { pr_FEntityAndMetaDataIndex(v, c) }
    fn get<S: ArchiveReaderX>(&self, reader: &mut S) -> Result<FEntityAndMetaDataIndex, Error> { FEntityAndMetaDataIndex::new(reader) }
}
impl VxPut<FEntityAndMetaDataIndex> for IoEntity {
    open spec fn form(v: FEntityAndMetaDataIndex, c: Ctx) -> Seq<Pat> { pr_FEntityAndMetaDataIndex(v, c) }
    fn put<S: ArchiveWriterX>(&self, writer: &mut S, node: &FEntityAndMetaDataIndex) -> Result<(), Error> { node.write(writer)?; Ok(()) }
}
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs TEvaluationTreeEntryContainer
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs TMovieSceneEvaluationTree
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs TEvaluationTreeEntryContainer<T> read params=asset,item_reader gen="<Reader: ArchiveReaderX, VxG: VxGet<T>>" attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd(old(asset), final(asset), pcont(r->Ok_0, f_get::<T, VxG>(rc(old(asset))), rc(old(asset)))),
//@ rw fn\(&mut Reader\) -> Result<T, Error> ==> VxG
//@ rw! item_reader\(asset\) ==> item_reader.get(asset)
//@ at pre-loop 0
    proof { cap(entries_amount); }
    let ghost vx_p0 = Seq::<Pat>::empty() + p32(entries_amount as u32);
//@ loop 0 it=it
    invariant entries@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(entries@, entries@.len(), f_entry(rc(old(asset))))),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, entries@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_entry(rc(old(asset)))(entries@.last()))); pseq_push(vx_p0, r1, entries@.last(), f_entry(rc(old(asset)))); }
//@ at pre-loop 1
    proof { cap(items_amount); }
    let ghost vx_p1 = vx_p0 + pseq(entries@, entries@.len(), f_entry(rc(old(asset)))) + p32(items_amount as u32);
//@ loop 1 it=it
    invariant items@.len() == it.index(), rd(old(asset), asset, vx_p1 + pseq(items@, items@.len(), f_get::<T, VxG>(rc(old(asset))))),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, items@);
//@ at loop-end 1
    proof { assert(rd(&a1, asset, f_get::<T, VxG>(rc(old(asset)))(items@.last()))); pseq_push(vx_p1, r1, items@.last(), f_get::<T, VxG>(rc(old(asset)))); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs TEvaluationTreeEntryContainer<T> write params=asset,node_writer gen="<Writer: ArchiveWriterX, VxP: VxPut<T>>" attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pcont(*self, f_put::<T, VxP>(wc(old(asset))), wc(old(asset)))),
//@ rw fn\(&mut Writer, &T\) -> Result<\(\), Error> ==> VxP
//@ rw! node_writer\(asset, item\) ==> node_writer.put(asset, item)
//@ at pre-loop 0
    let ghost vx_p0 = Seq::<Pat>::empty() + p32(self.entries.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.entries@), wr(old(asset), asset, vx_p0 + pseq(self.entries@, it.index() as nat, f_entry(wc(old(asset))))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_entry(wc(old(asset)))(self.entries@[it.index() as int]))); pseq_step(vx_p0, self.entries@, it.index() as nat, f_entry(wc(old(asset)))); }
//@ at pre-loop 1
    let ghost vx_p1 = vx_p0 + pseq(self.entries@, self.entries@.len(), f_entry(wc(old(asset)))) + p32(self.items.len() as u32);
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.items@), wr(old(asset), asset, vx_p1 + pseq(self.items@, it.index() as nat, f_put::<T, VxP>(wc(old(asset))))),
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, f_put::<T, VxP>(wc(old(asset)))(self.items@[it.index() as int]))); pseq_step(vx_p1, self.items@, it.index() as nat, f_put::<T, VxP>(wc(old(asset)))); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs TMovieSceneEvaluationTree<T> read params=asset,data_node_reader gen="<Reader: ArchiveReaderX, VxG: VxGet<T>>"
    ensures r is Ok ==> rd(old(asset), final(asset), ptree(r->Ok_0, f_get::<T, VxG>(rc(old(asset))), rc(old(asset)))),
//@ rw fn\(&mut Reader\) -> Result<T, Error> ==> VxG
//@ rw! \|reader\|\s*\{?\s*MovieSceneEvaluationTreeNode::new\(reader\)\s*\}? ==> IoNode
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs TMovieSceneEvaluationTree<T> write params=asset,data_node_writer gen="<Writer: ArchiveWriterX, VxP: VxPut<T>>"
    ensures r is Ok ==> wr(old(asset), final(asset), ptree(*self, f_put::<T, VxP>(wc(old(asset))), wc(old(asset)))),
//@ rw fn\(&mut Writer, &T\) -> Result<\(\), Error> ==> VxP
//@ rw! \|writer, node\| \{\s*node\.write\(writer\)\?;\s*Ok\(\(\)\)\s*\} ==> IoNode
//@ at body-start
    proof { assert(f_put::<MovieSceneEvaluationTreeNode, IoNode>(wc(asset)) =~= f_get::<MovieSceneEvaluationTreeNode, IoNode>(wc(asset))); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationFieldEntityTree
pub open spec fn pr_MovieSceneEvaluationFieldEntityTree(v: MovieSceneEvaluationFieldEntityTree, c: Ctx) -> Seq<Pat> {
    (Seq::<Pat>::empty() + ptree(v.serialized_data, f_get::<FEntityAndMetaDataIndex, IoEntity>(c), c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationFieldEntityTree new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneEvaluationFieldEntityTree(r->Ok_0, rc(old(asset)))),
//@ rw! \|reader\|\s*\{?\s*FEntityAndMetaDataIndex::new\(reader\)\s*\}? ==> IoEntity
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs MovieSceneEvaluationFieldEntityTree write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneEvaluationFieldEntityTree(*self, wc(old(asset)))),
//@ rw! \|writer, node\| \{\s*node\.write\(writer\)\?;\s*Ok\(\(\)\)\s*\} ==> IoEntity
//@ at body-start
    proof { assert(f_put::<FEntityAndMetaDataIndex, IoEntity>(wc(asset)) =~= f_get::<FEntityAndMetaDataIndex, IoEntity>(wc(asset))); }
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_field_entity_tree_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_field_entity_tree_property.rs MovieSceneEvaluationFieldEntityTreeProperty
pub open spec fn pv_MovieSceneEvaluationFieldEntityTreeProperty(h: Seq<Pat>, v: MovieSceneEvaluationFieldEntityTreeProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneEvaluationFieldEntityTree(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_field_entity_tree_property.rs MovieSceneEvaluationFieldEntityTreeProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneEvaluationFieldEntityTreeProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation_field_entity_tree_property.rs "PropertyTrait for MovieSceneEvaluationFieldEntityTreeProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneEvaluationFieldEntityTreeProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneEvaluationFieldEntityTreeProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ enumnum unreal_asset/unreal_asset_properties/src/movies/enums.rs ESectionEvaluationFlags
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs MovieSceneSubSequenceTreeEntry
pub open spec fn pr_MovieSceneSubSequenceTreeEntry(v: MovieSceneSubSequenceTreeEntry, c: Ctx) -> Seq<Pat> {
    ((Seq::<Pat>::empty() + pr_MovieSceneSequenceId(v.sequence_id, c)) + p8(ESectionEvaluationFlags_n(v.flags)))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs MovieSceneSubSequenceTreeEntry new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneSubSequenceTreeEntry(r->Ok_0, rc(old(asset)))),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs MovieSceneSubSequenceTreeEntry write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneSubSequenceTreeEntry(*self, wc(old(asset)))),
//@ end
pub struct IoSub;
impl VxGet<MovieSceneSubSequenceTreeEntry> for IoSub {
    open spec fn form(v: MovieSceneSubSequenceTreeEntry, c: Ctx) -> Seq<Pat> { pr_MovieSceneSubSequenceTreeEntry(v, c) }
    fn get<S: ArchiveReaderX>(&self, reader: &mut S) -> Result<MovieSceneSubSequenceTreeEntry, Error> { MovieSceneSubSequenceTreeEntry::new(reader) }
}
impl VxPut<MovieSceneSubSequenceTreeEntry> for IoSub {
    open spec fn form(v: MovieSceneSubSequenceTreeEntry, c: Ctx) -> Seq<Pat> { pr_MovieSceneSubSequenceTreeEntry(v, c) }
    fn put<S: ArchiveWriterX>(&self, writer: &mut S, node: &MovieSceneSubSequenceTreeEntry) -> Result<(), Error> { node.write(writer)?; Ok(()) }
}
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs MovieSceneSubSequenceTree
pub open spec fn pr_MovieSceneSubSequenceTree(v: MovieSceneSubSequenceTree, c: Ctx) -> Seq<Pat> {
    (Seq::<Pat>::empty() + ptree(v.data, f_get::<MovieSceneSubSequenceTreeEntry, IoSub>(c), c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs MovieSceneSubSequenceTree new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneSubSequenceTree(r->Ok_0, rc(old(asset)))),
//@ rw! \|reader\|\s*\{?\s*MovieSceneSubSequenceTreeEntry::new\(reader\)\s*\}? ==> IoSub
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs MovieSceneSubSequenceTree write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneSubSequenceTree(*self, wc(old(asset)))),
//@ rw! \|writer, node\| \{\s*node\.write\(writer\)\?;\s*Ok\(\(\)\)\s*\} ==> IoSub
//@ at body-start
    proof { assert(f_put::<MovieSceneSubSequenceTreeEntry, IoSub>(wc(asset)) =~= f_get::<MovieSceneSubSequenceTreeEntry, IoSub>(wc(asset))); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs MovieSceneSubSequenceTreeProperty
pub open spec fn pv_MovieSceneSubSequenceTreeProperty(h: Seq<Pat>, v: MovieSceneSubSequenceTreeProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneSubSequenceTree(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs MovieSceneSubSequenceTreeProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneSubSequenceTreeProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_sub_sequence_tree_property.rs "PropertyTrait for MovieSceneSubSequenceTreeProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneSubSequenceTreeProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneSubSequenceTreeProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
pub struct IoTrack;
impl VxGet<MovieSceneTrackIdentifier> for IoTrack {
    open spec fn form(v: MovieSceneTrackIdentifier, c: Ctx) -> Seq<Pat> { pr_MovieSceneTrackIdentifier(v, c) }
    fn get<S: ArchiveReaderX>(&self, reader: &mut S) -> Result<MovieSceneTrackIdentifier, Error> { MovieSceneTrackIdentifier::new(reader) }
}
impl VxPut<MovieSceneTrackIdentifier> for IoTrack {
    open spec fn form(v: MovieSceneTrackIdentifier, c: Ctx) -> Seq<Pat> { pr_MovieSceneTrackIdentifier(v, c) }
    fn put<S: ArchiveWriterX>(&self, writer: &mut S, node: &MovieSceneTrackIdentifier) -> Result<(), Error> { node.write(writer)?; Ok(()) }
}
//@ macros unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_field_data_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_field_data_property.rs MovieSceneTrackFieldData
pub open spec fn pr_MovieSceneTrackFieldData(v: MovieSceneTrackFieldData, c: Ctx) -> Seq<Pat> {
    (Seq::<Pat>::empty() + ptree(v.field, f_get::<MovieSceneTrackIdentifier, IoTrack>(c), c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_field_data_property.rs MovieSceneTrackFieldData new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MovieSceneTrackFieldData(r->Ok_0, rc(old(asset)))),
//@ rw! \|reader\|\s*\{?\s*MovieSceneTrackIdentifier::new\(reader\)\s*\}? ==> IoTrack
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_field_data_property.rs MovieSceneTrackFieldData write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MovieSceneTrackFieldData(*self, wc(old(asset)))),
//@ rw! \|writer, node\| \{\s*node\.write\(writer\)\?;\s*Ok\(\(\)\)\s*\} ==> IoTrack
//@ at body-start
    proof { assert(f_put::<MovieSceneTrackIdentifier, IoTrack>(wc(asset)) =~= f_get::<MovieSceneTrackIdentifier, IoTrack>(wc(asset))); }
//@ end
//@ struct unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_field_data_property.rs MovieSceneTrackFieldDataProperty
pub open spec fn pv_MovieSceneTrackFieldDataProperty(h: Seq<Pat>, v: MovieSceneTrackFieldDataProperty, c: Ctx) -> Seq<Pat> {
    (h + pr_MovieSceneTrackFieldData(v.value, c))
}
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_field_data_property.rs MovieSceneTrackFieldDataProperty new params=asset,name,ancestry,include_header,duplication_index
    ensures r is Ok ==> ({ let v = r->Ok_0; v.name == name && v.ancestry == ancestry && v.duplication_index == duplication_index && (!include_header ==> v.property_guid is None) && rd(old(asset), final(asset), pv_MovieSceneTrackFieldDataProperty(hdr(include_header, v.property_guid, rc(old(asset))), v, rc(old(asset)))) }),
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_field_data_property.rs "PropertyTrait for MovieSceneTrackFieldDataProperty" write params=asset,include_header
    ensures r is Ok ==> wr(old(asset), final(asset), pv_MovieSceneTrackFieldDataProperty(hdr(include_header, self.property_guid, wc(old(asset))), *self, wc(old(asset)))) && r->Ok_0 == pv_MovieSceneTrackFieldDataProperty(Seq::empty(), *self, wc(old(asset))).len(),
//@ end
//@ macros unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs simple_property_write optional_guid optional_guid_write defs=unreal_asset/unreal_asset_properties/src/lib.rs 
//@ struct unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs MeshToMeshVertData
pub open spec fn f_u16() -> spec_fn(u16) -> Seq<Pat> { |v: u16| p16(v) }
pub open spec fn pr_MeshToMeshVertData(v: MeshToMeshVertData, c: Ctx) -> Seq<Pat> {
    ((((((Seq::<Pat>::empty() + pv_Vector4Property(Seq::empty(), v.position_bary_coords_and_dist, c)) + pv_Vector4Property(Seq::empty(), v.normal_bary_coords_and_dist, c)) + pv_Vector4Property(Seq::empty(), v.tangent_bary_coords_and_dist, c)) + pseq(v.source_mesh_vert_indices@, 4, f_u16())) + p32(v.weight.0.bits)) + pskip(c))
}
//@ fn unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs MeshToMeshVertData new params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd(old(asset), final(asset), pr_MeshToMeshVertData(r->Ok_0, rc(old(asset)))) && r->Ok_0.source_mesh_vert_indices@.len() == 4,
//@ rw! FName::from_slice\("\w+"\) ==> vx_any::<FName>()
//@ rw! Ancestry::default\(\) ==> vx_any::<Ancestry>()
//@ at pre-loop 0
    let ghost vx_p0 = (pv_Vector4Property(Seq::empty(), position_bary_coords_and_dist, rc(asset)) + pv_Vector4Property(Seq::empty(), normal_bary_coords_and_dist, rc(asset))) + pv_Vector4Property(Seq::empty(), tangent_bary_coords_and_dist, rc(asset));
//@ loop 0 it=it
    invariant source_mesh_vert_indices@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(source_mesh_vert_indices@, source_mesh_vert_indices@.len(), f_u16())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, source_mesh_vert_indices@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_u16()(source_mesh_vert_indices@.last()))); pseq_push(vx_p0, r1, source_mesh_vert_indices@.last(), f_u16()); }
//@ end
//@ fn unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs MeshToMeshVertData write params=asset attr="#[verifier::loop_isolation(false)]"
    requires self.source_mesh_vert_indices@.len() >= 4,
    ensures r is Ok ==> wr(old(asset), final(asset), pr_MeshToMeshVertData(*self, wc(old(asset)))) && r->Ok_0 == pr_MeshToMeshVertData(*self, wc(old(asset))).len(),
//@ rw! let mut size = 0; ==> let mut size: usize = 0;
//@ at pre-loop 0
    let ghost s0 = size; let ghost vx_p0 = (pv_Vector4Property(Seq::empty(), self.position_bary_coords_and_dist, wc(asset)) + pv_Vector4Property(Seq::empty(), self.normal_bary_coords_and_dist, wc(asset))) + pv_Vector4Property(Seq::empty(), self.tangent_bary_coords_and_dist, wc(asset));
//@ loop 0 it=it
    invariant wr(old(asset), asset, vx_p0 + pseq(self.source_mesh_vert_indices@, it.index() as nat, f_u16())), size == s0 + 2 * it.index(), s0 <= 96,
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_u16()(self.source_mesh_vert_indices@[it.index() as int]))); pseq_step(vx_p0, self.source_mesh_vert_indices@, it.index() as nat, f_u16()); }
//@ at post-loop 0
    proof { pseq_len(self.source_mesh_vert_indices@, 4, f_u16(), 2); }
//@ end
fn main() {}
}
