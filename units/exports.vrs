#![allow(warnings)]
use vstd::prelude::*;
verus! {
// Exports: every reader and writer against one stored form per export kind and package version.
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/strs.rs
}
use base::*;
global size_of usize == 8;
pub enum Error { Any }
pub trait ByteOrder { spec fn little() -> bool; }
pub struct LE;
pub struct BE;
impl ByteOrder for LE { open spec fn little() -> bool { true } }
impl ByteOrder for BE { open spec fn little() -> bool { false } }
#[verifier::external_body]
pub struct FName { x: u8 }
#[derive(Copy, Clone)]
pub struct Guid(pub [u8; 16]);
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=on
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=o5n
macro_rules! cmp_as { ($t:ident, $n:ident) => { verus! {
impl vstd::std_specs::cmp::PartialEqSpecImpl for $t {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &$t) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$t) -> Option<core::cmp::Ordering> {
        if $n(*self) < $n(*o) { Some(core::cmp::Ordering::Less) } else if $n(*self) == $n(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
} } }
cmp_as!(ObjectVersion, on);
cmp_as!(ObjectVersionUE5, o5n);
pub mod arch {
use vstd::prelude::*;
use super::*;
//@ include prelude/arch.rs
//@ include prelude/archx.rs
}
use arch::*;
broadcast use {group_arch, group_plen, pname_len, casts::cnt_cast, pf_len};
pub open spec fn refs_of<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
/// stored form of a single precision number kept in double precision (its bits, unless it is a NaN)
pub mod fl { use vstd::prelude::*; use super::*;
#[verifier::opaque]
pub open spec fn pnarrow(v: F64, c: Ctx) -> Seq<Pat> { if nan(v) && !c.exact { anyb(4) } else { p32(narrow_(v).bits) } }
pub broadcast proof fn pf_len(v: F64, c: Ctx) ensures #[trigger] pnarrow(v, c).len() == 4 { reveal(pnarrow); p32_len(narrow_(v).bits); }
}
use fl::*;
// ---- machine integers ----
pub mod casts { use vstd::prelude::*;
pub broadcast proof fn cnt_cast(n: usize) ensures #[trigger] ((n as i32) as u32) == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); } }
pub proof fn cap(n: i32) requires (n as usize) <= isize::MAX ensures n >= 0, (n as usize) as int == n as int { assert(n < 0 ==> (n as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector); }
pub proof fn cap64(n: i64) requires (n as usize) <= isize::MAX ensures n >= 0, (n as usize) as int == n as int { assert(n < 0 ==> (n as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector); }
/// only returns when that much can be allocated
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty(), n <= isize::MAX { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, n <= isize::MAX { vec![0u8; n] }
pub proof fn pseq_len<T>(s: Seq<T>, n: nat, f: spec_fn(T) -> Seq<Pat>, k: nat)
    requires forall|v: T| (#[trigger] f(v)).len() == k
    ensures pseq(s, n, f).len() == n * k decreases n
{ if n > 0 { pseq_len(s, (n - 1) as nat, f, k); assert(pseq(s, n, f) == pseq(s, (n - 1) as nat, f) + f(s[n - 1])); assert((n - 1) * k + k == n * k) by (nonlinear_arith) requires n > 0; } else { assert(n * k == 0) by (nonlinear_arith) requires n == 0; } }

// ---- what surrounds the lifted code ----
//@ rewrite <\s*impl PackageIndexTrait\s*> ==>
//@ rewrite where\s+T: Debug \+ Clone \+ PartialEq \+ Eq \+ Hash,? ==>
//@ rewrite \bArchiveReader\b ==> ArchiveReaderX
//@ rewrite \bArchiveWriter\b ==> ArchiveWriterX
//@ rewrite \.ok_or_else\(\s*(\|\|)?\s*\{?\s*(PropertyError|Error)::\w+(\((?:[^()]|\([^()]*\))*\))?\s*\}?\s*\)\? ==> .ok_or(Error::Any)?
//@ rewrite Err\(Error::\w+\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\) ==> Err(Error::Any)
//@ rewrite (self(?:\.\w+)+|\be)\.as_deref\(\) ==> vx_deref(&\1)
//@ rewrite \b(name|new_ancestry|ancestry)\.clone\(\) ==> vx_dup(&\1)
//@ rewrite \bVec::with_capacity\( ==> vx_with_capacity(
//@ rewrite vec!\[0u8; ([^\]]*)\] ==> vx_zeros(\1)
//@ rewrite asset\.(read|write)_property_guid\( ==> \1_property_guid(asset, 
//@ rewrite let version(?:: CustomVersion)? = asset\.get_custom_version::<(\w+)>\(\); ==> let version = VxVer { version: asset.vx_cv::<\1>() };
//@ rewrite asset\s*\.get_custom_version::<(\w+)>\(\)\s*\.version ==> asset.vx_cv::<\1>()
//@ rewrite (F\w+Version)::(\w+)\s+as i32 ==> \1_\2
// f32 kept as f64: the conversions, and the stored form of their result
//@ rewrite asset\.read_f32::<LE>\(\)\? as f64 ==> vx_read_wide(asset)?
//@ rewrite asset\.write_f32::<LE>\((self[\w.]+) as f32\)\? ==> vx_write_narrow(asset, \1)?
//@ rewrite size_of::<(?:i32|u32|f32)>\(\) ==> 4usize
//@ rewrite size_of::<(?:i64|u64|f64)>\(\) ==> 8usize
//@ rewrite size_of::<(?:i16|u16)>\(\) ==> 2usize
//@ rewrite size_of::<(?:i8|u8|bool)>\(\) ==> 1usize
//@ rewrite \bf32\b ==> F32
//@ rewrite \bf64\b ==> F64
// a value that is read and dropped
//@ rewrite ;\s*asset\.read_(i32|u32)::<LE>\(\)\?; ==> ; let ghost vx_q = *asset; let vx_d = asset.read_\1::<LE>()?; proof { rd_any32(&vx_q, asset, vx_d as u32); }
//@ rewrite asset\.write_(i8|u8)\((self\.\w+|history_type)(?:\.into\(\)| as \w+)\) ==> asset.write_\1(\2.to_\1())
//@ rewrite (\w+)\.to_vec\(\) ==> vx_to_vec(&\1)
#[verifier::external_body]
pub fn vx_to_vec<const N: usize>(x: &[u8; N]) -> (r: Vec<u8>) ensures r@ == x@ { x.to_vec() }
pub fn vx_deref<'a>(s: &'a Option<String>) -> (r: Option<&'a str>) ensures dv(r) == sv(*s) { match s { Some(x) => Some(x.as_str()), None => None } }
#[verifier::external_body]
pub fn vx_dup<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[derive(Copy, Clone)]
pub struct OrderedFloat<T>(pub T);
#[verifier::external_body]
pub struct Ancestry { x: u8 }
impl Ancestry { #[verifier::external_body] pub fn with_parent(&self, p: FName) -> Ancestry { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct PackageIndex { pub index: i32 }
impl PackageIndex { pub fn new(index: i32) -> (r: PackageIndex) ensures r.index == index { PackageIndex { index } } }
pub open spec fn lwc(c: Ctx) -> bool { o5n(c.o5) >= o5n(ObjectVersionUE5::LARGE_WORLD_COORDINATES) }
pub open spec fn pf(v: OrderedFloat<F64>, c: Ctx) -> Seq<Pat> { if lwc(c) { p64(v.0.bits) } else { pnarrow(v.0, c) } }
pub fn vx_read_wide<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<F64, Error>)
    ensures r is Ok ==> rd(old(asset), final(asset), pnarrow(r->Ok_0, rc(old(asset)))),
{
    let v = asset.read_f32::<LE>()?;
    let w = widen(v);
    proof { reveal(pnarrow); narrow_widen(v); rd_any32(old(asset), asset, v.bits); }
    Ok(w)
}
pub fn vx_write_narrow<S: ArchiveWriterX>(asset: &mut S, v: F64) -> (r: Result<(), Error>)
    ensures r is Ok ==> wr(old(asset), final(asset), pnarrow(v, wc(old(asset)))),
{ proof { reveal(pnarrow); } asset.write_f32::<LE>(narrow(v)) }
/// four bytes the reader ignores, stored as zero
pub open spec fn pskip(c: Ctx) -> Seq<Pat> { if c.exact { p32(0) } else { anyb(4) } }
/// the flag words the writer stores
pub open spec fn flag(b: bool) -> i32 { if b { 1 } else { 0 } }



//@ rewrite \s*\+ Debug \+ Clone \+ PartialEq \+ Eq ==>
//@ rewrite <\s*Index: PackageIndexTrait\s*> ==>
//@ rewrite (Archive\w+X|Export|\w+Export)(?:::)?<\s*Index\s*> ==> \1
//@ rewrite let (\w+): (E\w+) =\s*(asset\.read_\w+(?:::<LE>)?\(\)\?)\.try_into\(\)\? ==> let \1: \2 = \2::try_from(\3)?
//@ rewrite (E\w+Flags)::from_bits\((.*?)\)\s*\.ok_or\(Error::Any\)\? ==> \1::vx_from_bits(\2)?
//@ rewrite write_i32::<LE>\((self\.\w+)\.into\(\)\) ==> write_i32::<LE>(\1.to_i32())
//@ enumnum unreal_asset/unreal_asset_base/src/enums.rs EArrayDim
//@ enumnum unreal_asset/unreal_asset_base/src/enums.rs ELifetimeCondition
// bit flags: their bits, as far as from_bits accepts them
macro_rules! flags { ($t:ident, $i:ty) => { verus! {
    #[derive(Copy, Clone)]
    pub struct $t { pub b: $i }
    impl $t {
        #[verifier::external_body]
        pub fn vx_from_bits(v: $i) -> (r: Result<$t, Error>) ensures r is Ok ==> r->Ok_0.b == v { unimplemented!() }
        pub fn bits(&self) -> (r: $i) ensures r == self.b { self.b }
    }
} } }
flags!(EObjectFlags, u32);
flags!(EPropertyFlags, u64);
flags!(EFunctionFlags, u32);
flags!(EStructFlags, u32);
flags!(EClassFlags, u32);
#[verifier::external_body]
pub fn vx_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub uninterp spec fn ftxt(n: FName) -> Seq<char>;
#[verifier::external_body]
pub fn vx_text<'a>(n: &'a FName) -> (r: &'a str) ensures r@ == ftxt(*n) { unimplemented!() }

pub struct FFrameworkObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FFrameworkObjectVersion RemoveUfieldNext
pub struct FReleaseObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FReleaseObjectVersion PropertiesSerializeRepCondition
pub struct FCoreObjectVersion;
//@ vernum unreal_asset/unreal_asset_base/src/custom_version.rs FCoreObjectVersion EnumProperties FProperties
//@ macros unreal_asset/unreal_asset_exports/src/properties/uproperty.rs parse_simple_property
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UField
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UGenericProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UBoolProperty
pub open spec fn pfield(v: UField, c: Ctx) -> Seq<Pat> {
    if cvn::<FFrameworkObjectVersion>(c.cv) < FFrameworkObjectVersion_RemoveUfieldNext { match v.next { Some(x) => p32(x.index as u32), None => Seq::empty() } } else { Seq::empty() }
}
/// the next field is there exactly in the versions that store one
pub open spec fn ok_field(v: UField, c: Ctx) -> bool { v.next is Some == (cvn::<FFrameworkObjectVersion>(c.cv) < FFrameworkObjectVersion_RemoveUfieldNext) }
pub open spec fn pugen(v: UGenericProperty, c: Ctx) -> Seq<Pat> {
    let x = (((pfield(v.u_field, c) + p32(EArrayDim_n(v.array_dim) as u32)) + p64(v.property_flags.b)) + pname(v.rep_notify_func));
    if cvn::<FReleaseObjectVersion>(c.cv) >= FReleaseObjectVersion_PropertiesSerializeRepCondition { match v.blueprint_replication_condition { Some(y) => x + p8(ELifetimeCondition_n(y)), None => x } } else { x }
}
pub open spec fn ok_ugen(v: UGenericProperty, c: Ctx) -> bool { ok_field(v.u_field, c) && v.blueprint_replication_condition is Some == (cvn::<FReleaseObjectVersion>(c.cv) >= FReleaseObjectVersion_PropertiesSerializeRepCondition) }

//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UField new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pfield(r->Ok_0, rc(old(asset)))) && ok_field(r->Ok_0, rc(old(asset))),
//@ at body-start
    proof { rd_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UField" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pfield(*self, wc(old(asset)))),
//@ at body-start
    proof { wr_nil(asset); }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UGenericProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pugen(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0, rc(old(asset))),
//@ rw! Some\(asset\.read_u8\(\)\?\.try_into\(\)\?\) ==> Some(ELifetimeCondition::try_from(asset.read_u8()?)?)
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UGenericProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pugen(*self, wc(old(asset)))),
//@ rw! \)\?\.into\(\) ==> )?.to_u8()
//@ end
pub open spec fn pu_UBoolProperty(v: UBoolProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p8(v.element_size)) + pbool(v.native_bool, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UBoolProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UBoolProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UBoolProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UBoolProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UEnumProperty
pub open spec fn pu_UEnumProperty(v: UEnumProperty, c: Ctx) -> Seq<Pat> { ((pugen(v.generic_property, c) + p32(v.value.index as u32)) + p32(v.underlying_prop.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UEnumProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UEnumProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UEnumProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UEnumProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UArrayProperty
pub open spec fn pu_UArrayProperty(v: UArrayProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.inner.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UArrayProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UArrayProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UArrayProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UArrayProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs USetProperty
pub open spec fn pu_USetProperty(v: USetProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.element_prop.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs USetProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_USetProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for USetProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_USetProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UObjectProperty
pub open spec fn pu_UObjectProperty(v: UObjectProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.property_class.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UObjectProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UObjectProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UObjectProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UObjectProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs USoftObjectProperty
pub open spec fn pu_USoftObjectProperty(v: USoftObjectProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.property_class.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs USoftObjectProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_USoftObjectProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for USoftObjectProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_USoftObjectProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs ULazyObjectProperty
pub open spec fn pu_ULazyObjectProperty(v: ULazyObjectProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.property_class.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs ULazyObjectProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_ULazyObjectProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for ULazyObjectProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_ULazyObjectProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UClassProperty
pub open spec fn pu_UClassProperty(v: UClassProperty, c: Ctx) -> Seq<Pat> { ((pugen(v.generic_property, c) + p32(v.property_class.index as u32)) + p32(v.meta_class.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UClassProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UClassProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UClassProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UClassProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs USoftClassProperty
pub open spec fn pu_USoftClassProperty(v: USoftClassProperty, c: Ctx) -> Seq<Pat> { ((pugen(v.generic_property, c) + p32(v.property_class.index as u32)) + p32(v.meta_class.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs USoftClassProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_USoftClassProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for USoftClassProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_USoftClassProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UDelegateProperty
pub open spec fn pu_UDelegateProperty(v: UDelegateProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.signature_function.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UDelegateProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UDelegateProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UDelegateProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UDelegateProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UMulticastDelegateProperty
pub open spec fn pu_UMulticastDelegateProperty(v: UMulticastDelegateProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.signature_function.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UMulticastDelegateProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UMulticastDelegateProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UMulticastDelegateProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UMulticastDelegateProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UMulticastInlineDelegateProperty
pub open spec fn pu_UMulticastInlineDelegateProperty(v: UMulticastInlineDelegateProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.signature_function.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UMulticastInlineDelegateProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UMulticastInlineDelegateProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UMulticastInlineDelegateProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UMulticastInlineDelegateProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UInterfaceProperty
pub open spec fn pu_UInterfaceProperty(v: UInterfaceProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.interface_class.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UInterfaceProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UInterfaceProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UInterfaceProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UInterfaceProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UMapProperty
pub open spec fn pu_UMapProperty(v: UMapProperty, c: Ctx) -> Seq<Pat> { ((pugen(v.generic_property, c) + p32(v.key_prop.index as u32)) + p32(v.value_prop.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UMapProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UMapProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UMapProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UMapProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UByteProperty
pub open spec fn pu_UByteProperty(v: UByteProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.enum_value.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UByteProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UByteProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UByteProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UByteProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UStructProperty
pub open spec fn pu_UStructProperty(v: UStructProperty, c: Ctx) -> Seq<Pat> { (pugen(v.generic_property, c) + p32(v.struct_value.index as u32)) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UStructProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UStructProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UStructProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UStructProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UDoubleProperty
pub open spec fn pu_UDoubleProperty(v: UDoubleProperty, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UDoubleProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UDoubleProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UDoubleProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UDoubleProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UFloatProperty
pub open spec fn pu_UFloatProperty(v: UFloatProperty, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UFloatProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UFloatProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UFloatProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UFloatProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UIntProperty
pub open spec fn pu_UIntProperty(v: UIntProperty, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UIntProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UIntProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UIntProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UIntProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UInt8Property
pub open spec fn pu_UInt8Property(v: UInt8Property, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UInt8Property new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UInt8Property(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UInt8Property" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UInt8Property(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UInt16Property
pub open spec fn pu_UInt16Property(v: UInt16Property, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UInt16Property new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UInt16Property(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UInt16Property" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UInt16Property(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UInt64Property
pub open spec fn pu_UInt64Property(v: UInt64Property, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UInt64Property new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UInt64Property(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UInt64Property" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UInt64Property(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UUInt8Property
pub open spec fn pu_UUInt8Property(v: UUInt8Property, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UUInt8Property new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UUInt8Property(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UUInt8Property" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UUInt8Property(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UUInt16Property
pub open spec fn pu_UUInt16Property(v: UUInt16Property, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UUInt16Property new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UUInt16Property(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UUInt16Property" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UUInt16Property(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UUInt64Property
pub open spec fn pu_UUInt64Property(v: UUInt64Property, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UUInt64Property new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UUInt64Property(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UUInt64Property" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UUInt64Property(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UNameProperty
pub open spec fn pu_UNameProperty(v: UNameProperty, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UNameProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UNameProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UNameProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UNameProperty(*self, wc(old(asset)))),
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UStrProperty
pub open spec fn pu_UStrProperty(v: UStrProperty, c: Ctx) -> Seq<Pat> { pugen(v.generic_property, c) }
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UStrProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pu_UStrProperty(r->Ok_0, rc(old(asset)))) && ok_ugen(r->Ok_0.generic_property, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs "UPropertyTrait for UStrProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pu_UStrProperty(*self, wc(old(asset)))),
//@ end
//@ variants unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UProperty UGenericProperty UEnumProperty UArrayProperty USetProperty UObjectProperty USoftObjectProperty ULazyObjectProperty UClassProperty USoftClassProperty UDelegateProperty UMulticastDelegateProperty UMulticastInlineDelegateProperty UInterfaceProperty UMapProperty UBoolProperty UByteProperty UStructProperty UDoubleProperty UFloatProperty UIntProperty UInt8Property UInt16Property UInt64Property UUInt8Property UUInt16Property UUInt64Property UNameProperty UStrProperty
pub enum UProperty { UGenericProperty(UGenericProperty), UEnumProperty(UEnumProperty), UArrayProperty(UArrayProperty), USetProperty(USetProperty), UObjectProperty(UObjectProperty), USoftObjectProperty(USoftObjectProperty), ULazyObjectProperty(ULazyObjectProperty), UClassProperty(UClassProperty), USoftClassProperty(USoftClassProperty), UDelegateProperty(UDelegateProperty), UMulticastDelegateProperty(UMulticastDelegateProperty), UMulticastInlineDelegateProperty(UMulticastInlineDelegateProperty), UInterfaceProperty(UInterfaceProperty), UMapProperty(UMapProperty), UBoolProperty(UBoolProperty), UByteProperty(UByteProperty), UStructProperty(UStructProperty), UDoubleProperty(UDoubleProperty), UFloatProperty(UFloatProperty), UIntProperty(UIntProperty), UInt8Property(UInt8Property), UInt16Property(UInt16Property), UInt64Property(UInt64Property), UUInt8Property(UUInt8Property), UUInt16Property(UUInt16Property), UUInt64Property(UUInt64Property), UNameProperty(UNameProperty), UStrProperty(UStrProperty) }
pub open spec fn pu_UGenericProperty(v: UGenericProperty, c: Ctx) -> Seq<Pat> { pugen(v, c) }
pub open spec fn pu(v: UProperty, c: Ctx) -> Seq<Pat> { match v { UProperty::UGenericProperty(x) => pu_UGenericProperty(x, c), UProperty::UEnumProperty(x) => pu_UEnumProperty(x, c), UProperty::UArrayProperty(x) => pu_UArrayProperty(x, c), UProperty::USetProperty(x) => pu_USetProperty(x, c), UProperty::UObjectProperty(x) => pu_UObjectProperty(x, c), UProperty::USoftObjectProperty(x) => pu_USoftObjectProperty(x, c), UProperty::ULazyObjectProperty(x) => pu_ULazyObjectProperty(x, c), UProperty::UClassProperty(x) => pu_UClassProperty(x, c), UProperty::USoftClassProperty(x) => pu_USoftClassProperty(x, c), UProperty::UDelegateProperty(x) => pu_UDelegateProperty(x, c), UProperty::UMulticastDelegateProperty(x) => pu_UMulticastDelegateProperty(x, c), UProperty::UMulticastInlineDelegateProperty(x) => pu_UMulticastInlineDelegateProperty(x, c), UProperty::UInterfaceProperty(x) => pu_UInterfaceProperty(x, c), UProperty::UMapProperty(x) => pu_UMapProperty(x, c), UProperty::UBoolProperty(x) => pu_UBoolProperty(x, c), UProperty::UByteProperty(x) => pu_UByteProperty(x, c), UProperty::UStructProperty(x) => pu_UStructProperty(x, c), UProperty::UDoubleProperty(x) => pu_UDoubleProperty(x, c), UProperty::UFloatProperty(x) => pu_UFloatProperty(x, c), UProperty::UIntProperty(x) => pu_UIntProperty(x, c), UProperty::UInt8Property(x) => pu_UInt8Property(x, c), UProperty::UInt16Property(x) => pu_UInt16Property(x, c), UProperty::UInt64Property(x) => pu_UInt64Property(x, c), UProperty::UUInt8Property(x) => pu_UUInt8Property(x, c), UProperty::UUInt16Property(x) => pu_UUInt16Property(x, c), UProperty::UUInt64Property(x) => pu_UUInt64Property(x, c), UProperty::UNameProperty(x) => pu_UNameProperty(x, c), UProperty::UStrProperty(x) => pu_UStrProperty(x, c) } }
/// which kind of property a class of a package describes
pub open spec fn ukind(t: Seq<char>, v: UProperty) -> bool {
    &&& (v is UEnumProperty) == (t == "EnumProperty"@)
    &&& (v is UArrayProperty) == (t == "ArrayProperty"@)
    &&& (v is USetProperty) == (t == "SetProperty"@)
    &&& (v is UObjectProperty) == (t == "ObjectProperty"@)
    &&& (v is USoftObjectProperty) == (t == "SoftObjectProperty"@)
    &&& (v is ULazyObjectProperty) == (t == "LazyObjectProperty"@)
    &&& (v is UClassProperty) == (t == "ClassProperty"@)
    &&& (v is USoftClassProperty) == (t == "SoftClassProperty"@)
    &&& (v is UDelegateProperty) == (t == "DelegateProperty"@)
    &&& (v is UMulticastDelegateProperty) == (t == "MulticastDelegateProperty"@)
    &&& (v is UMulticastInlineDelegateProperty) == (t == "MulticastInlineDelegateProperty"@)
    &&& (v is UInterfaceProperty) == (t == "InterfaceProperty"@)
    &&& (v is UMapProperty) == (t == "MapProperty"@)
    &&& (v is UBoolProperty) == (t == "BoolProperty"@)
    &&& (v is UByteProperty) == (t == "ByteProperty"@)
    &&& (v is UStructProperty) == (t == "StructProperty"@)
    &&& (v is UDoubleProperty) == (t == "DoubleProperty"@)
    &&& (v is UFloatProperty) == (t == "FloatProperty"@)
    &&& (v is UIntProperty) == (t == "IntProperty"@)
    &&& (v is UInt8Property) == (t == "Int8Property"@)
    &&& (v is UInt16Property) == (t == "Int16Property"@)
    &&& (v is UInt64Property) == (t == "Int64Property"@)
    &&& (v is UUInt8Property) == (t == "UInt8Property"@)
    &&& (v is UUInt16Property) == (t == "UInt16Property"@)
    &&& (v is UUInt64Property) == (t == "UInt64Property"@)
    &&& (v is UNameProperty) == (t == "NameProperty"@)
    &&& (v is UStrProperty) == (t == "StrProperty"@)
}
pub proof fn u_distinct()
    ensures
        "EnumProperty"@ != "ArrayProperty"@,
        "EnumProperty"@ != "SetProperty"@,
        "EnumProperty"@ != "ObjectProperty"@,
        "EnumProperty"@ != "SoftObjectProperty"@,
        "EnumProperty"@ != "LazyObjectProperty"@,
        "EnumProperty"@ != "ClassProperty"@,
        "EnumProperty"@ != "SoftClassProperty"@,
        "EnumProperty"@ != "DelegateProperty"@,
        "EnumProperty"@ != "MulticastDelegateProperty"@,
        "EnumProperty"@ != "MulticastInlineDelegateProperty"@,
        "EnumProperty"@ != "InterfaceProperty"@,
        "EnumProperty"@ != "MapProperty"@,
        "EnumProperty"@ != "BoolProperty"@,
        "EnumProperty"@ != "ByteProperty"@,
        "EnumProperty"@ != "StructProperty"@,
        "EnumProperty"@ != "DoubleProperty"@,
        "EnumProperty"@ != "FloatProperty"@,
        "EnumProperty"@ != "IntProperty"@,
        "EnumProperty"@ != "Int8Property"@,
        "EnumProperty"@ != "Int16Property"@,
        "EnumProperty"@ != "Int64Property"@,
        "EnumProperty"@ != "UInt8Property"@,
        "EnumProperty"@ != "UInt16Property"@,
        "EnumProperty"@ != "UInt64Property"@,
        "EnumProperty"@ != "NameProperty"@,
        "EnumProperty"@ != "StrProperty"@,
        "ArrayProperty"@ != "SetProperty"@,
        "ArrayProperty"@ != "ObjectProperty"@,
        "ArrayProperty"@ != "SoftObjectProperty"@,
        "ArrayProperty"@ != "LazyObjectProperty"@,
        "ArrayProperty"@ != "ClassProperty"@,
        "ArrayProperty"@ != "SoftClassProperty"@,
        "ArrayProperty"@ != "DelegateProperty"@,
        "ArrayProperty"@ != "MulticastDelegateProperty"@,
        "ArrayProperty"@ != "MulticastInlineDelegateProperty"@,
        "ArrayProperty"@ != "InterfaceProperty"@,
        "ArrayProperty"@ != "MapProperty"@,
        "ArrayProperty"@ != "BoolProperty"@,
        "ArrayProperty"@ != "ByteProperty"@,
        "ArrayProperty"@ != "StructProperty"@,
        "ArrayProperty"@ != "DoubleProperty"@,
        "ArrayProperty"@ != "FloatProperty"@,
        "ArrayProperty"@ != "IntProperty"@,
        "ArrayProperty"@ != "Int8Property"@,
        "ArrayProperty"@ != "Int16Property"@,
        "ArrayProperty"@ != "Int64Property"@,
        "ArrayProperty"@ != "UInt8Property"@,
        "ArrayProperty"@ != "UInt16Property"@,
        "ArrayProperty"@ != "UInt64Property"@,
        "ArrayProperty"@ != "NameProperty"@,
        "ArrayProperty"@ != "StrProperty"@,
        "SetProperty"@ != "ObjectProperty"@,
        "SetProperty"@ != "SoftObjectProperty"@,
        "SetProperty"@ != "LazyObjectProperty"@,
        "SetProperty"@ != "ClassProperty"@,
        "SetProperty"@ != "SoftClassProperty"@,
        "SetProperty"@ != "DelegateProperty"@,
        "SetProperty"@ != "MulticastDelegateProperty"@,
        "SetProperty"@ != "MulticastInlineDelegateProperty"@,
        "SetProperty"@ != "InterfaceProperty"@,
        "SetProperty"@ != "MapProperty"@,
        "SetProperty"@ != "BoolProperty"@,
        "SetProperty"@ != "ByteProperty"@,
        "SetProperty"@ != "StructProperty"@,
        "SetProperty"@ != "DoubleProperty"@,
        "SetProperty"@ != "FloatProperty"@,
        "SetProperty"@ != "IntProperty"@,
        "SetProperty"@ != "Int8Property"@,
        "SetProperty"@ != "Int16Property"@,
        "SetProperty"@ != "Int64Property"@,
        "SetProperty"@ != "UInt8Property"@,
        "SetProperty"@ != "UInt16Property"@,
        "SetProperty"@ != "UInt64Property"@,
        "SetProperty"@ != "NameProperty"@,
        "SetProperty"@ != "StrProperty"@,
        "ObjectProperty"@ != "SoftObjectProperty"@,
        "ObjectProperty"@ != "LazyObjectProperty"@,
        "ObjectProperty"@ != "ClassProperty"@,
        "ObjectProperty"@ != "SoftClassProperty"@,
        "ObjectProperty"@ != "DelegateProperty"@,
        "ObjectProperty"@ != "MulticastDelegateProperty"@,
        "ObjectProperty"@ != "MulticastInlineDelegateProperty"@,
        "ObjectProperty"@ != "InterfaceProperty"@,
        "ObjectProperty"@ != "MapProperty"@,
        "ObjectProperty"@ != "BoolProperty"@,
        "ObjectProperty"@ != "ByteProperty"@,
        "ObjectProperty"@ != "StructProperty"@,
        "ObjectProperty"@ != "DoubleProperty"@,
        "ObjectProperty"@ != "FloatProperty"@,
        "ObjectProperty"@ != "IntProperty"@,
        "ObjectProperty"@ != "Int8Property"@,
        "ObjectProperty"@ != "Int16Property"@,
        "ObjectProperty"@ != "Int64Property"@,
        "ObjectProperty"@ != "UInt8Property"@,
        "ObjectProperty"@ != "UInt16Property"@,
        "ObjectProperty"@ != "UInt64Property"@,
        "ObjectProperty"@ != "NameProperty"@,
        "ObjectProperty"@ != "StrProperty"@,
        "SoftObjectProperty"@ != "LazyObjectProperty"@,
        "SoftObjectProperty"@ != "ClassProperty"@,
        "SoftObjectProperty"@ != "SoftClassProperty"@,
        "SoftObjectProperty"@ != "DelegateProperty"@,
        "SoftObjectProperty"@ != "MulticastDelegateProperty"@,
        "SoftObjectProperty"@ != "MulticastInlineDelegateProperty"@,
        "SoftObjectProperty"@ != "InterfaceProperty"@,
        "SoftObjectProperty"@ != "MapProperty"@,
        "SoftObjectProperty"@ != "BoolProperty"@,
        "SoftObjectProperty"@ != "ByteProperty"@,
        "SoftObjectProperty"@ != "StructProperty"@,
        "SoftObjectProperty"@ != "DoubleProperty"@,
        "SoftObjectProperty"@ != "FloatProperty"@,
        "SoftObjectProperty"@ != "IntProperty"@,
        "SoftObjectProperty"@ != "Int8Property"@,
        "SoftObjectProperty"@ != "Int16Property"@,
        "SoftObjectProperty"@ != "Int64Property"@,
        "SoftObjectProperty"@ != "UInt8Property"@,
        "SoftObjectProperty"@ != "UInt16Property"@,
        "SoftObjectProperty"@ != "UInt64Property"@,
        "SoftObjectProperty"@ != "NameProperty"@,
        "SoftObjectProperty"@ != "StrProperty"@,
        "LazyObjectProperty"@ != "ClassProperty"@,
        "LazyObjectProperty"@ != "SoftClassProperty"@,
        "LazyObjectProperty"@ != "DelegateProperty"@,
        "LazyObjectProperty"@ != "MulticastDelegateProperty"@,
        "LazyObjectProperty"@ != "MulticastInlineDelegateProperty"@,
        "LazyObjectProperty"@ != "InterfaceProperty"@,
        "LazyObjectProperty"@ != "MapProperty"@,
        "LazyObjectProperty"@ != "BoolProperty"@,
        "LazyObjectProperty"@ != "ByteProperty"@,
        "LazyObjectProperty"@ != "StructProperty"@,
        "LazyObjectProperty"@ != "DoubleProperty"@,
        "LazyObjectProperty"@ != "FloatProperty"@,
        "LazyObjectProperty"@ != "IntProperty"@,
        "LazyObjectProperty"@ != "Int8Property"@,
        "LazyObjectProperty"@ != "Int16Property"@,
        "LazyObjectProperty"@ != "Int64Property"@,
        "LazyObjectProperty"@ != "UInt8Property"@,
        "LazyObjectProperty"@ != "UInt16Property"@,
        "LazyObjectProperty"@ != "UInt64Property"@,
        "LazyObjectProperty"@ != "NameProperty"@,
        "LazyObjectProperty"@ != "StrProperty"@,
        "ClassProperty"@ != "SoftClassProperty"@,
        "ClassProperty"@ != "DelegateProperty"@,
        "ClassProperty"@ != "MulticastDelegateProperty"@,
        "ClassProperty"@ != "MulticastInlineDelegateProperty"@,
        "ClassProperty"@ != "InterfaceProperty"@,
        "ClassProperty"@ != "MapProperty"@,
        "ClassProperty"@ != "BoolProperty"@,
        "ClassProperty"@ != "ByteProperty"@,
        "ClassProperty"@ != "StructProperty"@,
        "ClassProperty"@ != "DoubleProperty"@,
        "ClassProperty"@ != "FloatProperty"@,
        "ClassProperty"@ != "IntProperty"@,
        "ClassProperty"@ != "Int8Property"@,
        "ClassProperty"@ != "Int16Property"@,
        "ClassProperty"@ != "Int64Property"@,
        "ClassProperty"@ != "UInt8Property"@,
        "ClassProperty"@ != "UInt16Property"@,
        "ClassProperty"@ != "UInt64Property"@,
        "ClassProperty"@ != "NameProperty"@,
        "ClassProperty"@ != "StrProperty"@,
        "SoftClassProperty"@ != "DelegateProperty"@,
        "SoftClassProperty"@ != "MulticastDelegateProperty"@,
        "SoftClassProperty"@ != "MulticastInlineDelegateProperty"@,
        "SoftClassProperty"@ != "InterfaceProperty"@,
        "SoftClassProperty"@ != "MapProperty"@,
        "SoftClassProperty"@ != "BoolProperty"@,
        "SoftClassProperty"@ != "ByteProperty"@,
        "SoftClassProperty"@ != "StructProperty"@,
        "SoftClassProperty"@ != "DoubleProperty"@,
        "SoftClassProperty"@ != "FloatProperty"@,
        "SoftClassProperty"@ != "IntProperty"@,
        "SoftClassProperty"@ != "Int8Property"@,
        "SoftClassProperty"@ != "Int16Property"@,
        "SoftClassProperty"@ != "Int64Property"@,
        "SoftClassProperty"@ != "UInt8Property"@,
        "SoftClassProperty"@ != "UInt16Property"@,
        "SoftClassProperty"@ != "UInt64Property"@,
        "SoftClassProperty"@ != "NameProperty"@,
        "SoftClassProperty"@ != "StrProperty"@,
        "DelegateProperty"@ != "MulticastDelegateProperty"@,
        "DelegateProperty"@ != "MulticastInlineDelegateProperty"@,
        "DelegateProperty"@ != "InterfaceProperty"@,
        "DelegateProperty"@ != "MapProperty"@,
        "DelegateProperty"@ != "BoolProperty"@,
        "DelegateProperty"@ != "ByteProperty"@,
        "DelegateProperty"@ != "StructProperty"@,
        "DelegateProperty"@ != "DoubleProperty"@,
        "DelegateProperty"@ != "FloatProperty"@,
        "DelegateProperty"@ != "IntProperty"@,
        "DelegateProperty"@ != "Int8Property"@,
        "DelegateProperty"@ != "Int16Property"@,
        "DelegateProperty"@ != "Int64Property"@,
        "DelegateProperty"@ != "UInt8Property"@,
        "DelegateProperty"@ != "UInt16Property"@,
        "DelegateProperty"@ != "UInt64Property"@,
        "DelegateProperty"@ != "NameProperty"@,
        "DelegateProperty"@ != "StrProperty"@,
        "MulticastDelegateProperty"@ != "MulticastInlineDelegateProperty"@,
        "MulticastDelegateProperty"@ != "InterfaceProperty"@,
        "MulticastDelegateProperty"@ != "MapProperty"@,
        "MulticastDelegateProperty"@ != "BoolProperty"@,
        "MulticastDelegateProperty"@ != "ByteProperty"@,
        "MulticastDelegateProperty"@ != "StructProperty"@,
        "MulticastDelegateProperty"@ != "DoubleProperty"@,
        "MulticastDelegateProperty"@ != "FloatProperty"@,
        "MulticastDelegateProperty"@ != "IntProperty"@,
        "MulticastDelegateProperty"@ != "Int8Property"@,
        "MulticastDelegateProperty"@ != "Int16Property"@,
        "MulticastDelegateProperty"@ != "Int64Property"@,
        "MulticastDelegateProperty"@ != "UInt8Property"@,
        "MulticastDelegateProperty"@ != "UInt16Property"@,
        "MulticastDelegateProperty"@ != "UInt64Property"@,
        "MulticastDelegateProperty"@ != "NameProperty"@,
        "MulticastDelegateProperty"@ != "StrProperty"@,
        "MulticastInlineDelegateProperty"@ != "InterfaceProperty"@,
        "MulticastInlineDelegateProperty"@ != "MapProperty"@,
        "MulticastInlineDelegateProperty"@ != "BoolProperty"@,
        "MulticastInlineDelegateProperty"@ != "ByteProperty"@,
        "MulticastInlineDelegateProperty"@ != "StructProperty"@,
        "MulticastInlineDelegateProperty"@ != "DoubleProperty"@,
        "MulticastInlineDelegateProperty"@ != "FloatProperty"@,
        "MulticastInlineDelegateProperty"@ != "IntProperty"@,
        "MulticastInlineDelegateProperty"@ != "Int8Property"@,
        "MulticastInlineDelegateProperty"@ != "Int16Property"@,
        "MulticastInlineDelegateProperty"@ != "Int64Property"@,
        "MulticastInlineDelegateProperty"@ != "UInt8Property"@,
        "MulticastInlineDelegateProperty"@ != "UInt16Property"@,
        "MulticastInlineDelegateProperty"@ != "UInt64Property"@,
        "MulticastInlineDelegateProperty"@ != "NameProperty"@,
        "MulticastInlineDelegateProperty"@ != "StrProperty"@,
        "InterfaceProperty"@ != "MapProperty"@,
        "InterfaceProperty"@ != "BoolProperty"@,
        "InterfaceProperty"@ != "ByteProperty"@,
        "InterfaceProperty"@ != "StructProperty"@,
        "InterfaceProperty"@ != "DoubleProperty"@,
        "InterfaceProperty"@ != "FloatProperty"@,
        "InterfaceProperty"@ != "IntProperty"@,
        "InterfaceProperty"@ != "Int8Property"@,
        "InterfaceProperty"@ != "Int16Property"@,
        "InterfaceProperty"@ != "Int64Property"@,
        "InterfaceProperty"@ != "UInt8Property"@,
        "InterfaceProperty"@ != "UInt16Property"@,
        "InterfaceProperty"@ != "UInt64Property"@,
        "InterfaceProperty"@ != "NameProperty"@,
        "InterfaceProperty"@ != "StrProperty"@,
        "MapProperty"@ != "BoolProperty"@,
        "MapProperty"@ != "ByteProperty"@,
        "MapProperty"@ != "StructProperty"@,
        "MapProperty"@ != "DoubleProperty"@,
        "MapProperty"@ != "FloatProperty"@,
        "MapProperty"@ != "IntProperty"@,
        "MapProperty"@ != "Int8Property"@,
        "MapProperty"@ != "Int16Property"@,
        "MapProperty"@ != "Int64Property"@,
        "MapProperty"@ != "UInt8Property"@,
        "MapProperty"@ != "UInt16Property"@,
        "MapProperty"@ != "UInt64Property"@,
        "MapProperty"@ != "NameProperty"@,
        "MapProperty"@ != "StrProperty"@,
        "BoolProperty"@ != "ByteProperty"@,
        "BoolProperty"@ != "StructProperty"@,
        "BoolProperty"@ != "DoubleProperty"@,
        "BoolProperty"@ != "FloatProperty"@,
        "BoolProperty"@ != "IntProperty"@,
        "BoolProperty"@ != "Int8Property"@,
        "BoolProperty"@ != "Int16Property"@,
        "BoolProperty"@ != "Int64Property"@,
        "BoolProperty"@ != "UInt8Property"@,
        "BoolProperty"@ != "UInt16Property"@,
        "BoolProperty"@ != "UInt64Property"@,
        "BoolProperty"@ != "NameProperty"@,
        "BoolProperty"@ != "StrProperty"@,
        "ByteProperty"@ != "StructProperty"@,
        "ByteProperty"@ != "DoubleProperty"@,
        "ByteProperty"@ != "FloatProperty"@,
        "ByteProperty"@ != "IntProperty"@,
        "ByteProperty"@ != "Int8Property"@,
        "ByteProperty"@ != "Int16Property"@,
        "ByteProperty"@ != "Int64Property"@,
        "ByteProperty"@ != "UInt8Property"@,
        "ByteProperty"@ != "UInt16Property"@,
        "ByteProperty"@ != "UInt64Property"@,
        "ByteProperty"@ != "NameProperty"@,
        "ByteProperty"@ != "StrProperty"@,
        "StructProperty"@ != "DoubleProperty"@,
        "StructProperty"@ != "FloatProperty"@,
        "StructProperty"@ != "IntProperty"@,
        "StructProperty"@ != "Int8Property"@,
        "StructProperty"@ != "Int16Property"@,
        "StructProperty"@ != "Int64Property"@,
        "StructProperty"@ != "UInt8Property"@,
        "StructProperty"@ != "UInt16Property"@,
        "StructProperty"@ != "UInt64Property"@,
        "StructProperty"@ != "NameProperty"@,
        "StructProperty"@ != "StrProperty"@,
        "DoubleProperty"@ != "FloatProperty"@,
        "DoubleProperty"@ != "IntProperty"@,
        "DoubleProperty"@ != "Int8Property"@,
        "DoubleProperty"@ != "Int16Property"@,
        "DoubleProperty"@ != "Int64Property"@,
        "DoubleProperty"@ != "UInt8Property"@,
        "DoubleProperty"@ != "UInt16Property"@,
        "DoubleProperty"@ != "UInt64Property"@,
        "DoubleProperty"@ != "NameProperty"@,
        "DoubleProperty"@ != "StrProperty"@,
        "FloatProperty"@ != "IntProperty"@,
        "FloatProperty"@ != "Int8Property"@,
        "FloatProperty"@ != "Int16Property"@,
        "FloatProperty"@ != "Int64Property"@,
        "FloatProperty"@ != "UInt8Property"@,
        "FloatProperty"@ != "UInt16Property"@,
        "FloatProperty"@ != "UInt64Property"@,
        "FloatProperty"@ != "NameProperty"@,
        "FloatProperty"@ != "StrProperty"@,
        "IntProperty"@ != "Int8Property"@,
        "IntProperty"@ != "Int16Property"@,
        "IntProperty"@ != "Int64Property"@,
        "IntProperty"@ != "UInt8Property"@,
        "IntProperty"@ != "UInt16Property"@,
        "IntProperty"@ != "UInt64Property"@,
        "IntProperty"@ != "NameProperty"@,
        "IntProperty"@ != "StrProperty"@,
        "Int8Property"@ != "Int16Property"@,
        "Int8Property"@ != "Int64Property"@,
        "Int8Property"@ != "UInt8Property"@,
        "Int8Property"@ != "UInt16Property"@,
        "Int8Property"@ != "UInt64Property"@,
        "Int8Property"@ != "NameProperty"@,
        "Int8Property"@ != "StrProperty"@,
        "Int16Property"@ != "Int64Property"@,
        "Int16Property"@ != "UInt8Property"@,
        "Int16Property"@ != "UInt16Property"@,
        "Int16Property"@ != "UInt64Property"@,
        "Int16Property"@ != "NameProperty"@,
        "Int16Property"@ != "StrProperty"@,
        "Int64Property"@ != "UInt8Property"@,
        "Int64Property"@ != "UInt16Property"@,
        "Int64Property"@ != "UInt64Property"@,
        "Int64Property"@ != "NameProperty"@,
        "Int64Property"@ != "StrProperty"@,
        "UInt8Property"@ != "UInt16Property"@,
        "UInt8Property"@ != "UInt64Property"@,
        "UInt8Property"@ != "NameProperty"@,
        "UInt8Property"@ != "StrProperty"@,
        "UInt16Property"@ != "UInt64Property"@,
        "UInt16Property"@ != "NameProperty"@,
        "UInt16Property"@ != "StrProperty"@,
        "UInt64Property"@ != "NameProperty"@,
        "UInt64Property"@ != "StrProperty"@,
        "NameProperty"@ != "StrProperty"@,
{
    reveal_strlit("EnumProperty"); reveal_strlit("ArrayProperty"); reveal_strlit("SetProperty"); reveal_strlit("ObjectProperty"); reveal_strlit("SoftObjectProperty"); reveal_strlit("LazyObjectProperty"); reveal_strlit("ClassProperty"); reveal_strlit("SoftClassProperty"); reveal_strlit("DelegateProperty"); reveal_strlit("MulticastDelegateProperty"); reveal_strlit("MulticastInlineDelegateProperty"); reveal_strlit("InterfaceProperty"); reveal_strlit("MapProperty"); reveal_strlit("BoolProperty"); reveal_strlit("ByteProperty"); reveal_strlit("StructProperty"); reveal_strlit("DoubleProperty"); reveal_strlit("FloatProperty"); reveal_strlit("IntProperty"); reveal_strlit("Int8Property"); reveal_strlit("Int16Property"); reveal_strlit("Int64Property"); reveal_strlit("UInt8Property"); reveal_strlit("UInt16Property"); reveal_strlit("UInt64Property"); reveal_strlit("NameProperty"); reveal_strlit("StrProperty");
    assert("EnumProperty"@.len() != "ArrayProperty"@.len());
    assert("EnumProperty"@.len() != "SetProperty"@.len());
    assert("EnumProperty"@.len() != "ObjectProperty"@.len());
    assert("EnumProperty"@.len() != "SoftObjectProperty"@.len());
    assert("EnumProperty"@.len() != "LazyObjectProperty"@.len());
    assert("EnumProperty"@.len() != "ClassProperty"@.len());
    assert("EnumProperty"@.len() != "SoftClassProperty"@.len());
    assert("EnumProperty"@.len() != "DelegateProperty"@.len());
    assert("EnumProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("EnumProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("EnumProperty"@.len() != "InterfaceProperty"@.len());
    assert("EnumProperty"@.len() != "MapProperty"@.len());
    assert("EnumProperty"@[0] != "BoolProperty"@[0]);
    assert("EnumProperty"@[0] != "ByteProperty"@[0]);
    assert("EnumProperty"@.len() != "StructProperty"@.len());
    assert("EnumProperty"@.len() != "DoubleProperty"@.len());
    assert("EnumProperty"@.len() != "FloatProperty"@.len());
    assert("EnumProperty"@.len() != "IntProperty"@.len());
    assert("EnumProperty"@[0] != "Int8Property"@[0]);
    assert("EnumProperty"@.len() != "Int16Property"@.len());
    assert("EnumProperty"@.len() != "Int64Property"@.len());
    assert("EnumProperty"@.len() != "UInt8Property"@.len());
    assert("EnumProperty"@.len() != "UInt16Property"@.len());
    assert("EnumProperty"@.len() != "UInt64Property"@.len());
    assert("EnumProperty"@[0] != "NameProperty"@[0]);
    assert("EnumProperty"@.len() != "StrProperty"@.len());
    assert("ArrayProperty"@.len() != "SetProperty"@.len());
    assert("ArrayProperty"@.len() != "ObjectProperty"@.len());
    assert("ArrayProperty"@.len() != "SoftObjectProperty"@.len());
    assert("ArrayProperty"@.len() != "LazyObjectProperty"@.len());
    assert("ArrayProperty"@[0] != "ClassProperty"@[0]);
    assert("ArrayProperty"@.len() != "SoftClassProperty"@.len());
    assert("ArrayProperty"@.len() != "DelegateProperty"@.len());
    assert("ArrayProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("ArrayProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("ArrayProperty"@.len() != "InterfaceProperty"@.len());
    assert("ArrayProperty"@.len() != "MapProperty"@.len());
    assert("ArrayProperty"@.len() != "BoolProperty"@.len());
    assert("ArrayProperty"@.len() != "ByteProperty"@.len());
    assert("ArrayProperty"@.len() != "StructProperty"@.len());
    assert("ArrayProperty"@.len() != "DoubleProperty"@.len());
    assert("ArrayProperty"@[0] != "FloatProperty"@[0]);
    assert("ArrayProperty"@.len() != "IntProperty"@.len());
    assert("ArrayProperty"@.len() != "Int8Property"@.len());
    assert("ArrayProperty"@[0] != "Int16Property"@[0]);
    assert("ArrayProperty"@[0] != "Int64Property"@[0]);
    assert("ArrayProperty"@[0] != "UInt8Property"@[0]);
    assert("ArrayProperty"@.len() != "UInt16Property"@.len());
    assert("ArrayProperty"@.len() != "UInt64Property"@.len());
    assert("ArrayProperty"@.len() != "NameProperty"@.len());
    assert("ArrayProperty"@.len() != "StrProperty"@.len());
    assert("SetProperty"@.len() != "ObjectProperty"@.len());
    assert("SetProperty"@.len() != "SoftObjectProperty"@.len());
    assert("SetProperty"@.len() != "LazyObjectProperty"@.len());
    assert("SetProperty"@.len() != "ClassProperty"@.len());
    assert("SetProperty"@.len() != "SoftClassProperty"@.len());
    assert("SetProperty"@.len() != "DelegateProperty"@.len());
    assert("SetProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("SetProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("SetProperty"@.len() != "InterfaceProperty"@.len());
    assert("SetProperty"@[0] != "MapProperty"@[0]);
    assert("SetProperty"@.len() != "BoolProperty"@.len());
    assert("SetProperty"@.len() != "ByteProperty"@.len());
    assert("SetProperty"@.len() != "StructProperty"@.len());
    assert("SetProperty"@.len() != "DoubleProperty"@.len());
    assert("SetProperty"@.len() != "FloatProperty"@.len());
    assert("SetProperty"@[0] != "IntProperty"@[0]);
    assert("SetProperty"@.len() != "Int8Property"@.len());
    assert("SetProperty"@.len() != "Int16Property"@.len());
    assert("SetProperty"@.len() != "Int64Property"@.len());
    assert("SetProperty"@.len() != "UInt8Property"@.len());
    assert("SetProperty"@.len() != "UInt16Property"@.len());
    assert("SetProperty"@.len() != "UInt64Property"@.len());
    assert("SetProperty"@.len() != "NameProperty"@.len());
    assert("SetProperty"@[1] != "StrProperty"@[1]);
    assert("ObjectProperty"@.len() != "SoftObjectProperty"@.len());
    assert("ObjectProperty"@.len() != "LazyObjectProperty"@.len());
    assert("ObjectProperty"@.len() != "ClassProperty"@.len());
    assert("ObjectProperty"@.len() != "SoftClassProperty"@.len());
    assert("ObjectProperty"@.len() != "DelegateProperty"@.len());
    assert("ObjectProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("ObjectProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("ObjectProperty"@.len() != "InterfaceProperty"@.len());
    assert("ObjectProperty"@.len() != "MapProperty"@.len());
    assert("ObjectProperty"@.len() != "BoolProperty"@.len());
    assert("ObjectProperty"@.len() != "ByteProperty"@.len());
    assert("ObjectProperty"@[0] != "StructProperty"@[0]);
    assert("ObjectProperty"@[0] != "DoubleProperty"@[0]);
    assert("ObjectProperty"@.len() != "FloatProperty"@.len());
    assert("ObjectProperty"@.len() != "IntProperty"@.len());
    assert("ObjectProperty"@.len() != "Int8Property"@.len());
    assert("ObjectProperty"@.len() != "Int16Property"@.len());
    assert("ObjectProperty"@.len() != "Int64Property"@.len());
    assert("ObjectProperty"@.len() != "UInt8Property"@.len());
    assert("ObjectProperty"@[0] != "UInt16Property"@[0]);
    assert("ObjectProperty"@[0] != "UInt64Property"@[0]);
    assert("ObjectProperty"@.len() != "NameProperty"@.len());
    assert("ObjectProperty"@.len() != "StrProperty"@.len());
    assert("SoftObjectProperty"@[0] != "LazyObjectProperty"@[0]);
    assert("SoftObjectProperty"@.len() != "ClassProperty"@.len());
    assert("SoftObjectProperty"@.len() != "SoftClassProperty"@.len());
    assert("SoftObjectProperty"@.len() != "DelegateProperty"@.len());
    assert("SoftObjectProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("SoftObjectProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("SoftObjectProperty"@.len() != "InterfaceProperty"@.len());
    assert("SoftObjectProperty"@.len() != "MapProperty"@.len());
    assert("SoftObjectProperty"@.len() != "BoolProperty"@.len());
    assert("SoftObjectProperty"@.len() != "ByteProperty"@.len());
    assert("SoftObjectProperty"@.len() != "StructProperty"@.len());
    assert("SoftObjectProperty"@.len() != "DoubleProperty"@.len());
    assert("SoftObjectProperty"@.len() != "FloatProperty"@.len());
    assert("SoftObjectProperty"@.len() != "IntProperty"@.len());
    assert("SoftObjectProperty"@.len() != "Int8Property"@.len());
    assert("SoftObjectProperty"@.len() != "Int16Property"@.len());
    assert("SoftObjectProperty"@.len() != "Int64Property"@.len());
    assert("SoftObjectProperty"@.len() != "UInt8Property"@.len());
    assert("SoftObjectProperty"@.len() != "UInt16Property"@.len());
    assert("SoftObjectProperty"@.len() != "UInt64Property"@.len());
    assert("SoftObjectProperty"@.len() != "NameProperty"@.len());
    assert("SoftObjectProperty"@.len() != "StrProperty"@.len());
    assert("LazyObjectProperty"@.len() != "ClassProperty"@.len());
    assert("LazyObjectProperty"@.len() != "SoftClassProperty"@.len());
    assert("LazyObjectProperty"@.len() != "DelegateProperty"@.len());
    assert("LazyObjectProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("LazyObjectProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("LazyObjectProperty"@.len() != "InterfaceProperty"@.len());
    assert("LazyObjectProperty"@.len() != "MapProperty"@.len());
    assert("LazyObjectProperty"@.len() != "BoolProperty"@.len());
    assert("LazyObjectProperty"@.len() != "ByteProperty"@.len());
    assert("LazyObjectProperty"@.len() != "StructProperty"@.len());
    assert("LazyObjectProperty"@.len() != "DoubleProperty"@.len());
    assert("LazyObjectProperty"@.len() != "FloatProperty"@.len());
    assert("LazyObjectProperty"@.len() != "IntProperty"@.len());
    assert("LazyObjectProperty"@.len() != "Int8Property"@.len());
    assert("LazyObjectProperty"@.len() != "Int16Property"@.len());
    assert("LazyObjectProperty"@.len() != "Int64Property"@.len());
    assert("LazyObjectProperty"@.len() != "UInt8Property"@.len());
    assert("LazyObjectProperty"@.len() != "UInt16Property"@.len());
    assert("LazyObjectProperty"@.len() != "UInt64Property"@.len());
    assert("LazyObjectProperty"@.len() != "NameProperty"@.len());
    assert("LazyObjectProperty"@.len() != "StrProperty"@.len());
    assert("ClassProperty"@.len() != "SoftClassProperty"@.len());
    assert("ClassProperty"@.len() != "DelegateProperty"@.len());
    assert("ClassProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("ClassProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("ClassProperty"@.len() != "InterfaceProperty"@.len());
    assert("ClassProperty"@.len() != "MapProperty"@.len());
    assert("ClassProperty"@.len() != "BoolProperty"@.len());
    assert("ClassProperty"@.len() != "ByteProperty"@.len());
    assert("ClassProperty"@.len() != "StructProperty"@.len());
    assert("ClassProperty"@.len() != "DoubleProperty"@.len());
    assert("ClassProperty"@[0] != "FloatProperty"@[0]);
    assert("ClassProperty"@.len() != "IntProperty"@.len());
    assert("ClassProperty"@.len() != "Int8Property"@.len());
    assert("ClassProperty"@[0] != "Int16Property"@[0]);
    assert("ClassProperty"@[0] != "Int64Property"@[0]);
    assert("ClassProperty"@[0] != "UInt8Property"@[0]);
    assert("ClassProperty"@.len() != "UInt16Property"@.len());
    assert("ClassProperty"@.len() != "UInt64Property"@.len());
    assert("ClassProperty"@.len() != "NameProperty"@.len());
    assert("ClassProperty"@.len() != "StrProperty"@.len());
    assert("SoftClassProperty"@.len() != "DelegateProperty"@.len());
    assert("SoftClassProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("SoftClassProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("SoftClassProperty"@[0] != "InterfaceProperty"@[0]);
    assert("SoftClassProperty"@.len() != "MapProperty"@.len());
    assert("SoftClassProperty"@.len() != "BoolProperty"@.len());
    assert("SoftClassProperty"@.len() != "ByteProperty"@.len());
    assert("SoftClassProperty"@.len() != "StructProperty"@.len());
    assert("SoftClassProperty"@.len() != "DoubleProperty"@.len());
    assert("SoftClassProperty"@.len() != "FloatProperty"@.len());
    assert("SoftClassProperty"@.len() != "IntProperty"@.len());
    assert("SoftClassProperty"@.len() != "Int8Property"@.len());
    assert("SoftClassProperty"@.len() != "Int16Property"@.len());
    assert("SoftClassProperty"@.len() != "Int64Property"@.len());
    assert("SoftClassProperty"@.len() != "UInt8Property"@.len());
    assert("SoftClassProperty"@.len() != "UInt16Property"@.len());
    assert("SoftClassProperty"@.len() != "UInt64Property"@.len());
    assert("SoftClassProperty"@.len() != "NameProperty"@.len());
    assert("SoftClassProperty"@.len() != "StrProperty"@.len());
    assert("DelegateProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("DelegateProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("DelegateProperty"@.len() != "InterfaceProperty"@.len());
    assert("DelegateProperty"@.len() != "MapProperty"@.len());
    assert("DelegateProperty"@.len() != "BoolProperty"@.len());
    assert("DelegateProperty"@.len() != "ByteProperty"@.len());
    assert("DelegateProperty"@.len() != "StructProperty"@.len());
    assert("DelegateProperty"@.len() != "DoubleProperty"@.len());
    assert("DelegateProperty"@.len() != "FloatProperty"@.len());
    assert("DelegateProperty"@.len() != "IntProperty"@.len());
    assert("DelegateProperty"@.len() != "Int8Property"@.len());
    assert("DelegateProperty"@.len() != "Int16Property"@.len());
    assert("DelegateProperty"@.len() != "Int64Property"@.len());
    assert("DelegateProperty"@.len() != "UInt8Property"@.len());
    assert("DelegateProperty"@.len() != "UInt16Property"@.len());
    assert("DelegateProperty"@.len() != "UInt64Property"@.len());
    assert("DelegateProperty"@.len() != "NameProperty"@.len());
    assert("DelegateProperty"@.len() != "StrProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "InterfaceProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "MapProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "BoolProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "ByteProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "StructProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "DoubleProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "FloatProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "IntProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "Int8Property"@.len());
    assert("MulticastDelegateProperty"@.len() != "Int16Property"@.len());
    assert("MulticastDelegateProperty"@.len() != "Int64Property"@.len());
    assert("MulticastDelegateProperty"@.len() != "UInt8Property"@.len());
    assert("MulticastDelegateProperty"@.len() != "UInt16Property"@.len());
    assert("MulticastDelegateProperty"@.len() != "UInt64Property"@.len());
    assert("MulticastDelegateProperty"@.len() != "NameProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "StrProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "InterfaceProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "MapProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "BoolProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "ByteProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "StructProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "DoubleProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "FloatProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "IntProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "Int8Property"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "Int16Property"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "Int64Property"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "UInt8Property"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "UInt16Property"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "UInt64Property"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "NameProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "StrProperty"@.len());
    assert("InterfaceProperty"@.len() != "MapProperty"@.len());
    assert("InterfaceProperty"@.len() != "BoolProperty"@.len());
    assert("InterfaceProperty"@.len() != "ByteProperty"@.len());
    assert("InterfaceProperty"@.len() != "StructProperty"@.len());
    assert("InterfaceProperty"@.len() != "DoubleProperty"@.len());
    assert("InterfaceProperty"@.len() != "FloatProperty"@.len());
    assert("InterfaceProperty"@.len() != "IntProperty"@.len());
    assert("InterfaceProperty"@.len() != "Int8Property"@.len());
    assert("InterfaceProperty"@.len() != "Int16Property"@.len());
    assert("InterfaceProperty"@.len() != "Int64Property"@.len());
    assert("InterfaceProperty"@.len() != "UInt8Property"@.len());
    assert("InterfaceProperty"@.len() != "UInt16Property"@.len());
    assert("InterfaceProperty"@.len() != "UInt64Property"@.len());
    assert("InterfaceProperty"@.len() != "NameProperty"@.len());
    assert("InterfaceProperty"@.len() != "StrProperty"@.len());
    assert("MapProperty"@.len() != "BoolProperty"@.len());
    assert("MapProperty"@.len() != "ByteProperty"@.len());
    assert("MapProperty"@.len() != "StructProperty"@.len());
    assert("MapProperty"@.len() != "DoubleProperty"@.len());
    assert("MapProperty"@.len() != "FloatProperty"@.len());
    assert("MapProperty"@[0] != "IntProperty"@[0]);
    assert("MapProperty"@.len() != "Int8Property"@.len());
    assert("MapProperty"@.len() != "Int16Property"@.len());
    assert("MapProperty"@.len() != "Int64Property"@.len());
    assert("MapProperty"@.len() != "UInt8Property"@.len());
    assert("MapProperty"@.len() != "UInt16Property"@.len());
    assert("MapProperty"@.len() != "UInt64Property"@.len());
    assert("MapProperty"@.len() != "NameProperty"@.len());
    assert("MapProperty"@[0] != "StrProperty"@[0]);
    assert("BoolProperty"@[1] != "ByteProperty"@[1]);
    assert("BoolProperty"@.len() != "StructProperty"@.len());
    assert("BoolProperty"@.len() != "DoubleProperty"@.len());
    assert("BoolProperty"@.len() != "FloatProperty"@.len());
    assert("BoolProperty"@.len() != "IntProperty"@.len());
    assert("BoolProperty"@[0] != "Int8Property"@[0]);
    assert("BoolProperty"@.len() != "Int16Property"@.len());
    assert("BoolProperty"@.len() != "Int64Property"@.len());
    assert("BoolProperty"@.len() != "UInt8Property"@.len());
    assert("BoolProperty"@.len() != "UInt16Property"@.len());
    assert("BoolProperty"@.len() != "UInt64Property"@.len());
    assert("BoolProperty"@[0] != "NameProperty"@[0]);
    assert("BoolProperty"@.len() != "StrProperty"@.len());
    assert("ByteProperty"@.len() != "StructProperty"@.len());
    assert("ByteProperty"@.len() != "DoubleProperty"@.len());
    assert("ByteProperty"@.len() != "FloatProperty"@.len());
    assert("ByteProperty"@.len() != "IntProperty"@.len());
    assert("ByteProperty"@[0] != "Int8Property"@[0]);
    assert("ByteProperty"@.len() != "Int16Property"@.len());
    assert("ByteProperty"@.len() != "Int64Property"@.len());
    assert("ByteProperty"@.len() != "UInt8Property"@.len());
    assert("ByteProperty"@.len() != "UInt16Property"@.len());
    assert("ByteProperty"@.len() != "UInt64Property"@.len());
    assert("ByteProperty"@[0] != "NameProperty"@[0]);
    assert("ByteProperty"@.len() != "StrProperty"@.len());
    assert("StructProperty"@[0] != "DoubleProperty"@[0]);
    assert("StructProperty"@.len() != "FloatProperty"@.len());
    assert("StructProperty"@.len() != "IntProperty"@.len());
    assert("StructProperty"@.len() != "Int8Property"@.len());
    assert("StructProperty"@.len() != "Int16Property"@.len());
    assert("StructProperty"@.len() != "Int64Property"@.len());
    assert("StructProperty"@.len() != "UInt8Property"@.len());
    assert("StructProperty"@[0] != "UInt16Property"@[0]);
    assert("StructProperty"@[0] != "UInt64Property"@[0]);
    assert("StructProperty"@.len() != "NameProperty"@.len());
    assert("StructProperty"@.len() != "StrProperty"@.len());
    assert("DoubleProperty"@.len() != "FloatProperty"@.len());
    assert("DoubleProperty"@.len() != "IntProperty"@.len());
    assert("DoubleProperty"@.len() != "Int8Property"@.len());
    assert("DoubleProperty"@.len() != "Int16Property"@.len());
    assert("DoubleProperty"@.len() != "Int64Property"@.len());
    assert("DoubleProperty"@.len() != "UInt8Property"@.len());
    assert("DoubleProperty"@[0] != "UInt16Property"@[0]);
    assert("DoubleProperty"@[0] != "UInt64Property"@[0]);
    assert("DoubleProperty"@.len() != "NameProperty"@.len());
    assert("DoubleProperty"@.len() != "StrProperty"@.len());
    assert("FloatProperty"@.len() != "IntProperty"@.len());
    assert("FloatProperty"@.len() != "Int8Property"@.len());
    assert("FloatProperty"@[0] != "Int16Property"@[0]);
    assert("FloatProperty"@[0] != "Int64Property"@[0]);
    assert("FloatProperty"@[0] != "UInt8Property"@[0]);
    assert("FloatProperty"@.len() != "UInt16Property"@.len());
    assert("FloatProperty"@.len() != "UInt64Property"@.len());
    assert("FloatProperty"@.len() != "NameProperty"@.len());
    assert("FloatProperty"@.len() != "StrProperty"@.len());
    assert("IntProperty"@.len() != "Int8Property"@.len());
    assert("IntProperty"@.len() != "Int16Property"@.len());
    assert("IntProperty"@.len() != "Int64Property"@.len());
    assert("IntProperty"@.len() != "UInt8Property"@.len());
    assert("IntProperty"@.len() != "UInt16Property"@.len());
    assert("IntProperty"@.len() != "UInt64Property"@.len());
    assert("IntProperty"@.len() != "NameProperty"@.len());
    assert("IntProperty"@[0] != "StrProperty"@[0]);
    assert("Int8Property"@.len() != "Int16Property"@.len());
    assert("Int8Property"@.len() != "Int64Property"@.len());
    assert("Int8Property"@.len() != "UInt8Property"@.len());
    assert("Int8Property"@.len() != "UInt16Property"@.len());
    assert("Int8Property"@.len() != "UInt64Property"@.len());
    assert("Int8Property"@[0] != "NameProperty"@[0]);
    assert("Int8Property"@.len() != "StrProperty"@.len());
    assert("Int16Property"@[3] != "Int64Property"@[3]);
    assert("Int16Property"@[0] != "UInt8Property"@[0]);
    assert("Int16Property"@.len() != "UInt16Property"@.len());
    assert("Int16Property"@.len() != "UInt64Property"@.len());
    assert("Int16Property"@.len() != "NameProperty"@.len());
    assert("Int16Property"@.len() != "StrProperty"@.len());
    assert("Int64Property"@[0] != "UInt8Property"@[0]);
    assert("Int64Property"@.len() != "UInt16Property"@.len());
    assert("Int64Property"@.len() != "UInt64Property"@.len());
    assert("Int64Property"@.len() != "NameProperty"@.len());
    assert("Int64Property"@.len() != "StrProperty"@.len());
    assert("UInt8Property"@.len() != "UInt16Property"@.len());
    assert("UInt8Property"@.len() != "UInt64Property"@.len());
    assert("UInt8Property"@.len() != "NameProperty"@.len());
    assert("UInt8Property"@.len() != "StrProperty"@.len());
    assert("UInt16Property"@[4] != "UInt64Property"@[4]);
    assert("UInt16Property"@.len() != "NameProperty"@.len());
    assert("UInt16Property"@.len() != "StrProperty"@.len());
    assert("UInt64Property"@.len() != "NameProperty"@.len());
    assert("UInt64Property"@.len() != "StrProperty"@.len());
    assert("NameProperty"@.len() != "StrProperty"@.len());
}
//@ fn unreal_asset/unreal_asset_exports/src/properties/uproperty.rs UProperty new params=asset,serialized_type attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"
    ensures r is Ok ==> rd(old(asset), final(asset), pu(r->Ok_0, rc(old(asset)))) && ukind(ftxt(serialized_type), r->Ok_0),
//@ rw! serialized_type\.get_content\(\|ty\| \{ ==> ({ let ty = vx_text(&serialized_type);
//@ rw! "(\w+)" => ==> _ if vx_is(ty, "\1") =>
//@ rw! \b(U\w+Property)::(\w+)\((asset(?:, Some\(serialized_type\.clone\(\)\))?)\)\?\s*\.into\(\) ==> UProperty::\1(\1::\2(\3)?)
//@ at body-start
    proof { u_distinct(); }
//@ end
impl UProperty {
/// what enum_dispatch generates
pub fn write<Writer: ArchiveWriterX>(&self, asset: &mut Writer) -> (r: Result<(), Error>)
    ensures r is Ok ==> wr(old(asset), final(asset), pu(*self, wc(old(asset)))),
{ match self { UProperty::UGenericProperty(x) => x.write(asset), UProperty::UEnumProperty(x) => x.write(asset), UProperty::UArrayProperty(x) => x.write(asset), UProperty::USetProperty(x) => x.write(asset), UProperty::UObjectProperty(x) => x.write(asset), UProperty::USoftObjectProperty(x) => x.write(asset), UProperty::ULazyObjectProperty(x) => x.write(asset), UProperty::UClassProperty(x) => x.write(asset), UProperty::USoftClassProperty(x) => x.write(asset), UProperty::UDelegateProperty(x) => x.write(asset), UProperty::UMulticastDelegateProperty(x) => x.write(asset), UProperty::UMulticastInlineDelegateProperty(x) => x.write(asset), UProperty::UInterfaceProperty(x) => x.write(asset), UProperty::UMapProperty(x) => x.write(asset), UProperty::UBoolProperty(x) => x.write(asset), UProperty::UByteProperty(x) => x.write(asset), UProperty::UStructProperty(x) => x.write(asset), UProperty::UDoubleProperty(x) => x.write(asset), UProperty::UFloatProperty(x) => x.write(asset), UProperty::UIntProperty(x) => x.write(asset), UProperty::UInt8Property(x) => x.write(asset), UProperty::UInt16Property(x) => x.write(asset), UProperty::UInt64Property(x) => x.write(asset), UProperty::UUInt8Property(x) => x.write(asset), UProperty::UUInt16Property(x) => x.write(asset), UProperty::UUInt64Property(x) => x.write(asset), UProperty::UNameProperty(x) => x.write(asset), UProperty::UStrProperty(x) => x.write(asset) } }
}

//@ rewrite asset\s*\.get_name_map\(\)\s*\.get_mut\(\)\s*\.add_fname\( ==> vx_add_name(asset, 
//@ rewrite asset\.add_fname\( ==> vx_add_name(asset, 
/// how the name of a type or of the end of a list is stored: the name map's own entry of the text, without a number.
/// Reading assumes it stored like that (vx_read_type, vx_property).
pub uninterp spec fn ptn(t: Seq<char>) -> Seq<Pat>;
#[verifier::external_body]
pub fn vx_add_name<S: ArchiveWriterX>(asset: &S, t: &str) -> (r: FName) ensures pname(r) == ptn(t@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_read_type<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<FName, Error>) ensures r is Ok ==> rd(old(asset), final(asset), ptn(ftxt(r->Ok_0))) { unimplemented!() }
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vx_owned(n: &FName) -> (r: String) ensures r@ == ftxt(*n) { unimplemented!() }
//@ macros unreal_asset/unreal_asset_exports/src/properties/fproperty.rs parse_simple_property parse_simple_property_index parse_simple_property_prop

//@ variants unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FProperty FGenericProperty FEnumProperty FArrayProperty FSetProperty FObjectProperty FSoftObjectProperty FClassProperty FSoftClassProperty FDelegateProperty FMulticastDelegateProperty FMulticastInlineDelegateProperty FInterfaceProperty FMapProperty FBoolProperty FByteProperty FStructProperty FNumericProperty
pub enum FProperty { FGenericProperty(FGenericProperty), FEnumProperty(FEnumProperty), FArrayProperty(FArrayProperty), FSetProperty(FSetProperty), FObjectProperty(FObjectProperty), FSoftObjectProperty(FSoftObjectProperty), FClassProperty(FClassProperty), FSoftClassProperty(FSoftClassProperty), FDelegateProperty(FDelegateProperty), FMulticastDelegateProperty(FMulticastDelegateProperty), FMulticastInlineDelegateProperty(FMulticastInlineDelegateProperty), FInterfaceProperty(FInterfaceProperty), FMapProperty(FMapProperty), FBoolProperty(FBoolProperty), FByteProperty(FByteProperty), FStructProperty(FStructProperty), FNumericProperty(FNumericProperty) }
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FGenericProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FEnumProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FArrayProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FSetProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FObjectProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FSoftObjectProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FClassProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FSoftClassProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FDelegateProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FMulticastDelegateProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FMulticastInlineDelegateProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FInterfaceProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FMapProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FByteProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FStructProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FNumericProperty
//@ struct unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FBoolProperty
pub open spec fn pfgen(v: FGenericProperty, c: Ctx) -> Seq<Pat> {
    (((((((pname(v.name) + p32(v.flags.b)) + p32(EArrayDim_n(v.array_dim) as u32)) + p32(v.element_size as u32)) + p64(v.property_flags.b)) + p16(v.rep_index)) + pname(v.rep_notify_func)) + p8(ELifetimeCondition_n(v.blueprint_replication_condition)))
}
pub open spec fn pf_FGenericProperty(v: FGenericProperty, c: Ctx) -> Seq<Pat> { pfgen(v, c) }

pub open spec fn pf_FEnumProperty(v: FEnumProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { ((pfgen(v.generic_property, c) + p32(v.enum_value.index as u32)) + pfp(*v.underlying_prop, c)) }
pub open spec fn ok_FEnumProperty(v: FEnumProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None && ok_fp(*v.underlying_prop) }
pub open spec fn pf_FArrayProperty(v: FArrayProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + pfp(*v.inner, c)) }
pub open spec fn ok_FArrayProperty(v: FArrayProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None && ok_fp(*v.inner) }
pub open spec fn pf_FSetProperty(v: FSetProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + pfp(*v.element_prop, c)) }
pub open spec fn ok_FSetProperty(v: FSetProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None && ok_fp(*v.element_prop) }
pub open spec fn pf_FObjectProperty(v: FObjectProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + p32(v.property_class.index as u32)) }
pub open spec fn ok_FObjectProperty(v: FObjectProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FSoftObjectProperty(v: FSoftObjectProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + p32(v.property_class.index as u32)) }
pub open spec fn ok_FSoftObjectProperty(v: FSoftObjectProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FClassProperty(v: FClassProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { ((pfgen(v.generic_property, c) + p32(v.property_class.index as u32)) + p32(v.meta_class.index as u32)) }
pub open spec fn ok_FClassProperty(v: FClassProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FSoftClassProperty(v: FSoftClassProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { ((pfgen(v.generic_property, c) + p32(v.property_class.index as u32)) + p32(v.meta_class.index as u32)) }
pub open spec fn ok_FSoftClassProperty(v: FSoftClassProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FDelegateProperty(v: FDelegateProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + p32(v.signature_function.index as u32)) }
pub open spec fn ok_FDelegateProperty(v: FDelegateProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FMulticastDelegateProperty(v: FMulticastDelegateProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + p32(v.signature_function.index as u32)) }
pub open spec fn ok_FMulticastDelegateProperty(v: FMulticastDelegateProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FMulticastInlineDelegateProperty(v: FMulticastInlineDelegateProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + p32(v.signature_function.index as u32)) }
pub open spec fn ok_FMulticastInlineDelegateProperty(v: FMulticastInlineDelegateProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FInterfaceProperty(v: FInterfaceProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + p32(v.interface_class.index as u32)) }
pub open spec fn ok_FInterfaceProperty(v: FInterfaceProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FMapProperty(v: FMapProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { ((pfgen(v.generic_property, c) + pfp(*v.key_prop, c)) + pfp(*v.value_prop, c)) }
pub open spec fn ok_FMapProperty(v: FMapProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None && ok_fp(*v.key_prop) && ok_fp(*v.value_prop) }
pub open spec fn pf_FByteProperty(v: FByteProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + p32(v.enum_value.index as u32)) }
pub open spec fn ok_FByteProperty(v: FByteProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FStructProperty(v: FStructProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { (pfgen(v.generic_property, c) + p32(v.struct_value.index as u32)) }
pub open spec fn ok_FStructProperty(v: FStructProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FNumericProperty(v: FNumericProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { pfgen(v.generic_property, c) }
pub open spec fn ok_FNumericProperty(v: FNumericProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
pub open spec fn pf_FBoolProperty(v: FBoolProperty, c: Ctx) -> Seq<Pat> decreases v, 0int { ((((((pfgen(v.generic_property, c) + p8(v.field_size)) + p8(v.byte_offset)) + p8(v.byte_mask)) + p8(v.field_mask)) + pbool(v.native_bool, c)) + pbool(v.value, c)) }
pub open spec fn ok_FBoolProperty(v: FBoolProperty) -> bool decreases v, 0int { v.generic_property.serialized_type is None }
/// the type name an FProperty is stored with
pub open spec fn ftext(v: FProperty) -> Seq<char> { match v {
    FProperty::FGenericProperty(g) => (match g.serialized_type { Some(n) => ftxt(n), None => "Generic"@ }),
    FProperty::FEnumProperty(_) => "EnumProperty"@,
    FProperty::FArrayProperty(_) => "ArrayProperty"@,
    FProperty::FSetProperty(_) => "SetProperty"@,
    FProperty::FObjectProperty(_) => "ObjectProperty"@,
    FProperty::FSoftObjectProperty(_) => "SoftObjectProperty"@,
    FProperty::FClassProperty(_) => "ClassProperty"@,
    FProperty::FSoftClassProperty(_) => "SoftClassProperty"@,
    FProperty::FDelegateProperty(_) => "DelegateProperty"@,
    FProperty::FMulticastDelegateProperty(_) => "MulticastDelegateProperty"@,
    FProperty::FMulticastInlineDelegateProperty(_) => "MulticastInlineDelegateProperty"@,
    FProperty::FInterfaceProperty(_) => "InterfaceProperty"@,
    FProperty::FMapProperty(_) => "MapProperty"@,
    FProperty::FBoolProperty(_) => "BoolProperty"@,
    FProperty::FByteProperty(_) => "ByteProperty"@,
    FProperty::FStructProperty(_) => "StructProperty"@,
    FProperty::FNumericProperty(_) => "NumericProperty"@,
} }
pub open spec fn pfb(v: FProperty, c: Ctx) -> Seq<Pat> decreases v, 1int { match v { FProperty::FGenericProperty(x) => pf_FGenericProperty(x, c), FProperty::FEnumProperty(x) => pf_FEnumProperty(x, c), FProperty::FArrayProperty(x) => pf_FArrayProperty(x, c), FProperty::FSetProperty(x) => pf_FSetProperty(x, c), FProperty::FObjectProperty(x) => pf_FObjectProperty(x, c), FProperty::FSoftObjectProperty(x) => pf_FSoftObjectProperty(x, c), FProperty::FClassProperty(x) => pf_FClassProperty(x, c), FProperty::FSoftClassProperty(x) => pf_FSoftClassProperty(x, c), FProperty::FDelegateProperty(x) => pf_FDelegateProperty(x, c), FProperty::FMulticastDelegateProperty(x) => pf_FMulticastDelegateProperty(x, c), FProperty::FMulticastInlineDelegateProperty(x) => pf_FMulticastInlineDelegateProperty(x, c), FProperty::FInterfaceProperty(x) => pf_FInterfaceProperty(x, c), FProperty::FMapProperty(x) => pf_FMapProperty(x, c), FProperty::FBoolProperty(x) => pf_FBoolProperty(x, c), FProperty::FByteProperty(x) => pf_FByteProperty(x, c), FProperty::FStructProperty(x) => pf_FStructProperty(x, c), FProperty::FNumericProperty(x) => pf_FNumericProperty(x, c) } }
pub open spec fn pfp(v: FProperty, c: Ctx) -> Seq<Pat> decreases v, 2int { ptn(ftext(v)) + pfb(v, c) }
/// a property as reading gives it: only types without a kind of their own are generic
pub open spec fn ok_fp(v: FProperty) -> bool decreases v, 2int { match v { FProperty::FGenericProperty(g) => g.serialized_type is Some && ftxt(g.serialized_type->0) != "EnumProperty"@ && ftxt(g.serialized_type->0) != "ArrayProperty"@ && ftxt(g.serialized_type->0) != "SetProperty"@ && ftxt(g.serialized_type->0) != "ObjectProperty"@ && ftxt(g.serialized_type->0) != "SoftObjectProperty"@ && ftxt(g.serialized_type->0) != "ClassProperty"@ && ftxt(g.serialized_type->0) != "SoftClassProperty"@ && ftxt(g.serialized_type->0) != "DelegateProperty"@ && ftxt(g.serialized_type->0) != "MulticastDelegateProperty"@ && ftxt(g.serialized_type->0) != "MulticastInlineDelegateProperty"@ && ftxt(g.serialized_type->0) != "InterfaceProperty"@ && ftxt(g.serialized_type->0) != "MapProperty"@ && ftxt(g.serialized_type->0) != "BoolProperty"@ && ftxt(g.serialized_type->0) != "ByteProperty"@ && ftxt(g.serialized_type->0) != "StructProperty"@ && ftxt(g.serialized_type->0) != "NumericProperty"@, FProperty::FEnumProperty(x) => ok_FEnumProperty(x), FProperty::FArrayProperty(x) => ok_FArrayProperty(x), FProperty::FSetProperty(x) => ok_FSetProperty(x), FProperty::FObjectProperty(x) => ok_FObjectProperty(x), FProperty::FSoftObjectProperty(x) => ok_FSoftObjectProperty(x), FProperty::FClassProperty(x) => ok_FClassProperty(x), FProperty::FSoftClassProperty(x) => ok_FSoftClassProperty(x), FProperty::FDelegateProperty(x) => ok_FDelegateProperty(x), FProperty::FMulticastDelegateProperty(x) => ok_FMulticastDelegateProperty(x), FProperty::FMulticastInlineDelegateProperty(x) => ok_FMulticastInlineDelegateProperty(x), FProperty::FInterfaceProperty(x) => ok_FInterfaceProperty(x), FProperty::FMapProperty(x) => ok_FMapProperty(x), FProperty::FBoolProperty(x) => ok_FBoolProperty(x), FProperty::FByteProperty(x) => ok_FByteProperty(x), FProperty::FStructProperty(x) => ok_FStructProperty(x), FProperty::FNumericProperty(x) => ok_FNumericProperty(x) } }
pub proof fn f_distinct()
    ensures
        "EnumProperty"@ != "ArrayProperty"@,
        "EnumProperty"@ != "SetProperty"@,
        "EnumProperty"@ != "ObjectProperty"@,
        "EnumProperty"@ != "SoftObjectProperty"@,
        "EnumProperty"@ != "ClassProperty"@,
        "EnumProperty"@ != "SoftClassProperty"@,
        "EnumProperty"@ != "DelegateProperty"@,
        "EnumProperty"@ != "MulticastDelegateProperty"@,
        "EnumProperty"@ != "MulticastInlineDelegateProperty"@,
        "EnumProperty"@ != "InterfaceProperty"@,
        "EnumProperty"@ != "MapProperty"@,
        "EnumProperty"@ != "BoolProperty"@,
        "EnumProperty"@ != "ByteProperty"@,
        "EnumProperty"@ != "StructProperty"@,
        "EnumProperty"@ != "NumericProperty"@,
        "ArrayProperty"@ != "SetProperty"@,
        "ArrayProperty"@ != "ObjectProperty"@,
        "ArrayProperty"@ != "SoftObjectProperty"@,
        "ArrayProperty"@ != "ClassProperty"@,
        "ArrayProperty"@ != "SoftClassProperty"@,
        "ArrayProperty"@ != "DelegateProperty"@,
        "ArrayProperty"@ != "MulticastDelegateProperty"@,
        "ArrayProperty"@ != "MulticastInlineDelegateProperty"@,
        "ArrayProperty"@ != "InterfaceProperty"@,
        "ArrayProperty"@ != "MapProperty"@,
        "ArrayProperty"@ != "BoolProperty"@,
        "ArrayProperty"@ != "ByteProperty"@,
        "ArrayProperty"@ != "StructProperty"@,
        "ArrayProperty"@ != "NumericProperty"@,
        "SetProperty"@ != "ObjectProperty"@,
        "SetProperty"@ != "SoftObjectProperty"@,
        "SetProperty"@ != "ClassProperty"@,
        "SetProperty"@ != "SoftClassProperty"@,
        "SetProperty"@ != "DelegateProperty"@,
        "SetProperty"@ != "MulticastDelegateProperty"@,
        "SetProperty"@ != "MulticastInlineDelegateProperty"@,
        "SetProperty"@ != "InterfaceProperty"@,
        "SetProperty"@ != "MapProperty"@,
        "SetProperty"@ != "BoolProperty"@,
        "SetProperty"@ != "ByteProperty"@,
        "SetProperty"@ != "StructProperty"@,
        "SetProperty"@ != "NumericProperty"@,
        "ObjectProperty"@ != "SoftObjectProperty"@,
        "ObjectProperty"@ != "ClassProperty"@,
        "ObjectProperty"@ != "SoftClassProperty"@,
        "ObjectProperty"@ != "DelegateProperty"@,
        "ObjectProperty"@ != "MulticastDelegateProperty"@,
        "ObjectProperty"@ != "MulticastInlineDelegateProperty"@,
        "ObjectProperty"@ != "InterfaceProperty"@,
        "ObjectProperty"@ != "MapProperty"@,
        "ObjectProperty"@ != "BoolProperty"@,
        "ObjectProperty"@ != "ByteProperty"@,
        "ObjectProperty"@ != "StructProperty"@,
        "ObjectProperty"@ != "NumericProperty"@,
        "SoftObjectProperty"@ != "ClassProperty"@,
        "SoftObjectProperty"@ != "SoftClassProperty"@,
        "SoftObjectProperty"@ != "DelegateProperty"@,
        "SoftObjectProperty"@ != "MulticastDelegateProperty"@,
        "SoftObjectProperty"@ != "MulticastInlineDelegateProperty"@,
        "SoftObjectProperty"@ != "InterfaceProperty"@,
        "SoftObjectProperty"@ != "MapProperty"@,
        "SoftObjectProperty"@ != "BoolProperty"@,
        "SoftObjectProperty"@ != "ByteProperty"@,
        "SoftObjectProperty"@ != "StructProperty"@,
        "SoftObjectProperty"@ != "NumericProperty"@,
        "ClassProperty"@ != "SoftClassProperty"@,
        "ClassProperty"@ != "DelegateProperty"@,
        "ClassProperty"@ != "MulticastDelegateProperty"@,
        "ClassProperty"@ != "MulticastInlineDelegateProperty"@,
        "ClassProperty"@ != "InterfaceProperty"@,
        "ClassProperty"@ != "MapProperty"@,
        "ClassProperty"@ != "BoolProperty"@,
        "ClassProperty"@ != "ByteProperty"@,
        "ClassProperty"@ != "StructProperty"@,
        "ClassProperty"@ != "NumericProperty"@,
        "SoftClassProperty"@ != "DelegateProperty"@,
        "SoftClassProperty"@ != "MulticastDelegateProperty"@,
        "SoftClassProperty"@ != "MulticastInlineDelegateProperty"@,
        "SoftClassProperty"@ != "InterfaceProperty"@,
        "SoftClassProperty"@ != "MapProperty"@,
        "SoftClassProperty"@ != "BoolProperty"@,
        "SoftClassProperty"@ != "ByteProperty"@,
        "SoftClassProperty"@ != "StructProperty"@,
        "SoftClassProperty"@ != "NumericProperty"@,
        "DelegateProperty"@ != "MulticastDelegateProperty"@,
        "DelegateProperty"@ != "MulticastInlineDelegateProperty"@,
        "DelegateProperty"@ != "InterfaceProperty"@,
        "DelegateProperty"@ != "MapProperty"@,
        "DelegateProperty"@ != "BoolProperty"@,
        "DelegateProperty"@ != "ByteProperty"@,
        "DelegateProperty"@ != "StructProperty"@,
        "DelegateProperty"@ != "NumericProperty"@,
        "MulticastDelegateProperty"@ != "MulticastInlineDelegateProperty"@,
        "MulticastDelegateProperty"@ != "InterfaceProperty"@,
        "MulticastDelegateProperty"@ != "MapProperty"@,
        "MulticastDelegateProperty"@ != "BoolProperty"@,
        "MulticastDelegateProperty"@ != "ByteProperty"@,
        "MulticastDelegateProperty"@ != "StructProperty"@,
        "MulticastDelegateProperty"@ != "NumericProperty"@,
        "MulticastInlineDelegateProperty"@ != "InterfaceProperty"@,
        "MulticastInlineDelegateProperty"@ != "MapProperty"@,
        "MulticastInlineDelegateProperty"@ != "BoolProperty"@,
        "MulticastInlineDelegateProperty"@ != "ByteProperty"@,
        "MulticastInlineDelegateProperty"@ != "StructProperty"@,
        "MulticastInlineDelegateProperty"@ != "NumericProperty"@,
        "InterfaceProperty"@ != "MapProperty"@,
        "InterfaceProperty"@ != "BoolProperty"@,
        "InterfaceProperty"@ != "ByteProperty"@,
        "InterfaceProperty"@ != "StructProperty"@,
        "InterfaceProperty"@ != "NumericProperty"@,
        "MapProperty"@ != "BoolProperty"@,
        "MapProperty"@ != "ByteProperty"@,
        "MapProperty"@ != "StructProperty"@,
        "MapProperty"@ != "NumericProperty"@,
        "BoolProperty"@ != "ByteProperty"@,
        "BoolProperty"@ != "StructProperty"@,
        "BoolProperty"@ != "NumericProperty"@,
        "ByteProperty"@ != "StructProperty"@,
        "ByteProperty"@ != "NumericProperty"@,
        "StructProperty"@ != "NumericProperty"@,
{
    reveal_strlit("EnumProperty"); reveal_strlit("ArrayProperty"); reveal_strlit("SetProperty"); reveal_strlit("ObjectProperty"); reveal_strlit("SoftObjectProperty"); reveal_strlit("ClassProperty"); reveal_strlit("SoftClassProperty"); reveal_strlit("DelegateProperty"); reveal_strlit("MulticastDelegateProperty"); reveal_strlit("MulticastInlineDelegateProperty"); reveal_strlit("InterfaceProperty"); reveal_strlit("MapProperty"); reveal_strlit("BoolProperty"); reveal_strlit("ByteProperty"); reveal_strlit("StructProperty"); reveal_strlit("NumericProperty");
    assert("EnumProperty"@.len() != "ArrayProperty"@.len());
    assert("EnumProperty"@.len() != "SetProperty"@.len());
    assert("EnumProperty"@.len() != "ObjectProperty"@.len());
    assert("EnumProperty"@.len() != "SoftObjectProperty"@.len());
    assert("EnumProperty"@.len() != "ClassProperty"@.len());
    assert("EnumProperty"@.len() != "SoftClassProperty"@.len());
    assert("EnumProperty"@.len() != "DelegateProperty"@.len());
    assert("EnumProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("EnumProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("EnumProperty"@.len() != "InterfaceProperty"@.len());
    assert("EnumProperty"@.len() != "MapProperty"@.len());
    assert("EnumProperty"@[0] != "BoolProperty"@[0]);
    assert("EnumProperty"@[0] != "ByteProperty"@[0]);
    assert("EnumProperty"@.len() != "StructProperty"@.len());
    assert("EnumProperty"@.len() != "NumericProperty"@.len());
    assert("ArrayProperty"@.len() != "SetProperty"@.len());
    assert("ArrayProperty"@.len() != "ObjectProperty"@.len());
    assert("ArrayProperty"@.len() != "SoftObjectProperty"@.len());
    assert("ArrayProperty"@[0] != "ClassProperty"@[0]);
    assert("ArrayProperty"@.len() != "SoftClassProperty"@.len());
    assert("ArrayProperty"@.len() != "DelegateProperty"@.len());
    assert("ArrayProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("ArrayProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("ArrayProperty"@.len() != "InterfaceProperty"@.len());
    assert("ArrayProperty"@.len() != "MapProperty"@.len());
    assert("ArrayProperty"@.len() != "BoolProperty"@.len());
    assert("ArrayProperty"@.len() != "ByteProperty"@.len());
    assert("ArrayProperty"@.len() != "StructProperty"@.len());
    assert("ArrayProperty"@.len() != "NumericProperty"@.len());
    assert("SetProperty"@.len() != "ObjectProperty"@.len());
    assert("SetProperty"@.len() != "SoftObjectProperty"@.len());
    assert("SetProperty"@.len() != "ClassProperty"@.len());
    assert("SetProperty"@.len() != "SoftClassProperty"@.len());
    assert("SetProperty"@.len() != "DelegateProperty"@.len());
    assert("SetProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("SetProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("SetProperty"@.len() != "InterfaceProperty"@.len());
    assert("SetProperty"@[0] != "MapProperty"@[0]);
    assert("SetProperty"@.len() != "BoolProperty"@.len());
    assert("SetProperty"@.len() != "ByteProperty"@.len());
    assert("SetProperty"@.len() != "StructProperty"@.len());
    assert("SetProperty"@.len() != "NumericProperty"@.len());
    assert("ObjectProperty"@.len() != "SoftObjectProperty"@.len());
    assert("ObjectProperty"@.len() != "ClassProperty"@.len());
    assert("ObjectProperty"@.len() != "SoftClassProperty"@.len());
    assert("ObjectProperty"@.len() != "DelegateProperty"@.len());
    assert("ObjectProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("ObjectProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("ObjectProperty"@.len() != "InterfaceProperty"@.len());
    assert("ObjectProperty"@.len() != "MapProperty"@.len());
    assert("ObjectProperty"@.len() != "BoolProperty"@.len());
    assert("ObjectProperty"@.len() != "ByteProperty"@.len());
    assert("ObjectProperty"@[0] != "StructProperty"@[0]);
    assert("ObjectProperty"@.len() != "NumericProperty"@.len());
    assert("SoftObjectProperty"@.len() != "ClassProperty"@.len());
    assert("SoftObjectProperty"@.len() != "SoftClassProperty"@.len());
    assert("SoftObjectProperty"@.len() != "DelegateProperty"@.len());
    assert("SoftObjectProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("SoftObjectProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("SoftObjectProperty"@.len() != "InterfaceProperty"@.len());
    assert("SoftObjectProperty"@.len() != "MapProperty"@.len());
    assert("SoftObjectProperty"@.len() != "BoolProperty"@.len());
    assert("SoftObjectProperty"@.len() != "ByteProperty"@.len());
    assert("SoftObjectProperty"@.len() != "StructProperty"@.len());
    assert("SoftObjectProperty"@.len() != "NumericProperty"@.len());
    assert("ClassProperty"@.len() != "SoftClassProperty"@.len());
    assert("ClassProperty"@.len() != "DelegateProperty"@.len());
    assert("ClassProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("ClassProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("ClassProperty"@.len() != "InterfaceProperty"@.len());
    assert("ClassProperty"@.len() != "MapProperty"@.len());
    assert("ClassProperty"@.len() != "BoolProperty"@.len());
    assert("ClassProperty"@.len() != "ByteProperty"@.len());
    assert("ClassProperty"@.len() != "StructProperty"@.len());
    assert("ClassProperty"@.len() != "NumericProperty"@.len());
    assert("SoftClassProperty"@.len() != "DelegateProperty"@.len());
    assert("SoftClassProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("SoftClassProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("SoftClassProperty"@[0] != "InterfaceProperty"@[0]);
    assert("SoftClassProperty"@.len() != "MapProperty"@.len());
    assert("SoftClassProperty"@.len() != "BoolProperty"@.len());
    assert("SoftClassProperty"@.len() != "ByteProperty"@.len());
    assert("SoftClassProperty"@.len() != "StructProperty"@.len());
    assert("SoftClassProperty"@.len() != "NumericProperty"@.len());
    assert("DelegateProperty"@.len() != "MulticastDelegateProperty"@.len());
    assert("DelegateProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("DelegateProperty"@.len() != "InterfaceProperty"@.len());
    assert("DelegateProperty"@.len() != "MapProperty"@.len());
    assert("DelegateProperty"@.len() != "BoolProperty"@.len());
    assert("DelegateProperty"@.len() != "ByteProperty"@.len());
    assert("DelegateProperty"@.len() != "StructProperty"@.len());
    assert("DelegateProperty"@.len() != "NumericProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "MulticastInlineDelegateProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "InterfaceProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "MapProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "BoolProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "ByteProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "StructProperty"@.len());
    assert("MulticastDelegateProperty"@.len() != "NumericProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "InterfaceProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "MapProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "BoolProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "ByteProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "StructProperty"@.len());
    assert("MulticastInlineDelegateProperty"@.len() != "NumericProperty"@.len());
    assert("InterfaceProperty"@.len() != "MapProperty"@.len());
    assert("InterfaceProperty"@.len() != "BoolProperty"@.len());
    assert("InterfaceProperty"@.len() != "ByteProperty"@.len());
    assert("InterfaceProperty"@.len() != "StructProperty"@.len());
    assert("InterfaceProperty"@.len() != "NumericProperty"@.len());
    assert("MapProperty"@.len() != "BoolProperty"@.len());
    assert("MapProperty"@.len() != "ByteProperty"@.len());
    assert("MapProperty"@.len() != "StructProperty"@.len());
    assert("MapProperty"@.len() != "NumericProperty"@.len());
    assert("BoolProperty"@[1] != "ByteProperty"@[1]);
    assert("BoolProperty"@.len() != "StructProperty"@.len());
    assert("BoolProperty"@.len() != "NumericProperty"@.len());
    assert("ByteProperty"@.len() != "StructProperty"@.len());
    assert("ByteProperty"@.len() != "NumericProperty"@.len());
    assert("StructProperty"@.len() != "NumericProperty"@.len());
}
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FGenericProperty with_serialized_type params=asset,serialized_type
    ensures r is Ok ==> rd(old(asset), final(asset), pfgen(r->Ok_0, rc(old(asset)))) && r->Ok_0.serialized_type == serialized_type,
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FGenericProperty new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), pfgen(r->Ok_0, rc(old(asset)))) && r->Ok_0.serialized_type is None,
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FGenericProperty" write params=asset
    ensures r is Ok ==> wr(old(asset), final(asset), pfgen(*self, wc(old(asset)))),
//@ rw! write_u8\((self\.\w+)\.into\(\)\) ==> write_u8(\1.to_u8())
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FEnumProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FEnumProperty(r->Ok_0, rc(old(asset)))) && ok_FEnumProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FEnumProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FEnumProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FArrayProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FArrayProperty(r->Ok_0, rc(old(asset)))) && ok_FArrayProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FArrayProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FArrayProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FSetProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FSetProperty(r->Ok_0, rc(old(asset)))) && ok_FSetProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FSetProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FSetProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FObjectProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FObjectProperty(r->Ok_0, rc(old(asset)))) && ok_FObjectProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FObjectProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FObjectProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FSoftObjectProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FSoftObjectProperty(r->Ok_0, rc(old(asset)))) && ok_FSoftObjectProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FSoftObjectProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FSoftObjectProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FClassProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FClassProperty(r->Ok_0, rc(old(asset)))) && ok_FClassProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FClassProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FClassProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FSoftClassProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FSoftClassProperty(r->Ok_0, rc(old(asset)))) && ok_FSoftClassProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FSoftClassProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FSoftClassProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FDelegateProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FDelegateProperty(r->Ok_0, rc(old(asset)))) && ok_FDelegateProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FDelegateProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FDelegateProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FMulticastDelegateProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FMulticastDelegateProperty(r->Ok_0, rc(old(asset)))) && ok_FMulticastDelegateProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FMulticastDelegateProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FMulticastDelegateProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FMulticastInlineDelegateProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FMulticastInlineDelegateProperty(r->Ok_0, rc(old(asset)))) && ok_FMulticastInlineDelegateProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FMulticastInlineDelegateProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FMulticastInlineDelegateProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FInterfaceProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FInterfaceProperty(r->Ok_0, rc(old(asset)))) && ok_FInterfaceProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FInterfaceProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FInterfaceProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FMapProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FMapProperty(r->Ok_0, rc(old(asset)))) && ok_FMapProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FMapProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FMapProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FByteProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FByteProperty(r->Ok_0, rc(old(asset)))) && ok_FByteProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FByteProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FByteProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FStructProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FStructProperty(r->Ok_0, rc(old(asset)))) && ok_FStructProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FStructProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FStructProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FNumericProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FNumericProperty(r->Ok_0, rc(old(asset)))) && ok_FNumericProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FNumericProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FNumericProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FBoolProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pf_FBoolProperty(r->Ok_0, rc(old(asset)))) && ok_FBoolProperty(r->Ok_0),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "FPropertyTrait for FBoolProperty" write params=asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pf_FBoolProperty(*self, wc(old(asset)))),
//@ rw self\.(\w+)\.as_ref\(\) ==> &*self.\1
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FProperty new params=asset attr="#[verifier::exec_allows_no_decreases_clause];#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"
    ensures r is Ok ==> rd(old(asset), final(asset), pfp(r->Ok_0, rc(old(asset)))) && ok_fp(r->Ok_0),
//@ rw! asset\.read_fname\(\) ==> vx_read_type(asset)
//@ rw! serialized_type\.get_content\(\|ty\| \{ ==> ({ let ty = vx_text(&serialized_type);
//@ rw! "(\w+)" => ==> _ if vx_is(ty, "\1") =>
//@ rw! \b(F\w+Property)::(\w+)\((asset(?:, Some\(serialized_type\.clone\(\)\))?)\)\?\s*\.into\(\) ==> FProperty::\1(\1::\2(\3)?)
//@ rw Some\(serialized_type\.clone\(\)\) ==> Some(vx_dup(&serialized_type))
//@ at body-start
    proof { f_distinct(); }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs "ToSerializedName for FProperty" to_serialized_name
    ensures r@ == ftext(*self),
//@ rw! generic\s*\.serialized_type\s*\.as_ref\(\)\s*\.map\(\|e\| e\.get_owned_content\(\)\)\s*\.unwrap_or\("(\w+)"\.to_string\(\)\) ==> match &generic.serialized_type { Some(e) => vx_owned(e), None => vx_string("\1") }
//@ rw! String::from\( ==> vx_string(
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/properties/fproperty.rs FProperty write params=property,asset attr="#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> wr(old(asset), final(asset), pfp(*property, wc(old(asset)))),
//@ rw! add_fname\(&property_serialized_name\) ==> add_fname(property_serialized_name.as_str())
//@ rw! property\.write\(asset\) ==> property.vx_dispatch(asset)
//@ end
impl FProperty {
/// what enum_dispatch generates for the trait's write
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_dispatch<Writer: ArchiveWriterX>(&self, asset: &mut Writer) -> (r: Result<(), Error>)
    ensures r is Ok ==> wr(old(asset), final(asset), pfb(*self, wc(old(asset)))),
{ match self { FProperty::FGenericProperty(x) => x.write(asset), FProperty::FEnumProperty(x) => x.write(asset), FProperty::FArrayProperty(x) => x.write(asset), FProperty::FSetProperty(x) => x.write(asset), FProperty::FObjectProperty(x) => x.write(asset), FProperty::FSoftObjectProperty(x) => x.write(asset), FProperty::FClassProperty(x) => x.write(asset), FProperty::FSoftClassProperty(x) => x.write(asset), FProperty::FDelegateProperty(x) => x.write(asset), FProperty::FMulticastDelegateProperty(x) => x.write(asset), FProperty::FMulticastInlineDelegateProperty(x) => x.write(asset), FProperty::FInterfaceProperty(x) => x.write(asset), FProperty::FMapProperty(x) => x.write(asset), FProperty::FBoolProperty(x) => x.write(asset), FProperty::FByteProperty(x) => x.write(asset), FProperty::FStructProperty(x) => x.write(asset), FProperty::FNumericProperty(x) => x.write(asset) } }
}

//@ rewrite : Index,\n ==> : PackageIndex,\n
//@ rewrite \b(base)\.clone\(\) ==> vx_dup(\1)
//@ rewrite asset\s*\.read_array\(\|asset\| Ok\(PackageIndex::new\(asset\.read_i32::<LE>\(\)\?\)\)\) ==> read_array(asset, IdxG)
//@ rewrite asset\s*\.read_array\(\|asset\| asset\.read_fstring\(\)\) ==> read_array(asset, StrG)
//@ rewrite asset\.has_unversioned_properties\(\) ==> vx_unversioned(asset)
//@ rewrite asset\.position\(\) ==> vx_pos(asset)
//@ rewrite asset\.seek\(SeekFrom::Start\( ==> vx_seek(asset, (
//@ rewrite asset\.read_exact\(&mut (\w+)\) ==> asset.read_exact_vec(&mut \1)
// ---- lists ----
pub trait Getter<S: ArchiveReaderX, T> {
    spec fn enc(v: T) -> Seq<Pat>;
    fn go(&self, s: &mut S) -> (r: Result<T, Error>) ensures r is Ok ==> rd(old(s), final(s), Self::enc(r->Ok_0));
}
pub struct IdxG;
impl<S: ArchiveReaderX> Getter<S, PackageIndex> for IdxG {
    open spec fn enc(v: PackageIndex) -> Seq<Pat> { pidx(v) }
    fn go(&self, asset: &mut S) -> (r: Result<PackageIndex, Error>) { Ok(PackageIndex::new(asset.read_i32::<LE>()?)) }
}
pub struct StrG;
impl<S: ArchiveReaderX> Getter<S, Option<String>> for StrG {
    open spec fn enc(v: Option<String>) -> Seq<Pat> { pstr(sv(v)) }
    fn go(&self, asset: &mut S) -> (r: Result<Option<String>, Error>) { asset.read_fstring() }
}
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_reader.rs "trait ArchiveReader" read_array_with_length mode=free self=S igen="<S: ArchiveReaderX>" gen="<T, G: Getter<S, T>>" params=length,getter attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> r->Ok_0@.len() == length && rd(old(this), final(this), pseq(r->Ok_0@, length as nat, |v: T| G::enc(v))),
//@ rw impl Fn\(&mut Self\) -> Result<T, Error> ==> G
//@ rw getter\(self\) ==> getter.go(self)
//@ at pre-loop 0
    proof { cap(length); rd_nil(this); }
//@ loop 0 it=it
    invariant array@.len() == it.index(), rd(old(this), this, pseq(array@, array@.len(), |v: T| G::enc(v))),
//@ at loop-start 0
    let ghost a0 = array@;
//@ at loop-end 0
    proof { let f = |v: T| G::enc(v); pseq_push(Seq::empty(), a0, array@.last(), f); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_reader.rs "trait ArchiveReader" read_array mode=free self=S igen="<S: ArchiveReaderX>" gen="<T, G: Getter<S, T>>" params=getter
    ensures r is Ok ==> rd(old(this), final(this), plist(r->Ok_0@, |v: T| G::enc(v))),
//@ rw impl Fn\(&mut Self\) -> Result<T, Error> ==> G
//@ rw self\.read_array_with_length\( ==> read_array_with_length(self, 
//@ end
pub open spec fn plist<T>(s: Seq<T>, f: spec_fn(T) -> Seq<Pat>) -> Seq<Pat> { p32(s.len() as u32) + pseq(s, s.len(), f) }
pub open spec fn pidx(v: PackageIndex) -> Seq<Pat> { p32(v.index as u32) }
pub open spec fn fidx() -> spec_fn(PackageIndex) -> Seq<Pat> { |v: PackageIndex| pidx(v) }
pub open spec fn fstr() -> spec_fn(Option<String>) -> Seq<Pat> { |v: Option<String>| pstr(sv(v)) }
pub proof fn getters<S: ArchiveReaderX>() ensures
    (|v: PackageIndex| <IdxG as Getter<S, PackageIndex>>::enc(v)) == fidx(),
    (|v: Option<String>| <StrG as Getter<S, Option<String>>>::enc(v)) == fstr(),
{
    assert((|v: PackageIndex| <IdxG as Getter<S, PackageIndex>>::enc(v)) =~= fidx());
    assert((|v: Option<String>| <StrG as Getter<S, Option<String>>>::enc(v)) =~= fstr());
}
// ---- tagged properties (T01), of packages with tagged properties ----
#[verifier::external_body]
pub struct Property { x: u8 }
/// stored form of one tagged property
pub uninterp spec fn pprop(v: Property, c: Ctx) -> Seq<Pat>;
pub open spec fn fprop(c: Ctx) -> spec_fn(Property) -> Seq<Pat> { |v: Property| pprop(v, c) }
#[verifier::external_body]
pub struct UnversionedHeader { x: u8 }
impl UnversionedHeader {
    #[verifier::external_body]
    pub fn new<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<Option<UnversionedHeader>, Error>) ensures r is Ok ==> r->Ok_0 is None && *final(asset) == *old(asset) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<S: ArchiveWriterX>(&self, asset: &mut S) -> (r: Result<(), Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn generate_unversioned_header<S: ArchiveWriterX>(asset: &S, p: &[Property], n: &FName) -> (r: Result<Option<(UnversionedHeader, Vec<Property>)>, Error>) ensures r is Ok ==> r->Ok_0 is None { unimplemented!() }
#[verifier::external_body]
pub fn vx_unversioned<S: Archive>(asset: &S) -> (r: bool) ensures !r { unimplemented!() }
impl Ancestry { #[verifier::external_body] pub fn new(p: FName) -> Ancestry { unimplemented!() } }
impl Property {
    /// with a tag: a property, or the name that ends the list
    #[verifier::external_body]
    pub fn vx_new<S: ArchiveReaderX>(asset: &mut S, a: Ancestry, include_header: bool) -> (r: Result<Option<Property>, Error>)
        ensures r is Ok && include_header ==> rd(old(asset), final(asset), match r->Ok_0 { Some(p) => pprop(p, rc(old(asset))), None => ptn("None"@) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<S: ArchiveWriterX>(p: &Property, asset: &mut S, include_header: bool) -> (r: Result<usize, Error>)
        ensures r is Ok && include_header ==> wr(old(asset), final(asset), pprop(*p, wc(old(asset)))) { unimplemented!() }
}
pub open spec fn pprops(s: Seq<Property>, c: Ctx) -> Seq<Pat> { pseq(s, s.len(), fprop(c)) + ptn("None"@) }
//@ struct unreal_asset/unreal_asset_exports/src/base_export.rs BaseExport
impl BaseExport { #[verifier::external_body] pub fn get_class_type_for_ancestry<S: Archive>(&self, asset: &S) -> FName { unimplemented!() } }
//@ struct unreal_asset/unreal_asset_exports/src/normal_export.rs NormalExport
pub open spec fn pnormal(v: NormalExport, c: Ctx) -> Seq<Pat> { pprops(v.properties@, c) }

//@ fn unreal_asset/unreal_asset_exports/src/normal_export.rs NormalExport from_base params=base,asset attr="#[verifier::loop_isolation(false)];#[verifier::allow_complex_invariants];#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), pnormal(r->Ok_0, rc(old(asset)))) && r->Ok_0.base_export == *base,
//@ rw! while let Some\(e\) =\s*Property::new\(asset, ancestry\.clone\(\), unversioned_header\.as_mut\(\), (\w+)\)\?\s*\{ ==> loop { let e = match Property::vx_new(asset, vx_dup(&ancestry), \1)? { Some(x) => x, None => break };
//@ at pre-loop 0
    let ghost vx_p = Seq::<Pat>::empty();
    proof { rd_nil(asset); }
//@ loop 0
    invariant_except_break rd(old(asset), asset, vx_p + pseq(properties@, properties@.len(), fprop(rc(old(asset))))), rc(asset) == rc(old(asset)),
    ensures rd(old(asset), asset, vx_p + pprops(properties@, rc(old(asset)))),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, properties@);
    proof { pat_assoc(vx_p, pseq(r1, r1.len(), fprop(rc(old(asset)))), ptn("None"@)); }
//@ at loop-end 0
    proof { let f = fprop(rc(old(asset))); assert(rd(&a1, asset, f(properties@.last()))); pseq_push(vx_p, r1, properties@.last(), f); }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/normal_export.rs "ExportTrait for NormalExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pnormal(*self, wc(old(asset)))),
//@ at pre-loop 0
    let ghost vx_p0 = Seq::<Pat>::empty();
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.properties@), wr(old(asset), asset, vx_p0 + pseq(self.properties@, it.index() as nat, fprop(wc(old(asset))))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fprop(wc(old(asset)))(self.properties@[it.index() as int]))); pseq_step(vx_p0, self.properties@, it.index() as nat, fprop(wc(old(asset)))); }
//@ at body-start
    proof { wr_nil(asset); }
//@ end
pub open spec fn pworld(v: WorldExport, c: Ctx) -> Seq<Pat> {
    ((((pnormal(v.normal_export, c) + pskip(c)) + pidx(v.persistent_level)) + plist(v.extra_objects@, fidx())) + plist(v.streaming_levels@, fidx()))
}
//@ struct unreal_asset/unreal_asset_exports/src/world_export.rs WorldExport
//@ fn unreal_asset/unreal_asset_exports/src/world_export.rs WorldExport from_base params=base,asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd(old(asset), final(asset), pworld(r->Ok_0, rc(old(asset)))) && r->Ok_0.normal_export.base_export == *base,
//@ at body-start
    proof { getters::<Reader>(); }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/world_export.rs "ExportTrait for WorldExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pworld(*self, wc(old(asset)))),
//@ at pre-loop 0
    let ghost vx_p0 = (((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pidx(self.persistent_level))) + p32(self.extra_objects.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.extra_objects@), wr(old(asset), asset, vx_p0 + pseq(self.extra_objects@, it.index() as nat, fidx())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fidx()(self.extra_objects@[it.index() as int]))); pseq_step(vx_p0, self.extra_objects@, it.index() as nat, fidx()); }
//@ at post-loop 0
    proof { pat_assoc(((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pidx(self.persistent_level)), p32(self.extra_objects.len() as u32), pseq(self.extra_objects@, self.extra_objects@.len(), fidx())); }
//@ at pre-loop 1
    let ghost vx_p1 = (((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pidx(self.persistent_level)) + plist(self.extra_objects@, fidx())) + p32(self.streaming_levels.len() as u32);
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.streaming_levels@), wr(old(asset), asset, vx_p1 + pseq(self.streaming_levels@, it.index() as nat, fidx())),
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, fidx()(self.streaming_levels@[it.index() as int]))); pseq_step(vx_p1, self.streaming_levels@, it.index() as nat, fidx()); }
//@ at post-loop 1
    proof { pat_assoc(((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pidx(self.persistent_level)) + plist(self.extra_objects@, fidx()), p32(self.streaming_levels.len() as u32), pseq(self.streaming_levels@, self.streaming_levels@.len(), fidx())); }
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/level_export.rs URL
pub open spec fn purl(v: URL) -> Seq<Pat> { ((((((pstr(sv(v.protocol)) + pstr(sv(v.host))) + pstr(sv(v.map))) + pstr(sv(v.portal))) + plist(v.options@, fstr())) + p32(v.port as u32)) + p32(v.valid as u32)) }
pub open spec fn plevel_a(v: LevelExport, c: Ctx) -> Seq<Pat> { ((pnormal(v.normal_export, c) + pskip(c)) + plist(v.actors@, fidx())) }
pub open spec fn plevel_b(v: LevelExport, c: Ctx) -> Seq<Pat> { (((((plevel_a(v, c) + pstr(sv(v.url.protocol))) + pstr(sv(v.url.host))) + pstr(sv(v.url.map))) + pstr(sv(v.url.portal))) + plist(v.url.options@, fstr())) }
pub open spec fn plevel(v: LevelExport, c: Ctx) -> Seq<Pat> {
    (((((((plevel_b(v, c) + p32(v.url.port as u32)) + p32(v.url.valid as u32)) + pidx(v.model)) + plist(v.model_components@, fidx())) + pidx(v.level_script)) + pidx(v.nav_list_start)) + pidx(v.nav_list_end))
}
//@ struct unreal_asset/unreal_asset_exports/src/level_export.rs LevelExport
//@ fn unreal_asset/unreal_asset_exports/src/level_export.rs LevelExport from_base params=unk,asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd(old(asset), final(asset), plevel(r->Ok_0, rc(old(asset)))) && r->Ok_0.normal_export.base_export == *unk,
//@ at body-start
    proof { getters::<Reader>(); }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/level_export.rs "ExportTrait for LevelExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), plevel(*self, wc(old(asset)))),
//@ at pre-loop 0
    let ghost vx_p0 = ((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset))))) + p32(self.actors.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.actors@), wr(old(asset), asset, vx_p0 + pseq(self.actors@, it.index() as nat, fidx())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fidx()(self.actors@[it.index() as int]))); pseq_step(vx_p0, self.actors@, it.index() as nat, fidx()); }
//@ at post-loop 0
    proof { pat_assoc((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))), p32(self.actors.len() as u32), pseq(self.actors@, self.actors@.len(), fidx())); }
//@ at pre-loop 1
    let ghost vx_p1 = (((((plevel_a(*self, wc(old(asset))) + pstr(sv(self.url.protocol))) + pstr(sv(self.url.host))) + pstr(sv(self.url.map))) + pstr(sv(self.url.portal)))) + p32(self.url.options.len() as u32);
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.url.options@), wr(old(asset), asset, vx_p1 + pseq(self.url.options@, it.index() as nat, fstr())),
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, fstr()(self.url.options@[it.index() as int]))); pseq_step(vx_p1, self.url.options@, it.index() as nat, fstr()); }
//@ at post-loop 1
    proof { pat_assoc(((((plevel_a(*self, wc(old(asset))) + pstr(sv(self.url.protocol))) + pstr(sv(self.url.host))) + pstr(sv(self.url.map))) + pstr(sv(self.url.portal))), p32(self.url.options.len() as u32), pseq(self.url.options@, self.url.options@.len(), fstr())); }
//@ at pre-loop 2
    let ghost vx_p2 = ((((plevel_b(*self, wc(old(asset))) + p32(self.url.port as u32)) + p32(self.url.valid as u32)) + pidx(self.model))) + p32(self.model_components.len() as u32);
//@ loop 2 it=it
    invariant it.seq() == refs_of(self.model_components@), wr(old(asset), asset, vx_p2 + pseq(self.model_components@, it.index() as nat, fidx())),
//@ at loop-start 2
    let ghost a1 = *asset;
//@ at loop-end 2
    proof { assert(wr(&a1, asset, fidx()(self.model_components@[it.index() as int]))); pseq_step(vx_p2, self.model_components@, it.index() as nat, fidx()); }
//@ at post-loop 2
    proof { pat_assoc((((plevel_b(*self, wc(old(asset))) + p32(self.url.port as u32)) + p32(self.url.valid as u32)) + pidx(self.model)), p32(self.model_components.len() as u32), pseq(self.model_components@, self.model_components@.len(), fidx())); }
//@ rw! option\.as_deref\(\) ==> vx_deref(option)
//@ end
#[verifier::external_body]
pub fn vx_class_type<S: Archive>(asset: &S, i: PackageIndex) -> (r: Option<FName>) { unimplemented!() }
pub open spec fn pprope(v: PropertyExport, c: Ctx) -> Seq<Pat> { ((pnormal(v.normal_export, c) + pskip(c)) + pu(v.property, c)) }
//@ struct unreal_asset/unreal_asset_exports/src/property_export.rs PropertyExport
//@ fn unreal_asset/unreal_asset_exports/src/property_export.rs PropertyExport from_base params=base,asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd(old(asset), final(asset), pprope(r->Ok_0, rc(old(asset)))) && r->Ok_0.normal_export.base_export == *base,
//@ rw! asset\s*\.get_export_class_type\( ==> vx_class_type(asset, 
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/property_export.rs "ExportTrait for PropertyExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pprope(*self, wc(old(asset)))),
//@ end
pub open spec fn praw(v: RawExport, c: Ctx) -> Seq<Pat> { pblob(v.data@) }
//@ struct unreal_asset/unreal_asset_exports/src/raw_export.rs RawExport
//@ fn unreal_asset/unreal_asset_exports/src/raw_export.rs RawExport from_base params=base,asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd(old(asset), final(asset), praw(r->Ok_0, rc(old(asset)))) && r->Ok_0.base_export == base,
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/raw_export.rs "ExportTrait for RawExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), praw(*self, wc(old(asset)))),
//@ end
//@ rewrite false => asset\.read_u8\(\)\?\.try_into\(\)\? ==> false => ECppForm::try_from(asset.read_u8()?)?
//@ enumnum unreal_asset/unreal_asset_exports/src/enum_export.rs ECppForm
//@ struct unreal_asset/unreal_asset_exports/src/enum_export.rs UEnum
pub open spec fn ppacked(c: Ctx) -> bool { on(c.ov) >= on(ObjectVersion::VER_UE4_TIGHTLY_PACKED_ENUMS) }
pub open spec fn penumv(v: (FName, i64), c: Ctx) -> Seq<Pat> {
    if !ppacked(c) { pname(v.0) }
    else if cvn::<FCoreObjectVersion>(c.cv) < FCoreObjectVersion_EnumProperties { pname(v.0) + p8(v.1 as u8) }
    else { pname(v.0) + p64(v.1 as u64) }
}
pub open spec fn fenum(c: Ctx) -> spec_fn((FName, i64)) -> Seq<Pat> { |v: (FName, i64)| penumv(v, c) }
pub open spec fn pflag1(b: bool, c: Ctx) -> Seq<Pat> { if b { p32(1) } else if c.exact { p32(0) } else { anyb(4) } }
pub open spec fn pform(v: ECppForm, c: Ctx) -> Seq<Pat> {
    if on(c.ov) < on(ObjectVersion::VER_UE4_ENUM_CLASS_SUPPORT) { pflag1(v == ECppForm::Namespaced, c) } else { p8(ECppForm_n(v)) }
}
pub open spec fn puenum(v: UEnum, n: u32, c: Ctx) -> Seq<Pat> { (p32(n) + pseq(v.names@, v.names@.len(), fenum(c))) + pform(v.cpp_form, c) }
/// a stored count: negative ones read as none
pub open spec fn cnt_ok(n: u32, len: nat) -> bool { n == len || (len == 0 && n >= 0x8000_0000u32) }
/// the values an old package can store: the position of each name, or a byte
pub open spec fn ok_uenum(v: UEnum, c: Ctx) -> bool {
    &&& !ppacked(c) ==> forall|i: int| 0 <= i < v.names@.len() ==> (#[trigger] v.names@[i]).1 == i
    &&& v.names@.len() <= i32::MAX
    &&& on(c.ov) < on(ObjectVersion::VER_UE4_ENUM_CLASS_SUPPORT) ==> v.cpp_form != ECppForm::EnumClass
}
pub open spec fn rd_uenum<S: Archive + ?Sized>(a: &S, b: &S, v: UEnum) -> bool { exists|n: u32| #[trigger] cnt_ok(n, v.names@.len()) && rd(a, b, puenum(v, n, rc(a))) }
pub proof fn neg(n: i32) ensures n < 0 ==> (n as u32) >= 0x8000_0000u32, n >= 0 ==> n as u32 == n { assert(n < 0 ==> (n as u32) >= 0x8000_0000u32) by (bit_vector); }

//@ fn unreal_asset/unreal_asset_exports/src/enum_export.rs UEnum new params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd_uenum(old(asset), final(asset), r->Ok_0) && ok_uenum(r->Ok_0, rc(old(asset))),
//@ rw let custom_version = asset\.get_custom_version::<(\w+)>\(\); ==> let custom_version = VxVer { version: asset.vx_cv::<\1>() };
//@ rw! asset\.read_i32::<LE>\(\)\? == 1; ==> vx_is1(asset)?;
//@ at pre-loop 0
    proof { neg(num_entries); }
    let ghost n0 = num_entries as u32; proof { vx_n = num_entries as u32; }
//@ loop 0 it=it
    invariant names@.len() == it.index(), rd(old(asset), asset, p32(n0) + pseq(names@, names@.len(), fenum(rc(old(asset))))), forall|j: int| 0 <= j < names@.len() ==> (#[trigger] names@[j]).1 == j,
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, names@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, fenum(rc(old(asset)))(names@.last()))); pseq_push(p32(n0), r1, names@.last(), fenum(rc(old(asset)))); }
//@ at pre-loop 1
    proof { neg(num_entries); }
    let ghost n1 = num_entries as u32; proof { vx_n = num_entries as u32; }
//@ loop 1 it=it
    invariant names@.len() == it.index(), rd(old(asset), asset, p32(n1) + pseq(names@, names@.len(), fenum(rc(old(asset))))),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, names@);
//@ at loop-end 1
    proof { assert(rd(&a1, asset, fenum(rc(old(asset)))(names@.last()))); pseq_push(p32(n1), r1, names@.last(), fenum(rc(old(asset)))); }
//@ at pre-loop 2
    proof { neg(num_entries); }
    let ghost n2 = num_entries as u32; proof { vx_n = num_entries as u32; }
//@ loop 2 it=it
    invariant names@.len() == it.index(), rd(old(asset), asset, p32(n2) + pseq(names@, names@.len(), fenum(rc(old(asset))))),
//@ at loop-start 2
    let ghost (a1, r1) = (*asset, names@);
//@ at loop-end 2
    proof { assert(rd(&a1, asset, fenum(rc(old(asset)))(names@.last()))); pseq_push(p32(n2), r1, names@.last(), fenum(rc(old(asset)))); }
//@ at body-start
    let ghost mut vx_n: u32 = 0;
    proof { let f = fenum(rc(old(asset))); rd_nil(asset); u8_cast(); }
//@ at before-tail
    proof { let v = UEnum { names: names, cpp_form: cpp_form }; assert(cnt_ok(vx_n, v.names@.len())); assert(rd(old(asset), asset, puenum(v, vx_n, rc(old(asset))))); assert(rd_uenum(old(asset), asset, v)); }
//@ end
pub struct VxVer { pub version: i32 }
pub proof fn u8_cast() ensures forall|b: u8| #[trigger] ((b as i64) as u8) == b { assert forall|b: u8| #[trigger] ((b as i64) as u8) == b by { assert(((b as i64) as u8) == b) by (bit_vector); } }
/// read_i32()? == 1
pub fn vx_is1<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<bool, Error>)
    ensures r is Ok ==> rd(old(asset), final(asset), pflag1(r->Ok_0, rc(old(asset)))),
{ let v = asset.read_i32::<LE>()?; proof { rd_any32(old(asset), asset, v as u32); } Ok(v == 1) }
//@ fn unreal_asset/unreal_asset_exports/src/enum_export.rs UEnum write params=asset attr="#[verifier::loop_isolation(false)]"
    requires ok_uenum(*self, wc(old(asset))),
    ensures r is Ok ==> wr(old(asset), final(asset), puenum(*self, self.names@.len() as u32, wc(old(asset)))),
//@ rw! name\.clone\(\) ==> vx_dup(name)
//@ rw! match self\.cpp_form == ECppForm::Namespaced \{ ==> match vx_namespaced(self.cpp_form) {
//@ rw! HashMap::with_capacity\( ==> std::collections::HashMap::<i64, FName>::with_capacity(
//@ at body-start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost vx_q = p32(self.names.len() as u32);
    let ghost f = fenum(wc(old(asset)));
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.names@), forall|j: i64| #[trigger] names_map@.contains_key(j) <==> 0 <= j < it.index(), forall|j: int| 0 <= j < it.index() ==> #[trigger] names_map@[j as i64] == self.names@[j].0, names_map@.len() == it.index(), names_map@.dom().finite(),
//@ loop 1 it=it
    invariant wr(old(asset), asset, vx_q + pseq(self.names@, it.index() as nat, f)),
//@ at loop-start 1
    let ghost a1 = *asset;
    proof { assert(names_map@.contains_key(i as i64)); assert(names_map@[(i as int) as i64] == self.names@[i as int].0); }
//@ at loop-end 1
    proof { assert(wr(&a1, asset, f(self.names@[it.index() as int]))); pseq_step(vx_q, self.names@, it.index() as nat, f); }
//@ at pre-loop 2
    let ghost vx_p2 = vx_q;
//@ loop 2 it=it
    invariant it.seq() == refs_of(self.names@), wr(old(asset), asset, vx_p2 + pseq(self.names@, it.index() as nat, f)),
//@ at loop-start 2
    let ghost a1 = *asset;
//@ at loop-end 2
    proof { assert(wr(&a1, asset, f(self.names@[it.index() as int]))); pseq_step(vx_p2, self.names@, it.index() as nat, f); }
//@ at pre-loop 3
    let ghost vx_p3 = vx_q;
//@ loop 3 it=it
    invariant it.seq() == refs_of(self.names@), wr(old(asset), asset, vx_p3 + pseq(self.names@, it.index() as nat, f)),
//@ at loop-start 3
    let ghost a1 = *asset;
//@ at loop-end 3
    proof { assert(wr(&a1, asset, f(self.names@[it.index() as int]))); pseq_step(vx_p3, self.names@, it.index() as nat, f); }
//@ end
pub fn vx_namespaced(v: ECppForm) -> (r: bool) ensures r == (v == ECppForm::Namespaced) { match v { ECppForm::Namespaced => true, _ => false } }
pub open spec fn penume(v: EnumExport, n: u32, c: Ctx) -> Seq<Pat> { (pnormal(v.normal_export, c) + pskip(c)) + puenum(v.value, n, c) }
pub open spec fn penume_w(v: EnumExport, c: Ctx) -> Seq<Pat> { penume(v, v.value.names@.len() as u32, c) }
pub open spec fn rd_enume<S: Archive + ?Sized>(a: &S, b: &S, v: EnumExport) -> bool { exists|n: u32| #[trigger] cnt_ok(n, v.value.names@.len()) && rd(a, b, penume(v, n, rc(a))) }

//@ struct unreal_asset/unreal_asset_exports/src/enum_export.rs EnumExport
//@ fn unreal_asset/unreal_asset_exports/src/enum_export.rs EnumExport from_base params=base,asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd_enume(old(asset), final(asset), r->Ok_0) && r->Ok_0.normal_export.base_export == *base && ok_uenum(r->Ok_0.value, rc(old(asset))),
//@ rw! let value = ==> let ghost a1 = *asset; let value =
//@ at before-tail
    proof {
        let n = choose|n: u32| #[trigger] cnt_ok(n, value.names@.len()) && rd(&a1, asset, puenum(value, n, rc(&a1)));
        let v = EnumExport { normal_export: normal_export, value: value };
        assert(rd(old(asset), asset, penume(v, n, rc(old(asset))))); assert(cnt_ok(n, v.value.names@.len())); assert(rd_enume(old(asset), asset, v));
    }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/enum_export.rs "ExportTrait for EnumExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    requires ok_uenum(self.value, wc(old(asset))),
    ensures r is Ok ==> wr(old(asset), final(asset), penume_w(*self, wc(old(asset)))),
//@ end
pub open spec fn has<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub uninterp spec fn replaced<K, V>(s: Seq<(K, V)>, t: (K, V)) -> Seq<(K, V)>;
pub open spec fn ins<K, V>(s: Seq<(K, V)>, t: (K, V)) -> Seq<(K, V)> { if has(s, t.0) { replaced(s, t) } else { s.push(t) } }
/// what is kept of a stored list: a repeated key replaces its entry
pub open spec fn kept_<K, V>(s: Seq<(K, V)>, n: nat) -> Seq<(K, V)> decreases n { if n == 0 { Seq::empty() } else { ins(kept_(s, (n - 1) as nat), s[n - 1]) } }
pub open spec fn kept<K, V>(s: Seq<(K, V)>) -> Seq<(K, V)> { kept_(s, s.len()) }
pub proof fn kept_same<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i]
    ensures kept_(s, n) == kept_(t, n) decreases n
{ if n > 0 { kept_same(s, t, (n - 1) as nat); } }
/// a list without repeated keys is kept as it is
pub proof fn kept_distinct<K, V>(s: Seq<(K, V)>, n: nat)
    requires n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures kept_(s, n) == s.take(n as int) decreases n
{
    if n > 0 {
        kept_distinct(s, (n - 1) as nat);
        let t = s.take(n - 1);
        if has(t, s[n - 1].0) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == s[n - 1].0; assert(s[i].0 == s[n - 1].0); }
        assert(s.take(n as int) =~= t.push(s[n - 1]));
    } else { assert(s.take(0) =~= Seq::empty()); }
}
macro_rules! omap { ($t:ident, $k:ty, $v:ty, $ks:ty, $vs:ty, $en:ident, $kf:ident, $vf:ident) => { verus! {
    #[verifier::external_body]
    pub struct $t { x: u8 }
    impl $t {
        pub uninterp spec fn e(&self) -> Seq<($ks, $vs)>;
        #[verifier::external_body]
        pub fn new() -> (r: $t) ensures r.e() == Seq::<($ks, $vs)>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> (r: $t) ensures r.e() == Seq::<($ks, $vs)>::empty(), n <= isize::MAX { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: $k, v: $v) ensures final(self).e() == ins(old(self).e(), ($kf(k), $vf(v))) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self.e().len() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn $en<'a>(t: &'a $t) -> (r: Vec<(usize, &'a $k, &'a $v)>)
        ensures r@.len() == t.e().len(), forall|i: int| 0 <= i < r@.len() ==> $kf(*(#[trigger] r@[i]).1) == t.e()[i].0 && $vf(*r@[i].2) == t.e()[i].1
    { unimplemented!() }
} } }
pub open spec fn strv(s: String) -> Seq<char> { s@ }
pub open spec fn same<T>(s: T) -> T { s }
omap!(StrMap, String, String, Seq<char>, Seq<char>, vx_str_entries, strv, strv);
omap!(FuncMap, FName, PackageIndex, FName, PackageIndex, vx_func_entries, same, same);
//@ rewrite IndexedMap<String, String> ==> StrMap
//@ rewrite IndexedMap<FName, PackageIndex> ==> FuncMap
//@ rewrite IndexedMap::new ==> StrMap::new
//@ rewrite IndexedMap::with_capacity ==> FuncMap::with_capacity
//@ rewrite in &self\.table\b ==> in &vx_str_entries(&self.table)
//@ rewrite in &self\.func_map\b ==> in &vx_func_entries(&self.func_map)
pub open spec fn fse() -> spec_fn((Seq<char>, Seq<char>)) -> Seq<Pat> { |v: (Seq<char>, Seq<char>)| pstr(Some(v.0)) + pstr(Some(v.1)) }
pub open spec fn ffe() -> spec_fn((FName, PackageIndex)) -> Seq<Pat> { |v: (FName, PackageIndex)| pname(v.0) + pidx(v.1) }
/// a stored list of entries, of which k are kept
pub struct Ent<K, V> { pub n: u32, pub t: Seq<(K, V)> }
pub open spec fn pent<K, V>(s: Ent<K, V>, f: spec_fn((K, V)) -> Seq<Pat>) -> Seq<Pat> { p32(s.n) + pseq(s.t, s.t.len(), f) }
pub open spec fn ent_ok<K, V>(s: Ent<K, V>, k: Seq<(K, V)>) -> bool { cnt_ok(s.n, s.t.len()) && kept(s.t) == k }
pub open spec fn ent_w<K, V>(k: Seq<(K, V)>) -> Ent<K, V> { Ent { n: k.len() as u32, t: k } }

pub open spec fn pst(v: StringTableExport, t: Ent<Seq<char>, Seq<char>>, c: Ctx) -> Seq<Pat> { ((pnormal(v.normal_export, c) + pskip(c)) + pstr(sv(v.namespace))) + pent(t, fse()) }
pub open spec fn pst_w(v: StringTableExport, c: Ctx) -> Seq<Pat> { pst(v, ent_w(v.table.e()), c) }
pub open spec fn rd_st<S: Archive + ?Sized>(a: &S, b: &S, v: StringTableExport) -> bool { exists|t: Ent<Seq<char>, Seq<char>>| #[trigger] ent_ok(t, v.table.e()) && rd(a, b, pst(v, t, rc(a))) }
//@ struct unreal_asset/unreal_asset_exports/src/string_table_export.rs StringTableExport
//@ fn unreal_asset/unreal_asset_exports/src/string_table_export.rs StringTableExport from_base params=base,asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd_st(old(asset), final(asset), r->Ok_0) && r->Ok_0.normal_export.base_export == *base,
//@ rw! table\.insert\(\s*(asset\s*\.read_fstring\(\)\?\s*\.ok_or_else.*?\)\?),\s*(asset\s*\.read_fstring\(\)\?\s*\.ok_or_else.*?\)\?),\s*\); ==> let vx_k = \1; let vx_v = \2; let ghost kv = (vx_k@, vx_v@); table.insert(vx_k, vx_v);
//@ at pre-loop 0
    let ghost mut t: Seq<(Seq<char>, Seq<char>)> = Seq::empty();
    let ghost vx_p = ((pnormal(normal_export, rc(old(asset))) + pskip(rc(old(asset)))) + pstr(sv(namespace))) + p32(num_entries as u32);
    proof { neg(num_entries); }
//@ loop 0 it=it
    invariant t.len() == it.index(), kept(t) == table.e(), rd(old(asset), asset, vx_p + pseq(t, t.len(), fse())),
//@ at loop-start 0
    let ghost a0 = *asset;
//@ at loop-end 0
    proof {
        let t1 = t.push(kv);
        kept_same(t, t1, t.len());
        assert(rd(&a0, asset, fse()(kv)));
        pseq_push(vx_p, t, kv, fse());
        t = t1;
    }
//@ at before-tail
    proof {
        let v = StringTableExport { normal_export: normal_export, namespace: namespace, table: table };
        let s = Ent { n: num_entries as u32, t: t };
        pat_assoc(((pnormal(normal_export, rc(old(asset))) + pskip(rc(old(asset)))) + pstr(sv(namespace))), p32(s.n), pseq(t, t.len(), fse()));
        assert(rd(old(asset), asset, pst(v, s, rc(old(asset))))); assert(ent_ok(s, v.table.e())); assert(rd_st(old(asset), asset, v));
    }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/string_table_export.rs "ExportTrait for StringTableExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pst_w(*self, wc(old(asset)))),
//@ rw! Some\((key|value)\) ==> Some(\1.as_str())
//@ at pre-loop 0
    let ghost vx_p = ((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pstr(sv(self.namespace)));
//@ loop 0 it=it
    invariant it.seq().len() == self.table.e().len(), forall|i: int| 0 <= i < it.seq().len() ==> strv(*(#[trigger] it.seq()[i]).1) == self.table.e()[i].0 && strv(*it.seq()[i].2) == self.table.e()[i].1, wr(old(asset), asset, (vx_p + p32(self.table.e().len() as u32)) + pseq(self.table.e(), it.index() as nat, fse())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fse()(self.table.e()[it.index() as int]))); pseq_step(vx_p + p32(self.table.e().len() as u32), self.table.e(), it.index() as nat, fse()); }
//@ at post-loop 0
    proof { pat_assoc(vx_p, p32(self.table.e().len() as u32), pseq(self.table.e(), self.table.e().len(), fse())); }
//@ end
// ---- positions: the bytes before and behind them together are the stream ----
pub open spec fn whole<S: Archive + ?Sized>(s: &S) -> Seq<u8> { s.pre() + s.post() }
pub open spec fn kin<S: Archive + ?Sized>(a: &S, b: &S) -> bool { whole(a) == whole(b) && a.ov() == b.ov() && a.o5() == b.o5() && a.cv() == b.cv() }
pub open spec fn view<S: Archive + ?Sized>(a: &S, b: &S) -> bool { a.pre() == b.pre() && a.post() == b.post() && a.ov() == b.ov() && a.o5() == b.o5() && a.cv() == b.cv() }
/// b is a moved to p; nothing can be read behind the end
pub open spec fn at<S: Archive + ?Sized>(a: &S, b: &S, p: u64) -> bool {
    &&& a.ov() == b.ov() && a.o5() == b.o5() && a.cv() == b.cv()
    &&& if p <= whole(a).len() { whole(a) == whole(b) && b.pre().len() == p } else { b.post().len() == 0 }
}
/// streams are shorter than 2^63 bytes
#[verifier::external_body]
pub fn vx_pos<S: Archive>(asset: &mut S) -> (r: u64) ensures r == old(asset).pre().len(), r <= i64::MAX, *final(asset) == *old(asset) { unimplemented!() }
#[verifier::external_body]
pub fn vx_seek<S: Archive>(asset: &mut S, p: u64) -> (r: Result<u64, Error>) ensures r is Ok ==> at(old(asset), final(asset), p) { unimplemented!() }
pub proof fn rd_kin<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>)
    requires rd(a, b, p) ensures kin(a, b), b.pre().len() == a.pre().len() + p.len(), p.len() <= a.post().len()
{ reveal(rd); let n = p.len() as int; assert(a.post() =~= a.post().take(n) + a.post().skip(n)); assert(whole(a) =~= whole(b)); }
/// moving back to where a was
pub proof fn back<S: Archive + ?Sized>(a: &S, m: &S, b: &S)
    requires kin(a, m), at(m, b, a.pre().len() as u64), a.pre().len() <= u64::MAX ensures view(a, b)
{
    assert(whole(a).len() == a.pre().len() + a.post().len());
    assert(a.pre() =~= whole(a).take(a.pre().len() as int)); assert(b.pre() =~= whole(b).take(b.pre().len() as int));
    assert(a.post() =~= whole(a).skip(a.pre().len() as int)); assert(b.post() =~= whole(b).skip(b.pre().len() as int));
}
pub proof fn rd_view<S: Archive + ?Sized>(a: &S, b: &S, c: &S, p: Seq<Pat>) requires rd(a, b, p), view(b, c) ensures rd(a, c, p) { reveal(rd); }
pub proof fn view_rd<S: Archive + ?Sized>(a: &S, b: &S, c: &S, p: Seq<Pat>) requires rd(a, b, p), view(a, c) ensures rd(c, b, p) { reveal(rd); }
pub mod pos { use vstd::prelude::*; use super::*;
pub proof fn moved<S: Archive + ?Sized>(a: &S, b: &S, p: u64)
    requires at(a, b, p), p <= whole(a).len() ensures b.pre() == whole(a).take(p as int), b.post() == whole(a).skip(p as int)
{ assert(b.pre() =~= whole(b).take(p as int)); assert(b.post() =~= whole(b).skip(p as int)); }
/// writing inside: the bytes there are replaced, the others stay
pub proof fn over<S: Archive + ?Sized>(m: &S, a: &S, b: &S, q: Seq<Pat>, p: u64)
    requires at(m, a, p), wr(a, b, q), p + q.len() <= whole(m).len()
    ensures fit(b.pre().skip(p as int), q), b.pre() == whole(m).take(p as int) + b.pre().skip(p as int), b.post() == whole(m).skip(p + q.len()), whole(b).len() == whole(m).len(), b.pre().len() == p + q.len(),
        forall|z: int| 0 <= z < whole(m).len() && !(p <= z < p + q.len()) ==> #[trigger] whole(b)[z] == whole(m)[z],
        forall|z: int| p <= z < p + q.len() ==> fits(#[trigger] whole(b)[z], q[z - p]),
{
    reveal(wr); moved(m, a, p);
    let n = p as int;
    assert(b.pre() =~= b.pre().take(n) + b.pre().skip(n));
    assert(a.post().len() == whole(m).len() - n);
    if a.post().len() <= q.len() { assert(b.post() =~= whole(m).skip(n + q.len())); } else { assert(b.post() =~= whole(m).skip(n + q.len())); }
    assert forall|z: int| 0 <= z < whole(m).len() && !(p <= z < p + q.len()) implies #[trigger] whole(b)[z] == whole(m)[z] by { if z < p { assert(b.pre().take(n)[z] == b.pre()[z]); } }
    assert forall|z: int| p <= z < p + q.len() implies fits(#[trigger] whole(b)[z], q[z - p]) by { assert(b.pre().skip(n)[z - p] == whole(b)[z]); }
}
/// the two sizes filled in after what follows them
pub proof fn patched<S: Archive + ?Sized>(o: &S, m: &S, s1: &S, s2: &S, s3: &S, s4: &S, s5: &S, a: Seq<Pat>, x: u32, y: u32, t: Seq<Pat>, p1: u64, p2: u64, p3: u64)
    requires wr(o, m, ((a + p32(0)) + p32(0)) + t), p1 == o.pre().len() + a.len(), p2 == p1 + 4, p3 == m.pre().len(),
        at(m, s1, p1), wr(s1, s2, p32(x)), at(s2, s3, p2), wr(s3, s4, p32(y)), at(s4, s5, p3),
    ensures wr(o, s5, ((a + p32(x)) + p32(y)) + t),
{
    p32_len(x); p32_len(y); p32_len(0);
    let q = ((a + p32(x)) + p32(y)) + t;
    let q0 = ((a + p32(0)) + p32(0)) + t;
    assert(q.len() == q0.len() && q.len() == a.len() + 8 + t.len());
    let n = o.pre().len() as int;
    assert(m.pre().len() == n + q0.len() && m.pre().take(n) == o.pre() && fit(m.pre().skip(n), q0) && m.post() == (if o.post().len() <= q.len() { Seq::empty() } else { o.post().skip(q.len() as int) }) && m.ov() == o.ov() && m.o5() == o.o5() && m.cv() == o.cv()) by { reveal(wr); }
    over(m, s1, s2, p32(x), p1);
    over(s2, s3, s4, p32(y), p2);
    moved(s4, s5, p3);
    let w = whole(s4);
    assert(s5.ov() == o.ov() && s5.o5() == o.o5() && s5.cv() == o.cv()) by { reveal(wr); }
    assert(s5.post() =~= m.post()) by { assert forall|z: int| 0 <= z < m.post().len() implies s5.post()[z] == m.post()[z] by { assert(w[p3 + z] == whole(s2)[p3 + z]); assert(whole(s2)[p3 + z] == whole(m)[p3 + z]); } }
    assert(s5.pre().take(n) =~= o.pre()) by { assert forall|z: int| 0 <= z < n implies s5.pre()[z] == o.pre()[z] by { assert(w[z] == whole(s2)[z]); assert(whole(s2)[z] == whole(m)[z]); assert(m.pre().take(n)[z] == m.pre()[z]); } }
    let b = s5.pre().skip(n);
    assert forall|z: int| 0 <= z < b.len() implies fits(#[trigger] b[z], q[z]) by {
        let g = n + z;
        assert(b[z] == w[g]);
        if p2 <= g < p2 + 4 { assert(q[z] == p32(y)[g - p2]); }
        else {
            assert(w[g] == whole(s2)[g]);
            if p1 <= g < p2 { assert(q[z] == p32(x)[g - p1]); }
            else { assert(whole(s2)[g] == whole(m)[g]); assert(m.pre().skip(n)[z] == whole(m)[g]); assert(q[z] == q0[z]); assert(fits(m.pre().skip(n)[z], q0[z])); }
        }
    }
    assert(wr(o, s5, q)) by { reveal(wr); }
}
}
use pos::*;
// ---- bytecode (K01) ----
#[verifier::external_body]
pub struct KismetExpression { x: u8 }
pub uninterp spec fn pk(v: KismetExpression) -> Seq<Pat>;
pub uninterp spec fn ksz(v: KismetExpression) -> nat;
pub open spec fn fk() -> spec_fn(KismetExpression) -> Seq<Pat> { |v: KismetExpression| pk(v) }
pub open spec fn ksum(s: Seq<KismetExpression>, n: nat) -> nat decreases n { if n == 0 { 0 } else { ksum(s, (n - 1) as nat) + ksz(s[n - 1]) } }
impl KismetExpression {
    #[verifier::external_body]
    pub fn new<S: ArchiveReaderX>(asset: &mut S) -> (r: Result<KismetExpression, Error>) ensures kin(old(asset), final(asset)), r is Ok ==> rd(old(asset), final(asset), pk(r->Ok_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<S: ArchiveWriterX>(e: &KismetExpression, asset: &mut S) -> (r: Result<usize, Error>) ensures r is Ok ==> wr(old(asset), final(asset), pk(*e)) && r->Ok_0 == ksz(*e) { unimplemented!() }
}
/// expressions in memory are smaller than the address space
#[verifier::external_body]
pub fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
/// whether the package is recent enough for its bytecode to be taken apart; either way of keeping it is covered
#[verifier::external_body]
pub fn vx_engine<S: Archive>(asset: &S) -> bool { unimplemented!() }

pub open spec fn ffp(c: Ctx) -> spec_fn(FProperty) -> Seq<Pat> { |v: FProperty| pfp(v, c) }
pub open spec fn pfprops(s: Seq<FProperty>, c: Ctx) -> Seq<Pat> { if cvn::<FCoreObjectVersion>(c.cv) >= FCoreObjectVersion_FProperties { plist(s, ffp(c)) } else { Seq::empty() } }
pub open spec fn pstruct_a(v: StructExport, c: Ctx) -> Seq<Pat> {
    ((((pnormal(v.normal_export, c) + pskip(c)) + pfield(v.field, c)) + pidx(v.super_struct)) + plist(v.children@, fidx())) + pfprops(v.loaded_properties@, c)
}
/// the script: its size in memory, its size here, its expressions; the size in memory is computed again on writing
pub open spec fn pscript(v: StructExport, c: Ctx) -> Seq<Pat> {
    match v.script_bytecode {
        Some(k) => (p32(if c.exact { ksum(k@, k@.len()) as u32 } else { v.script_bytecode_size as u32 }) + p32(pseq(k@, k@.len(), fk()).len() as u32)) + pseq(k@, k@.len(), fk()),
        None => (p32(v.script_bytecode_size as u32) + p32(v.script_bytecode_raw->0@.len() as u32)) + pblob(v.script_bytecode_raw->0@),
    }
}
pub open spec fn pstruct(v: StructExport, c: Ctx) -> Seq<Pat> { pstruct_a(v, c) + pscript(v, c) }
pub open spec fn ok_struct(v: StructExport, c: Ctx) -> bool {
    &&& ok_field(v.field, c) && (v.script_bytecode is None) == (v.script_bytecode_raw is Some)
    &&& cvn::<FCoreObjectVersion>(c.cv) < FCoreObjectVersion_FProperties ==> v.loaded_properties@.len() == 0
    &&& forall|i: int| 0 <= i < v.loaded_properties@.len() ==> ok_fp(#[trigger] v.loaded_properties@[i])
}
pub proof fn i32_u64(n: i32) ensures (n as u64) as u32 == n as u32, n >= 0 ==> n as u64 == n, n < 0 ==> n as u64 >= 0xffff_ffff_8000_0000u64 { assert((n as u64) as u32 == n as u32) by (bit_vector); assert(n < 0 ==> n as u64 >= 0xffff_ffff_8000_0000u64) by (bit_vector); assert(n >= 0 ==> n as u64 == n as u32) by (bit_vector); }

//@ fn unreal_asset/unreal_asset_exports/src/struct_export.rs StructExport read_bytecode params=asset,start_offset,storage_size attr="#[verifier::loop_isolation(false)];#[verifier::exec_allows_no_decreases_clause]"
    requires start_offset == old(asset).pre().len(),
    ensures kin(old(asset), final(asset)), r is Ok ==> rd(old(asset), final(asset), pseq(r->Ok_0@, r->Ok_0@.len(), fk())) && pseq(r->Ok_0@, r->Ok_0@.len(), fk()).len() == storage_size as u64,
//@ at pre-loop 0
    proof { rd_nil(asset); }
//@ loop 0
    invariant rd(old(asset), asset, pseq(code@, code@.len(), fk())), kin(old(asset), asset), asset.pre().len() == old(asset).pre().len() + pseq(code@, code@.len(), fk()).len(),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, code@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, fk()(code@.last()))); pseq_push(Seq::empty(), r1, code@.last(), fk()); rd_kin(old(asset), asset, pseq(code@, code@.len(), fk())); }
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/struct_export.rs StructExport
//@ fn unreal_asset/unreal_asset_exports/src/struct_export.rs StructExport from_base params=base,asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd(old(asset), final(asset), pstruct(r->Ok_0, rc(old(asset)))) && r->Ok_0.normal_export.base_export == *base && ok_struct(r->Ok_0, rc(old(asset))),
//@ at pre-loop 0
    proof { cap(num_index_entries); }
    let ghost vx_p0 = ((((pnormal(normal_export, rc(old(asset))) + pskip(rc(old(asset)))) + pfield(field, rc(old(asset)))) + pidx(super_struct))) + p32(num_index_entries as u32);
//@ loop 0 it=it
    invariant children@.len() == it.index(), rd(old(asset), asset, vx_p0 + pseq(children@, children@.len(), fidx())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, children@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, fidx()(children@.last()))); pseq_push(vx_p0, r1, children@.last(), fidx()); }
//@ at post-loop 0
    proof { pat_assoc((((pnormal(normal_export, rc(old(asset))) + pskip(rc(old(asset)))) + pfield(field, rc(old(asset)))) + pidx(super_struct)), p32(num_index_entries as u32), pseq(children@, children@.len(), fidx())); assert(children@.len() as u32 == num_index_entries as u32); }
//@ at pre-loop 1
    proof { cap(num_props); }
    let ghost vx_p1 = ((((pnormal(normal_export, rc(old(asset))) + pskip(rc(old(asset)))) + pfield(field, rc(old(asset)))) + pidx(super_struct)) + plist(children@, fidx())) + p32(num_props as u32);
//@ loop 1 it=it
    invariant props@.len() == it.index(), rd(old(asset), asset, vx_p1 + pseq(props@, props@.len(), ffp(rc(old(asset))))), forall|i: int| 0 <= i < props@.len() ==> ok_fp(#[trigger] props@[i]),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, props@);
//@ at loop-end 1
    proof { assert(rd(&a1, asset, ffp(rc(old(asset)))(props@.last()))); pseq_push(vx_p1, r1, props@.last(), ffp(rc(old(asset)))); }
//@ at post-loop 1
    proof { pat_assoc((((pnormal(normal_export, rc(old(asset))) + pskip(rc(old(asset)))) + pfield(field, rc(old(asset)))) + pidx(super_struct)) + plist(children@, fidx()), p32(num_props as u32), pseq(props@, props@.len(), ffp(rc(old(asset))))); assert(props@.len() as u32 == num_props as u32); }
//@ rw! asset\.get_engine_version\(\) >= EngineVersion::VER_UE4_16 ==> vx_engine(asset)
//@ rw! let start_offset = ==> proof { assert(rd(old(asset), asset, ((((((pnormal(normal_export, rc(old(asset))) + pskip(rc(old(asset)))) + pfield(field, rc(old(asset)))) + pidx(super_struct)) + plist(children@, fidx())) + pfprops(loaded_properties@, rc(old(asset)))) + p32(script_bytecode_size as u32)) + p32(script_storage_size as u32))); i32_u64(script_storage_size); } let ghost b0 = *asset; let start_offset =
//@ rw! StructExport::(?:<Index>::)?read_bytecode ==> StructExport::read_bytecode
//@ rw! (asset\.seek\(SeekFrom::Start\(start_offset\)\)\?;) ==> let ghost b1 = *asset; \1 proof { back(&b0, &b1, asset); rd_view(old(asset), &b0, asset, ((((((pnormal(normal_export, rc(old(asset))) + pskip(rc(old(asset)))) + pfield(field, rc(old(asset)))) + pidx(super_struct)) + plist(children@, fidx())) + pfprops(loaded_properties@, rc(old(asset)))) + p32(script_bytecode_size as u32)) + p32(script_storage_size as u32)); } let ghost b2 = *asset;
//@ rw! Some\(data\)\s*\} ==> proof { cap(script_storage_size); } Some(data) }
//@ at before-tail
    proof {
        let v = StructExport { normal_export, field, super_struct, children, loaded_properties, script_bytecode, script_bytecode_size, script_bytecode_raw };
        let a = pstruct_a(v, rc(old(asset))); let (x, y) = (p32(script_bytecode_size as u32), p32(script_storage_size as u32));
        pat_assoc(a, x, y);
        let z = if script_bytecode is Some { pseq(script_bytecode->0@, script_bytecode->0@.len(), fk()) } else { pblob(script_bytecode_raw->0@) };
        pat_assoc(a, x + y, z); assert(rd(old(asset), asset, ((a + x) + y) + z));
        assert(rd(old(asset), asset, a + pscript(v, rc(old(asset)))));
    }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/struct_export.rs "ExportTrait for StructExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pstruct(*self, wc(old(asset)))),
//@ at pre-loop 0
    let ghost vx_p0 = ((((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pfield(self.field, wc(old(asset)))) + pidx(self.super_struct))) + p32(self.children.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.children@), wr(old(asset), asset, vx_p0 + pseq(self.children@, it.index() as nat, fidx())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fidx()(self.children@[it.index() as int]))); pseq_step(vx_p0, self.children@, it.index() as nat, fidx()); }
//@ at post-loop 0
    proof { pat_assoc((((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pfield(self.field, wc(old(asset)))) + pidx(self.super_struct)), p32(self.children.len() as u32), pseq(self.children@, self.children@.len(), fidx())); }
//@ at pre-loop 1
    let ghost vx_p1 = ((((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pfield(self.field, wc(old(asset)))) + pidx(self.super_struct)) + plist(self.children@, fidx())) + p32(self.loaded_properties.len() as u32);
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.loaded_properties@), wr(old(asset), asset, vx_p1 + pseq(self.loaded_properties@, it.index() as nat, ffp(wc(old(asset))))),
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, ffp(wc(old(asset)))(self.loaded_properties@[it.index() as int]))); pseq_step(vx_p1, self.loaded_properties@, it.index() as nat, ffp(wc(old(asset)))); }
//@ at post-loop 1
    proof { pat_assoc((((pnormal(self.normal_export, wc(old(asset))) + pskip(wc(old(asset)))) + pfield(self.field, wc(old(asset)))) + pidx(self.super_struct)) + plist(self.children@, fidx()), p32(self.loaded_properties.len() as u32), pseq(self.loaded_properties@, self.loaded_properties@.len(), ffp(wc(old(asset))))); }
//@ rw! total_offset \+= KismetExpression::write\(expression, asset\)\?; ==> let vx_s = KismetExpression::write(expression, asset)?; total_offset = vx_add(total_offset, vx_s);
//@ rw! let len_offset_1 = ==> proof { assert(wr(old(asset), asset, pstruct_a(*self, wc(old(asset))))); } let ghost vx_a = pstruct_a(*self, wc(old(asset))); let len_offset_1 =
//@ loop 2 it=it
    invariant it.seq() == refs_of(bytecode@), wr(old(asset), asset, ((vx_a + p32(0)) + p32(0)) + pseq(bytecode@, it.index() as nat, fk())), total_offset == ksum(bytecode@, it.index() as nat),
//@ at loop-start 2
    let ghost a1 = *asset;
//@ at loop-end 2
    proof { assert(wr(&a1, asset, fk()(bytecode@[it.index() as int]))); pseq_step((vx_a + p32(0)) + p32(0), bytecode@, it.index() as nat, fk()); }
//@ at post-loop 2
    proof { pseq_pos(bytecode@, bytecode@.len(), fk()); } let ghost m0 = *asset;
//@ rw! (asset\.seek\(SeekFrom::Start\(len_offset_1\)\)\?;) ==> \1 let ghost m1 = *asset;
//@ rw! (asset\.seek\(SeekFrom::Start\(len_offset_2\)\)\?;) ==> let ghost m2 = *asset; \1 let ghost m3 = *asset;
//@ rw! (asset\.seek\(SeekFrom::Start\(end\)\)\?;) ==> let ghost m4 = *asset; \1 proof { let (x, y, z) = (total_offset as u32, total_len as u32, pseq(bytecode@, bytecode@.len(), fk())); usz_cast(total_offset); u64_cast(total_len); patched(old(asset), &m0, &m1, &m2, &m3, &m4, asset, vx_a, x, y, z, len_offset_1, len_offset_2, end); pat_assoc(vx_a, p32(x), p32(y)); pat_assoc(vx_a, p32(x) + p32(y), z); assert(wr(old(asset), asset, vx_a + pscript(*self, wc(old(asset))))); }
//@ rw! (asset\.write_all\(raw_bytecode\)\?;) ==> \1 proof { let (a, x, y, z) = (pstruct_a(*self, wc(old(asset))), p32(self.script_bytecode_size as u32), p32(raw_bytecode@.len() as u32), pblob(raw_bytecode@)); pat_assoc(a, x, y); pat_assoc(a, x + y, z); assert(wr(old(asset), asset, ((a + x) + y) + z)); }
//@ end
pub proof fn usz_cast(n: usize) ensures (n as i32) as u32 == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); }
pub proof fn u64_cast(n: u64) ensures (n as i32) as u32 == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); }
pub proof fn pseq_pos<T>(s: Seq<T>, n: nat, f: spec_fn(T) -> Seq<Pat>) ensures pseq(s, n, f).len() >= 0 {}

pub open spec fn pfunc(v: FunctionExport, c: Ctx) -> Seq<Pat> { pstruct(v.struct_export, c) + p32(v.function_flags.b) }
//@ struct unreal_asset/unreal_asset_exports/src/function_export.rs FunctionExport
//@ fn unreal_asset/unreal_asset_exports/src/function_export.rs FunctionExport from_base params=base,asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd(old(asset), final(asset), pfunc(r->Ok_0, rc(old(asset)))) && r->Ok_0.struct_export.normal_export.base_export == *base && ok_struct(r->Ok_0.struct_export, rc(old(asset))),
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/function_export.rs "ExportTrait for FunctionExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), pfunc(*self, wc(old(asset)))),
//@ end
pub open spec fn puds(v: UserDefinedStructExport, c: Ctx) -> Seq<Pat> { (pstruct(v.struct_export, c) + p32(v.flags.b)) + pprops(v.default_struct_instance@, c) }
//@ struct unreal_asset/unreal_asset_exports/src/user_defined_struct_export.rs UserDefinedStructExport
//@ fn unreal_asset/unreal_asset_exports/src/user_defined_struct_export.rs UserDefinedStructExport from_base params=base,asset attr="#[verifier::loop_isolation(false)];#[verifier::allow_complex_invariants];#[verifier::exec_allows_no_decreases_clause]"
    ensures r is Ok ==> rd(old(asset), final(asset), puds(r->Ok_0, rc(old(asset)))) && r->Ok_0.struct_export.normal_export.base_export == *base && ok_struct(r->Ok_0.struct_export, rc(old(asset))),
//@ rw! while let Some\(e\) =\s*Property::new\(asset, ancestry\.clone\(\), unversioned_header\.as_mut\(\), (\w+)\)\?\s*\{ ==> loop { let e = match Property::vx_new(asset, vx_dup(&ancestry), \1)? { Some(x) => x, None => break };
//@ at pre-loop 0
    let ghost vx_p = pstruct(struct_export, rc(old(asset))) + p32(flags.b);
    proof { rd_nil(asset); }
//@ loop 0
    invariant_except_break rd(old(asset), asset, vx_p + pseq(default_struct_instance@, default_struct_instance@.len(), fprop(rc(old(asset))))), rc(asset) == rc(old(asset)),
    ensures rd(old(asset), asset, vx_p + pprops(default_struct_instance@, rc(old(asset)))),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, default_struct_instance@);
    proof { pat_assoc(vx_p, pseq(r1, r1.len(), fprop(rc(old(asset)))), ptn("None"@)); }
//@ at loop-end 0
    proof { let f = fprop(rc(old(asset))); assert(rd(&a1, asset, f(default_struct_instance@.last()))); pseq_push(vx_p, r1, default_struct_instance@.last(), f); }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/user_defined_struct_export.rs "ExportTrait for UserDefinedStructExport" write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), puds(*self, wc(old(asset)))),
//@ at pre-loop 0
    let ghost vx_p0 = pstruct(self.struct_export, wc(old(asset))) + p32(self.flags.b);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.default_struct_instance@), wr(old(asset), asset, vx_p0 + pseq(self.default_struct_instance@, it.index() as nat, fprop(wc(old(asset))))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fprop(wc(old(asset)))(self.default_struct_instance@[it.index() as int]))); pseq_step(vx_p0, self.default_struct_instance@, it.index() as nat, fprop(wc(old(asset)))); }
//@ at post-loop 0
    proof { pat_assoc(pstruct(self.struct_export, wc(old(asset))) + p32(self.flags.b), pseq(self.default_struct_instance@, self.default_struct_instance@.len(), fprop(wc(old(asset)))), ptn("None"@)); }
//@ end
//@ struct unreal_asset/unreal_asset_exports/src/class_export.rs SerializedInterfaceReference
//@ fn unreal_asset/unreal_asset_exports/src/class_export.rs SerializedInterfaceReference new params=class,pointer_offset,implemented_by_k2
    ensures r.class == class && r.pointer_offset == pointer_offset && r.implemented_by_k2 == implemented_by_k2,
//@ end
pub open spec fn notplaceable() -> u32 { np_() }
pub uninterp spec fn np_() -> u32;
#[verifier::external_body]
pub fn vx_not_placeable() -> (r: EClassFlags) ensures r.b == notplaceable() { unimplemented!() }
impl EClassFlags { pub fn vx_xor(self, o: EClassFlags) -> (r: EClassFlags) ensures r.b == self.b ^ o.b { EClassFlags { b: self.b ^ o.b } } }
pub proof fn xor2(a: u32, k: u32) ensures (a ^ k) ^ k == a { assert((a ^ k) ^ k == a) by (bit_vector); }
pub open spec fn fif(c: Ctx) -> spec_fn(SerializedInterfaceReference) -> Seq<Pat> { |v: SerializedInterfaceReference| (pidx(v.class) + p32(v.pointer_offset as u32)) + pflag1(v.implemented_by_k2, c) }
pub proof fn fif_len(c: Ctx) ensures forall|v: SerializedInterfaceReference| (#[trigger] fif(c)(v)).len() == 12 { p32_len(1); p32_len(0); }
pub open spec fn pcflags(v: EClassFlags, c: Ctx) -> Seq<Pat> { p32(if on(c.ov) < on(ObjectVersion::VER_UE4_CLASS_NOTPLACEABLE_ADDED) { v.b ^ notplaceable() } else { v.b }) }
/// interfaces are stored before or behind the class's generator
pub open spec fn early(c: Ctx) -> bool { on(c.ov) < on(ObjectVersion::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING) }
pub open spec fn pgen(i: Seq<SerializedInterfaceReference>, g: PackageIndex, c: Ctx) -> Seq<Pat> { if early(c) { plist(i, fif(c)) + pidx(g) } else { pidx(g) + plist(i, fif(c)) } }
/// the name None; the reader ignores it
pub open spec fn pnone(c: Ctx) -> Seq<Pat> { if c.exact { ptn("None"@) } else { anyb(8) } }
pub proof fn rd_any64<S: Archive + ?Sized>(a: &S, b: &S, v: u64) requires rd(a, b, p64(v)) ensures rd(a, b, anyb(8)) { reveal(rd); p64_len(v); }
pub open spec fn pcooked(v: Option<bool>, c: Ctx) -> Seq<Pat> { if on(c.ov) >= on(ObjectVersion::VER_UE4_ADD_COOKED_TO_UCLASS) { pflag1(v->0, c) } else { Seq::empty() } }
/// the sum or product, where it fits
#[verifier::external_body]
pub fn vx_sum(a: u64, b: u64) -> (r: u64) ensures a + b <= u64::MAX ==> r == a + b { a.wrapping_add(b) }
#[verifier::external_body]
pub fn vx_mul(a: u64, b: u64) -> (r: u64) ensures a * b <= u64::MAX ==> r == a * b { a.wrapping_mul(b) }
pub proof fn i32_same(a: i32, b: i32) requires a as u32 == b as u32 ensures a == b { assert(a as u32 == b as u32 ==> a == b) by (bit_vector); }
pub proof fn num_inj<S: Archive + ?Sized>(a: &S, x: &S, b: &S, y: &S, m: u32, n: u32)
    requires rd(a, x, p32(m)), rd(b, y, p32(n)), view(a, b) ensures m == n
{
    reveal(rd); reveal(p32); le32_len(m); le32_len(n);
    let t = a.post().take(4);
    assert(t.len() == 4 && lit(le32(m)).len() == 4 && lit(le32(n)).len() == 4);
    assert(fit(t, lit(le32(m)))); assert(fit(t, lit(le32(n))));
    assert forall|i: int| 0 <= i < 4 implies le32(m)[i] == le32(n)[i] by { assert(fits(t[i], lit(le32(m))[i])); assert(fits(t[i], lit(le32(n))[i])); }
    assert(le32(m) =~= le32(n)); le32_inj(m, n);
}
/// what was read behind a list, then the list, then past both
pub proof fn skipped<S: Archive + ?Sized>(s0: &S, k0: &S, s1: &S, s2: &S, s3: &S, s4: &S, s5: &S, i: Seq<Pat>, g: Seq<Pat>)
    requires kin(s0, k0), at(k0, s1, (s0.pre().len() + i.len()) as u64), s0.pre().len() + i.len() + g.len() <= u64::MAX, rd(s1, s2, g), g.len() > 0,
        view(s0, s3), rd(s3, s4, i), at(s4, s5, s2.pre().len() as u64),
    ensures rd(s0, s5, i + g),
{
    rd_kin(s1, s2, g); rd_kin(s3, s4, i);
    let p = (s0.pre().len() + i.len()) as u64;
    let w = whole(s0);
    assert(p <= w.len());
    moved(k0, s1, p);
    assert(kin(s1, s2));
    assert(whole(s1) == w);
    assert(s2.pre().len() == p + g.len());
    assert(w.len() == s0.pre().len() + s0.post().len());
    assert(whole(s2).len() == s2.pre().len() + s2.post().len());
    moved(s4, s5, s2.pre().len() as u64);
    reveal(rd);
    let (a, n, m) = (s0.pre().len() as int, i.len() as int, g.len() as int);
    assert(s5.pre() =~= s0.pre() + s0.post().take(n + m));
    assert(s5.post() =~= s0.post().skip(n + m));
    let t = s0.post().take(n + m);
    assert forall|z: int| 0 <= z < t.len() implies fits(#[trigger] t[z], (i + g)[z]) by {
        if z < n { assert(s3.post().take(n)[z] == t[z]); } else { assert(s1.post().take(m)[z - n] == w[a + z]); assert(s1.post().take(m)[z - n] == t[z]); }
    }
}
//@ struct unreal_asset/unreal_asset_exports/src/class_export.rs ClassExport
pub open spec fn pclass_a(v: ClassExport, t: Ent<FName, PackageIndex>, c: Ctx) -> Seq<Pat> { (((pstruct(v.struct_export, c) + pent(t, ffe())) + pcflags(v.class_flags, c)) + pidx(v.class_within)) + pname(v.class_config_name) }
pub open spec fn pclass(v: ClassExport, t: Ent<FName, PackageIndex>, c: Ctx) -> Seq<Pat> {
    ((((pclass_a(v, t, c) + pgen(v.interfaces@, v.class_generated_by, c)) + pflag1(v.deprecated_force_script_order, c)) + pnone(c)) + pcooked(v.cooked, c)) + pidx(v.class_default_object)
}
pub open spec fn pclass_w(v: ClassExport, c: Ctx) -> Seq<Pat> { pclass(v, ent_w(v.func_map.e()), c) }
pub open spec fn rd_class<S: Archive + ?Sized>(a: &S, b: &S, v: ClassExport) -> bool { exists|t: Ent<FName, PackageIndex>| #[trigger] ent_ok(t, v.func_map.e()) && rd(a, b, pclass(v, t, rc(a))) }
//@ fn unreal_asset/unreal_asset_exports/src/class_export.rs ClassExport serialize_interfaces params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), plist(self.interfaces@, fif(wc(old(asset))))),
//@ at pre-loop 0
    let ghost vx_p0 = p32(self.interfaces.len() as u32);
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.interfaces@), wr(old(asset), asset, vx_p0 + pseq(self.interfaces@, it.index() as nat, fif(wc(old(asset))))),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, fif(wc(old(asset)))(self.interfaces@[it.index() as int]))); pseq_step(vx_p0, self.interfaces@, it.index() as nat, fif(wc(old(asset)))); }
//@ end

//@ fn unreal_asset/unreal_asset_exports/src/class_export.rs ClassExport from_base params=base,asset attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"
    ensures r is Ok ==> rd_class(old(asset), final(asset), r->Ok_0) && r->Ok_0.struct_export.normal_export.base_export == *base && ok_struct(r->Ok_0.struct_export, rc(old(asset))) && (r->Ok_0.cooked is Some) == (on(rc(old(asset)).ov) >= on(ObjectVersion::VER_UE4_ADD_COOKED_TO_UCLASS)),
//@ rw! asset\.read_i32::<LE>\(\)\? == 1 ==> vx_is1(asset)?
//@ rw! let num_func_index_entries = asset\.read_i32::<LE>\(\)\? as usize; ==> let vx_n = asset.read_i32::<LE>()?; let num_func_index_entries = vx_n as usize;
//@ rw! let function_export = (.*?); ==> let function_export = \1; let ghost kv = (name, function_export);
//@ rw! class_flags \^= EClassFlags::CLASS_NOT_PLACEABLE ==> proof { xor2(class_flags.b, notplaceable()); } class_flags = class_flags.vx_xor(vx_not_placeable());
//@ rw! let num_interfaces = asset\.read_i32::<LE>\(\)\?; ==> let num_interfaces = asset.read_i32::<LE>()?; proof { k0 = *asset; m0 = num_interfaces; rd_kin(&s0, &k0, p32(m0 as u32)); }
//@ rw! interfaces_start\.unwrap\(\)\s*\+ size_of::<i32>\(\) as u64\s*\+ num_interfaces as u64 \* \(size_of::<i32>\(\) as u64 \* 3\), ==> { let vx_w = size_of::<i32>() as u64 * 3; let vx_t = vx_sum(vx_sum(interfaces_start.unwrap(), size_of::<i32>() as u64), vx_mul(num_interfaces as u64, vx_w)); proof { t0 = vx_t; i32_u64(m0); if m0 >= 0 { assert((m0 as u64) * (vx_w as int) == 12 * m0) by (nonlinear_arith) requires vx_w == 12, m0 as u64 == m0; assert(t0 == s0.pre().len() + 4 + 12 * m0); } } vx_t }
//@ rw! let mut interfaces_start = ==> let ghost vx_a = (((pstruct(struct_export, rc(old(asset))) + pent(s, ffe())) + pcflags(class_flags, rc(old(asset)))) + pidx(class_within)) + pname(class_config_name); let ghost s0 = *asset; let ghost mut k0 = *asset; let ghost mut m0 = 0i32; let ghost mut t0 = 0u64; proof { assert(rd(old(asset), asset, vx_a)); } let mut interfaces_start =
//@ rw! let class_generated_by = ==> let ghost s1 = *asset; let class_generated_by =
//@ rw! let current_offset = ==> let ghost s2 = *asset; let current_offset =
//@ rw! let num_interfaces = asset\.read_i32::<LE>\(\)\? as usize; ==> let ghost s3 = *asset; proof { if early(rc(old(asset))) { rd_kin(&s1, &s2, pidx(class_generated_by)); assert(kin(&s0, &s2)); back(&s0, &s2, &s3); } } let vx_m = asset.read_i32::<LE>()?; let num_interfaces = vx_m as usize; proof { if early(rc(old(asset))) { num_inj(&s0, &k0, &s3, asset, m0 as u32, vx_m as u32); i32_same(m0, vx_m); } }
//@ rw! asset\.seek\(SeekFrom::Start\(current_offset\)\)\?; ==> let ghost s4 = *asset; asset.seek(SeekFrom::Start(current_offset))?; proof { fif_len(rc(old(asset))); pseq_len(interfaces@, interfaces@.len(), fif(rc(old(asset))), 12); assert(t0 == s0.pre().len() + plist(interfaces@, fif(rc(old(asset)))).len()); skipped(&s0, &k0, &s1, &s2, &s3, &s4, asset, plist(interfaces@, fif(rc(old(asset)))), pidx(class_generated_by)); }
//@ rw! let deprecated_force_script_order = ==> proof { if !early(rc(old(asset))) { rd_trans(&s0, &s2, asset, pidx(class_generated_by), plist(interfaces@, fif(rc(old(asset))))); } assert(rd(&s0, asset, pgen(interfaces@, class_generated_by, rc(old(asset))))); assert(rd(old(asset), asset, vx_a + pgen(interfaces@, class_generated_by, rc(old(asset))))); } let deprecated_force_script_order =
//@ rw! (asset\.read_i64::<LE>\(\)\?;) ==> let ghost q = *asset; let vx_d = \1 proof { rd_any64(&q, asset, vx_d as u64); }
//@ at pre-loop 1
    proof { cap(vx_m); }
//@ at before-tail
    proof {
        let v = ClassExport { struct_export, func_map, class_flags, class_within, class_config_name, interfaces, class_generated_by, deprecated_force_script_order, cooked, class_default_object };
        assert(rd(old(asset), asset, pclass(v, s, rc(old(asset))))); assert(ent_ok(s, v.func_map.e())); assert(rd_class(old(asset), asset, v));
    }
//@ at pre-loop 0
    let ghost mut t: Seq<(FName, PackageIndex)> = Seq::empty();
    let ghost vx_p = pstruct(struct_export, rc(old(asset))) + p32(vx_n as u32);
    proof { cap(vx_n); }
//@ loop 0 it=it
    invariant t.len() == it.index(), kept(t) == func_map.e(), rd(old(asset), asset, vx_p + pseq(t, t.len(), ffe())),
//@ at loop-start 0
    let ghost a0 = *asset;
//@ at loop-end 0
    proof { let t1 = t.push(kv); kept_same(t, t1, t.len()); assert(rd(&a0, asset, ffe()(kv))); pseq_push(vx_p, t, kv, ffe()); t = t1; }
//@ at post-loop 0
    let ghost s = Ent { n: vx_n as u32, t: t };
    proof { pat_assoc(pstruct(struct_export, rc(old(asset))), p32(vx_n as u32), pseq(t, t.len(), ffe())); assert(rd(old(asset), asset, pstruct(struct_export, rc(old(asset))) + pent(s, ffe()))); assert(ent_ok(s, func_map.e())); }
//@ loop 1 it=it
    invariant interfaces@.len() == it.index(), rd(&s3, asset, p32(vx_m as u32) + pseq(interfaces@, interfaces@.len(), fif(rc(old(asset))))),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, interfaces@);
//@ at loop-end 1
    proof { assert(rd(&a1, asset, fif(rc(old(asset)))(interfaces@.last()))); pseq_push(p32(vx_m as u32), r1, interfaces@.last(), fif(rc(old(asset)))); }
//@ end
//@ fn unreal_asset/unreal_asset_exports/src/class_export.rs "ExportTrait for ClassExport" write params=asset attr="#[verifier::loop_isolation(false)];#[verifier::rlimit(80)];#[verifier::spinoff_prover]"
    ensures r is Ok ==> wr(old(asset), final(asset), pclass_w(*self, wc(old(asset)))),
//@ rw! self\.class_flags \^ EClassFlags::CLASS_NOT_PLACEABLE ==> self.class_flags.vx_xor(vx_not_placeable())
//@ at pre-loop 0
    let ghost (vx_p, vx_t) = (pstruct(self.struct_export, wc(old(asset))), self.func_map.e());
//@ loop 0 it=it
    invariant it.seq().len() == vx_t.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).1 == vx_t[i].0 && *it.seq()[i].2 == vx_t[i].1, wr(old(asset), asset, (vx_p + p32(vx_t.len() as u32)) + pseq(vx_t, it.index() as nat, ffe())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, ffe()(vx_t[it.index() as int]))); pseq_step(vx_p + p32(vx_t.len() as u32), vx_t, it.index() as nat, ffe()); }
//@ at post-loop 0
    proof { pat_assoc(vx_p, p32(vx_t.len() as u32), pseq(vx_t, vx_t.len(), ffe())); assert(wr(old(asset), asset, vx_p + pent(ent_w(vx_t), ffe()))); }
//@ rw! asset\.write_i32::<LE>\(match self\.deprecated_force_script_order ==> proof { let (a, i, g) = (pclass_a(*self, ent_w(vx_t), wc(old(asset))), plist(self.interfaces@, fif(wc(old(asset)))), pidx(self.class_generated_by)); pat_assoc(a, i, g); pat_assoc(a, g, i); assert(wr(old(asset), asset, a + pgen(self.interfaces@, self.class_generated_by, wc(old(asset))))); } asset.write_i32::<LE>(match self.deprecated_force_script_order
//@ end
fn main() {}
}
