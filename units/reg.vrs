#![allow(warnings)]
use vstd::prelude::*;
verus! {
// Asset registry records: every reader and writer against one stored form per record kind and registry version.
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/strs.rs
}
use base::*;
global size_of usize == 8;
pub enum Error { Any }
pub trait ByteOrder { spec fn little() -> bool; }
pub struct LE;
pub struct BE;
impl ByteOrder for LE { open spec fn little() -> bool { true } }
impl ByteOrder for BE { open spec fn little() -> bool { false } }
#[verifier::external_body]
pub struct FName { x: u8 }
pub struct Guid(pub [u8; 16]);
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=on
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=o5n
//@ enum unreal_asset/unreal_asset_base/src/custom_version.rs FAssetRegistryVersionType derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=vn
macro_rules! cmp_as { ($t:ident, $n:ident) => { verus! {
impl vstd::std_specs::cmp::PartialEqSpecImpl for $t {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &$t) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$t) -> Option<core::cmp::Ordering> {
        if $n(*self) < $n(*o) { Some(core::cmp::Ordering::Less) } else if $n(*self) == $n(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
} } }
cmp_as!(ObjectVersion, on);
cmp_as!(ObjectVersionUE5, o5n);
cmp_as!(FAssetRegistryVersionType, vn);
pub mod arch {
use vstd::prelude::*;
use super::*;
//@ include prelude/arch.rs
//@ include prelude/archx.rs
}
use arch::*;
broadcast use {group_arch, group_plen, pname_len, casts::cnt_cast};
pub open spec fn refs_of<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

// ---- what surrounds the lifted code ----
//@ rewrite <\s*impl PackageIndexTrait\s*> ==>
//@ rewrite \bArchiveReader\b ==> ArchiveReaderX
//@ rewrite \bArchiveWriter\b ==> ArchiveWriterX
// read_array(|asset| X) is written out as what read_array does: the count, then X that many times (see vx_read_array below)
//@ rewrite asset\.read_array\(\s*\|asset: &mut Reader\| ([^;]*?),?\s*\)\?(\)?;) ==> { let ghost vx_a0 = *asset; let vx_len = asset.read_i32::<LE>()?; let mut vx_arr = vx_with_capacity(vx_len as usize); for _ in 0..vx_len { let vx_e: Result<_, Error> = \1; vx_arr.push(vx_e?); } vx_arr }\2
//@ rewrite \.ok_or_else\(\s*\|\|\s*\{?\s*(Error|RegistryError)::\w+\([^|;]*?\)\s*\}?\s*\)\? ==> .ok_or(Error::Any)?
//@ rewrite Err\(Error::invalid_file\(\s*".*?"\.to_string\(\),?\s*\)\) ==> Err(Error::Any)
//@ rewrite Err\(RegistryError::InvalidIndex\((\*?\w+)\)\.into\(\)\) ==> Err(Error::Any)
//@ rewrite (\w+)\.as_deref\(\) ==> vx_deref(\1)
//@ rewrite depends_node\.clone\(\) ==> vx_clone(depends_node)
//@ rewrite EPackageFlags::from_bits\((.*?)\)\s*\.ok_or\(Error::Any\) ==> vx_flags(\1)
pub fn vx_deref<'a>(s: &'a Option<String>) -> (r: Option<&'a str>) ensures dv(r) == sv(*s) { match s { Some(x) => Some(x.as_str()), None => None } }
pub struct EPackageFlags { pub b: u32 }
impl EPackageFlags { pub fn bits(&self) -> (r: u32) ensures r == self.b { self.b } }
pub uninterp spec fn known_flags(v: u32) -> bool;
#[verifier::external_body]
pub fn vx_flags(v: u32) -> (r: Result<EPackageFlags, Error>) ensures r is Ok ==> r->Ok_0.b == v, r is Ok == known_flags(v) { unimplemented!() }
/// tags in iteration order; insertion of a new key goes last (unit imap, C01)
#[verifier::external_body]
pub struct Tags { x: u8 }
pub type Tag = (FName, Option<Seq<char>>);
impl Tags {
    pub uninterp spec fn e(&self) -> Seq<Tag>;
    #[verifier::external_body]
    pub fn new() -> (r: Tags) ensures r.e() == Seq::<Tag>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: FName, v: Option<String>) ensures final(self).e() == ins(old(self).e(), (k, sv(v))) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.e().len() { unimplemented!() }
}
pub open spec fn has(s: Seq<Tag>, k: FName) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub uninterp spec fn replaced(s: Seq<Tag>, t: Tag) -> Seq<Tag>;
pub open spec fn ins(s: Seq<Tag>, t: Tag) -> Seq<Tag> { if has(s, t.0) { replaced(s, t) } else { s.push(t) } }
/// the tags that are kept of a stored list
pub open spec fn kept_(s: Seq<Tag>, n: nat) -> Seq<Tag> decreases n { if n == 0 { Seq::empty() } else { ins(kept_(s, (n - 1) as nat), s[n - 1]) } }
pub open spec fn kept(s: Seq<Tag>) -> Seq<Tag> { kept_(s, s.len()) }
pub proof fn kept_same(s: Seq<Tag>, t: Seq<Tag>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i]
    ensures kept_(s, n) == kept_(t, n) decreases n
{ if n > 0 { kept_same(s, t, (n - 1) as nat); } }
/// a list without repeated keys is kept as it is
pub proof fn kept_distinct(s: Seq<Tag>, n: nat)
    requires n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures kept_(s, n) == s.take(n as int) decreases n
{
    if n > 0 {
        kept_distinct(s, (n - 1) as nat);
        let t = s.take(n - 1);
        if has(t, s[n - 1].0) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == s[n - 1].0; assert(s[i].0 == s[n - 1].0); }
        assert(s.take(n as int) =~= t.push(s[n - 1]));
    } else { assert(s.take(0) =~= Seq::empty()); }
}
pub struct Entries<'a> { pub v: Vec<(usize, &'a FName, &'a Option<String>)> }
#[verifier::external_body]
pub fn vx_entries<'a>(t: &'a Tags) -> (r: Vec<(usize, &'a FName, &'a Option<String>)>)
    ensures r@.len() == t.e().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).1 == t.e()[i].0 && sv(*r@[i].2) == t.e()[i].1
{ unimplemented!() }
//@ rewrite IndexedMap<FName, Option<String>> ==> Tags
//@ rewrite IndexedMap::new ==> Tags::new
#[verifier::external_body]
pub struct AssetBundleData { x: u8 }
impl AssetBundleData { #[verifier::external_body] pub fn default() -> AssetBundleData { unimplemented!() } }
#[verifier::external_body]
pub struct Mappings { x: u8 }
#[verifier::external_body]
pub struct Bits { x: u8 }
//@ rewrite BitVec<u32, Lsb0> ==> Bits
//@ rewrite &'static \[\(EngineVersion, i32\)\] ==> Mappings

// ---- machine integers ----
pub mod casts { use vstd::prelude::*;
pub broadcast proof fn cnt_cast(n: usize) ensures #[trigger] ((n as i32) as u32) == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); } }
pub proof fn cap(n: i32) requires (n as usize) <= isize::MAX ensures n >= 0 { assert(n < 0 ==> (n as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector); }

// ---- read_array itself ----
pub trait Getter<S: ArchiveReaderX, T> {
    spec fn enc(v: T) -> Seq<Pat>;
    fn go(&self, s: &mut S) -> (r: Result<T, Error>) ensures r is Ok ==> rd(old(s), final(s), Self::enc(r->Ok_0));
}
/// only returns when that much can be allocated
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty(), n <= isize::MAX { Vec::with_capacity(n) }
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_reader.rs "trait ArchiveReader" read_array_with_length mode=free self=S igen="<S: ArchiveReaderX>" gen="<T, G: Getter<S, T>>" params=length,getter attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> r->Ok_0@.len() == length && rd(old(this), final(this), pseq(r->Ok_0@, length as nat, |v: T| G::enc(v))),
//@ rw impl Fn\(&mut Self\) -> Result<T, Error> ==> G
//@ rw Vec::with_capacity ==> vx_with_capacity
//@ rw getter\(self\) ==> getter.go(self)
//@ at pre-loop 0
    proof { cap(length); rd_nil(this); }
//@ loop 0 it=it
    invariant array@.len() == it.index(), rd(old(this), this, pseq(array@, array@.len(), |v: T| G::enc(v))),
//@ at loop-start 0
    let ghost a0 = array@;
//@ at loop-end 0
    proof { let f = |v: T| G::enc(v); pseq_push(Seq::empty(), a0, array@.last(), f); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_reader.rs "trait ArchiveReader" read_array mode=free self=S igen="<S: ArchiveReaderX>" gen="<T, G: Getter<S, T>>" params=getter
    ensures r is Ok ==> rd(old(this), final(this), p32(r->Ok_0@.len() as u32) + pseq(r->Ok_0@, r->Ok_0@.len(), |v: T| G::enc(v))),
//@ rw impl Fn\(&mut Self\) -> Result<T, Error> ==> G
//@ rw self\.read_array_with_length\( ==> read_array_with_length(self, 
//@ end

// ---- names of records ----
//@ struct unreal_asset/unreal_asset_registry/src/objects/asset_data.rs TopLevelAssetPath
pub open spec fn s_path(v: TopLevelAssetPath) -> Seq<Pat> { pname(v.package_name) + pname(v.asset_name) }
//@ fn unreal_asset/unreal_asset_registry/src/objects/asset_data.rs TopLevelAssetPath new params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), s_path(r->Ok_0)),
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/asset_data.rs TopLevelAssetPath write params=writer
    ensures r is Ok ==> wr(old(writer), final(writer), s_path(*self)),
//@ end

// ---- cooked hash: any non-zero marker reads as present, the writer stores 1 ----
//@ struct unreal_asset/unreal_asset_registry/src/objects/md5_hash.rs FMD5Hash
pub open spec fn s_md5(v: FMD5Hash, m: u32) -> Seq<Pat> { match v.hash { Some(h) => p32(m) + pblob(h@), None => p32(0) } }
pub open spec fn rd_md5<S: Archive + ?Sized>(a: &S, b: &S, v: FMD5Hash) -> bool { exists|m: u32| #[trigger] md5_ok(v, m) && rd(a, b, s_md5(v, m)) }
pub open spec fn md5_ok(v: FMD5Hash, m: u32) -> bool { (v.hash is Some) == (m != 0) }
//@ fn unreal_asset/unreal_asset_registry/src/objects/md5_hash.rs FMD5Hash new params=asset
    ensures r is Ok ==> rd_md5(old(asset), final(asset), r->Ok_0),
//@ at before-tail
    proof { let v = FMD5Hash { hash: hash }; assert(md5_ok(v, has_hash)); assert(rd(old(asset), asset, s_md5(v, has_hash))); assert(rd_md5(old(asset), asset, v)); }
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/md5_hash.rs FMD5Hash write params=writer
    ensures r is Ok ==> wr(old(writer), final(writer), s_md5(*self, 1)),
//@ end

// ---- asset identifiers: a mask of the names present, then those names ----
//@ struct unreal_asset/unreal_asset_registry/src/objects/depends_node.rs AssetIdentifier
pub open spec fn pon(o: Option<FName>) -> Seq<Pat> { match o { Some(n) => pname(n), None => Seq::empty() } }
pub open spec fn bit(o: Option<FName>, k: u8) -> u8 { if o is Some { k } else { 0 } }
pub open spec fn mask(v: AssetIdentifier) -> u8 { (bit(v.package_name, 1) + bit(v.primary_asset_type, 2) + bit(v.object_name, 4) + bit(v.value_name, 8)) as u8 }
/// low four bits of the mask count, the others are ignored on reading
pub open spec fn s_ident(v: AssetIdentifier, m: u8) -> Seq<Pat> { (((p8(m) + pon(v.package_name)) + pon(v.primary_asset_type)) + pon(v.object_name)) + pon(v.value_name) }
pub open spec fn rd_ident<S: Archive + ?Sized>(a: &S, b: &S, v: AssetIdentifier) -> bool { exists|m: u8| #[trigger] ident_ok(v, m) && rd(a, b, s_ident(v, m)) }
pub open spec fn ident_ok(v: AssetIdentifier, m: u8) -> bool { m & 15 == mask(v) }
//@ fn unreal_asset/unreal_asset_registry/src/objects/depends_node.rs AssetIdentifier new params=asset
    ensures r is Ok ==> rd_ident(old(asset), final(asset), r->Ok_0),
//@ at before-tail
    proof {
        let v = AssetIdentifier { package_name, primary_asset_type, object_name, value_name };
        assert(field_bits & 15 == (if field_bits & (1u8 << 0) != 0 { 1u8 } else { 0 }) + (if field_bits & (1u8 << 1) != 0 { 2u8 } else { 0 }) + (if field_bits & (1u8 << 2) != 0 { 4u8 } else { 0 }) + (if field_bits & (1u8 << 3) != 0 { 8u8 } else { 0 })) by (bit_vector);
        assert(ident_ok(v, field_bits));
        assert(rd(old(asset), asset, s_ident(v, field_bits))); assert(rd_ident(old(asset), asset, v));
    }
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/depends_node.rs AssetIdentifier write params=writer
    ensures r is Ok ==> wr(old(writer), final(writer), s_ident(*self, mask(*self))),
//@ at body-start
    proof { mask_bits(); }
//@ end
pub proof fn mask_bits()
    ensures forall|a: u8, b: u8, c: u8, d: u8| a <= 1 && b <= 1 && c <= 1 && d <= 1 ==> #[trigger] ((((a << 0u8) | (b << 1u8)) | (c << 2u8)) | (d << 3u8)) == a + 2 * b + 4 * c + 8 * d
{
    assert forall|a: u8, b: u8, c: u8, d: u8| a <= 1 && b <= 1 && c <= 1 && d <= 1 implies #[trigger] ((((a << 0u8) | (b << 1u8)) | (c << 2u8)) | (d << 3u8)) == a + 2 * b + 4 * c + 8 * d by {
        assert((((a << 0u8) | (b << 1u8)) | (c << 2u8)) | (d << 3u8) == a + 2 * b + 4 * c + 8 * d) by (bit_vector) requires a <= 1, b <= 1, c <= 1, d <= 1;
    }
}

// ---- assets ----
pub open spec fn f_tag() -> spec_fn(Tag) -> Seq<Pat> { |t: Tag| pname(t.0) + pstr(t.1) }
pub open spec fn f_i32() -> spec_fn(i32) -> Seq<Pat> { |v: i32| p32(v as u32) }
pub open spec fn f_name() -> spec_fn(FName) -> Seq<Pat> { |v: FName| pname(v) }
/// a tag list as stored: a negative count is read as none
pub struct Stored { pub n: i32, pub t: Seq<Tag> }
pub open spec fn s_stored(s: Stored) -> Seq<Pat> { p32(s.n as u32) + pseq(s.t, s.t.len(), f_tag()) }
pub open spec fn stored_ok(s: Stored, v: Tags) -> bool { s.t.len() == (if s.n < 0 { 0int } else { s.n as int }) && kept(s.t) == v.e() }
pub open spec fn rd_tags<S: Archive + ?Sized>(a: &S, b: &S, v: Tags) -> bool { exists|t: Stored| #[trigger] stored_ok(t, v) && rd(a, b, s_stored(t)) }
/// what the writer stores
pub open spec fn stored(v: Tags) -> Stored { Stored { n: v.e().len() as i32, t: v.e() } }
pub open spec fn s_ints(t: Seq<i32>) -> Seq<Pat> { p32(t.len() as u32) + pseq(t, t.len(), f_i32()) }
pub open spec fn s_names(t: Seq<FName>) -> Seq<Pat> { p32(t.len() as u32) + pseq(t, t.len(), f_name()) }
//@ struct unreal_asset/unreal_asset_registry/src/objects/asset_data.rs AssetData
/// the stored form of an asset whose stored tag list is t
pub open spec fn s_asset(v: AssetData, t: Stored) -> Seq<Pat> {
    let class = if vn(v.version) >= vn(FAssetRegistryVersionType::ClassPaths) { s_path(v.asset_path->0) } else { pname(v.asset_class->0) };
    (((((((pname(v.object_path) + pname(v.package_path)) + class) + pname(v.package_name)) + pname(v.asset_name)) + s_stored(t)) + s_ints(v.chunk_ids@)) + p32(v.package_flags.b))
}
pub open spec fn rd_asset<S: Archive + ?Sized>(a: &S, b: &S, v: AssetData) -> bool { exists|t: Stored| #[trigger] asset_ok(v, t) && rd(a, b, s_asset(v, t)) }
pub open spec fn asset_ok(v: AssetData, t: Stored) -> bool {
    &&& stored_ok(t, v.tags_and_values) && known_flags(v.package_flags.b)
    &&& if vn(v.version) >= vn(FAssetRegistryVersionType::ClassPaths) { v.asset_path is Some && v.asset_class is None } else { v.asset_path is None && v.asset_class is Some }
}
//@ fn unreal_asset/unreal_asset_registry/src/objects/asset_data.rs AssetData read_tags params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> rd_tags(old(asset), final(asset), r->Ok_0),
//@ rw tags_and_values\.insert\((.*?), (asset\.read_fstring.*?)\); ==> let vx_k = \1; let vx_v = \2; let ghost kv = (vx_k, sv(vx_v)); tags_and_values.insert(vx_k, vx_v);
//@ at pre-loop 0
    let ghost mut t: Seq<Tag> = Seq::empty();
//@ loop 0 it=it
    invariant t.len() == it.index(), kept(t) == tags_and_values.e(), rd(old(asset), asset, p32(size as u32) + pseq(t, t.len(), f_tag())),
//@ at loop-start 0
    let ghost a0 = *asset;
//@ at loop-end 0
    proof {
        let t1 = t.push(kv);
        kept_same(t, t1, t.len());
        assert(rd(&a0, asset, f_tag()(kv)));
        pseq_push(p32(size as u32), t, kv, f_tag());
        t = t1;
    }
//@ at before-tail
    proof { let s = Stored { n: size, t }; assert(stored_ok(s, tags_and_values)); assert(rd(old(asset), asset, s_stored(s))); assert(rd_tags(old(asset), asset, tags_and_values)); }
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/asset_data.rs AssetData write_tags params=asset,tags_and_values attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), s_stored(stored(*tags_and_values))),
//@ rw for \(_, (\w+), (\w+)\) in tags_and_values \{ ==> let vx_es = vx_entries(tags_and_values); for vx_t in 0..vx_es.len() { let (_, \1, \2) = vx_es[vx_t];
//@ loop 0 it=it
    invariant vx_es@.len() == tags_and_values.e().len(), wr(old(asset), asset, p32(tags_and_values.e().len() as i32 as u32) + pseq(tags_and_values.e(), it.index() as nat, f_tag())),
//@ at loop-start 0
    let ghost a0 = *asset;
//@ at loop-end 0
    proof {
        assert(wr(&a0, asset, f_tag()(tags_and_values.e()[it.index() as int])));
        pseq_step(p32(tags_and_values.e().len() as i32 as u32), tags_and_values.e(), it.index() as nat, f_tag());
    }
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/asset_data.rs AssetData new params=asset,version attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> r->Ok_0.version == version && rd_asset(old(asset), final(asset), r->Ok_0),
//@ rw! let (\w+) = Self::read_tags\(asset\)\?; ==> let ghost vx_b = *asset; let \1 = Self::read_tags(asset)?; let ghost vx_t = choose|t: Stored| stored_ok(t, \1) && rd(&vx_b, asset, s_stored(t));
//@ rw! Ok\((Self \{[^}]*\})\) ==> let vx_r = \1; proof { assert(asset_ok(vx_r, vx_t)); assert(rd(old(asset), asset, s_asset(vx_r, vx_t))); assert(rd_asset(old(asset), asset, vx_r)); } Ok(vx_r)
//@ at pre-loop 0
    proof { cap(vx_len); }
//@ loop 0 it=it
    invariant vx_arr@.len() == it.index(), rd(&vx_a0, asset, p32(vx_len as u32) + pseq(vx_arr@, vx_arr@.len(), f_i32())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, vx_arr@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_i32()(vx_arr@.last()))); pseq_push(p32(vx_len as u32), r1, vx_arr@.last(), f_i32()); }
//@ at post-loop 0
    assert(rd(&vx_a0, asset, s_ints(vx_arr@)));
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/asset_data.rs AssetData write params=writer attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(writer), final(writer), s_asset(*self, stored(self.tags_and_values))),
//@ rw (writer\.write_i32::<LE>\(self\.chunk_ids) ==> let ghost vx_a0 = *writer; \1
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.chunk_ids@), wr(&vx_a0, writer, p32(self.chunk_ids.len() as u32) + pseq(self.chunk_ids@, it.index() as nat, f_i32())),
//@ at loop-start 0
    let ghost a1 = *writer;
//@ at loop-end 0
    proof { assert(wr(&a1, writer, f_i32()(self.chunk_ids@[it.index() as int]))); pseq_step(p32(self.chunk_ids.len() as u32), self.chunk_ids@, it.index() as nat, f_i32()); }
//@ at post-loop 0
    assert(wr(&vx_a0, writer, s_ints(self.chunk_ids@)));
//@ end
// ---- custom versions ----
//@ struct unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion
#[verifier::external_body]
pub fn vx_friendly(g: &Guid) -> Option<String> { unimplemented!() }
#[verifier::external_body]
pub fn vx_mappings(g: &Guid) -> Mappings { unimplemented!() }
pub open spec fn f_cv() -> spec_fn(CustomVersion) -> Seq<Pat> { |v: CustomVersion| pblob(v.guid.0@) + p32(v.version as u32) }
//@ fn unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion read params=asset
    ensures r is Ok ==> rd(old(asset), final(asset), f_cv()(r->Ok_0)),
//@ rw! let version_info = [^;]*; ==>
//@ rw! friendly_name: [^,]*, ==> friendly_name: vx_friendly(&guid),
//@ rw! version_mappings: [^,]*, ==> version_mappings: vx_mappings(&guid),
//@ rw! Self \{\s*guid, ==> Self { guid: vx_copy(&guid),
//@ end
pub fn vx_copy(g: &Guid) -> (r: Guid) ensures r == *g { Guid(g.0) }
//@ fn unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion write params=writer
    ensures r is Ok ==> wr(old(writer), final(writer), f_cv()(*self)),
//@ end

// ---- package data ----
//@ struct unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs AssetPackageData
pub open spec fn s_cvs(t: Seq<CustomVersion>) -> Seq<Pat> { p32(t.len() as u32) + pseq(t, t.len(), f_cv()) }
pub open spec fn from(v: FAssetRegistryVersionType, w: FAssetRegistryVersionType) -> bool { vn(v) >= vn(w) }
/// the stored form of a package; m is the marker stored before its cooked hash
pub open spec fn s_pkg(v: AssetPackageData, m: u32) -> Seq<Pat> {
    let x0 = (pname(v.package_name) + p64(v.disk_size as u64)) + pblob(v.package_guid.0@);
    let x1 = if from(v.version, FAssetRegistryVersionType::AddedCookedMD5Hash) { x0 + s_md5(v.cooked_hash->0, m) } else { x0 };
    let x2 = if from(v.version, FAssetRegistryVersionType::WorkspaceDomain) {
        let y0 = x1 + p32(v.file_version as u32);
        let y1 = if from(v.version, FAssetRegistryVersionType::PackageFileSummaryVersionChange) { y0 + p32(v.ue5_version->0 as u32) } else { y0 };
        ((y1 + p32(v.file_version_licensee_ue as u32)) + p32(v.flags)) + s_cvs(v.custom_versions->0@)
    } else { x1 };
    if from(v.version, FAssetRegistryVersionType::PackageImportedClasses) { x2 + s_names(v.imported_classes->0@) } else { x2 }
}
pub open spec fn pkg_ok(v: AssetPackageData, m: u32) -> bool {
    &&& (v.cooked_hash is Some) == from(v.version, FAssetRegistryVersionType::AddedCookedMD5Hash)
    &&& v.cooked_hash is Some ==> md5_ok(v.cooked_hash->0, m)
    &&& (v.ue5_version is Some) == from(v.version, FAssetRegistryVersionType::PackageFileSummaryVersionChange)
    &&& (v.custom_versions is Some) == from(v.version, FAssetRegistryVersionType::WorkspaceDomain)
    &&& (v.imported_classes is Some) == from(v.version, FAssetRegistryVersionType::PackageImportedClasses)
    &&& !from(v.version, FAssetRegistryVersionType::WorkspaceDomain) ==> v.file_version == 0 && v.file_version_licensee_ue == -1 && v.flags == 0
}
pub open spec fn rd_pkg<S: Archive + ?Sized>(a: &S, b: &S, v: AssetPackageData) -> bool { exists|m: u32| #[trigger] pkg_ok(v, m) && rd(a, b, s_pkg(v, m)) }
//@ fn unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs AssetPackageData new params=asset,version attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> r->Ok_0.version == version && rd_pkg(old(asset), final(asset), r->Ok_0),
//@ rw! cooked_hash = Some\((FMD5Hash::new\(asset\)\?)\); ==> let ghost vx_b = *asset; let vx_h = \1; proof { vx_m = choose|m: u32| md5_ok(vx_h, m) && rd(&vx_b, asset, s_md5(vx_h, m)); } cooked_hash = Some(vx_h);
//@ rw! Ok\((Self \{[^}]*\})\) ==> let vx_r = \1; proof { assert(pkg_ok(vx_r, vx_m)); assert(rd(old(asset), asset, s_pkg(vx_r, vx_m))); assert(rd_pkg(old(asset), asset, vx_r)); } Ok(vx_r)
//@ at body-start
    let ghost mut vx_m: u32 = 0;
//@ at pre-loop 0
    proof { cap(vx_len); }
//@ loop 0 it=it
    invariant vx_arr@.len() == it.index(), rd(&vx_a0, asset, p32(vx_len as u32) + pseq(vx_arr@, vx_arr@.len(), f_cv())),
//@ at loop-start 0
    let ghost (a1, r1) = (*asset, vx_arr@);
//@ at loop-end 0
    proof { assert(rd(&a1, asset, f_cv()(vx_arr@.last()))); pseq_push(p32(vx_len as u32), r1, vx_arr@.last(), f_cv()); }
//@ at post-loop 0
    assert(rd(&vx_a0, asset, s_cvs(vx_arr@)));
//@ at pre-loop 1
    proof { cap(vx_len); }
//@ loop 1 it=it
    invariant vx_arr@.len() == it.index(), rd(&vx_a0, asset, p32(vx_len as u32) + pseq(vx_arr@, vx_arr@.len(), f_name())),
//@ at loop-start 1
    let ghost (a1, r1) = (*asset, vx_arr@);
//@ at loop-end 1
    proof { assert(rd(&a1, asset, f_name()(vx_arr@.last()))); pseq_push(p32(vx_len as u32), r1, vx_arr@.last(), f_name()); }
//@ at post-loop 1
    assert(rd(&vx_a0, asset, s_names(vx_arr@)));
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs AssetPackageData write params=asset attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(asset), final(asset), s_pkg(*self, 1)),
//@ rw asset\.write_all\(&self\.package_guid\.0\) ==> asset.write_guid(&self.package_guid)
//@ rw (asset\.write_i32::<LE>\((\w+)\.len\(\)) ==> let ghost vx_a0 = *asset; \1
//@ loop 0 it=it
    invariant it.seq() == refs_of(custom_versions@), wr(&vx_a0, asset, p32(custom_versions.len() as u32) + pseq(custom_versions@, it.index() as nat, f_cv())),
//@ at loop-start 0
    let ghost a1 = *asset;
//@ at loop-end 0
    proof { assert(wr(&a1, asset, f_cv()(custom_versions@[it.index() as int]))); pseq_step(p32(custom_versions.len() as u32), custom_versions@, it.index() as nat, f_cv()); }
//@ at post-loop 0
    assert(wr(&vx_a0, asset, s_cvs(custom_versions@)));
//@ loop 1 it=it
    invariant it.seq() == refs_of(imported_classes@), wr(&vx_a0, asset, p32(imported_classes.len() as u32) + pseq(imported_classes@, it.index() as nat, f_name())),
//@ at loop-start 1
    let ghost a1 = *asset;
//@ at loop-end 1
    proof { assert(wr(&a1, asset, f_name()(imported_classes@[it.index() as int]))); pseq_step(p32(imported_classes.len() as u32), imported_classes@, it.index() as nat, f_name()); }
//@ at post-loop 1
    assert(wr(&vx_a0, asset, s_names(imported_classes@)));
//@ end
// ---- dependency nodes (before flags): identifier, six counts, six lists of node numbers ----
//@ struct unreal_asset/unreal_asset_registry/src/objects/depends_node.rs DependsNode
#[verifier::external_body]
pub fn vx_clone(n: &DependsNode) -> (r: DependsNode) ensures r == *n { unimplemented!() }
pub open spec fn f_node() -> spec_fn(DependsNode) -> Seq<Pat> { |v: DependsNode| p32(v.index as u32) }
pub open spec fn s_nodes(t: Seq<DependsNode>) -> Seq<Pat> { pseq(t, t.len(), f_node()) }
pub open spec fn cnt_ok(n: i32, t: Seq<DependsNode>) -> bool { t.len() == (if n < 0 { 0int } else { n as int }) }
/// the counts as stored
pub struct Counts { pub hard: i32, pub soft: i32, pub name: i32, pub soft_manage: i32, pub hard_manage: i32, pub refs: i32 }
pub open spec fn s_node(v: DependsNode, m: u8, c: Counts) -> Seq<Pat> {
    let manage = from(v.version, FAssetRegistryVersionType::AddedHardManage);
    let x0 = (((s_ident(v.identifier, m) + p32(c.hard as u32)) + p32(c.soft as u32)) + p32(c.name as u32)) + p32(c.soft_manage as u32);
    let x1 = if manage { x0 + p32(c.hard_manage as u32) } else { x0 };
    let x2 = ((((x1 + p32(c.refs as u32)) + s_nodes(v.hard_dependencies@)) + s_nodes(v.soft_dependencies@)) + s_nodes(v.name_dependencies@)) + s_nodes(v.soft_manage_dependencies@);
    let x3 = if manage { x2 + s_nodes(v.hard_manage_dependencies@) } else { x2 };
    x3 + s_nodes(v.referencers@)
}
pub open spec fn node_ok(v: DependsNode, m: u8, c: Counts) -> bool {
    &&& ident_ok(v.identifier, m)
    &&& cnt_ok(c.hard, v.hard_dependencies@) && cnt_ok(c.soft, v.soft_dependencies@) && cnt_ok(c.name, v.name_dependencies@)
    &&& cnt_ok(c.soft_manage, v.soft_manage_dependencies@) && cnt_ok(c.hard_manage, v.hard_manage_dependencies@) && cnt_ok(c.refs, v.referencers@)
}
pub open spec fn rd_node<S: Archive + ?Sized>(a: &S, b: &S, v: DependsNode) -> bool { exists|m: u8, c: Counts| #[trigger] node_ok(v, m, c) && rd(a, b, s_node(v, m, c)) }
pub open spec fn counts(v: DependsNode) -> Counts {
    Counts { hard: v.hard_dependencies@.len() as i32, soft: v.soft_dependencies@.len() as i32, name: v.name_dependencies@.len() as i32,
        soft_manage: v.soft_manage_dependencies@.len() as i32, hard_manage: v.hard_manage_dependencies@.len() as i32, refs: v.referencers@.len() as i32 }
}
pub open spec fn fresh(v: DependsNode) -> bool { v.hard_dependencies@.len() == 0 && v.soft_dependencies@.len() == 0 && v.soft_manage_dependencies@.len() == 0 && v.hard_manage_dependencies@.len() == 0 }
impl AssetIdentifier { #[verifier::external_body] pub fn default() -> (r: AssetIdentifier) ensures r.package_name is None, r.primary_asset_type is None, r.object_name is None, r.value_name is None { unimplemented!() } }
//@ fn unreal_asset/unreal_asset_registry/src/objects/depends_node.rs DependsNode new params=index,version
    ensures fresh(r), r.index == index, r.version == version, r.name_dependencies@.len() == 0, r.referencers@.len() == 0, r.package_flags is None, r.manage_flags is None,
//@ end
/// nodes stand at their own number
pub open spec fn numbered(b: Seq<DependsNode>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).index == i }
pub open spec fn from_buf(s: Seq<DependsNode>, b: Seq<DependsNode>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] s[i]).index < b.len() && s[i] == b[s[i].index as int] }
//@ fn unreal_asset/unreal_asset_registry/src/objects/depends_node.rs DependsNode read_node_array params=asset,preallocated_depends_node_buffer,num,nodes attr="#[verifier::loop_isolation(false)]"
    requires numbered(preallocated_depends_node_buffer@), old(nodes)@.len() == 0,
    ensures r is Ok ==> rd(old(asset), final(asset), s_nodes(final(nodes)@)) && cnt_ok(num, final(nodes)@) && from_buf(final(nodes)@, preallocated_depends_node_buffer@),
//@ at pre-loop 0
    proof { rd_nil(asset); }
//@ loop 0 it=it
    invariant nodes@.len() == it.index(), rd(old(asset), asset, pseq(nodes@, nodes@.len(), f_node())), from_buf(nodes@, preallocated_depends_node_buffer@),
//@ at loop-start 0
    let ghost (a1, n1) = (*asset, nodes@);
//@ at loop-end 0
    proof { assert(nodes@.last().index == index); assert(rd(&a1, asset, f_node()(nodes@.last()))); pseq_push(Seq::empty(), n1, nodes@.last(), f_node()); }
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/depends_node.rs DependsNode load_dependencies_before_flags params=asset,preallocated_depends_node_buffer
    requires numbered(preallocated_depends_node_buffer@), fresh(*old(self)),
    ensures r is Ok ==> rd_node(old(asset), final(asset), *final(self)) && final(self).index == old(self).index && final(self).version == old(self).version
        && final(self).package_flags is None && final(self).manage_flags is None,
        r is Ok ==> from_buf(final(self).hard_dependencies@, preallocated_depends_node_buffer@) && from_buf(final(self).soft_dependencies@, preallocated_depends_node_buffer@)
        && from_buf(final(self).name_dependencies@, preallocated_depends_node_buffer@) && from_buf(final(self).soft_manage_dependencies@, preallocated_depends_node_buffer@)
        && from_buf(final(self).hard_manage_dependencies@, preallocated_depends_node_buffer@) && from_buf(final(self).referencers@, preallocated_depends_node_buffer@),
//@ rw! let (\w+) = AssetIdentifier::new\(asset\)\?; ==> let ghost vx_b = *asset; let \1 = AssetIdentifier::new(asset)?; let ghost vx_m = choose|m: u8| ident_ok(\1, m) && rd(&vx_b, asset, s_ident(\1, m));
//@ rw Vec::with_capacity ==> vx_with_capacity
//@ at before-tail
    proof {
        cap(num_name); cap(num_referencers);
        let c = Counts { hard: num_hard, soft: num_soft, name: num_name, soft_manage: num_soft_manage, hard_manage: num_hard_manage, refs: num_referencers };
        assert(s_nodes(Seq::empty()) =~= Seq::empty());
        if !from(self.version, FAssetRegistryVersionType::AddedHardManage) { assert(self.hard_manage_dependencies@ =~= Seq::empty()); }
        assert(node_ok(*self, vx_m, c));
        assert(rd(old(asset), asset, s_node(*self, vx_m, c)));
        assert(rd_node(old(asset), asset, *self));
    }
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/depends_node.rs DependsNode save_dependencies_before_flags params=writer attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(writer), final(writer), s_node(*self, mask(self.identifier), counts(*self))),
//@ at pre-loop 0
    let ghost a0 = *writer;
    proof { wr_nil(writer); }
//@ loop 0 it=it
    invariant it.seq() == refs_of(self.hard_dependencies@), wr(&a0, writer, pseq(self.hard_dependencies@, it.index() as nat, f_node())),
//@ at loop-start 0
    let ghost a1 = *writer;
//@ at loop-end 0
    proof { assert(wr(&a1, writer, f_node()(self.hard_dependencies@[it.index() as int]))); pseq_step(Seq::empty(), self.hard_dependencies@, it.index() as nat, f_node()); }
//@ at post-loop 0
    assert(wr(&a0, writer, s_nodes(self.hard_dependencies@)));
//@ at pre-loop 1
    let ghost a0 = *writer;
    proof { wr_nil(writer); }
//@ loop 1 it=it
    invariant it.seq() == refs_of(self.soft_dependencies@), wr(&a0, writer, pseq(self.soft_dependencies@, it.index() as nat, f_node())),
//@ at loop-start 1
    let ghost a1 = *writer;
//@ at loop-end 1
    proof { assert(wr(&a1, writer, f_node()(self.soft_dependencies@[it.index() as int]))); pseq_step(Seq::empty(), self.soft_dependencies@, it.index() as nat, f_node()); }
//@ at post-loop 1
    assert(wr(&a0, writer, s_nodes(self.soft_dependencies@)));
//@ at pre-loop 2
    let ghost a0 = *writer;
    proof { wr_nil(writer); }
//@ loop 2 it=it
    invariant it.seq() == refs_of(self.name_dependencies@), wr(&a0, writer, pseq(self.name_dependencies@, it.index() as nat, f_node())),
//@ at loop-start 2
    let ghost a1 = *writer;
//@ at loop-end 2
    proof { assert(wr(&a1, writer, f_node()(self.name_dependencies@[it.index() as int]))); pseq_step(Seq::empty(), self.name_dependencies@, it.index() as nat, f_node()); }
//@ at post-loop 2
    assert(wr(&a0, writer, s_nodes(self.name_dependencies@)));
//@ at pre-loop 3
    let ghost a0 = *writer;
    proof { wr_nil(writer); }
//@ loop 3 it=it
    invariant it.seq() == refs_of(self.soft_manage_dependencies@), wr(&a0, writer, pseq(self.soft_manage_dependencies@, it.index() as nat, f_node())),
//@ at loop-start 3
    let ghost a1 = *writer;
//@ at loop-end 3
    proof { assert(wr(&a1, writer, f_node()(self.soft_manage_dependencies@[it.index() as int]))); pseq_step(Seq::empty(), self.soft_manage_dependencies@, it.index() as nat, f_node()); }
//@ at post-loop 3
    assert(wr(&a0, writer, s_nodes(self.soft_manage_dependencies@)));
//@ at pre-loop 4
    let ghost a0 = *writer;
    proof { wr_nil(writer); }
//@ loop 4 it=it
    invariant it.seq() == refs_of(self.hard_manage_dependencies@), wr(&a0, writer, pseq(self.hard_manage_dependencies@, it.index() as nat, f_node())),
//@ at loop-start 4
    let ghost a1 = *writer;
//@ at loop-end 4
    proof { assert(wr(&a1, writer, f_node()(self.hard_manage_dependencies@[it.index() as int]))); pseq_step(Seq::empty(), self.hard_manage_dependencies@, it.index() as nat, f_node()); }
//@ at post-loop 4
    assert(wr(&a0, writer, s_nodes(self.hard_manage_dependencies@)));
//@ at pre-loop 5
    let ghost a0 = *writer;
    proof { wr_nil(writer); }
//@ loop 5 it=it
    invariant it.seq() == refs_of(self.referencers@), wr(&a0, writer, pseq(self.referencers@, it.index() as nat, f_node())),
//@ at loop-start 5
    let ghost a1 = *writer;
//@ at loop-end 5
    proof { assert(wr(&a1, writer, f_node()(self.referencers@[it.index() as int]))); pseq_step(Seq::empty(), self.referencers@, it.index() as nat, f_node()); }
//@ at post-loop 5
    assert(wr(&a0, writer, s_nodes(self.referencers@)));
//@ end
//@ fn unreal_asset/unreal_asset_registry/src/objects/depends_node.rs DependsNode write_dependencies_no_flags params=writer,dependencies attr="#[verifier::loop_isolation(false)]"
    ensures r is Ok ==> wr(old(writer), final(writer), p32(dependencies@.len() as u32) + s_nodes(dependencies@)),
//@ loop 0 it=it
    invariant it.seq() == refs_of(dependencies@), wr(old(writer), writer, p32(dependencies@.len() as u32) + pseq(dependencies@, it.index() as nat, f_node())),
//@ at loop-start 0
    let ghost a1 = *writer;
//@ at loop-end 0
    proof { assert(wr(&a1, writer, f_node()(dependencies@[it.index() as int]))); pseq_step(p32(dependencies@.len() as u32), dependencies@, it.index() as nat, f_node()); }
//@ end
} // verus!
fn main() {}
