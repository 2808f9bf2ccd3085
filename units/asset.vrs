#![allow(warnings)]
use vstd::prelude::*;
verus! {
// Packages: the summary at their head, the entries of the import and export maps, and the layout they are written in.
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/strs.rs
}
use base::*;
global size_of usize == 8;
pub enum Error { Any }
pub trait ByteOrder { spec fn little() -> bool; }
pub struct LE;
pub struct BE;
impl ByteOrder for LE { open spec fn little() -> bool { true } }
impl ByteOrder for BE { open spec fn little() -> bool { false } }
#[verifier::external_body]
pub struct FName { x: u8 }
#[derive(Copy, Clone)]
pub struct Guid(pub [u8; 16]);
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=on
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=o5n
macro_rules! cmp_as { ($t:ident, $n:ident) => { verus! {
impl vstd::std_specs::cmp::PartialEqSpecImpl for $t {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &$t) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$t) -> Option<core::cmp::Ordering> {
        if $n(*self) < $n(*o) { Some(core::cmp::Ordering::Less) } else if $n(*self) == $n(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
} } }
cmp_as!(ObjectVersion, on);
cmp_as!(ObjectVersionUE5, o5n);
pub mod arch {
use vstd::prelude::*;
use super::*;
//@ include prelude/arch.rs
//@ include prelude/archx.rs
}
use arch::*;
broadcast use {casts::cnt_cast, acc::pat_nil0};
pub open spec fn refs_of<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }


// ---- what surrounds the lifted code ----
//@ rewrite <\s*impl PackageIndexTrait\s*> ==>
//@ rewrite \bArchiveReader<PackageIndex> ==> ArchiveReaderX
//@ rewrite \bArchiveWriter<PackageIndex> ==> ArchiveWriterX
//@ rewrite \bArchiveReader\b ==> ArchiveReaderX
//@ rewrite \bArchiveWriter\b ==> ArchiveWriterX
//@ rewrite \b(BaseExport|AssetData|Export)<(?:PackageIndex|Index)> ==> \1
//@ rewrite <\s*Index: PackageIndexTrait\s*> ==>
//@ rewrite : Index,\n ==> : PackageIndex,\n
//@ rewrite pub\(crate\) ==> pub
//@ rewrite \.ok_or_else\(\s*\|\|\s*Error::\w+\("[^"]*"\.to_string\(\)\)\s*\)\? ==> .ok_or(Error::Any)?
//@ rewrite Err\(Error::\w+\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\) ==> Err(Error::Any)
//@ rewrite self\.branch\.as_deref\(\) ==> vx_deref(&self.branch)
pub fn vx_deref<'a>(s: &'a Option<String>) -> (r: Option<&'a str>) ensures dv(r) == sv(*s) { match s { Some(x) => Some(x.as_str()), None => None } }
#[verifier::external_body]
pub fn vx_dup<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vx_dupv<T>(x: &Vec<T>) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
#[derive(Copy, Clone)]
pub struct PackageIndex { pub index: i32 }
impl PackageIndex { pub fn new(index: i32) -> (r: PackageIndex) ensures r.index == index { PackageIndex { index } } }
pub mod be { use vstd::prelude::*; use super::*;
#[verifier::opaque]
pub open spec fn pbe(v: u32) -> Seq<Pat> { lit(be32(v)) }
pub broadcast proof fn pbe_len(v: u32) ensures #[trigger] pbe(v).len() == 4 { reveal(pbe); reveal(be32); }
}
use be::*;
macro_rules! flags { ($t:ident, $i:ty) => { verus! {
    #[derive(Copy, Clone)]
    pub struct $t { pub b: $i }
    impl $t {
        #[verifier::external_body]
        pub fn vx_from_bits(v: $i) -> (r: Result<$t, Error>) ensures r is Ok ==> r->Ok_0.b == v { unimplemented!() }
        pub fn bits(&self) -> (r: $i) ensures r == self.b { self.b }
    }
} } }
flags!(EObjectFlags, u32);
flags!(EPackageFlags, u32);
// ---- machine integers ----
pub mod casts { use vstd::prelude::*;
pub broadcast proof fn cnt_cast(n: usize) ensures #[trigger] ((n as i32) as u32) == n as u32 { assert(((n as i32) as u32) == n as u32) by (bit_vector); } }
pub proof fn cap(n: i32) requires (n as usize) <= isize::MAX ensures n >= 0, (n as usize) as int == n as int { assert(n < 0 ==> (n as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector); }
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty(), n <= isize::MAX { Vec::with_capacity(n) }

/// a flag stored as four bytes: only 1 reads as set
pub mod fg { use vstd::prelude::*; use super::*;
#[verifier::opaque]
pub open spec fn pflag(v: bool, exact: bool) -> Seq<Pat> { if v { p32(1) } else if exact { p32(0) } else { anyb(4) } }
}
use fg::*;
//@ rewrite \barchive\.read_i32::<LE>\(\)\? == 1 ==> vx_read_flag(archive, Ghost(vx_0), &mut vx_p)?
//@ rewrite \b(archive|cursor)\.(read_\w+)(?:::<LE>)?\(\) ==> vx_\2(\1, Ghost(vx_0), &mut vx_p)
//@ rewrite \b(archive|cursor)\s*\.(write_\w+)(?:::<LE>)?\( ==> vx_\2(\1, Ghost(vx_0), &mut vx_p, 
//@ rewrite vx_write_i32\((\w+), Ghost\(vx_0\), &mut vx_p,\s*(?:match ([\w.]+) \{\s*true => 1,\s*false => 0,?\s*\}|(self\.\w+) as i32|i32::from\(([\w.]+)\)|if ([\w.]+) \{\s*1\s*\} else \{\s*0\s*\})\) ==> vx_write_flag(\1, Ghost(vx_0), &mut vx_p, \2\3\4\5)
//@ rewrite (E\w+Flags)::from_bits\((vx_read_u32\([^?]*\)\?)\)\s*\.ok_or\(Error::Any\)\? ==> \1::vx_from_bits(\2)?
#[verifier::external_body]
pub fn vx_be<S: ArchiveReaderX>(s: &mut S) -> (r: Result<u32, Error>) ensures r is Ok ==> rd(old(s), final(s), pbe(r->Ok_0)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_put_be<S: ArchiveWriterX>(s: &mut S, v: u32) -> (r: Result<(), Error>) ensures r is Ok ==> wr(old(s), final(s), pbe(v)) { unimplemented!() }
pub fn vx_skip4<S: ArchiveReaderX>(s: &mut S) -> (r: Result<(), Error>) ensures r is Ok ==> rd(old(s), final(s), anyb(4))
{ let mut b = [0u8; 4]; let r = s.read_exact(&mut b); proof { if r is Ok { reveal(rd); reveal(pblob); assert(old(s).post().take(4).len() == 4); } } r }
pub mod acc { use vstd::prelude::*; use super::*;
pub broadcast proof fn pat_nil(p: Seq<Pat>) ensures #[trigger] (p + Seq::<Pat>::empty()) == p { assert(p + Seq::<Pat>::empty() =~= p); }
pub broadcast proof fn pat_nil0(p: Seq<Pat>) ensures #[trigger] (Seq::<Pat>::empty() + p) == p { assert(Seq::<Pat>::empty() + p =~= p); }
//@ include prelude/acc.rs
}
use acc::{vx_read_i32, vx_read_u32, vx_read_i64, vx_read_u16, vx_read_guid, vx_read_fstring, vx_read_fname, vx_read_flag, vx_read_skip4, vx_read_engine, vx_read_entry, vx_read_be, vx_write_i32, vx_write_flag, vx_write_u32, vx_write_i64, vx_write_u16, vx_write_guid, vx_write_fstring, vx_write_fname, vx_write_engine, vx_write_be, vx_write_all};
pub fn vx_flag<S: ArchiveReaderX>(s: &mut S) -> (r: Result<bool, Error>) ensures r is Ok ==> rd(old(s), final(s), pflag(r->Ok_0, false))
{ let v = s.read_i32::<LE>()?; proof { reveal(pflag); rd_any32(old(s), s, v as u32); } Ok(v == 1) }
pub fn vx_put_flag<S: ArchiveWriterX>(s: &mut S, v: bool) -> (r: Result<(), Error>) ensures r is Ok ==> wr(old(s), final(s), pflag(v, true))
{ proof { reveal(pflag); } s.write_i32::<LE>(match v { true => 1, false => 0 }) }
// ---- engine versions ----
//@ struct unreal_asset/src/fengineversion.rs FEngineVersion
/// an engine version, as stored
pub open spec fn pengine(v: FEngineVersion) -> Seq<Pat> { p16(v.major) + p16(v.minor) + p16(v.patch) + p32(v.build) + pstr(sv(v.branch)) }
//@ fn unreal_asset/src/fengineversion.rs FEngineVersion new params=major,minor,patch,build,branch
    ensures r.major == major, r.minor == minor, r.patch == patch, r.build == build, r.branch == branch,
//@ end
//@ fn unreal_asset/src/fengineversion.rs FEngineVersion read params=cursor
    ensures r is Ok ==> rd(old(cursor), final(cursor), pengine(r->Ok_0)),
//@ at body-start
    let ghost vx_0 = *cursor; let mut vx_p: Ghost<Seq<Pat>> = Ghost(Seq::empty()); proof { rd_nil(cursor); }
//@ end
//@ fn unreal_asset/src/fengineversion.rs FEngineVersion write params=cursor
    ensures r is Ok ==> wr(old(cursor), final(cursor), pengine(*self)),
//@ at body-start
    let ghost vx_0 = *cursor; let mut vx_p: Ghost<Seq<Pat>> = Ghost(Seq::empty()); proof { wr_nil(cursor); }
//@ end

// ---- entries of the export map ----
//@ struct unreal_asset/src/asset.rs UAssetExportMapEntry
//@ struct unreal_asset/unreal_asset_exports/src/base_export.rs BaseExport
// between the two passes over the export map, the length of each dependency list is kept as the capacity of an empty vector
pub uninterp spec fn capa(v: Vec<PackageIndex>) -> i32;
//@ rewrite Vec::with_capacity\((vx_read_i32\(archive, Ghost\(vx_0\), &mut vx_p\)\?) as usize\) ==> vx_reserved(\1)
#[verifier::external_body]
pub fn vx_reserved(n: i32) -> (r: Vec<PackageIndex>) ensures r@ == Seq::<PackageIndex>::empty(), n >= 0, capa(r) == n { Vec::with_capacity(n as usize) }
//@ rewrite ,\s*\.\.Default::default\(\)\s*\} ==> , ..UAssetExportMapEntry::vx_default() }
impl UAssetExportMapEntry { #[verifier::external_body] pub fn vx_default() -> UAssetExportMapEntry { unimplemented!() } }
pub struct Caps { pub a: i32, pub b: i32, pub c: i32, pub d: i32 }
pub mod ent { use vstd::prelude::*; use super::*;
#[verifier::opaque]
pub open spec fn e1(class: PackageIndex, sup: PackageIndex, template: PackageIndex, ov: ObjectVersion) -> Seq<Pat> {
    let p = p32(class.index as u32) + p32(sup.index as u32);
    if on(ov) >= on(ObjectVersion::VER_UE4_TemplateIndex_IN_COOKED_EXPORTS) { p + p32(template.index as u32) } else { p }
}
#[verifier::opaque]
pub open spec fn e2(p: Seq<Pat>, outer: PackageIndex, name: FName, flags: u32, size: i64, offset: i64, ov: ObjectVersion) -> Seq<Pat> {
    let p = p + p32(outer.index as u32) + pname(name) + p32(flags);
    if on(ov) < on(ObjectVersion::VER_UE4_64BIT_EXPORTMAP_SERIALSIZES) { p + p32((size as i32) as u32) + p32((offset as i32) as u32) } else { p + p64(size as u64) + p64(offset as u64) }
}
#[verifier::opaque]
pub open spec fn e3(p: Seq<Pat>, forced: bool, client: bool, server: bool, guid: Guid, inherited: bool, o5: ObjectVersionUE5, exact: bool) -> Seq<Pat> {
    let p = p + pflag(forced, exact) + pflag(client, exact) + pflag(server, exact);
    let p = if o5n(o5) < o5n(ObjectVersionUE5::REMOVE_OBJECT_EXPORT_PACKAGE_GUID) { p + pblob(guid.0@) } else { p };
    if o5n(o5) >= o5n(ObjectVersionUE5::TRACK_OBJECT_EXPORT_IS_INHERITED) { p + pflag(inherited, exact) } else { p }
}
#[verifier::opaque]
pub open spec fn e4(p: Seq<Pat>, flags: u32, editor: bool, asset: bool, hash: bool, ov: ObjectVersion, o5: ObjectVersionUE5, exact: bool) -> Seq<Pat> {
    let p = p + p32(flags);
    let p = if on(ov) >= on(ObjectVersion::VER_UE4_LOAD_FOR_EDITOR_GAME) { p + pflag(editor, exact) } else { p };
    let p = if on(ov) >= on(ObjectVersion::VER_UE4_COOKED_ASSETS_IN_EDITOR_SUPPORT) { p + pflag(asset, exact) } else { p };
    if o5n(o5) >= o5n(ObjectVersionUE5::OPTIONAL_RESOURCES) { p + pflag(hash, exact) } else { p }
}
#[verifier::opaque]
pub open spec fn e5(p: Seq<Pat>, first: i32, n: Caps, ov: ObjectVersion) -> Seq<Pat> {
    if on(ov) >= on(ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS) { p + p32(first as u32) + p32(n.a as u32) + p32(n.b as u32) + p32(n.c as u32) + p32(n.d as u32) } else { p }
}
}
use ent::*;
/// an entry of the export map, as stored
pub open spec fn pentry(e: UAssetExportMapEntry, size: i64, offset: i64, first: i32, n: Caps, ov: ObjectVersion, o5: ObjectVersionUE5, exact: bool) -> Seq<Pat> {
    let p1 = e1(e.class_index, e.super_index, e.template_index, ov);
    let p2 = e2(p1, e.outer_index, e.object_name, e.object_flags.b, size, offset, ov);
    let p3 = e3(p2, e.forced_export, e.not_for_client, e.not_for_server, e.package_guid, e.is_inherited_instance, o5, exact);
    let p4 = e4(p3, e.package_flags, e.not_always_loaded_for_editor_game, e.is_asset, e.generate_public_hash, ov, o5, exact);
    e5(p4, first, n, ov)
}
pub open spec fn caps_r(e: UAssetExportMapEntry) -> Caps { Caps { a: capa(e.serialization_before_serialization_dependencies), b: capa(e.create_before_serialization_dependencies), c: capa(e.serialization_before_create_dependencies), d: capa(e.create_before_create_dependencies) } }
pub open spec fn pentry_r(e: UAssetExportMapEntry, ov: ObjectVersion, o5: ObjectVersionUE5) -> Seq<Pat> { pentry(e, e.serial_size, e.serial_offset, e.first_export_dependency_offset, caps_r(e), ov, o5, false) }
pub open spec fn caps_w(e: UAssetExportMapEntry) -> Caps { Caps { a: e.serialization_before_serialization_dependencies@.len() as i32, b: e.create_before_serialization_dependencies@.len() as i32, c: e.serialization_before_create_dependencies@.len() as i32, d: e.create_before_create_dependencies@.len() as i32 } }
/// the same entry; lists by their elements
pub open spec fn same(e: UAssetExportMapEntry, b: BaseExport) -> bool {
    &&& e.class_index == b.class_index && e.super_index == b.super_index && e.template_index == b.template_index && e.outer_index == b.outer_index
    &&& e.object_name == b.object_name && e.object_flags == b.object_flags && e.serial_size == b.serial_size && e.serial_offset == b.serial_offset
    &&& e.forced_export == b.forced_export && e.not_for_client == b.not_for_client && e.not_for_server == b.not_for_server && e.package_guid == b.package_guid
    &&& e.is_inherited_instance == b.is_inherited_instance && e.package_flags == b.package_flags
    &&& e.not_always_loaded_for_editor_game == b.not_always_loaded_for_editor_game && e.is_asset == b.is_asset && e.generate_public_hash == b.generate_public_hash
    &&& e.public_export_hash == b.public_export_hash && e.first_export_dependency_offset == b.first_export_dependency_offset
    &&& e.serialization_before_serialization_dependencies@ == b.serialization_before_serialization_dependencies@
    &&& e.create_before_serialization_dependencies@ == b.create_before_serialization_dependencies@
    &&& e.serialization_before_create_dependencies@ == b.serialization_before_create_dependencies@
    &&& e.create_before_create_dependencies@ == b.create_before_create_dependencies@
}
pub proof fn sx(v: i32) ensures ((v as i64) as i32) == v { }
//@ fn unreal_asset/src/asset.rs UAssetExportMapEntry read params=archive attr="#[verifier::spinoff_prover]"
    ensures r is Ok ==> rd(old(archive), final(archive), pentry_r(r->Ok_0, old(archive).ov(), old(archive).o5())),
//@ cut entry\.outer_index = ==> proof { reveal(e1); } assert(vx_p@ == e1(entry.class_index, entry.super_index, entry.template_index, vx_0.ov())); let ghost vx_1 = vx_p@; let ghost vx_e1 = entry;  loop invariant_except_break vx_0 == *old(archive), rd(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == vx_1, entry == vx_e1 ensures vx_0 == *old(archive), rd(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == e2(vx_1, entry.outer_index, entry.object_name, entry.object_flags.b, entry.serial_size, entry.serial_offset, vx_0.ov()), entry == (UAssetExportMapEntry { outer_index: entry.outer_index, object_name: entry.object_name, object_flags: entry.object_flags, serial_size: entry.serial_size, serial_offset: entry.serial_offset, ..vx_e1 }) decreases 0nat {
//@ cut entry\.forced_export = ==> proof { reveal(e2); } assert(vx_p@ == e2(vx_1, entry.outer_index, entry.object_name, entry.object_flags.b, entry.serial_size, entry.serial_offset, vx_0.ov())); break; } let ghost vx_2 = vx_p@; let ghost vx_e2 = entry;  loop invariant_except_break vx_0 == *old(archive), rd(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == vx_2, entry == vx_e2 ensures vx_0 == *old(archive), rd(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == e3(vx_2, entry.forced_export, entry.not_for_client, entry.not_for_server, entry.package_guid, entry.is_inherited_instance, vx_0.o5(), false), entry == (UAssetExportMapEntry { forced_export: entry.forced_export, not_for_client: entry.not_for_client, not_for_server: entry.not_for_server, package_guid: entry.package_guid, is_inherited_instance: entry.is_inherited_instance, ..vx_e2 }) decreases 0nat {
//@ cut entry\.package_flags = ==> proof { reveal(e3); } assert(vx_p@ == e3(vx_2, entry.forced_export, entry.not_for_client, entry.not_for_server, entry.package_guid, entry.is_inherited_instance, vx_0.o5(), false)); break; } let ghost vx_3 = vx_p@; let ghost vx_e3 = entry;  loop invariant_except_break vx_0 == *old(archive), rd(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == vx_3, entry == vx_e3 ensures vx_0 == *old(archive), rd(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == e4(vx_3, entry.package_flags, entry.not_always_loaded_for_editor_game, entry.is_asset, entry.generate_public_hash, vx_0.ov(), vx_0.o5(), false), entry == (UAssetExportMapEntry { package_flags: entry.package_flags, not_always_loaded_for_editor_game: entry.not_always_loaded_for_editor_game, is_asset: entry.is_asset, generate_public_hash: entry.generate_public_hash, ..vx_e3 }) decreases 0nat {
//@ cut if archive\.get_object_version\(\)\s*>= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS ==> proof { reveal(e4); } assert(vx_p@ == e4(vx_3, entry.package_flags, entry.not_always_loaded_for_editor_game, entry.is_asset, entry.generate_public_hash, vx_0.ov(), vx_0.o5(), false)); break; } let ghost vx_4 = vx_p@; let ghost vx_e4 = entry;  loop invariant_except_break vx_0 == *old(archive), rd(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == vx_4, entry == vx_e4 ensures vx_0 == *old(archive), rd(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == e5(vx_4, entry.first_export_dependency_offset, caps_r(entry), vx_0.ov()), entry == (UAssetExportMapEntry { first_export_dependency_offset: entry.first_export_dependency_offset, serialization_before_serialization_dependencies: entry.serialization_before_serialization_dependencies, create_before_serialization_dependencies: entry.create_before_serialization_dependencies, serialization_before_create_dependencies: entry.serialization_before_create_dependencies, create_before_create_dependencies: entry.create_before_create_dependencies, ..vx_e4 }) decreases 0nat {
//@ cut Ok\(entry\) ==> proof { reveal(e5); } assert(vx_p@ == e5(vx_4, entry.first_export_dependency_offset, caps_r(entry), vx_0.ov())); break; }
//@ at body-start
    hide(on); hide(o5n); let ghost vx_0 = *archive; let mut vx_p: Ghost<Seq<Pat>> = Ghost(Seq::empty()); proof { rd_nil(archive); }
//@ end
//@ fn unreal_asset/src/asset.rs UAssetExportMapEntry write params=archive,serial_size,serial_offset,first_export_dependency_offset attr="#[verifier::spinoff_prover]"
    ensures r is Ok ==> wr(old(archive), final(archive), pentry(*self, serial_size, serial_offset, first_export_dependency_offset, caps_w(*self), old(archive).ov(), old(archive).o5(), true)),
//@ cut archive\.write_i32::<LE>\(self\.outer_index ==> proof { reveal(e1); } assert(vx_p@ == e1(self.class_index, self.super_index, self.template_index, vx_0.ov())); let ghost vx_1 = vx_p@;  loop invariant_except_break vx_0 == *old(archive), wr(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == vx_1 ensures vx_0 == *old(archive), wr(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == e2(vx_1, self.outer_index, self.object_name, self.object_flags.b, serial_size, serial_offset, vx_0.ov()) decreases 0nat {
//@ cut archive\.write_i32::<LE>\(match self\.forced_export ==> proof { reveal(e2); } assert(vx_p@ == e2(vx_1, self.outer_index, self.object_name, self.object_flags.b, serial_size, serial_offset, vx_0.ov())); break; } let ghost vx_2 = vx_p@;  loop invariant_except_break vx_0 == *old(archive), wr(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == vx_2 ensures vx_0 == *old(archive), wr(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == e3(vx_2, self.forced_export, self.not_for_client, self.not_for_server, self.package_guid, self.is_inherited_instance, vx_0.o5(), true) decreases 0nat {
//@ cut archive\.write_u32::<LE>\(self\.package_flags ==> proof { reveal(e3); } assert(vx_p@ == e3(vx_2, self.forced_export, self.not_for_client, self.not_for_server, self.package_guid, self.is_inherited_instance, vx_0.o5(), true)); break; } let ghost vx_3 = vx_p@;  loop invariant_except_break vx_0 == *old(archive), wr(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == vx_3 ensures vx_0 == *old(archive), wr(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == e4(vx_3, self.package_flags, self.not_always_loaded_for_editor_game, self.is_asset, self.generate_public_hash, vx_0.ov(), vx_0.o5(), true) decreases 0nat {
//@ cut if archive\.get_object_version\(\)\s*>= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS ==> proof { reveal(e4); } assert(vx_p@ == e4(vx_3, self.package_flags, self.not_always_loaded_for_editor_game, self.is_asset, self.generate_public_hash, vx_0.ov(), vx_0.o5(), true)); break; } let ghost vx_4 = vx_p@;  loop invariant_except_break vx_0 == *old(archive), wr(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == vx_4 ensures vx_0 == *old(archive), wr(&vx_0, archive, vx_p@), archive.ov() == vx_0.ov(), archive.o5() == vx_0.o5(), vx_p@ == e5(vx_4, first_export_dependency_offset, caps_w(*self), vx_0.ov()) decreases 0nat {
//@ cut Ok\(\(\)\) ==> proof { reveal(e5); } assert(vx_p@ == e5(vx_4, first_export_dependency_offset, caps_w(*self), vx_0.ov())); break; }
//@ at body-start
    hide(on); hide(o5n); let ghost vx_0 = *archive; let mut vx_p: Ghost<Seq<Pat>> = Ghost(Seq::empty()); proof { wr_nil(archive); }
//@ end
//@ fn unreal_asset/src/asset.rs UAssetExportMapEntry to_base_export
    ensures same(self, r),
//@ end
//@ rewrite \bb\.object_name\.clone\(\) ==> vx_dup(&b.object_name)
//@ rewrite \bb\s*\.(\w+_dependencies)\s*\.clone\(\) ==> vx_dupv(&b.\1)
//@ fn unreal_asset/src/asset.rs UAssetExportMapEntry from_base_export params=b
    ensures same(r, *b),
//@ end













//REST
// ---- the package summary ----
#[verifier::external_body] pub struct Names { x: u8 }
impl Names { pub uninterp spec fn v(&self) -> Seq<String>; }
#[verifier::external_body]
pub fn vx_names<'a>(n: &'a Names) -> (r: &'a Vec<String>) ensures r@ == n.v() { unimplemented!() }
#[verifier::external_body] pub struct Hashes { x: u8 }
#[verifier::external_body] pub struct Overrides { x: u8 }
#[verifier::external_body] pub struct EngineVersion { x: u8 }
#[verifier::external_body] pub struct Usmap { x: u8 }
#[verifier::external_body] pub struct Export { x: u8 }
#[verifier::external_body] pub struct FWorldTileInfo { x: u8 }
#[verifier::external_body] pub struct ParentClassInfo { x: u8 }
#[verifier::external_body] pub struct Mapped { x: u8 }
//@ rewrite RawReader<PackageIndex, C> ==> C
//@ rewrite C: Read \+ Seek ==> C: ArchiveReaderX
//@ rewrite SharedResource<NameMap> ==> Names
//@ rewrite IndexedMap<String, u32> ==> Hashes
//@ rewrite IndexedMap<String, String> ==> Overrides
//@ rewrite &'static \[\(EngineVersion, i32\)\] ==> Mapped
//@ struct unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion
//@ struct unreal_asset/unreal_asset_base/src/types/mod.rs GenerationInfo
//@ struct unreal_asset/unreal_asset_base/src/import.rs Import
//@ struct unreal_asset/src/package_file_summary.rs PackageFileSummary
//@ struct unreal_asset/src/asset_data.rs AssetData
//@ struct unreal_asset/src/asset.rs AssetHeader
//@ struct unreal_asset/src/asset.rs Asset
//@ enum unreal_asset/unreal_asset_base/src/enums.rs ECustomVersionSerializationFormat
//@ expect unreal_asset/src/lib.rs const UE4_ASSET_MAGIC : u32 = u32 :: from_be_bytes \( \[ 0xc1 , 0x83 , 0x2a , 0x9e (?:, )?\] \) ;
pub const UE4_ASSET_MAGIC: u32 = 0xc1832a9e;
/// what a summary holds
pub struct Hd {
    pub ov: ObjectVersion, pub o5: ObjectVersionUE5, pub legacy: i32, pub unversioned: bool, pub fv: i32, pub f5: i32, pub licensee: i32, pub ncustom: i32, pub customs: Seq<(Guid, i32)>,
    pub header_offset: i32, pub folder: Seq<char>, pub flags: u32, pub name_count: i32, pub name_offset: i32, pub paths: i32, pub paths_offset: i32, pub texts: i32, pub texts_offset: i32,
    pub exports: i32, pub export_offset: i32, pub imports: i32, pub import_offset: i32, pub depends_offset: i32, pub soft: i32, pub soft_offset: i32, pub searchable_offset: i32, pub thumbnail_offset: i32,
    pub guid: Guid, pub ngens: i32, pub gens: Seq<(i32, i32)>,
    pub recorded: FEngineVersion, pub compatible: FEngineVersion, pub compression: u32, pub source: u32,
    pub registry_offset: i32, pub bulk: i64, pub tile_offset: i32, pub nchunks: i32, pub chunks: Seq<i32>, pub preload: i32, pub preload_offset: i32,
    pub referenced: i32, pub toc: i64, pub resources: i32,
}
pub open spec fn at(a: ObjectVersion, b: ObjectVersion) -> bool { on(a) >= on(b) }
pub open spec fn at5(a: ObjectVersionUE5, b: ObjectVersionUE5) -> bool { o5n(a) >= o5n(b) }
pub open spec fn pcv(v: (Guid, i32)) -> Seq<Pat> { pblob(v.0.0@) + p32(v.1 as u32) }
pub open spec fn fcv() -> spec_fn((Guid, i32)) -> Seq<Pat> { |v: (Guid, i32)| pcv(v) }
pub open spec fn pgen(v: (i32, i32)) -> Seq<Pat> { p32(v.0 as u32) + p32(v.1 as u32) }
pub open spec fn fgen() -> spec_fn((i32, i32)) -> Seq<Pat> { |v: (i32, i32)| pgen(v) }
pub open spec fn fi32() -> spec_fn(i32) -> Seq<Pat> { |v: i32| p32(v as u32) }
pub open spec fn cvs(s: Seq<CustomVersion>) -> Seq<(Guid, i32)> { s.map_values(|v: CustomVersion| (v.guid, v.version)) }
pub open spec fn gns(s: Seq<GenerationInfo>) -> Seq<(i32, i32)> { s.map_values(|v: GenerationInfo| (v.export_count, v.name_count)) }
pub mod hd { use vstd::prelude::*; use super::*;
/// the version kept for Unreal Engine 3: ignored, written as 864 in versioned packages
#[verifier::opaque]
pub open spec fn pue3(unversioned: bool, exact: bool) -> Seq<Pat> { if !exact { anyb(4) } else { p32(if unversioned { 0 } else { 864 }) } }
#[verifier::opaque]
pub open spec fn h1(legacy: i32, unversioned: bool, fv: i32, f5: i32, licensee: i32, n: i32, customs: Seq<(Guid, i32)>, exact: bool) -> Seq<Pat> {
    let p = pbe(0xc1832a9e) + p32(legacy as u32);
    let p = if legacy != -4 { p + pue3(unversioned, exact) } else { p };
    let p = p + p32(fv as u32);
    let p = if legacy <= -8 { p + p32(f5 as u32) } else { p };
    let p = p + p32(licensee as u32);
    if legacy <= -2 { p + p32(n as u32) + pseq(customs, customs.len(), fcv()) } else { p }
}
#[verifier::opaque]
pub open spec fn h2(p: Seq<Pat>, ov: ObjectVersion, o5: ObjectVersionUE5, header_offset: i32, folder: Seq<char>, flags: u32, names: i32, name_offset: i32, paths: i32, paths_offset: i32, texts: i32, texts_offset: i32) -> Seq<Pat> {
    let p = p + p32(header_offset as u32) + pstr(Some(folder)) + p32(flags) + p32(names as u32) + p32(name_offset as u32);
    let p = if at5(o5, ObjectVersionUE5::ADD_SOFTOBJECTPATH_LIST) { p + p32(paths as u32) + p32(paths_offset as u32) } else { p };
    if at(ov, ObjectVersion::VER_UE4_SERIALIZE_TEXT_IN_PACKAGES) { p + p32(texts as u32) + p32(texts_offset as u32) } else { p }
}
#[verifier::opaque]
pub open spec fn h3(p: Seq<Pat>, ov: ObjectVersion, exports: i32, export_offset: i32, imports: i32, import_offset: i32, depends_offset: i32, soft: i32, soft_offset: i32, searchable: i32, thumbnail: i32) -> Seq<Pat> {
    let p = p + p32(exports as u32) + p32(export_offset as u32) + p32(imports as u32) + p32(import_offset as u32) + p32(depends_offset as u32);
    let p = if at(ov, ObjectVersion::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP) { p + p32(soft as u32) + p32(soft_offset as u32) } else { p };
    let p = if at(ov, ObjectVersion::VER_UE4_ADDED_SEARCHABLE_NAMES) { p + p32(searchable as u32) } else { p };
    p + p32(thumbnail as u32)
}
#[verifier::opaque]
pub open spec fn h4(p: Seq<Pat>, guid: Guid, n: i32, gens: Seq<(i32, i32)>) -> Seq<Pat> { p + pblob(guid.0@) + p32(n as u32) + pseq(gens, gens.len(), fgen()) }
#[verifier::opaque]
pub open spec fn h5(p: Seq<Pat>, ov: ObjectVersion, recorded: FEngineVersion, compatible: FEngineVersion, compression: u32, source: u32, legacy: i32) -> Seq<Pat> {
    let p = if at(ov, ObjectVersion::VER_UE4_ENGINE_VERSION_OBJECT) { p + pengine(recorded) } else { p + p32(recorded.build) };
    let p = if at(ov, ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION) { p + pengine(compatible) } else { p };
    let p = p + p32(compression) + p32(0) + p32(source) + p32(0);
    if legacy > -7 { p + p32(0) } else { p }
}
#[verifier::opaque]
pub open spec fn h6(p: Seq<Pat>, ov: ObjectVersion, registry_offset: i32, bulk: i64, tile: i32, n: i32, chunks: Seq<i32>) -> Seq<Pat> {
    let p = p + p32(registry_offset as u32) + p64(bulk as u64);
    let p = if at(ov, ObjectVersion::VER_UE4_WORLD_LEVEL_INFO) { p + p32(tile as u32) } else { p };
    if at(ov, ObjectVersion::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS) { p + p32(n as u32) + pseq(chunks, chunks.len(), fi32()) }
    else if at(ov, ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE) { p + p32(chunks[0] as u32) } else { p }
}
#[verifier::opaque]
pub open spec fn h7(p: Seq<Pat>, ov: ObjectVersion, o5: ObjectVersionUE5, preload: i32, preload_offset: i32, referenced: i32, toc: i64, resources: i32) -> Seq<Pat> {
    let p = if at(ov, ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS) { p + p32(preload as u32) + p32(preload_offset as u32) } else { p };
    let p = if at5(o5, ObjectVersionUE5::NAMES_REFERENCED_FROM_EXPORT_DATA) { p + p32(referenced as u32) } else { p };
    let p = if at5(o5, ObjectVersionUE5::PAYLOAD_TOC) { p + p64(toc as u64) } else { p };
    if at5(o5, ObjectVersionUE5::DATA_RESOURCES) { p + p32(resources as u32) } else { p }
}
}
use hd::*;
/// a summary, as stored
pub open spec fn phead(h: Hd, exact: bool) -> Seq<Pat> {
    let p = h1(h.legacy, h.unversioned, h.fv, h.f5, h.licensee, h.ncustom, h.customs, exact);
    let p = h2(p, h.ov, h.o5, h.header_offset, h.folder, h.flags, h.name_count, h.name_offset, h.paths, h.paths_offset, h.texts, h.texts_offset);
    let p = h3(p, h.ov, h.exports, h.export_offset, h.imports, h.import_offset, h.depends_offset, h.soft, h.soft_offset, h.searchable_offset, h.thumbnail_offset);
    let p = h4(p, h.guid, h.ngens, h.gens);
    let p = h5(p, h.ov, h.recorded, h.compatible, h.compression, h.source, h.legacy);
    let p = h6(p, h.ov, h.registry_offset, h.bulk, h.tile_offset, h.nchunks, h.chunks);
    h7(p, h.ov, h.o5, h.preload, h.preload_offset, h.referenced, h.toc, h.resources)
}
/// the summary an asset is written with
pub open spec fn whd<C: ArchiveReaderX>(a: Asset<C>, o: AssetHeader) -> Hd {
    let unv = a.asset_data.summary.unversioned;
    let cs = if unv { Seq::empty() } else { cvs(a.asset_data.summary.custom_versions@) };
    let (ne, nn) = (a.asset_data.exports@.len() as i32, a.name_map.v().len() as i32);
    Hd {
        ov: a.asset_data.object_version, o5: a.asset_data.object_version_ue5, legacy: a.legacy_file_version, unversioned: unv,
        fv: if unv { 0 } else { on(a.asset_data.object_version) as i32 }, f5: if unv { 0 } else { o5n(a.asset_data.object_version_ue5) as i32 },
        licensee: a.asset_data.summary.file_licensee_version, ncustom: cs.len() as i32, customs: cs,
        header_offset: o.header_offset, folder: a.folder_name@, flags: a.asset_data.summary.package_flags.b, name_count: nn, name_offset: o.name_offset,
        paths: a.soft_object_paths_count, paths_offset: a.soft_object_paths_offset, texts: a.gatherable_text_data_count, texts_offset: a.gatherable_text_data_offset,
        exports: ne, export_offset: o.export_offset, imports: a.imports@.len() as i32, import_offset: o.import_offset, depends_offset: o.depends_offset,
        soft: a.soft_package_reference_count, soft_offset: o.soft_package_reference_offset, searchable_offset: a.searchable_names_offset, thumbnail_offset: a.thumbnail_table_offset,
        guid: a.package_guid, ngens: a.generations@.len() as i32, gens: Seq::new(a.generations@.len(), |i: int| (ne, nn)),
        recorded: a.engine_version_recorded, compatible: a.engine_version_compatible, compression: a.compression_flags, source: a.package_source,
        registry_offset: o.asset_registry_data_offset, bulk: o.bulk_data_start_offset, tile_offset: o.world_tile_info_offset, nchunks: a.chunk_ids@.len() as i32, chunks: a.chunk_ids@,
        preload: o.preload_dependency_count, preload_offset: o.preload_dependency_offset,
        referenced: a.names_referenced_from_export_data_count, toc: a.payload_toc_offset, resources: a.data_resource_offset,
    }
}
#[verifier::external_body]
pub fn vx_ovn(v: ObjectVersion) -> (r: i32) ensures r == on(v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_o5n(v: ObjectVersionUE5) -> (r: i32) ensures r == o5n(v) { unimplemented!() }
//@ rewrite self\.asset_data\.object_version as i32 ==> vx_ovn(self.asset_data.object_version)
//@ rewrite self\.get_object_version_ue5\(\) as i32 ==> vx_o5n(self.get_object_version_ue5())
//@ rewrite self\.name_map\.get_ref\(\)\.get_name_map_index_list\(\) ==> vx_names(&self.name_map)
//@ rewrite self\.(engine_version_\w+)\.write\(cursor\) ==> vx_write_engine(cursor, Ghost(vx_0), &mut vx_p, &self.\1)
//@ rewrite vx_write_u32::<BE>\( ==> vx_write_be(
//@ rewrite cursor\.write_u32::<BE>\( ==> vx_write_be(cursor, Ghost(vx_0), &mut vx_p, 
//@ rewrite Some\(&self\.folder_name\) ==> Some(self.folder_name.as_str())
//@ fn unreal_asset/src/asset.rs "ArchiveTrait for Asset" get_object_version_ue5
    ensures r == self.asset_data.object_version_ue5,
//@ end
//@ fn unreal_asset/src/asset.rs "ArchiveTrait for Asset" get_object_version
    ensures r == self.asset_data.object_version,
//@ end
pub open spec fn chunky<C: ArchiveReaderX>(a: Asset<C>) -> bool { at(a.asset_data.object_version, ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE) ==> at(a.asset_data.object_version, ObjectVersion::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS) || a.chunk_ids@.len() > 0 }
//@ fn unreal_asset/src/asset.rs Asset write_header params=cursor,asset_header attr="#[verifier::spinoff_prover]"
    requires chunky(*self),
    ensures r is Ok ==> wr(old(cursor), final(cursor), phead(whd(*self, *asset_header), true)),
//@ cut cursor\.write_u32::<BE> ==> let ghost vx_q0 = vx_p@; loop invariant_except_break vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == vx_q0 , vx_0 == *old(cursor), vx_p@ == Seq::<Pat>::empty() ensures vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == h1(vx_h.legacy, vx_h.unversioned, vx_h.fv, vx_h.f5, vx_h.licensee, vx_h.ncustom, vx_h.customs, true) decreases 0nat {
//@ cut cursor\.write_i32::<LE>\(asset_header\.header_offset\) ==> proof { reveal(h1); reveal(pue3); } assert(vx_p@ == h1(vx_h.legacy, vx_h.unversioned, vx_h.fv, vx_h.f5, vx_h.licensee, vx_h.ncustom, vx_h.customs, true)); break; } let ghost vx_q1 = vx_p@; loop invariant_except_break vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == vx_q1  ensures vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == h2(vx_q1, vx_h.ov, vx_h.o5, vx_h.header_offset, vx_h.folder, vx_h.flags, vx_h.name_count, vx_h.name_offset, vx_h.paths, vx_h.paths_offset, vx_h.texts, vx_h.texts_offset) decreases 0nat {
//@ cut cursor\.write_i32::<LE>\(self\.asset_data\.exports\.len\(\) as i32\)\?;\s*cursor\.write_i32::<LE>\(asset_header\.export_offset ==> proof { reveal(h2); } assert(vx_p@ == h2(vx_q1, vx_h.ov, vx_h.o5, vx_h.header_offset, vx_h.folder, vx_h.flags, vx_h.name_count, vx_h.name_offset, vx_h.paths, vx_h.paths_offset, vx_h.texts, vx_h.texts_offset)); break; } let ghost vx_q2 = vx_p@; loop invariant_except_break vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == vx_q2  ensures vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == h3(vx_q2, vx_h.ov, vx_h.exports, vx_h.export_offset, vx_h.imports, vx_h.import_offset, vx_h.depends_offset, vx_h.soft, vx_h.soft_offset, vx_h.searchable_offset, vx_h.thumbnail_offset) decreases 0nat {
//@ cut cursor\.write_guid\(&self\.package_guid\) ==> proof { reveal(h3); } assert(vx_p@ == h3(vx_q2, vx_h.ov, vx_h.exports, vx_h.export_offset, vx_h.imports, vx_h.import_offset, vx_h.depends_offset, vx_h.soft, vx_h.soft_offset, vx_h.searchable_offset, vx_h.thumbnail_offset)); break; } let ghost vx_q3 = vx_p@; loop invariant_except_break vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == vx_q3  ensures vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == h4(vx_q3, vx_h.guid, vx_h.ngens, vx_h.gens) decreases 0nat {
//@ cut if self\.asset_data\.object_version >= ObjectVersion::VER_UE4_ENGINE_VERSION_OBJECT ==> proof { reveal(h4); } assert(vx_p@ == h4(vx_q3, vx_h.guid, vx_h.ngens, vx_h.gens)); break; } let ghost vx_q4 = vx_p@; loop invariant_except_break vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == vx_q4  ensures vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == h5(vx_q4, vx_h.ov, vx_h.recorded, vx_h.compatible, vx_h.compression, vx_h.source, vx_h.legacy) decreases 0nat {
//@ cut cursor\.write_i32::<LE>\(asset_header\.asset_registry_data_offset\) ==> proof { reveal(h5); } assert(vx_p@ == h5(vx_q4, vx_h.ov, vx_h.recorded, vx_h.compatible, vx_h.compression, vx_h.source, vx_h.legacy)); break; } let ghost vx_q5 = vx_p@; loop invariant_except_break vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == vx_q5  ensures vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == h6(vx_q5, vx_h.ov, vx_h.registry_offset, vx_h.bulk, vx_h.tile_offset, vx_h.nchunks, vx_h.chunks) decreases 0nat {
//@ cut if self\.asset_data\.object_version\s*>= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS ==> proof { reveal(h6); } assert(vx_p@ == h6(vx_q5, vx_h.ov, vx_h.registry_offset, vx_h.bulk, vx_h.tile_offset, vx_h.nchunks, vx_h.chunks)); break; } let ghost vx_q6 = vx_p@; loop invariant_except_break vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == vx_q6  ensures vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), chunky(*self), wr(&vx_0, cursor, vx_p@), vx_p@ == h7(vx_q6, vx_h.ov, vx_h.o5, vx_h.preload, vx_h.preload_offset, vx_h.referenced, vx_h.toc, vx_h.resources) decreases 0nat {
//@ cut Ok\(\(\)\) ==> proof { reveal(h7); } assert(vx_p@ == h7(vx_q6, vx_h.ov, vx_h.o5, vx_h.preload, vx_h.preload_offset, vx_h.referenced, vx_h.toc, vx_h.resources)); break; } 
//@ at pre-loop 0
    let ghost vx_a = vx_p@;
//@ loop 0 it=it
    invariant vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), wr(&vx_0, cursor, vx_p@), it.seq() == refs_of(self.asset_data.summary.custom_versions@), vx_h.customs == cvs(self.asset_data.summary.custom_versions@), vx_p@ == vx_a + pseq(vx_h.customs, it.index() as nat, fcv()),
//@ at loop-start 0
    let ghost vx_b = vx_p@;
//@ at loop-end 0
    proof { let n = it.index() as nat; let x = vx_h.customs[n as int]; assert(fcv()(x) == pblob(x.0.0@) + p32(x.1 as u32)); pat_assoc(vx_b, pblob(x.0.0@), p32(x.1 as u32)); pseq_step(vx_a, vx_h.customs, n, fcv()); }
//@ at pre-loop 1
    let ghost vx_a = vx_p@;
//@ loop 1 it=it
    invariant vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), wr(&vx_0, cursor, vx_p@), vx_p@ == vx_a + pseq(vx_h.gens, it.index() as nat, fgen()),
//@ at loop-start 1
    let ghost vx_b = vx_p@;
//@ at loop-end 1
    proof { let n = it.index() as nat; let x = vx_h.gens[n as int]; assert(fgen()(x) == p32(x.0 as u32) + p32(x.1 as u32)); pat_assoc(vx_b, p32(x.0 as u32), p32(x.1 as u32)); pseq_step(vx_a, vx_h.gens, n, fgen()); }
//@ at pre-loop 2
    let ghost vx_a = vx_p@;
//@ loop 2 it=it
    invariant vx_0 == *old(cursor), vx_h == whd(*self, *asset_header), wr(&vx_0, cursor, vx_p@), it.seq() == refs_of(self.chunk_ids@), vx_p@ == vx_a + pseq(self.chunk_ids@, it.index() as nat, fi32()),
//@ at loop-start 2
    let ghost vx_b = vx_p@;
//@ at loop-end 2
    proof { let n = it.index() as nat; assert(fi32()(self.chunk_ids@[n as int]) == p32(self.chunk_ids@[n as int] as u32)); pseq_step(vx_a, self.chunk_ids@, n, fi32()); }
//@ at body-start
    hide(on); hide(o5n); let ghost vx_0 = *cursor; let ghost vx_h = whd(*self, *asset_header); let mut vx_p: Ghost<Seq<Pat>> = Ghost(Seq::empty()); proof { wr_nil(cursor); }
//@ end

// ---- reading the summary ----
pub open spec fn rewound<S: Archive>(a: &S, b: &S) -> bool { b.pre() == Seq::<u8>::empty() && b.post() == a.pre() + a.post() && b.ov() == a.ov() && b.o5() == a.o5() && b.cv() == a.cv() }
#[verifier::external_body]
pub fn vx_rewind<S: ArchiveReaderX>(s: &mut S) -> (r: Result<(), Error>) ensures r is Ok ==> rewound(old(s), final(s)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_ov(v: i32) -> (r: Result<ObjectVersion, Error>) ensures r is Ok ==> on(r->Ok_0) == v { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_o5(v: i32) -> (r: Result<ObjectVersionUE5, Error>) ensures r is Ok ==> o5n(r->Ok_0) == v { unimplemented!() }
/// the version mappings give, where there are mappings
#[verifier::external_body]
pub fn vx_map5<C: ArchiveReaderX>(a: &Asset<C>) -> ObjectVersionUE5 { unimplemented!() }
/// no mappings are set (they come with unversioned packages)
pub uninterp spec fn unmapped(c: Cvs) -> bool;
#[verifier::external_body]
pub fn vx_mapped<S: ArchiveReaderX>(s: &S) -> (r: Option<Vec<CustomVersion>>) ensures unmapped(s.cv()) ==> r is None { unimplemented!() }
#[verifier::external_body] pub struct GuidSet { x: u8 }
impl GuidSet {
    #[verifier::external_body] pub fn new() -> GuidSet { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, g: Guid) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, g: &Guid) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_custom(guid: Guid, version: i32) -> (r: CustomVersion) ensures r.guid == guid, r.version == version { unimplemented!() }
pub proof fn cvs_push(s: Seq<CustomVersion>, v: CustomVersion) ensures cvs(s.push(v)) =~= cvs(s).push((v.guid, v.version)) {}
pub open spec fn starts(l: Seq<CustomVersion>, st: Seq<(Guid, i32)>) -> bool { l.len() >= st.len() && cvs(l).take(st.len() as int) == st }
pub proof fn starts_push(l: Seq<CustomVersion>, v: CustomVersion, st: Seq<(Guid, i32)>) requires starts(l, st) ensures starts(l.push(v), st) { cvs_push(l, v); assert(cvs(l).push((v.guid, v.version)).take(st.len() as int) =~= cvs(l).take(st.len() as int)); }
pub open spec fn pcust(n: i32, st: Seq<(Guid, i32)>) -> Seq<Pat> { p32(n as u32) + pseq(st, st.len(), fcv()) }
pub open spec fn custom_ok<S: ArchiveReaderX>(a: &S, b: &S, plain: bool, l: Seq<CustomVersion>, n: i32, st: Seq<(Guid, i32)>) -> bool {
    rd(a, b, pcust(n, st)) && st.len() == (if n < 0 { 0 } else { n as int }) && starts(l, st) && (plain ==> cvs(l) == st)
}
pub open spec fn customs<S: ArchiveReaderX>(a: &S, b: &S, plain: bool, l: Seq<CustomVersion>) -> bool { exists|n: i32, st: Seq<(Guid, i32)>| custom_ok(a, b, plain, l, n, st) }
//@ rewrite self\.get_mappings\(\)\.as_ref\(\)\.map\(\|e\| &e\.custom_versions\) ==> vx_mapped(self)
//@ rewrite HashSet::new\(\) ==> GuidSet::new()
//@ rewrite CustomVersion::new\( ==> vx_custom(
//@ rewrite custom_version\.clone\(\) ==> vx_dup(&custom_version)
//@ fn unreal_asset/unreal_asset_base/src/reader/archive_reader.rs "trait ArchiveReader" read_custom_version_container mode=free self=S gen="<S: ArchiveReaderX>" params=format,old_container
    ensures r is Ok ==> customs(old(this), final(this), unmapped(old(this).cv()) && old_container is None, r->Ok_0@),
//@ rw self\.(read_\w+)(?:::<LE>)?\(\) ==> vx_\1(self, Ghost(vx_0), &mut vx_p)
//@ at body-start
    let ghost vx_0 = *this; let mut vx_p: Ghost<Seq<Pat>> = Ghost(Seq::empty()); proof { rd_nil(this); }
//@ at pre-loop 0
    let ghost vx_a = vx_p@;
//@ loop 0 it=it
    invariant vx_0 == *old(this), this.cv() == vx_0.cv(), rd(&vx_0, this, vx_p@), vx_a == p32(num_custom_versions as u32), vx_p@ == vx_a + pseq(cvs(new_container@), it.index() as nat, fcv()), new_container@.len() == it.index(),
//@ at loop-start 0
    let ghost vx_b = vx_p@; let ghost vx_l = new_container@;
//@ at loop-end 0
    proof { let x = (new_container@.last().guid, new_container@.last().version); cvs_push(vx_l, new_container@.last()); assert(vx_l.push(new_container@.last()) =~= new_container@); assert(fcv()(x) == pblob(x.0.0@) + p32(x.1 as u32)); pat_assoc(vx_b, pblob(x.0.0@), p32(x.1 as u32)); pseq_push(vx_a, cvs(vx_l), x, fcv()); }
//@ at post-loop 0
    let ghost vx_st = cvs(new_container@); proof { assert(vx_st.take(vx_st.len() as int) =~= vx_st); assert(starts(new_container@, vx_st)); }
//@ loop 1 it=it
    invariant starts(new_container@, vx_st),
//@ at loop-start 1
    let ghost vx_l = new_container@;
//@ at loop-end 1
    proof { if new_container@ != vx_l { starts_push(vx_l, new_container@.last(), vx_st); assert(vx_l.push(new_container@.last()) =~= new_container@); } }
//@ loop 2 it=it
    invariant starts(new_container@, vx_st),
//@ at loop-start 2
    let ghost vx_l = new_container@;
//@ at loop-end 2
    proof { if new_container@ != vx_l { starts_push(vx_l, new_container@.last(), vx_st); assert(vx_l.push(new_container@.last()) =~= new_container@); } }
//@ at before-tail
    proof { assert(custom_ok(old(this), this, unmapped(vx_0.cv()) && old_container is None, new_container@, num_custom_versions, vx_st)); }
//@ end

pub fn vx_read_customs<S: ArchiveReaderX>(s: &mut S, a: Ghost<S>, p: &mut Ghost<Seq<Pat>>, n: &mut Ghost<i32>, st: &mut Ghost<Seq<(Guid, i32)>>, format: ECustomVersionSerializationFormat, old_container: Option<&[CustomVersion]>) -> (r: Result<Vec<CustomVersion>, Error>)
    requires rd(&a@, old(s), old(p)@),
    ensures r is Ok ==> final(p)@ == old(p)@ + p32(final(n)@ as u32) + pseq(final(st)@, final(st)@.len(), fcv()) && rd(&a@, final(s), final(p)@) && final(s).cv() == old(s).cv()
        && final(st)@.len() == (if final(n)@ < 0 { 0 } else { final(n)@ as int }) && starts(r->Ok_0@, final(st)@) && (unmapped(old(s).cv()) && old_container is None ==> cvs(r->Ok_0@) == final(st)@),
{
    let ghost q = *s; let ghost p0 = p@;
    let r = read_custom_version_container(s, format, old_container)?;
    proof {
        let plain = unmapped(q.cv()) && old_container is None;
        assert(customs(&q, s, plain, r@));
        let (n1, st1) = choose|n1: i32, st1: Seq<(Guid, i32)>| custom_ok(&q, s, plain, r@, n1, st1);
        rd_trans(&a@, &q, s, p0, pcust(n1, st1)); rd_ctx(&q, s, pcust(n1, st1)); pat_assoc(p0, p32(n1 as u32), pseq(st1, st1.len(), fcv()));
        *p = Ghost(p0 + p32(n1 as u32) + pseq(st1, st1.len(), fcv())); *n = Ghost(n1); *st = Ghost(st1);
    }
    Ok(r)
}
pub fn vx_one(x: i32) -> (r: Vec<i32>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
pub fn vx_when<'a>(b: bool, v: &'a Vec<CustomVersion>) -> (r: Option<&'a [CustomVersion]>) ensures r is Some == b { if b { Some(v.as_slice()) } else { None } }
//@ rewrite (self\.asset_data\s*\.summary\s*\.unversioned)\s*\.then_some\((\w+)\.as_slice\(\)\) ==> vx_when(\1, &\2)
//@ rewrite self\.asset_data\.summary\.custom_versions\.clone\(\) ==> vx_dupv(&self.asset_data.summary.custom_versions)
//@ rewrite self\.engine_version_recorded\.clone\(\) ==> vx_dup(&self.engine_version_recorded)
//@ rewrite self\.read_custom_version_container\(\s*self\.get_custom_version_serialization_format\(\), ==> vx_read_customs(&mut self.raw_reader, Ghost(vx_0), &mut vx_p, &mut vx_nc, &mut vx_cs, vx_fmt,
//@ rewrite self\.rewind\(\) ==> vx_rewind(&mut self.raw_reader)
//@ rewrite self\.read_u32::<BE>\(\) ==> vx_read_be(&mut self.raw_reader, Ghost(vx_0), &mut vx_p)
//@ rewrite self\.read_exact\(&mut \[0u8; 4\]\) ==> vx_read_skip4(&mut self.raw_reader, Ghost(vx_0), &mut vx_p)
//@ rewrite FEngineVersion::read\(self\) ==> vx_read_engine(&mut self.raw_reader, Ghost(vx_0), &mut vx_p)
//@ rewrite self\s*\.(?:raw_reader\.)?(read_\w+)(?:::<LE>)?\(\) ==> vx_\1(&mut self.raw_reader, Ghost(vx_0), &mut vx_p)
//@ rewrite self\s*\.get_mappings\(\)\s*\.map\(\|e\| e\.object_version_ue5\)\s*\.unwrap_or\(ObjectVersionUE5::UNKNOWN\) ==> vx_map5(self)
//@ rewrite (E\w+Flags)::from_bits\((vx_read_u32\([^?]*\)\?)\)\s*\.ok_or\(Error::Any\)\? ==> \1::vx_from_bits(\2)?
//@ fn unreal_asset/src/asset.rs Asset get_custom_version_serialization_format
//@ end
/// what the summary held that an asset was read from: the asset's own fields, and these
pub struct Raw { pub fv: i32, pub f5: i32, pub nc: i32, pub cs: Seq<(Guid, i32)>, pub ng: i32, pub nch: i32 }
pub open spec fn rhd<C: ArchiveReaderX>(a: Asset<C>, w: Raw) -> Hd {
    Hd {
        ov: a.asset_data.object_version, o5: a.asset_data.object_version_ue5, legacy: a.legacy_file_version, unversioned: a.asset_data.summary.unversioned,
        fv: w.fv, f5: w.f5, licensee: a.asset_data.summary.file_licensee_version, ncustom: w.nc, customs: w.cs,
        header_offset: a.header_offset, folder: a.folder_name@, flags: a.asset_data.summary.package_flags.b, name_count: a.name_count, name_offset: a.name_offset,
        paths: a.soft_object_paths_count, paths_offset: a.soft_object_paths_offset, texts: a.gatherable_text_data_count, texts_offset: a.gatherable_text_data_offset,
        exports: a.asset_data.summary.export_count, export_offset: a.export_offset, imports: a.asset_data.summary.import_count, import_offset: a.import_offset, depends_offset: a.depends_offset,
        soft: a.soft_package_reference_count, soft_offset: a.soft_package_reference_offset, searchable_offset: a.searchable_names_offset, thumbnail_offset: a.thumbnail_table_offset,
        guid: a.package_guid, ngens: w.ng, gens: gns(a.generations@),
        recorded: a.engine_version_recorded, compatible: a.engine_version_compatible, compression: a.compression_flags, source: a.package_source,
        registry_offset: a.asset_registry_data_offset, bulk: a.bulk_data_start_offset, tile_offset: a.world_tile_info_offset, nchunks: w.nch, chunks: a.chunk_ids@,
        preload: a.preload_dependency_count, preload_offset: a.preload_dependency_offset,
        referenced: a.names_referenced_from_export_data_count, toc: a.payload_toc_offset, resources: a.data_resource_offset,
    }
}
pub proof fn on_zero() ensures forall|v: ObjectVersion| #[trigger] on(v) == on(ObjectVersion::UNKNOWN) ==> v == ObjectVersion::UNKNOWN {}
pub open spec fn vers_ok<C: ArchiveReaderX>(o: Asset<C>, a: Asset<C>, w: Raw) -> bool {
    &&& a.asset_data.summary.unversioned == (w.fv == on(ObjectVersion::UNKNOWN))
    &&& a.asset_data.summary.unversioned ==> a.asset_data.object_version == o.asset_data.object_version && a.asset_data.object_version != ObjectVersion::UNKNOWN
    &&& !a.asset_data.summary.unversioned ==> on(a.asset_data.object_version) == w.fv
    &&& a.legacy_file_version <= -8 && w.f5 > o5n(ObjectVersionUE5::UNKNOWN) ==> o5n(a.asset_data.object_version_ue5) == w.f5
    &&& a.legacy_file_version <= -2 ==> w.cs.len() == (if w.nc < 0 { 0 } else { w.nc as int }) && starts(a.asset_data.summary.custom_versions@, w.cs)
    &&& a.legacy_file_version <= -2 && !a.asset_data.summary.unversioned && unmapped(o.raw_reader.cv()) ==> cvs(a.asset_data.summary.custom_versions@) == w.cs
}
pub open spec fn lists_ok<C: ArchiveReaderX>(a: Asset<C>, w: Raw) -> bool {
    &&& a.generations@.len() == (if w.ng < 0 { 0 } else { w.ng as int })
    &&& at(a.asset_data.object_version, ObjectVersion::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS) ==> a.chunk_ids@.len() == (if w.nch < 0 { 0 } else { w.nch as int })
}
/// the summary at the start of the package is the one the asset now holds
pub open spec fn read_from<C: ArchiveReaderX>(o: Asset<C>, a: Asset<C>, s0: C, w: Raw) -> bool { rewound(&o.raw_reader, &s0) && rd(&s0, &a.raw_reader, phead(rhd(a, w), false)) && vers_ok(o, a, w) && lists_ok(a, w) && chunky(a) }
pub open spec fn header_read<C: ArchiveReaderX>(o: Asset<C>, a: Asset<C>) -> bool { exists|s0: C, w: Raw| read_from(o, a, s0, w) }
//@ fn unreal_asset/src/asset.rs Asset parse_header attr="#[verifier::spinoff_prover]"
    requires old(self).generations@.len() == 0, old(self).chunk_ids@.len() == 0,
    ensures r is Ok ==> header_read(*old(self), *final(self)),
//@ rw let file_version = self\.read_i32::<LE>\(\)\?\.try_into\(\)\? ==> let vx_v = self.read_i32::<LE>()?; proof { vx_fv = vx_v; } let file_version = vx_to_ov(vx_v)?
//@ rw let (\w+): ObjectVersionUE5 = self\.read_i32::<LE>\(\)\?\.try_into\(\)\? ==> let vx_v = self.read_i32::<LE>()?; proof { vx_f5 = vx_v; } let \1: ObjectVersionUE5 = vx_to_o5(vx_v)?
//@ rw vec!\[([^\]]*)\] ==> vx_one(\1)
//@ rw self\.asset_data\.summary\.custom_versions = self\.read_custom ==> let vx_fmt = self.get_custom_version_serialization_format(); self.asset_data.summary.custom_versions = self.read_custom
//@ cut if self\.read_u32::<BE> ==> let ghost vx_0 = self.raw_reader; let ghost mut vx_w: Raw = (Raw { fv: 0, f5: 0, nc: 0, cs: Seq::empty(), ng: 0, nch: 0 }); let mut vx_p: Ghost<Seq<Pat>> = Ghost(Seq::empty()); let ghost vx_s = Asset { raw_reader: vx_0, ..*self }; proof { rd_nil(&self.raw_reader); } let ghost mut vx_fv: i32 = 0; let ghost mut vx_f5: i32 = 0; let mut vx_nc: Ghost<i32> = Ghost(0); let mut vx_cs: Ghost<Seq<(Guid, i32)>> = Ghost(Seq::empty()); let ghost mut vx_ng: i32 = 0; let ghost mut vx_nch: i32 = 0;let ghost vx_q0 = vx_p@; let ghost vx_s0 = *self; let ghost vx_w0 = vx_w; loop invariant_except_break rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == vx_s0, vx_p@ == vx_q0, vx_w == vx_w0, vx_p@ == Seq::<Pat>::empty(), vx_s0.asset_data.object_version == old(self).asset_data.object_version ensures rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == (Asset { raw_reader: self.raw_reader, legacy_file_version: self.legacy_file_version, asset_data: AssetData { object_version: self.asset_data.object_version, object_version_ue5: self.asset_data.object_version_ue5, summary: PackageFileSummary { unversioned: self.asset_data.summary.unversioned, file_licensee_version: self.asset_data.summary.file_licensee_version, custom_versions: self.asset_data.summary.custom_versions, ..vx_s0.asset_data.summary }, ..vx_s0.asset_data }, ..vx_s0 }), vx_w == (Raw { fv: vx_w.fv, f5: vx_w.f5, nc: vx_w.nc, cs: vx_w.cs, ..vx_w0 }), vx_p@ == h1(rhd(*self, vx_w).legacy, rhd(*self, vx_w).unversioned, rhd(*self, vx_w).fv, rhd(*self, vx_w).f5, rhd(*self, vx_w).licensee, rhd(*self, vx_w).ncustom, rhd(*self, vx_w).customs, false), vers_ok(*old(self), *self, vx_w) decreases 0nat {
//@ cut self\.header_offset = self ==> proof { vx_w = (Raw { fv: vx_fv, f5: vx_f5, nc: vx_nc@, cs: vx_cs@, ..vx_w }); reveal(h1); reveal(pue3); on_zero(); rd_ctx(&vx_0, &self.raw_reader, vx_p@); } assert(vx_p@ == h1(rhd(*self, vx_w).legacy, rhd(*self, vx_w).unversioned, rhd(*self, vx_w).fv, rhd(*self, vx_w).f5, rhd(*self, vx_w).licensee, rhd(*self, vx_w).ncustom, rhd(*self, vx_w).customs, false)); break; } let ghost vx_q1 = vx_p@; let ghost vx_s1 = *self; let ghost vx_w1 = vx_w; loop invariant_except_break rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == vx_s1, vx_p@ == vx_q1, vx_w == vx_w1 ensures rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == (Asset { raw_reader: self.raw_reader, header_offset: self.header_offset, folder_name: self.folder_name, name_count: self.name_count, name_offset: self.name_offset, soft_object_paths_count: self.soft_object_paths_count, soft_object_paths_offset: self.soft_object_paths_offset, gatherable_text_data_count: self.gatherable_text_data_count, gatherable_text_data_offset: self.gatherable_text_data_offset, asset_data: AssetData { summary: PackageFileSummary { package_flags: self.asset_data.summary.package_flags, ..vx_s1.asset_data.summary }, ..vx_s1.asset_data }, ..vx_s1 }), vx_w == vx_w1, vx_p@ == h2(vx_q1, rhd(*self, vx_w).ov, rhd(*self, vx_w).o5, rhd(*self, vx_w).header_offset, rhd(*self, vx_w).folder, rhd(*self, vx_w).flags, rhd(*self, vx_w).name_count, rhd(*self, vx_w).name_offset, rhd(*self, vx_w).paths, rhd(*self, vx_w).paths_offset, rhd(*self, vx_w).texts, rhd(*self, vx_w).texts_offset) decreases 0nat {
//@ cut self\.asset_data\.summary\.export_count =  ==> proof { vx_w = (Raw { fv: vx_w.fv, ..vx_w }); reveal(h2);  } assert(vx_p@ == h2(vx_q1, rhd(*self, vx_w).ov, rhd(*self, vx_w).o5, rhd(*self, vx_w).header_offset, rhd(*self, vx_w).folder, rhd(*self, vx_w).flags, rhd(*self, vx_w).name_count, rhd(*self, vx_w).name_offset, rhd(*self, vx_w).paths, rhd(*self, vx_w).paths_offset, rhd(*self, vx_w).texts, rhd(*self, vx_w).texts_offset)); break; } let ghost vx_q2 = vx_p@; let ghost vx_s2 = *self; let ghost vx_w2 = vx_w; loop invariant_except_break rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == vx_s2, vx_p@ == vx_q2, vx_w == vx_w2 ensures rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == (Asset { raw_reader: self.raw_reader, export_offset: self.export_offset, import_offset: self.import_offset, depends_offset: self.depends_offset, soft_package_reference_count: self.soft_package_reference_count, soft_package_reference_offset: self.soft_package_reference_offset, searchable_names_offset: self.searchable_names_offset, thumbnail_table_offset: self.thumbnail_table_offset, asset_data: AssetData { summary: PackageFileSummary { export_count: self.asset_data.summary.export_count, import_count: self.asset_data.summary.import_count, ..vx_s2.asset_data.summary }, ..vx_s2.asset_data }, ..vx_s2 }), vx_w == vx_w2, vx_p@ == h3(vx_q2, rhd(*self, vx_w).ov, rhd(*self, vx_w).exports, rhd(*self, vx_w).export_offset, rhd(*self, vx_w).imports, rhd(*self, vx_w).import_offset, rhd(*self, vx_w).depends_offset, rhd(*self, vx_w).soft, rhd(*self, vx_w).soft_offset, rhd(*self, vx_w).searchable_offset, rhd(*self, vx_w).thumbnail_offset) decreases 0nat {
//@ cut self\.package_guid =  ==> proof { vx_w = (Raw { fv: vx_w.fv, ..vx_w }); reveal(h3);  } assert(vx_p@ == h3(vx_q2, rhd(*self, vx_w).ov, rhd(*self, vx_w).exports, rhd(*self, vx_w).export_offset, rhd(*self, vx_w).imports, rhd(*self, vx_w).import_offset, rhd(*self, vx_w).depends_offset, rhd(*self, vx_w).soft, rhd(*self, vx_w).soft_offset, rhd(*self, vx_w).searchable_offset, rhd(*self, vx_w).thumbnail_offset)); break; } let ghost vx_q3 = vx_p@; let ghost vx_s3 = *self; let ghost vx_w3 = vx_w; loop invariant_except_break rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == vx_s3, vx_p@ == vx_q3, vx_w == vx_w3, vx_s3.generations@.len() == 0 ensures rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == (Asset { raw_reader: self.raw_reader, package_guid: self.package_guid, generations: self.generations, ..vx_s3 }), vx_w == (Raw { ng: vx_w.ng, ..vx_w3 }), vx_p@ == h4(vx_q3, rhd(*self, vx_w).guid, rhd(*self, vx_w).ngens, rhd(*self, vx_w).gens), self.generations@.len() == (if vx_w.ng < 0 { 0 } else { vx_w.ng as int }) decreases 0nat {
//@ cut if self\.asset_data\.object_version >= ObjectVersion::VER_UE4_ENGINE_VERSION_OBJECT ==> proof { vx_w = (Raw { ng: vx_ng, ..vx_w }); reveal(h4);  } assert(vx_p@ == h4(vx_q3, rhd(*self, vx_w).guid, rhd(*self, vx_w).ngens, rhd(*self, vx_w).gens)); break; } let ghost vx_q4 = vx_p@; let ghost vx_s4 = *self; let ghost vx_w4 = vx_w; loop invariant_except_break rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == vx_s4, vx_p@ == vx_q4, vx_w == vx_w4 ensures rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == (Asset { raw_reader: self.raw_reader, engine_version_recorded: self.engine_version_recorded, engine_version_compatible: self.engine_version_compatible, compression_flags: self.compression_flags, package_source: self.package_source, ..vx_s4 }), vx_w == vx_w4, vx_p@ == h5(vx_q4, rhd(*self, vx_w).ov, rhd(*self, vx_w).recorded, rhd(*self, vx_w).compatible, rhd(*self, vx_w).compression, rhd(*self, vx_w).source, rhd(*self, vx_w).legacy) decreases 0nat {
//@ cut self\.asset_registry_data_offset =  ==> proof { vx_w = (Raw { fv: vx_w.fv, ..vx_w }); reveal(h5);  } assert(vx_p@ == h5(vx_q4, rhd(*self, vx_w).ov, rhd(*self, vx_w).recorded, rhd(*self, vx_w).compatible, rhd(*self, vx_w).compression, rhd(*self, vx_w).source, rhd(*self, vx_w).legacy)); break; } let ghost vx_q5 = vx_p@; let ghost vx_s5 = *self; let ghost vx_w5 = vx_w; loop invariant_except_break rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == vx_s5, vx_p@ == vx_q5, vx_w == vx_w5, vx_s5.chunk_ids@.len() == 0 ensures rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == (Asset { raw_reader: self.raw_reader, asset_registry_data_offset: self.asset_registry_data_offset, bulk_data_start_offset: self.bulk_data_start_offset, world_tile_info_offset: self.world_tile_info_offset, chunk_ids: self.chunk_ids, ..vx_s5 }), vx_w == (Raw { nch: vx_w.nch, ..vx_w5 }), vx_p@ == h6(vx_q5, rhd(*self, vx_w).ov, rhd(*self, vx_w).registry_offset, rhd(*self, vx_w).bulk, rhd(*self, vx_w).tile_offset, rhd(*self, vx_w).nchunks, rhd(*self, vx_w).chunks), lists_ok(*self, vx_w) || true, at(self.asset_data.object_version, ObjectVersion::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS) ==> self.chunk_ids@.len() == (if vx_w.nch < 0 { 0 } else { vx_w.nch as int }), chunky(*self) decreases 0nat {
//@ cut if self\.asset_data\.object_version\s*>= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS ==> proof { vx_w = (Raw { nch: vx_nch, ..vx_w }); reveal(h6);  } assert(vx_p@ == h6(vx_q5, rhd(*self, vx_w).ov, rhd(*self, vx_w).registry_offset, rhd(*self, vx_w).bulk, rhd(*self, vx_w).tile_offset, rhd(*self, vx_w).nchunks, rhd(*self, vx_w).chunks)); break; } let ghost vx_q6 = vx_p@; let ghost vx_s6 = *self; let ghost vx_w6 = vx_w; loop invariant_except_break rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == vx_s6, vx_p@ == vx_q6, vx_w == vx_w6 ensures rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), *self == (Asset { raw_reader: self.raw_reader, preload_dependency_count: self.preload_dependency_count, preload_dependency_offset: self.preload_dependency_offset, names_referenced_from_export_data_count: self.names_referenced_from_export_data_count, payload_toc_offset: self.payload_toc_offset, data_resource_offset: self.data_resource_offset, ..vx_s6 }), vx_w == vx_w6, vx_p@ == h7(vx_q6, rhd(*self, vx_w).ov, rhd(*self, vx_w).o5, rhd(*self, vx_w).preload, rhd(*self, vx_w).preload_offset, rhd(*self, vx_w).referenced, rhd(*self, vx_w).toc, rhd(*self, vx_w).resources) decreases 0nat {
//@ cut Ok\(\(\)\) ==> proof { vx_w = (Raw { fv: vx_w.fv, ..vx_w }); reveal(h7);  } assert(vx_p@ == h7(vx_q6, rhd(*self, vx_w).ov, rhd(*self, vx_w).o5, rhd(*self, vx_w).preload, rhd(*self, vx_w).preload_offset, rhd(*self, vx_w).referenced, rhd(*self, vx_w).toc, rhd(*self, vx_w).resources)); break; } 
//@ at body-start
    hide(on); hide(o5n);
//@ at pre-loop 0
    let ghost vx_a = vx_p@; let ghost vx_g = self.package_guid; proof { vx_ng = generations_count; }
//@ loop 0 it=it
    invariant rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), vx_p@ == vx_a + pseq(gns(self.generations@), it.index() as nat, fgen()), self.generations@.len() == it.index(), *self == (Asset { raw_reader: self.raw_reader, package_guid: self.package_guid, generations: self.generations, ..vx_s3 }), self.package_guid == vx_g,
//@ at loop-start 0
    let ghost vx_b = vx_p@; let ghost vx_l = self.generations@;
//@ at loop-end 0
    proof { let y = self.generations@.last(); let x = (y.export_count, y.name_count); assert(vx_l.push(y) =~= self.generations@); assert(gns(vx_l.push(y)) =~= gns(vx_l).push(x)); assert(fgen()(x) == p32(x.0 as u32) + p32(x.1 as u32)); pat_assoc(vx_b, p32(x.0 as u32), p32(x.1 as u32)); pseq_push(vx_a, gns(vx_l), x, fgen()); }
//@ at pre-loop 1
    let ghost vx_a = vx_p@; let ghost vx_t = *self; proof { vx_nch = chunk_id_count; }
//@ loop 1 it=it
    invariant rewound(&old(self).raw_reader, &vx_0), self.raw_reader.cv() == vx_0.cv(), rd(&vx_0, &self.raw_reader, vx_p@), vx_p@ == vx_a + pseq(self.chunk_ids@, it.index() as nat, fi32()), self.chunk_ids@.len() == it.index(), *self == (Asset { raw_reader: self.raw_reader, chunk_ids: self.chunk_ids, ..vx_t }),
//@ at loop-start 1
    let ghost vx_b = vx_p@; let ghost vx_l = self.chunk_ids@;
//@ at loop-end 1
    proof { let x = self.chunk_ids@.last(); assert(vx_l.push(x) =~= self.chunk_ids@); assert(fi32()(x) == p32(x as u32)); pseq_push(vx_a, vx_l, x, fi32()); }
//@ at before-tail
    proof { assert(chunky(*self)); assert(lists_ok(*self, vx_w)); assert(vers_ok(*old(self), *self, vx_w)); assert(vx_p@ == phead(rhd(*self, vx_w), false)); assert(read_from(*old(self), *self, vx_0, vx_w)); }
//@ end

/// offsets and counts a package is written with are the ones it was read with
pub open spec fn same_layout<C: ArchiveReaderX>(a: Asset<C>, o: AssetHeader, w: Raw) -> bool {
    &&& o.header_offset == a.header_offset && o.name_offset == a.name_offset && o.export_offset == a.export_offset && o.import_offset == a.import_offset && o.depends_offset == a.depends_offset
    &&& o.soft_package_reference_offset == a.soft_package_reference_offset && o.asset_registry_data_offset == a.asset_registry_data_offset && o.bulk_data_start_offset == a.bulk_data_start_offset
    &&& o.world_tile_info_offset == a.world_tile_info_offset && o.preload_dependency_count == a.preload_dependency_count && o.preload_dependency_offset == a.preload_dependency_offset
    &&& a.name_map.v().len() == a.name_count && a.asset_data.exports@.len() == a.asset_data.summary.export_count && a.imports@.len() == a.asset_data.summary.import_count
    &&& forall|i: int| 0 <= i < a.generations@.len() ==> (#[trigger] a.generations@[i]).export_count == a.asset_data.summary.export_count && a.generations@[i].name_count == a.name_count
    &&& w.nc >= 0 && w.ng >= 0 && w.nch >= 0
}
/// a versioned package's summary, written again, is the summary it was read from
pub proof fn summary_again<C: ArchiveReaderX>(old: Asset<C>, a: Asset<C>, s0: C, w: Raw, o: AssetHeader, exact: bool)
    requires read_from(old, a, s0, w), same_layout(a, o, w), !a.asset_data.summary.unversioned, unmapped(old.raw_reader.cv()), a.legacy_file_version <= -8 ==> o5n(a.asset_data.object_version_ue5) == w.f5,
    ensures phead(whd(a, o), exact) == phead(rhd(a, w), exact),
{
    let x = whd(a, o); let y = rhd(a, w);
    reveal(h1); reveal(h4); reveal(h6);
    assert(x.gens =~= y.gens);
}

} // verus!
fn main() {}
