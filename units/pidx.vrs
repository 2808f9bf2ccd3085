use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub enum Error { InvalidPackageIndex, Other }
impl Error { #[verifier::external_body] pub fn vx_any() -> Self { Error::Other } }
//@ rewrite Error::invalid_package_index\(\s*"[^"]*"\s*\.to_string\(\),?\s*\) ==> Error::vx_any()
//@ rewrite \.map\(PackageIndex::new\) ==> .map(|x: i32| -> (r: PackageIndex) ensures r.index == x { PackageIndex::new(x) })
//@ struct unreal_asset/unreal_asset_base/src/types/mod.rs PackageIndex derive=Copy,Clone,PartialEq,Eq
/// names and exports as opaque values
#[verifier::external_body]
pub struct FName { x: u64 }
impl FName {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn eq_content(&self, o: &FName) -> (r: bool) ensures r == (self.text() == o.text()) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PackageIndex {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PackageIndex) -> bool { *self == *o }
}
//@ struct unreal_asset/unreal_asset_base/src/import.rs Import
impl Clone for Import {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(Index)]
pub struct Export<Index> { x: Vec<Index> }
// the owners, reduced to the tables the functions below touch
pub struct Asset { pub imports: Vec<Import>, pub asset_data: AssetData<PackageIndex> }
pub struct AssetArchiveWriter<'asset> { pub imports: &'asset [Import] }
#[verifier::reject_recursive_types(Index)]
pub struct AssetData<Index> { pub exports: Vec<Export<Index>> }

// ---- what a package index names ----
pub enum Named { Nothing, Import(int), Export(int) }
pub open spec fn named(p: PackageIndex) -> Named {
    if p.index < 0 { Named::Import(-p.index - 1) } else if p.index > 0 { Named::Export(p.index - 1) } else { Named::Nothing }
}
//@ fn unreal_asset/unreal_asset_base/src/types/mod.rs PackageIndex new params=index
    ensures r.index == index,
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/mod.rs PackageIndex from_import params=import_index
    ensures r is Ok <==> import_index >= 0, r is Ok ==> named(r->Ok_0) == Named::Import(import_index as int),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/mod.rs PackageIndex from_export params=export_index
    ensures r is Ok <==> 0 <= export_index < i32::MAX, r is Ok ==> named(r->Ok_0) == Named::Export(export_index as int),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/mod.rs "PackageIndexTrait for PackageIndex" is_import
    ensures r == (named(*self) is Import),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/mod.rs "PackageIndexTrait for PackageIndex" is_export
    ensures r == (named(*self) is Export),
//@ end
//@ fn unreal_asset/src/asset.rs Asset get_import params=index igen="" self=Asset where=""
    requires self.imports@.len() < i32::MAX,
    ensures match named(index) { Named::Import(i) if i < self.imports@.len() => r == Some(self.imports@[i]), _ => r is None },
//@ end
//@ fn unreal_asset/src/asset.rs Asset add_import params=import igen="" self=Asset where=""
    requires old(self).imports@.len() < i32::MAX - 1,
    ensures final(self).imports@ == old(self).imports@.push(import), named(r) == Named::Import(old(self).imports@.len() as int),
        final(self).asset_data == old(self).asset_data,
//@ end
//@ fn unreal_asset/src/asset_archive_writer.rs AssetArchiveWriter get_import params=index igen="<'asset>" self="AssetArchiveWriter<'asset>" where=""
    requires self.imports@.len() < i32::MAX,
    ensures match named(index) { Named::Import(i) if i < self.imports@.len() => r == Some(self.imports@[i]), _ => r is None },
//@ end
//@ fn unreal_asset/src/asset_data.rs AssetData get_export params=index igen="<Index>" self=AssetData<Index> where=""
    requires self.exports@.len() < i32::MAX,
    ensures match named(index) { Named::Export(i) if i < self.exports@.len() => r == Some(&self.exports@[i]), _ => r is None },
//@ end
//@ fn unreal_asset/src/asset_data.rs AssetData get_export_mut params=index igen="<Index>" self=AssetData<Index> where=""
    requires old(self).exports@.len() < i32::MAX,
    ensures match named(index) {
        Named::Export(i) if i < old(self).exports@.len() => r is Some && *r->0 == old(self).exports@[i] && final(self).exports@ == old(self).exports@.update(i, *final(r->0)),
        _ => r is None && final(self).exports@ == old(self).exports@ },
//@ end
//@ fn unreal_asset/src/asset.rs Asset get_export params=index igen="<'a>" self=Asset where=""
    requires self.asset_data.exports@.len() < i32::MAX,
    ensures match named(index) { Named::Export(i) if i < self.asset_data.exports@.len() => r == Some(&self.asset_data.exports@[i]), _ => r is None },
//@ end
pub open spec fn same(i: Import, cp: FName, cn: FName, o: PackageIndex, on: FName) -> bool {
    same_any(i, cp, cn, on) && i.outer_index == o
}
pub open spec fn same_any(i: Import, cp: FName, cn: FName, on: FName) -> bool {
    i.class_package.text() == cp.text() && i.class_name.text() == cn.text() && i.object_name.text() == on.text()
}
//@ fn unreal_asset/src/asset.rs Asset find_import params=class_package,class_name,outer_index,object_name igen="" self=Asset where=""
    requires self.imports@.len() < i32::MAX,
    ensures
        r is Some ==> ({ let i = -(r->0) - 1; 0 <= i < self.imports@.len() && same(self.imports@[i], *class_package, *class_name, outer_index, *object_name) }),
        r is None ==> forall|i: int| 0 <= i < self.imports@.len() ==> !same(#[trigger] self.imports@[i], *class_package, *class_name, outer_index, *object_name),
//@ loop 0 it=it
    invariant self.imports@.len() < i32::MAX,
        forall|j: int| 0 <= j < it.index() ==> !same(#[trigger] self.imports@[j], *class_package, *class_name, outer_index, *object_name),
//@ end
//@ fn unreal_asset/src/asset.rs Asset find_import_no_index params=class_package,class_name,object_name igen="" self=Asset where=""
    requires self.imports@.len() < i32::MAX,
    ensures
        r is Some ==> ({ let i = -(r->0) - 1; 0 <= i < self.imports@.len() && same_any(self.imports@[i], *class_package, *class_name, *object_name) }),
        r is None ==> forall|i: int| 0 <= i < self.imports@.len() ==> !same_any(#[trigger] self.imports@[i], *class_package, *class_name, *object_name),
//@ loop 0 it=it
    invariant self.imports@.len() < i32::MAX,
        forall|j: int| 0 <= j < it.index() ==> !same_any(#[trigger] self.imports@[j], *class_package, *class_name, *object_name),
//@ end
// the round trips, over the contracts
proof fn position_roundtrip(p: PackageIndex)
    ensures
        // every index names at most one thing, and two indexes that name the same thing are the same index
        forall|q: PackageIndex| named(p) == named(q) ==> p.index == q.index,
{}
} // verus!
fn main() {}
