#![allow(warnings)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- what is taken from outside: JSON values, maps and the derived deserialisers, as functions of the document ----
#[verifier::external_body]
pub struct Value { x: u8 }
#[verifier::external_body]
pub struct VersionReq { x: u8 }
/// HashMap<String, V>
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VMap<V> { x: Vec<V> }
impl<V> View for VMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> VMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
pub enum Error { Schema(u64), Json, SemVer }
impl Error { pub fn unsupported_schema(v: u64) -> (r: Error) ensures r == Error::Schema(v) { Error::Schema(v) } }
pub struct VersionMetadata { pub schema_version: Option<u64> }
/// the fields serde's derive finds in a document (None: the document is malformed for that schema)
pub uninterp spec fn doc_version(b: Seq<u8>) -> Option<VersionMetadata>;
pub uninterp spec fn doc_v1(b: Seq<u8>) -> Option<Metadata1>;
pub uninterp spec fn doc_v2(b: Seq<u8>) -> Option<Metadata>;
#[verifier::external_body]
pub fn vx_version(b: &[u8]) -> (r: Result<VersionMetadata, Error>) ensures r is Ok ==> doc_version(b@) == Some(r->Ok_0), r is Err ==> doc_version(b@) is None { unimplemented!() }
#[verifier::external_body]
pub fn vx_v1(b: &[u8]) -> (r: Result<Metadata1, Error>) ensures r is Ok ==> doc_v1(b@) == Some(r->Ok_0), r is Err ==> doc_v1(b@) is None { unimplemented!() }
#[verifier::external_body]
pub fn vx_v2(b: &[u8]) -> (r: Result<Metadata, Error>) ensures r is Ok ==> doc_v2(b@) == Some(r->Ok_0), r is Err ==> doc_v2(b@) is None { unimplemented!() }
pub uninterp spec fn req(s: Seq<char>) -> Option<VersionReq>;
#[verifier::external_body]
pub fn vx_req(s: &str) -> (r: Result<VersionReq, Error>) ensures r is Ok ==> req(s@) == Some(r->Ok_0), r is Err ==> req(s@) is None { unimplemented!() }
#[verifier::external_body]
pub fn vx_str(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// `==` of the field types (derived or std): equality of what the values stand for
pub uninterp spec fn same<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub fn vx_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == same(*a, *b) { unimplemented!() }
//@ rewrite HashMap<String, (\w+)> ==> VMap<\1>
//@ rewrite HashMap::new\(\) ==> VMap::new()
//@ rewrite "(\w+)"\.to_(?:string|owned)\(\) ==> vx_str("\1")
//@ rewrite let (\w+): Metadata = serde_json::from_slice\(slice\)\?; ==> let \1: Metadata1 = vx_v1(slice)?;
//@ rewrite (?:#\[derive\(Debug, Deserialize\)\]\s*)?struct VersionMetadata \{[^{}]*schema_version: Option<u64>,?\s*\} ==>
//@ rewrite let (\w+): VersionMetadata = serde_json::from_slice\(slice\)\?; ==> let \1: VersionMetadata = vx_version(slice)?;
//@ rewrite Ok\(serde_json::from_slice\(slice\)\?\) ==> Ok(vx_v2(slice)?)
//@ rewrite VersionReq::parse\((\w+)\)\? ==> vx_req(\1)?
//@ rewrite Self::Err ==> Error
//@ rewrite v1::Metadata::to_v2 ==> Metadata1::to_v2
//@ rewrite v2::Metadata ==> Metadata
//@ rewrite self\.(\w+) == other\.(\w+) ==> vx_eq(&self.\1, &other.\2)
//@ enum unreal_mod_metadata/src/lib.rs SyncMode derive=Copy,Clone
//@ enum unreal_mod_metadata/src/lib.rs DownloadMode derive=Copy,Clone
//@ struct unreal_mod_metadata/src/lib.rs DownloadInfo
//@ struct unreal_mod_metadata/src/lib.rs Dependency
//@ struct unreal_mod_metadata/src/v1.rs Metadata name=Metadata1
//@ struct unreal_mod_metadata/src/v2.rs Metadata
/// the old schema's top-level entries that moved into the integrator section
pub open spec fn moved(m: Metadata1, k: Seq<char>) -> Option<Value> {
    if k == "persistent_actors"@ { m.persistent_actors }
    else if k == "mission_trailheads"@ { m.mission_trailheads }
    else if k == "linked_actor_components"@ { m.linked_actor_components }
    else if k == "item_list_entries"@ { m.item_list_entries }
    else if k == "biome_placement_modifiers"@ { m.biome_placement_modifiers }
    else { None }
}
/// r is what the old document m means
pub open spec fn upgraded(m: Metadata1, r: Metadata) -> bool {
    &&& r.schema_version == 2 && r.name == m.name && r.mod_id == m.mod_id && r.author == m.author && r.description == m.description
    &&& r.mod_version == m.mod_version && r.game_build == m.game_build && r.sync == m.sync && r.homepage == m.homepage && r.download == m.download
    &&& r.dependencies@ == Map::<Seq<char>, Dependency>::empty() && r.cpp_loader_dlls@ == Seq::<String>::empty()
    &&& forall|k: Seq<char>| #[trigger] r.integrator@.contains_key(k) <==> moved(m, k) is Some
    &&& forall|k: Seq<char>| r.integrator@.contains_key(k) ==> Some(#[trigger] r.integrator@[k]) == moved(m, k)
}
//@ fn unreal_mod_metadata/src/lib.rs Dependency new params=version,download
    ensures r.version == version, r.download == download,
//@ end
//@ fn unreal_mod_metadata/src/lib.rs "FromStr for Dependency" from_str params=s as=dependency_from_str
    ensures (r is Ok) == (req(s@) is Some), r is Ok ==> Some(r->Ok_0.version) == req(s@) && r->Ok_0.download is None,
//@ end
//@ fn unreal_mod_metadata/src/v1.rs Metadata to_v2 params=slice self=Metadata1
    ensures (r is Ok) == (doc_v1(slice@) is Some), r is Ok ==> upgraded(doc_v1(slice@)->0, r->Ok_0),
//@ at body-start
    proof {
        reveal_strlit("persistent_actors"); reveal_strlit("mission_trailheads"); reveal_strlit("linked_actor_components"); reveal_strlit("item_list_entries"); reveal_strlit("biome_placement_modifiers");
        assert("persistent_actors"@.len() == 17 && "mission_trailheads"@.len() == 18 && "linked_actor_components"@.len() == 23 && "item_list_entries"@.len() == 17 && "biome_placement_modifiers"@.len() == 25);
        assert("persistent_actors"@[0] != "item_list_entries"@[0]);
    }
//@ end
//@ fn unreal_mod_metadata/src/lib.rs - from_slice params=slice
    ensures
        match doc_version(slice@) {
            None => r is Err,
            Some(v) => {
                let n = match v.schema_version { Some(n) => n, None => 1 };
                if n == 1 { match doc_v1(slice@) { Some(m) => r is Ok && upgraded(m, r->Ok_0), None => r is Err } }
                else if n == 2 { match doc_v2(slice@) { Some(m) => r is Ok && r->Ok_0 == m, None => r is Err } }
                else { r is Err && r->Err_0 == Error::Schema(n) }
            }
        },
//@ end
//@ fn unreal_mod_metadata/src/v2.rs "PartialEq for Metadata" eq params=other as=eq2
    ensures r == (same(self.schema_version, other.schema_version) && same(self.name, other.name) && same(self.mod_id, other.mod_id) && same(self.author, other.author)
        && same(self.description, other.description) && same(self.mod_version, other.mod_version) && same(self.game_build, other.game_build) && same(self.sync, other.sync)
        && same(self.homepage, other.homepage) && same(self.download, other.download) && same(self.dependencies, other.dependencies)
        && same(self.cpp_loader_dlls, other.cpp_loader_dlls) && same(self.integrator, other.integrator)),
//@ end
}
fn main() {}
