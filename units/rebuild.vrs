use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- name tables are shared: handles carry an identity, the texts of every table live in the world ----
#[verifier::external_body]
pub struct World { x: u8 }
impl World { pub uninterp spec fn tab(&self) -> Map<int, Seq<Seq<char>>>; }
/// SharedResource<NameMap>
#[verifier::external_body]
pub struct Table { x: u8 }
impl Table {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
}
pub uninterp spec fn h(t: Seq<char>) -> u64;
/// the hash tells the texts apart, as in unit names
pub open spec fn apart(t: Seq<Seq<char>>, n: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() && h(#[trigger] t[i]) == h(n) ==> t[i] == n }
/// tables compare by their content
#[verifier::external_body]
pub fn vx_ne(a: &Table, b: &Table, w: &World) -> (r: bool) ensures !r ==> w.tab()[a.id()] == w.tab()[b.id()] { unimplemented!() }
/// NameMap::add_name_reference through a handle: the contract proved in unit names
#[verifier::external_body]
pub fn vx_add(t: &Table, w: &mut World, name: String, force: bool) -> (r: i32)
    requires old(w).tab().contains_key(t.id()), apart(old(w).tab()[t.id()], name@), old(w).tab()[t.id()].len() < i32::MAX,
    ensures ({
        let a = old(w).tab()[t.id()];
        let b = final(w).tab()[t.id()];
        &&& 0 <= r < b.len() && b[r as int] == name@
        &&& !force && a.contains(name@) ==> b == a
        &&& force || !a.contains(name@) ==> b == a.push(name@) && r == a.len()
        &&& final(w).tab() == old(w).tab().insert(t.id(), b)
    }),
{ unimplemented!() }
/// FName::get_owned_content: the contract proved in unit names
#[verifier::external_body]
pub fn vx_content(n: &FName, w: &World) -> (r: String) requires good(*n, *w) ensures r@ == text(*n, *w) { unimplemented!() }
//@ rewrite SharedResource<NameMap> ==> Table
//@ enum unreal_asset/unreal_asset_base/src/types/fname.rs EMappedNameType
//@ enum unreal_asset/unreal_asset_base/src/types/fname.rs FName
/// a name in a table has its place there
pub open spec fn good(n: FName, w: World) -> bool {
    match n { FName::Backed { index, name_map, .. } => w.tab().contains_key(name_map.id()) && 0 <= index < w.tab()[name_map.id()].len(), FName::Dummy { .. } => true }
}
pub open spec fn text(n: FName, w: World) -> Seq<char> {
    match n { FName::Backed { index, name_map, .. } => w.tab()[name_map.id()][index as int], FName::Dummy { value, .. } => value@ }
}
/// the name resolves, in table t, to s
pub open spec fn resolves(n: FName, w: World, t: int, s: Seq<char>) -> bool {
    match n {
        FName::Backed { index, name_map, .. } => {
            &&& w.tab().contains_key(t) && 0 <= index < w.tab()[t].len() && w.tab()[t][index as int] == s
            &&& w.tab().contains_key(name_map.id()) && 0 <= index < w.tab()[name_map.id()].len() && w.tab()[name_map.id()][index as int] == s
        },
        FName::Dummy { value, .. } => value@ == s,
    }
}
pub open spec fn rest_kept(a: FName, b: FName) -> bool {
    match (a, b) {
        (FName::Backed { number: n, ty: t, .. }, FName::Backed { number: m, ty: u, .. }) => n == m && t == u,
        _ => a == b,
    }
}
/// every table keeps what it has where it is; only t grows
pub open spec fn grows(a: World, b: World, t: int) -> bool {
    &&& a.tab().dom() =~= b.tab().dom()
    &&& forall|k: int| #[trigger] a.tab().contains_key(k) && k != t ==> b.tab()[k] == a.tab()[k]
    &&& a.tab()[t].len() <= b.tab()[t].len()
    &&& forall|i: int| 0 <= i < a.tab()[t].len() ==> #[trigger] b.tab()[t][i] == a.tab()[t][i]
}
pub struct Asset { pub name_map: Table }
/// what rebuild_name_map does with one name
//@ fn unreal_asset/src/asset.rs Asset rebuild_name_map mode=free igen="" gen="" self=Asset where="" params= as=rebuild_visit ghost="name: &mut FName, w: &mut World"
    requires
        good(*old(name), *old(w)),
        old(w).tab().contains_key(old(this).name_map.id()),
        apart(old(w).tab()[old(this).name_map.id()], text(*old(name), *old(w))),
        old(w).tab()[old(this).name_map.id()].len() < i32::MAX,
    ensures
        resolves(*final(name), *final(w), old(this).name_map.id(), text(*old(name), *old(w))),
        rest_kept(*old(name), *final(name)),
        grows(*old(w), *final(w), old(this).name_map.id()),
        *final(this) == *old(this),
        ({
            let a = old(w).tab()[old(this).name_map.id()];
            let b = final(w).tab()[old(this).name_map.id()];
            b == a || (b == a.push(text(*old(name), *old(w))) && !a.contains(text(*old(name), *old(w))) && (*old(name)) is Backed)
        }),
//@ rw! self\s*\.traverse_fnames\(&mut \|(?:mut )?name(?:: &mut FName)?\| \{(.*)\}\);\s*\} ==> \1 }
//@ rw \b(\w+)\.get_owned_content\(\) ==> vx_content(&*\1, &*w)
//@ rw &mut name\b ==> &mut *name
//@ rw \*name_map (!=) current_name_map\b ==> vx_ne(&*name_map, &current_name_map, &*w)
//@ rw \*name_map (==) current_name_map\b ==> !vx_ne(&*name_map, &current_name_map, &*w)
//@ rw current_name_map\s*\.get_mut\(\)\s*\.add_name_reference\( ==> vx_add(&current_name_map, w, 
//@ end
/// a rebuild is a visit per name: what a name resolves to after its own visit it still resolves to after all later ones
pub proof fn later_visits_keep(n: FName, w1: World, w2: World, t: int, s: Seq<char>)
    requires resolves(n, w1, t, s), grows(w1, w2, t), w1.tab().contains_key(t),
    ensures resolves(n, w2, t, s),
{
}
pub proof fn grows_chain(a: World, b: World, c: World, t: int)
    requires grows(a, b, t), grows(b, c, t), a.tab().contains_key(t),
    ensures grows(a, c, t),
{
    assert forall|i: int| 0 <= i < a.tab()[t].len() implies #[trigger] c.tab()[t][i] == a.tab()[t][i] by { assert(b.tab()[t][i] == a.tab()[t][i]); }
    assert forall|k: int| #[trigger] a.tab().contains_key(k) && k != t implies c.tab()[k] == a.tab()[k] by { assert(b.tab().contains_key(k)); }
}
/// a name not yet visited is still good, with its text, when its visit comes
pub proof fn waiting_names_keep(n: FName, a: World, b: World, t: int)
    requires good(n, a), grows(a, b, t),
    ensures good(n, b), text(n, b) == text(n, a),
{
    match n { FName::Backed { index, name_map, .. } => { assert(b.tab().contains_key(name_map.id())); }, _ => {} }
}
} // verus!
fn main() {}
