use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- the standard hasher: some function of the text hashed; the indexed map: as proved in unit imap ----
pub uninterp spec fn hash64(t: Seq<Seq<char>>) -> u64;
pub open spec fn h(t: Seq<char>) -> u64 { hash64(seq![t]) }
#[verifier::external_body]
pub struct DefaultHasher { x: u64 }
impl DefaultHasher {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == hash64(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_hash(t: &str, s: &mut DefaultHasher) ensures final(s)@ == old(s)@.push(t@) { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexedMap<K, V> { x: Vec<(K, V)> }
impl<K, V> IndexedMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_by_key(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None::<&V> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
/// Rc<RefCell<T>> reached through one handle at a time
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SharedResource<T> { x: Vec<T> }
/// SharedResourceWeakRef<NameMap>: what it upgrades to is a function of it
#[verifier::external_body]
pub struct MeRef { x: u64 }
impl<T> SharedResource<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn vx_cyclic(t: T) -> (r: Self) ensures r@ == t { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut T) ensures *r == old(self)@, final(self)@ == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ref(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_me() -> MeRef { unimplemented!() }
impl MeRef {
    pub uninterp spec fn target(&self) -> SharedResource<NameMap>;
    #[verifier::external_body]
    pub fn upgrade(&self) -> (r: Option<SharedResource<NameMap>>) ensures r == Some(self.target()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_copied(o: Option<&i32>) -> (r: Option<i32>) ensures r == (match o { Some(x) => Some(*x), None => None::<i32> }) { o.copied() }
#[verifier::external_body]
pub fn vx_str(s: &String) -> (r: &str) ensures r@ == s@ { s }
#[verifier::external_body]
pub fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
//@ rewrite \b(\w+)\.hash\(&mut s\) ==> vx_hash(&\1, &mut s)
//@ rewrite (self\.name_map_lookup\.get_by_key\(&s\.finish\(\)\))\.copied\(\) ==> vx_copied(\1)
//@ rewrite &self\.name_map_index_list\[index as usize\] ==> vx_str(&self.name_map_index_list[index as usize])
//@ rewrite (self\.get_name_reference\(index\))\.to_string\(\) ==> vx_own(\1)
//@ rewrite slice\.to_string\(\) ==> vx_own(slice)
//@ rewrite SharedResource::new_cyclic\(\|me\| (NameMap \{[^}]*\})\) ==> SharedResource::vx_cyclic(\1)
//@ rewrite \bme\.clone\(\) ==> vx_me()
//@ rewrite SharedResourceWeakRef<NameMap> ==> MeRef
//@ enum unreal_asset/unreal_asset_base/src/types/fname.rs EMappedNameType
//@ enum unreal_asset/unreal_asset_base/src/types/fname.rs FName
//@ struct unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
/// the hash tells the texts apart (a 64-bit hash cannot for all texts, so this is a condition on the texts in use)
pub open spec fn apart(t: Seq<Seq<char>>, n: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() && h(#[trigger] t[i]) == h(n) ==> t[i] == n }
impl NameMap {
    pub closed spec fn names(&self) -> Seq<Seq<char>> { texts(self.name_map_index_list@) }
    pub closed spec fn wf(&self) -> bool {
        let t = self.names();
        let m = self.name_map_lookup@;
        &&& t.len() <= i32::MAX
        &&& forall|k: u64| #[trigger] m.contains_key(k) ==> 0 <= m[k] < t.len() && h(t[m[k] as int]) == k
        &&& forall|i: int| 0 <= i < t.len() ==> m.contains_key(h(#[trigger] t[i]))
    }
    pub closed spec fn me(&self) -> SharedResource<NameMap> { self.self_ref.target() }
}
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap new
    ensures r@.wf(), r@.names() == Seq::<Seq<char>>::empty(),
//@ at before-tail
    proof { assert(texts(Seq::<String>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap search_name_reference
    requires self.wf(), apart(self.names(), name@),
    ensures
        // found exactly when it is in the table, at a place that holds it
        r is Some <==> self.names().contains(name@),
        r is Some ==> 0 <= r->0 < self.names().len() && self.names()[r->0 as int] == name@,
//@ at body-start
    proof {
        assert(seq![name@] =~= Seq::<Seq<char>>::empty().push(name@));
        if self.names().contains(name@) { let i = choose|i: int| 0 <= i < self.names().len() && self.names()[i] == name@; assert(self.name_map_lookup@.contains_key(h(self.names()[i]))); }
    }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap add_name_reference
    requires old(self).wf(), apart(old(self).names(), name@), old(self).names().len() < i32::MAX,
    ensures
        final(self).wf(),
        0 <= r < final(self).names().len() && final(self).names()[r as int] == name@,
        !force_add_duplicates && old(self).names().contains(name@) ==> final(self).names() == old(self).names(),
        force_add_duplicates || !old(self).names().contains(name@) ==> final(self).names() == old(self).names().push(name@) && r == old(self).names().len(),
        final(self).me() == old(self).me(),
//@ at body-start
    proof {
        assert(seq![name@] =~= Seq::<Seq<char>>::empty().push(name@));
        assert(forall|v: Seq<String>, s: String| #[trigger] texts(v.push(s)) =~= texts(v).push(s@));
        let t = old(self).names();
        assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t.push(name@)[i] == t[i]);
        assert(t.push(name@)[t.len() as int] == name@);
    }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap get_name_map_index_list
    ensures texts(r@) == self.names(),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap get_name_reference
    requires self.wf(),
    ensures
        0 <= index < self.names().len() ==> r@ == self.names()[index as int],
        // outside the table: some text, never a crash
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap get_owned_name
    requires self.wf(),
    ensures
        0 <= index < self.names().len() ==> r@ == self.names()[index as int],
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap create_fname
    ensures r == (FName::Backed { index: index, number: number, ty: EMappedNameType::Package, name_map: self.me() }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap add_fname_with_number
    requires old(self).wf(), apart(old(self).names(), slice@), old(self).names().len() < i32::MAX,
    ensures
        final(self).wf(), final(self).me() == old(self).me(),
        r matches FName::Backed { index, number: n, ty, name_map } && n == number && ty == EMappedNameType::Package && name_map == old(self).me()
            && 0 <= index < final(self).names().len() && final(self).names()[index as int] == slice@,
        final(self).names() == (if old(self).names().contains(slice@) { old(self).names() } else { old(self).names().push(slice@) }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap add_fname
    requires old(self).wf(), apart(old(self).names(), slice@), old(self).names().len() < i32::MAX,
    ensures
        final(self).wf(), final(self).me() == old(self).me(),
        r matches FName::Backed { index, number: n, ty, name_map } && n == 0 && ty == EMappedNameType::Package && name_map == old(self).me()
            && 0 <= index < final(self).names().len() && final(self).names()[index as int] == slice@,
        final(self).names() == (if old(self).names().contains(slice@) { old(self).names() } else { old(self).names().push(slice@) }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap is_empty
    ensures r == (self.names().len() == 0),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/name_map.rs NameMap from_name_batch
    requires name_batch@.len() <= i32::MAX,
        forall|i: int, j: int| 0 <= i < name_batch@.len() && 0 <= j < name_batch@.len() && #[trigger] h(name_batch@[i]@) == #[trigger] h(name_batch@[j]@) ==> name_batch@[i]@ == name_batch@[j]@,
    ensures
        // the names keep the places they have in the batch
        r@.wf(), r@.names() == texts(name_batch@),
//@ loop 0 it=it
    invariant
        name_map@.wf(),
        name_batch@.len() <= i32::MAX, it.seq().len() == name_batch@.len(),
        forall|i: int| 0 <= i < name_batch@.len() ==> *#[trigger] it.seq()[i] == name_batch@[i],
        forall|i: int, j: int| 0 <= i < name_batch@.len() && 0 <= j < name_batch@.len() && #[trigger] h(name_batch@[i]@) == #[trigger] h(name_batch@[j]@) ==> name_batch@[i]@ == name_batch@[j]@,
        name_map@.names() == texts(name_batch@.take(it.index() as int)),
//@ at pre-loop 0
    proof { assert(texts(name_batch@.take(0)) =~= texts(Seq::<String>::empty())); assert(texts(Seq::<String>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@ at loop-start 0
    proof {
        let n = it.index() as int;
        assert(texts(name_batch@.take(n + 1)) =~= texts(name_batch@.take(n)).push(name_batch@[n]@));
        assert(name@ == name_batch@[n]@);
        assert forall|i: int| 0 <= i < n && h(#[trigger] texts(name_batch@.take(n))[i]) == h(name@) implies texts(name_batch@.take(n))[i] == name@ by { assert(h(name_batch@[i]@) == h(name_batch@[n]@)); }
    }
//@ at post-loop 0
    proof { assert(name_batch@.take(name_batch@.len() as int) =~= name_batch@); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs FName new
    ensures r == (FName::Backed { index: index, number: number, ty: EMappedNameType::Package, name_map: name_map }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs FName new_with_type
    ensures r == (FName::Backed { index: index, number: number, ty: ty, name_map: name_map }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs FName new_dummy
    ensures r == (FName::Dummy { value: value, number: number }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs FName get_number
    ensures r == (match *self { FName::Backed { number: n, .. } => n, FName::Dummy { number: n, .. } => n }),
//@ end
} // verus!
fn main() {}
