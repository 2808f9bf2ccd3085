use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- slab::Slab, FxHashMap and BTreeMap: assumed contracts ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Slab<T> { x: Vec<T> }
impl<T> Slab<T> {
    pub uninterp spec fn view(&self) -> Map<usize, T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<usize, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: T) -> (r: usize) ensures !old(self)@.contains_key(r), final(self)@ == old(self)@.insert(r, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, p: usize) -> (r: bool) ensures r == self@.contains_key(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, p: usize) -> (r: T) requires old(self)@.contains_key(p), ensures r == old(self)@[p], final(self)@ == old(self)@.remove(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, p: usize) -> (r: Option<&T>) ensures r == (if self@.contains_key(p) { Some(&self@[p]) } else { None::<&T> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, p: usize) -> (r: Option<&mut T>)
        ensures r is Some == old(self)@.contains_key(p),
            match r { Some(x) => *x == old(self)@[p] && final(self)@ == old(self)@.insert(p, *final(x)), None => final(self)@ == old(self)@ },
    { unimplemented!() }
    /// Index / IndexMut
    #[verifier::external_body]
    pub fn vx_ref(&self, p: usize) -> (r: &T) requires self@.contains_key(p), ensures *r == self@[p] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mut(&mut self, p: usize) -> (r: &mut T) requires old(self)@.contains_key(p),
        ensures *r == old(self)@[p], final(self)@ == old(self)@.insert(p, *final(r)),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct KeyMap<K: Eq + Hash> { x: Vec<K> }
impl<K: Eq + Hash> KeyMap<K> {
    pub uninterp spec fn view(&self) -> Map<K, usize>;
    #[verifier::external_body]
    pub fn vx_new() -> (r: Self) ensures r@ == Map::<K, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&usize>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None::<&usize> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: KeyItem<K>, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(*k.0, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<usize>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub struct IdxMap { x: Vec<usize> }
impl IdxMap {
    pub uninterp spec fn view(&self) -> Map<usize, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&usize>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None::<&usize> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn last_key_value(&self) -> (r: Option<(&usize, &usize)>)
        ensures r is None ==> self@ == Map::<usize, usize>::empty(),
            r is Some ==> self@.contains_key(*(r->0).0) && *(r->0).1 == self@[*(r->0).0] && (forall|k: usize| self@.contains_key(k) ==> k <= *(r->0).0),
    { unimplemented!() }
}
/// std::slice::Iter<usize> / std::vec::IntoIter<usize>: the places still to come
#[verifier::external_body]
pub struct Places<'a> { x: std::slice::Iter<'a, usize> }
impl<'a> Places<'a> {
    pub uninterp spec fn view(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a usize>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a usize>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_places<'a>(v: &'a Vec<usize>) -> (r: Places<'a>) ensures r@ == v@ { unimplemented!() }
pub fn vx_succ(o: Option<(&usize, &usize)>) -> (r: usize) requires o is Some ==> *(o->0).0 < usize::MAX, ensures r == (if o is Some { *(o->0).0 + 1 } else { 0 })
{ match o { Some((l, _)) => *l + 1, None => 0 } }
#[verifier::external_body]
pub fn vx_unwrap_rc<K>(x: Rc<K>) -> (r: Option<K>) ensures r is Some ==> r->0 == *x { Rc::try_unwrap(x).ok() }
#[verifier::external_body]
pub fn vx_key<K>(x: &Rc<K>) -> (r: &K) ensures *r == **x { x.as_ref() }
pub fn vx_value<'a, K: Eq + Hash, V>(o: Option<&'a IndexedValue<K, V>>) -> (r: Option<&'a V>)
    ensures r == (match o { Some(e) => Some(&e.value), None => None::<&V> }) { match o { Some(e) => Some(&e.value), None => None } }
pub fn vx_value_mut<'a, K: Eq + Hash, V>(o: Option<&'a mut IndexedValue<K, V>>) -> (r: Option<&'a mut V>)
    ensures r is Some == o is Some,
        match (o, r) { (Some(e), Some(v)) => *v == e.value && *final(e) == (IndexedValue { value: *final(v), ..*e }), _ => true },
{ match o { Some(e) => Some(&mut e.value), None => None } }
use std::rc::Rc;
use std::hash::Hash;
//@ rewrite std::slice::Iter<'map, usize> ==> Places<'map>
//@ rewrite self\.index_iter_map\.iter\(\) ==> vx_places(&self.index_iter_map)
//@ rewrite Self::Item ==> (usize, &'map K, &'map V)
//@ rewrite slab::Slab ==> Slab
//@ rewrite rustc_hash::FxHashMap<KeyItem<K>, usize> ==> KeyMap<K>
//@ rewrite rustc_hash::FxHashMap::default\(\) ==> KeyMap::vx_new()
//@ rewrite rustc_hash::FxHashMap::with_capacity_and_hasher\(capacity, Default::default\(\)\) ==> KeyMap::vx_new()
//@ rewrite BTreeMap<usize, usize> ==> IdxMap
//@ rewrite BTreeMap::new ==> IdxMap::new
//@ rewrite &mut self\.map\.store\[self\.store_place\]\.value ==> &mut self.map.store.vx_mut(self.store_place).value
//@ rewrite &self\.map\.store\[self\.store_place\]\.value ==> &self.map.store.vx_ref(self.store_place).value
//@ rewrite self\.map\.store\[self\.store_place\]\.key_map_index\.0\.as_ref\(\) ==> vx_key(&self.map.store.vx_ref(self.store_place).key_map_index.0)
//@ rewrite &mut self\.store\[(\*?\w+)\] ==> self.store.vx_mut(\1)
//@ rewrite self\.store\[(\*?\w+)\]\.(\w+) (-?)= ==> self.store.vx_mut(\1).\2 \3=
//@ rewrite &self\.store\[(\*?\w+)\] ==> self.store.vx_ref(\1)
//@ rewrite self\s*\.index_map\s*\.last_key_value\(\)\s*\.map_or\(0, \|\(last, _\)\| last \+ 1\) ==> vx_succ(self.index_map.last_key_value())
//@ rewrite Rc::<K>::try_unwrap\((\w+)\.key_map_index\.0\)\.ok\(\) ==> vx_unwrap_rc(\1.key_map_index.0)
//@ rewrite (\w+)\.key_map_index\.0\.as_ref\(\) ==> vx_key(&\1.key_map_index.0)
//@ rewrite (self\.store\.get\(\*store_place\))\.map\(\|e\| &e\.value\) ==> vx_value(\1)
//@ rewrite (self\.store\.get_mut\(\*store_place\))\.map\(\|e\| &mut e\.value\) ==> vx_value_mut(\1)
//@ struct unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs KeyItem
//@ struct unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedValue
//@ struct unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap attr="#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]"
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs KeyItem rc_clone
    ensures *r.0 == *self.0,
//@ end

// ---- the one map the four structures stand for ----
pub open spec fn keyof<K: Eq + Hash, V>(e: IndexedValue<K, V>) -> K { *e.key_map_index.0 }
pub open spec fn entry_of<K: Eq + Hash, V>(e: IndexedValue<K, V>) -> (usize, K, V) { (e.index_map_index, *e.key_map_index.0, e.value) }
impl<K: Eq + Hash, V> IndexedMap<K, V> {
    pub open spec fn wf(&self) -> bool { coupled(self.store@, self.key_map@, self.index_map@, self.index_iter_map@) }
    /// index, key and value of every entry, in order of insertion
    pub open spec fn entries(&self) -> Seq<(usize, K, V)> { listed(self.store@, self.index_iter_map@) }
    pub open spec fn room(&self) -> bool { forall|i: usize| self.index_map@.contains_key(i) ==> i < usize::MAX }
}
pub open spec fn listed<K: Eq + Hash, V>(s: Map<usize, IndexedValue<K, V>>, o: Seq<usize>) -> Seq<(usize, K, V)> {
    Seq::new(o.len(), |j: int| entry_of(s[o[j]]))
}
pub open spec fn coupled<K: Eq + Hash, V>(s: Map<usize, IndexedValue<K, V>>, m: Map<K, usize>, i: Map<usize, usize>, o: Seq<usize>) -> bool {
    &&& forall|j: int| 0 <= j < o.len() ==> s.contains_key(#[trigger] o[j]) && s[o[j]].index_iter_map_index == j
    &&& forall|p: usize| #[trigger] s.contains_key(p) ==> s[p].index_iter_map_index < o.len() && o[s[p].index_iter_map_index as int] == p
        && m.contains_key(keyof(s[p])) && m[keyof(s[p])] == p && i.contains_key(s[p].index_map_index) && i[s[p].index_map_index] == p
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> s.contains_key(m[k]) && keyof(s[m[k]]) == k
    &&& forall|n: usize| #[trigger] i.contains_key(n) ==> s.contains_key(i[n]) && s[i[n]].index_map_index == n
    &&& forall|a: int, b: int| 0 <= a < b < o.len() ==> s[#[trigger] o[a]].index_map_index < s[#[trigger] o[b]].index_map_index
}
pub open spec fn has_key<K, V>(e: Seq<(usize, K, V)>, k: K) -> bool { exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).1 == k }
pub open spec fn has_index<K, V>(e: Seq<(usize, K, V)>, n: usize) -> bool { exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == n }
/// e1 is e0 with k given the value v: in place when k is there, else at the end under an index of its own
pub open spec fn inserted<K, V>(e0: Seq<(usize, K, V)>, e1: Seq<(usize, K, V)>, k: K, v: V) -> bool {
    if has_key(e0, k) {
        exists|j: int| 0 <= j < e0.len() && (#[trigger] e0[j]).1 == k && e1 == e0.update(j, (e0[j].0, k, v))
    } else {
        e1.len() == e0.len() + 1 && e1.drop_last() == e0 && e1.last().1 == k && e1.last().2 == v && !has_index(e0, e1.last().0)
    }
}
/// e1 is e0 without its j-th entry
pub open spec fn removed<K, V>(e0: Seq<(usize, K, V)>, e1: Seq<(usize, K, V)>, j: int) -> bool { 0 <= j < e0.len() && e1 == e0.remove(j) }
/// no key and no index twice
pub proof fn c01_one_map<K: Eq + Hash, V>(m: IndexedMap<K, V>)
    requires m.wf(),
    ensures forall|a: int, b: int| 0 <= a < b < m.entries().len() ==> (#[trigger] m.entries()[a]).1 != (#[trigger] m.entries()[b]).1 && m.entries()[a].0 < m.entries()[b].0,
{
    assert forall|a: int, b: int| 0 <= a < b < m.entries().len() implies (#[trigger] m.entries()[a]).1 != (#[trigger] m.entries()[b]).1 && m.entries()[a].0 < m.entries()[b].0 by {
        let o = m.index_iter_map@; let s = m.store@;
        assert(s.contains_key(o[a]) && s.contains_key(o[b]));
    }
}
pub open spec fn val_of<K, V>(e: Seq<(usize, K, V)>, k: K, r: Option<V>) -> bool {
    if has_key(e, k) { r is Some && exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).1 == k && r->0 == e[j].2 } else { r is None }
}
pub open spec fn val_at<K, V>(e: Seq<(usize, K, V)>, n: usize, r: Option<V>) -> bool {
    if has_index(e, n) { r is Some && exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == n && r->0 == e[j].2 } else { r is None }
}
/// where a place is in the order
pub proof fn placed<K: Eq + Hash, V>(m: &IndexedMap<K, V>)
    requires m.wf(),
    ensures forall|k: K| #[trigger] m.key_map@.contains_key(k) == has_key(m.entries(), k),
        forall|n: usize| #[trigger] m.index_map@.contains_key(n) == has_index(m.entries(), n),
        forall|p: usize| #[trigger] m.store@.contains_key(p) ==> 0 <= m.store@[p].index_iter_map_index < m.entries().len() && m.entries()[m.store@[p].index_iter_map_index as int] == entry_of(m.store@[p]),
{
    let s = m.store@; let o = m.index_iter_map@; let e = m.entries();
    assert forall|p: usize| #[trigger] s.contains_key(p) implies 0 <= s[p].index_iter_map_index < e.len() && e[s[p].index_iter_map_index as int] == entry_of(s[p]) by {}
    assert forall|k: K| #[trigger] m.key_map@.contains_key(k) == has_key(e, k) by {
        if m.key_map@.contains_key(k) { let p = m.key_map@[k]; assert(s.contains_key(p)); assert(e[s[p].index_iter_map_index as int].1 == k); }
        if has_key(e, k) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).1 == k; assert(s.contains_key(o[j])); }
    }
    assert forall|n: usize| #[trigger] m.index_map@.contains_key(n) == has_index(e, n) by {
        if m.index_map@.contains_key(n) { let p = m.index_map@[n]; assert(s.contains_key(p)); assert(e[s[p].index_iter_map_index as int].0 == n); }
        if has_index(e, n) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == n; assert(s.contains_key(o[j])); }
    }
}
/// writing a value through a place keeps everything else
pub proof fn set_value<K: Eq + Hash, V>(m: &IndexedMap<K, V>)
    requires m.wf(),
    ensures forall|p: usize, e: IndexedValue<K, V>| m.store@.contains_key(p) && e.key_map_index == m.store@[p].key_map_index && e.index_map_index == m.store@[p].index_map_index
            && e.index_iter_map_index == m.store@[p].index_iter_map_index ==> {
        let s1 = #[trigger] m.store@.insert(p, e);
        &&& coupled(s1, m.key_map@, m.index_map@, m.index_iter_map@)
        &&& listed(s1, m.index_iter_map@) == m.entries().update(e.index_iter_map_index as int, entry_of(e))
    },
        m.store@.dom().len() == m.index_iter_map@.len(),
{
    assert forall|p: usize, e: IndexedValue<K, V>| m.store@.contains_key(p) && e.key_map_index == m.store@[p].key_map_index && e.index_map_index == m.store@[p].index_map_index
            && e.index_iter_map_index == m.store@[p].index_iter_map_index implies {
        let s1 = #[trigger] m.store@.insert(p, e);
        &&& coupled(s1, m.key_map@, m.index_map@, m.index_iter_map@)
        &&& listed(s1, m.index_iter_map@) == m.entries().update(e.index_iter_map_index as int, entry_of(e))
    } by {
        let s1 = m.store@.insert(p, e);
        assert(listed(s1, m.index_iter_map@) =~= m.entries().update(e.index_iter_map_index as int, entry_of(e)));
    }
    sized(m);
}
/// the store without place p, entries up to n behind it moved one up
pub open spec fn shifted<K: Eq + Hash, V>(s0: Map<usize, IndexedValue<K, V>>, s1: Map<usize, IndexedValue<K, V>>, p: usize, q: int, n: int) -> bool {
    &&& s1.dom() == s0.dom().remove(p)
    &&& forall|x: usize| #[trigger] s1.contains_key(x) ==> s1[x].value == s0[x].value && s1[x].key_map_index == s0[x].key_map_index && s1[x].index_map_index == s0[x].index_map_index
        && s1[x].index_iter_map_index == (if q < s0[x].index_iter_map_index <= q + n { s0[x].index_iter_map_index - 1 } else { s0[x].index_iter_map_index as int })
}
pub proof fn gone<K: Eq + Hash, V>(m0: IndexedMap<K, V>, m1: IndexedMap<K, V>, p: usize)
    requires m0.wf(), m0.store@.contains_key(p), m1.index_iter_map@ == m0.index_iter_map@.remove(m0.store@[p].index_iter_map_index as int),
        shifted(m0.store@, m1.store@, p, m0.store@[p].index_iter_map_index as int, m0.index_iter_map@.len() - 1 - m0.store@[p].index_iter_map_index),
    ensures coupled(m1.store@, m0.key_map@.remove(keyof(m0.store@[p])), m0.index_map@.remove(m0.store@[p].index_map_index), m1.index_iter_map@),
        removed(m0.entries(), m1.entries(), m0.store@[p].index_iter_map_index as int),
{
    let q = m0.store@[p].index_iter_map_index as int;
    let (s0, s1) = (m0.store@, m1.store@);
    let (o0, o1) = (m0.index_iter_map@, m1.index_iter_map@);
    assert(o0[q] == p);
    assert forall|j: int| 0 <= j < o1.len() implies s1.contains_key(#[trigger] o1[j]) && s1[o1[j]].index_iter_map_index == j by {
        let k = if j < q { j } else { j + 1 };
        assert(o1[j] == o0[k]); assert(s0.contains_key(o0[k]));
        assert(s0[o0[k]].index_iter_map_index == k);
        assert(s1.contains_key(o1[j]));
    }
    assert forall|x: usize| #[trigger] s1.contains_key(x) implies s1[x].index_iter_map_index < o1.len() && o1[s1[x].index_iter_map_index as int] == x by {
        assert(s0.contains_key(x)); assert(x != p);
        let k = s0[x].index_iter_map_index as int;
        assert(o0[k] == x); assert(k != q);
    }
    let m2 = m0.key_map@.remove(keyof(s0[p]));
    let i2 = m0.index_map@.remove(s0[p].index_map_index);
    assert forall|x: usize| #[trigger] s1.contains_key(x) implies m2.contains_key(keyof(s1[x])) && m2[keyof(s1[x])] == x && i2.contains_key(s1[x].index_map_index) && i2[s1[x].index_map_index] == x by {
        assert(s0.contains_key(x));
        assert(keyof(s1[x]) == keyof(s0[x]));
    }
    assert forall|k: K| #[trigger] m2.contains_key(k) implies s1.contains_key(m2[k]) && keyof(s1[m2[k]]) == k by { assert(m0.key_map@.contains_key(k)); }
    assert forall|n: usize| #[trigger] i2.contains_key(n) implies s1.contains_key(i2[n]) && s1[i2[n]].index_map_index == n by { assert(m0.index_map@.contains_key(n)); }
    assert forall|a: int, b: int| 0 <= a < b < o1.len() implies s1[#[trigger] o1[a]].index_map_index < s1[#[trigger] o1[b]].index_map_index by {
        let a0 = if a < q { a } else { a + 1 }; let b0 = if b < q { b } else { b + 1 };
        assert(o1[a] == o0[a0] && o1[b] == o0[b0]);
        assert(s1.contains_key(o1[a]) && s1.contains_key(o1[b]));
    }
    assert(m1.entries() =~= m0.entries().remove(q)) by {
        assert forall|j: int| 0 <= j < o1.len() implies m1.entries()[j] == m0.entries().remove(q)[j] by {
            let k = if j < q { j } else { j + 1 };
            assert(o1[j] == o0[k]); assert(s1.contains_key(o1[j]));
        }
    }
}
pub broadcast proof fn ins2<A, B>(m: Map<A, B>, k: A, a: B, b: B) ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b) { assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b)); }
/// a new entry at the end, under a new place, key and index
pub open spec fn fresh<K: Eq + Hash, V>(m: &IndexedMap<K, V>, p: usize, e: IndexedValue<K, V>) -> bool {
    &&& !m.store@.contains_key(p) && !m.key_map@.contains_key(keyof(e)) && e.index_iter_map_index == m.index_iter_map@.len()
    &&& forall|i: usize| m.index_map@.contains_key(i) ==> i < e.index_map_index
}
pub proof fn added<K: Eq + Hash, V>(m: &IndexedMap<K, V>)
    requires m.wf(),
    ensures forall|p: usize, e: IndexedValue<K, V>| #[trigger] fresh(m, p, e) ==> {
        let s1 = m.store@.insert(p, e);
        &&& coupled(s1, m.key_map@.insert(keyof(e), p), m.index_map@.insert(e.index_map_index, p), m.index_iter_map@.push(p))
        &&& listed(s1, m.index_iter_map@.push(p)) == m.entries().push(entry_of(e))
        &&& !has_index(m.entries(), e.index_map_index)
        &&& m.entries().push(entry_of(e)).drop_last() == m.entries()
    },
{
    placed(m);
    assert forall|p: usize, e: IndexedValue<K, V>| #[trigger] fresh(m, p, e) implies {
        let s1 = m.store@.insert(p, e);
        &&& coupled(s1, m.key_map@.insert(keyof(e), p), m.index_map@.insert(e.index_map_index, p), m.index_iter_map@.push(p))
        &&& listed(s1, m.index_iter_map@.push(p)) == m.entries().push(entry_of(e))
        &&& !has_index(m.entries(), e.index_map_index)
        &&& m.entries().push(entry_of(e)).drop_last() == m.entries()
    } by {
        let (s0, o0, m0, i0) = (m.store@, m.index_iter_map@, m.key_map@, m.index_map@);
        let s1 = s0.insert(p, e); let o1 = o0.push(p); let m1 = m0.insert(keyof(e), p); let i1 = i0.insert(e.index_map_index, p);
        assert(!i0.contains_key(e.index_map_index));
        assert forall|j: int| 0 <= j < o1.len() implies s1.contains_key(#[trigger] o1[j]) && s1[o1[j]].index_iter_map_index == j by { if j < o0.len() { assert(s0.contains_key(o0[j])); } }
        assert forall|x: usize| #[trigger] s1.contains_key(x) implies s1[x].index_iter_map_index < o1.len() && o1[s1[x].index_iter_map_index as int] == x
            && m1.contains_key(keyof(s1[x])) && m1[keyof(s1[x])] == x && i1.contains_key(s1[x].index_map_index) && i1[s1[x].index_map_index] == x by {
            if x != p { assert(s0.contains_key(x)); }
        }
        assert forall|k: K| #[trigger] m1.contains_key(k) implies s1.contains_key(m1[k]) && keyof(s1[m1[k]]) == k by { if k != keyof(e) { assert(m0.contains_key(k)); } }
        assert forall|n: usize| #[trigger] i1.contains_key(n) implies s1.contains_key(i1[n]) && s1[i1[n]].index_map_index == n by { if n != e.index_map_index { assert(i0.contains_key(n)); } }
        assert forall|a: int, b: int| 0 <= a < b < o1.len() implies s1[#[trigger] o1[a]].index_map_index < s1[#[trigger] o1[b]].index_map_index by {
            assert(s0.contains_key(o0[a]));
            if b < o0.len() { assert(s0.contains_key(o0[b])); }
        }
        assert(m.entries().push(entry_of(e)).drop_last() =~= m.entries());
        assert(listed(s1, o1) =~= m.entries().push(entry_of(e))) by {
            assert forall|j: int| 0 <= j < o1.len() implies listed(s1, o1)[j] == m.entries().push(entry_of(e))[j] by { if j < o0.len() { assert(s0.contains_key(o0[j])); } }
        }
    }
}
pub proof fn sized<K: Eq + Hash, V>(m: &IndexedMap<K, V>)
    requires m.wf(),
    ensures m.index_map@.len() == m.entries().len(), m.store@.dom().len() == m.index_iter_map@.len(),
{
    let o = m.index_iter_map@;
    let idx = o.map_values(|p: usize| m.store@[p].index_map_index);
    assert(idx.no_duplicates());
    assert(idx.to_set() =~= m.index_map@.dom()) by {
        assert forall|n: usize| m.index_map@.contains_key(n) implies idx.to_set().contains(n) by { let p = m.index_map@[n]; assert(m.store@.contains_key(p)); assert(idx[m.store@[p].index_iter_map_index as int] == n); }
        assert forall|n: usize| idx.to_set().contains(n) implies m.index_map@.contains_key(n) by { let j = idx.index_of(n); assert(m.store@.contains_key(o[j])); }
    }
    idx.unique_seq_to_set();
    assert(o.no_duplicates());
    assert(o.to_set() =~= m.store@.dom()) by {
        assert forall|p: usize| m.store@.contains_key(p) implies o.to_set().contains(p) by { assert(o[m.store@[p].index_iter_map_index as int] == p); }
    }
    o.unique_seq_to_set();
}
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap new
    ensures r.wf(), r.entries().len() == 0,
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap with_capacity params=capacity
    ensures r.wf(), r.entries().len() == 0,
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap get_by_key params=key gen="" where=""
//@ rw &Q ==> &K
    requires self.wf(),
    ensures val_of(self.entries(), *key, match r { Some(v) => Some(*v), None => None }),
//@ at body-start
    proof { placed(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap get_by_index params=index
    requires self.wf(),
    ensures val_at(self.entries(), index, match r { Some(v) => Some(*v), None => None }),
//@ at body-start
    proof { placed(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap get_by_key_mut params=key gen="" where=""
//@ rw &Q ==> &K
    requires old(self).wf(),
    ensures val_of(old(self).entries(), *key, match r { Some(v) => Some(*v), None => None }),
        final(self).wf(), r is None ==> final(self).entries() == old(self).entries(),
        r is Some ==> inserted(old(self).entries(), final(self).entries(), *key, *final(r->0)),
//@ at body-start
    proof { placed(self); set_value(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap get_by_index_mut params=index
    requires old(self).wf(),
    ensures val_at(old(self).entries(), index, match r { Some(v) => Some(*v), None => None }),
        final(self).wf(), r is None ==> final(self).entries() == old(self).entries(),
        r is Some ==> exists|j: int| 0 <= j < old(self).entries().len() && (#[trigger] old(self).entries()[j]).0 == index
            && final(self).entries() == old(self).entries().update(j, (index, old(self).entries()[j].1, *final(r->0))),
//@ at body-start
    proof { placed(self); set_value(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap len
    requires self.wf(),
    ensures r == self.entries().len(),
//@ at body-start
    proof { sized(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap is_empty
    requires self.wf(),
    ensures r == (self.entries().len() == 0),
//@ at body-start
    proof { sized(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap contains_key params=key
    requires self.wf(),
    ensures r == has_key(self.entries(), *key),
//@ at body-start
    proof { placed(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap contains_index params=index
    requires self.wf(),
    ensures r == has_index(self.entries(), index),
//@ at body-start
    proof { placed(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap remove_by_store_place params=store_place
//@ rw for place in &self\.index_iter_map\[value\.index_iter_map_index\.\.\] ==> for place in vstd::slice::slice_subrange(self.index_iter_map.as_slice(), value.index_iter_map_index, self.index_iter_map.len())
    requires old(self).wf(),
    ensures final(self).wf(),
        !old(self).store@.contains_key(store_place) ==> r is None && final(self).entries() == old(self).entries(),
        old(self).store@.contains_key(store_place) ==> removed(old(self).entries(), final(self).entries(), old(self).store@[store_place].index_iter_map_index as int)
            && (r is Some ==> r->0 == entry_of(old(self).store@[store_place])),
//@ loop 0 it=it
        invariant
            self.key_map == m0.key_map, self.index_map == m0.index_map, self.index_iter_map@ == m0.index_iter_map@.remove(q),
            m0.wf(), m0.store@.contains_key(store_place), q == m0.store@[store_place].index_iter_map_index, q < m0.index_iter_map@.len(),
            it.seq().len() == m0.index_iter_map@.len() - 1 - q,
            forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == m0.index_iter_map@[q + j + 1],
            shifted(m0.store@, self.store@, store_place, q, it.index() as int),
//@ at body-start
    let ghost m0 = *self;
    let ghost q = self.store@[store_place].index_iter_map_index as int;
//@ at loop-start 0
            let ghost sb = self.store@; let ghost n0 = it.index() as int;
            proof { assert(*it.seq()[it.index() as int] == m0.index_iter_map@[q + it.index() + 1]); assert(m0.store@.contains_key(*place)); assert(sb.contains_key(*place)); }
//@ at loop-end 0
            proof {
                assert(self.store@.dom() =~= sb.dom());
                assert forall|x: usize| #[trigger] self.store@.contains_key(x) implies self.store@[x].value == m0.store@[x].value && self.store@[x].key_map_index == m0.store@[x].key_map_index
                    && self.store@[x].index_map_index == m0.store@[x].index_map_index
                    && self.store@[x].index_iter_map_index == (if q < m0.store@[x].index_iter_map_index <= q + n0 + 1 { m0.store@[x].index_iter_map_index - 1 } else { m0.store@[x].index_iter_map_index as int }) by {
                    assert(sb.contains_key(x)); assert(m0.store@.contains_key(x));
                }
            }
//@ at post-loop 0
        proof { gone(m0, *self, store_place); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap remove_by_index params=index
    requires old(self).wf(),
    ensures final(self).wf(),
        !has_index(old(self).entries(), index) ==> r is None && final(self).entries() == old(self).entries(),
        has_index(old(self).entries(), index) ==> exists|j: int| (#[trigger] old(self).entries()[j]).0 == index && removed(old(self).entries(), final(self).entries(), j)
            && (r is Some ==> r->0 == old(self).entries()[j]),
//@ at body-start
    proof { placed(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap remove_by_key params=key gen="" where=""
//@ rw &Q ==> &K
    requires old(self).wf(),
    ensures final(self).wf(),
        !has_key(old(self).entries(), *key) ==> r is None && final(self).entries() == old(self).entries(),
        has_key(old(self).entries(), *key) ==> exists|j: int| (#[trigger] old(self).entries()[j]).1 == *key && removed(old(self).entries(), final(self).entries(), j)
            && (r is Some ==> r->0 == old(self).entries()[j]),
//@ at body-start
    proof { placed(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap internal_insert params=key,value
    requires old(self).wf(), old(self).room(),
    ensures keyof(*r) == key, r.value == value,
        ({ let e = *final(r);
           e.key_map_index == r.key_map_index && e.index_map_index == r.index_map_index && e.index_iter_map_index == r.index_iter_map_index
               ==> final(self).wf() && inserted(old(self).entries(), final(self).entries(), key, e.value) }),
//@ at body-start
    broadcast use ins2;
    let ghost m0 = *self;
    proof { placed(self); set_value(self); added(self); }
//@ at before-tail
    proof {
        let p = store_place;
        assert(m0.key_map@.insert(key, p) == self.key_map@);
        assert forall|e: IndexedValue<K, V>| keyof(e) == key && e.index_iter_map_index == m0.index_iter_map@.len() && e.index_map_index == self.store@[p].index_map_index implies fresh(&m0, p, e)
            && #[trigger] self.store@.insert(p, e) == m0.store@.insert(p, e) by { assert(fresh(&m0, p, e)); }
    }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap insert params=key,value
    requires old(self).wf(), old(self).room(),
    ensures final(self).wf(), inserted(old(self).entries(), final(self).entries(), key, value),
//@ end
// ---- entries ----
//@ enum unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs Entry attr="#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]"
//@ struct unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs VacantEntry attr="#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]"
//@ struct unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs OccupiedEntry attr="#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]"
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap entry params=key
    requires old(self).wf(),
    ensures match r {
        Entry::Occupied(o) => has_key(old(self).entries(), key) && *o.map == *old(self) && *final(self) == *final(o.map) && old(self).key_map@.contains_key(key) && o.store_place == old(self).key_map@[key],
        Entry::Vacant(v) => !has_key(old(self).entries(), key) && v.key == key && *v.map == *old(self) && *final(self) == *final(v.map),
    },
//@ at body-start
    proof { placed(self); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs VacantEntry insert params=value
    requires old(self.map).wf(), old(self.map).room(),
    ensures *r == value, inserted(old(self.map).entries(), final(self.map).entries(), self.key, *final(r)), final(self.map).wf(),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs OccupiedEntry into_mut
    requires old(self.map).wf(), old(self.map).store@.contains_key(self.store_place),
    ensures *r == old(self.map).store@[self.store_place].value, final(self.map).wf(),
        inserted(old(self.map).entries(), final(self.map).entries(), keyof(old(self.map).store@[self.store_place]), *final(r)),
//@ at body-start
    proof { placed(self.map); set_value(self.map); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs OccupiedEntry get
    requires old(self.map).store@.contains_key(self.store_place),
    ensures *r == old(self.map).store@[self.store_place].value,
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs OccupiedEntry key
    requires old(self.map).store@.contains_key(self.store_place),
    ensures *r == keyof(old(self.map).store@[self.store_place]),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs Entry or_insert params=default
    requires match self { Entry::Occupied(o) => o.map.wf() && o.map.store@.contains_key(o.store_place), Entry::Vacant(v) => v.map.wf() && v.map.room() && !has_key(v.map.entries(), v.key) },
    ensures match self {
        Entry::Occupied(o) => final(o.map).wf() && *r == o.map.store@[o.store_place].value && inserted(o.map.entries(), final(o.map).entries(), keyof(o.map.store@[o.store_place]), *final(r)),
        Entry::Vacant(v) => final(v.map).wf() && *r == default && inserted(v.map.entries(), final(v.map).entries(), v.key, *final(r)),
    },
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs OccupiedEntry get_mut
    requires old(self).map.wf(), old(self).map.store@.contains_key(old(self).store_place),
    ensures *r == old(self).map.store@[old(self).store_place].value, final(self).map.wf(), final(self).store_place == old(self).store_place,
        inserted(old(self).map.entries(), final(self).map.entries(), keyof(old(self).map.store@[old(self).store_place]), *final(r)),
//@ at body-start
    proof { placed(self.map); set_value(self.map); }
//@ end
// ---- iteration by reference ----
//@ struct unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMapIndexIterator attr="#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]"
pub open spec fn live<K: Eq + Hash, V>(s: Map<usize, IndexedValue<K, V>>, o: Seq<usize>) -> bool { forall|j: int| 0 <= j < o.len() ==> s.contains_key(#[trigger] o[j]) }
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs IndexedMap iter
    requires self.wf(),
    ensures live(r.store@, r.index_iter@), listed(r.store@, r.index_iter@) == self.entries(),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs "Iterator for IndexedMapIndexIterator" next
    requires live(old(self).store@, old(self).index_iter@),
    ensures final(self).store == old(self).store, live(final(self).store@, final(self).index_iter@),
        ({ let e = listed(old(self).store@, old(self).index_iter@); let f = listed(final(self).store@, final(self).index_iter@);
            match r { None => e.len() == 0, Some(x) => e.len() > 0 && (x.0, *x.1, *x.2) == e[0] && f =~= e.skip(1) } }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs "DoubleEndedIterator for IndexedMapIndexIterator" next_back
    requires live(old(self).store@, old(self).index_iter@),
    ensures final(self).store == old(self).store, live(final(self).store@, final(self).index_iter@),
        ({ let e = listed(old(self).store@, old(self).index_iter@); let f = listed(final(self).store@, final(self).index_iter@);
            match r { None => e.len() == 0, Some(x) => e.len() > 0 && (x.0, *x.1, *x.2) == e.last() && f =~= e.drop_last() } }),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs "ExactSizeIterator for IndexedMapIndexIterator" len
    ensures r == listed(self.store@, self.index_iter@).len(),
//@ end
}
fn main() {}
