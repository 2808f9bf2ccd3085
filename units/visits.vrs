#![allow(non_snake_case, non_camel_case_types, unused_variables, unused_mut, unused_imports, unreachable_patterns, dead_code)]
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
global size_of usize == 8;
// ---- visiting: every name handed to the visitor is recorded as it was (log) and as the visitor left it (out) ----
#[verifier::external_body]
pub struct Name { x: u8 }
/// the visitor and its two records
#[verifier::external_body]
pub struct Visit { x: u8 }
impl Visit {
    pub uninterp spec fn log(&self) -> Multiset<Name>;
    pub uninterp spec fn out(&self) -> Multiset<Name>;
}
/// the names stored in a value, each as often as it occurs
pub uninterp spec fn names<T>(v: T) -> Multiset<Name>;
/// b is a with at most its names changed
pub uninterp spec fn kept<T>(a: T, b: T) -> bool;
pub open spec fn nil() -> Multiset<Name> { Multiset::empty() }
pub axiom fn kept_same<T>() ensures forall|v: T| #[trigger] kept(v, v);
/// FNameContainer::traverse_fnames as its callers see it: the contract proved below for every implementation
#[verifier::external_body]
pub fn trav<T>(x: &mut T, traverse: &mut Visit)
    ensures
        final(traverse).log() == old(traverse).log().add(names(*old(x))),
        final(traverse).out() == old(traverse).out().add(names(*final(x))),
        kept(*old(x), *final(x)),
{ unimplemented!() }
pub open spec fn sum<T>(s: Seq<T>) -> Multiset<Name> decreases s.len() { if s.len() == 0 { nil() } else { sum(s.drop_last()).add(names(s.last())) } }
pub open spec fn sum_pairs<K, V>(s: Seq<(K, V)>) -> Multiset<Name> decreases s.len() { if s.len() == 0 { nil() } else { sum_pairs(s.drop_last()).add(names(s.last().0)).add(names(s.last().1)) } }
pub proof fn sum_step<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures sum(s.take(i + 1)) == sum(s.take(i)).add(names(s[i]))
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub proof fn sum_pairs_step<K, V>(s: Seq<(K, V)>, k: K, v: V)
    ensures sum_pairs(s.push((k, v))) == sum_pairs(s).add(names(k)).add(names(v))
{
    assert(s.push((k, v)).drop_last() =~= s);
}
/// a name holds itself
pub axiom fn one_name() ensures forall|n: Name| #[trigger] names(n) == Multiset::singleton(n);
/// calling the visitor
#[verifier::external_body]
pub fn visit(traverse: &mut Visit, n: &mut Name)
    ensures final(traverse).log() == old(traverse).log().insert(*old(n)), final(traverse).out() == old(traverse).out().insert(*final(n)),
{ unimplemented!() }
// ---- std and the crate's own containers, as far as the bodies below use them ----
/// Rc<RefCell<T>> reached through one handle at a time
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SharedResource<T> { x: Vec<T> }
impl<T> SharedResource<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut T) ensures *r == old(self)@, final(self)@ == *final(r) { unimplemented!() }
}
/// IndexedMap (unit imap): its entries in order of insertion; collecting keeps them all when their keys differ
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexedMap<K, V> { x: Vec<(K, V)> }
pub open spec fn distinct<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
impl<K, V> IndexedMap<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    /// self.clone().into_iter()
    #[verifier::external_body]
    pub fn vx_into_iter(&self) -> (r: Vec<(K, V)>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect(v: Vec<(K, V)>) -> (r: Self) ensures distinct(v@) ==> r@ == v@ { unimplemented!() }
}
/// the i-th item an iterator over owned entries gives
#[verifier::external_body]
pub fn vx_item<K, V>(v: &Vec<(K, V)>, i: usize) -> (r: (usize, K, V)) requires i < v@.len() ensures r.0 == i, (r.1, r.2) == v@[i as int] { unimplemented!() }
/// a package index is a number
#[verifier::external_body]
pub struct PackageIndex { x: i32 }
pub axiom fn none_index() ensures forall|v: PackageIndex| #[trigger] names(v) == nil();

//@ rewrite \bF\b ==> Visit
//@ rewrite \btraverse\(self\) ==> visit(traverse, self)
//@ rewrite \b(key|value)\.traverse_fnames\(traverse\) ==> trav(&mut \1, traverse)
//@ rewrite \bself\.as_mut\(\)\.traverse_fnames\(traverse\) ==> trav(&mut **self, traverse)
//@ rewrite \b(\w+)\.traverse_fnames\(traverse\) ==> trav(\1, traverse)
//@ rewrite for (\w+) in (?:self\.iter_mut\(\)|self|&mut \*self) \{ ==> let mut vx_i: usize = 0; while vx_i < self.len() { let \1 = &mut self[vx_i]; vx_i += 1;
//@ rewrite \*self = self\s*\.clone\(\)\s*\.into_iter\(\)\s*\.map\(\|\(_, mut key, (?:mut )?value\)\| \{(.*?)\(key, value\)\s*\}\)\s*\.collect::<IndexedMap<[^<>]*>>\(\); ==> let vx_es = self.vx_into_iter(); let mut vx_acc = Vec::new(); let mut vx_i: usize = 0; while vx_i < vx_es.len() { let (_, mut key, mut value) = vx_item(&vx_es, vx_i); vx_i += 1; \1 vx_acc.push((key, value)); } *self = IndexedMap::vx_collect(vx_acc);
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs "FNameContainer for FName" traverse_fnames mode=free gen="" self=Name where="" params=traverse as=name_traverse
    ensures
        final(traverse).log() =~= old(traverse).log().add(names(*old(this))),
        final(traverse).out() =~= old(traverse).out().add(names(*final(this))),
//@ at body-start
    proof { one_name(); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs "FNameContainer for Vec<T>" traverse_fnames mode=free igen="" gen="<T>" self="Vec<T>" where="" params=traverse as=vec_traverse
    ensures
        final(traverse).log() =~= old(traverse).log().add(sum(old(this)@)),
        final(traverse).out() =~= old(traverse).out().add(sum(final(this)@)),
        final(this)@.len() == old(this)@.len(),
        forall|i: int| 0 <= i < old(this)@.len() ==> kept(#[trigger] old(this)@[i], final(this)@[i]),
//@ loop 0
        invariant
            vx_i <= this@.len(),
            this@.len() == old(this)@.len(),
            traverse.log() =~= old(traverse).log().add(sum(old(this)@.take(vx_i as int))),
            traverse.out() =~= old(traverse).out().add(sum(this@.take(vx_i as int))),
            forall|i: int| 0 <= i < vx_i ==> kept(#[trigger] old(this)@[i], this@[i]),
            forall|i: int| vx_i <= i < this@.len() ==> this@[i] == old(this)@[i],
        decreases this@.len() - vx_i,
//@ at loop-start 0
            let ghost was = this@;
//@ at loop-end 0
            proof {
                let j = vx_i as int - 1;
                assert(this@.take(j) =~= was.take(j));
                sum_step(old(this)@, j);
                sum_step(this@, j);
            }
//@ at post-loop 0
    proof {
        assert(old(this)@.take(old(this)@.len() as int) =~= old(this)@);
        assert(this@.take(this@.len() as int) =~= this@);
    }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs "FNameContainer for Box<T>" traverse_fnames mode=free igen="" gen="<T>" self="Box<T>" where="" params=traverse as=box_traverse
    ensures
        final(traverse).log() =~= old(traverse).log().add(names(**old(this))),
        final(traverse).out() =~= old(traverse).out().add(names(**final(this))),
        kept(**old(this), **final(this)),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs "FNameContainer for Option<T>" traverse_fnames mode=free igen="" gen="<T>" self="Option<T>" where="" params=traverse as=option_traverse
    ensures
        match (*old(this), *final(this)) {
            (Some(a), Some(b)) => kept(a, b) && final(traverse).log() == old(traverse).log().add(names(a)) && final(traverse).out() == old(traverse).out().add(names(b)),
            (None, None) => final(traverse).log() == old(traverse).log() && final(traverse).out() == old(traverse).out(),
            _ => false,
        },
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs "FNameContainer for SharedResource<T>" traverse_fnames mode=free igen="" gen="<T>" self="SharedResource<T>" where="" params=traverse as=shared_traverse
    ensures
        final(traverse).log() =~= old(traverse).log().add(names(old(this)@)),
        final(traverse).out() =~= old(traverse).out().add(names(final(this)@)),
        kept(old(this)@, final(this)@),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs "FNameContainer for IndexedMap<K, V>" traverse_fnames mode=free igen="" gen="<K, V>" self="IndexedMap<K, V>" where="" params=traverse as=map_traverse
    ensures
        final(traverse).log() =~= old(traverse).log().add(sum_pairs(old(this)@)),
        exists|v: Seq<(K, V)>| {
            &&& v.len() == old(this)@.len()
            &&& forall|i: int| 0 <= i < v.len() ==> kept((#[trigger] old(this)@[i]).0, v[i].0) && kept(old(this)@[i].1, v[i].1)
            &&& final(traverse).out() == old(traverse).out().add(#[trigger] sum_pairs(v))
            &&& distinct(v) ==> final(this)@ == v
        },
//@ loop 0
        invariant
            vx_i <= vx_es@.len(),
            vx_es@ == old(this)@,
            vx_acc@.len() == vx_i,
            traverse.log() =~= old(traverse).log().add(sum_pairs(old(this)@.take(vx_i as int))),
            traverse.out() =~= old(traverse).out().add(sum_pairs(vx_acc@)),
            forall|i: int| 0 <= i < vx_i ==> kept((#[trigger] old(this)@[i]).0, vx_acc@[i].0) && kept(old(this)@[i].1, vx_acc@[i].1),
        decreases vx_es@.len() - vx_i,
//@ at loop-start 0
            let ghost was = vx_acc@;
//@ at loop-end 0
            proof {
                let j = vx_i as int - 1;
                assert(old(this)@.take(vx_i as int) =~= old(this)@.take(j).push((old(this)@[j].0, old(this)@[j].1)));
                sum_pairs_step(old(this)@.take(j), old(this)@[j].0, old(this)@[j].1);
                sum_pairs_step(was, vx_acc@[j].0, vx_acc@[j].1);
                assert(vx_acc@ =~= was.push((vx_acc@[j].0, vx_acc@[j].1)));
            }
//@ at post-loop 0
    let ghost v = vx_acc@;
    proof {
        assert(old(this)@.take(old(this)@.len() as int) =~= old(this)@);
        assert(traverse.out() == old(traverse).out().add(sum_pairs(v)));
    }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/types/fname.rs "FNameContainer for IndexedMap<FName, super::PackageIndex>" traverse_fnames mode=free igen="" gen="<K>" self="IndexedMap<K, PackageIndex>" where="" params=traverse as=index_map_traverse
    ensures
        final(traverse).log() =~= old(traverse).log().add(sum_pairs(old(this)@)),
        exists|v: Seq<(K, PackageIndex)>| {
            &&& v.len() == old(this)@.len()
            &&& forall|i: int| 0 <= i < v.len() ==> kept((#[trigger] old(this)@[i]).0, v[i].0) && kept(old(this)@[i].1, v[i].1)
            &&& final(traverse).out() == old(traverse).out().add(#[trigger] sum_pairs(v))
            &&& distinct(v) ==> final(this)@ == v
        },
//@ loop 0
        invariant
            vx_i <= vx_es@.len(),
            vx_es@ == old(this)@,
            vx_acc@.len() == vx_i,
            traverse.log() =~= old(traverse).log().add(sum_pairs(old(this)@.take(vx_i as int))),
            traverse.out() =~= old(traverse).out().add(sum_pairs(vx_acc@)),
            forall|i: int| 0 <= i < vx_i ==> kept((#[trigger] old(this)@[i]).0, vx_acc@[i].0) && kept(old(this)@[i].1, vx_acc@[i].1),
        decreases vx_es@.len() - vx_i,
//@ at loop-start 0
            let ghost was = vx_acc@;
            proof { none_index(); kept_same::<PackageIndex>(); }
//@ at loop-end 0
            proof {
                let j = vx_i as int - 1;
                assert(old(this)@.take(vx_i as int) =~= old(this)@.take(j).push((old(this)@[j].0, old(this)@[j].1)));
                sum_pairs_step(old(this)@.take(j), old(this)@[j].0, old(this)@[j].1);
                sum_pairs_step(was, vx_acc@[j].0, vx_acc@[j].1);
                assert(vx_acc@ =~= was.push((vx_acc@[j].0, vx_acc@[j].1)));
            }
//@ at post-loop 0
    let ghost v = vx_acc@;
    proof {
        assert(old(this)@.take(old(this)@.len() as int) =~= old(this)@);
        assert(traverse.out() == old(traverse).out().add(sum_pairs(v)));
    }
//@ end
//@ visits
} // verus!
fn main() {}
