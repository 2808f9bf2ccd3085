// ---- iterator chains over slices, as the list of their items (verified here, not assumed) ----
// `x.iter()` is rewritten to `viter(&x)`; adapters are evaluated at once instead of on demand, which for
// closures without effects gives the same items.
pub struct It<X> { pub v: Vec<X> }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|t: T| &t) }
pub open spec fn deref_of<'a, T>() -> spec_fn(&'a T) -> T { |t: &'a T| *t }
pub fn viter<'a, T>(s: &'a [T]) -> (r: It<&'a T>) ensures r.v@ == refs(s@) {
    let mut v: Vec<&'a T> = Vec::new();
    let mut i = 0;
    while i < s.len() invariant i <= s.len(), v@ =~= refs(s@.subrange(0, i as int)) decreases s.len() - i
    { v.push(&s[i]); i += 1; }
    assert(s@.subrange(0, i as int) =~= s@);
    It { v }
}
/// first place where p holds, or the length
pub open spec fn first_at<X>(s: Seq<X>, p: spec_fn(X) -> bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if p(s[0]) { 0 } else { 1 + first_at(s.skip(1), p) }
}
pub proof fn first_at_is<X>(s: Seq<X>, p: spec_fn(X) -> bool, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> !p(#[trigger] s[j]), k < s.len() ==> p(s[k])
    ensures first_at(s, p) == k decreases s.len()
{
    if s.len() > 0 && k > 0 {
        assert(!p(s[0]));
        let t = s.skip(1);
        assert forall|j: int| 0 <= j < k - 1 implies !p(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
        first_at_is(t, p, k - 1);
    }
}
pub proof fn first_at_ok<X>(s: Seq<X>, p: spec_fn(X) -> bool)
    ensures 0 <= first_at(s, p) <= s.len(), first_at(s, p) < s.len() ==> p(s[first_at(s, p)]),
        forall|j: int| 0 <= j < first_at(s, p) ==> !p(#[trigger] s[j])
    decreases s.len()
{
    if s.len() > 0 && !p(s[0]) {
        let t = s.skip(1);
        first_at_ok(t, p);
        assert forall|j: int| 0 <= j < first_at(s, p) implies !p(#[trigger] s[j]) by { if j > 0 { assert(t[j - 1] == s[j]); } }
    }
}
impl<X: Copy> It<X> {
    pub fn filter<F: Fn(&X) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(X) -> bool>) -> (r: It<X>)
        requires forall|x: X| #[trigger] call_requires(f, (&x,)), forall|x: X, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)
        ensures r.v@ == self.v@.filter(p)
    {
        let mut v: Vec<X> = Vec::new();
        let mut i = 0;
        let ghost s = self.v@;
        assert(s.subrange(0, 0).filter(p) =~= Seq::<X>::empty()) by { reveal(Seq::filter); }
        while i < self.v.len()
            invariant i <= self.v.len(), s == self.v@, v@ == s.subrange(0, i as int).filter(p), forall|x: X| #[trigger] call_requires(f, (&x,)), forall|x: X, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)
            decreases self.v.len() - i
        {
            let x = self.v[i];
            proof {
                reveal(Seq::filter);
                assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i as int));
            }
            if f(&x) { v.push(x); }
            i += 1;
        }
        assert(s.subrange(0, i as int) =~= s);
        It { v }
    }
    pub fn find<F: Fn(&X) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(X) -> bool>) -> (r: Option<X>)
        requires forall|x: X| #[trigger] call_requires(f, (&x,)), forall|x: X, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)
        ensures r == (if first_at(self.v@, p) < self.v@.len() { Some(self.v@[first_at(self.v@, p)]) } else { None::<X> })
    {
        let mut i = 0;
        while i < self.v.len()
            invariant i <= self.v.len(), forall|j: int| 0 <= j < i ==> !p(#[trigger] self.v@[j]), forall|x: X| #[trigger] call_requires(f, (&x,)), forall|x: X, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)
            decreases self.v.len() - i
        {
            let x = self.v[i];
            if f(&x) { proof { first_at_is(self.v@, p, i as int); } return Some(x); }
            i += 1;
        }
        proof { first_at_is(self.v@, p, i as int); }
        None
    }
    pub fn map<Y, F: Fn(X) -> Y>(self, f: F, Ghost(p): Ghost<spec_fn(X) -> Y>) -> (r: It<Y>)
        requires forall|x: X| #[trigger] call_requires(f, (x,)), forall|x: X, y: Y| #[trigger] call_ensures(f, (x,), y) ==> y == p(x)
        ensures r.v@ == self.v@.map_values(p)
    {
        let mut v: Vec<Y> = Vec::new();
        let mut i = 0;
        while i < self.v.len()
            invariant i <= self.v.len(), v@ =~= self.v@.subrange(0, i as int).map_values(p), forall|x: X| #[trigger] call_requires(f, (x,)), forall|x: X, y: Y| #[trigger] call_ensures(f, (x,), y) ==> y == p(x)
            decreases self.v.len() - i
        {
            let y = f(self.v[i]);
            v.push(y);
            i += 1;
        }
        assert(self.v@.subrange(0, i as int) =~= self.v@);
        It { v }
    }
    pub fn collect(self) -> (r: Vec<X>) ensures r@ == self.v@ { self.v }
}
impl<'a, T: Copy> It<&'a T> {
    pub fn copied(self) -> (r: It<T>) ensures r.v@ == self.v@.map_values(deref_of()) {
        let mut v: Vec<T> = Vec::new();
        let mut i = 0;
        while i < self.v.len()
            invariant i <= self.v.len(), v@ =~= self.v@.subrange(0, i as int).map_values(deref_of())
            decreases self.v.len() - i
        { v.push(*self.v[i]); i += 1; }
        assert(self.v@.subrange(0, i as int) =~= self.v@);
        It { v }
    }
}
pub assume_specification<'a, T: Copy> [Option::<&T>::copied] (a: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });
