use vstd::prelude::*;
verus! {
global size_of usize == 8;
/// bitvec::BitVec as a sequence of bits (assumed contracts of set and get)
pub struct BitVec { pub g: Vec<bool> }
impl View for BitVec { type V = Seq<bool>; open spec fn view(&self) -> Seq<bool> { self.g@ } }
impl BitVec {
    #[verifier::external_body]
    pub fn set(&mut self, i: usize, v: bool)
        requires i < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(i as int, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get(&self, i: usize) -> (r: bool) ensures r == (if i < self@.len() { self@[i as int] } else { false })
    { unimplemented!() }
}
pub open spec fn src(s: Seq<bool>, i: int) -> bool { if 0 <= i < s.len() { s[i] } else { false } }
//@ rewrite BitVec<T, O> ==> BitVec
//@ rewrite (\w+)\s*\.get\(([^;{}]*?)\)\s*\.as_deref\(\)\s*\.copied\(\)\s*\.unwrap_or\(false\) ==> \1.vx_get(\2)
//@ fn unreal_helpers/src/bitvec_ext.rs "BitVecExt<T, O> for BitVec<T, O>" set_range_from_range mode=free igen="" params=index,num,range,read_offset self=BitVec
    requires 0 <= index, 0 <= num, 0 <= read_offset, index + num <= old(this)@.len(), index + num <= i32::MAX, read_offset + num <= i32::MAX,
    ensures
        final(this)@.len() == old(this)@.len(),
        forall|k: int| 0 <= k < old(this)@.len() ==> #[trigger] final(this)@[k] ==
            (if index <= k < index + num { src(range@, read_offset + k - index) } else { old(this)@[k] }),
//@ loop 0 it=it
        invariant
            0 <= index, 0 <= num, 0 <= read_offset, index + num <= old(this)@.len(), index + num <= i32::MAX, read_offset + num <= i32::MAX,
            this@.len() == old(this)@.len(),
            forall|k: int| 0 <= k < old(this)@.len() ==> #[trigger] this@[k] ==
                (if index <= k < index + it.index() { src(range@, read_offset + k - index) } else { old(this)@[k] }),
//@ end
}
fn main() {}
