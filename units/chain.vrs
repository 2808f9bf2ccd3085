use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- a part: std::io::Read + Seek as assumed contracts over bytes with a position ----
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub open spec fn target(f: SeekFrom, pos: int, len: int) -> int {
    match f { SeekFrom::Start(n) => n as int, SeekFrom::End(k) => len + k, SeekFrom::Current(k) => pos + k }
}
pub open spec fn left(d: Seq<u8>, p: nat) -> int { if p < d.len() { d.len() - p } else { 0 } }
/// one read of at most len bytes: n bytes from the position on, nothing only at the end
pub open spec fn read_ok(d: Seq<u8>, p: nat, len: nat, b0: Seq<u8>, b1: Seq<u8>, n: nat) -> bool {
    &&& n <= len && n <= left(d, p) && (n == 0 ==> len == 0 || left(d, p) == 0)
    &&& b1.len() == b0.len() && b0.len() == len
    &&& forall|i: int| 0 <= i < n ==> #[trigger] b1[i] == d[p + i]
    &&& forall|i: int| n <= i < len ==> #[trigger] b1[i] == b0[i]
}
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub trait Read {
    spec fn data(&self) -> Seq<u8>;
    spec fn at(&self) -> nat;
    /// raises no I/O error of its own
    spec fn sound(&self) -> bool;
    /// fills the buffer as far as there are bytes
    spec fn full(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        ensures final(buf)@.len() == old(buf)@.len(),
            final(self).data() == old(self).data(), final(self).sound() == old(self).sound(), final(self).full() == old(self).full(),
            r is Ok ==> read_ok(old(self).data(), old(self).at(), old(buf)@.len(), old(buf)@, final(buf)@, r->Ok_0 as nat)
                && final(self).at() == old(self).at() + r->Ok_0,
            r is Ok && old(self).full() ==> r->Ok_0 == min(old(buf)@.len() as int, left(old(self).data(), old(self).at())),
            r is Err ==> final(self).at() == old(self).at() && final(buf)@ == old(buf)@,
            old(self).sound() ==> r is Ok;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        ensures final(buf)@.len() == old(buf)@.len(),
            final(self).data() == old(self).data(), final(self).sound() == old(self).sound(), final(self).full() == old(self).full(),
            r is Ok ==> old(buf)@.len() <= left(old(self).data(), old(self).at()) && final(self).at() == old(self).at() + old(buf)@.len()
                && (forall|i: int| 0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(self).data()[old(self).at() + i]),
            old(self).sound() && old(buf)@.len() <= left(old(self).data(), old(self).at()) ==> r is Ok;
}
pub trait Seek: Read {
    fn seek(&mut self, f: SeekFrom) -> (r: Result<u64>)
        ensures
            final(self).data() == old(self).data(), final(self).sound() == old(self).sound(), final(self).full() == old(self).full(),
            r is Ok ==> r->Ok_0 == target(f, old(self).at() as int, old(self).data().len() as int) && final(self).at() == r->Ok_0,
            r is Err ==> final(self).at() == old(self).at(),
            old(self).sound() && 0 <= target(f, old(self).at() as int, old(self).data().len() as int) <= u64::MAX ==> r is Ok,
            target(f, old(self).at() as int, old(self).data().len() as int) < 0 ==> r is Err;
    fn rewind(&mut self) -> (r: Result<()>)
        ensures
            final(self).data() == old(self).data(), final(self).sound() == old(self).sound(), final(self).full() == old(self).full(),
            r is Ok ==> final(self).at() == 0, r is Err ==> final(self).at() == old(self).at(),
            old(self).sound() ==> r is Ok;
}
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or_default] (x: core::result::Result<T, E>) -> (r: T)
    where T: core::default::Default
    ensures x is Ok ==> r == x->Ok_0;
/// <&[u8] as Read>::read
#[verifier::external_body]
pub fn vx_slice_read(s: &[u8], buf: &mut [u8]) -> (r: Result<usize>)
    ensures r is Ok, final(buf)@.len() == old(buf)@.len(), r->Ok_0 == min(s@.len() as int, old(buf)@.len() as int),
        forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(buf)@[i] == s@[i],
        forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i],
{ unimplemented!() }
//@ rewrite (\w+)\.as_slice\(\)\.read\(buf\) ==> vx_slice_read(\1.as_slice(), buf)
//@ rewrite Error::from\(ErrorKind::\w+\) ==> Error
//@ struct unreal_asset/unreal_asset_base/src/containers/chain.rs Chain

// ---- the concatenation it stands for ----
impl<C: Read + Seek> Chain<C> {
    pub open spec fn cdata(&self) -> Seq<u8> { if self.second is Some { self.first.data() + self.second->0.data() } else { self.first.data() } }
    pub open spec fn cpos(&self) -> nat { if self.second is Some { self.pos as nat } else { self.first.at() } }
    pub open spec fn csound(&self) -> bool { self.first.sound() && (self.second is Some ==> self.second->0.sound()) }
    pub open spec fn cfull(&self) -> bool { self.first.full() && (self.second is Some ==> self.second->0.full()) }
    pub open spec fn wf(&self) -> bool {
        self.second is Some ==> {
            &&& self.first_len == self.first.data().len() && self.second_len == self.second->0.data().len()
            &&& self.first_len + self.second_len <= i64::MAX
            &&& (self.pos < self.first_len ==> self.first.at() == self.pos && self.second->0.at() == 0)
            &&& (self.pos >= self.first_len ==> self.second->0.at() == self.pos - self.first_len)
        }
    }
}
//@ fn unreal_asset/unreal_asset_base/src/containers/chain.rs Chain new params=first,second
    requires first.sound(), second is Some ==> second->0.sound(),
        first.data().len() + (if second is Some { second->0.data().len() } else { 0 }) <= i64::MAX,
    ensures r.wf(), r.cpos() == 0, r.csound(), r.second is Some == second is Some,
        r.cdata() == first.data() + (if second is Some { second->0.data() } else { Seq::empty() }),
        r.cfull() == (first.full() && (second is Some ==> second->0.full())),
//@ at before-tail
    proof { assert(first.data() + Seq::<u8>::empty() =~= first.data()); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/chain.rs "Read for Chain" read params=buf
    requires old(self).wf(),
    ensures final(buf)@.len() == old(buf)@.len(), final(self).cdata() == old(self).cdata(),
        final(self).csound() == old(self).csound(), final(self).cfull() == old(self).cfull(),
        r is Ok ==> final(self).wf() && read_ok(old(self).cdata(), old(self).cpos(), old(buf)@.len(), old(buf)@, final(buf)@, r->Ok_0 as nat)
            && final(self).cpos() == old(self).cpos() + r->Ok_0,
        r is Ok && old(self).cfull() ==> r->Ok_0 == min(old(buf)@.len() as int, left(old(self).cdata(), old(self).cpos())),
        old(self).csound() ==> r is Ok,
//@ end
//@ fn unreal_asset/unreal_asset_base/src/containers/chain.rs "Seek for Chain" seek params=pos
    requires old(self).wf(),
    ensures final(self).cdata() == old(self).cdata(), final(self).csound() == old(self).csound(), final(self).cfull() == old(self).cfull(),
        r is Ok ==> final(self).wf() && r->Ok_0 == target(pos, old(self).cpos() as int, old(self).cdata().len() as int) && final(self).cpos() == r->Ok_0,
        target(pos, old(self).cpos() as int, old(self).cdata().len() as int) < 0 ==> r is Err && final(self).wf() && final(self).cpos() == old(self).cpos(),
        old(self).csound() && 0 <= target(pos, old(self).cpos() as int, old(self).cdata().len() as int) <= u64::MAX ==> r is Ok,
    decreases (if pos is Start { 0nat } else { 1nat }),
//@ end
}
fn main() {}
