// ---- package archives (ArchiveReader / ArchiveWriter) as assumed contracts over a byte stream ----
// A stored form is a sequence of byte patterns: a fixed byte, or a byte the format ignores on reading.
pub enum Pat { B(u8), Any, NonZero }
pub open spec fn lit(w: Seq<u8>) -> Seq<Pat> { Seq::new(w.len(), |i: int| Pat::B(w[i])) }
pub open spec fn anyb(n: nat) -> Seq<Pat> { Seq::new(n, |i: int| Pat::Any) }
pub open spec fn fits(b: u8, p: Pat) -> bool { match p { Pat::B(x) => b == x, Pat::Any => true, Pat::NonZero => b != 0 } }
pub open spec fn fit(w: Seq<u8>, p: Seq<Pat>) -> bool { w.len() == p.len() && forall|i: int| 0 <= i < w.len() ==> fits(#[trigger] w[i], p[i]) }
pub trait Archive {
    spec fn pre(&self) -> Seq<u8>;
    spec fn post(&self) -> Seq<u8>;
    spec fn ov(&self) -> ObjectVersion;
    spec fn o5(&self) -> ObjectVersionUE5;
    spec fn cv(&self) -> Cvs;
}
/// the custom versions of a package
#[verifier::external_body]
pub struct Cvs { x: u8 }
pub uninterp spec fn cvn<T>(c: Cvs) -> i32;
/// what the stored form depends on besides the value; exact: the bytes the writer chooses where the reader ignores them
pub struct Ctx { pub ov: ObjectVersion, pub o5: ObjectVersionUE5, pub cv: Cvs, pub exact: bool }
pub open spec fn rc<S: Archive + ?Sized>(s: &S) -> Ctx { Ctx { ov: s.ov(), o5: s.o5(), cv: s.cv(), exact: false } }
pub open spec fn wc<S: Archive + ?Sized>(s: &S) -> Ctx { Ctx { ov: s.ov(), o5: s.o5(), cv: s.cv(), exact: true } }
#[verifier::opaque]
pub open spec fn rd<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>) -> bool {
    let n = p.len() as int;
    &&& n <= a.post().len() && b.pre() == a.pre() + a.post().take(n) && b.post() == a.post().skip(n)
    &&& fit(a.post().take(n), p)
    &&& b.ov() == a.ov() && b.o5() == a.o5() && b.cv() == a.cv()
}
#[verifier::opaque]
pub open spec fn wr<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>) -> bool {
    let n = a.pre().len() as int;
    &&& b.pre().len() == n + p.len() && b.pre().take(n) == a.pre() && fit(b.pre().skip(n), p)
    &&& b.post() == (if a.post().len() <= p.len() { Seq::empty() } else { a.post().skip(p.len() as int) })
    &&& b.ov() == a.ov() && b.o5() == a.o5() && b.cv() == a.cv()
}
pub broadcast proof fn rd_ctx<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>)
    requires #[trigger] rd(a, b, p),
    ensures b.ov() == a.ov(), b.o5() == a.o5() && b.cv() == a.cv(),
{ reveal(rd); }
pub broadcast proof fn wr_ctx<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>)
    requires #[trigger] wr(a, b, p),
    ensures b.ov() == a.ov(), b.o5() == a.o5() && b.cv() == a.cv(), b.pre().len() == a.pre().len() + p.len(),
{ reveal(wr); }
pub proof fn rd_trans<S: Archive + ?Sized>(x: &S, y: &S, z: &S, p: Seq<Pat>, q: Seq<Pat>)
    requires rd(x, y, p), rd(y, z, q),
    ensures rd(x, z, p + q),
{
    reveal(rd);
    let (n, m) = (p.len() as int, q.len() as int);
    assert(x.post().skip(n).skip(m) =~= x.post().skip(n + m));
    assert(x.post().take(n) + x.post().skip(n).take(m) =~= x.post().take(n + m));
    assert((x.pre() + x.post().take(n)) + x.post().skip(n).take(m) =~= x.pre() + x.post().take(n + m));
    let w = x.post().take(n + m);
    assert forall|i: int| 0 <= i < w.len() implies fits(#[trigger] w[i], (p + q)[i]) by {
        if i < n { assert(x.post().take(n)[i] == w[i]); } else { assert(x.post().skip(n).take(m)[i - n] == w[i]); }
    }
}
pub proof fn wr_trans<S: Archive + ?Sized>(x: &S, y: &S, z: &S, p: Seq<Pat>, q: Seq<Pat>)
    requires wr(x, y, p), wr(y, z, q),
    ensures wr(x, z, p + q),
{
    reveal(wr);
    let (n, m) = (x.pre().len() as int, y.pre().len() as int);
    assert(z.pre().take(n) =~= z.pre().take(m).take(n));
    let w = z.pre().skip(n);
    assert forall|i: int| 0 <= i < w.len() implies fits(#[trigger] w[i], (p + q)[i]) by {
        if i < p.len() { assert(w[i] == z.pre().take(m)[n + i]); assert(y.pre().skip(n)[i] == w[i]); } else { assert(z.pre().skip(m)[i - p.len()] == w[i]); }
    }
    if x.post().len() > p.len() + q.len() {
        assert(x.post().skip(p.len() as int).skip(q.len() as int) =~= x.post().skip((p + q).len() as int));
    }
}
pub proof fn rd_nil<S: Archive + ?Sized>(a: &S) ensures rd(a, a, Seq::empty()) {
    reveal(rd);
    assert(a.pre() + a.post().take(0) =~= a.pre()); assert(a.post().skip(0) =~= a.post());
}
pub proof fn wr_nil<S: Archive + ?Sized>(a: &S) ensures wr(a, a, Seq::empty()) {
    reveal(wr);
    assert(a.pre().take(a.pre().len() as int) =~= a.pre());
    if a.post().len() > 0 { assert(a.post().skip(0) =~= a.post()); } else { assert(a.post() =~= Seq::empty()); }
}
pub broadcast proof fn pat_nil(p: Seq<Pat>) ensures #[trigger] (p + Seq::<Pat>::empty()) == p { assert(p + Seq::<Pat>::empty() =~= p); }
pub broadcast proof fn pat_nil0(p: Seq<Pat>) ensures #[trigger] (Seq::<Pat>::empty() + p) == p { assert(Seq::<Pat>::empty() + p =~= p); }
pub proof fn pat_assoc(a: Seq<Pat>, b: Seq<Pat>, c: Seq<Pat>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn rd_first<S: Archive + ?Sized>(x: &S, y: &S, v: u8)
    requires #[trigger] rd(x, y, p8(v)),
    ensures x.post().len() > 0, x.post()[0] == v,
{ reveal(rd); reveal(p8); assert(x.post().take(1)[0] == x.post()[0]); }
// rdc / wrc are rd / wr again under another name, so that consecutive steps are joined from the left only
#[verifier::opaque]
pub open spec fn rdc<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>) -> bool { rd(a, b, p) }
#[verifier::opaque]
pub open spec fn wrc<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>) -> bool { wr(a, b, p) }
pub proof fn rdc_nil<S: Archive + ?Sized>(a: &S) ensures rdc(a, a, Seq::empty()) { reveal(rdc); rd_nil(a); }
pub broadcast proof fn rdc_ctx<S: Archive + ?Sized>(a: &S, b: &S, p: Seq<Pat>)
    requires #[trigger] rdc(a, b, p),
    ensures b.ov() == a.ov(), b.o5() == a.o5() && b.cv() == a.cv(),
{ reveal(rdc); reveal(rd); }
pub broadcast proof fn rd_start<S: Archive + ?Sized>(x: &S, y: &S, p: Seq<Pat>)
    requires #[trigger] rd(x, y, p),
    ensures rdc(x, y, p),
{ reveal(rdc); }
pub broadcast proof fn rd_step<S: Archive + ?Sized>(x: &S, y: &S, z: &S, p: Seq<Pat>, q: Seq<Pat>)
    requires #[trigger] rdc(x, y, p), #[trigger] rd(y, z, q),
    ensures rdc(x, z, p + q),
{ reveal(rdc); rd_trans(x, y, z, p, q); }
pub broadcast proof fn rd_goal<S: Archive + ?Sized>(x: &S, y: &S, p: Seq<Pat>)
    requires rdc(x, y, p),
    ensures #[trigger] rd(x, y, p),
{ reveal(rdc); }
pub broadcast proof fn wr_start<S: Archive + ?Sized>(x: &S, y: &S, p: Seq<Pat>)
    requires #[trigger] wr(x, y, p),
    ensures wrc(x, y, p),
{ reveal(wrc); }
pub broadcast proof fn wr_step<S: Archive + ?Sized>(x: &S, y: &S, z: &S, p: Seq<Pat>, q: Seq<Pat>)
    requires #[trigger] wrc(x, y, p), #[trigger] wr(y, z, q),
    ensures wrc(x, z, p + q),
{ reveal(wrc); wr_trans(x, y, z, p, q); }
pub broadcast proof fn wr_goal<S: Archive + ?Sized>(x: &S, y: &S, p: Seq<Pat>)
    requires wrc(x, y, p),
    ensures #[trigger] wr(x, y, p),
{ reveal(wrc); }
pub broadcast group group_arch { rd_ctx, rdc_ctx, wr_ctx, rd_start, rd_step, rd_goal, wr_start, wr_step, wr_goal, pat_nil, pat_nil0 }
#[verifier::opaque]
pub open spec fn p8(v: u8) -> Seq<Pat> { lit(seq![v]) }
#[verifier::opaque]
pub open spec fn p16(v: u16) -> Seq<Pat> { lit(le16(v)) }
#[verifier::opaque]
pub open spec fn p32(v: u32) -> Seq<Pat> { lit(le32(v)) }
#[verifier::opaque]
pub open spec fn p64(v: u64) -> Seq<Pat> { lit(le64(v)) }
#[verifier::opaque]
pub open spec fn pblob(v: Seq<u8>) -> Seq<Pat> { lit(v) }
pub broadcast proof fn p8_len(v: u8) ensures #[trigger] p8(v).len() == 1 { reveal(p8); }
pub broadcast proof fn p16_len(v: u16) ensures #[trigger] p16(v).len() == 2 { reveal(p16); }
pub broadcast proof fn p32_len(v: u32) ensures #[trigger] p32(v).len() == 4 { reveal(p32); reveal(le32); }
pub broadcast proof fn p64_len(v: u64) ensures #[trigger] p64(v).len() == 8 { reveal(p64); reveal(le64); }
pub broadcast proof fn pblob_len(v: Seq<u8>) ensures #[trigger] pblob(v).len() == v.len() { reveal(pblob); }
pub broadcast group group_plen { p8_len, p16_len, p32_len, p64_len, pblob_len }
/// stored bool: any non-zero byte reads as true, the writer stores 1
pub open spec fn pbool(v: bool, c: Ctx) -> Seq<Pat> { if !v { p8(0) } else if c.exact { p8(1) } else { seq![Pat::NonZero] } }
/// an element count the reader does not use
pub open spec fn pcount(v: i32, c: Ctx) -> Seq<Pat> { if c.exact { p32(v as u32) } else { anyb(4) } }
pub broadcast proof fn rd_any32<S: Archive + ?Sized>(a: &S, b: &S, v: u32)
    requires #[trigger] rd(a, b, p32(v)),
    ensures rd(a, b, anyb(4)),
{ reveal(rd); reveal(p32); reveal(le32); }
// floats: opaque bit patterns
#[derive(Copy, Clone)]
pub struct F32 { pub bits: u32 }
#[derive(Copy, Clone)]
pub struct F64 { pub bits: u64 }
pub uninterp spec fn widen_(v: F32) -> F64;
pub uninterp spec fn narrow_(v: F64) -> F32;
pub uninterp spec fn nan(v: F64) -> bool;
/// f32 -> f64 -> f32 gives the same number back, bit for bit, unless it is a NaN
pub broadcast axiom fn narrow_widen(v: F32) ensures !nan(#[trigger] widen_(v)) ==> narrow_(widen_(v)) == v;
#[verifier::external_body]
pub fn widen(v: F32) -> (r: F64) ensures r == widen_(v) { unimplemented!() }
#[verifier::external_body]
pub fn narrow(v: F64) -> (r: F32) ensures r == narrow_(v) { unimplemented!() }
/// stored form of a name: name map index and instance number
pub uninterp spec fn pname(n: FName) -> Seq<Pat>;
pub broadcast axiom fn pname_len(n: FName) ensures #[trigger] pname(n).len() == 8;
pub trait ArchiveReader: Archive + Sized {
    fn get_object_version(&self) -> (r: ObjectVersion) ensures r == self.ov();
    fn get_object_version_ue5(&self) -> (r: ObjectVersionUE5) ensures r == self.o5();
    fn vx_cv<T>(&self) -> (r: i32) ensures r == cvn::<T>(self.cv());
    fn read_u8(&mut self) -> (r: Result<u8, Error>) ensures r is Ok ==> rd(old(self), final(self), p8(r->Ok_0));
    fn read_i8(&mut self) -> (r: Result<i8, Error>) ensures r is Ok ==> rd(old(self), final(self), p8(r->Ok_0 as u8));
    fn read_i16<T: ByteOrder>(&mut self) -> (r: Result<i16, Error>) ensures r is Ok && T::little() ==> rd(old(self), final(self), p16(r->Ok_0 as u16));
    fn read_bool(&mut self) -> (r: Result<bool, Error>) ensures r is Ok ==> rd(old(self), final(self), pbool(r->Ok_0, rc(old(self))));
    fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16, Error>) ensures r is Ok && T::little() ==> rd(old(self), final(self), p16(r->Ok_0));
    fn read_u32<T: ByteOrder>(&mut self) -> (r: Result<u32, Error>) ensures r is Ok && T::little() ==> rd(old(self), final(self), p32(r->Ok_0));
    fn read_i32<T: ByteOrder>(&mut self) -> (r: Result<i32, Error>) ensures r is Ok && T::little() ==> rd(old(self), final(self), p32(r->Ok_0 as u32));
    fn read_u64<T: ByteOrder>(&mut self) -> (r: Result<u64, Error>) ensures r is Ok && T::little() ==> rd(old(self), final(self), p64(r->Ok_0));
    fn read_i64<T: ByteOrder>(&mut self) -> (r: Result<i64, Error>) ensures r is Ok && T::little() ==> rd(old(self), final(self), p64(r->Ok_0 as u64));
    fn read_f32<T: ByteOrder>(&mut self) -> (r: Result<F32, Error>) ensures r is Ok && T::little() ==> rd(old(self), final(self), p32(r->Ok_0.bits));
    fn read_f64<T: ByteOrder>(&mut self) -> (r: Result<F64, Error>) ensures r is Ok && T::little() ==> rd(old(self), final(self), p64(r->Ok_0.bits));
    fn read_fname(&mut self) -> (r: Result<FName, Error>) ensures r is Ok ==> rd(old(self), final(self), pname(r->Ok_0));
}
pub trait ArchiveWriter: Archive + Sized {
    fn get_object_version(&self) -> (r: ObjectVersion) ensures r == self.ov();
    fn get_object_version_ue5(&self) -> (r: ObjectVersionUE5) ensures r == self.o5();
    fn vx_cv<T>(&self) -> (r: i32) ensures r == cvn::<T>(self.cv());
    fn position(&mut self) -> (r: u64) ensures r == old(self).pre().len(), *final(self) == *old(self);
    fn write_u8(&mut self, v: u8) -> (r: Result<(), Error>) ensures r is Ok ==> wr(old(self), final(self), p8(v));
    fn write_i8(&mut self, v: i8) -> (r: Result<(), Error>) ensures r is Ok ==> wr(old(self), final(self), p8(v as u8));
    fn write_i16<T: ByteOrder>(&mut self, v: i16) -> (r: Result<(), Error>) ensures r is Ok && T::little() ==> wr(old(self), final(self), p16(v as u16));
    fn write_bool(&mut self, v: bool) -> (r: Result<(), Error>) ensures r is Ok ==> wr(old(self), final(self), pbool(v, wc(old(self))));
    fn write_u16<T: ByteOrder>(&mut self, v: u16) -> (r: Result<(), Error>) ensures r is Ok && T::little() ==> wr(old(self), final(self), p16(v));
    fn write_u32<T: ByteOrder>(&mut self, v: u32) -> (r: Result<(), Error>) ensures r is Ok && T::little() ==> wr(old(self), final(self), p32(v));
    fn write_i32<T: ByteOrder>(&mut self, v: i32) -> (r: Result<(), Error>) ensures r is Ok && T::little() ==> wr(old(self), final(self), p32(v as u32));
    fn write_u64<T: ByteOrder>(&mut self, v: u64) -> (r: Result<(), Error>) ensures r is Ok && T::little() ==> wr(old(self), final(self), p64(v));
    fn write_i64<T: ByteOrder>(&mut self, v: i64) -> (r: Result<(), Error>) ensures r is Ok && T::little() ==> wr(old(self), final(self), p64(v as u64));
    fn write_f32<T: ByteOrder>(&mut self, v: F32) -> (r: Result<(), Error>) ensures r is Ok && T::little() ==> wr(old(self), final(self), p32(v.bits));
    fn write_f64<T: ByteOrder>(&mut self, v: F64) -> (r: Result<(), Error>) ensures r is Ok && T::little() ==> wr(old(self), final(self), p64(v.bits));
    fn write_fname(&mut self, v: &FName) -> (r: Result<(), Error>) ensures r is Ok ==> wr(old(self), final(self), pname(*v));
    fn write_all(&mut self, v: &[u8]) -> (r: Result<(), Error>) ensures r is Ok ==> wr(old(self), final(self), pblob(v@));
}
