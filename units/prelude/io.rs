// ---- std::io and byteorder, as assumed contracts over a byte stream with a position ----
// pre(): the bytes before the position, post(): the bytes from the position on.
pub mod io {
    use super::*;
    pub struct Error;
    pub type Result<T> = core::result::Result<T, Error>;
}
pub trait ByteOrder {
    spec fn e16(v: u16) -> Seq<u8>; spec fn e32(v: u32) -> Seq<u8>; spec fn e64(v: u64) -> Seq<u8>;
}
pub struct LE;
pub struct BE;
impl ByteOrder for LE {
    open spec fn e16(v: u16) -> Seq<u8> { le16(v) }
    open spec fn e32(v: u32) -> Seq<u8> { le32(v) }
    open spec fn e64(v: u64) -> Seq<u8> { le64(v) }
}
impl ByteOrder for BE {
    open spec fn e16(v: u16) -> Seq<u8> { be16(v) }
    open spec fn e32(v: u32) -> Seq<u8> { be32(v) }
    open spec fn e64(v: u64) -> Seq<u8> { be64(v) }
}
pub trait Stream {
    spec fn pre(&self) -> Seq<u8>;
    spec fn post(&self) -> Seq<u8>;
    /// the underlying device raises no I/O error of its own
    spec fn sound(&self) -> bool;
}
pub open spec fn all<S: Stream + ?Sized>(s: &S) -> Seq<u8> { s.pre() + s.post() }
pub open spec fn got<S: Stream + ?Sized>(a: &S, b: &S, w: Seq<u8>) -> bool {
    &&& b.pre() == a.pre() + w
    &&& a.post() == w + b.post()
    &&& all(b) == all(a)  // follows from the two lines above
    &&& b.sound() == a.sound()
}
pub open spec fn put<S: Stream + ?Sized>(a: &S, b: &S, w: Seq<u8>) -> bool {
    &&& b.pre() == a.pre() + w
    &&& b.post() == (if a.post().len() <= w.len() { Seq::empty() } else { a.post().skip(w.len() as int) })
    &&& b.sound() == a.sound()
}
pub open spec fn kept<S: Stream + ?Sized>(a: &S, b: &S) -> bool {
    &&& b.sound() == a.sound()
    &&& all(b) == all(a)
}
pub trait Read: Stream {
    fn read_u8(&mut self) -> (r: io::Result<u8>)
        ensures r is Ok ==> got(old(self), final(self), seq![r->Ok_0]), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= 1 ==> r is Ok;
    fn read_i8(&mut self) -> (r: io::Result<i8>)
        ensures r is Ok ==> got(old(self), final(self), seq![r->Ok_0 as u8]), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= 1 ==> r is Ok;
    fn read_u16<T: ByteOrder>(&mut self) -> (r: io::Result<u16>)
        ensures r is Ok ==> got(old(self), final(self), T::e16(r->Ok_0)), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= 2 ==> r is Ok;
    fn read_i16<T: ByteOrder>(&mut self) -> (r: io::Result<i16>)
        ensures r is Ok ==> got(old(self), final(self), T::e16(r->Ok_0 as u16)), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= 2 ==> r is Ok;
    fn read_u32<T: ByteOrder>(&mut self) -> (r: io::Result<u32>)
        ensures r is Ok ==> got(old(self), final(self), T::e32(r->Ok_0)), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= 4 ==> r is Ok;
    fn read_i32<T: ByteOrder>(&mut self) -> (r: io::Result<i32>)
        ensures r is Ok ==> got(old(self), final(self), T::e32(r->Ok_0 as u32)), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= 4 ==> r is Ok;
    fn read_u64<T: ByteOrder>(&mut self) -> (r: io::Result<u64>)
        ensures r is Ok ==> got(old(self), final(self), T::e64(r->Ok_0)), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= 8 ==> r is Ok;
    fn read_i64<T: ByteOrder>(&mut self) -> (r: io::Result<i64>)
        ensures r is Ok ==> got(old(self), final(self), T::e64(r->Ok_0 as u64)), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= 8 ==> r is Ok;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>)
        ensures final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> got(old(self), final(self), blob(final(buf)@)), r is Err ==> kept(old(self), final(self)),
            old(self).sound() && old(self).post().len() >= old(buf)@.len() ==> r is Ok;
}
pub trait Write: Stream {
    fn write_u8(&mut self, v: u8) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), seq![v]), old(self).sound() ==> r is Ok;
    fn write_i8(&mut self, v: i8) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), seq![v as u8]), old(self).sound() ==> r is Ok;
    fn write_u16<T: ByteOrder>(&mut self, v: u16) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), T::e16(v)), old(self).sound() ==> r is Ok;
    fn write_i16<T: ByteOrder>(&mut self, v: i16) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), T::e16(v as u16)), old(self).sound() ==> r is Ok;
    fn write_u32<T: ByteOrder>(&mut self, v: u32) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), T::e32(v)), old(self).sound() ==> r is Ok;
    fn write_i32<T: ByteOrder>(&mut self, v: i32) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), T::e32(v as u32)), old(self).sound() ==> r is Ok;
    fn write_u64<T: ByteOrder>(&mut self, v: u64) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), T::e64(v)), old(self).sound() ==> r is Ok;
    fn write_i64<T: ByteOrder>(&mut self, v: i64) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), T::e64(v as u64)), old(self).sound() ==> r is Ok;
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(self), final(self), blob(buf@)), old(self).sound() ==> r is Ok;
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub open spec fn seek_target(f: SeekFrom, pos: int, len: int) -> int {
    match f { SeekFrom::Start(n) => n as int, SeekFrom::End(k) => len + k, SeekFrom::Current(k) => pos + k }
}
pub trait Seek: Stream {
    fn seek(&mut self, f: SeekFrom) -> (r: io::Result<u64>)
        ensures
            r is Ok ==> ({
                let t = seek_target(f, old(self).pre().len() as int, all(old(self)).len() as int);
                &&& 0 <= t && r->Ok_0 == t
                &&& t <= all(old(self)).len() ==> final(self).pre() == all(old(self)).take(t) && final(self).post() == all(old(self)).skip(t)
                &&& t > all(old(self)).len() ==> final(self).post().len() == 0
                &&& final(self).sound() == old(self).sound()
            }),
            old(self).sound() && seek_target(f, old(self).pre().len() as int, all(old(self)).len() as int) >= 0 ==> r is Ok,
            seek_target(f, old(self).pre().len() as int, all(old(self)).len() as int) < 0 ==> r is Err,
            r is Err ==> kept(old(self), final(self));
    fn stream_position(&mut self) -> (r: io::Result<u64>)
        ensures r is Ok ==> r->Ok_0 == old(self).pre().len(),
            final(self).pre() == old(self).pre(), final(self).post() == old(self).post(), final(self).sound() == old(self).sound(),
            old(self).sound() ==> r is Ok;
}
