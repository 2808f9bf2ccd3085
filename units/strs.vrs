use vstd::prelude::*;
verus! {
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/io.rs
//@ include prelude/seqs.rs
//@ include prelude/strs.rs
}
pub mod stds {
use vstd::prelude::*;
//@ include prelude/std.rs
}
use base::*;
global size_of usize == 8;
broadcast use {group_bytes, group_cancel, cancel32i, got_trans, put_trans, blob_z1, blob_z2};
pub enum FStringError { InvalidStringSize(i32, u64), InvalidStringTerminator(u16, u64), Bad, Io(io::Error) }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for FStringError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: io::Error) -> FStringError { FStringError::Io(e) }
}
impl From<io::Error> for FStringError { fn from(e: io::Error) -> (r: Self) { FStringError::Io(e) } }
#[verifier::external_body]
pub fn vx_len(s: &str) -> (r: usize) ensures r == utf8(s@).len() { s.len() }
#[verifier::external_body]
pub fn vx_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body]
pub fn vx_as_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
#[verifier::external_body]
pub fn vx_utf16(s: &str) -> (r: Vec<u16>) ensures r@ == utf16(s@) { s.encode_utf16().collect() }
#[verifier::external_body]
pub fn vx_u16_bytes(v: &Vec<u16>) -> (r: &[u8]) ensures r@ == le16s(v@) { unsafe { v.align_to::<u8>() }.1 }
#[verifier::external_body]
pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<Option<String>, FStringError>)
    ensures forall|s: Seq<char>| b@ == #[trigger] utf8(s) ==> r is Ok && r->Ok_0 is Some && (r->Ok_0->0)@ == s,
        r is Ok ==> r->Ok_0 is Some && utf8((r->Ok_0->0)@) == b@,
{ String::from_utf8(b).map(Some).map_err(|_| FStringError::Bad) }
#[verifier::external_body]
pub fn vx_from_utf16(b: Vec<u8>) -> (r: Result<Option<String>, FStringError>)
    requires b@.len() % 2 == 0,
    ensures forall|s: Seq<char>| b@ == le16s(#[trigger] utf16(s)) ==> r is Ok && r->Ok_0 is Some && (r->Ok_0->0)@ == s,
        r is Ok ==> r->Ok_0 is Some && le16s(utf16((r->Ok_0->0)@)) == b@,
{ String::from_utf16(&b.chunks(2).map(|e| u16::from_le_bytes([e[0], e[1]])).collect::<Vec<_>>()).map(Some).map_err(|_| FStringError::Bad) }
//@ rewrite \((-?\w+)\.\.=(-?\w+)\)\.contains\(&(\w+)\) ==> (\1 <= \3 && \3 <= \2)
//@ rewrite String::from_utf16\(\s*&buf\s*\.chunks\(2\)\s*\.map\(\|e\| u16::from_le_bytes\(\[e\[0\], e\[1\]\]\)\)\s*\.collect::<Vec<_>>\(\),?\s*\)\s*\.map\(Some\)\s*\.map_err\(\|e\| e\.into\(\)\) ==> vx_from_utf16(buf)
//@ rewrite String::from_utf8\(buf\)\s*\.map\(Some\)\s*\.map_err\(\|e\| e\.into\(\)\) ==> vx_from_utf8(buf)
//@ rewrite \bstring\.len\(\) ==> vx_len(string)
//@ rewrite \bstring\.chars\(\)\.count\(\) ==> vx_count(string)
//@ rewrite string\.encode_utf16\(\)\.collect::<Vec<_>>\(\) ==> vx_utf16(string)
//@ rewrite let \(_, (\w+), _\) = unsafe \{ (\w+)\.align_to::<u8>\(\) \}; ==> let \1 = vx_u16_bytes(&\2);
//@ rewrite string\.as_bytes\(\) ==> vx_as_bytes(string)
//@ rewrite size_of::<i32>\(\) ==> 4usize
//@ rewrite size_of::<u16>\(\) ==> 2usize
//@ rewrite crate::Guid ==> Guid
//@ rewrite &\[0u8; (\d)\] ==> vstd::array::array_as_slice(&[0u8; \1])

//@ struct unreal_helpers/src/guid.rs Guid derive=Copy,Clone

pub proof fn le16s_len(u: Seq<u16>) ensures le16s(u).len() == 2 * u.len() {}
// ---- reading ----
//@ fn unreal_helpers/src/read_ext.rs - read_fstring_len_noterm params=reader,len,is_wide
    requires len >= 0,
    ensures
        r is Err ==> kept(old(reader), final(reader)),
        r is Ok ==> r->Ok_0 is Some && got(old(reader), final(reader), blob(if is_wide { le16s(utf16((r->Ok_0->0)@)) } else { utf8((r->Ok_0->0)@) }))
            && len == (if is_wide { utf16((r->Ok_0->0)@).len() } else { utf8((r->Ok_0->0)@).len() }) && len <= 131072,
        forall|s: Seq<char>, rest: Seq<u8>| is_wide && #[trigger] (blob(le16s(utf16(s))) + rest) == old(reader).post() && utf16(s).len() == len && len <= 131072 && old(reader).sound()
            ==> r is Ok && (r->Ok_0->0)@ == s && final(reader).post() == rest,
        forall|s: Seq<char>, rest: Seq<u8>| !is_wide && #[trigger] (blob(utf8(s)) + rest) == old(reader).post() && utf8(s).len() == len && len <= 131072 && old(reader).sound()
            ==> r is Ok && (r->Ok_0->0)@ == s && final(reader).post() == rest,
//@ end
//@ fn unreal_helpers/src/read_ext.rs - read_fstring_len params=reader,len,is_wide
    requires len >= 0,
    ensures
        r is Err ==> kept(old(reader), final(reader)),
        len == 0 ==> r is Ok && r->Ok_0 is None && *final(reader) == *old(reader),
        len > 0 && r is Ok ==> r->Ok_0 is Some && ({ let s = (r->Ok_0->0)@;
            &&& got(old(reader), final(reader), blob(if is_wide { le16s(utf16(s)) } else { utf8(s) }) + (if is_wide { le16(0) } else { seq![0u8] }))
            &&& len == 1 + (if is_wide { utf16(s).len() } else { utf8(s).len() }) && len <= 131073 }),
        forall|s: Seq<char>, rest: Seq<u8>| is_wide && #[trigger] (blob(le16s(utf16(s))) + (le16(0) + rest)) == old(reader).post() && utf16(s).len() + 1 == len && len <= 131073 && old(reader).sound()
            ==> r is Ok && r->Ok_0 is Some && (r->Ok_0->0)@ == s && final(reader).post() == rest,
        forall|s: Seq<char>, rest: Seq<u8>| !is_wide && #[trigger] (blob(utf8(s)) + (seq![0u8] + rest)) == old(reader).post() && utf8(s).len() + 1 == len && len <= 131073 && old(reader).sound()
            ==> r is Ok && r->Ok_0 is Some && (r->Ok_0->0)@ == s && final(reader).post() == rest,
//@ at body-start
    let ghost p0 = reader.pre();
//@ at before-tail
    proof {
        let s = (result->0)@;
        let b = blob(if is_wide { le16s(utf16(s)) } else { utf8(s) });
        let t = if is_wide { le16(0) } else { seq![0u8] };
        assoc(old(reader).pre(), b, t);
        assoc(b, t, reader.post());
    }
//@ end
//@ fn unreal_helpers/src/read_ext.rs "UnrealReadExt for R" read_fstring mode=free
    ensures
        r is Err ==> kept(old(this), final(this)),
        r is Ok && stview(r->Ok_0) is None ==> got(old(this), final(this), le32(0)),
        // what was consumed is a stored form of the result
        r is Ok && r->Ok_0 is Some ==> ({ let s = (r->Ok_0->0)@;
            ||| got(old(this), final(this), le32((utf8(s).len() + 1) as i32 as u32) + (blob(utf8(s)) + seq![0u8])) && utf8(s).len() <= 131072
            ||| got(old(this), final(this), le32((-(utf16(s).len() as int) - 1) as i32 as u32) + (blob(le16s(utf16(s))) + le16(0))) && utf16(s).len() <= 131072 }),
        // anything written in Unreal form is read back
        forall|v: Option<Seq<char>>, rest: Seq<u8>| text_ok(v) && old(this).sound() && #[trigger] (text_bytes(v) + rest) == old(this).post()
            ==> r is Ok && stview(r->Ok_0) == v && final(this).post() == rest,
//@ at body-start
    proof { read_split(this.post()); }
//@ at before-tail
    proof {
        assert forall|v: Option<Seq<char>>, rest: Seq<u8>| text_ok(v) && #[trigger] (text_bytes(v) + rest) == old(this).post() implies (match v {
            None => len == 0 && this.post() == rest,
            Some(s) => if wide(s) { is_wide && len == utf16(s).len() + 1 && this.post() == blob(le16s(utf16(s))) + (le16(0) + rest) }
                else { !is_wide && len == utf8(s).len() + 1 && this.post() == blob(utf8(s)) + (seq![0u8] + rest) } }) by {
            match v { None => { assert(le32(0i32 as u32) + rest == old(this).post()); assert(len == 0); assert(this.post() == rest); }
                Some(s) => { assert(-131073 <= tcount(s) <= 131073);
                   if wide(s) { assert(tcount(s) < 0); assert(is_wide); assert(len == utf16(s).len() + 1);  assert(this.post() == blob(le16s(utf16(s))) + (le16(0) + rest)); } else { assert(!is_wide); assert(len == utf8(s).len()+1); } } }
        }
    }
//@ end
pub proof fn read_split(post: Seq<u8>)
    ensures
        forall|v: Option<Seq<char>>, rest: Seq<u8>| #[trigger] (text_bytes(v) + rest) == post ==> post == (match v {
            None => le32(0) + rest,
            Some(s) => if wide(s) { le32(tcount(s) as u32) + (blob(le16s(utf16(s))) + (le16(0) + rest)) } else { le32(tcount(s) as u32) + (blob(utf8(s)) + (seq![0u8] + rest)) } }),
{
    assert forall|v: Option<Seq<char>>, rest: Seq<u8>| #[trigger] (text_bytes(v) + rest) == post implies post == (match v {
            None => le32(0) + rest,
            Some(s) => if wide(s) { le32(tcount(s) as u32) + (blob(le16s(utf16(s))) + (le16(0) + rest)) } else { le32(tcount(s) as u32) + (blob(utf8(s)) + (seq![0u8] + rest)) } }) by {
        if let Some(s) = v {
            assoc(le32(tcount(s) as u32), blob(tbody(s)) + tterm(s), rest);
            assoc(blob(tbody(s)), tterm(s), rest);
        }
    }
}

//@ fn unreal_helpers/src/read_ext.rs "UnrealReadExt for R" read_bool mode=free
    ensures
        r is Err ==> kept(old(this), final(this)),
        r is Ok ==> exists|b: u8| #[trigger] got(old(this), final(this), seq![b]) && r->Ok_0 == (b != 0),
        forall|v: bool, rest: Seq<u8>| old(this).sound() && #[trigger] (bool_bytes(v) + rest) == old(this).post()
            ==> r is Ok && r->Ok_0 == v && final(this).post() == rest,
//@ end
//@ fn unreal_helpers/src/read_ext.rs "UnrealReadExt for R" read_vec mode=free params=len
    ensures
        r is Err ==> kept(old(this), final(this)),
        r is Ok ==> (r->Ok_0)@.len() == len && got(old(this), final(this), blob((r->Ok_0)@)),
        forall|v: Seq<u8>, rest: Seq<u8>| old(this).sound() && v.len() == len && #[trigger] (blob(v) + rest) == old(this).post()
            ==> r is Ok && (r->Ok_0)@ == v && final(this).post() == rest,
//@ end
//@ fn unreal_helpers/src/read_ext.rs "UnrealReadExt for R" read_guid mode=free
    ensures
        r is Err ==> kept(old(this), final(this)),
        r is Ok ==> got(old(this), final(this), blob((r->Ok_0).0@)),
        forall|v: [u8; 16], rest: Seq<u8>| old(this).sound() && #[trigger] (blob(v@) + rest) == old(this).post()
            ==> r is Ok && (r->Ok_0).0@ == v@ && final(this).post() == rest,
//@ end
// ---- writing ----
//@ fn unreal_helpers/src/write_ext.rs "UnrealWriteExt for W" write_bool mode=free params=value
    ensures
        r is Ok ==> put(old(this), final(this), bool_bytes(value)), old(this).sound() ==> r is Ok,
//@ end
//@ fn unreal_helpers/src/write_ext.rs "UnrealWriteExt for W" write_guid mode=free params=guid
    ensures
        r is Ok ==> put(old(this), final(this), blob(guid.0@)), old(this).sound() ==> r is Ok,
//@ end
//@ fn unreal_helpers/src/write_ext.rs "UnrealWriteExt for W" write_fstring mode=free params=string
    requires string is Some ==> tlen(string->0@) <= 131072,
    ensures
        r is Ok ==> put(old(this), final(this), text_bytes(sview(string))) && r->Ok_0 == text_bytes(sview(string)).len(),
        old(this).sound() ==> r is Ok,
//@ end
// ---- arrays: the caller's element closure is an object with one method, go; a call f(x) is f.go(x) ----
pub trait Enc<T> { spec fn enc(v: T) -> Seq<u8>; }
pub trait ElemRead<R: Stream, T>: Enc<T> {
    fn go(&mut self, x: &mut R) -> (r: io::Result<T>)
        ensures r is Err ==> kept(old(x), final(x)), r is Ok ==> got(old(x), final(x), Self::enc(r->Ok_0)),
            forall|v: T, rest: Seq<u8>| old(x).sound() && #[trigger] (Self::enc(v) + rest) == old(x).post() ==> r is Ok && r->Ok_0 == v && final(x).post() == rest;
}
pub trait ElemWrite<W: Stream, T>: Enc<T> {
    fn go(&mut self, x: &mut W, v: &T) -> (r: io::Result<()>)
        ensures r is Ok ==> put(old(x), final(x), Self::enc(*v)), old(x).sound() ==> r is Ok;
}
pub open spec fn encs<T, F: Enc<T>>(vs: Seq<T>) -> Seq<u8> decreases vs.len() {
    if vs.len() == 0 { Seq::empty() } else { encs::<T, F>(vs.drop_last()) + F::enc(vs.last()) }
}
/// the elements from k on, front first
pub open spec fn encs_from<T, F: Enc<T>>(vs: Seq<T>, k: int, rest: Seq<u8>) -> Seq<u8> decreases vs.len() - k {
    if k < 0 || k >= vs.len() { rest } else { F::enc(vs[k]) + encs_from::<T, F>(vs, k + 1, rest) }
}
pub proof fn encs_flip<T, F: Enc<T>>(vs: Seq<T>, k: int, rest: Seq<u8>)
    requires 0 <= k <= vs.len(),
    ensures encs::<T, F>(vs) + rest == encs::<T, F>(vs.take(k)) + encs_from::<T, F>(vs, k, rest),
    decreases vs.len() - k,
{
    if k == vs.len() { assert(vs.take(k) =~= vs); } else {
        encs_flip::<T, F>(vs, k + 1, rest);
        assert(vs.take(k + 1).drop_last() =~= vs.take(k));
        assert(vs.take(k + 1).last() == vs[k]);
        assoc(encs::<T, F>(vs.take(k)), F::enc(vs[k]), encs_from::<T, F>(vs, k + 1, rest));
    }
}
pub broadcast proof fn encs_push<T, F: Enc<T>>(vs: Seq<T>, v: T)
    ensures #[trigger] encs::<T, F>(vs.push(v)) == encs::<T, F>(vs) + F::enc(v),
{ assert(vs.push(v).drop_last() =~= vs); }
pub open spec fn array_bytes<T, F: Enc<T>>(vs: Seq<T>) -> Seq<u8> { le32(vs.len() as u32) + encs::<T, F>(vs) }
pub proof fn array_split<T, F: Enc<T>>(post: Seq<u8>)
    ensures forall|vs: Seq<T>, rest: Seq<u8>| #[trigger] (array_bytes::<T, F>(vs) + rest) == post ==> post == le32(vs.len() as u32) + encs_from::<T, F>(vs, 0, rest),
{
    assert forall|vs: Seq<T>, rest: Seq<u8>| #[trigger] (array_bytes::<T, F>(vs) + rest) == post implies post == le32(vs.len() as u32) + encs_from::<T, F>(vs, 0, rest) by {
        assoc(le32(vs.len() as u32), encs::<T, F>(vs), rest);
        encs_flip::<T, F>(vs, 0, rest);
        assert(encs::<T, F>(vs.take(0)) + encs_from::<T, F>(vs, 0, rest) =~= encs_from::<T, F>(vs, 0, rest));
    }
}
//@ fn unreal_helpers/src/write_ext.rs "UnrealWriteExt for W" write_array mode=free params=array,f gen="<T, F: ElemWrite<W, T>>"
    requires array@.len() <= 0x7fff_ffff,
    ensures
        r is Ok ==> put(old(this), final(this), array_bytes::<T, F>(array@)), old(this).sound() ==> r is Ok,
//@ rw impl FnMut\(&mut Self, &T\) -> io::Result<\(\)> ==> F
//@ rw \bf\((\w) ==> f.go(\1
//@ loop 0 it=it
        invariant
            put(old(this), this, le32(array@.len() as u32) + encs::<T, F>(array@.take(it.index() as int))),
            this.sound() == old(this).sound(), array@.len() <= 0x7fff_ffff,
//@ at pre-loop 0
        proof { assert(le32(array@.len() as u32) + encs::<T, F>(array@.take(0)) =~= le32(array@.len() as u32)); }
//@ at loop-start 0
        proof {
            assert(array@.take(it.index() + 1).drop_last() =~= array@.take(it.index() as int));
            assoc(le32(array@.len() as u32), encs::<T, F>(array@.take(it.index() as int)), F::enc(array@[it.index() as int]));
        }
//@ at post-loop 0
        proof { assert(array@.take(array@.len() as int) =~= array@); }
//@ end
//@ fn unreal_helpers/src/read_ext.rs "UnrealReadExt for R" read_array mode=free params=f gen="<T, F: ElemRead<R, T>>"
    ensures
        r is Err ==> kept(old(this), final(this)),
        r is Ok ==> (r->Ok_0)@.len() <= u32::MAX && got(old(this), final(this), array_bytes::<T, F>((r->Ok_0)@)),
        forall|vs: Seq<T>, rest: Seq<u8>| old(this).sound() && vs.len() <= 0x7fff_ffff && #[trigger] (array_bytes::<T, F>(vs) + rest) == old(this).post()
            ==> r is Ok && (r->Ok_0)@ == vs && final(this).post() == rest,
//@ rw impl FnMut\(&mut Self\) -> io::Result<T> ==> F
//@ rw \bf\((\w) ==> f.go(\1
//@ at body-start
        proof { array_split::<T, F>(this.post()); }
//@ at pre-loop 0
        proof { assert(le32(len as u32) + encs::<T, F>(buf@) =~= le32(len as u32)); }
//@ loop 0 it=it
        invariant
            buf@.len() == it.index(), this.sound() == old(this).sound(),
            got(old(this), this, le32(len as u32) + encs::<T, F>(buf@)),
            forall|vs: Seq<T>, rest: Seq<u8>| vs.len() <= 0x7fff_ffff && #[trigger] (array_bytes::<T, F>(vs) + rest) == old(this).post() && this.sound()
                ==> len == vs.len() && buf@ == vs.take(it.index() as int) && this.post() == encs_from::<T, F>(vs, it.index() as int, rest),
//@ at loop-start 0
        proof {
            let b = buf@;
            assert forall|v: T| le32(len as u32) + #[trigger] encs::<T, F>(b.push(v)) == (le32(len as u32) + encs::<T, F>(b)) + F::enc(v) by {
                encs_push::<T, F>(b, v);
                assoc(le32(len as u32), encs::<T, F>(b), F::enc(v));
            }
            assert forall|vs: Seq<T>| it.index() < vs.len() implies #[trigger] vs.take(it.index() as int).push(vs[it.index() as int]) == vs.take(it.index() + 1) by {
                assert(vs.take(it.index() as int).push(vs[it.index() as int]) =~= vs.take(it.index() + 1));
            }
        }
//@ at post-loop 0
        proof {
            assert forall|vs: Seq<T>| vs.take(vs.len() as int) == vs by { assert(vs.take(vs.len() as int) =~= vs); }
        }
//@ end
}
fn main() {}
