use vstd::prelude::*;
verus! {
pub mod base {
use vstd::prelude::*;
//@ include prelude/bytes.rs
//@ include prelude/io.rs
//@ include prelude/seqs.rs
}
use base::*;
global size_of usize == 8;
broadcast use {group_bytes, group_cancel};
pub enum PakError { Io(io::Error), Other }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for PakError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: io::Error) -> PakError { PakError::Io(e) }
}
impl From<io::Error> for PakError { fn from(e: io::Error) -> (r: Self) { PakError::Io(e) } }
impl PakError {
    pub fn entry_invalid() -> Self { PakError::Other }
    pub fn configuration_invalid() -> Self { PakError::Other }
    pub fn compression_unsupported(c: Compression) -> Self { PakError::Other }
    pub fn compression_unsupported_unknown() -> Self { PakError::Other }
}
//@ enum unreal_pak/src/pakversion.rs PakVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=vnum
impl vstd::std_specs::cmp::PartialEqSpecImpl for PakVersion {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PakVersion) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for PakVersion {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &PakVersion) -> Option<core::cmp::Ordering> {
        if vnum(*self) < vnum(*o) { Some(core::cmp::Ordering::Less) } else if vnum(*self) == vnum(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
//@ enum unreal_pak/src/compression.rs Compression derive=Copy,Clone,PartialEq,Eq
impl vstd::std_specs::cmp::PartialEqSpecImpl for Compression {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Compression) -> bool { *self == *o }
}
//@ struct unreal_pak/src/compression.rs CompressionMethods derive=Copy,Clone,PartialEq,Eq
//@ struct unreal_pak/src/header.rs Block
//@ struct unreal_pak/src/header.rs Header

// ---- compression method numbers ----
pub open spec fn decode(n: u32, v: PakVersion, cm: CompressionMethods) -> Compression {
    if vnum(v) >= vnum(PakVersion::FnameBasedCompressionMethod) {
        if n == 0 { Compression::None }
        else if n <= 5 { cm.0[n as int - 1] }
        else { Compression::Unknown(unknown_tag(n)) }
    } else {
        if n == 1 || n == 0x10 || n == 0x20 { Compression::Known("Zlib") } else { Compression::None }
    }
}
/// the number a method is stored as
pub open spec fn code_of(m: Compression, v: PakVersion, cm: CompressionMethods) -> u32 {
    if m is None { 0 }
    else if v_ge(v, PakVersion::FnameBasedCompressionMethod) {
        if cm.0[0] == m { 1 } else if cm.0[1] == m { 2 } else if cm.0[2] == m { 3 } else if cm.0[3] == m { 4 } else { 5 }
    } else { 1 }
}
pub uninterp spec fn unknown_tag(n: u32) -> [u8; 0x20];
//@ fn unreal_pak/src/compression.rs Compression zlib
    ensures r == Compression::Known("Zlib"),
//@ end
#[verifier::external_body]
pub fn vx_find(a: &[Compression; 5], m: &Compression) -> (r: Option<(usize, ())>)
    ensures
        r is Some ==> (r->0).0 < 5 && a[(r->0).0 as int] == *m && forall|i: int| 0 <= i < (r->0).0 ==> a[i] != *m,
        r is None ==> forall|i: int| 0 <= i < 5 ==> a[i] != *m,
{ a.iter().enumerate().find(|(_, x)| *x == m).map(|(i, _)| (i, ())) }
//@ fn unreal_pak/src/compression.rs Compression from_u32 params=compression_method_num,pak_version,compression
    ensures compression_method_num <= 5 || vnum(pak_version) < vnum(PakVersion::FnameBasedCompressionMethod) ==>
        r == decode(compression_method_num, pak_version, *compression),
        r is Known ==> r == decode(compression_method_num, pak_version, *compression) && (wf_cm(*compression) ==> z(r)),
//@ end
//@ fn unreal_pak/src/compression.rs Compression as_u32 params=pak_version,compression
    ensures
        r is Ok ==> !(self is Unknown) && r->Ok_0 <= 5 && r->Ok_0 == code_of(*self, pak_version, *compression) && decode(r->Ok_0, pak_version, *compression) == *self
            && (*self is None <==> r->Ok_0 == 0),
        *self is None ==> r is Ok,
        *self == Compression::Known("Zlib") && (vnum(pak_version) < vnum(PakVersion::FnameBasedCompressionMethod) || compression.0[0] == *self) ==> r is Ok,
//@ rw! compression\s*\.0\s*\.iter\(\)\s*\.enumerate\(\)\s*\.find\(\|\(_, (\w+)\)\| \*\1 == self\) ==> vx_find(&compression.0, self)
//@ end

// ---- entry header ----
pub ghost struct HG { pub off: u64, pub cs: u64, pub ds: u64, pub code: u32, pub ts: u64, pub hash: Seq<u8>,
    pub blocks: Seq<(u64, u64)>, pub flags: u8, pub bs: u32 }
pub open spec fn v_ge(v: PakVersion, w: PakVersion) -> bool { vnum(v) >= vnum(w) }
pub open spec fn enc_blocks_l(pre: Seq<u8>, b: Seq<(u64, u64)>) -> Seq<u8> decreases b.len() {
    if b.len() == 0 { pre } else { enc_blocks_l(pre, b.drop_last()) + le64(b.last().0) + le64(b.last().1) }
}
pub open spec fn enc_blocks_r(b: Seq<(u64, u64)>, rest: Seq<u8>) -> Seq<u8> decreases b.len() {
    if b.len() == 0 { rest } else { le64(b[0].0) + (le64(b[0].1) + enc_blocks_r(b.skip(1), rest)) }
}
pub open spec fn wf_hg(v: PakVersion, h: HG) -> bool { h.hash.len() == 20 && h.blocks.len() <= u32::MAX && h.code <= 5 }
pub open spec fn is_blocked(v: PakVersion, cm: CompressionMethods, h: HG) -> bool {
    v_ge(v, PakVersion::CompressionEncryption) && !(decode(h.code, v, cm) is None)
}
/// the bytes of an entry header, appended to `pre`
pub open spec fn enc_hdr_l(pre: Seq<u8>, v: PakVersion, cm: CompressionMethods, h: HG) -> Seq<u8> {
    let p = pre + le64(h.off) + le64(h.cs) + le64(h.ds) + le32(h.code);
    let p = if !v_ge(v, PakVersion::NoTimestamps) { p + le64(h.ts) } else { p };
    let p = p + blob(h.hash);
    if v_ge(v, PakVersion::CompressionEncryption) {
        let p = if is_blocked(v, cm, h) { enc_blocks_l(p + le32(h.blocks.len() as u32), h.blocks) } else { p };
        p + seq![h.flags] + le32(h.bs)
    } else { p }
}
pub open spec fn enc_tail_r(v: PakVersion, h: HG, rest: Seq<u8>) -> Seq<u8> { seq![h.flags] + (le32(h.bs) + rest) }
pub open spec fn enc_hdr_r(v: PakVersion, cm: CompressionMethods, h: HG, rest: Seq<u8>) -> Seq<u8> {
    let t = if v_ge(v, PakVersion::CompressionEncryption) {
        if is_blocked(v, cm, h) { le32(h.blocks.len() as u32) + enc_blocks_r(h.blocks, enc_tail_r(v, h, rest)) } else { enc_tail_r(v, h, rest) }
    } else { rest };
    let t = blob(h.hash) + t;
    let t = if !v_ge(v, PakVersion::NoTimestamps) { le64(h.ts) + t } else { t };
    le64(h.off) + (le64(h.cs) + (le64(h.ds) + (le32(h.code) + t)))
}
pub proof fn lemma_blocks(pre: Seq<u8>, b: Seq<(u64, u64)>, rest: Seq<u8>)
    ensures enc_blocks_l(pre, b) + rest == pre + enc_blocks_r(b, rest),
    decreases b.len(),
{
    if b.len() > 0 {
        let (x, y) = b.last();
        lemma_blocks_snoc(b, rest);
        lemma_blocks(pre, b.drop_last(), le64(x) + (le64(y) + rest));
        let l = enc_blocks_l(pre, b.drop_last());
        assert(l + le64(x) + le64(y) + rest =~= l + (le64(x) + (le64(y) + rest)));
    }
}
pub proof fn lemma_blocks_snoc(b: Seq<(u64, u64)>, rest: Seq<u8>)
    requires b.len() > 0,
    ensures enc_blocks_r(b, rest) == enc_blocks_r(b.drop_last(), le64(b.last().0) + (le64(b.last().1) + rest)),
    decreases b.len(),
{
    reveal_with_fuel(enc_blocks_r, 3);
    if b.len() == 1 {
        assert(b.skip(1) =~= Seq::empty());
        assert(b.drop_last() =~= Seq::empty());
    } else {
        lemma_blocks_snoc(b.skip(1), rest);
        assert(b.skip(1).drop_last() =~= b.drop_last().skip(1));
        assert(b.skip(1).last() == b.last());
        assert(b.drop_last()[0] == b[0]);
    }
}
/// both forms describe the same bytes
pub proof fn lemma_hdr(pre: Seq<u8>, v: PakVersion, cm: CompressionMethods, h: HG, rest: Seq<u8>)
    ensures enc_hdr_l(pre, v, cm, h) + rest == pre + enc_hdr_r(v, cm, h, rest),
{
    let p0 = pre + le64(h.off) + le64(h.cs) + le64(h.ds) + le32(h.code);
    let p1 = if !v_ge(v, PakVersion::NoTimestamps) { p0 + le64(h.ts) } else { p0 };
    let p2 = p1 + blob(h.hash);
    let t2 = if v_ge(v, PakVersion::CompressionEncryption) {
        if is_blocked(v, cm, h) { le32(h.blocks.len() as u32) + enc_blocks_r(h.blocks, enc_tail_r(v, h, rest)) } else { enc_tail_r(v, h, rest) }
    } else { rest };
    if v_ge(v, PakVersion::CompressionEncryption) {
        if is_blocked(v, cm, h) {
            let p3 = p2 + le32(h.blocks.len() as u32);
            lemma_blocks(p3, h.blocks, enc_tail_r(v, h, rest));
            let l = enc_blocks_l(p3, h.blocks);
            assert(l + seq![h.flags] + le32(h.bs) + rest =~= l + enc_tail_r(v, h, rest));
            assoc(p2, le32(h.blocks.len() as u32), enc_blocks_r(h.blocks, enc_tail_r(v, h, rest)));
        } else {
            assert(p2 + seq![h.flags] + le32(h.bs) + rest =~= p2 + enc_tail_r(v, h, rest));
        }
    }
    assert(enc_hdr_l(pre, v, cm, h) + rest == p2 + t2);
    let t1 = blob(h.hash) + t2;
    assoc(p1, blob(h.hash), t2);
    let t0 = if !v_ge(v, PakVersion::NoTimestamps) { le64(h.ts) + t1 } else { t1 };
    assert(p1 + t1 =~= p0 + t0);
    assert(p0 + t0 =~= pre + (le64(h.off) + (le64(h.cs) + (le64(h.ds) + (le32(h.code) + t0)))));
}
pub open spec fn raw_blocks(b: Seq<Block>) -> Seq<(u64, u64)> {
    Seq::new(b.len(), |i: int| (b[i].start, (b[i].start + b[i].size) as u64))
}
pub open spec fn hg_of(h: Header, code: u32) -> HG {
    HG { off: h.offset, cs: h.compressed_size, ds: h.decompressed_size, code, ts: 0, hash: h.hash@,
         blocks: if h.compression_blocks is Some { raw_blocks(h.compression_blocks->0@) } else { Seq::empty() },
         flags: if h.flags is Some { h.flags->0 } else { 0 },
         bs: if h.compression_block_size is Some { h.compression_block_size->0 } else { 0x010000 } }
}
pub open spec fn header_code_ok(h: Header, v: PakVersion, cm: CompressionMethods) -> bool {
    let c = code_of(h.compression_method, v, cm);
    c <= 5 && decode(c, v, cm) == h.compression_method
}
pub open spec fn wf_header(v: PakVersion, h: Header) -> bool {
    &&& h.compression_blocks is Some ==> h.compression_blocks->0@.len() <= u32::MAX && forall|i: int| 0 <= i < h.compression_blocks->0@.len() ==> (#[trigger] h.compression_blocks->0@[i]).start + h.compression_blocks->0@[i].size <= u64::MAX
    &&& !(h.compression_method is None) && v_ge(v, PakVersion::CompressionEncryption) ==> h.compression_blocks is Some
}
/// what Header::read must have returned when the stream held `g`
pub open spec fn read_as(v: PakVersion, cm: CompressionMethods, g: HG, h: Header) -> bool {
    &&& h.offset == g.off && h.compressed_size == g.cs && h.decompressed_size == g.ds
    &&& h.compression_method == decode(g.code, v, cm) && h.hash@ == g.hash
    &&& v_ge(v, PakVersion::CompressionEncryption) ==> h.flags == Some(g.flags) && h.compression_block_size == Some(g.bs)
    &&& !v_ge(v, PakVersion::CompressionEncryption) ==> h.flags is None && h.compression_block_size is None
    &&& is_blocked(v, cm, g) ==> h.compression_blocks is Some && blocks_as(v, g, h.compression_blocks->0@)
    &&& !is_blocked(v, cm, g) ==> h.compression_blocks is None
}
pub open spec fn rel(v: PakVersion, g: HG) -> u64 { if v_ge(v, PakVersion::RelativeChunkOffsets) { 0 } else { g.off } }
pub open spec fn blocks_as(v: PakVersion, g: HG, b: Seq<Block>) -> bool {
    b.len() <= g.blocks.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).start + rel(v, g) == g.blocks[i].0 && b[i].start + rel(v, g) + b[i].size == g.blocks[i].1
}
pub open spec fn readable(v: PakVersion, g: HG) -> bool {
    wf_hg(v, g) && forall|i: int| 0 <= i < g.blocks.len() ==> rel(v, g) <= (#[trigger] g.blocks[i]).0 <= g.blocks[i].1
}

//@ fn unreal_pak/src/header.rs Header calculate_header_len params=pak_version,block_count
    ensures forall|pre: Seq<u8>, cm: CompressionMethods, g: HG| wf_hg(pak_version, g)
        && (block_count is Some ==> block_count->0 == g.blocks.len() && is_blocked(pak_version, cm, g))
        && (block_count is None ==> !is_blocked(pak_version, cm, g))
        ==> (#[trigger] enc_hdr_l(pre, pak_version, cm, g)).len() == pre.len() + r,
        r <= 57 + 16 * 0x1_0000_0000,
//@ at before-tail
    proof {
        assert forall|pre: Seq<u8>, cm: CompressionMethods, g: HG| wf_hg(pak_version, g)
        && (block_count is Some ==> block_count->0 == g.blocks.len() && is_blocked(pak_version, cm, g))
        && (block_count is None ==> !is_blocked(pak_version, cm, g)) implies
            (#[trigger] enc_hdr_l(pre, pak_version, cm, g)).len() == pre.len() + len by { lemma_blocks_len(g.blocks); }
    }
//@ end
pub proof fn lemma_blocks_len(b: Seq<(u64, u64)>)
    ensures forall|pre: Seq<u8>| (#[trigger] enc_blocks_l(pre, b)).len() == pre.len() + 16 * b.len(),
    decreases b.len(),
{
    if b.len() > 0 {
        lemma_blocks_len(b.drop_last());
        assert forall|pre: Seq<u8>| (#[trigger] enc_blocks_l(pre, b)).len() == pre.len() + 16 * b.len() by {
            assert(enc_blocks_l(pre, b.drop_last()).len() == pre.len() + 16 * (b.len() - 1));
        }
    }
}

//@ fn unreal_pak/src/header.rs Header write params=writer,pak_version,compression,header
    requires wf_header(pak_version, *header),
    ensures
        r is Ok ==> header_code_ok(*header, pak_version, *compression)
            && final(writer).pre() == enc_hdr_l(old(writer).pre(), pak_version, *compression, hg_of(*header, code_of(header.compression_method, pak_version, *compression))),
        old(writer).sound() && (header.compression_method is None || header.compression_method == Compression::Known("Zlib") && (!v_ge(pak_version, PakVersion::FnameBasedCompressionMethod) || compression.0[0] == header.compression_method)) ==> r is Ok,
        r is Ok ==> final(writer).sound() == old(writer).sound(),
        r is Ok && old(writer).post().len() == 0 ==> final(writer).post().len() == 0,
//@ loop 0 kind=for it=it
        invariant
            wf_header(pak_version, *header), header.compression_blocks == Some(*compression_blocks),
            it.index() <= compression_blocks@.len(),
            writer.sound() == old(writer).sound(), old(writer).post().len() == 0 ==> writer.post().len() == 0,
            writer.pre() == enc_blocks_l(pre0@, raw_blocks(compression_blocks@).take(it.index() as int)),
//@ at pre-loop 0
    let pre0: Ghost<Seq<u8>> = Ghost(writer.pre());
    proof { assert(raw_blocks(compression_blocks@).take(0) =~= Seq::empty()); }
//@ at loop-end 0
    proof {
        let a = raw_blocks(compression_blocks@).take(it.index() as int + 1);
        assert(a.drop_last() =~= raw_blocks(compression_blocks@).take(it.index() as int));
    }
//@ at post-loop 0
    proof { assert(raw_blocks(compression_blocks@).take(compression_blocks@.len() as int) =~= raw_blocks(compression_blocks@)); }
//@ end
/// the header (and the bytes after it) a stream holds, if it holds one
pub open spec fn holds_hdr(v: PakVersion, cm: CompressionMethods, post: Seq<u8>, g: HG, rest: Seq<u8>) -> bool {
    readable(v, g) && post == enc_hdr_r(v, cm, g, rest)
}
pub open spec fn parses(v: PakVersion, cm: CompressionMethods, post: Seq<u8>) -> bool {
    exists|g: HG, rest: Seq<u8>| holds_hdr(v, cm, post, g, rest)
}
pub open spec fn parse(v: PakVersion, cm: CompressionMethods, post: Seq<u8>) -> (HG, Seq<u8>) {
    choose|g: HG, rest: Seq<u8>| holds_hdr(v, cm, post, g, rest)
}
//@ fn unreal_pak/src/header.rs Header read params=reader,pak_version,compression
    ensures
        old(reader).sound() && parses(pak_version, *compression, old(reader).post()) ==> ({
            let (g, rest) = parse(pak_version, *compression, old(reader).post());
            r is Ok && read_as(pak_version, *compression, g, r->Ok_0) && (is_blocked(pak_version, *compression, g) ==> (r->Ok_0).compression_blocks->0@.len() == g.blocks.len())
                && final(reader).post() == rest }),
        all(final(reader)) == all(old(reader)), final(reader).sound() == old(reader).sound(),
        r is Ok ==> final(reader).pre().len() > old(reader).pre().len(),
        r is Ok && wf_cm(*compression) && (r->Ok_0).compression_method is Known ==> z((r->Ok_0).compression_method),
//@ at body-start
    let ghost (g, rest) = parse(pak_version, *compression, reader.post());
    let ghost ok = reader.sound() && parses(pak_version, *compression, reader.post());
    proof { if ok { assert(holds_hdr(pak_version, *compression, reader.post(), g, rest)); } }
//@ loop 0 kind=for it=it
        invariant
            all(reader) == all(old(reader)), reader.sound() == old(reader).sound(), reader.pre().len() > old(reader).pre().len(),
            (g, rest) == parse(pak_version, *compression, old(reader).post()),
            ok == (old(reader).sound() && parses(pak_version, *compression, old(reader).post())),
            ok ==> reader.sound() && readable(pak_version, g)
                && block_count == g.blocks.len() && offset == g.off && is_blocked(pak_version, *compression, g)
                && blocks_as(pak_version, g, compression_blocks_inner@)
                && compression_blocks_inner@.len() == it.index()
                && reader.post() == enc_blocks_r(g.blocks.skip(it.index() as int), enc_tail_r(pak_version, g, rest)),
//@ at pre-loop 0
    proof { assert(g.blocks.skip(0) =~= g.blocks); }
//@ at loop-start 0
    proof { if ok { let i = it.index() as int; assert(g.blocks.skip(i).skip(1) =~= g.blocks.skip(i + 1)); assert(g.blocks.skip(i)[0] == g.blocks[i]); } }
//@ end

pub broadcast proof fn parse_holds(v: PakVersion, cm: CompressionMethods, post: Seq<u8>)
    requires parses(v, cm, post),
    ensures ({ let (g, rest) = #[trigger] parse(v, cm, post); holds_hdr(v, cm, post, g, rest) }),
{}
pub open spec fn same_hdr(v: PakVersion, cm: CompressionMethods, a: HG, b: HG) -> bool {
    &&& a.off == b.off && a.cs == b.cs && a.ds == b.ds && a.code == b.code && a.hash == b.hash
    &&& v_ge(v, PakVersion::CompressionEncryption) ==> a.flags == b.flags && a.bs == b.bs
    &&& is_blocked(v, cm, a) ==> a.blocks == b.blocks
}
pub broadcast proof fn hdr_unique(v: PakVersion, cm: CompressionMethods, post: Seq<u8>, a: HG, x: Seq<u8>, b: HG, y: Seq<u8>)
    requires #[trigger] holds_hdr(v, cm, post, a, x), #[trigger] holds_hdr(v, cm, post, b, y),
    ensures same_hdr(v, cm, a, b), x == y,
{
    if is_blocked(v, cm, a) { blocks_unique(a.blocks, enc_tail_r(v, a, x), b.blocks, enc_tail_r(v, b, y)); }
}
pub proof fn blocks_unique(a: Seq<(u64, u64)>, x: Seq<u8>, b: Seq<(u64, u64)>, y: Seq<u8>)
    requires a.len() == b.len(), enc_blocks_r(a, x) == enc_blocks_r(b, y),
    ensures a == b, x == y,
    decreases a.len(),
{
    if a.len() > 0 {
        blocks_unique(a.skip(1), x, b.skip(1), y);
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    } else { assert(a =~= b); }
}
// ---- zlib, assumed lossless ----
pub uninterp spec fn unz(z: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn z_valid(z: Seq<u8>) -> bool;
pub mod flate2 { use super::*; pub struct Compression; impl Compression { pub fn default() -> Self { Compression } } }
pub struct ZlibEncoder { pub sofar: Ghost<Seq<u8>> }
impl ZlibEncoder {
    pub fn new(v: Vec<u8>, c: flate2::Compression) -> (r: Self) ensures v@.len() == 0 ==> r.sofar@ == Seq::<u8>::empty() { ZlibEncoder { sofar: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn write_all(&mut self, data: &[u8]) -> (r: io::Result<()>) ensures r is Ok, final(self).sofar@ == old(self).sofar@ + data@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: io::Result<Vec<u8>>) ensures r is Ok, unz(r->Ok_0@) == self.sofar@, z_valid(r->Ok_0@), r->Ok_0@.len() <= self.sofar@.len() + self.sofar@.len() / 1000 + 64 { unimplemented!() }
}
pub struct ZlibDecoder<'a> { pub src: &'a [u8] }
impl<'a> ZlibDecoder<'a> {
    pub fn new(data: &'a [u8]) -> (r: Self) ensures r.src@ == data@ { ZlibDecoder { src: data } }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures r is Ok ==> final(buf)@ == old(buf)@ + unz(old(self).src@), z_valid(old(self).src@) ==> r is Ok { unimplemented!() }
}
//@ fn unreal_pak/src/compression.rs Compression compress params=data
    requires *self == Compression::Known("Zlib"),
    ensures r is Ok, unz(r->Ok_0@) == data@, z_valid(r->Ok_0@), r->Ok_0@.len() <= data@.len() + data@.len() / 1000 + 64,
//@ end
//@ fn unreal_pak/src/compression.rs Compression decompress params=buf,data
    requires *self == Compression::Known("Zlib"),
    ensures r is Ok ==> final(buf)@ == old(buf)@ + unz(data@), z_valid(data@) ==> r is Ok,
//@ end

// ---- entries: a header followed by the stored bytes ----
pub uninterp spec fn sha1(d: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn hash(data: &[u8]) -> (r: [u8; 20]) ensures r@ == sha1(data@) { unimplemented!() }

pub open spec fn flat(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + p.last() }
}
pub open spec fn unz_all(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { unz_all(p.drop_last()) + unz(p.last()) }
}
pub open spec fn pieces_r(p: Seq<Seq<u8>>, rest: Seq<u8>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 { rest } else { blob(p[0]) + pieces_r(p.skip(1), rest) }
}
pub proof fn pieces_snoc(p: Seq<Seq<u8>>, rest: Seq<u8>)
    requires p.len() > 0,
    ensures pieces_r(p, rest) == pieces_r(p.drop_last(), blob(p.last()) + rest),
    decreases p.len(),
{
    reveal_with_fuel(pieces_r, 3);
    if p.len() == 1 {
        assert(p.skip(1) =~= Seq::empty()); assert(p.drop_last() =~= Seq::empty());
    } else {
        pieces_snoc(p.skip(1), rest);
        assert(p.skip(1).drop_last() =~= p.drop_last().skip(1));
        assert(p.skip(1).last() == p.last()); assert(p.drop_last()[0] == p[0]);
    }
}
pub proof fn pieces_flat(p: Seq<Seq<u8>>, rest: Seq<u8>)
    ensures flat(p) + rest == pieces_r(p, rest),
    decreases p.len(),
{
    if p.len() == 0 { assert(flat(p) + rest =~= rest); }
    else {
        reveal(blob);
        pieces_snoc(p, rest);
        pieces_flat(p.drop_last(), p.last() + rest);
        assoc(flat(p.drop_last()), p.last(), rest);
    }
}
pub open spec fn z(m: Compression) -> bool { m == Compression::Known("Zlib") }
/// the stored pieces under header `g` decode to `content`
pub open spec fn stores(v: PakVersion, cm: CompressionMethods, g: HG, pieces: Seq<Seq<u8>>, content: Seq<u8>) -> bool {
    let m = decode(g.code, v, cm);
    &&& readable(v, g)
    &&& g.ds == content.len()
    &&& m is None ==> pieces.len() == 1 && pieces[0] == content
    &&& !(m is None) ==> z(m) && is_blocked(v, cm, g) && pieces.len() == g.blocks.len() && unz_all(pieces) == content
        && forall|i: int| 0 <= i < pieces.len() ==> z_valid(#[trigger] pieces[i]) && pieces[i].len() == g.blocks[i].1 - g.blocks[i].0
}
pub open spec fn holds_entry(v: PakVersion, cm: CompressionMethods, post: Seq<u8>, g: HG, pieces: Seq<Seq<u8>>, rest: Seq<u8>, content: Seq<u8>) -> bool {
    &&& stores(v, cm, g, pieces, content)
    &&& holds_hdr(v, cm, post, g, pieces_r(pieces, rest))
}
/// `content` is what the entry at the start of `post` stores
pub open spec fn is_entry(v: PakVersion, cm: CompressionMethods, post: Seq<u8>, content: Seq<u8>) -> bool {
    exists|g: HG, pieces: Seq<Seq<u8>>, rest: Seq<u8>| holds_entry(v, cm, post, g, pieces, rest, content)
}
pub open spec fn some_content(v: PakVersion, cm: CompressionMethods, post: Seq<u8>) -> Seq<u8> { choose|c: Seq<u8>| is_entry(v, cm, post, c) }

pub proof fn unz_snoc(p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len(),
    ensures unz_all(p.take(i + 1)) == unz_all(p.take(i)) + unz(p[i]),
{ assert(p.take(i + 1).drop_last() =~= p.take(i)); }

//@ fn unreal_pak/src/entry.rs - read_entry params=reader,pak_version,compression,offset
    requires old(reader).post().len() <= usize::MAX, wf_cm(*compression),
    ensures
        old(reader).sound() && offset <= all(old(reader)).len() && (exists|c: Seq<u8>| is_entry(pak_version, *compression, all(old(reader)).skip(offset as int), c)) ==>
            r is Ok && r->Ok_0@ == some_content(pak_version, *compression, all(old(reader)).skip(offset as int)),
        r is Ok ==> all(final(reader)) == all(old(reader)) && final(reader).sound() == old(reader).sound(),
//@ at body-start
    broadcast use {parse_holds, hdr_unique};
    let ghost d = all(reader).skip(offset as int);
    let ghost ok = reader.sound() && offset <= all(reader).len() && (exists|c: Seq<u8>| is_entry(pak_version, *compression, d, c));
    let ghost content = some_content(pak_version, *compression, d);
    let ghost (g, pieces, rest) = choose|g: HG, pieces: Seq<Seq<u8>>, rest: Seq<u8>| holds_entry(pak_version, *compression, d, g, pieces, rest, content);
    proof { if ok { assert(is_entry(pak_version, *compression, d, content)); assert(holds_entry(pak_version, *compression, d, g, pieces, rest, content)); assert(pieces.skip(0) =~= pieces); reveal_with_fuel(pieces_r, 2); assert(pieces.take(0) =~= Seq::empty()); } }
//@ loop 0 kind=for it=it
        invariant
            all(reader) == all(old(reader)), reader.sound() == old(reader).sound(),
            wf_cm(*compression), header.compression_method is Known, header.compression_method == Compression::Known("Zlib"),
            ok ==> reader.sound() && stores(pak_version, *compression, g, pieces, content) && !(decode(g.code, pak_version, *compression) is None)
                && blocks_as(pak_version, g, compression_blocks@) && compression_blocks@.len() == g.blocks.len()
                && data@ == unz_all(pieces.take(it.index() as int)) && reader.post() == pieces_r(pieces.skip(it.index() as int), rest),
            ok == (old(reader).sound() && offset <= all(old(reader)).len() && (exists|c: Seq<u8>| is_entry(pak_version, *compression, d, c))),
            content == some_content(pak_version, *compression, d), d == all(old(reader)).skip(offset as int),
//@ at loop-start 0
    proof { if ok { let i = it.index() as int; assert(pieces.skip(i).skip(1) =~= pieces.skip(i + 1)); assert(pieces.skip(i)[0] == pieces[i]); unz_snoc(pieces, i); assert(z_valid(pieces[i])); } }
//@ at post-loop 0
    proof { assert(pieces.take(pieces.len() as int) =~= pieces); }
//@ end
pub open spec fn wf_cm(cm: CompressionMethods) -> bool { forall|i: int| 0 <= i < 5 ==> (#[trigger] cm.0[i] is Known ==> z(cm.0[i])) }

pub open spec fn ceil_div(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }
/// `(a as f64 / b as f64).ceil() as usize`, assumed exact below 2^40
#[verifier::external_body]
pub fn vx_ceil_div(a: usize, b: u32) -> (r: usize) requires b > 0, a < 0x100_0000_0000 ensures r == ceil_div(a as int, b as int) { (a as f64 / b as f64).ceil() as usize }
/// the slices `data.chunks(n)` yields, in order
#[verifier::external_body]
pub fn vx_chunks<'a>(data: &'a Vec<u8>, n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0,
    ensures r@.len() == ceil_div(data@.len() as int, n as int),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == data@.subrange(i * n, if (i + 1) * n < data@.len() { (i + 1) * n } else { data@.len() as int }),
{ data.chunks(n).collect() }

pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn entry_g(h: Header, v: PakVersion, cm: CompressionMethods) -> HG { HG { off: 0, ..hg_of(h, code_of(h.compression_method, v, cm)) } }
/// what write_entry appends
pub open spec fn wrote_entry(v: PakVersion, cm: CompressionMethods, pre: Seq<u8>, fin: Seq<u8>, h: Header, content: Seq<u8>, pieces: Seq<Seq<u8>>) -> bool {
    &&& h.offset == pre.len()
    &&& stores(v, cm, entry_g(h, v, cm), pieces, content)
    &&& fin == enc_hdr_l(pre, v, cm, entry_g(h, v, cm)) + flat(pieces)
    &&& wf_header(v, h) && header_code_ok(h, v, cm) && readable(v, hg_of(h, code_of(h.compression_method, v, cm)))
    &&& h.compressed_size == flat(pieces).len() && h.decompressed_size == content.len()
    &&& h.hash@ == sha1(flat(pieces))
    &&& h.compression_method == cm.0[0] || h.compression_method is None
    &&& h.compression_method is None ==> h.compression_blocks is None
    &&& h.compression_blocks is Some ==> tight(h.compression_blocks->0@, enc_hdr_l(pre, v, cm, entry_g(h, v, cm)).len() - (if v_ge(v, PakVersion::RelativeChunkOffsets) { pre.len() as int } else { 0 }), flat(pieces).len() as int)
}
/// blocks start at `start`, follow each other without a gap and end after `len` bytes
pub open spec fn tight(b: Seq<Block>, start: int, len: int) -> bool {
    &&& b.len() > 0 ==> b[0].start == start && b.last().start + b.last().size == start + len
    &&& b.len() == 0 ==> len == 0
    &&& forall|i: int| 0 <= i < b.len() - 1 ==> (#[trigger] b[i]).start + b[i].size == b[i + 1].start
}
pub proof fn flat_snoc(p: Seq<Seq<u8>>, x: Seq<u8>)
    ensures flat(p.push(x)) == flat(p) + x, unz_all(p.push(x)) == unz_all(p) + unz(x),
{ assert(p.push(x).drop_last() =~= p); }
pub proof fn ceil_facts(a: int, b: int)
    requires a >= 0, b > 0,
    ensures ceil_div(a, b) >= 0, ceil_div(a, b) * b >= a, a > 0 ==> (ceil_div(a, b) - 1) * b < a, ceil_div(a, b) <= a,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    assert(b * (a / b) == (a / b) * b) by (nonlinear_arith);
    assert((a / b + 1) * b == (a / b) * b + b) by (nonlinear_arith);
    assert(a / b >= 0) by (nonlinear_arith) requires a >= 0, b > 0;
    assert((a / b) * b >= a / b) by (nonlinear_arith) requires a / b >= 0, b >= 1;
    if a % b == 0 { assert((a / b - 1) * b == (a / b) * b - b) by (nonlinear_arith); }
}
pub proof fn chunk_step(d: Seq<u8>, i: int, n: int)
    requires n > 0, 0 <= i < ceil_div(d.len() as int, n),
    ensures i * n < d.len(), 0 <= i * n, (i + 1) * n == i * n + n,
        d.take(min((i + 1) * n, d.len() as int)) == d.take(min(i * n, d.len() as int)) + d.subrange(i * n, min((i + 1) * n, d.len() as int)),
{
    ceil_facts(d.len() as int, n);
    let c = ceil_div(d.len() as int, n);
    assert(d.len() > 0) by { if d.len() == 0 { assert(0int % n == 0 && 0int / n == 0) by (nonlinear_arith) requires n > 0; } }
    assert(i * n <= (c - 1) * n) by (nonlinear_arith) requires i <= c - 1, n > 0;
    assert((i + 1) * n == i * n + n) by (nonlinear_arith);
    assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n > 0;
    assert(d.take(min((i + 1) * n, d.len() as int)) =~= d.take(i * n) + d.subrange(i * n, min((i + 1) * n, d.len() as int)));
}

//@ fn unreal_pak/src/entry.rs - write_entry params=writer,pak_version,data,compress,compression,block_size attr=#[verifier::rlimit(60)]
    requires block_size > 0, data@.len() <= u32::MAX, old(writer).pre().len() < 0x4000_0000_0000_0000, wf_cm(*compression),
    ensures
        r is Ok ==> exists|pieces: Seq<Seq<u8>>| wrote_entry(pak_version, *compression, old(writer).pre(), final(writer).pre(), r->Ok_0, data@, pieces),
        r is Ok ==> final(writer).sound() == old(writer).sound() && (old(writer).post().len() == 0 ==> final(writer).post().len() == 0),
        r is Ok && compress && data@.len() >= 32 ==> (r->Ok_0).compression_method == compression.0[0],
        !compress ==> r is Ok ==> (r->Ok_0).compression_method is None,
        old(writer).sound() && (!compress || data@.len() < 32 || compression.0[0] is None || z(compression.0[0]) && v_ge(pak_version, PakVersion::CompressionEncryption)) ==> r is Ok,
//@ rw \(\s*data\.len\(\) as f64 / block_size as f64\s*\)\s*\.ceil\(\) as usize ==> vx_ceil_div(data.len(), block_size)
//@ rw data\.chunks\( ==> vx_chunks(data, 
//@ at body-start
    let ghost mut pieces: Seq<Seq<u8>> = seq![data@];
    let ghost content = data@;
    proof { assert(pieces.drop_last() =~= Seq::empty()); reveal_with_fuel(flat, 2); assert(Seq::<u8>::empty() + data@ =~= data@); reveal(blob); }
//@ loop 0 kind=for it=it
        invariant
            block_size > 0, data@.len() <= u32::MAX, content == data@, z(compression_method), data_start < 0x5000_0000_0000_0000,
            it.seq().len() == ceil_div(data@.len() as int, block_size as int), it.seq().len() <= data@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == data@.subrange(i * block_size, min((i + 1) * block_size, data@.len() as int)),
            pieces.len() == it.index(), compression_blocks_inner@.len() == it.index(),
            flat(pieces) == compressed_data@, unz_all(pieces) == data@.take(min(it.index() * block_size, data@.len() as int)),
            compressed_data@.len() <= 2 * min(it.index() * block_size, data@.len() as int) + 64 * it.index(),
            it.index() > 0 ==> compression_blocks_inner@[0].start == data_start && compression_blocks_inner@.last().start + compression_blocks_inner@.last().size == data_start + compressed_data@.len(),
            it.index() == 0 ==> compressed_data@.len() == 0,
            forall|i: int| 0 <= i < it.index() ==> z_valid(#[trigger] pieces[i]) && pieces[i].len() == compression_blocks_inner@[i].size,
            forall|i: int| 0 <= i < it.index() ==> data_start <= (#[trigger] compression_blocks_inner@[i]).start && compression_blocks_inner@[i].start + compression_blocks_inner@[i].size <= data_start + compressed_data@.len(),
            forall|i: int| 0 <= i < it.index() - 1 ==> (#[trigger] compression_blocks_inner@[i]).start + compression_blocks_inner@[i].size == compression_blocks_inner@[i + 1].start,
//@ at pre-loop 0
    let ghost tb: Seq<Block> = compression_blocks_inner@;
    proof { pieces = Seq::empty(); assert(0 * block_size == 0); ceil_facts(data@.len() as int, block_size as int); assert(data@.take(0) =~= Seq::empty()); }
//@ at loop-start 0
    proof { chunk_step(data@, it.index() as int, block_size as int); }
//@ at loop-end 0
    proof { flat_snoc(pieces, block_compressed_data@); pieces = pieces.push(block_compressed_data@); }
//@ at post-loop 0
    proof { assert(data@.take(data@.len() as int) =~= data@); }
//@ at before-tail
    proof {
        let h = header; let v = pak_version; let cm = *compression;
        assert(h.offset == old(writer).pre().len());
        assert(readable(v, entry_g(h, v, cm)));
        assert(stores(v, cm, entry_g(h, v, cm), pieces, content));
        assert(writer.pre() == enc_hdr_l(old(writer).pre(), v, cm, entry_g(h, v, cm)) + flat(pieces));
        assert(wf_header(v, h)); assert(header_code_ok(h, v, cm)); assert(readable(v, hg_of(h, code_of(h.compression_method, v, cm))));
        assert(h.hash@ == sha1(flat(pieces)));
        assert(h.compression_blocks is Some ==> tight(h.compression_blocks->0@, enc_hdr_l(old(writer).pre(), v, cm, entry_g(h, v, cm)).len() - (if v_ge(v, PakVersion::RelativeChunkOffsets) { old(writer).pre().len() as int } else { 0 }), flat(pieces).len() as int));
        assert(wrote_entry(v, cm, old(writer).pre(), writer.pre(), h, content, pieces));
    }
//@ end
}
fn main() {}
