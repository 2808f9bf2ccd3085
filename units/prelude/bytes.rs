// ---- byte encodings (executable meaning of byteorder's LE / BE), defined, not assumed ----
pub open spec fn le16(v: u16) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8] }
pub open spec fn be16(v: u16) -> Seq<u8> { seq![((v >> 8) & 0xff) as u8, (v & 0xff) as u8] }
#[verifier::opaque]
pub open spec fn le32(v: u32) -> Seq<u8> {
    seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8]
}
#[verifier::opaque]
pub open spec fn be32(v: u32) -> Seq<u8> {
    seq![((v >> 24) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 8) & 0xff) as u8, (v & 0xff) as u8]
}
#[verifier::opaque]
pub open spec fn le64(v: u64) -> Seq<u8> {
    seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8,
         ((v >> 32) & 0xff) as u8, ((v >> 40) & 0xff) as u8, ((v >> 48) & 0xff) as u8, ((v >> 56) & 0xff) as u8]
}
#[verifier::opaque]
pub open spec fn be64(v: u64) -> Seq<u8> {
    seq![((v >> 56) & 0xff) as u8, ((v >> 48) & 0xff) as u8, ((v >> 40) & 0xff) as u8, ((v >> 32) & 0xff) as u8,
         ((v >> 24) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 8) & 0xff) as u8, (v & 0xff) as u8]
}
pub broadcast proof fn le32_len(v: u32) ensures #[trigger] le32(v).len() == 4 { reveal(le32); }
pub broadcast proof fn be32_len(v: u32) ensures #[trigger] be32(v).len() == 4 { reveal(be32); }
pub broadcast proof fn le64_len(v: u64) ensures #[trigger] le64(v).len() == 8 { reveal(le64); }
pub broadcast proof fn be64_len(v: u64) ensures #[trigger] be64(v).len() == 8 { reveal(be64); }

pub proof fn le16_inj(a: u16, b: u16)
    requires le16(a) == le16(b),
    ensures a == b,
{
    assert(le16(a)[0] == le16(b)[0]); assert(le16(a)[1] == le16(b)[1]);
    assert(a == b) by (bit_vector)
        requires (a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8;
}
pub proof fn le32_inj(a: u32, b: u32)
    requires le32(a) == le32(b),
    ensures a == b,
{
    reveal(le32);
    assert(le32(a)[0] == le32(b)[0]); assert(le32(a)[1] == le32(b)[1]);
    assert(le32(a)[2] == le32(b)[2]); assert(le32(a)[3] == le32(b)[3]);
    assert(a == b) by (bit_vector)
        requires (a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8,
                 ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8, ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8;
}
pub proof fn be32_inj(a: u32, b: u32)
    requires be32(a) == be32(b),
    ensures a == b,
{
    reveal(be32);
    assert(be32(a)[0] == be32(b)[0]); assert(be32(a)[1] == be32(b)[1]);
    assert(be32(a)[2] == be32(b)[2]); assert(be32(a)[3] == be32(b)[3]);
    assert(a == b) by (bit_vector)
        requires (a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8,
                 ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8, ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8;
}
pub proof fn le64_inj(a: u64, b: u64)
    requires le64(a) == le64(b),
    ensures a == b,
{
    reveal(le64);
    assert(le64(a)[0] == le64(b)[0]); assert(le64(a)[1] == le64(b)[1]);
    assert(le64(a)[2] == le64(b)[2]); assert(le64(a)[3] == le64(b)[3]);
    assert(le64(a)[4] == le64(b)[4]); assert(le64(a)[5] == le64(b)[5]);
    assert(le64(a)[6] == le64(b)[6]); assert(le64(a)[7] == le64(b)[7]);
    assert(a == b) by (bit_vector)
        requires (a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8,
                 ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8, ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8,
                 ((a >> 32) & 0xff) as u8 == ((b >> 32) & 0xff) as u8, ((a >> 40) & 0xff) as u8 == ((b >> 40) & 0xff) as u8,
                 ((a >> 48) & 0xff) as u8 == ((b >> 48) & 0xff) as u8, ((a >> 56) & 0xff) as u8 == ((b >> 56) & 0xff) as u8;
}
/// a run of raw bytes, kept apart from the fixed-width encodings for the solver's sake; it is the identity
#[verifier::opaque]
pub open spec fn blob(s: Seq<u8>) -> Seq<u8> { s }
pub broadcast proof fn blob_len(s: Seq<u8>) ensures #[trigger] blob(s).len() == s.len() { reveal(blob); }
pub broadcast group group_bytes { blob_len, le32_len, be32_len, le64_len, be64_len }

// prefix arguments shared by the round-trip lemmas
pub open spec fn is_prefix(a: Seq<u8>, d: Seq<u8>) -> bool { a.len() <= d.len() && d.take(a.len() as int) == a }
pub proof fn prefix_step(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>, d: Seq<u8>)
    requires is_prefix(p + a, d), is_prefix(p + b, d), a.len() == b.len(),
    ensures a == b,
{
    assert((p + a) == (p + b));
    assert((p + a).skip(p.len() as int) =~= a);
    assert((p + b).skip(p.len() as int) =~= b);
}
pub proof fn prefix_weaken(p: Seq<u8>, a: Seq<u8>, d: Seq<u8>)
    requires is_prefix(p + a, d),
    ensures is_prefix(p, d),
{
    assert(d.take((p + a).len() as int).take(p.len() as int) =~= d.take(p.len() as int));
    assert((p + a).take(p.len() as int) =~= p);
}
