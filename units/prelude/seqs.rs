// ---- sequence facts used by the codec proofs (all proved) ----
pub proof fn assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures (a + b) + c == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
pub proof fn cancel(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires a + x == b + y, a.len() == b.len(),
    ensures a == b, x == y,
{
    assert((a + x).take(a.len() as int) =~= a);
    assert((b + y).take(a.len() as int) =~= b);
    assert((a + x).skip(a.len() as int) =~= x);
    assert((b + y).skip(a.len() as int) =~= y);
}
pub broadcast proof fn cancel8(a: u8, x: Seq<u8>, b: u8, y: Seq<u8>)
    requires #[trigger] (seq![a] + x) == #[trigger] (seq![b] + y),
    ensures a == b && x == y,
{ cancel(seq![a], seq![b], x, y); assert(seq![a][0] == seq![b][0]); }
pub broadcast proof fn cancel16(a: u16, x: Seq<u8>, b: u16, y: Seq<u8>)
    requires #[trigger] (le16(a) + x) == #[trigger] (le16(b) + y),
    ensures a == b && x == y,
{ cancel(le16(a), le16(b), x, y); le16_inj(a, b); }
pub broadcast proof fn cancel32(a: u32, x: Seq<u8>, b: u32, y: Seq<u8>)
    requires #[trigger] (le32(a) + x) == #[trigger] (le32(b) + y),
    ensures a == b && x == y,
{ le32_len(a); le32_len(b); cancel(le32(a), le32(b), x, y); le32_inj(a, b); }
pub broadcast proof fn cancelb32(a: u32, x: Seq<u8>, b: u32, y: Seq<u8>)
    requires #[trigger] (be32(a) + x) == #[trigger] (be32(b) + y),
    ensures a == b && x == y,
{ be32_len(a); be32_len(b); cancel(be32(a), be32(b), x, y); be32_inj(a, b); }
pub broadcast proof fn cancel64(a: u64, x: Seq<u8>, b: u64, y: Seq<u8>)
    requires #[trigger] (le64(a) + x) == #[trigger] (le64(b) + y),
    ensures a == b && x == y,
{ le64_len(a); le64_len(b); cancel(le64(a), le64(b), x, y); le64_inj(a, b); }
pub broadcast proof fn cancelblob(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>)
    requires #[trigger] (blob(a) + x) == #[trigger] (blob(b) + y), a.len() == b.len(),
    ensures a == b && x == y,
{ reveal(blob); cancel(a, b, x, y); }
pub broadcast group group_cancel { cancelblob, cancel8, cancel16, cancel32, cancelb32, cancel64 }
/// two consecutive reads are one read of the concatenation
pub broadcast proof fn got_trans<S: Stream + ?Sized>(x: &S, y: &S, z: &S, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] got(x, y, a), #[trigger] got(y, z, b),
    ensures got(x, z, a + b),
{ assoc(x.pre(), a, b); assoc(a, b, z.post()); }
/// two consecutive writes are one write of the concatenation
pub broadcast proof fn put_trans<S: Stream + ?Sized>(x: &S, y: &S, z: &S, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] put(x, y, a), #[trigger] put(y, z, b),
    ensures put(x, z, a + b),
{
    assoc(x.pre(), a, b);
    if x.post().len() > a.len() + b.len() {
        assert(x.post().skip(a.len() as int).skip(b.len() as int) =~= x.post().skip((a + b).len() as int));
    }
}
pub broadcast proof fn blob_z1(s: Seq<u8>)
    requires s.len() == 1, s[0] == 0,
    ensures #[trigger] blob(s) == seq![0u8],
{ reveal(blob); assert(s =~= seq![0u8]); }
pub broadcast proof fn blob_z2(s: Seq<u8>)
    requires s.len() == 2, s[0] == 0, s[1] == 0,
    ensures #[trigger] blob(s) == le16(0),
{
    reveal(blob);
    assert((0u16 & 0xff) as u8 == 0 && ((0u16 >> 8) & 0xff) as u8 == 0) by (bit_vector);
    assert(s =~= le16(0));
}
pub proof fn i32_inj(a: i32, b: i32)
    requires a as u32 == b as u32,
    ensures a == b,
{ assert(a == b) by (bit_vector) requires a as u32 == b as u32; }
pub broadcast proof fn cancel32i(a: i32, x: Seq<u8>, b: i32, y: Seq<u8>)
    requires #[trigger] (le32(a as u32) + x) == #[trigger] (le32(b as u32) + y),
    ensures a == b && x == y,
{ cancel32(a as u32, x, b as u32, y); i32_inj(a, b); }
