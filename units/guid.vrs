use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ struct unreal_helpers/src/guid.rs Guid derive=Copy,Clone
pub open spec fn byte32(v: u32, i: int) -> u8 {
    if i == 0 { (v & 0xff) as u8 } else if i == 1 { ((v >> 8) & 0xff) as u8 } else if i == 2 { ((v >> 16) & 0xff) as u8 } else { ((v >> 24) & 0xff) as u8 }
}
/// the 16 bytes of four little-endian words
pub open spec fn words(a: u32, b: u32, c: u32, d: u32) -> Seq<u8> {
    Seq::new(16, |i: int| if i < 4 { byte32(a, i) } else if i < 8 { byte32(b, i - 4) } else if i < 12 { byte32(c, i - 8) } else { byte32(d, i - 12) })
}
pub open spec fn byte128(v: u128, i: int) -> u8 {
    if i == 0 { (v & 0xff) as u8 } else if i == 1 { ((v >> 8u128) & 0xff) as u8 } else if i == 2 { ((v >> 16u128) & 0xff) as u8 }
    else if i == 3 { ((v >> 24u128) & 0xff) as u8 } else if i == 4 { ((v >> 32u128) & 0xff) as u8 } else if i == 5 { ((v >> 40u128) & 0xff) as u8 }
    else if i == 6 { ((v >> 48u128) & 0xff) as u8 } else if i == 7 { ((v >> 56u128) & 0xff) as u8 } else if i == 8 { ((v >> 64u128) & 0xff) as u8 }
    else if i == 9 { ((v >> 72u128) & 0xff) as u8 } else if i == 10 { ((v >> 80u128) & 0xff) as u8 } else if i == 11 { ((v >> 88u128) & 0xff) as u8 }
    else if i == 12 { ((v >> 96u128) & 0xff) as u8 } else if i == 13 { ((v >> 104u128) & 0xff) as u8 } else if i == 14 { ((v >> 112u128) & 0xff) as u8 }
    else { ((v >> 120u128) & 0xff) as u8 }
}
pub open spec fn bytes128(v: u128) -> Seq<u8> { Seq::new(16, |i: int| byte128(v, i)) }

pub proof fn word_back(p: u8, q: u8, r: u8, s: u8, v: u32)
    requires v == (p as u32) | ((q as u32) << 8) | ((r as u32) << 16) | ((s as u32) << 24),
    ensures byte32(v, 0) == p, byte32(v, 1) == q, byte32(v, 2) == r, byte32(v, 3) == s,
{
    assert((v & 0xff) as u8 == p && ((v >> 8) & 0xff) as u8 == q && ((v >> 16) & 0xff) as u8 == r && ((v >> 24) & 0xff) as u8 == s) by (bit_vector)
        requires v == (p as u32) | ((q as u32) << 8) | ((r as u32) << 16) | ((s as u32) << 24);
}
pub proof fn word_forth(v: u32)
    ensures v == (byte32(v, 0) as u32) | ((byte32(v, 1) as u32) << 8) | ((byte32(v, 2) as u32) << 16) | ((byte32(v, 3) as u32) << 24),
{
    assert(v == (((v & 0xff) as u8) as u32) | (((((v >> 8) & 0xff) as u8) as u32) << 8) | (((((v >> 16) & 0xff) as u8) as u32) << 16) | (((((v >> 24) & 0xff) as u8) as u32) << 24)) by (bit_vector);
}
//@ fn unreal_helpers/src/guid.rs Guid new params=guid attr="#[verifier::when_used_as_spec(spec_new)]"
    ensures r == Guid(guid),
//@ end
impl Guid { pub open spec fn spec_new(guid: [u8; 16]) -> Guid { Guid(guid) } }
//@ fn unreal_helpers/src/guid.rs Guid from_ints params=a,b,c,d
    ensures r.0@ == words(a, b, c, d),
//@ at body-start
    proof { }
//@ end
//@ fn unreal_helpers/src/guid.rs "From<[u8; 16]> for Guid" from mode=free as=guid_from_array params=value
    ensures r.0 == value,
//@ end
//@ fn unreal_helpers/src/guid.rs "From<Guid> for [u8; 16]" from mode=free as=array_from_guid params=value
    ensures r == value.0,
//@ end
//@ fn unreal_helpers/src/guid.rs "From<(u32, u32, u32, u32)> for Guid" from mode=free as=guid_from_words params=value
    ensures r.0@ == words(value.0, value.1, value.2, value.3),
//@ end
//@ fn unreal_helpers/src/guid.rs "From<Guid> for (u32, u32, u32, u32)" from mode=free as=words_from_guid params=guid
    ensures words(r.0, r.1, r.2, r.3) == guid.0@,
//@ at before-tail
    proof {
        word_back(guid.0[0], guid.0[1], guid.0[2], guid.0[3], a);
        word_back(guid.0[4], guid.0[5], guid.0[6], guid.0[7], b);
        word_back(guid.0[8], guid.0[9], guid.0[10], guid.0[11], c);
        word_back(guid.0[12], guid.0[13], guid.0[14], guid.0[15], d);
        assert(words(a, b, c, d) =~= guid.0@);
    }
//@ end
pub open spec fn join128(p0: u8, p1: u8, p2: u8, p3: u8, p4: u8, p5: u8, p6: u8, p7: u8, p8: u8, p9: u8, p10: u8, p11: u8, p12: u8, p13: u8, p14: u8, p15: u8) -> u128 { (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128) }
pub proof fn join_bytes(p0: u8, p1: u8, p2: u8, p3: u8, p4: u8, p5: u8, p6: u8, p7: u8, p8: u8, p9: u8, p10: u8, p11: u8, p12: u8, p13: u8, p14: u8, p15: u8)
    ensures bytes128(join128(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13, p14, p15)) == seq![p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13, p14, p15],
{
    let v = join128(p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13, p14, p15);
    assert((v & 0xff) as u8 == p0) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 8u128) & 0xff) as u8 == p1) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 16u128) & 0xff) as u8 == p2) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 24u128) & 0xff) as u8 == p3) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 32u128) & 0xff) as u8 == p4) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 40u128) & 0xff) as u8 == p5) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 48u128) & 0xff) as u8 == p6) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 56u128) & 0xff) as u8 == p7) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 64u128) & 0xff) as u8 == p8) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 72u128) & 0xff) as u8 == p9) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 80u128) & 0xff) as u8 == p10) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 88u128) & 0xff) as u8 == p11) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 96u128) & 0xff) as u8 == p12) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 104u128) & 0xff) as u8 == p13) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 112u128) & 0xff) as u8 == p14) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(((v >> 120u128) & 0xff) as u8 == p15) by (bit_vector) requires v == (p0 as u128) | ((p1 as u128) << 8u128) | ((p2 as u128) << 16u128) | ((p3 as u128) << 24u128) | ((p4 as u128) << 32u128) | ((p5 as u128) << 40u128) | ((p6 as u128) << 48u128) | ((p7 as u128) << 56u128) | ((p8 as u128) << 64u128) | ((p9 as u128) << 72u128) | ((p10 as u128) << 80u128) | ((p11 as u128) << 88u128) | ((p12 as u128) << 96u128) | ((p13 as u128) << 104u128) | ((p14 as u128) << 112u128) | ((p15 as u128) << 120u128);
    assert(bytes128(v) =~= seq![p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13, p14, p15]);
}
pub proof fn bytes_join(v: u128)
    ensures v == join128(byte128(v, 0), byte128(v, 1), byte128(v, 2), byte128(v, 3), byte128(v, 4), byte128(v, 5), byte128(v, 6), byte128(v, 7), byte128(v, 8), byte128(v, 9), byte128(v, 10), byte128(v, 11), byte128(v, 12), byte128(v, 13), byte128(v, 14), byte128(v, 15)),
{
    assert(v == (((v & 0xff) as u8) as u128) | (((((v >> 8u128) & 0xff) as u8) as u128) << 8u128) | (((((v >> 16u128) & 0xff) as u8) as u128) << 16u128) | (((((v >> 24u128) & 0xff) as u8) as u128) << 24u128) | (((((v >> 32u128) & 0xff) as u8) as u128) << 32u128) | (((((v >> 40u128) & 0xff) as u8) as u128) << 40u128) | (((((v >> 48u128) & 0xff) as u8) as u128) << 48u128) | (((((v >> 56u128) & 0xff) as u8) as u128) << 56u128) | (((((v >> 64u128) & 0xff) as u8) as u128) << 64u128) | (((((v >> 72u128) & 0xff) as u8) as u128) << 72u128) | (((((v >> 80u128) & 0xff) as u8) as u128) << 80u128) | (((((v >> 88u128) & 0xff) as u8) as u128) << 88u128) | (((((v >> 96u128) & 0xff) as u8) as u128) << 96u128) | (((((v >> 104u128) & 0xff) as u8) as u128) << 104u128) | (((((v >> 112u128) & 0xff) as u8) as u128) << 112u128) | (((((v >> 120u128) & 0xff) as u8) as u128) << 120u128)) by (bit_vector);
}
//@ fn unreal_helpers/src/guid.rs "From<u128> for Guid" from mode=free as=guid_from_u128 params=value
    ensures r.0@ == bytes128(value),
//@ end
//@ fn unreal_helpers/src/guid.rs "From<Guid> for u128" from mode=free as=u128_from_guid params=value
    ensures bytes128(r) == value.0@,
//@ at body-start
    proof {
        let g = value.0;
        join_bytes(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15]);
        assert(seq![g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15]] =~= g@);
    }
//@ end
/// words -> guid -> words and integer -> guid -> integer are the identity
pub proof fn words_inj(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32)
    requires words(a, b, c, d) == words(e, f, g, h),
    ensures a == e, b == f, c == g, d == h,
{
    let x = words(a, b, c, d); let y = words(e, f, g, h);
    assert forall|i: int| 0 <= i < 4 implies byte32(a, i) == byte32(e, i) && byte32(b, i) == byte32(f, i) && byte32(c, i) == byte32(g, i) && byte32(d, i) == byte32(h, i) by {
        assert(x[i] == y[i]); assert(x[i + 4] == y[i + 4]); assert(x[i + 8] == y[i + 8]); assert(x[i + 12] == y[i + 12]);
    }
    word_forth(a); word_forth(b); word_forth(c); word_forth(d); word_forth(e); word_forth(f); word_forth(g); word_forth(h);
}
pub fn h02_words(a: u32, b: u32, c: u32, d: u32) -> (r: (u32, u32, u32, u32))
    ensures r == (a, b, c, d),
{
    let g = guid_from_words((a, b, c, d));
    let t = words_from_guid(g);
    proof { words_inj(a, b, c, d, t.0, t.1, t.2, t.3); }
    t
}
pub fn h02_int(v: u128) -> (r: u128)
    ensures r == v,
{
    let g = guid_from_u128(v);
    let t = u128_from_guid(g);
    proof {
        bytes_join(v); bytes_join(t);
        assert forall|i: int| 0 <= i < 16 implies byte128(v, i) == byte128(t, i) by { assert(bytes128(v)[i] == bytes128(t)[i]); }
    }
    t
}
}
fn main() {}
