use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ struct unreal_asset/src/ac7.rs AC7XorKey derive=Copy,Clone
//@ const unreal_asset/src/ac7.rs AC7_ASSET_MAGIC
//@ expect unreal_asset/src/lib.rs const UE4_ASSET_MAGIC : u32 = u32 :: from_be_bytes \( \[ 0xc1 , 0x83 , 0x2a , 0x9e (?:, )?\] \) ;
//@ expect unreal_asset/src/ac7.rs const AC7_KEY : & \[ u8 \] = include_bytes !
//@ filesize unreal_asset/vendor/AC7Key.bin 222208
pub uninterp spec fn keyfile() -> Seq<u8>;
#[verifier::external_body]
pub fn vx_key(i: usize) -> (r: u8) requires i < 222208, ensures r == keyfile()[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vx_asset_tag() -> (r: [u8; 4]) ensures r@ == asset_tag() { [0xc1, 0x83, 0x2a, 0x9e] }
#[verifier::external_body]
pub fn vx_le(v: u32) -> (r: [u8; 4]) ensures r@ == seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8] { v.to_le_bytes() }
#[verifier::external_body]
pub fn vx_copy(v: &mut Vec<u8>, n: usize, t: [u8; 4], m: usize)
    requires n == m, n <= 4, n <= old(v)@.len(),
    ensures final(v)@ == t@.take(n as int) + old(v)@.skip(n as int),
{ v[..n].copy_from_slice(&t[..m]); }
pub open spec fn asset_tag() -> Seq<u8> { seq![0xc1u8, 0x83, 0x2a, 0x9e] }
pub open spec fn crypt_tag() -> Seq<u8> { seq![0x41u8, 0x43, 0x45, 0x37] }
#[verifier::external_body]
pub fn vx_upper(s: &str) -> (r: Vec<u8>) ensures r@ == upper(s@) { s.to_uppercase().into_bytes() }
/// UTF-8 bytes of the upper-cased text (std)
pub uninterp spec fn upper(s: Seq<char>) -> Seq<u8>;
pub assume_specification [i32::overflowing_mul] (a: i32, b: i32) -> (r: (i32, bool)) ensures r.0 == mul_wrap(a, b);
pub assume_specification [i32::overflowing_add] (a: i32, b: i32) -> (r: (i32, bool)) ensures r.0 == add_wrap(a, b);
pub uninterp spec fn mul_wrap(a: i32, b: i32) -> i32;
pub uninterp spec fn add_wrap(a: i32, b: i32) -> i32;
pub open spec fn name_step(n: i32, b: u8) -> i32 {
    let n1 = n ^ (b as i32);
    (((!(mul_wrap(n1, 8) ^ n1)) >> 7) & 1) | add_wrap(n1, n1)
}
pub open spec fn name_key(b: Seq<u8>) -> i32 decreases b.len() { if b.len() == 0 { 0 } else { name_step(name_key(b.drop_last()), b.last()) } }
pub open spec fn ok(k: AC7XorKey) -> bool { k.pk1 < 217 && k.pk2 < 1024 }
/// the mask applied to the n-th byte from a key state
pub open spec fn mask(k: AC7XorKey, n: int) -> u8 {
    0x77u8 ^ keyfile()[((k.pk1 + n) % 217) * 1024 + (k.pk2 + n) % 1024]
}
pub open spec fn adv(k: AC7XorKey, n: int) -> AC7XorKey {
    AC7XorKey { pk1: ((k.pk1 + n) % 217) as u32, pk2: ((k.pk2 + n) % 1024) as u32, ..k }
}
pub open spec fn xored(d: Seq<u8>, k: AC7XorKey) -> Seq<u8> { Seq::new(d.len(), |i: int| d[i] ^ mask(k, i)) }
/// tag, then the rest through the key stream
pub open spec fn tagged(d: Seq<u8>, tag: Seq<u8>, k: AC7XorKey) -> Seq<u8> {
    if d.len() <= 4 { tag.take(d.len() as int) } else { tag + xored(d.skip(4), k) }
}
pub open spec fn body(d: Seq<u8>) -> int { if d.len() < 4 { 0 } else { d.len() - 4 } }
pub open spec fn start(name: Seq<char>) -> AC7XorKey {
    let k = name_key(upper(name));
    AC7XorKey { name_key: k, offset: 4, pk1: ((k as u32 * 7 + 4) % 217) as u32, pk2: ((k as u32 * 11 + 4) % 1024) as u32 }
}
pub proof fn adv_adv(k: AC7XorKey, a: int, b: int)
    requires ok(k), 0 <= a, 0 <= b,
    ensures adv(adv(k, a), b) == adv(k, a + b), ok(adv(k, a)), mask(adv(k, a), b) == mask(k, a + b),
{
    let p = k.pk1 as int; let q = k.pk2 as int;
    assert(((p + a) % 217 + b) % 217 == (p + a + b) % 217) by (nonlinear_arith);
    assert(((q + a) % 1024 + b) % 1024 == (q + a + b) % 1024) by (nonlinear_arith);
}
pub proof fn adv0(k: AC7XorKey) requires ok(k), ensures adv(k, 0) == k {}
pub proof fn div217(n: u128)
    requires n <= 0x7_0000_0010,
    ensures ({ let q = (5440514381186227205u128 * n) as u128 >> 70u128; q == n / 217 && q >> 63u128 == 0 && 5440514381186227205u128 * n < 0x1_0000_0000_0000_0000_0000_0000_0000_0000 }),
{
    let m = 5440514381186227205int * n;
    assert(m <= 5440514381186227205int * 0x7_0000_0010) by (nonlinear_arith) requires m == 5440514381186227205int * n, n <= 0x7_0000_0010;
    let x = m as u128;
    assert(x >> 70u128 == x / 0x40_0000_0000_0000_0000u128) by (bit_vector);
    let d = 0x40_0000_0000_0000_0000int;
    let q = n as int / 217; let r = n as int % 217;
    assert(5440514381186227205int * 217 == 0x40_0000_0000_0000_0000int + 61) by (compute_only);
    // 217 * m = n * d + 61 * n
    assert(217 * m == n * d + 61 * n) by (nonlinear_arith) requires m == 5440514381186227205int * n, 5440514381186227205int * 217 == d + 61;
    assert(217 * m == 217 * q * d + r * d + 61 * n) by (nonlinear_arith) requires 217 * m == n * d + 61 * n, n as int == 217 * q + r;
    assert(217 * (m - q * d) == r * d + 61 * n) by (nonlinear_arith) requires 217 * m == 217 * q * d + r * d + 61 * n;
    assert(61 * n < d);
    assert(0 <= r * d <= 216 * d) by (nonlinear_arith) requires 0 <= r <= 216, d == 0x40_0000_0000_0000_0000int;
    assert(0 <= m - q * d < d);
    assert(m / d == q) by (nonlinear_arith) requires 0 <= m - q * d < d, d > 0;
    assert(q < 0x8000_0000_0000_0000);
    let qq = q as u128;
    assert(qq >> 63u128 == 0) by (bit_vector) requires qq < 0x8000_0000_0000_0000u128;
}
pub proof fn low10(x: u128) ensures x & 0x3ff == x % 1024 { assert(x & 0x3ff == x % 1024) by (bit_vector); }
pub proof fn low32(x: u128) requires x < 0x1_0000_0000, ensures x & 0xffffffff == x { assert(x & 0xffffffff == x) by (bit_vector) requires x < 0x1_0000_0000u128; }
pub proof fn xor_facts(b: u8, m: u8)
    ensures (b ^ m) as u32 ^ 0x77 <= 255, ((b ^ m) as u32 ^ 0x77) as u8 == b ^ (0x77u8 ^ m),
{
    assert((b ^ m) as u32 ^ 0x77 <= 255 && ((b ^ m) as u32 ^ 0x77) as u8 == b ^ (0x77u8 ^ m)) by (bit_vector);
}
//@ rewrite AC7_KEY\[((?:[^\[\]])*)\] ==> vx_key(\1)
//@ rewrite u32::to_be_bytes\(UE4_ASSET_MAGIC\) ==> vx_asset_tag()
//@ rewrite u32::to_le_bytes\((\w+)\) ==> vx_le(\1)
//@ rewrite (\w+)\[\.\.(\w+)\]\.copy_from_slice\(&((?:\w|::)+\([\w]*\))\[\.\.(\w+)\]\); ==> vx_copy(&mut \1, \2, \3, \4);
//@ rewrite let name = name\.to_uppercase\(\); ==> let name = vx_upper(name);
//@ rewrite in name\.as_bytes\(\) ==> in name.as_slice()
//@ rewrite \.min\(4\) ==> .vx_min4()
pub trait VxMin { fn vx_min4(self) -> (r: usize); }
impl VxMin for usize { fn vx_min4(self) -> (r: usize) ensures r == (if self < 4 { self } else { 4 }) { if self < 4 { self } else { 4 } } }
//@ fn unreal_asset/src/ac7.rs AC7XorKey calc_name_key params=name
    ensures r == name_key(upper(name@)),
//@ loop 0 it=it
        invariant num == name_key(upper(old_name).take(it.index() as int)), it.seq().len() == upper(old_name).len(), name@ == upper(old_name),
            forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == upper(old_name)[i],
//@ at body-start
    let ghost old_name = name@;
//@ at loop-start 0
        proof { let u = upper(old_name); let n = it.index() as int; assert(u.take(n + 1).drop_last() =~= u.take(n)); assert(u.take(n + 1).last() == u[n]); }
//@ at post-loop 0
    proof { assert(upper(old_name).take(upper(old_name).len() as int) =~= upper(old_name)); }
//@ end
//@ fn unreal_asset/src/ac7.rs AC7XorKey calc_pkey_from_nkey params=nkey,data_offset
    requires data_offset <= 16,
    ensures r.0 == (nkey * 7 + data_offset) % 217, r.1 == (nkey * 11 + data_offset) % 1024,
//@ at body-start
    proof {
        let n = (nkey * 7 + data_offset) as u128;
        div217(n);
        low32((n % 217) as u128);
        let m = (nkey * 11 + data_offset) as u128;
        low10(m); low32((m % 1024) as u128);
        assert(0u128 & 0x3ff == 0) by (bit_vector);
    }
//@ end
//@ fn unreal_asset/src/ac7.rs AC7XorKey new params=name
    ensures r == start(name@), ok(r),
//@ end
//@ fn unreal_asset/src/ac7.rs AC7XorKey xor_byte params=byte
    requires ok(*old(self)),
    ensures ok(*final(self)), r == byte ^ mask(*old(self), 0), *final(self) == adv(*old(self), 1),
//@ at body-start
    proof { assert forall|b: u8, m: u8| #[trigger] ((b ^ m) as u32 ^ 0x77) <= 255 && ((b ^ m) as u32 ^ 0x77) as u8 == b ^ (0x77u8 ^ m) by { xor_facts(b, m); } }
//@ end
//@ fn unreal_asset/src/ac7.rs - decrypt_uasset params=uasset,key
    requires ok(*old(key)),
    ensures r@ == tagged(uasset@, asset_tag(), *old(key)), *final(key) == adv(*old(key), body(uasset@)), ok(*final(key)),
//@ loop 0 it=it
        invariant
            ok(*old(key)), ok(*key), decrypted@.len() == uasset@.len(), it.index() >= 0,
            *key == adv(*old(key), it.index() as int),
            forall|j: int| 0 <= j < 4 && j < uasset@.len() ==> decrypted@[j] == asset_tag()[j],
            forall|j: int| 4 <= j < 4 + it.index() ==> #[trigger] decrypted@[j] == uasset@[j] ^ mask(*old(key), j - 4),
//@ at loop-start 0
        proof { adv_adv(*old(key), it.index() as int, 0); adv_adv(*old(key), it.index() as int, 1); }
//@ at before-tail
    proof { assert(decrypted@ =~= tagged(uasset@, asset_tag(), *old(key))); }
//@ end
//@ fn unreal_asset/src/ac7.rs - encrypt_uasset params=uasset,key
    requires ok(*old(key)),
    ensures r@ == tagged(uasset@, crypt_tag(), *old(key)), *final(key) == adv(*old(key), body(uasset@)), ok(*final(key)),
//@ at body-start
    proof { tag_bytes(); }
//@ loop 0 it=it
        invariant
            ok(*old(key)), ok(*key), encrypted@.len() == uasset@.len(), it.index() >= 0,
            *key == adv(*old(key), it.index() as int),
            forall|j: int| 0 <= j < 4 && j < uasset@.len() ==> encrypted@[j] == crypt_tag()[j],
            forall|j: int| 4 <= j < 4 + it.index() ==> #[trigger] encrypted@[j] == uasset@[j] ^ mask(*old(key), j - 4),
//@ at loop-start 0
        proof { adv_adv(*old(key), it.index() as int, 0); adv_adv(*old(key), it.index() as int, 1); }
//@ at before-tail
    proof { assert(encrypted@ =~= tagged(uasset@, crypt_tag(), *old(key))); }
//@ end
//@ fn unreal_asset/src/ac7.rs - decrypt_uexp params=uexp,key
    requires ok(*old(key)),
    ensures r@ == xored(uexp@, *old(key)), *final(key) == adv(*old(key), uexp@.len() as int), ok(*final(key)),
//@ loop 0 it=it
        invariant
            ok(*old(key)), ok(*key), decrypted@.len() == uexp@.len(), *key == adv(*old(key), it.index() as int),
            forall|j: int| 0 <= j < it.index() ==> #[trigger] decrypted@[j] == uexp@[j] ^ mask(*old(key), j),
//@ at loop-start 0
        proof { adv_adv(*old(key), it.index() as int, 0); adv_adv(*old(key), it.index() as int, 1); }
//@ at before-tail
    proof { assert(decrypted@ =~= xored(uexp@, *old(key))); }
//@ end
//@ fn unreal_asset/src/ac7.rs - encrypt_uexp params=uexp,key
    requires ok(*old(key)),
    ensures r@ == xored(uexp@, *old(key)), *final(key) == adv(*old(key), uexp@.len() as int), ok(*final(key)),
//@ loop 0 it=it
        invariant
            ok(*old(key)), ok(*key), encrypted@.len() == uexp@.len(), *key == adv(*old(key), it.index() as int),
            forall|j: int| 0 <= j < it.index() ==> #[trigger] encrypted@[j] == uexp@[j] ^ mask(*old(key), j),
//@ at loop-start 0
        proof { adv_adv(*old(key), it.index() as int, 0); adv_adv(*old(key), it.index() as int, 1); }
//@ at before-tail
    proof { assert(encrypted@ =~= xored(uexp@, *old(key))); }
//@ end
//@ fn unreal_asset/src/ac7.rs - decrypt params=uasset,uexp,key
    requires ok(key),
    ensures r.0@ == tagged(uasset@, asset_tag(), key), r.1@ == xored(uexp@, adv(key, body(uasset@))),
//@ end
//@ fn unreal_asset/src/ac7.rs - encrypt params=uasset,uexp,key
    requires ok(key),
    ensures r.0@ == tagged(uasset@, crypt_tag(), key), r.1@ == xored(uexp@, adv(key, body(uasset@))),
//@ end
pub proof fn tag_bytes()
    ensures ({ let v = 0x37454341u32; seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8] == crypt_tag() }),
{
    let v = 0x37454341u32;
    assert((0x37454341u32 & 0xff) as u8 == 0x41u8 && ((0x37454341u32 >> 8) & 0xff) as u8 == 0x43u8 && ((0x37454341u32 >> 16) & 0xff) as u8 == 0x45u8 && ((0x37454341u32 >> 24) & 0xff) as u8 == 0x37u8) by (bit_vector);
    assert(seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8] =~= crypt_tag());
}
pub proof fn twice(d: Seq<u8>, k: AC7XorKey) ensures xored(xored(d, k), k) == d
{
    assert forall|a: u8, b: u8| #[trigger] ((a ^ b) ^ b) == a by { assert((a ^ b) ^ b == a) by (bit_vector); }
    assert(xored(xored(d, k), k) =~= d);
}
/// the property: decrypting what was encrypted under the same name restores it, but for the tag
pub fn a02(name: &str, uasset: &[u8], uexp: &[u8]) -> (r: (Vec<u8>, Vec<u8>))
    ensures
        r.1@ == uexp@,
        r.0@.len() == uasset@.len(),
        uasset@.len() >= 4 ==> r.0@ == asset_tag() + uasset@.skip(4),
{
    let (a, b) = encrypt(uasset, uexp, AC7XorKey::new(name));
    let r = decrypt(&a, &b, AC7XorKey::new(name));
    proof {
        let k = start(name@);
        twice(uexp@, adv(k, body(uasset@)));
        if uasset@.len() >= 4 {
            twice(uasset@.skip(4), k);
            assert(a@.skip(4) =~= xored(uasset@.skip(4), k));
            if uasset@.len() == 4 { assert(asset_tag().take(4) =~= asset_tag() + uasset@.skip(4)); }
        }
    }
    r
}
}
fn main() {}
