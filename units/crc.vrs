use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub uninterp spec fn utf16(s: Seq<char>) -> Seq<u16>;
pub uninterp spec fn city64(b: Seq<u8>) -> u64;
pub open spec fn le16(v: u16) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8] }
pub open spec fn le16s(u: Seq<u16>) -> Seq<u8> { Seq::new(2 * u.len(), |i: int| le16(u[i / 2])[i % 2]) }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
#[verifier::external_body]
pub fn vx_utf16(s: &str) -> (r: Vec<u16>) ensures r@ == utf16(s@) { s.encode_utf16().collect() }
#[verifier::external_body]
pub fn vx_is_ascii(s: &str) -> (r: bool) ensures r == ascii(s@) { s.is_ascii() }
#[verifier::external_body]
pub fn vx_up(c: u8) -> (r: u16) ensures c < 128 ==> r == (if 97 <= c <= 122 { (c - 32) as u16 } else { c as u16 }) { (c as char).to_uppercase().next().unwrap() as u16 }
#[verifier::external_body]
pub fn vx_low(c: u8) -> (r: u16) ensures c < 128 ==> r == (if 65 <= c <= 90 { (c + 32) as u16 } else { c as u16 }) { (c as char).to_lowercase().next().unwrap() as u16 }
#[verifier::external_body]
pub fn vx_lowered(s: &str) -> (r: Vec<u16>)
    ensures r@ == utf16(s@).map_values(|c: u16| lower(c)) { s.encode_utf16().map(to_lower).collect() }
#[verifier::external_body]
pub fn vx_u16_bytes(v: &Vec<u16>) -> (r: &[u8]) ensures r@ == le16s(v@) { unsafe { v.align_to::<u8>() }.1 }
#[verifier::external_body]
pub fn cityhash64(b: &[u8]) -> (r: u64) ensures r == city64(b@) { unimplemented!() }
//@ table unreal_asset/unreal_asset_base/src/crc.rs CRCTABLE_DEPRECATED tab_old
//@ table unreal_asset/unreal_asset_base/src/crc.rs CRCTABLES_SB8 tab_crc 0
#[verifier::external_body]
pub fn vx_tab_old(i: usize) -> (r: u32) requires i < 256, ensures r == tab_old()[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vx_tab_crc(i: usize) -> (r: u32) requires i < 256, ensures r == tab_crc()[i as int] { unimplemented!() }

// ---- the two CRCs by their polynomials, bit by bit ----
pub open spec fn bit(c: u32) -> u32 { if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 } }
pub open spec fn bit8(c: u32) -> u32 { bit(bit(bit(bit(bit(bit(bit(bit(c)))))))) }
/// one byte into the CRC-32
pub open spec fn crc_byte(c: u32, b: u8) -> u32 { bit8(c ^ (b as u32)) }
pub open spec fn mbit(c: u32) -> u32 { if c & 0x8000_0000 != 0 { ((c << 1) & 0xffff_ffff) ^ 0x04C11DB7 } else { c << 1 } }
pub open spec fn mbit8(c: u32) -> u32 { mbit(mbit(mbit(mbit(mbit(mbit(mbit(mbit(c)))))))) }
/// one byte into the engine's legacy hash
pub open spec fn old_byte(h: u32, b: u8) -> u32 { (h >> 8) ^ mbit8(((h ^ (b as u32)) & 0xff) << 24) }
/// the CRC-32 over 32-bit code units, low byte first
pub open spec fn crc_units(u: Seq<u16>, c: u32) -> u32 decreases u.len() {
    if u.len() == 0 { c } else {
        let v = u.last();
        crc_byte(crc_byte(crc_byte(crc_byte(crc_units(u.drop_last(), c), (v & 0xff) as u8), (v >> 8) as u8), 0), 0)
    }
}
pub open spec fn upper(c: u16) -> u16 { if 97 <= c <= 122 { (c - 32) as u16 } else { c } }
pub open spec fn lower(c: u16) -> u16 { if 65 <= c <= 90 { (c + 32) as u16 } else { c } }
/// the legacy hash over upper-cased units: one byte per unit for ASCII text, two otherwise
pub open spec fn old_units(u: Seq<u16>, narrow: bool) -> u32 decreases u.len() {
    if u.len() == 0 { 0 } else {
        let v = upper(u.last());
        let h = old_byte(old_units(u.drop_last(), narrow), (v & 0xff) as u8);
        if narrow { h } else { old_byte(h, (v >> 8) as u8) }
    }
}
pub open spec fn crc_text(s: Seq<char>, c: u32) -> u32 { !crc_units(utf16(s), !c) }
pub open spec fn old_text(s: Seq<char>) -> u32 { old_units(utf16(s), ascii(s)) }

// ---- the tables are the byte-wise forms of those polynomials ----
pub open spec fn crc_ok(t: Seq<u32>, i: nat) -> bool decreases i { i == 0 || (crc_ok(t, (i - 1) as nat) && t[i - 1] == bit8((i - 1) as u32)) }
pub open spec fn old_ok(t: Seq<u32>, i: nat) -> bool decreases i { i == 0 || (old_ok(t, (i - 1) as nat) && t[i - 1] == mbit8(((i - 1) as u32) << 24)) }
pub proof fn crc_ok_at(t: Seq<u32>, n: nat, k: int) requires crc_ok(t, n), 0 <= k < n, ensures t[k] == bit8(k as u32), decreases n
{ if k < n - 1 { crc_ok_at(t, (n - 1) as nat, k); } }
pub proof fn old_ok_at(t: Seq<u32>, n: nat, k: int) requires old_ok(t, n), 0 <= k < n, ensures t[k] == mbit8((k as u32) << 24), decreases n
{ if k < n - 1 { old_ok_at(t, (n - 1) as nat, k); } }
pub proof fn tables()
    ensures
        forall|k: int| 0 <= k < 256 ==> #[trigger] tab_crc()[k] == bit8(k as u32),
        forall|k: int| 0 <= k < 256 ==> #[trigger] tab_old()[k] == mbit8((k as u32) << 24),
{
    assert(crc_ok(tab_crc(), 256)) by (compute_only);
    assert(old_ok(tab_old(), 256)) by (compute_only);
    assert forall|k: int| 0 <= k < 256 implies #[trigger] tab_crc()[k] == bit8(k as u32) by { crc_ok_at(tab_crc(), 256, k); }
    assert forall|k: int| 0 <= k < 256 implies #[trigger] tab_old()[k] == mbit8((k as u32) << 24) by { old_ok_at(tab_old(), 256, k); }
}
pub proof fn crc_lin(c: u32)
    ensures bit8(c) == (c >> 8) ^ bit8(c & 0xff),
{
    assert(bit8(c) == (c >> 8) ^ bit8(c & 0xff)) by (bit_vector);
}
/// table form of one byte, with the whole unit xor-ed in as the code does
pub proof fn crc_one(c: u32, v: u16)
    ensures crc_byte(c, (v & 0xff) as u8) == (c >> 8) ^ bit8((c ^ (v as u32)) & 0xff),
{
    let b = (v & 0xff) as u8;
    crc_lin(c ^ (b as u32));
    assert(b == (v & 0xff) as u8);
    assert((c ^ (b as u32)) >> 8 == c >> 8 && (c ^ (b as u32)) & 0xff == (c ^ (v as u32)) & 0xff) by (bit_vector) requires b == (v & 0xff) as u8;
}
pub proof fn crc_step(c: u32, v: u16)
    ensures ({
        let c1 = (c >> 8) ^ bit8((c ^ (v as u32)) & 0xff);
        let v2 = v >> 8u16; let v3 = v2 >> 8u16; let v4 = v3 >> 8u16;
        let c2 = (c1 >> 8) ^ bit8((c1 ^ (v2 as u32)) & 0xff);
        let c3 = (c2 >> 8) ^ bit8((c2 ^ (v3 as u32)) & 0xff);
        let c4 = (c3 >> 8) ^ bit8((c3 ^ (v4 as u32)) & 0xff);
        c4 == crc_byte(crc_byte(crc_byte(crc_byte(c, (v & 0xff) as u8), (v >> 8) as u8), 0), 0)
    }),
{
    let v2 = v >> 8u16; let v3 = v2 >> 8u16; let v4 = v3 >> 8u16;
    assert((v2 & 0xff) as u8 == (v >> 8u16) as u8 && v3 == 0 && v4 == 0 && (0u16 & 0xff) as u8 == 0) by (bit_vector)
        requires v2 == v >> 8u16, v3 == v2 >> 8u16, v4 == v3 >> 8u16;
    let c1 = crc_byte(c, (v & 0xff) as u8); crc_one(c, v);
    let c2 = crc_byte(c1, (v2 & 0xff) as u8); crc_one(c1, v2);
    let c3 = crc_byte(c2, (v3 & 0xff) as u8); crc_one(c2, v3);
    crc_one(c3, v4);
}
pub proof fn idx(c: u32) ensures (c & 0xff) < 256 { assert((c & 0xff) < 256) by (bit_vector); }
//@ rewrite \(character as u8 as char\)\.to_uppercase\(\)\.next\(\)\.unwrap\(\) as u16 ==> vx_up(character as u8)
//@ rewrite \(character as u8 as char\)\.to_lowercase\(\)\.next\(\)\.unwrap\(\) as u16 ==> vx_low(character as u8)
//@ rewrite in string\.encode_utf16\(\) ==> in vx_utf16(string)
//@ rewrite string\.encode_utf16\(\)\.map\(to_lower\)\.collect::<Vec<_>>\(\) ==> vx_lowered(string)
//@ rewrite let \(_, (\w+), _\) = unsafe \{ (\w+)\.align_to::<u8>\(\) \}; ==> let \1 = vx_u16_bytes(&\2);
//@ rewrite string\.is_ascii\(\) ==> vx_is_ascii(string)
//@ rewrite CRCTABLE_DEPRECATED\[((?:[^\[\]])*)\] ==> vx_tab_old(\1)
//@ rewrite CRCTABLES_SB8\[0\]\[((?:[^\[\]])*)\] ==> vx_tab_crc(\1)
//@ fn unreal_asset/unreal_asset_base/src/crc.rs - to_upper params=character
    ensures r == upper(character),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/crc.rs - to_lower params=character
    ensures r == lower(character),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/crc.rs - cityhash64_to_lower params=string
    ensures r == city64(le16s(utf16(string@).map_values(|c: u16| lower(c)))),
//@ end
//@ fn unreal_asset/unreal_asset_base/src/crc.rs - generate_hash_deprecated params=string
    ensures r == old_text(string@),
//@ at body-start
    proof { tables(); }
//@ loop 0 it=it
        invariant
            it.seq() == utf16(string@), hash == old_units(utf16(string@).take(it.index() as int), ascii(string@)),
            forall|k: int| 0 <= k < 256 ==> #[trigger] tab_old()[k] == mbit8((k as u32) << 24),
//@ at loop-start 0
        proof {
            let u = utf16(string@); let n = it.index() as int;
            assert(u.take(n + 1).drop_last() =~= u.take(n)); assert(u.take(n + 1).last() == u[n]);
            assert forall|x: u32| (#[trigger] (x & 0xff)) < 256 by { idx(x); }
            assert forall|x: u32| (#[trigger] (x >> 8)) & 0xffffff == x >> 8 by { assert((x >> 8) & 0xffffff == x >> 8) by (bit_vector); }
            let v = upper(u[n]);
            assert(v < 255 ==> (v & 0xff) as u8 == v as u8 && (v >> 8) as u8 == 0) by (bit_vector);
        }
//@ at post-loop 0
    proof { assert(utf16(string@).take(utf16(string@).len() as int) =~= utf16(string@)); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/crc.rs - generate_crc32 params=string,crc
    ensures r == crc_text(string@, crc),
//@ at body-start
    let ghost c0 = crc;
    proof { tables(); }
//@ loop 0 it=it
        invariant
            it.seq() == utf16(string@), crc == crc_units(utf16(string@).take(it.index() as int), !c0),
            forall|k: int| 0 <= k < 256 ==> #[trigger] tab_crc()[k] == bit8(k as u32),
//@ at loop-start 0
        proof {
            let u = utf16(string@); let n = it.index() as int;
            assert(u.take(n + 1).drop_last() =~= u.take(n)); assert(u.take(n + 1).last() == u[n]);
            assert forall|x: u32| (#[trigger] (x & 0xff)) < 256 by { idx(x); }
            let v = u[n];
            crc_step(crc, v);
        }
//@ at post-loop 0
    proof { assert(utf16(string@).take(utf16(string@).len() as int) =~= utf16(string@)); }
//@ end
//@ fn unreal_asset/unreal_asset_base/src/crc.rs - generate_hash params=string
    ensures r == (old_text(string@) & 0xffff) | ((crc_text(string@, 0) & 0xffff) << 16),
//@ end
}
fn main() {}
