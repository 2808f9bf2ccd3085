//! N02 (name hashes) and A02 (AC7 encryption).
use crate::rng::Rng;
use crate::Case;
use unreal_asset::ac7::{self, AC7XorKey};
use unreal_asset_base::crc;

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn n02() -> Vec<Case> {
    vec![("name_hash", name_hash), ("name_hash_wide", name_hash_wide), ("name_hash_edges", name_hash_edges), ("case", case_blind), ("city", city)]
}
pub fn a02() -> Vec<Case> {
    vec![("there_and_back", there_and_back), ("stream", stream), ("long", long), ("parts", parts), ("tiny", tiny)]
}

fn up(c: u16) -> u16 { if (97..=122).contains(&c) { c - 32 } else { c } }
fn low(c: u16) -> u16 { if (65..=90).contains(&c) { c + 32 } else { c } }
/// CRC-32 over 32-bit units, bit by bit
fn crc32(u: &[u16]) -> u32 {
    let mut c = !0u32;
    for v in u {
        for b in (*v as u32).to_le_bytes() {
            c ^= b as u32;
            for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 }; }
        }
    }
    !c
}
/// legacy hash, bit by bit
fn legacy(u: &[u16], narrow: bool) -> u32 {
    let mut h = 0u32;
    let mut byte = |b: u8| {
        let mut t = ((h ^ b as u32) & 0xff) << 24;
        for _ in 0..8 { t = if t & 0x8000_0000 != 0 { (t << 1) ^ 0x04C11DB7 } else { t << 1 }; }
        h = (h >> 8) ^ t;
    };
    for v in u {
        let v = up(*v);
        byte(v as u8);
        if !narrow { byte((v >> 8) as u8); }
    }
    h
}
fn check_hash(s: &str) -> Result<(), String> {
    let u: Vec<u16> = s.encode_utf16().collect();
    let narrow = s.bytes().all(|b| b < 128);
    let want = (legacy(&u, narrow) & 0xffff) | (crc32(&u) << 16);
    need!(crc::generate_hash(s) == want, "hash of {s:?} is {:#x}, not {want:#x}", crc::generate_hash(s));
    let l: Vec<u8> = u.iter().flat_map(|c| low(*c).to_le_bytes()).collect();
    let want = naive_cityhash::cityhash64(&l);
    need!(crc::cityhash64_to_lower(s) == want, "64-bit hash of {s:?} is {:#x}, not {want:#x}", crc::cityhash64_to_lower(s));
    Ok(())
}
fn name_hash(r: &mut Rng) -> Result<(), String> { let s = r.string(60); check_hash(&s) }
fn name_hash_wide(r: &mut Rng) -> Result<(), String> {
    let n = 1 + r.us(12);
    let s: String = (0..n).map(|_| r.ch()).collect();
    check_hash(&s)
}
/// one unit of every value, alone and next to others
fn name_hash_edges(r: &mut Rng) -> Result<(), String> {
    let c = loop {
        let v = match r.below(3) { 0 => r.below(0x100), 1 => r.below(0x600), _ => r.below(0x110000) } as u32;
        if let Some(c) = char::from_u32(v) { break c; }
    };
    let mut s = r.ascii(3);
    s.push(c);
    if r.bool() { s += &r.ascii(3); }
    check_hash(&s)?;
    check_hash(&c.to_string())
}
fn case_blind(r: &mut Rng) -> Result<(), String> {
    let s = r.string(20);
    let t: String = s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    need!(crc::cityhash64_to_lower(&s) == crc::cityhash64_to_lower(&t), "64-bit hashes of {s:?} and {t:?} differ");
    need!(crc::generate_hash(&s) & 0xffff == crc::generate_hash(&t) & 0xffff, "legacy halves of {s:?} and {t:?} differ");
    need!(crc::generate_hash(&s) == crc::generate_hash(&s.clone()), "hash of {s:?} is not a function");
    check_hash(&t)
}
fn city(r: &mut Rng) -> Result<(), String> {
    let n = r.us(90);
    let s: String = (0..n).map(|_| (32 + r.below(95) as u8) as char).collect();
    check_hash(&s)
}

static KEY: &[u8] = include_bytes!("/repo/unreal_asset/vendor/AC7Key.bin");
fn name_key(name: &str) -> u32 {
    let mut n = 0u32;
    for b in name.to_uppercase().bytes() {
        n ^= b as u32;
        let bit = !(((n << 3) ^ n) >> 7) & 1;
        n = (n << 1) | bit;
    }
    n
}
struct Stream { a: usize, b: usize }
impl Stream {
    fn new(name: &str) -> Self {
        let k = name_key(name) as u64;
        Stream { a: ((k * 7 + 4) % 217) as usize, b: ((k * 11 + 4) % 1024) as usize }
    }
    fn next(&mut self) -> u8 {
        let v = KEY[self.a * 1024 + self.b] ^ 0x77;
        self.a = (self.a + 1) % 217;
        self.b = (self.b + 1) % 1024;
        v
    }
}
fn name(r: &mut Rng) -> String {
    match r.below(5) { 0 => String::new(), 1 => r.ascii(300), 2 => "plwp_6aam_a0".into(), _ => r.string(40) }
}
fn both(n: &str, a: &[u8], b: &[u8]) -> Result<(), String> {
    let k = AC7XorKey::new(n);
    let (ea, eb) = ac7::encrypt(a, b, k);
    let mut s = Stream::new(n);
    let mut wa: Vec<u8> = a.to_vec();
    let mut wb: Vec<u8> = b.to_vec();
    for (i, x) in wa.iter_mut().enumerate() { *x = if i < 4 { b"ACE7"[i] } else { *x ^ s.next() }; }
    for x in wb.iter_mut() { *x ^= s.next(); }
    need!(ea == wa, "encrypting {} bytes under {n:?}: first difference at {:?}", a.len(), (0..a.len()).find(|i| ea.get(*i) != wa.get(*i)));
    need!(eb == wb, "encrypting {} bulk bytes under {n:?}: first difference at {:?}", b.len(), (0..b.len()).find(|i| eb.get(*i) != wb.get(*i)));
    let (da, db) = ac7::decrypt(&ea, &eb, k);
    let m = a.len().min(4);
    need!(da[..m] == [0xC1, 0x83, 0x2A, 0x9E][..m], "tag after decrypting is {:x?}", &da[..m]);
    need!(da.len() == a.len() && da[m..] == a[m..], "{} bytes under {n:?} did not come back", a.len());
    need!(db == b, "{} bulk bytes under {n:?} did not come back", b.len());
    Ok(())
}
fn there_and_back(r: &mut Rng) -> Result<(), String> {
    let n = name(r);
    let (x, y) = (r.us(300), r.us(300));
    let (a, b) = (r.bytes(x), r.bytes(y));
    both(&n, &a, &b)
}
fn long(r: &mut Rng) -> Result<(), String> {
    let n = name(r);
    let (x, y) = (r.us(3000), r.us(3000));
    both(&n, &vec![r.u8(); x], &vec![r.u8(); y])?;
    if r.chance(1, 60) { both(&n, &vec![0; 217 * 1024 + 1100], &vec![1; 217 * 1024 + 5])?; }
    Ok(())
}
fn tiny(r: &mut Rng) -> Result<(), String> {
    let n = name(r);
    let (x, y) = (r.us(7), r.us(3));
    let (a, b) = (r.bytes(x), r.bytes(y));
    both(&n, &a, &b)
}
/// the parts one after the other, with the key carried over
fn parts(r: &mut Rng) -> Result<(), String> {
    let n = name(r);
    let (x, y) = (r.us(40), r.us(40));
    let (a, b) = (r.bytes(x), r.bytes(y));
    let mut k = AC7XorKey::new(&n);
    let ea = ac7::encrypt_uasset(&a, &mut k);
    let mid = k;
    let eb = ac7::encrypt_uexp(&b, &mut k);
    need!((ea.clone(), eb.clone()) == ac7::encrypt(&a, &b, AC7XorKey::new(&n)), "encrypting {n:?} in parts differs");
    let mut k2 = AC7XorKey::new(&n);
    let da = ac7::decrypt_uasset(&ea, &mut k2);
    need!(k2 == mid, "the key after {} bytes depends on direction", a.len());
    let db = ac7::decrypt_uexp(&eb, &mut k2);
    need!(k2 == k, "the key after {}+{} bytes depends on direction", a.len(), b.len());
    need!((da, db) == ac7::decrypt(&ea, &eb, AC7XorKey::new(&n)), "decrypting {n:?} in parts differs");
    Ok(())
}
/// the key stream does not depend on the data
fn stream(r: &mut Rng) -> Result<(), String> {
    let n = name(r);
    let x = r.us(600);
    let (a, b) = (r.bytes(x), r.bytes(x));
    let f = |d: &[u8]| ac7::encrypt(&[], d, AC7XorKey::new(&n)).1.iter().zip(d).map(|(p, q)| p ^ q).collect::<Vec<u8>>();
    need!(f(&a) == f(&b), "the key stream of {n:?} depends on the data");
    both(&n, &a, &b)
}
