//! H01-H04: unreal_helpers.
use crate::rng::Rng;
use crate::Case;
use bitvec::prelude::*;
use std::io::{Cursor, Read, Seek, Write};
use std::str::FromStr;
use unreal_helpers::read_ext::{read_fstring_len, read_fstring_len_noterm};
use unreal_helpers::{game_to_absolute, BitVecExt, Guid, UnrealReadExt, UnrealWriteExt};

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn h01() -> Vec<Case> {
    vec![("strings", strings), ("long_strings", long_strings), ("string_chain", string_chain), ("arrays", arrays), ("array_counts", array_counts), ("flags_guids", flags_guids),
         ("byte_runs", byte_runs), ("malformed", malformed), ("truncated", truncated), ("short_reads", short_reads)]
}
pub fn h02() -> Vec<Case> { vec![("conversions", conversions), ("text", guid_text), ("bad_text", guid_bad), ("json", guid_json), ("stream", flags_guids)] }
pub fn h03() -> Vec<Case> { vec![("mapped", mapped), ("refused", refused), ("extension", extension), ("roundabout", roundabout)] }
pub fn h04() -> Vec<Case> { vec![("range_u8", range_u8), ("range_u32", range_u32), ("range_edges", range_edges)] }

/// stored form, written from the format's definition
pub fn enc(s: Option<&str>) -> Vec<u8> {
    match s {
        None => vec![0; 4],
        Some(s) if s.chars().all(|c| (c as u32) < 0x80) => {
            let mut v = (s.len() as i32 + 1).to_le_bytes().to_vec();
            v.extend(s.bytes());
            v.push(0);
            v
        }
        Some(s) => {
            let mut u: Vec<u16> = vec![];
            for c in s.chars() {
                let c = c as u32;
                if c < 0x10000 { u.push(c as u16) } else { u.push(0xD800 + ((c - 0x10000) >> 10) as u16); u.push(0xDC00 + ((c - 0x10000) & 0x3ff) as u16); }
            }
            let mut v = (-(u.len() as i32) - 1).to_le_bytes().to_vec();
            for x in u { v.extend(x.to_le_bytes()); }
            v.extend([0, 0]);
            v
        }
    }
}
fn check_string(s: Option<&str>, prefix: usize, suffix: &[u8]) -> Result<(), String> {
    let mut c = Cursor::new(vec![0xEEu8; prefix]);
    c.set_position(prefix as u64);
    let n = c.write_fstring(s).map_err(|e| format!("writing {s:?}: {e:?}"))?;
    let want = enc(s);
    need!(c.get_ref()[prefix..] == want[..], "stored form of {s:?} is {:?}, not {:?}", &c.get_ref()[prefix..], want);
    need!(n == want.len(), "write_fstring({s:?}) reported {n} bytes, wrote {}", want.len());
    c.write_all(suffix).unwrap();
    c.set_position(prefix as u64);
    let back = c.read_fstring().map_err(|e| format!("reading back {s:?}: {e:?}"))?;
    need!(back.as_deref() == s, "{s:?} read back as {back:?}");
    need!(c.position() as usize == prefix + want.len(), "reading {s:?} ended at {} not {}", c.position(), prefix + want.len());
    if let Some(t) = s {
        // the two helpers for known lengths
        let wide = !t.is_ascii();
        let len = if wide { t.encode_utf16().count() } else { t.len() } as i32;
        c.set_position(prefix as u64 + 4);
        let b = read_fstring_len(&mut c, len + 1, wide).map_err(|e| format!("read_fstring_len {t:?}: {e:?}"))?;
        need!(b.as_deref() == s && c.position() as usize == prefix + want.len(), "read_fstring_len of {t:?} gave {b:?} at {}", c.position());
        c.set_position(prefix as u64 + 4);
        let b = read_fstring_len_noterm(&mut c, len, wide).map_err(|e| format!("read_fstring_len_noterm {t:?}: {e:?}"))?;
        need!(b.as_deref() == s && c.position() as usize == prefix + want.len() - 1 - wide as usize, "read_fstring_len_noterm of {t:?} gave {b:?} at {}", c.position());
    }
    Ok(())
}
fn strings(r: &mut Rng) -> Result<(), String> {
    let s = match r.below(12) { 0 => None, 1 => Some(String::new()), _ => Some(r.string(40)) };
    let p = r.us(5);
    let sn = r.us(4);
    let suf = r.bytes(sn);
    check_string(s.as_deref(), p, &suf)
}
fn long_strings(r: &mut Rng) -> Result<(), String> {
    let n = match r.below(6) { 0 => 131072, 1 => 131071, 2 => 65536 + r.us(3) - 1, 3 => 32767 + r.us(3), 4 => 255 + r.us(3), _ => r.us(131073) };
    let wide = r.bool();
    let s: String = if wide { "é".repeat(n) } else { "x".repeat(n) };
    check_string(Some(&s), 0, &[])
}
fn string_chain(r: &mut Rng) -> Result<(), String> {
    let n = 1 + r.us(5);
    let v: Vec<Option<String>> = (0..n).map(|_| if r.chance(1, 5) { None } else { Some(r.string(12)) }).collect();
    let mut c = Cursor::new(vec![]);
    let mut total = 0;
    for s in &v { total += c.write_fstring(s.as_deref()).map_err(|e| format!("{e:?}"))?; }
    need!(total == c.get_ref().len(), "reported sizes add up to {total}, wrote {}", c.get_ref().len());
    c.set_position(0);
    for s in &v {
        let b = c.read_fstring().map_err(|e| format!("{s:?}: {e:?}"))?;
        need!(b == *s, "{s:?} in a row read back as {b:?}");
    }
    need!(c.position() as usize == c.get_ref().len(), "bytes left over");
    Ok(())
}
fn arrays(r: &mut Rng) -> Result<(), String> {
    let n = match r.below(5) { 0 => 0, 1 => 1, 2 => 255 + r.us(3), _ => r.us(30) };
    let v: Vec<i32> = (0..n).map(|_| r.i32()).collect();
    let mut c = Cursor::new(vec![]);
    c.write_array(&v, |w, x| w.write_all(&x.to_be_bytes())).map_err(|e| format!("{e:?}"))?;
    let mut want = (n as i32).to_le_bytes().to_vec();
    for x in &v { want.extend(x.to_be_bytes()); }
    need!(*c.get_ref() == want, "array of {n} stored as {:?}", c.get_ref());
    c.write_all(&[9, 9]).unwrap();
    c.set_position(0);
    let mut calls = 0;
    let b = c.read_array(|x| { calls += 1; let mut t = [0; 4]; x.read_exact(&mut t)?; Ok(i32::from_be_bytes(t)) }).map_err(|e| format!("array of {n}: {e:?}"))?;
    need!(b == v && calls == n, "array {v:?} read back as {b:?} with {calls} element reads");
    need!(c.position() as usize == want.len(), "array of {n}: reading ended at {}", c.position());
    // nested: an array of strings
    let v: Vec<String> = (0..r.cnt(6)).map(|_| r.string(8)).collect();
    let mut c = Cursor::new(vec![]);
    c.write_array(&v, |w, x| w.write_fstring(Some(x)).map(|_| ()).map_err(|_| std::io::ErrorKind::Other.into())).map_err(|e| format!("{e:?}"))?;
    c.set_position(0);
    let b = c.read_array(|x| x.read_fstring().map_err(|_| std::io::ErrorKind::Other.into())).map_err(|e| format!("{v:?}: {e:?}"))?;
    need!(b == v.iter().cloned().map(Some).collect::<Vec<_>>(), "{v:?} read back as {b:?}");
    Ok(())
}
/// a count larger than what follows is an error once the bytes run out; an element error stops the reading
fn array_counts(r: &mut Rng) -> Result<(), String> {
    let have = r.us(6);
    let cnt: u32 = match r.below(4) { 0 => u32::MAX, 1 => 0x8000_0000, 2 => have as u32 + 1 + r.below(9) as u32, _ => 0x7fff_ffff };
    let mut b = cnt.to_le_bytes().to_vec();
    b.extend(r.bytes(have));
    let mut c = Cursor::new(b);
    let x = c.read_array(|x| { let mut t = [0; 1]; x.read_exact(&mut t)?; Ok(t[0]) });
    need!(x.is_err(), "an array announcing {cnt} elements with {have} present was accepted");
    Ok(())
}
fn flags_guids(r: &mut Rng) -> Result<(), String> {
    let f = r.bool();
    let mut c = Cursor::new(vec![]);
    c.write_bool(f).unwrap();
    need!(c.get_ref() == &vec![f as u8], "flag {f} stored as {:?}", c.get_ref());
    let mut g = [0u8; 16];
    for x in g.iter_mut() { *x = if r.chance(1, 4) { 0 } else { r.u8() }; }
    c.write_guid(&Guid::new(g)).unwrap();
    need!(c.get_ref()[1..] == g, "guid stored as {:?}", &c.get_ref()[1..]);
    c.write_all(&[7]).unwrap();
    c.set_position(0);
    need!(c.read_bool().unwrap() == f, "flag {f} changed");
    need!(c.read_guid().unwrap() == Guid(g), "guid changed");
    need!(c.position() == 17, "reading a flag and a guid ended at {}", c.position());
    let b = r.u8();
    need!(Cursor::new(vec![b]).read_bool().unwrap() == (b != 0), "flag byte {b} read wrongly");
    let n = r.us(16);
    need!(Cursor::new(r.bytes(n)).read_guid().is_err(), "a guid was read from {n} bytes");
    need!(Cursor::new(Vec::<u8>::new()).read_bool().is_err(), "a flag was read from nothing");
    Ok(())
}
fn byte_runs(r: &mut Rng) -> Result<(), String> {
    let n = match r.below(4) { 0 => 0, 1 => 5000 + r.us(60000), _ => r.us(60) };
    let k = r.us(n + 2);
    let b = r.bytes(n);
    let mut c = Cursor::new(b.clone());
    match c.read_vec(k) {
        Ok(v) => { need!(k <= n && v == b[..k] && c.position() as usize == k, "read_vec({k}) of {n} bytes gave {} bytes at {}", v.len(), c.position()); }
        Err(_) => need!(k > n, "read_vec({k}) of {n} bytes failed"),
    }
    Ok(())
}
/// independent decoder of the stored form: Some(Ok(text, consumed)), or None when the bytes are malformed
fn dec(b: &[u8]) -> Option<(Option<String>, usize)> {
    let n = i32::from_le_bytes(b.get(..4)?.try_into().unwrap());
    if n == 0 { return Some((None, 4)); }
    let (k, wide) = (n.unsigned_abs() as usize, n < 0);
    if k - 1 > 131072 { return None; }
    if wide {
        let body = b.get(4..4 + 2 * k)?;
        let u: Vec<u16> = body.chunks(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect();
        if u[k - 1] != 0 { return None; }
        let s: Option<String> = char::decode_utf16(u[..k - 1].iter().copied()).map(|x| x.ok()).collect();
        Some((Some(s?), 4 + 2 * k))
    } else {
        let body = b.get(4..4 + k)?;
        if body[k - 1] != 0 { return None; }
        Some((Some(std::str::from_utf8(&body[..k - 1]).ok()?.to_string()), 4 + k))
    }
}
fn malformed(r: &mut Rng) -> Result<(), String> {
    let mut b = if r.bool() { let s = r.string(10); enc(Some(&s)) } else { let n = r.us(24); r.bytes(n) };
    for _ in 0..1 + r.us(3) {
        if b.is_empty() { break; }
        match r.below(4) {
            0 => { let n: i32 = match r.below(4) { 0 => r.pick(&[i32::MIN, i32::MAX, -1, 1, 131073, -131073, 131074, -131074, i32::MIN + 1]), _ => r.below(30) as i32 - 15 }; for (i, x) in n.to_le_bytes().iter().enumerate() { if i < b.len() { b[i] = *x; } } }
            1 => { let i = r.us(b.len()); b[i] = r.u8(); }
            2 => { let i = b.len() - 1; b[i] = r.u8(); }
            _ => { let t = r.us(b.len() + 1); b.truncate(t); }
        }
    }
    let want = dec(&b);
    let mut c = Cursor::new(b.clone());
    match (c.read_fstring(), want) {
        (Ok(s), Some((t, n))) => { need!(s == t && c.position() as usize == n, "{b:?} read as {s:?} ending at {}, not {t:?} ending at {n}", c.position()); }
        (Err(_), None) => {}
        (Ok(s), None) => return Err(format!("malformed {b:?} accepted as {s:?}")),
        (Err(e), Some((t, _))) => return Err(format!("{b:?}, which holds {t:?}, refused: {e:?}")),
    }
    // the helpers on any length
    let len = r.i32();
    let w = r.bool();
    if len >= 0 {
        let (a, mut c2) = (r.us(40), Cursor::new(vec![]));
        c2.get_mut().extend(r.bytes(a));
        let _ = read_fstring_len(&mut c2, len, w);
        c2.set_position(0);
        let _ = read_fstring_len_noterm(&mut c2, len, w);
    }
    Ok(())
}
fn truncated(r: &mut Rng) -> Result<(), String> {
    let s = r.string(20);
    let b = enc(Some(&s));
    let k = r.us(b.len());
    let x = Cursor::new(b[..k].to_vec()).read_fstring();
    need!(x.is_err(), "{s:?} cut to {k} bytes read as {x:?}");
    Ok(())
}
/// a device that hands out few bytes per call
struct Slow(Cursor<Vec<u8>>, usize);
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }
impl Seek for Slow { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
impl Write for Slow { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.write(&b[..n]) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn short_reads(r: &mut Rng) -> Result<(), String> {
    let s = r.string(30);
    let k = 1 + r.us(5);
    let mut d = Slow(Cursor::new(vec![]), k);
    let n = d.write_fstring(Some(&s)).map_err(|e| format!("{e:?}"))?;
    need!(d.0.get_ref()[..] == enc(Some(&s))[..] && n == d.0.get_ref().len(), "{s:?} written in pieces of {k} is {:?} ({n})", d.0.get_ref());
    d.0.set_position(0);
    let b = d.read_fstring().map_err(|e| format!("{s:?} in pieces of {k}: {e:?}"))?;
    need!(b.as_deref() == Some(&s[..]), "{s:?} read in pieces of {k} as {b:?}");
    let v = r.bytes(20);
    let mut d = Slow(Cursor::new(v.clone()), k);
    need!(d.read_vec(20).unwrap() == v, "byte run read in pieces of {k}");
    d.0.set_position(0);
    need!(d.read_guid().unwrap().0[..] == v[..16], "guid read in pieces of {k}");
    Ok(())
}

// ---------------------------------------------------------------- H02
fn guid(r: &mut Rng) -> [u8; 16] {
    let mut g = [0u8; 16];
    match r.below(5) {
        0 => { let i = r.us(16); g[i] = 1 + r.below(255) as u8; }
        1 => { for x in g.iter_mut() { *x = if r.bool() { 0 } else { r.u8() }; } }
        2 => { for x in g.iter_mut() { *x = r.pick(&[0u8, 0x0f, 0xf0, 0xff, 0x7f, 0x80, 1]); } }
        3 if r.chance(1, 4) => {}
        _ => { for x in g.iter_mut() { *x = r.u8(); } }
    }
    g
}
fn conversions(r: &mut Rng) -> Result<(), String> {
    let g = guid(r);
    let w = |i: usize| u32::from_le_bytes(g[4 * i..4 * i + 4].try_into().unwrap());
    let words: (u32, u32, u32, u32) = Guid(g).into();
    need!(words == (w(0), w(1), w(2), w(3)), "{g:?} as words is {words:x?}");
    need!(Guid::from(words) == Guid(g), "{g:?} from words is {:?}", Guid::from(words).0);
    need!(Guid::from_ints(words.0, words.1, words.2, words.3) == Guid(g), "from_ints of {words:x?}");
    let i: u128 = Guid(g).into();
    need!(i == u128::from_le_bytes(g), "{g:?} as integer is {i:x}");
    need!(Guid::from(i) == Guid(g), "{g:?} from integer is {:?}", Guid::from(i).0);
    let a: [u8; 16] = Guid::from(g).into();
    need!(a == g && Guid::new(g).0 == g, "{g:?} as array is {a:?}");
    need!(Guid(g).is_zero() == (g == [0; 16]), "is_zero of {g:?}");
    let h = guid(r);
    need!((Guid(g) == Guid(h)) == (g == h), "equality of {g:?} and {h:?}");
    Ok(())
}
fn hex(g: &[u8; 16]) -> String { g.iter().map(|b| format!("{}{}", char::from_digit((b >> 4) as u32, 16).unwrap().to_ascii_uppercase(), char::from_digit((b & 15) as u32, 16).unwrap().to_ascii_uppercase())).collect() }
fn dashed(g: &[u8; 16]) -> String { let h = hex(g); format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..]) }
fn guid_text(r: &mut Rng) -> Result<(), String> {
    let g = guid(r);
    let t = Guid(g).to_string();
    let want = if g == [0; 16] { "0".to_string() } else { dashed(&g) };
    need!(t == want, "{g:?} prints as {t}, not {want}");
    need!(Guid::from_str(&t).map_err(|_| "refused")? == Guid(g), "{t} parses to another guid");
    need!(format!("{:?}", Guid(g)) == format!("Guid({t})"), "debug form of {t}");
    let mut s = if r.bool() { dashed(&g) } else { hex(&g) };
    if r.bool() { s = s.to_lowercase(); }
    if r.chance(1, 3) { s = s.chars().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c }).collect(); }
    if r.chance(1, 3) { s = format!("{{{s}}}"); }
    if r.chance(1, 3) { s = format!("{}{s}{}", " ".repeat(r.us(3)), " ".repeat(r.us(3))); }
    let p = Guid::from_str(&s).map_err(|_| format!("{s:?} refused"))?;
    need!(p == Guid(g), "{s:?} parses to {p}, not {}", Guid(g));
    Ok(())
}
/// what the text spells, from the definition: hex digits with dashes ignored, one pair of braces, outer blanks
fn spelled(s: &str) -> Option<Option<[u8; 16]>> {
    let t: String = s.chars().filter(|c| *c != '-').collect();
    let t = t.trim();
    // one brace each side may be left out in the current code; only balanced or absent braces are prescribed
    let inner = match (t.starts_with('{'), t.ends_with('}')) {
        (true, true) if t.len() >= 2 => &t[1..t.len() - 1],
        (false, false) => t,
        _ => return None,
    };
    if inner == "0" { return Some(Some([0; 16])); }
    let d: Option<Vec<u8>> = inner.chars().map(|c| if c.is_ascii() { c.to_digit(16).map(|x| x as u8) } else { None }).collect();
    match d { Some(d) if d.len() == 32 => { let mut g = [0; 16]; for i in 0..16 { g[i] = d[2 * i] * 16 + d[2 * i + 1]; } Some(Some(g)) } _ => Some(None) }
}
fn guid_bad(r: &mut Rng) -> Result<(), String> {
    let g = guid(r);
    let mut s: Vec<char> = if r.bool() { dashed(&g) } else { hex(&g) }.chars().collect();
    for _ in 0..1 + r.us(3) {
        let i = r.us(s.len() + 1);
        match r.below(5) {
            0 if i < s.len() => { s.remove(i); }
            1 => { let c = r.pick(&['0', 'F', 'g', '+', '-', ' ', 'é', '{', '}', '\u{1F600}', 'x', '٣', '\n']); s.insert(i, c); }
            2 if i < s.len() => { s[i] = r.pick(&['+', 'G', 'z', 'é', '₀', ' ', '/', ':', '@', '`', '\0', '０']); }
            3 => { let n = r.us(s.len() + 1); s.truncate(n); }
            _ => { let c = r.ch(); s.insert(i, c); }
        }
    }
    let s: String = if r.chance(1, 6) { r.string(40) } else { s.into_iter().collect() };
    let got = Guid::from_str(&s).ok().map(|g| g.0);
    if let Some(w) = spelled(&s) { need!(got == w, "{s:?} parses to {got:?}, spells {w:?}"); }
    Ok(())
}
fn guid_json(r: &mut Rng) -> Result<(), String> {
    let g = guid(r);
    let j = serde_json::to_string(&Guid(g)).map_err(|e| e.to_string())?;
    need!(j == format!("\"{}\"", Guid(g)), "{} is stored as {j}", Guid(g));
    let b: Guid = serde_json::from_str(&j).map_err(|e| format!("{j}: {e}"))?;
    need!(b == Guid(g), "{j} loads as {b}");
    let b: Guid = serde_json::from_value(serde_json::to_value(Guid(g)).unwrap()).map_err(|e| format!("{j}: {e}"))?;
    need!(b == Guid(g), "{j} loads as {b}");
    for bad in ["\"\"", "1", "null", "\"zz\"", "[]"] { need!(serde_json::from_str::<Guid>(bad).is_err(), "{bad} accepted as a guid"); }
    Ok(())
}

// ---------------------------------------------------------------- H03
fn comp(r: &mut Rng) -> String {
    let s: String = match r.below(5) { 0 => r.string(8), 1 => "Game".into(), 2 => "a$1b".into(), _ => r.ascii(8) };
    let s: String = s.chars().filter(|c| *c != '/' && *c != '\0').collect();
    if s.is_empty() || s == "." || s == ".." { "x".into() } else { s }
}
/// does a plain file name have an extension: a dot that is not its first character
fn has_ext(name: &str) -> bool { name.rfind('.').map_or(false, |i| i > 0) }
fn game(r: &mut Rng) -> String {
    match r.below(6) { 0 => "TestGame".into(), 1 => r.pick(&["$0", "A$1B", "${x}", "$$", "a.b", "", "My Game"]).to_string(), _ => comp(r) }
}
fn expect_map(g: &str, rest: &str) -> String {
    let last = rest.rsplit('/').next().unwrap();
    format!("{g}/Content/{rest}{}", if has_ext(last) { "" } else { ".uasset" })
}
fn mapped(r: &mut Rng) -> Result<(), String> {
    let g = game(r);
    let n = 1 + r.us(4);
    let rest = (0..n).map(|_| comp(r)).collect::<Vec<_>>().join("/");
    let p = format!("/Game/{rest}");
    let got = game_to_absolute(&g, &p);
    let want = expect_map(&g, &rest);
    need!(got.as_deref() == Some(&want[..]), "{p:?} in game {g:?} maps to {got:?}, not {want:?}");
    Ok(())
}
fn extension(r: &mut Rng) -> Result<(), String> {
    let base = r.pick(&["a", "Item", ".hidden", "x y", "a.b", "..a", "é", "Game", "a.uasset", "uasset"]).to_string();
    let ext = r.pick(&["", ".umap", ".uasset", ".uexp", ".", ".x", ".UASSET", "._", ".b.c"]).to_string();
    let dir = r.pick(&["", "Maps/", "a.b/", ".c/", "Game/", "x/y.z/"]).to_string();
    let rest = format!("{dir}{base}{ext}");
    let g = game(r);
    let got = game_to_absolute(&g, &format!("/Game/{rest}"));
    let want = expect_map(&g, &rest);
    need!(got.as_deref() == Some(&want[..]), "/Game/{rest} in game {g:?} maps to {got:?}, not {want:?}");
    Ok(())
}
fn refused(r: &mut Rng) -> Result<(), String> {
    let p = match r.below(5) {
        0 => r.string(20),
        1 => format!("{}/Game/{}", r.pick(&["x", " ", "/", "\n", "/Engine", "Game", "x\n"]), comp(r)),
        2 => format!("{}{}", r.pick(&["/Game", "Game/", "/game/", "/GAME/", "//Game/", "/Game\\", "/Engine/", "/Script/", "/Games/", ""]), comp(r)),
        3 => { let mut s: Vec<char> = format!("/Game/{}", comp(r)).chars().collect(); let i = r.us(6); let c = r.ch(); if s[i] == c { s.remove(i); } else { s[i] = c; } s.into_iter().collect() }
        _ => { let s = format!("/Game/{}", comp(r)); s[1 + r.us(5)..].to_string() }
    };
    if p.starts_with("/Game/") { return Ok(()); }
    let g = game(r);
    let got = game_to_absolute(&g, &p);
    need!(got.is_none(), "{p:?}, outside the game root, maps to {got:?}");
    Ok(())
}
/// the root occurring again inside the path is left alone
fn roundabout(r: &mut Rng) -> Result<(), String> {
    let rest = format!("{}/Game/{}", comp(r), comp(r));
    let g = game(r);
    let got = game_to_absolute(&g, &format!("/Game/{rest}"));
    let want = expect_map(&g, &rest);
    need!(got.as_deref() == Some(&want[..]), "/Game/{rest} maps to {got:?}, not {want:?}");
    Ok(())
}

// ---------------------------------------------------------------- H04
fn range<T: BitStore, O: BitOrder>(r: &mut Rng, edge: bool) -> Result<(), String> {
    let n = if edge { r.pick(&[0usize, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65]) } else { r.us(150) };
    let m = if edge { r.pick(&[0usize, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65]) } else { r.us(150) };
    let mut a: BitVec<T, O> = (0..n).map(|_| r.bool()).collect();
    let b: BitVec<T, O> = (0..m).map(|_| r.bool()).collect();
    let at = r.us(n + 1);
    let num = if edge { n - at } else { r.us(n - at + 1) };
    let off = match r.below(4) { 0 => 0, 1 => r.us(m + 1), 2 => m + r.us(5), _ => r.us(200) };
    let before: Vec<bool> = a.iter().map(|x| *x).collect();
    let src: Vec<bool> = b.iter().map(|x| *x).collect();
    a.set_range_from_range(at as i32, num as i32, &b, off as i32);
    need!(a.len() == n, "length changed from {n} to {}", a.len());
    for i in 0..n {
        let want = if i >= at && i < at + num { src.get(off + i - at).copied().unwrap_or(false) } else { before[i] };
        need!(a[i] == want, "copying {num} bits from {off} of {m} to {at} of {n}: bit {i} is {}, should be {want}", a[i]);
    }
    need!(b.iter().map(|x| *x).collect::<Vec<_>>() == src, "source changed");
    Ok(())
}
fn range_u8(r: &mut Rng) -> Result<(), String> { if r.bool() { range::<u8, Lsb0>(r, false) } else { range::<u8, Msb0>(r, false) } }
fn range_u32(r: &mut Rng) -> Result<(), String> { if r.bool() { range::<u32, Lsb0>(r, false) } else { range::<usize, Msb0>(r, false) } }
fn range_edges(r: &mut Rng) -> Result<(), String> { if r.bool() { range::<u8, Lsb0>(r, true) } else { range::<u32, Lsb0>(r, true) } }
