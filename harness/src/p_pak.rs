//! P01 / P02: pak archives.  The oracle is an independent reader of the pak layout.
use crate::rng::Rng;
use crate::Case;
use sha1::{Digest, Sha1};
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use unreal_pak::pakversion::PakVersion;
use unreal_pak::{PakMemory, PakReader, PakWriter};

pub fn roundtrip_cases() -> Vec<Case> {
    vec![
        ("writer_reader", writer_reader),
        ("memory", memory),
        ("decoy_magic", decoy_magic),
        ("tiny", tiny),
        ("multi_block", multi_block),
        ("embedded_stream", embedded_stream),
        ("double_write", double_write),
        ("foreign_index", foreign_index),
        ("version_numbers", version_numbers),
        ("reload_merge", reload_merge),
    ]
}
pub fn layout_cases() -> Vec<Case> {
    vec![("layout", layout), ("layout_memory", layout_memory), ("layout_blocks", layout_blocks)]
}

const VERSIONS: [PakVersion; 10] = [
    PakVersion::Initial,
    PakVersion::NoTimestamps,
    PakVersion::CompressionEncryption,
    PakVersion::IndexEncryption,
    PakVersion::RelativeChunkOffsets,
    PakVersion::DeleteRecords,
    PakVersion::EncryptionKeyGuid,
    PakVersion::FnameBasedCompressionMethodInitial,
    PakVersion::FnameBasedCompressionMethod,
    PakVersion::FrozenIndex,
];

fn content(r: &mut Rng, bs: usize) -> Vec<u8> {
    let n = match r.below(7) {
        0 => r.us(3),
        1 => 29 + r.us(8),
        2 => bs.min(3000),
        3 => (bs.min(3000) + 1).saturating_sub(2 * r.us(2)),
        4 => (bs.min(700)) * (1 + r.us(4)) + r.us(3),
        5 => r.us(400),
        _ => r.us(3000),
    };
    r.bytes(n)
}
fn name(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.string(12),
        1 => format!("Game/Content/{}.uasset", r.ascii(20)),
        2 => "a".repeat(1 + r.us(300)),
        3 => format!("{}é{}", r.ascii(5), r.ascii(5)),
        _ => format!("d{}/f{}", r.below(3), r.below(50)),
    }
}
fn e<T, E: std::fmt::Debug>(what: &str, x: Result<T, E>) -> Result<T, String> {
    x.map_err(|e| format!("{what} failed: {e:?}"))
}

struct Spec {
    v: PakVersion,
    mount: String,
    bs: u32,
    files: Vec<(String, Vec<u8>, bool)>,
    base: usize,
}
fn gen(r: &mut Rng) -> Spec {
    let v = r.pick(&VERSIONS);
    let bs = match r.below(5) {
        0 => 0x10000,
        1 => 1 + r.below(40) as u32,
        2 => 64,
        3 => 1000,
        _ => 1 + r.below(5000) as u32,
    };
    let n = r.us(7);
    let mut seen = std::collections::BTreeSet::new();
    let mut files = vec![];
    for _ in 0..n {
        let nm = name(r);
        if seen.insert(nm.clone()) {
            let c = r.bool() && v >= PakVersion::CompressionEncryption;
            files.push((nm, content(r, bs as usize), c));
        }
    }
    Spec { v, mount: if r.bool() { "../../../".into() } else { r.string(20) }, bs, files, base: 0 }
}
fn write(s: &Spec, out: &mut Cursor<Vec<u8>>) -> Result<(), String> {
    out.set_position(s.base as u64);
    let mut w = PakWriter::new(&mut *out, s.v);
    w.mount_point = s.mount.clone();
    w.block_size = s.bs;
    for (n, d, c) in &s.files {
        e(&format!("write_entry {n:?} ({} bytes, compress={c}, block_size={}, {:?})", d.len(), s.bs, s.v), w.write_entry(n, d, *c))?;
    }
    e("finish_write", w.finish_write())
}
fn num(v: PakVersion) -> u32 {
    // the numbers Unreal stores in the footer
    match v {
        PakVersion::Initial => 1,
        PakVersion::NoTimestamps => 2,
        PakVersion::CompressionEncryption => 3,
        PakVersion::IndexEncryption => 4,
        PakVersion::RelativeChunkOffsets => 5,
        PakVersion::DeleteRecords => 6,
        PakVersion::EncryptionKeyGuid => 7,
        PakVersion::FnameBasedCompressionMethodInitial | PakVersion::FnameBasedCompressionMethod => 8,
        PakVersion::FrozenIndex => 9,
        PakVersion::PathHashIndex => 10,
        PakVersion::Fnv64BugFix => 11,
        PakVersion::Invalid => 0,
    }
}
fn version_numbers(r: &mut Rng) -> Result<(), String> {
    for v in VERSIONS.iter().chain([PakVersion::PathHashIndex, PakVersion::Fnv64BugFix].iter()) {
        if v.to_num() != num(*v) {
            return Err(format!("{v:?}.to_num() = {}", v.to_num()));
        }
        let back = PakVersion::from_num(num(*v));
        let want = if *v == PakVersion::FnameBasedCompressionMethodInitial { PakVersion::FnameBasedCompressionMethod } else { *v };
        if back != want {
            return Err(format!("from_num({}) = {back:?}", num(*v)));
        }
    }
    let n = if r.bool() { 12 + r.below(300) as u32 } else { r.u32() | 0x10 };
    if PakVersion::from_num(n) != PakVersion::Invalid || PakVersion::from_num(0) != PakVersion::Invalid {
        return Err(format!("unknown number {n} accepted"));
    }
    Ok(())
}
fn check(s: &Spec, bytes: &[u8], r: &mut Rng) -> Result<(), String> {
    let want: BTreeMap<String, Vec<u8>> = s.files.iter().map(|f| (f.0.clone(), f.1.clone())).collect();
    let mut rd = PakReader::new(Cursor::new(bytes.to_vec()));
    e(&format!("load_index ({:?}, {} bytes)", s.v, bytes.len()), rd.load_index())?;
    if rd.mount_point != s.mount {
        return Err(format!("mount point {:?} came back as {:?}", s.mount, rd.mount_point));
    }
    let mut names: Vec<String> = rd.get_entry_names().into_iter().cloned().collect();
    names.sort();
    if names != want.keys().cloned().collect::<Vec<_>>() {
        return Err(format!("{:?}: names {:?} came back as {names:?}", s.v, want.keys()));
    }
    // any order, repeatedly
    let mut order: Vec<&String> = want.keys().collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.us(i + 1));
    }
    for _ in 0..2 {
        for n in &order {
            if !rd.contains_entry(n) {
                return Err(format!("contains_entry({n:?}) is false"));
            }
            let got = e(&format!("read_entry {n:?} {:?}", s.v), rd.read_entry(n))?;
            if got != want[*n] {
                return Err(diff(s.v, n, &want[*n], &got));
            }
        }
    }
    let absent = "no such entry/".to_string();
    if rd.contains_entry(&absent) || rd.read_entry(&absent).is_ok() {
        return Err("an absent entry is found".into());
    }
    let mut seen = BTreeMap::new();
    for (n, d) in rd.iter() {
        seen.insert(n.clone(), e("iter", d)?);
    }
    if seen != want {
        return Err(format!("PakReader::iter differs ({:?})", s.v));
    }
    let m = e("PakMemory::load_from", PakMemory::load_from(&mut Cursor::new(bytes.to_vec())))?;
    let got: BTreeMap<String, Vec<u8>> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    if got != want || m.mount_point != s.mount || num(m.pak_version) != num(s.v) || m.pak_version != s.v {
        return Err(format!("PakMemory::load_from differs ({:?} -> {:?})", s.v, m.pak_version));
    }
    for n in want.keys() {
        if m.get_entry(n) != want.get(n) || !m.contains_entry(n) {
            return Err(format!("PakMemory::get_entry({n:?}) differs"));
        }
    }
    let mn: Vec<String> = m.get_entry_names().into_iter().cloned().collect();
    if mn != want.keys().cloned().collect::<Vec<_>>() || m.contains_entry(&absent) {
        return Err("PakMemory names differ".into());
    }
    // and once more through PakMemory::write
    let mut out = Cursor::new(vec![]);
    e("PakMemory::write", m.write(&mut out))?;
    let m2 = e("reload", PakMemory::load_from(&mut Cursor::new(out.into_inner())))?;
    let got: BTreeMap<String, Vec<u8>> = m2.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    if got != want || m2.mount_point != s.mount || m2.pak_version != s.v {
        return Err(format!("a pak written by PakMemory reads back differently ({:?})", s.v));
    }
    Ok(())
}
fn diff(v: PakVersion, n: &str, a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y);
    format!("{v:?}: entry {n:?}: wrote {} bytes, read {} bytes, first difference at {at:?}", a.len(), b.len())
}
fn writer_reader(r: &mut Rng) -> Result<(), String> {
    let s = gen(r);
    let mut out = Cursor::new(vec![]);
    write(&s, &mut out)?;
    check(&s, &out.into_inner(), r)
}
fn tiny(r: &mut Rng) -> Result<(), String> {
    let mut s = gen(r);
    s.files.truncate(r.us(2));
    if r.bool() {
        s.files = vec![("a".into(), vec![], false)];
    }
    s.mount = String::new();
    let mut out = Cursor::new(vec![]);
    write(&s, &mut out)?;
    check(&s, &out.into_inner(), r)
}
fn multi_block(r: &mut Rng) -> Result<(), String> {
    let mut s = gen(r);
    s.v = r.pick(&VERSIONS[2..]);
    s.bs = 1 + r.below(200) as u32;
    s.files = (0..2 + r.us(3)).map(|i| { let k = 32 + r.us(900); (format!("f{i}"), r.bytes(k), true) }).collect();
    let mut out = Cursor::new(vec![]);
    write(&s, &mut out)?;
    check(&s, &out.into_inner(), r)
}
fn decoy_magic(r: &mut Rng) -> Result<(), String> {
    // names and data that contain the footer magic followed by a version number
    let mut s = gen(r);
    let decoy: String = ['\u{12E1}', '\u{5A6F}'].iter().collect::<String>() + &match r.below(3) { 0 => "\u{8}\u{0}".to_string(), 1 => "\u{9}\u{0}".to_string(), _ => String::new() };
    let pad = r.us(60);
    s.files.push((format!("{}{decoy}{}", "x".repeat(r.us(3)), "z".repeat(pad)), vec![0xE1, 0x12, 0x6F, 0x5A, 8, 0, 0, 0], false));
    let mut names = std::collections::BTreeSet::new();
    s.files.retain(|f| names.insert(f.0.clone()));
    s.mount = decoy.clone() + &"q".repeat(r.us(70));
    let mut out = Cursor::new(vec![]);
    write(&s, &mut out)?;
    check(&s, &out.into_inner(), r)
}
fn embedded_stream(r: &mut Rng) -> Result<(), String> {
    // the writer starts in the middle of a stream
    let mut s = gen(r);
    s.base = r.us(500);
    let mut out = Cursor::new(vec![0xAB; s.base]);
    write(&s, &mut out)?;
    check(&s, &out.into_inner(), r)
}
fn memory(r: &mut Rng) -> Result<(), String> {
    let s = gen(r);
    let mut m = PakMemory::new(s.v);
    m.mount_point = s.mount.clone();
    m.block_size = s.bs;
    let mut want = BTreeMap::new();
    for (n, d, _) in &s.files {
        m.set_entry(n.clone(), d.clone());
        want.insert(n.clone(), d.clone());
        if r.chance(1, 3) {
            let d2 = content(r, s.bs as usize);
            m.set_entry(n.clone(), d2.clone());
            want.insert(n.clone(), d2);
        }
    }
    let mut out = Cursor::new(vec![]);
    e("PakMemory::write", m.write(&mut out))?;
    let s2 = Spec { files: want.into_iter().map(|(a, b)| (a, b, false)).collect(), ..s };
    check(&s2, &out.into_inner(), r)
}
fn reload_merge(r: &mut Rng) -> Result<(), String> {
    // loading a compressed pak, changing entries and writing it again keeps everything else
    let s = gen(r);
    let mut out = Cursor::new(vec![]);
    write(&s, &mut out)?;
    // what is loaded joins what is there already and replaces entries of the same name
    let mut m = PakMemory::new(r.pick(&VERSIONS));
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for i in 0..r.us(4) {
        let n = if !s.files.is_empty() && r.bool() { s.files[r.us(s.files.len())].0.clone() } else { format!("old{i}") };
        let d = content(r, 64);
        m.set_entry(n.clone(), d.clone());
        want.insert(n, d);
    }
    e("load", m.load(&mut Cursor::new(out.into_inner())))?;
    want.extend(s.files.iter().map(|f| (f.0.clone(), f.1.clone())));
    for (n, d) in &want {
        if m.get_entry(n) != Some(d) { return Err(format!("{n:?} has changed or is lost after load")); }
    }
    m.block_size = 1 + r.below(300) as u32;
    for i in 0..1 + r.us(3) {
        let n = if !want.is_empty() && r.bool() { want.keys().nth(r.us(want.len())).unwrap().clone() } else { format!("new{i}") };
        let d = content(r, 64);
        m.set_entry(n.clone(), d.clone());
        want.insert(n, d);
    }
    let mut out = Cursor::new(vec![]);
    e("write", m.write(&mut out))?;
    let s2 = Spec { files: want.into_iter().map(|(a, b)| (a, b, false)).collect(), ..s };
    check(&s2, &out.into_inner(), r)
}
fn double_write(r: &mut Rng) -> Result<(), String> {
    let mut s = gen(r);
    if s.files.is_empty() {
        s.files.push(("x".into(), vec![1, 2, 3], false));
    }
    let mut out = Cursor::new(vec![]);
    {
        let mut w = PakWriter::new(&mut out, s.v);
        w.mount_point = s.mount.clone();
        w.block_size = s.bs;
        for i in 0..s.files.len() {
            let (n, d, c) = &s.files[i];
            e("write_entry", w.write_entry(n, d, *c))?;
            let k = r.us(i + 1);
            let other = content(r, 64);
            if w.write_entry(&s.files[k].0, &other, *c).is_ok() {
                return Err(format!("a second entry {:?} was accepted", s.files[k].0));
            }
        }
        let mut names: Vec<String> = w.get_entry_names().into_iter().cloned().collect();
        names.sort();
        let mut have: Vec<String> = s.files.iter().map(|f| f.0.clone()).collect();
        have.sort();
        if names != have {
            return Err("PakWriter::get_entry_names differs".into());
        }
        if s.v < PakVersion::CompressionEncryption && w.write_entry(&"compressed!".to_string(), &vec![7; 64], true).is_ok() {
            return Err(format!("compression accepted in {:?}", s.v));
        }
        e("finish", w.finish_write())?;
    }
    check(&s, &out.into_inner(), r)
}

// ---------------------------------------------------------------- independent reader of the layout
struct P<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> P<'a> {
    fn n(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.p + n > self.d.len() {
            return Err(format!("layout: {n} bytes wanted at {} of {}", self.p, self.d.len()));
        }
        self.p += n;
        Ok(&self.d[self.p - n..self.p])
    }
    fn u8(&mut self) -> Result<u8, String> { Ok(self.n(1)?[0]) }
    fn u32(&mut self) -> Result<u32, String> { Ok(u32::from_le_bytes(self.n(4)?.try_into().unwrap())) }
    fn u64(&mut self) -> Result<u64, String> { Ok(u64::from_le_bytes(self.n(8)?.try_into().unwrap())) }
    fn fstr(&mut self) -> Result<String, String> {
        let n = self.u32()? as i32;
        if n >= 0 {
            if n == 0 { return Ok(String::new()); }
            let b = self.n(n as usize)?;
            if b[n as usize - 1] != 0 { return Err("layout: string terminator".into()); }
            String::from_utf8(b[..n as usize - 1].to_vec()).map_err(|_| "utf8".into())
        } else {
            let b = self.n((-n) as usize * 2)?;
            let u: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            if u[u.len() - 1] != 0 { return Err("layout: string terminator".into()); }
            String::from_utf16(&u[..u.len() - 1]).map_err(|_| "utf16".into())
        }
    }
}
#[derive(Debug, PartialEq, Clone)]
struct Hdr { off: u64, cs: u64, ds: u64, method: u32, hash: Vec<u8>, blocks: Option<Vec<(u64, u64)>>, flags: u8, bs: u32 }
fn hdr(p: &mut P, v: u32) -> Result<Hdr, String> {
    let (off, cs, ds, method) = (p.u64()?, p.u64()?, p.u64()?, p.u32()?);
    if v == 1 { p.u64()?; }
    let hash = p.n(20)?.to_vec();
    let (mut blocks, mut flags, mut bs) = (None, 0, 0);
    if v >= 3 {
        if method != 0 {
            let n = p.u32()?;
            let mut b = vec![];
            for _ in 0..n { b.push((p.u64()?, p.u64()?)); }
            blocks = Some(b);
        }
        flags = p.u8()?;
        bs = p.u32()?;
    }
    Ok(Hdr { off, cs, ds, method, hash, blocks, flags, bs })
}
fn sha(d: &[u8]) -> Vec<u8> { let mut h = Sha1::new(); h.update(d); h.finalize().to_vec() }
fn unz(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    flate2::read::ZlibDecoder::new(d).read_to_end(&mut v).map_err(|e| format!("layout: block is not zlib data: {e}"))?;
    Ok(v)
}
fn check_layout(s: &Spec, d: &[u8], by_memory: bool) -> Result<(), String> {
    let v = num(s.v);
    let extra = match s.v { PakVersion::FnameBasedCompressionMethodInitial => 0x80, PakVersion::FnameBasedCompressionMethod => 0xA0, PakVersion::FrozenIndex => 0xA1, _ => 0 };
    let magic = d.len() - 0x2C - extra;
    let lead = if v >= 7 { 17 } else if v >= 4 { 1 } else { 0 };
    if d[magic - lead..magic].iter().any(|b| *b != 0) { return Err("layout: encryption fields set".into()); }
    if d[magic..magic + 4] != [0xE1, 0x12, 0x6F, 0x5A] { return Err(format!("layout: magic not at its place ({:?})", s.v)); }
    let mut p = P { d, p: magic + 4 };
    if p.u32()? != v { return Err("layout: version number".into()); }
    let (io, is) = (p.u64()?, p.u64()?);
    let ih = p.n(20)?.to_vec();
    if io + is != (magic - lead) as u64 { return Err(format!("layout: index {io}+{is} does not end at the footer {}", magic - lead)); }
    let idx = &d[io as usize..(io + is) as usize];
    if sha(idx) != ih { return Err("layout: index hash".into()); }
    if extra >= 0x80 {
        let t = &d[d.len() - (extra & !1)..];
        let mut z = vec![0u8; extra & !1];
        if !by_memory { z[..4].copy_from_slice(b"Zlib"); }
        if t != &z[..] { return Err("layout: compression method table".into()); }
    }
    let mut p = P { d: idx, p: 0 };
    if p.fstr()? != s.mount { return Err("layout: mount point".into()); }
    let n = p.u32()?;
    if n as usize != s.files.len() { return Err("layout: entry count".into()); }
    let mut files: BTreeMap<&String, (&Vec<u8>, bool)> = s.files.iter().map(|f| (&f.0, (&f.1, f.2))).collect();
    let mut spans = vec![];
    let mut prev: Option<String> = None;
    for _ in 0..n {
        let nm = p.fstr()?;
        if prev.as_ref().map(|x| x >= &nm).unwrap_or(false) { return Err("layout: index is not in name order".into()); }
        prev = Some(nm.clone());
        let h = hdr(&mut p, v)?;
        let (want, comp) = files.remove(&nm).ok_or("layout: unknown name")?;
        let mut q = P { d, p: h.off as usize };
        let h2 = hdr(&mut q, v)?;
        if h2.off != 0 { return Err("layout: offset in the entry header is not 0".into()); }
        if (Hdr { off: h.off, ..h2.clone() }) != h { return Err(format!("layout: index header and entry header of {nm:?} differ: {h:?} / {h2:?}")); }
        let start = q.p;
        let stored = q.n(h.cs as usize)?;
        if h.hash != sha(stored) { return Err(format!("layout: hash of {nm:?}")); }
        if h.ds != want.len() as u64 { return Err(format!("layout: decompressed size of {nm:?}")); }
        if h.flags != 0 { return Err("layout: flags".into()); }
        let should = comp && want.len() >= 32;
        if (h.method != 0) != should { return Err(format!("layout: {nm:?} ({} bytes, compress={comp}) has method {}", want.len(), h.method)); }
        if h.method > 1 { return Err("layout: method number".into()); }
        if let Some(b) = &h.blocks {
            let rel = if v >= 5 { h.off } else { 0 };
            if b.len() != (want.len() + s.bs as usize - 1) / s.bs as usize { return Err(format!("layout: {} blocks for {} bytes of block size {}", b.len(), want.len(), s.bs)); }
            let mut at = start as u64;
            let mut all = vec![];
            for (i, (x, y)) in b.iter().enumerate() {
                if x + rel != at { return Err(format!("layout: block {i} of {nm:?} starts at {} and not at {at} ({:?})", x + rel, s.v)); }
                let un = unz(&d[(x + rel) as usize..(y + rel) as usize])?;
                if un.len() != (want.len() - all.len()).min(s.bs as usize) { return Err("layout: block holds the wrong amount of data".into()); }
                all.extend_from_slice(&un);
                at = y + rel;
            }
            if at != start as u64 + h.cs { return Err("layout: blocks do not cover the stored bytes".into()); }
            if &all != want { return Err("layout: block data".into()); }
            let wb = if b.len() == 1 { want.len() as u32 } else { s.bs };
            if h.bs != wb { return Err(format!("layout: block size field {} (want {wb})", h.bs)); }
        } else if stored != &want[..] {
            return Err(format!("layout: stored bytes of {nm:?}"));
        }
        spans.push((h.off, (start as u64) + h.cs));
    }
    if p.p != idx.len() { return Err("layout: index size".into()); }
    spans.sort();
    let mut at = s.base as u64;
    for (a, b) in spans {
        if a != at { return Err(format!("layout: entry at {a}, expected {at}")); }
        at = b;
    }
    if at != io { return Err("layout: index does not follow the entries".into()); }
    Ok(())
}
fn layout(r: &mut Rng) -> Result<(), String> {
    let mut s = gen(r);
    if r.chance(1, 4) { s.base = r.us(300); }
    let mut out = Cursor::new(vec![0x11; s.base]);
    write(&s, &mut out)?;
    check_layout(&s, &out.into_inner(), false)
}
fn layout_blocks(r: &mut Rng) -> Result<(), String> {
    let mut s = gen(r);
    s.v = r.pick(&VERSIONS[2..]);
    let k = 1 + r.us(4);
    s.bs = 8 + r.below(100) as u32;
    s.files = (0..2).map(|i| { let n = (s.bs as usize * k + r.us(3)).saturating_sub(r.us(3)).max(32); (format!("f{i}"), r.bytes(n), true) }).collect();
    let mut out = Cursor::new(vec![]);
    write(&s, &mut out)?;
    check_layout(&s, &out.into_inner(), false)
}
fn layout_memory(r: &mut Rng) -> Result<(), String> {
    let mut s = gen(r);
    let mut m = PakMemory::new(s.v);
    m.mount_point = s.mount.clone();
    m.block_size = s.bs;
    for f in &mut s.files { m.set_entry(f.0.clone(), f.1.clone()); f.2 = false; }
    let mut out = Cursor::new(vec![]);
    e("write", m.write(&mut out))?;
    check_layout(&s, &out.into_inner(), true)
}
/// version 10 / 11 paks (path hash index), laid out as Unreal does
fn foreign_index(r: &mut Rng) -> Result<(), String> {
    let v: u32 = 10 + r.below(2) as u32;
    let mut d: Vec<u8> = vec![];
    let mut enc: Vec<u8> = vec![];
    let mut dirs: BTreeMap<String, Vec<(String, u32)>> = BTreeMap::new();
    let mut want = BTreeMap::new();
    for i in 0..r.us(5) {
        let c = { let k = r.us(300); r.bytes(k) };
        let off = d.len() as u64;
        let comp = r.bool() && !c.is_empty();
        let bs = 64u32;
        let mut pieces: Vec<Vec<u8>> = vec![];
        if comp {
            for ch in c.chunks(bs as usize) {
                let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
                z.write_all(ch).unwrap();
                pieces.push(z.finish().unwrap());
            }
        } else {
            pieces.push(c.clone());
        }
        let stored: Vec<u8> = pieces.concat();
        let hl = 28 + 20 + if comp { 4 + 16 * pieces.len() } else { 0 } + 5;
        d.extend_from_slice(&0u64.to_le_bytes());
        d.extend_from_slice(&(stored.len() as u64).to_le_bytes());
        d.extend_from_slice(&(c.len() as u64).to_le_bytes());
        d.extend_from_slice(&(comp as u32).to_le_bytes());
        d.extend_from_slice(&sha(&stored));
        if comp {
            d.extend_from_slice(&(pieces.len() as u32).to_le_bytes());
            let mut at = hl as u64;
            for p in &pieces {
                d.extend_from_slice(&at.to_le_bytes());
                at += p.len() as u64;
                d.extend_from_slice(&at.to_le_bytes());
            }
        }
        d.push(0);
        d.extend_from_slice(&if comp { bs } else { 0 }.to_le_bytes());
        d.extend_from_slice(&stored);
        // encoded entry
        let eo = enc.len() as u32;
        let (o32, u32_, c32) = (r.bool(), r.bool(), r.bool());
        let odd = r.bool();
        let bits: u32 = if odd { 0x3f } else { 1 } | ((if comp { pieces.len() as u32 } else { 0 }) << 6) | ((comp as u32) << 23) | ((c32 as u32) << 29) | ((u32_ as u32) << 30) | ((o32 as u32) << 31);
        enc.extend_from_slice(&bits.to_le_bytes());
        if odd { enc.extend_from_slice(&bs.to_le_bytes()); }
        let mut put = |v: u64, s: bool| if s { enc.extend_from_slice(&(v as u32).to_le_bytes()) } else { enc.extend_from_slice(&v.to_le_bytes()) };
        put(off, o32);
        put(c.len() as u64, u32_);
        if comp { put(stored.len() as u64, c32); }
        let dir = r.pick(&["/".to_string(), "A/".into(), "A/B/".into(), "/C/".into()]);
        let f = format!("f{i}");
        want.insert(format!("{}{f}", dir.strip_prefix('/').unwrap_or(&dir)), c);
        dirs.entry(dir).or_default().push((f, eo));
    }
    let fstr = |d: &mut Vec<u8>, s: &str| { d.extend_from_slice(&(s.len() as u32 + 1).to_le_bytes()); d.extend_from_slice(s.as_bytes()); d.push(0); };
    let mut full: Vec<u8> = vec![];
    full.extend_from_slice(&(dirs.len() as u32).to_le_bytes());
    for (dn, fs) in &dirs {
        fstr(&mut full, dn);
        full.extend_from_slice(&(fs.len() as u32).to_le_bytes());
        for (f, o) in fs { fstr(&mut full, f); full.extend_from_slice(&o.to_le_bytes()); }
    }
    let full_off = d.len() as u64;
    d.extend_from_slice(&full);
    let io = d.len() as u64;
    let mut idx: Vec<u8> = vec![];
    fstr(&mut idx, "../../../");
    idx.extend_from_slice(&(want.len() as u32).to_le_bytes());
    idx.extend_from_slice(&r.u64().to_le_bytes());
    let has = r.bool();
    idx.extend_from_slice(&(has as u32).to_le_bytes());
    if has { idx.extend_from_slice(&[9; 36]); }
    idx.extend_from_slice(&1u32.to_le_bytes());
    idx.extend_from_slice(&full_off.to_le_bytes());
    idx.extend_from_slice(&(full.len() as u64).to_le_bytes());
    idx.extend_from_slice(&sha(&full));
    idx.extend_from_slice(&(enc.len() as u32).to_le_bytes());
    idx.extend_from_slice(&enc);
    idx.extend_from_slice(&0u32.to_le_bytes());
    d.extend_from_slice(&idx);
    d.extend_from_slice(&[0; 17]);
    d.extend_from_slice(&[0xE1, 0x12, 0x6F, 0x5A]);
    d.extend_from_slice(&v.to_le_bytes());
    d.extend_from_slice(&io.to_le_bytes());
    d.extend_from_slice(&(idx.len() as u64).to_le_bytes());
    d.extend_from_slice(&sha(&idx));
    let mut t = vec![0u8; 0xA0];
    t[..4].copy_from_slice(b"Zlib");
    d.extend_from_slice(&t);
    let mut rd = PakReader::new(Cursor::new(d));
    e("load_index (version 10/11)", rd.load_index())?;
    let names: Vec<String> = rd.get_entry_names().into_iter().cloned().collect();
    if names != want.keys().cloned().collect::<Vec<_>>() {
        return Err(format!("version {v} names: {names:?} / {:?}", want.keys()));
    }
    for (n, c) in &want {
        if &e("read_entry", rd.read_entry(n))? != c { return Err(format!("version {v}: entry {n:?} differs")); }
    }
    let mut i = rd.into_inner();
    let _ = i.seek(SeekFrom::Start(0));
    Ok(())
}
