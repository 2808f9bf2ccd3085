//! R01: asset registries.
use crate::ar::Ar;
use crate::p_names::word;
use crate::rng::Rng;
use crate::Case;
use std::io::Cursor;
use unreal_asset_base::containers::{Chain, IndexedMap, NameMap, SharedResource};
use unreal_asset_base::crc;
use unreal_asset_base::custom_version::{CustomVersion, FAssetRegistryVersionType as RV};
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::flags::EPackageFlags;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::reader::RawReader;
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_registry::objects::asset_data::{AssetData, TopLevelAssetPath};
use unreal_asset_registry::objects::depends_node::{AssetIdentifier, DependsNode};
use unreal_asset_registry::objects::asset_package_data::AssetPackageData;
use unreal_asset_registry::objects::md5_hash::FMD5Hash;
use unreal_asset_registry::AssetRegistryState;
use unreal_helpers::Guid;

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn r01() -> Vec<Case> {
    vec![("exact", exact), ("content", content), ("edited", edited), ("package", package), ("shuffled", shuffled), ("outside", outside), ("identifier", identifier)]
}

type N = (i32, i32);
#[derive(Clone, Debug, Default)]
pub struct MAsset { n: [N; 6], tags: Vec<(N, Option<String>)>, chunks: Vec<i32>, flags: u32 }
#[derive(Clone, Debug, Default)]
pub struct MNode { id: [Option<N>; 4], l: [Vec<i32>; 6], pf: Vec<u8>, mf: Vec<bool> } // hard, soft, name, soft manage, hard manage, referencers; flags in the order hard, soft
#[derive(Clone, Debug)]
pub struct MPack { name: N, guid: [u8; 16], hash: Option<[u8; 16]>, classes: Vec<N>, size: i64, fv: i32, fv5: i32, lic: i32, cv: Vec<([u8; 16], i32)>, flags: u32 }
#[derive(Clone, Debug)]
pub struct M { v: i32, hashes: bool, names: Vec<String>, assets: Vec<MAsset>, nodes: Vec<MNode>, packs: Vec<MPack> }

pub struct B(pub Vec<u8>);
impl B {
    fn i(&mut self, v: i32) { self.0.extend(v.to_le_bytes()) }
    fn n(&mut self, n: N) { self.i(n.0); self.i(n.1) }
    fn s(&mut self, s: Option<&str>) {
        match s {
            None => self.i(0),
            Some(t) if t.is_ascii() => { self.i(t.len() as i32 + 1); self.0.extend(t.bytes()); self.0.push(0) }
            Some(t) => { let u: Vec<u16> = t.encode_utf16().collect(); self.i(-(u.len() as i32 + 1)); for c in u { self.0.extend(c.to_le_bytes()) } self.0.extend([0, 0]) }
        }
    }
}
fn name(r: &mut Rng, m: &M) -> N { (r.us(m.names.len()) as i32, if r.bool() { 0 } else { r.i32() }) }
fn flagged(m: &M) -> bool { m.v >= 7 }
fn model(r: &mut Rng) -> M {
    let mut m = M { v: 4 + r.us(12) as i32, hashes: r.bool(), names: vec![], assets: vec![], nodes: vec![], packs: vec![] };
    if r.us(2) == 0 { m.v = 4 + r.us(4) as i32; }
    for i in 0..1 + r.cnt(6) { let w = word(r); m.names.push(format!("{w}#{i}")); }
    for _ in 0..r.us(4) { let a = asset(r, &m); m.assets.push(a); }
    let k = r.us(5) as i32;
    for _ in 0..k { let n = node(r, &m, k); m.nodes.push(n); }
    for _ in 0..r.us(4) { let p = pack(r, &m); m.packs.push(p); }
    m
}
fn asset(r: &mut Rng, m: &M) -> MAsset {
    let mut a = MAsset::default();
    for i in 0..6 { a.n[i] = name(r, m); }
    for i in 0..r.us(m.names.len() + 1) { let s = if r.us(4) == 0 { None } else { Some(word(r)) }; a.tags.push(((i as i32, r.us(3) as i32), s)); }
    a.chunks = (0..r.cnt(4)).map(|_| r.i32()).collect();
    a.flags = r.u32() & EPackageFlags::all().bits();
    a
}
fn node(r: &mut Rng, m: &M, k: i32) -> MNode {
    let mut n = MNode::default();
    for i in 0..4 { if r.bool() { n.id[i] = Some(name(r, m)); } }
    for i in 0..6 { n.l[i] = (0..r.cnt(5)).map(|_| r.us(k as usize) as i32).collect(); }
    if flagged(m) {
        for i in 0..6 { n.l[i].sort(); }
        n.pf = (0..n.l[0].len() + n.l[1].len()).map(|i| (r.u8() & 0x7f) | if i < n.l[0].len() { 0x80 } else { 0 }).collect();
        n.mf = (0..n.l[4].len() + n.l[3].len()).map(|i| i < n.l[4].len()).collect();
    } else if m.v < 5 { n.l[4].clear(); }
    n
}
fn pack(r: &mut Rng, m: &M) -> MPack {
    let g = |r: &mut Rng| { let mut b = [0u8; 16]; for x in &mut b { *x = r.u8(); } b };
    MPack { name: name(r, m), guid: g(r), hash: if r.bool() { Some(g(r)) } else { None }, classes: (0..r.cnt(3)).map(|_| name(r, m)).collect(), size: r.i64(), fv: r.i32(), fv5: r.i32(), lic: r.i32(),
        cv: (0..r.cnt(3)).map(|_| (g(r), r.i32())).collect(), flags: r.u32() }
}
fn put_asset(b: &mut B, m: &M, a: &MAsset) {
    b.n(a.n[0]); b.n(a.n[1]); b.n(a.n[2]);
    if m.v >= 14 { b.n(a.n[3]); }
    b.n(a.n[4]); b.n(a.n[5]);
    b.i(a.tags.len() as i32);
    for (k, v) in &a.tags { b.n(*k); b.s(v.as_deref()); }
    b.i(a.chunks.len() as i32);
    for c in &a.chunks { b.i(*c); }
    b.i(a.flags as i32);
}
fn bits(b: &mut B, l: &[bool]) {
    let mut w = vec![0u32; (l.len() + 31) / 32];
    for (i, x) in l.iter().enumerate() { if *x { w[i / 32] |= 1 << (i % 32); } }
    for x in w { b.i(x as i32); }
}
fn put_id(b: &mut B, id: &[Option<N>; 4]) {
    b.0.push((0..4).map(|i| (id[i].is_some() as u8) << i).sum());
    for x in id.iter().flatten() { b.n(*x); }
}
fn put_node(b: &mut B, m: &M, n: &MNode) {
    put_id(b, &n.id);
    if !flagged(m) {
        for (i, l) in n.l.iter().enumerate() { if i != 4 || m.v >= 5 { b.i(l.len() as i32); } }
        for l in &n.l { for x in l { b.i(*x); } }
        return;
    }
    b.i((n.l[0].len() + n.l[1].len()) as i32);
    for x in n.l[0].iter().chain(&n.l[1]) { b.i(*x); }
    bits(b, &n.pf.iter().flat_map(|f| (0..8).map(move |i| f >> i & 1 == 1)).collect::<Vec<_>>());
    b.i(n.l[2].len() as i32);
    for x in &n.l[2] { b.i(*x); }
    b.i((n.l[4].len() + n.l[3].len()) as i32);
    for x in n.l[4].iter().chain(&n.l[3]) { b.i(*x); }
    bits(b, &n.mf);
    b.i(n.l[5].len() as i32);
    for x in &n.l[5] { b.i(*x); }
}
fn put_pack(b: &mut B, m: &M, p: &MPack) {
    b.n(p.name);
    b.0.extend(p.size.to_le_bytes());
    b.0.extend(p.guid);
    if m.v >= 6 { match p.hash { Some(h) => { b.i(1); b.0.extend(h) } None => b.i(0) } }
    if m.v >= 9 {
        b.i(p.fv);
        if m.v >= 11 { b.i(p.fv5); }
        b.i(p.lic); b.i(p.flags as i32); b.i(p.cv.len() as i32);
        for (g, v) in &p.cv { b.0.extend(g); b.i(*v); }
    }
    if m.v >= 10 { b.i(p.classes.len() as i32); for c in &p.classes { b.n(*c); } }
}
fn encode(m: &M) -> Vec<u8> {
    let mut b = B(vec![]);
    for x in [0x717F9EE7u32, 0xE9B0493A, 0x88B39132, 0x1B388107] { b.i(x as i32); }
    b.i(m.v);
    if m.v < 8 { b.0.extend([0u8; 8]); }
    b.i(m.assets.len() as i32);
    for a in &m.assets { put_asset(&mut b, m, a); }
    let at = b.0.len();
    if flagged(m) { b.0.extend([0u8; 8]); }
    b.i(m.nodes.len() as i32);
    for n in &m.nodes { put_node(&mut b, m, n); }
    if flagged(m) { let n = (b.0.len() - at - 8) as i64; b.0[at..at + 8].copy_from_slice(&n.to_le_bytes()); }
    b.i(m.packs.len() as i32);
    for p in &m.packs { put_pack(&mut b, m, p); }
    if m.v < 8 {
        let n = b.0.len() as i64;
        b.0[20..28].copy_from_slice(&n.to_le_bytes());
        b.i(m.names.len() as i32);
        for s in &m.names { b.s(Some(s)); if m.hashes { b.i(crc::generate_hash(s) as i32); } }
    }
    b.0
}
fn table(m: &M) -> SharedResource<NameMap> {
    let mut t = NameMap::new();
    if m.v >= 8 { for s in &m.names { t.get_mut().add_name_reference(s.clone(), true); } }
    t
}
fn load(m: &M, b: &[u8]) -> Result<(AssetRegistryState, SharedResource<NameMap>), String> {
    let o = if m.hashes { ObjectVersion::VER_UE4_FIX_WIDE_STRING_CRC } else { ObjectVersion::VER_UE4_APEX_CLOTH_TESSELLATION };
    let t = table(m);
    let mut rd = RawReader::<PackageIndex, _>::new(Chain::new(Cursor::new(b.to_vec()), None), o, ObjectVersionUE5::UNKNOWN, false, t.clone());
    let s = AssetRegistryState::new(&mut rd).map_err(|e| format!("not read: {e}: {m:?}"))?;
    Ok((s, t))
}
fn save(s: &AssetRegistryState) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    s.write(&mut c).map_err(|e| format!("not written: {e}"))?;
    Ok(c.into_inner())
}
fn nm(f: &FName) -> (String, i32) { (f.get_owned_content(), f.get_number()) }
fn tx(m: &M, n: N) -> (String, i32) { (m.names[n.0 as usize].clone(), n.1) }
fn idx(n: &DependsNode) -> i32 {
    let s = format!("{n:?}");
    let i = s.rfind("index: ").unwrap() + 7;
    s[i..].chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect::<String>().parse().unwrap()
}
fn check(m: &M, s: &AssetRegistryState) -> Result<(), String> {
    need!(s.get_version() as i32 == m.v, "version {} instead of {}", s.get_version() as i32, m.v);
    need!(s.assets_data.len() == m.assets.len() && s.depends_nodes.len() == m.nodes.len() && s.package_data.len() == m.packs.len(), "counts differ");
    for (a, w) in s.assets_data.iter().zip(&m.assets) {
        need!(nm(&a.object_path) == tx(m, w.n[0]) && nm(&a.package_path) == tx(m, w.n[1]) && nm(&a.package_name) == tx(m, w.n[4]) && nm(&a.asset_name) == tx(m, w.n[5]), "names of an asset: {a:?} {w:?}");
        if m.v >= 14 {
            let p = a.asset_path.as_ref().ok_or("no class path")?;
            need!(nm(&p.package_name) == tx(m, w.n[2]) && nm(&p.asset_name) == tx(m, w.n[3]), "class path");
        } else { need!(a.asset_class.as_ref().map(nm) == Some(tx(m, w.n[2])), "class"); }
        let t: Vec<_> = a.tags_and_values.iter().map(|(_, k, v)| (nm(k), v.clone())).collect();
        let u: Vec<_> = w.tags.iter().map(|(k, v)| (tx(m, *k), v.clone())).collect();
        need!(t == u, "tags {t:?}, should be {u:?}");
        need!(a.chunk_ids == w.chunks && a.package_flags.bits() == w.flags, "chunks or flags");
    }
    for (i, (n, w)) in s.depends_nodes.iter().zip(&m.nodes).enumerate() {
        need!(idx(n) == i as i32, "node {i} has index {}", idx(n));
        let id = [&n.identifier.package_name, &n.identifier.primary_asset_type, &n.identifier.object_name, &n.identifier.value_name];
        for k in 0..4 { need!(id[k].as_ref().map(nm) == w.id[k].map(|x| tx(m, x)), "identifier part {k} of node {i}"); }
        let l = [&n.hard_dependencies, &n.soft_dependencies, &n.name_dependencies, &n.soft_manage_dependencies, &n.hard_manage_dependencies, &n.referencers];
        for k in 0..6 { let g: Vec<i32> = l[k].iter().map(idx).collect(); need!(g == w.l[k], "list {k} of node {i} is {g:?}, should be {:?}", w.l[k]); }
        if flagged(m) {
            let f = n.package_flags.as_ref().ok_or("no package flags")?;
            for (k, x) in w.pf.iter().enumerate() { for j in 0..8 { need!(f[k * 8 + j] == (x >> j & 1 == 1), "package flag {j} of dependency {k} of node {i}"); } }
            let f = n.manage_flags.as_ref().ok_or("no manage flags")?;
            for (k, x) in w.mf.iter().enumerate() { need!(f[k] == *x, "manage flag of dependency {k} of node {i}"); }
        }
    }
    for (p, w) in s.package_data.iter().zip(&m.packs) { check_pack(m, p, w)?; }
    Ok(())
}
fn check_pack(m: &M, p: &AssetPackageData, w: &MPack) -> Result<(), String> {
    need!(nm(&p.package_name) == tx(m, w.name) && p.disk_size == w.size && p.package_guid.0 == w.guid, "package data: {p:?} {w:?}");
    if m.v >= 6 { need!(p.cooked_hash.as_ref().map(|h| h.hash) == Some(w.hash), "cooked hash"); }
    if m.v >= 9 {
        need!(p.file_version == w.fv && p.file_version_licensee_ue == w.lic && p.flags == w.flags, "package versions");
        let c: Vec<_> = p.custom_versions.as_ref().ok_or("no custom versions")?.iter().map(|c| (c.guid.0, c.version)).collect();
        need!(c == w.cv, "custom versions");
    }
    if m.v >= 11 { need!(p.ue5_version == Some(w.fv5), "UE5 version"); }
    if m.v >= 10 { let c: Vec<_> = p.imported_classes.as_ref().ok_or("no classes")?.iter().map(nm).collect(); need!(c == w.classes.iter().map(|x| tx(m, *x)).collect::<Vec<_>>(), "imported classes"); }
    Ok(())
}
fn exact(r: &mut Rng) -> Result<(), String> {
    let m = model(r);
    let b = encode(&m);
    let (s, _) = load(&m, &b)?;
    let o = save(&s)?;
    need!(o == b, "written differently from byte {} on: {m:?}", o.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(o.len().min(b.len())));
    Ok(())
}
fn content(r: &mut Rng) -> Result<(), String> {
    let m = model(r);
    let (s, _) = load(&m, &encode(&m))?;
    check(&m, &s)?;
    let (t, _) = load(&m, &save(&s)?)?;
    check(&m, &t)
}
fn edited(r: &mut Rng) -> Result<(), String> {
    let mut m = model(r);
    let (mut s, mut t) = load(&m, &encode(&m))?;
    let ver = s.get_version();
    for _ in 0..1 + r.us(4) {
        match r.us(5) {
            0 => {
                let w = word(r);
                let i = if m.v < 8 { s.add_fname(&w) } else { t.get_mut().add_name_reference(w.clone(), false) };
                if !m.names.contains(&w) { m.names.push(w.clone()); }
                need!(m.names.get(i as usize) == Some(&w), "name {w:?} was given index {i}");
            }
            1 => if let Some(i) = (!m.assets.is_empty()).then(|| r.us(m.assets.len())) {
                s.assets_data.remove(i); m.assets.remove(i);
            }
            2 => if let Some(i) = (!m.assets.is_empty()).then(|| r.us(m.assets.len())) {
                // a copy of an asset with other values
                let mut a = s.assets_data[i].clone(); let mut w = m.assets[i].clone();
                a.chunk_ids.push(7); w.chunks.push(7);
                std::mem::swap(&mut a.package_name, &mut a.asset_name); w.n.swap(4, 5);
                a.package_flags = EPackageFlags::PKG_COOKED; w.flags = EPackageFlags::PKG_COOKED.bits();
                let c = AssetData::from_data(a.object_path, a.package_name, a.package_path, a.asset_name, a.asset_class, a.asset_path, a.tags_and_values, a.tagged_asset_bundles, a.chunk_ids, a.package_flags, ver);
                s.assets_data.push(c); m.assets.push(w);
            }
            3 => {
                let k = m.nodes.len() as i32;
                let mut n = DependsNode::new(k, ver); let mut w = MNode::default();
                let refs: Vec<i32> = (0..r.us(3)).map(|_| r.us(k as usize + 1) as i32).collect();
                let mut refs = refs; refs.sort();
                let mk = |i: &i32| DependsNode::new(*i, ver);
                n.name_dependencies = refs.iter().map(mk).collect(); w.l[2] = refs.clone();
                n.referencers = refs.iter().map(mk).collect(); w.l[5] = refs.clone();
                if flagged(&m) { n.package_flags = Some(Default::default()); n.manage_flags = Some(Default::default()); }
                else { n.hard_dependencies = refs.iter().map(mk).collect(); w.l[0] = refs; }
                s.depends_nodes.push(n); m.nodes.push(w);
            }
            _ => if let Some(i) = (!m.packs.is_empty()).then(|| r.us(m.packs.len())) {
                s.package_data[i].disk_size ^= 5; m.packs[i].size ^= 5;
                s.package_data[i].package_guid = Guid::from([9; 16]); m.packs[i].guid = [9; 16];
                if m.v >= 6 { s.package_data[i].cooked_hash = Some(FMD5Hash { hash: None }); m.packs[i].hash = None; }
            },
        }
    }
    let o = save(&s)?;
    let b = encode(&m);
    need!(o == b, "an edited registry is written differently from byte {} on: {m:?}", o.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(o.len().min(b.len())));
    check(&m, &load(&m, &o)?.0)
}
/// package data and asset data by themselves, at every version
fn package(r: &mut Rng) -> Result<(), String> {
    let mut m = model(r);
    m.v = 4 + r.us(12) as i32;
    let ver = RV::try_from(m.v).map_err(|e| e.to_string())?;
    let mut ar = Ar::new(EngineVersion::VER_UE4_25);
    for s in &m.names { ar.names.get_mut().add_name_reference(s.clone(), true); }
    let (p, a) = (pack(r, &m), asset(r, &m));
    let mut b = B(vec![]);
    put_pack(&mut b, &m, &p); put_asset(&mut b, &m, &a);
    let mut x = ar.like(b.0.clone());
    let g = AssetPackageData::new(&mut x, ver).map_err(|e| format!("package data not read: {e}"))?;
    check_pack(&m, &g, &p)?;
    let h = AssetData::new(&mut x, ver).map_err(|e| format!("asset data not read: {e}"))?;
    need!(x.at() == b.0.len() as u64, "read {} of {} bytes", x.at(), b.0.len());
    let mut y = ar.like(vec![]);
    g.write(&mut y).map_err(|e| e.to_string())?;
    h.write(&mut y).map_err(|e| e.to_string())?;
    need!(y.bytes() == b.0, "package or asset data at version {} written differently", m.v);
    // data that lacks what the version stores is refused
    let mut g = g; let mut h = h;
    if m.v >= 14 { h.asset_path = None } else { h.asset_class = None; h.asset_path = Some(TopLevelAssetPath { package_name: h.asset_name.clone(), asset_name: h.asset_name.clone() }) }
    need!(h.write(&mut ar.like(vec![])).is_err(), "asset data without its class was written");
    if m.v >= 6 { g.cooked_hash = None; need!(g.write(&mut ar.like(vec![])).is_err(), "package data without its hash was written"); }
    Ok(())
}
/// flagged lists in any order are read as hard and soft dependencies in node order, each with its own flags
fn shuffled(r: &mut Rng) -> Result<(), String> {
    let mut m = model(r);
    m.v = 7 + r.us(9) as i32;
    let k = 1 + r.us(6) as i32;
    m.nodes = (0..k).map(|_| node(r, &m, k)).collect();
    // distinct references, so that node order is a total order
    for n in &mut m.nodes {
        for i in 0..6 { n.l[i].dedup(); }
        let h = n.l[0].clone(); n.l[1].retain(|x| !h.contains(x));
        let h = n.l[4].clone(); n.l[3].retain(|x| !h.contains(x));
        n.pf = (0..n.l[0].len() + n.l[1].len()).map(|i| (r.u8() & 0x7f) | if i < n.l[0].len() { 0x80 } else { 0 }).collect();
        n.mf = (0..n.l[4].len() + n.l[3].len()).map(|i| i < n.l[4].len()).collect();
    }
    let mut sh = m.clone();
    for n in &mut sh.nodes {
        // everything as one list in random order
        let mut a: Vec<(i32, u8)> = n.l[0].iter().chain(&n.l[1]).copied().zip(n.pf.iter().copied()).collect();
        let mut c: Vec<(i32, bool)> = n.l[4].iter().chain(&n.l[3]).copied().zip(n.mf.iter().copied()).collect();
        for i in (1..a.len()).rev() { a.swap(i, r.us(i + 1)); }
        for i in (1..c.len()).rev() { c.swap(i, r.us(i + 1)); }
        n.l[0] = a.iter().map(|x| x.0).collect(); n.l[1].clear(); n.pf = a.iter().map(|x| x.1).collect();
        n.l[4] = c.iter().map(|x| x.0).collect(); n.l[3].clear(); n.mf = c.iter().map(|x| x.1).collect();
        for i in [2, 5] { let l = n.l[i].len(); for j in (1..l).rev() { let q = r.us(j + 1); n.l[i].swap(j, q); } }
    }
    let (s, _) = load(&m, &encode(&sh))?;
    check(&m, &s)?;
    need!(save(&s)? == encode(&m), "flagged lists are not written in node order: {m:?}");
    Ok(())
}
/// references to nodes that do not exist are refused
fn outside(r: &mut Rng) -> Result<(), String> {
    let mut m = model(r);
    if m.nodes.is_empty() { return Ok(()); }
    let bad = match r.us(3) { 0 => -1, 1 => m.nodes.len() as i32, _ => { let x = r.i32(); if x >= 0 && x < m.nodes.len() as i32 { -5 } else { x } } };
    let (i, k) = (r.us(m.nodes.len()), r.us(6));
    if k == 4 && m.v < 5 { return Ok(()); }
    let n = &mut m.nodes[i];
    if m.v >= 7 { match k { 0 => n.pf.insert(n.l[0].len(), 0x80), 1 => n.pf.push(0), 3 => n.mf.push(false), 4 => n.mf.insert(n.l[4].len(), true), _ => {} } }
    n.l[k].push(bad);
    need!(load(&m, &encode(&m)).is_err(), "a reference to node {bad} of {} was accepted", m.nodes.len());
    Ok(())
}
fn identifier(r: &mut Rng) -> Result<(), String> {
    let m = model(r);
    let mut ar = Ar::new(EngineVersion::VER_UE4_25);
    for s in &m.names { ar.names.get_mut().add_name_reference(s.clone(), true); }
    let n = node(r, &m, 1);
    let mut b = B(vec![]);
    put_id(&mut b, &n.id);
    // bits the format does not define carry nothing
    let high = if r.bool() { (r.u8() << 4) & 0xf0 } else { 0 };
    let mut c = b.0.clone(); c[0] |= high;
    let mut x = ar.like(c);
    let id = AssetIdentifier::new(&mut x).map_err(|e| e.to_string())?;
    need!(x.at() == b.0.len() as u64, "identifier of {} bytes, {} read", b.0.len(), x.at());
    let mut y = ar.like(vec![]);
    id.write(&mut y).map_err(|e| e.to_string())?;
    need!(y.bytes() == b.0, "identifier written differently");
    Ok(())
}
#[allow(dead_code)]
fn unused(_: IndexedMap<i32, i32>, _: CustomVersion) {}
