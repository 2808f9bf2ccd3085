//! U01: type mappings files.
use crate::p_names::word;
use crate::rng::Rng;
use crate::Case;
use std::io::Cursor;
use unreal_asset_base::types::FName;
use unreal_asset_base::unversioned::properties::{UsmapProperty, UsmapPropertyData as D};
use unreal_asset_base::unversioned::{Ancestry, EUsmapCompressionMethod as C, EUsmapVersion, Usmap, UsmapExtensionVersion};

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn u01() -> Vec<Case> {
    vec![("decode", decode), ("lookup", lookup), ("fallback", fallback)]
}
#[derive(Clone, Debug, PartialEq)]
enum T { Plain(u8), Array(Box<T>), Set(Box<T>), Map(Box<T>, Box<T>), Struct(usize), Enum(Box<T>, usize) }
#[derive(Clone, Debug)]
struct P { idx: u16, size: u8, name: usize, t: T }
#[derive(Clone, Debug)]
struct S { name: usize, sup: usize, count: u16, props: Vec<P> }
#[derive(Clone, Debug)]
struct M { ver: u8, versioning: Option<(i32, i32, Vec<([u8; 16], i32)>, u32)>, comp: u8, names: Vec<String>, enums: Vec<(usize, Vec<usize>)>, schemas: Vec<S>, paths: Option<(Vec<Option<String>>, Vec<u16>)>, ext: Option<u32> }

fn ty(r: &mut Rng, n: usize, d: usize) -> T {
    let k = if d == 0 { 0 } else { r.us(8) };
    match k {
        1 => T::Array(Box::new(ty(r, n, d - 1))),
        2 => T::Set(Box::new(ty(r, n, d - 1))),
        3 => T::Map(Box::new(ty(r, n, d - 1)), Box::new(ty(r, n, d - 1))),
        4 => T::Struct(r.us(n)),
        5 => T::Enum(Box::new(ty(r, n, d - 1)), r.us(n)),
        _ => loop { let t = if r.chance(1, 20) { 255 } else { r.us(28) as u8 }; if ![8, 9, 24, 25, 26].contains(&t) { break T::Plain(t); } },
    }
}
fn model(r: &mut Rng) -> M {
    let mut names = vec![];
    let nn = 4 + r.us(10);
    for i in 0..nn { let w = word(r); names.push(if r.chance(1, 12) { format!("{}", i) } else if r.chance(1, 30) { String::new() } else { format!("{w}{i}") }); }
    if r.chance(1, 3) { names.dedup(); let k = r.us(names.len()); let c = names[k].clone(); names.push(c); }
    let n = names.len();
    let mut used: Vec<String> = vec![];
    let mut enums = vec![];
    for _ in 0..r.us(4) { let k = r.us(n); if used.contains(&names[k]) { continue; } used.push(names[k].clone()); enums.push((k, (0..r.cnt(5).min(255)).map(|_| r.us(n)).collect())); }
    let mut used: Vec<String> = vec![];
    let mut schemas: Vec<S> = vec![];
    for _ in 0..r.us(6) {
        let k = r.us(n);
        if used.contains(&names[k]) { continue; }
        // parents come later or are unknown, so that no class is its own ancestor
        used.push(names[k].clone());
        let mut props = vec![];
        let mut at = r.us(3) as u16 + if r.chance(1, 8) { 250 } else { 0 };
        let mut pn: Vec<String> = vec![];
        for _ in 0..r.us(5) {
            let k = r.us(n);
            if pn.contains(&names[k]) { continue; }
            pn.push(names[k].clone());
            let size = if r.chance(1, 3) { r.us(5) as u8 } else { 1 };
            props.push(P { idx: at, size, name: k, t: ty(r, n, 3) });
            at += size as u16 + r.us(2) as u16;
        }
        if r.chance(1, 8) { at += r.pick(&[200u16, 255, 256, 300, 5000]); }
        schemas.push(S { name: k, sup: 0, count: at, props });
    }
    let total = schemas.len();
    for i in 0..total {
        let later: Vec<usize> = schemas[i + 1..].iter().map(|s| s.name).collect();
        schemas[i].sup = if !later.is_empty() && !r.chance(1, 4) { r.pick(&later) } else {
            // a name that is no schema, or the last resort: one past
            (0..n).find(|&j| !used.contains(&names[j])).unwrap_or(usize::MAX)
        };
    }
    schemas.retain(|s| s.sup != usize::MAX);
    let ver = r.us(4) as u8;
    let versioning = if ver >= 1 && r.bool() { Some((r.pick(&[214, 516, 518, 522]), r.pick(&[0, 1000, 1004, 1008]), (0..r.us(4)).map(|_| { let mut g = [0u8; 16]; for x in g.iter_mut() { *x = r.u8(); } (g, r.i32()) }).collect(), r.u32())) } else { None };
    let ext = match r.us(3) { 0 => None, 1 => Some(0), _ => Some(1) };
    let paths = if ext == Some(1) {
        let k = match r.us(4) { 0 => 256 + r.us(3), 1 => 255, _ => 1 + r.us(4) };
        let p: Vec<Option<String>> = (0..k).map(|i| if r.chance(1, 9) { None } else { Some(format!("/Script/{}{}", word(r).replace('\0', ""), i)) }).collect();
        Some((p, schemas.iter().map(|_| r.us(k) as u16).collect()))
    } else { None };
    M { ver, versioning, comp: r.pick(&[0u8, 0, 2, 3]), names, enums, schemas, paths, ext }
}
fn put_ty(b: &mut Vec<u8>, t: &T) {
    match t {
        T::Plain(k) => b.push(*k),
        T::Array(x) => { b.push(8); put_ty(b, x) }
        T::Set(x) => { b.push(25); put_ty(b, x) }
        T::Map(x, y) => { b.push(24); put_ty(b, x); put_ty(b, y) }
        T::Struct(n) => { b.push(9); b.extend((*n as i32).to_le_bytes()) }
        T::Enum(x, n) => { b.push(26); put_ty(b, x); b.extend((*n as i32).to_le_bytes()) }
    }
}
fn fstr(b: &mut Vec<u8>, s: &Option<String>) {
    match s {
        None => b.extend(0i32.to_le_bytes()),
        Some(t) if t.is_ascii() => { b.extend((t.len() as i32 + 1).to_le_bytes()); b.extend(t.bytes()); b.push(0) }
        Some(t) => { let u: Vec<u16> = t.encode_utf16().collect(); b.extend((-(u.len() as i32 + 1)).to_le_bytes()); for c in u { b.extend(c.to_le_bytes()) } b.extend([0, 0]) }
    }
}
fn file(m: &M) -> Vec<u8> {
    let mut b = vec![];
    let i4 = |b: &mut Vec<u8>, v: usize| b.extend((v as u32).to_le_bytes());
    i4(&mut b, m.names.len());
    for n in &m.names { b.push(n.len() as u8 + 1); b.extend(n.bytes()); }
    i4(&mut b, m.enums.len());
    for (n, v) in &m.enums { i4(&mut b, *n); b.push(v.len() as u8); for x in v { i4(&mut b, *x) } }
    i4(&mut b, m.schemas.len());
    for s in &m.schemas {
        i4(&mut b, s.name); i4(&mut b, s.sup);
        b.extend(s.count.to_le_bytes()); b.extend((s.props.len() as u16).to_le_bytes());
        for p in &s.props { b.extend(p.idx.to_le_bytes()); b.push(p.size); i4(&mut b, p.name); put_ty(&mut b, &p.t); }
    }
    if let Some(e) = m.ext {
        b.extend(e.to_le_bytes());
        if let Some((p, ix)) = &m.paths {
            b.extend((p.len() as u16).to_le_bytes());
            for s in p { fstr(&mut b, s) }
            for i in ix { if p.len() > 255 { b.extend(i.to_le_bytes()) } else { b.push(*i as u8) } }
        }
    }
    let body = match m.comp {
        2 => { let mut o = vec![]; brotli::BrotliCompress(&mut Cursor::new(&b), &mut o, &Default::default()).unwrap(); o }
        3 => zstd::stream::encode_all(Cursor::new(&b), 1).unwrap(),
        _ => b.clone(),
    };
    let mut f = vec![0x30u8, 0xc4];
    f.push(m.ver);
    if m.ver >= 1 {
        f.push(m.versioning.is_some() as u8);
        if let Some((a, c, cv, cl)) = &m.versioning {
            f.extend(a.to_le_bytes()); f.extend(c.to_le_bytes());
            f.extend((cv.len() as i32).to_le_bytes());
            for (g, v) in cv { f.extend(g); f.extend(v.to_le_bytes()) }
            f.extend(cl.to_le_bytes());
        }
    }
    f.push(m.comp);
    f.extend((body.len() as u32).to_le_bytes());
    f.extend((b.len() as u32).to_le_bytes());
    f.extend(body);
    f
}
fn same_ty(m: &M, t: &T, d: &D) -> bool {
    match (t, d) {
        (T::Plain(k), D::UsmapShallowPropertyData(s)) => s.property_type as u8 == *k,
        (T::Array(x), D::UsmapArrayPropertyData(s)) => same_ty(m, x, &s.inner_type),
        (T::Set(x), D::UsmapSetPropertyData(s)) => same_ty(m, x, &s.inner_type),
        (T::Map(x, y), D::UsmapMapPropertyData(s)) => same_ty(m, x, &s.inner_type) && same_ty(m, y, &s.value_type),
        (T::Struct(n), D::UsmapStructPropertyData(s)) => s.struct_type == m.names[*n],
        (T::Enum(x, n), D::UsmapEnumPropertyData(s)) => same_ty(m, x, &s.inner_property) && s.name == m.names[*n],
        _ => false,
    }
}
fn same_prop(m: &M, p: &P, j: u8, q: &UsmapProperty) -> bool {
    q.name == m.names[p.name] && q.schema_index == p.idx + j as u16 && q.array_size == p.size && q.array_index == j as u16 && same_ty(m, &p.t, &q.property_data)
}
fn load(m: &M) -> Result<Usmap, String> {
    Usmap::new(Cursor::new(file(m))).map_err(|e| format!("a well-formed file was refused: {e}; {m:?}"))
}
fn decode(r: &mut Rng) -> Result<(), String> {
    let m = model(r);
    let u = load(&m)?;
    need!(u.name_map == m.names, "names {:?} for {m:?}", u.name_map);
    need!(u.version == EUsmapVersion::try_from(m.ver).unwrap(), "version {:?} of a version {} file", u.version, m.ver);
    need!(u.compression_method == C::try_from(m.comp).unwrap(), "compression {:?} for {m:?}", u.compression_method);
    let (a, b, cv, cl) = m.versioning.clone().unwrap_or((0, 0, vec![], 0));
    need!(u.object_version as i32 == a && u.object_version_ue5 as i32 == b && u.net_cl == cl, "versions {:?} {:?} {} for {m:?}", u.object_version, u.object_version_ue5, u.net_cl);
    need!(u.custom_versions.iter().map(|c| (c.guid.0, c.version)).collect::<Vec<_>>() == cv, "custom versions {:?} for {m:?}", u.custom_versions);
    need!(u.extension_version == UsmapExtensionVersion::from_bits(m.ext.unwrap_or(0)).unwrap(), "extensions {:?} for {m:?}", u.extension_version);
    let e: Vec<(String, Vec<String>)> = u.enum_map.iter().map(|(_, k, v)| (k.clone(), v.clone())).collect();
    let w: Vec<(String, Vec<String>)> = m.enums.iter().map(|(k, v)| (m.names[*k].clone(), v.iter().map(|i| m.names[*i].clone()).collect())).collect();
    need!(e == w, "enums {e:?}, stored {w:?}");
    need!(u.schemas.len() == m.schemas.len(), "{} schemas for {m:?}", u.schemas.len());
    for (i, (_, k, s)) in u.schemas.iter().enumerate() {
        let t = &m.schemas[i];
        need!(*k == m.names[t.name] && s.name == *k && s.super_type == m.names[t.sup] && s.prop_count == t.count, "schema {k}: {} {} {} for {t:?} of {m:?}", s.name, s.super_type, s.prop_count);
        let want: Vec<(&P, u8)> = t.props.iter().flat_map(|p| (0..p.size).map(move |j| (p, j))).collect();
        let have: Vec<&UsmapProperty> = s.properties.values().collect();
        need!(have.len() == want.len() && have.iter().zip(&want).all(|(q, (p, j))| same_prop(&m, p, *j, q)), "properties {have:?} of schema {k} for {t:?}, names {:?}", m.names);
        let path = m.paths.as_ref().map(|(p, ix)| p[ix[i] as usize].clone().unwrap_or_default());
        need!(s.module_path == path, "module path {:?} of schema {k}, stored {path:?}", s.module_path);
    }
    Ok(())
}
fn schema<'a>(m: &'a M, n: &str) -> Option<&'a S> { m.schemas.iter().find(|s| m.names[s.name] == n) }
fn find<'a>(m: &'a M, class: &str, n: &str, d: u32) -> Option<(&'a P, u8, u32)> {
    let mut at = 0u32;
    let mut c = class.to_string();
    while let Some(s) = schema(m, &c) {
        for p in &s.props { if m.names[p.name] == n && d < p.size as u32 { return Some((p, d as u8, at + p.idx as u32 + d)); } }
        at += s.count as u32;
        c = m.names[s.sup].clone();
    }
    None
}
fn want<'a>(m: &'a M, anc: &[String], n: &str, d: u32) -> Option<(&'a P, u8, u32)> {
    let last = anc.last()?;
    find(m, last, n, d).or_else(|| want(m, &anc[..anc.len() - 1], last, d))
}
fn check(m: &M, u: &Usmap, anc: &[String], n: &str, d: u32) -> Result<(), String> {
    let mut a = Ancestry::new(FName::new_dummy(anc[0].clone(), 0));
    for x in &anc[1..] { a = a.with_parent(FName::new_dummy(x.clone(), 0)); }
    let f = FName::new_dummy(n.to_string(), 0);
    let w = want(m, anc, n, d);
    let h = u.get_property_with_duplication_index(&f, &a, d);
    match (&w, &h) {
        (None, None) => {}
        (Some((p, j, at)), Some((q, g))) if same_prop(m, p, *j, q) && g == at => {}
        _ => return Err(format!("{n}[{d}] in {anc:?}: found {h:?}, declared {w:?} in {m:?}")),
    }
    if d == 0 { need!(u.get_property(&f, &a) == h.map(|x| x.0), "get_property of {n} in {anc:?} differs from the indexed lookup in {m:?}"); }
    Ok(())
}
fn lookup(r: &mut Rng) -> Result<(), String> {
    let m = model(r);
    let u = load(&m)?;
    for s in &m.schemas {
        let c = m.names[s.name].clone();
        for n in &m.names { for d in 0..3 { check(&m, &u, &[c.clone()], n, d)?; } }
        let mut all: Vec<(&P, u8)> = vec![];
        let mut k = c.clone();
        while let Some(t) = schema(&m, &k) { all.extend(t.props.iter().flat_map(|p| (0..p.size).map(move |j| (p, j)))); k = m.names[t.sup].clone(); }
        let have = u.get_all_properties(&c);
        need!(have.len() == all.len() && have.iter().zip(&all).all(|(q, (p, j))| same_prop(&m, p, *j, q)), "all properties of {c}: {have:?} for {m:?}");
    }
    Ok(())
}
fn fallback(r: &mut Rng) -> Result<(), String> {
    let m = model(r);
    let u = load(&m)?;
    for _ in 0..20 {
        let anc: Vec<String> = (0..1 + r.us(4)).map(|_| m.names[r.us(m.names.len())].clone()).collect();
        let n = if r.chance(1, 4) { r.us(9).to_string() } else { m.names[r.us(m.names.len())].clone() };
        check(&m, &u, &anc, &n, r.us(3) as u32)?;
    }
    Ok(())
}
