//! M01: mod metadata.
use crate::rng::Rng;
use crate::Case;
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use unreal_mod_metadata::{from_slice, Dependency, DownloadInfo, DownloadMode, Metadata, SyncMode};

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn m01() -> Vec<Case> {
    vec![("old", old), ("current", current), ("saved", saved), ("schema", schema), ("malformed", malformed), ("equal", equal), ("garbage", garbage)]
}

fn text(r: &mut Rng) -> String {
    const W: &[&str] = &["", "Test", "Ünï\u{1F600}", "a \"quoted\"\\ text", "line\nbreak\t", "/Game/Mods/X/a.dll", "1.0.0", "null", "\u{0}\u{1f}", "日本"];
    let mut s = W[r.us(W.len())].to_string();
    if r.us(2) == 0 { s.push_str(&r.us(1000).to_string()); }
    s
}
fn value(r: &mut Rng, d: usize) -> Value {
    match r.us(if d == 0 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => json!(r.us(2) == 1),
        2 => json!(r.u64() as i64),
        3 => json!((r.us(2000) as f64 - 1000.0) / 8.0),
        4 => json!(text(r)),
        5 => Value::Array((0..r.us(4)).map(|_| value(r, d - 1)).collect()),
        _ => Value::Object((0..r.us(4)).map(|_| (text(r), value(r, d - 1))).collect()),
    }
}
fn some(r: &mut Rng) -> bool { r.us(2) == 1 }
const SYNC: &[(&str, SyncMode)] = &[("serverclient", SyncMode::ServerAndClient), ("server", SyncMode::ServerOnly), ("client", SyncMode::ClientOnly), ("none", SyncMode::None)];
const REQS: &[&str] = &["*", ">=1.2.3", "<=2.1.0", "=0.1.0", "^1.2", "~1.2.3", "1.0.0", ">1.0, <2.0", ">=1.0.0-alpha.1", "1.*"];
const NOT_REQS: &[&str] = &["", "y", "1.2.3.4", ">=", "1..2", "latest", ">1.0 <2.0 foo", "99999999999999999999999.0.0", "-1", "1.0.0;"];

struct Doc { j: Map<String, Value>, m: Metadata }
/// a document and what it means
fn doc(r: &mut Rng, version: u64, stated: bool) -> Doc {
    let mut j = Map::new();
    let mut m = Metadata { schema_version: 2, ..Default::default() };
    if stated { j.insert("schema_version".into(), json!(version)); } else if some(r) { j.insert("schema_version".into(), Value::Null); }
    m.name = text(r); j.insert("name".into(), json!(m.name));
    m.mod_id = text(r); j.insert("mod_id".into(), json!(m.mod_id));
    m.mod_version = text(r); j.insert("version".into(), json!(m.mod_version));
    macro_rules! opt { ($f:ident) => { match r.us(4) { 0 => {} 1 => { j.insert(stringify!($f).into(), Value::Null); } _ => { let t = text(r); j.insert(stringify!($f).into(), json!(t)); m.$f = Some(t); } } } }
    opt!(author); opt!(description); opt!(game_build); opt!(homepage);
    if some(r) { let s = SYNC[r.us(4)]; j.insert("sync".into(), json!(s.0)); m.sync = Some(s.1); }
    if some(r) { let u = text(r); j.insert("download".into(), json!({"type": "index_file", "url": u})); m.download = Some(DownloadInfo { download_mode: DownloadMode::IndexFile, url: u }); }
    let mut deps = Map::new();
    if some(r) {
        for i in 0..r.us(4) {
            let (k, q) = (format!("{}{i}", text(r)), REQS[r.us(REQS.len())]);
            let v = semver::VersionReq::parse(q).unwrap();
            let (jv, d) = match r.us(4) {
                0 => (json!({"version": q}), None),
                1 => (json!({"version": q, "download": null}), None),
                2 => { let u = text(r); (json!({"version": q, "download": {"type": "index_file", "url": u}}), Some(DownloadInfo { download_mode: DownloadMode::IndexFile, url: u })) }
                _ => (json!(q), None),
            };
            deps.insert(k.clone(), jv);
            if version == 2 { m.dependencies.insert(k, Dependency::new(v, d)); }
        }
        j.insert("dependencies".into(), Value::Object(deps));
    }
    if some(r) {
        let l: Vec<String> = (0..r.cnt(4)).map(|_| text(r)).collect();
        j.insert("cpp_loader_dlls".into(), json!(l));
        if version == 2 { m.cpp_loader_dlls = l; }
    }
    if some(r) {
        let mut o = Map::new();
        for i in 0..r.cnt(4) { o.insert(format!("{}{i}", text(r)), value(r, 2)); }
        if version == 2 { m.integrator = o.iter().map(|(k, v)| (k.clone(), v.clone())).collect(); }
        j.insert("integrator".into(), Value::Object(o));
    }
    for k in ["persistent_actors", "mission_trailheads", "linked_actor_components", "item_list_entries", "biome_placement_modifiers"] {
        if some(r) {
            let v = value(r, 2);
            j.insert(k.into(), v.clone());
            // null is an absent value
            if version == 1 && !v.is_null() { m.integrator.insert(k.into(), v); }
        }
    }
    if some(r) { j.insert(format!("unknown {}", text(r)), value(r, 1)); }
    Doc { j, m }
}
/// a document's fields in any order
fn bytes(r: &mut Rng, j: &Map<String, Value>) -> Vec<u8> {
    let mut l: Vec<String> = j.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
    for i in (1..l.len()).rev() { l.swap(i, r.us(i + 1)); }
    format!("{{{}}}", l.join(",")).into_bytes()
}
fn same(a: &Metadata, b: &Metadata) -> Result<(), String> {
    macro_rules! f { ($($x:ident),*) => { $( need!(a.$x == b.$x, "{} is {:?}, should be {:?}", stringify!($x), a.$x, b.$x); )* } }
    f!(schema_version, name, mod_id, author, description, mod_version, game_build, sync, homepage, download, dependencies, integrator, cpp_loader_dlls);
    Ok(())
}
fn hash(m: &Metadata) -> u64 { let mut h = DefaultHasher::new(); m.hash(&mut h); h.finish() }
fn load(d: &[u8]) -> Result<Metadata, String> { from_slice(d).map_err(|e| format!("not loaded: {e}: {}", String::from_utf8_lossy(d))) }

fn old(r: &mut Rng) -> Result<(), String> {
    let stated = some(r);
    let d = doc(r, 1, stated);
    let b = bytes(r, &d.j);
    same(&load(&b)?, &d.m).map_err(|e| format!("{e}: {}", String::from_utf8_lossy(&b)))
}
fn current(r: &mut Rng) -> Result<(), String> {
    let d = doc(r, 2, true);
    let b = bytes(r, &d.j);
    same(&load(&b)?, &d.m).map_err(|e| format!("{e}: {}", String::from_utf8_lossy(&b)))
}
fn saved(r: &mut Rng) -> Result<(), String> {
    let m = doc(r, 2, true).m;
    let b = if some(r) { serde_json::to_vec(&m) } else { serde_json::to_vec_pretty(&m) }.map_err(|e| e.to_string())?;
    let n = load(&b)?;
    same(&n, &m)?;
    need!(n == m && m == n, "saved and loaded metadata is not equal to itself: {}", String::from_utf8_lossy(&b));
    need!(hash(&n) == hash(&m), "equal metadata hash differently: {}", String::from_utf8_lossy(&b));
    Ok(())
}
fn schema(r: &mut Rng) -> Result<(), String> {
    let ver = 1 + r.us(2) as u64;
    let mut d = doc(r, ver, true);
    let v = match r.us(9) {
        0 => json!(0), 1 => json!(3), 2 => json!(u64::MAX), 3 => json!(-1), 4 => json!(2.5), 5 => json!("2"), 6 => json!([2]), 7 => json!((1u64 << 32) + 1 + r.us(2) as u64),
        _ => json!(3 + r.u64() % 1000),
    };
    d.j.insert("schema_version".into(), v.clone());
    let b = bytes(r, &d.j);
    need!(from_slice(&b).is_err(), "schema_version {v} was accepted");
    Ok(())
}
fn malformed(r: &mut Rng) -> Result<(), String> {
    let ver = 1 + r.us(2) as u64;
    let mut d = doc(r, ver, true);
    let what = match r.us(8) {
        0 => { let k = ["name", "mod_id", "version"][r.us(3)]; d.j.remove(k); format!("without {k}") }
        1 => { let k = ["name", "mod_id", "version", "author", "description", "game_build", "homepage"][r.us(7)]; d.j.insert(k.into(), json!(7)); format!("number as {k}") }
        2 => { d.j.insert("sync".into(), json!("everyone")); "unknown sync mode".into() }
        3 => { d.j.insert("download".into(), [json!({"type": "ftp", "url": "x"}), json!({"type": "index_file"}), json!("x")][r.us(3)].clone()); "bad download".into() }
        4 if ver == 2 => { let q = NOT_REQS[r.us(NOT_REQS.len())]; d.j.insert("dependencies".into(), if some(r) { json!({"A": "*", "B": q}) } else { json!({"B": {"version": q}}) }); format!("dependency version {q:?}") }
        5 if ver == 2 => { d.j.insert("dependencies".into(), [json!({"A": 1}), json!({"A": {}}), json!({"A": null}), json!([]), json!({"A": []})][r.us(5)].clone()); "bad dependencies".into() }
        6 if ver == 2 => { let k = ["integrator", "cpp_loader_dlls"][r.us(2)]; d.j.insert(k.into(), json!("x")); format!("text as {k}") }
        _ => {
            let b = bytes(r, &d.j);
            let n = r.us(b.len());
            need!(from_slice(&b[..n]).is_err(), "a document cut off after {n} bytes was accepted");
            return Ok(());
        }
    };
    let b = bytes(r, &d.j);
    need!(from_slice(&b).is_err(), "{what} was accepted: {}", String::from_utf8_lossy(&b));
    Ok(())
}
/// equality is equality of all fields
fn equal(r: &mut Rng) -> Result<(), String> {
    let a = doc(r, 2, true).m;
    let mut b = a.clone();
    // the same entries put in in another order
    let mut l: Vec<(String, Value)> = a.integrator.clone().into_iter().collect();
    l.sort_by(|x, y| y.0.cmp(&x.0));
    b.integrator = l.into_iter().collect::<HashMap<_, _>>();
    need!(a == b && b == a && hash(&a) == hash(&b), "metadata is not equal to its copy: {a:?}");
    match r.us(14) {
        0 => b.schema_version += 1, 1 => b.name.push('x'), 2 => b.mod_id.push('x'), 3 => b.mod_version.push('x'),
        4 => b.author = Some(format!("{}x", b.author.unwrap_or_default())), 5 => b.description = Some(format!("{}x", b.description.unwrap_or_default())),
        6 => b.game_build = Some(format!("{}x", b.game_build.unwrap_or_default())), 7 => b.homepage = Some(format!("{}x", b.homepage.unwrap_or_default())),
        8 => b.sync = if b.sync.is_some() { None } else { Some(SyncMode::None) },
        9 => b.download = if b.download.is_some() { None } else { Some(DownloadInfo { download_mode: DownloadMode::IndexFile, url: String::new() }) },
        10 => { b.dependencies.insert("more".into(), Dependency::new(semver::VersionReq::STAR, None)); }
        11 => b.cpp_loader_dlls.push(String::new()),
        12 => { b.integrator.insert("more".into(), Value::Null); }
        _ => match b.integrator.keys().next().cloned() {
            Some(k) => { let v = json!([b.integrator[&k].clone()]); b.integrator.insert(k, v); }
            None => b.name.push('x'),
        },
    }
    need!(a != b && b != a, "different metadata are equal: {a:?} {b:?}");
    Ok(())
}
fn garbage(r: &mut Rng) -> Result<(), String> {
    let ver = 1 + r.us(2) as u64;
    let d = doc(r, ver, true);
    let mut b = bytes(r, &d.j);
    for _ in 0..1 + r.us(3) {
        let i = r.us(b.len());
        match r.us(3) { 0 => b[i] = r.u64() as u8, 1 => { b.remove(i); } _ => b.insert(i, b"{}[],:\"0null"[r.us(12)]) }
        if b.is_empty() { break; }
    }
    let _ = from_slice(&b);
    Ok(())
}
