//! T01: package indexes and the tables they point into.
use crate::rng::Rng;
use crate::Case;
use std::io::Cursor;
use unreal_asset::Asset;
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::reader::ArchiveTrait;
use unreal_asset_base::types::{FName, PackageIndex, PackageIndexTrait};
use unreal_asset_base::Import;
use unreal_asset_exports::{BaseExport, Export, RawExport};

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn t01() -> Vec<Case> {
    vec![("convert", convert), ("tables", tables)]
}

pub fn sample() -> Result<Asset<Cursor<Vec<u8>>>, String> {
    Asset::new(Cursor::new(include_bytes!("../data/ResourceProgressCurve.uasset").to_vec()), None, EngineVersion::VER_UE4_23, None).map_err(|e| format!("sample: {e:?}"))
}

fn convert(r: &mut Rng) -> Result<(), String> {
    for _ in 0..8 {
        let p = r.i32();
        match PackageIndex::from_import(p) {
            Ok(i) => {
                need!(p >= 0 && i.index == -1 - p, "import {p} became {i:?}");
                need!(i.is_import() && !i.is_export(), "import {p}: kind");
            }
            Err(_) => need!(p < 0, "import position {p} refused"),
        }
        match PackageIndex::from_export(p) {
            Ok(i) => {
                need!(p >= 0 && i.index as i64 == p as i64 + 1, "export {p} became {i:?}");
                need!(!i.is_import() && i.is_export(), "export {p}: kind");
            }
            Err(_) => need!(p < 0 || p == i32::MAX, "export position {p} refused"),
        }
        let q = PackageIndex::new(p);
        need!(q.is_import() == (p < 0) && q.is_export() == (p > 0), "kind of {p}");
        need!(q.to_string() == p.to_string(), "text of {p}");
    }
    Ok(())
}

fn export(n: usize) -> Export<PackageIndex> {
    Export::RawExport(RawExport { base_export: BaseExport::default(), data: vec![n as u8, (n >> 8) as u8] })
}
fn num(e: &Export<PackageIndex>) -> usize {
    match e { Export::RawExport(x) => x.data[0] as usize | (x.data[1] as usize) << 8, _ => usize::MAX }
}

fn tables(r: &mut Rng) -> Result<(), String> {
    let mut a = sample()?;
    a.imports.clear();
    a.asset_data.exports.clear();
    let n = r.us(5);
    let m = r.us(5);
    let mut made: Vec<(String, String, i32, String)> = vec![];
    for k in 0..n {
        let w = |r: &mut Rng| format!("n{}", r.below(3));
        let (x, y, o, z) = (w(r), w(r), r.below(3) as i32 - 1, w(r));
        let i = Import::new(a.add_fname(&x), a.add_fname(&y), PackageIndex::new(o), a.add_fname(&z), k % 2 == 0);
        let p = a.add_import(i.clone());
        made.push((x, y, o, z));
        need!(p.index == -1 - k as i32, "import {k} added at {p:?}");
        need!(a.get_import(p).as_ref() == Some(&i), "import {k} does not resolve");
        need!(a.imports.len() == k + 1, "{} imports after adding {}", a.imports.len(), k + 1);
    }
    for k in 0..m { a.asset_data.exports.push(export(k)); }
    let mut probes: Vec<i32> = (-(n as i32) - 3..m as i32 + 4).collect();
    probes.extend([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, r.i32()]);
    for p in probes {
        let q = PackageIndex::new(p);
        let wi = if p < 0 { a.imports.get((-1 - p) as usize).cloned() } else { None };
        need!(a.get_import(q) == wi, "get_import({p}) of {n}: {:?}", a.get_import(q));
        need!(a.get_object_name(q).is_some() || wi.is_none(), "get_object_name({p}) of {n}");
        if let Some(w) = &wi { need!(a.get_object_name_packageindex(q) == Some(w.object_name.clone()), "get_object_name_packageindex({p})"); }
        let we = if p > 0 && (p as usize) <= m { Some(p as usize - 1) } else { None };
        need!(a.get_export(q).map(num) == we, "get_export({p}) of {m}: {:?}", a.get_export(q).map(num));
        need!(a.get_export_mut(q).map(|e| num(e)) == we, "get_export_mut({p}) of {m}");
        need!(a.asset_data.get_export(q).map(num) == we, "AssetData::get_export({p}) of {m}");
    }
    // searching finds the first import with those names
    for _ in 0..4 {
        let w = |r: &mut Rng| format!("n{}", r.below(4));
        let (x, y, o, z) = (w(r), w(r), r.below(4) as i32 - 1, w(r));
        let (fx, fy, fz) = (FName::from_slice(&x), FName::from_slice(&y), FName::from_slice(&z));
        let t = (x, y, o, z);
        let want = made.iter().position(|e| *e == t).map(|k| -1 - k as i32);
        let got = a.find_import(&fx, &fy, PackageIndex::new(o), &fz);
        need!(got == want, "find_import of {t:?} in {made:?}: {got:?}");
        let want = made.iter().position(|e| e.0 == t.0 && e.1 == t.1 && e.3 == t.3).map(|k| -1 - k as i32);
        let got = a.find_import_no_index(&fx, &fy, &fz);
        need!(got == want, "find_import_no_index of {t:?} in {made:?}: {got:?}");
    }
    Ok(())
}
