//! A01: whole assets. The bytes of an asset are laid out here, from a description, without the code under test; reading them has to
//! find what the description says, writing them back has to give the same bytes, and editing the asset and the description alike
//! has to keep the two in step.
use crate::ar::Ar;
use crate::p_exp::{g, head, list, name, pi, st, strukt, uprop, ver};
use crate::p_prop::{index, tile, G};
use crate::rng::Rng;
use crate::Case;
use std::io::Cursor;
use unreal_asset::Asset;
use unreal_asset_base::crc;
use unreal_asset_base::custom_version::{CustomVersion, CustomVersionTrait, FCoreObjectVersion, FFrameworkObjectVersion, FReleaseObjectVersion};
use unreal_asset_base::engine_version::EngineVersion as V;
use unreal_asset_base::flags::{EFunctionFlags, EObjectFlags, EPackageFlags, EStructFlags, EClassFlags};
use unreal_asset_base::object_version::{ObjectVersion as O, ObjectVersionUE5 as O5};
use unreal_asset_base::types::fname::{FName, FNameContainer};
use unreal_asset_base::types::PackageIndex;
use unreal_asset_base::{Guid, Import};
use unreal_asset_exports::*;

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn a01() -> Vec<Case> { vec![("same", same), ("edited", edited), ("new_types", new_types)] }
pub fn n03() -> Vec<Case> { vec![("visit", visit), ("rebuild", rebuild)] }

#[derive(Clone, Debug)]
struct Imp { package: (i32, i32), class: (i32, i32), outer: i32, name: (i32, i32), optional: bool }
#[derive(Clone, Debug)]
struct Exp {
    class: i32, sup: i32, template: i32, outer: i32, name: (i32, i32), flags: u32, forced: bool, client: bool, server: bool, guid: [u8; 16], inherited: bool, pflags: u32,
    editor: bool, asset: bool, hash: bool, deps: [Vec<i32>; 4], body: Vec<u8>, kind: &'static str,
}
#[derive(Clone, Debug)]
struct Spec {
    legacy: i32, unversioned: bool, object: O, object5: O5, licensee: i32, custom: Vec<([u8; 16], i32)>, folder: String, flags: u32, names: Vec<(String, bool)>,
    paths_at: i32, text_at: i32, searchable: i32, thumbs: i32, guid: [u8; 16], generations: usize, recorded: (u16, u16, u16, u32, Option<String>), compatible: (u16, u16, u16, u32, Option<String>),
    cflags: u32, source: u32, chunks: Vec<i32>, referenced: i32, toc: i64, resources: i32,
    imports: Vec<Imp>, exports: Vec<Exp>, depends: Option<Vec<Vec<i32>>>, zero_depends: bool, soft: Option<Vec<String>>, registry: bool, tile: Option<Vec<u8>>, edl: bool,
}
#[derive(Default)]
struct Off { header: i32, names: i32, imports: i32, exports: i32, depends: i32, soft: i32, registry: i32, tile: i32, preload: i32, preloads: i32, bulk: i64 }
struct W(Vec<u8>);
impl W {
    fn i(&mut self, v: i32) { self.0.extend(v.to_le_bytes()) }
    fn u(&mut self, v: u32) { self.0.extend(v.to_le_bytes()) }
    fn l(&mut self, v: i64) { self.0.extend(v.to_le_bytes()) }
    fn b(&mut self, v: bool) { self.i(v as i32) }
    fn n(&mut self, v: (i32, i32)) { self.i(v.0); self.i(v.1) }
    fn s(&mut self, s: Option<&str>) {
        match s {
            None => self.i(0),
            Some(t) if t.is_ascii() => { self.i(t.len() as i32 + 1); self.0.extend(t.as_bytes()); self.0.push(0) }
            Some(t) => { let u: Vec<u16> = t.encode_utf16().collect(); self.i(-(u.len() as i32 + 1)); for c in u { self.0.extend(c.to_le_bytes()) } self.0.extend([0, 0]) }
        }
    }
    fn ev(&mut self, v: &(u16, u16, u16, u32, Option<String>)) { for x in [v.0, v.1, v.2] { self.0.extend(x.to_le_bytes()) } self.u(v.3); self.s(v.4.as_deref()) }
    fn at(&self) -> i32 { self.0.len() as i32 }
}
impl Spec {
    fn header(&self, o: &Off) -> Vec<u8> {
        let mut w = W(vec![]);
        let s = self;
        w.0.extend([0xc1, 0x83, 0x2a, 0x9e]);
        w.i(s.legacy);
        if s.legacy != -4 { w.i(if s.unversioned { 0 } else { 864 }) }
        w.i(if s.unversioned { 0 } else { s.object.into() });
        if s.legacy <= -8 { w.i(if s.unversioned { 0 } else { s.object5.into() }) }
        w.i(s.licensee);
        if s.legacy <= -2 { if s.unversioned { w.i(0) } else { w.i(s.custom.len() as i32); for c in &s.custom { w.0.extend(c.0); w.i(c.1) } } }
        w.i(o.header);
        w.s(Some(&s.folder));
        w.u(s.flags);
        w.i(s.names.len() as i32);
        w.i(o.names);
        if s.object5 >= O5::ADD_SOFTOBJECTPATH_LIST { w.i(0); w.i(s.paths_at) }
        if s.object >= O::VER_UE4_SERIALIZE_TEXT_IN_PACKAGES { w.i(0); w.i(s.text_at) }
        w.i(s.exports.len() as i32);
        w.i(o.exports);
        w.i(s.imports.len() as i32);
        w.i(o.imports);
        w.i(o.depends);
        if s.object >= O::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP { w.i(s.soft.as_ref().map_or(0, |x| x.len() as i32)); w.i(o.soft) }
        if s.object >= O::VER_UE4_ADDED_SEARCHABLE_NAMES { w.i(s.searchable) }
        w.i(s.thumbs);
        w.0.extend(s.guid);
        w.i(s.generations as i32);
        for _ in 0..s.generations { w.i(s.exports.len() as i32); w.i(s.names.len() as i32) }
        if s.object >= O::VER_UE4_ENGINE_VERSION_OBJECT { w.ev(&s.recorded) } else { w.u(s.recorded.3) }
        if s.object >= O::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION { w.ev(&s.compatible) }
        w.u(s.cflags);
        w.i(0);
        w.u(s.source);
        w.i(0);
        if s.legacy > -7 { w.i(0) }
        w.i(o.registry);
        w.l(o.bulk);
        if s.object >= O::VER_UE4_WORLD_LEVEL_INFO { w.i(o.tile) }
        if s.object >= O::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS { w.i(s.chunks.len() as i32); for c in &s.chunks { w.i(*c) } }
        else if s.object >= O::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE { w.i(s.chunks[0]) }
        if s.object >= O::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS { w.i(o.preloads); w.i(o.preload) }
        if s.object5 >= O5::NAMES_REFERENCED_FROM_EXPORT_DATA { w.i(s.referenced) }
        if s.object5 >= O5::PAYLOAD_TOC { w.l(s.toc) }
        if s.object5 >= O5::DATA_RESOURCES { w.i(s.resources) }
        w.0
    }
    fn exports(&self, starts: &[i64], end: i64) -> Vec<u8> {
        let mut w = W(vec![]);
        let (o, o5) = (self.object, self.object5);
        let mut first = 0;
        for (i, e) in self.exports.iter().enumerate() {
            w.i(e.class);
            w.i(e.sup);
            if o >= O::VER_UE4_TemplateIndex_IN_COOKED_EXPORTS { w.i(e.template) }
            w.i(e.outer);
            w.n(e.name);
            w.u(e.flags);
            let at = starts.get(i).copied().unwrap_or(0);
            let size = starts.get(i + 1).copied().unwrap_or(end) - at;
            if o < O::VER_UE4_64BIT_EXPORTMAP_SERIALSIZES { w.i(size as i32); w.i(at as i32) } else { w.l(size); w.l(at) }
            w.b(e.forced); w.b(e.client); w.b(e.server);
            if o5 < O5::REMOVE_OBJECT_EXPORT_PACKAGE_GUID { w.0.extend(e.guid) }
            if o5 >= O5::TRACK_OBJECT_EXPORT_IS_INHERITED { w.b(e.inherited) }
            w.u(e.pflags);
            if o >= O::VER_UE4_LOAD_FOR_EDITOR_GAME { w.b(e.editor) }
            if o >= O::VER_UE4_COOKED_ASSETS_IN_EDITOR_SUPPORT { w.b(e.asset) }
            if o5 >= O5::OPTIONAL_RESOURCES { w.b(e.hash) }
            if o >= O::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS {
                w.i(if self.edl { first } else { -1 });
                for d in &e.deps { w.i(d.len() as i32); first += d.len() as i32 }
            }
        }
        w.0
    }
    fn build(&self) -> (Vec<u8>, Option<Vec<u8>>) {
        let mut o = Off::default();
        let mut w = W(self.header(&o));
        o.names = w.at();
        for (n, zero) in &self.names {
            w.s(Some(n));
            if self.object >= O::VER_UE4_NAME_HASHES_SERIALIZED { w.u(if *zero { 0 } else { crc::generate_hash(n) }) }
        }
        o.imports = w.at();
        for i in &self.imports {
            w.n(i.package); w.n(i.class); w.i(i.outer); w.n(i.name);
            if self.object5 >= O5::OPTIONAL_RESOURCES { w.b(i.optional) }
        }
        o.exports = w.at();
        w.0.extend(self.exports(&[], 0));
        if let Some(d) = &self.depends {
            if !self.zero_depends { o.depends = w.at(); }
            for i in 0..self.exports.len() { let e = d.get(i).cloned().unwrap_or_default(); w.i(e.len() as i32); for x in e { w.i(x) } }
        }
        if let Some(v) = &self.soft { o.soft = w.at(); for s in v { w.s(Some(s)) } }
        if self.registry { o.registry = w.at(); w.i(0) }
        if let Some(t) = &self.tile { o.tile = w.at(); w.0.extend(t) }
        o.preload = w.at();
        o.preloads = -1;
        if self.edl {
            o.preloads = 0;
            for e in &self.exports { for d in &e.deps { for x in d { w.i(*x); o.preloads += 1 } } }
        }
        o.header = w.at();
        let mut starts = vec![];
        let mut body = vec![];
        for e in &self.exports { starts.push(o.header as i64 + body.len() as i64); body.extend(&e.body) }
        o.bulk = o.header as i64 + body.len() as i64;
        body.extend([0xc1, 0x83, 0x2a, 0x9e]);
        let h = self.header(&o);
        w.0[..h.len()].copy_from_slice(&h);
        let x = self.exports(&starts, o.bulk);
        let at = o.exports as usize;
        w.0[at..at + x.len()].copy_from_slice(&x);
        if self.edl { (w.0, Some(body)) } else { w.0.extend(body); (w.0, None) }
    }
}
fn sixteen(r: &mut Rng) -> [u8; 16] { r.bytes(16).try_into().unwrap() }
fn nonul(r: &mut Rng, n: usize) -> String { r.string(n).replace('\0', "") }
fn ev(r: &mut Rng) -> (u16, u16, u16, u32, Option<String>) { (r.u32() as u16, r.u32() as u16, r.u32() as u16, r.u32(), if r.chance(1, 4) { None } else { Some(nonul(r, 12)) }) }
fn nm(r: &mut Rng, k: usize) -> (i32, i32) { (r.us(k) as i32, if r.bool() { 0 } else { r.i32() }) }
fn set(ar: &mut Ar, g: Guid, v: i32) { ar.custom.retain(|c: &CustomVersion| c.guid != g); ar.custom.push(CustomVersion::new(g, v)); }
const KINDS: [(&str, &str); 17] = [("Thing", "NormalExport"), ("Thing", "NormalExport"), ("Odd", "RawExport"), ("Level", "LevelExport"), ("World", "WorldExport"), ("UserDefinedStruct", "UserDefinedStructExport"),
    ("StringTable", "StringTableExport"), ("MyStringTable", "StringTableExport"), ("Enum", "EnumExport"), ("UserDefinedEnum", "EnumExport"), ("Function", "FunctionExport"), ("DataTable", "DataTableExport"),
    ("CompositeDataTable", "DataTableExport"), ("IntProperty", "PropertyExport"), ("MapProperty", "PropertyExport"), ("BlueprintGeneratedClass", "ClassExport"), ("WidgetBlueprintGeneratedClass", "ClassExport")];
/// the content of an export of a class; what follows it are bytes no reader looks into
fn body(g: &mut G, class: &str) {
    match class {
        "Odd" => { let k = g.r.us(20); g.c(-1); g.c(0); let b = g.r.bytes(k); g.put(&b); return }
        "Level" => { head(g); list(g, 4); for _ in 0..4 { st(g); } let k = g.r.cnt(4); g.c(k as i32); for _ in 0..k { st(g); } g.i32(); g.i32(); pi(g); list(g, 3); pi(g); pi(g); pi(g); }
        "World" => { head(g); pi(g); list(g, 4); list(g, 4); }
        "UserDefinedStruct" => { strukt(g); let f = g.r.u32() & EStructFlags::all().bits(); g.put(&f.to_le_bytes()); g.left = 3; g.props(3) }
        "StringTable" | "MyStringTable" => { head(g); st(g); let k = g.r.cnt(4); g.c(k as i32); for i in 0..k { g.s(Some(&format!("k{i}"))); let v = nonul(g.r, 6); g.s(Some(&v)) } }
        "Enum" | "UserDefinedEnum" => {
            head(g);
            let k = g.r.cnt(4);
            g.c(k as i32);
            for _ in 0..k {
                name(g);
                if g.ar.object < O::VER_UE4_TIGHTLY_PACKED_ENUMS {} else if ver::<FCoreObjectVersion>(g.ar) < FCoreObjectVersion::EnumProperties as i32 { g.u8() } else { g.i64() }
            }
            if g.ar.object < O::VER_UE4_ENUM_CLASS_SUPPORT { g.bool32() } else { g.en(3) }
        }
        "Function" => { strukt(g); let f = g.r.u32() & EFunctionFlags::all().bits(); g.put(&f.to_le_bytes()) }
        "DataTable" | "CompositeDataTable" => { head(g); let k = g.r.cnt(4); g.c(k as i32); for _ in 0..k { g.name(); g.left = 2; g.props(2) } }
        "IntProperty" => { head(g); uprop(g, 0, false) }
        "MapProperty" => { head(g); uprop(g, 2, false) }
        "Thing" => g.props(4),
        _ => {
            strukt(g);
            let k = g.r.us(3);
            g.c(k as i32);
            for i in 0..k { let x = index(g.ar, &format!("f{i}")); g.c(x); g.c(0); g.i32() }
            let f = g.r.u32() & EClassFlags::all().bits();
            g.put(&f.to_le_bytes());
            g.i32();
            g.name();
            let after = g.ar.object >= O::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING;
            let n = g.r.us(3);
            let ifs = |g: &mut G| { g.c(n as i32); for _ in 0..n { g.i32(); g.i32(); g.bool32() } };
            if !after { ifs(g) }
            g.i32();
            if after { ifs(g) }
            g.bool32();
            g.n("None");
            if g.ar.object >= O::VER_UE4_ADD_COOKED_TO_UCLASS { g.bool32() }
            g.i32()
        }
    }
    if g.r.bool() { let k = g.r.us(9); let b = g.r.bytes(k); g.put(&b) }
}
/// a description, with the engine version to give to the reader
fn spec(r: &mut Rng) -> (Spec, V) {
    let mut ar = crate::p_exp::arch(r);
    let unversioned = r.bool();
    let engine;
    if unversioned {
        engine = r.pick(&[V::VER_UE4_0, V::VER_UE4_2, V::VER_UE4_5, V::VER_UE4_8, V::VER_UE4_11, V::VER_UE4_13, V::VER_UE4_14, V::VER_UE4_15, V::VER_UE4_16, V::VER_UE4_18, V::VER_UE4_22, V::VER_UE4_25, V::VER_UE4_27, V::VER_UE5_0, V::VER_UE5_1, V::VER_UE5_2]);
        let like = Ar::new(engine);
        ar.engine = engine; ar.object = like.object; ar.object5 = like.object5; ar.custom = like.custom;
    } else {
        let at = [O::VER_UE4_WORLD_LEVEL_INFO, O::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE, O::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS, O::VER_UE4_ENGINE_VERSION_OBJECT, O::VER_UE4_LOAD_FOR_EDITOR_GAME,
            O::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP, O::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION, O::VER_UE4_SERIALIZE_TEXT_IN_PACKAGES, O::VER_UE4_COOKED_ASSETS_IN_EDITOR_SUPPORT, O::VER_UE4_NAME_HASHES_SERIALIZED,
            O::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS, O::VER_UE4_TemplateIndex_IN_COOKED_EXPORTS, O::VER_UE4_ADDED_SEARCHABLE_NAMES, O::VER_UE4_64BIT_EXPORTMAP_SERIALSIZES];
        let v: i32 = r.pick(&at).into();
        ar.object = O::try_from(v - r.us(2) as i32).unwrap_or(O::VER_UE4_64BIT_EXPORTMAP_SERIALSIZES);
        ar.object5 = O5::UNKNOWN;
        if r.chance(1, 3) { ar.object = O::VER_UE4_CORRECT_LICENSEE_FLAG; ar.object5 = O5::try_from(1000 + r.us(10) as i32).unwrap(); }
        engine = if r.bool() { V::UNKNOWN } else if ar.object5 > O5::UNKNOWN { r.pick(&[V::VER_UE5_0, V::VER_UE5_1, V::VER_UE5_2]) } else { r.pick(&[V::VER_UE4_0, V::VER_UE4_15, V::VER_UE4_16, V::VER_UE4_27]) };
        ar.engine = engine;
        ar.custom.truncate(r.us(30));
        if r.bool() { let v = r.us(40) as i32; set(&mut ar, FFrameworkObjectVersion::GUID, v); let v = r.us(50) as i32; set(&mut ar, FReleaseObjectVersion::GUID, v); let v = r.us(5) as i32; set(&mut ar, FCoreObjectVersion::GUID, v) }
        if r.chance(1, 4) { let v = r.i32(); ar.custom.push(CustomVersion::new(Guid(sixteen(r)), v)) }
    }
    let edl = r.bool();
    ar.edl = edl;
    ar.objects.clear();
    for (c, _) in KINDS { index(&ar, c); }
    let extra = r.cnt(4);
    for i in 0..extra { index(&ar, &format!("extra{i}")); }
    for i in 0..3 { index(&ar, &format!("f{i}")); }
    let many = r.chance(1, 40);
    let n = if many { 130 + r.us(140) } else { 1 + r.us(4) };
    let mut exports = vec![];
    let mut kinds: Vec<(&'static str, &'static str)> = (0..n).map(|_| if many { KINDS[r.us(3)] } else { r.pick(&KINDS) }).collect();
    // a class may declare how the maps of the exports after it are stored
    kinds.sort_by_key(|k| k.1 == "ClassExport");
    let mut imports = vec![];
    let k0 = ar.names.get_ref().get_name_map_index_list().len();
    let mut classes = vec![];
    for (c, _) in KINDS {
        let i = index(&ar, c);
        classes.push((c, -1 - imports.len() as i32));
        imports.push(Imp { package: nm(r, k0), class: nm(r, k0), outer: r.i32(), name: (i, if r.bool() { 0 } else { r.i32() }), optional: r.bool() });
        let f = ar.names.get_ref().create_fname(i, 0);
        ar.objects.push(f);
    }
    for (c, kind) in kinds {
        let mut g = g(r, &ar);
        body(&mut g, c);
        let b = std::mem::take(&mut g.b);
        let k = ar.names.get_ref().get_name_map_index_list().len();
        let class = classes.iter().find(|x| x.0 == c).unwrap().1;
        let has = edl && ar.object >= O::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS;
        let mut deps: [Vec<i32>; 4] = Default::default();
        if has { for d in &mut deps { let k = if many { r.us(3) } else { r.cnt(3) }; *d = (0..k).map(|_| r.i32()).collect() } }
        exports.push(Exp { class, sup: r.i32(), template: if ar.object >= O::VER_UE4_TemplateIndex_IN_COOKED_EXPORTS { r.i32() } else { 0 }, outer: r.i32(), name: nm(r, k), flags: r.u32() & EObjectFlags::all().bits(), forced: r.bool(), client: r.bool(), server: r.bool(),
            guid: sixteen(r), inherited: r.bool(), pflags: r.u32(), editor: r.bool(), asset: r.bool(), hash: r.bool(), deps, body: b, kind });
    }
    let tile_bytes = if ar.object >= O::VER_UE4_WORLD_LEVEL_INFO && r.chance(1, 3) { let mut g = g(r, &ar); tile(&mut g); Some(std::mem::take(&mut g.b)) } else { None };
    let range = ar.object >= O::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS && ar.object < O::VER_UE4_64BIT_EXPORTMAP_SERIALSIZES;
    let depends = if range || r.bool() { Some((0..exports.len()).map(|_| { let k = r.us(4); (0..k).map(|_| r.i32()).collect() }).collect()) } else { None };
    let zero = r.chance(1, 3);
    let names: Vec<(String, bool)> = { let m = ar.names.get_ref(); m.get_name_map_index_list().iter().map(|s| (s.clone(), zero && s.len() % 3 == 0 || crc::generate_hash(s) == 0)).collect() };
    let single = ar.object < O::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS;
    let compatible = ev(r);
    let s = Spec {
        legacy: if ar.object5 > O5::UNKNOWN { -8 } else { -2 - r.us(7) as i32 }, unversioned, object: ar.object, object5: ar.object5, licensee: r.i32(),
        custom: ar.custom.iter().map(|c| (c.guid.0, c.version)).collect(), folder: nonul(r, 20), flags: r.u32() & (EPackageFlags::all() - EPackageFlags::PKG_UNVERSIONED_PROPERTIES).bits(),
        names, paths_at: r.i32(), text_at: r.i32(), searchable: r.i32(), thumbs: r.i32(), guid: sixteen(r), generations: r.us(4), recorded: ev(r), compatible,
        cflags: r.u32(), source: r.u32(), chunks: if single { vec![r.i32()] } else { let k = r.cnt(3); (0..k).map(|_| r.i32()).collect() }, referenced: r.i32(), toc: r.i64(), resources: r.i32(),
        imports, exports, depends, zero_depends: range && r.bool(), soft: if ar.object >= O::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP && r.bool() { let k = r.cnt(4); Some((0..k).map(|i| format!("/Game/{i}{}", nonul(r, 6))).collect()) } else { None },
        registry: r.bool(), tile: tile_bytes, edl,
    };
    (s, engine)
}
type A = Asset<Cursor<Vec<u8>>>;
fn read(b: &(Vec<u8>, Option<Vec<u8>>), v: V) -> Result<A, String> { Asset::new(Cursor::new(b.0.clone()), b.1.clone().map(Cursor::new), v, None).map_err(|e| format!("{e:?}")) }
fn write(a: &A, edl: bool) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    let mut x = Cursor::new(vec![]);
    let mut y = edl.then(|| Cursor::new(vec![]));
    a.write_data(&mut x, y.as_mut()).map_err(|e| format!("{e:?}"))?;
    Ok((x.into_inner(), y.map(|y| y.into_inner())))
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let at = (0..).find(|i| a.get(*i) != b.get(*i)).unwrap();
    let w = |v: &[u8]| v[at.min(v.len()).saturating_sub(8)..(at + 24).min(v.len())].to_vec();
    format!("{} and {} bytes, different from {at}: {:02x?} and {:02x?}", a.len(), b.len(), w(a), w(b))
}
fn bytes(what: &str, s: &Spec, want: &(Vec<u8>, Option<Vec<u8>>), got: &(Vec<u8>, Option<Vec<u8>>)) -> Result<(), String> {
    let v = format!("{what} in {:?} {:?} legacy {} edl {}", s.object, s.object5, s.legacy, s.edl);
    need!(want.0 == got.0, "{v}: asset file: {}", diff(&want.0, &got.0));
    need!(want.1.is_some() == got.1.is_some(), "{v}: bulk file");
    if let (Some(x), Some(y)) = (&want.1, &got.1) { need!(x == y, "{v}: bulk file: {}", diff(x, y)) }
    Ok(())
}
fn is(a: &A, n: &FName, w: (i32, i32)) -> bool { *n == a.get_name_map().get_ref().create_fname(w.0, w.1) }
fn kind(e: &Export<PackageIndex>) -> String { let s = format!("{e:?}"); s[..s.find('(').unwrap()].to_string() }
/// the asset holds what is described
fn holds(a: &A, s: &Spec) -> Result<(), String> {
    let d = &a.asset_data;
    need!(d.object_version == s.object && d.object_version_ue5 == s.object5 && d.summary.unversioned == s.unversioned && d.use_event_driven_loader == s.edl, "versions {:?} {:?}", d.object_version, d.object_version_ue5);
    need!(d.summary.package_flags.bits() == s.flags && d.summary.file_licensee_version == s.licensee && a.folder_name == s.folder && a.package_guid.0 == s.guid && a.package_source == s.source && a.legacy_file_version == s.legacy, "summary {:?}", d.summary);
    need!(a.generations.iter().all(|g| g.export_count == s.exports.len() as i32 && g.name_count == s.names.len() as i32) && a.generations.len() == s.generations, "generations");
    need!(s.unversioned || d.summary.custom_versions.iter().map(|c| (c.guid.0, c.version)).collect::<Vec<_>>() == s.custom, "custom versions {:?}", d.summary.custom_versions);
    let m = a.get_name_map();
    let names: Vec<_> = m.get_ref().get_name_map_index_list().to_vec();
    need!(names.iter().eq(s.names.iter().map(|n| &n.0)), "names {names:?}");
    need!(a.imports.len() == s.imports.len(), "{} imports for {}", a.imports.len(), s.imports.len());
    for (x, y) in a.imports.iter().zip(&s.imports) {
        need!(is(a, &x.class_package, y.package) && is(a, &x.class_name, y.class) && x.outer_index.index == y.outer && is(a, &x.object_name, y.name) && (s.object5 < O5::OPTIONAL_RESOURCES || x.optional == y.optional), "import {x:?} for {y:?}");
    }
    need!(d.exports.len() == s.exports.len(), "{} exports for {}", d.exports.len(), s.exports.len());
    for (x, y) in d.exports.iter().zip(&s.exports) {
        let b = x.get_base_export();
        let l = |v: &Vec<PackageIndex>| v.iter().map(|p| p.index).collect::<Vec<_>>();
        need!(b.class_index.index == y.class && b.super_index.index == y.sup && b.template_index.index == y.template && b.outer_index.index == y.outer && is(a, &b.object_name, y.name) && b.object_flags.bits() == y.flags, "export {b:?} for {y:?}");
        need!(b.forced_export == y.forced && b.not_for_client == y.client && b.not_for_server == y.server && b.package_flags == y.pflags, "export {b:?} for {y:?}");
        need!(s.object5 >= O5::REMOVE_OBJECT_EXPORT_PACKAGE_GUID || b.package_guid.0 == y.guid, "export {b:?} for {y:?}");
        need!(s.object5 < O5::TRACK_OBJECT_EXPORT_IS_INHERITED || b.is_inherited_instance == y.inherited, "export {b:?} for {y:?}");
        need!(s.object < O::VER_UE4_LOAD_FOR_EDITOR_GAME || b.not_always_loaded_for_editor_game == y.editor, "export {b:?} for {y:?}");
        need!(s.object < O::VER_UE4_COOKED_ASSETS_IN_EDITOR_SUPPORT || b.is_asset == y.asset, "export {b:?} for {y:?}");
        need!(s.object5 < O5::OPTIONAL_RESOURCES || b.generate_public_hash == y.hash, "export {b:?} for {y:?}");
        need!([&b.serialization_before_serialization_dependencies, &b.create_before_serialization_dependencies, &b.serialization_before_create_dependencies, &b.create_before_create_dependencies].iter().zip(&y.deps).all(|(p, q)| l(p) == *q), "dependencies {b:?} for {y:?}");
        need!(kind(x) == y.kind, "an export of kind {} was read as {}, object version {:?}, {:?}", y.kind, kind(x), s.object, s.object5);
    }
    Ok(())
}
fn same(r: &mut Rng) -> Result<(), String> {
    let (s, v) = spec(r);
    let b = s.build();
    let a = read(&b, v).map_err(|e| format!("well-formed asset refused: {e}: {:?} {:?} legacy {}", s.object, s.object5, s.legacy))?;
    holds(&a, &s)?;
    bytes("unmodified", &s, &b, &write(&a, s.edl)?)?;
    // writing leaves the asset as it is
    bytes("written twice", &s, &b, &write(&a, s.edl)?)
}
fn edited(r: &mut Rng) -> Result<(), String> {
    let (mut s, v) = spec(r);
    let mut a = read(&s.build(), v).map_err(|e| format!("well-formed asset refused: {e}"))?;
    for _ in 0..1 + r.us(6) {
        let k = s.names.len();
        match r.us(9) {
            0 => {
                let t = if r.chance(1, 6) { String::new() } else { nonul(r, 12) };
                a.add_fname(&t);
                if !s.names.iter().any(|n| n.0 == t) { let h = crc::generate_hash(&t) == 0; s.names.push((t, h)) }
            }
            1 => { let t = s.names[r.us(k)].clone(); if !t.0.starts_with("extra") { continue } a.add_name_reference(t.0.clone(), true); s.names.push(t) }
            2 => {
                let i = Imp { package: nm(r, k), class: nm(r, k), outer: r.i32(), name: nm(r, k), optional: r.bool() };
                let m = a.get_name_map();
                let f = |n: (i32, i32)| m.get_ref().create_fname(n.0, n.1);
                let at = a.add_import(Import::new(f(i.package), f(i.class), PackageIndex::new(i.outer), f(i.name), i.optional));
                s.imports.push(i);
                need!(at.index == -(s.imports.len() as i32), "import added at {at:?}");
            }
            3 => {
                let n = nm(r, k);
                let mut b: BaseExport<PackageIndex> = BaseExport { class_index: PackageIndex::new(s.exports[0].class), object_name: a.get_name_map().get_ref().create_fname(n.0, n.1), is_asset: r.bool(), ..Default::default() };
                let mut e = Exp { class: s.exports[0].class, sup: 0, template: 0, outer: 0, name: n, flags: 0, forced: false, client: false, server: false, guid: [0; 16], inherited: false, pflags: 0, editor: false, asset: b.is_asset, hash: false, deps: Default::default(), body: vec![], kind: "RawExport" };
                // read as raw again only for a class no reader can make sense of
                e.class = s.imports.iter().position(|i| s.names[i.name.0 as usize].0 == "Odd").map_or(0, |i| -1 - i as i32);
                b.class_index = PackageIndex::new(e.class);
                if s.edl && s.object >= O::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS { e.deps[1] = vec![r.i32(), r.i32()]; b.create_before_serialization_dependencies = e.deps[1].iter().map(|x| PackageIndex::new(*x)).collect() }
                e.body = vec![0xff; 4 + r.us(30)];
                a.asset_data.exports.push(RawExport { base_export: b, data: e.body.clone() }.into());
                s.exports.push(e);
            }
            4 if s.exports.len() > 1 => { let i = r.us(s.exports.len()); a.asset_data.exports.remove(i); s.exports.remove(i); }
            5 => {
                let i = r.us(s.exports.len());
                let k = r.us(40);
                let more = r.bytes(k);
                match &mut a.asset_data.exports[i] { Export::RawExport(x) => x.data.extend(&more), x => match x.get_normal_export_mut() { Some(n) => n.extras.extend(&more), None => continue } }
                s.exports[i].body.extend(more);
            }
            6 => { let i = r.us(s.imports.len()); let n = nm(r, k); let o = r.i32(); a.imports[i].class_name = a.get_name_map().get_ref().create_fname(n.0, n.1); a.imports[i].outer_index = PackageIndex::new(o); s.imports[i].class = n; s.imports[i].outer = o }
            7 if s.edl && s.object >= O::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS => {
                let i = r.us(s.exports.len());
                let b = a.asset_data.exports[i].get_base_export_mut();
                let v = r.i32();
                b.serialization_before_create_dependencies.push(PackageIndex::new(v));
                s.exports[i].deps[2].push(v);
            }
            _ => { let i = r.us(s.exports.len()); let v = r.i32(); let b = a.asset_data.exports[i].get_base_export_mut(); b.outer_index = PackageIndex::new(v); b.not_for_server = !b.not_for_server; s.exports[i].outer = v; s.exports[i].server = !s.exports[i].server }
        }
    }
    let b = s.build();
    let w = write(&a, s.edl)?;
    bytes("edited", &s, &b, &w)?;
    let a = read(&w, v).map_err(|e| format!("what was written is refused: {e}: {:?}", s.object))?;
    holds(&a, &s)?;
    bytes("edited and read again", &s, &b, &write(&a, s.edl)?)
}
/// a value of a type the asset did not hold before: its type is a name the table did not have
fn new_types(r: &mut Rng) -> Result<(), String> {
    use unreal_asset_properties::{int_property::Int8Property, Property};
    let (s, v) = spec(r);
    if s.names.iter().any(|n| n.0 == "LinearColor2") { return Ok(()); }
    let mut a = read(&s.build(), v).map_err(|e| format!("well-formed asset refused: {e}"))?;
    let Some(i) = s.exports.iter().position(|e| e.kind == "NormalExport") else { return Ok(()) };
    let before = a.asset_data.clone();
    let n = a.add_fname("fresh");
    let p: Property = Int8Property { name: n, ancestry: unreal_asset_base::unversioned::Ancestry::new(FName::default()), property_guid: None, duplication_index: 0, value: 5 }.into();
    let e = a.asset_data.exports[i].get_normal_export_mut().unwrap();
    e.properties.push(p);
    let w = write(&a, s.edl)?;
    let back = read(&w, v).map_err(|e| format!("an asset with a property of a new type was written so that it cannot be read: {e}"))?;
    need!(kind(&back.asset_data.exports[i]) == "NormalExport", "read back as {}", kind(&back.asset_data.exports[i]));
    let x = back.asset_data.exports[i].get_normal_export().unwrap();
    need!(matches!(x.properties.last(), Some(Property::Int8Property(q)) if q.value == 5), "the property added is not there: {:?}", x.properties);
    need!(back.asset_data.exports.len() == before.exports.len(), "exports");
    Ok(())
}

/// names in the debug form of a value, which is derived for every type and knows nothing of the traversal
fn spelled(d: &str) -> (usize, usize) {
    let marked = d.matches("Dummy { value: \"<").count();
    (marked, d.matches("Backed {").count() + d.matches("Dummy {").count() - marked)
}
fn visit(r: &mut Rng) -> Result<(), String> {
    let (s, v) = spec(r);
    let a = read(&s.build(), v).map_err(|e| format!("well-formed asset refused: {e}"))?;
    for e in &a.asset_data.exports { visited(e)?; }
    for i in &a.imports { visited(i)?; }
    if let Some(t) = &a.asset_data.world_tile_info { visited(t)?; }
    Ok(())
}
/// a slab only shows what it holds in the alternate form
fn flat<T: std::fmt::Debug>(v: &T) -> String { format!("{v:#?}").split_whitespace().collect::<Vec<_>>().join(" ") }
fn visited<T: FNameContainer + Clone + PartialEq + std::fmt::Debug>(v: &T) -> Result<(), String> {
    let mut w = v.clone();
    let before = flat(v);
    let mut seen: Vec<FName> = vec![];
    let mut twice = None;
    w.traverse_fnames(&mut |n| {
        if matches!(n, FName::Dummy { value, .. } if value.starts_with('<')) { twice = Some(n.clone()); }
        seen.push(n.clone());
        *n = FName::new_dummy(format!("<{}>", seen.len() - 1), 0);
    });
    need!(twice.is_none(), "visited twice: {:?} in {before:.2000}", seen[twice.unwrap().get_owned_content()[1..].trim_end_matches('>').parse::<usize>().unwrap()]);
    let after = flat(&w);
    let (_, left) = spelled(&after);
    if left != 0 {
        let at = after.find("Backed {").or_else(|| { let mut p = 0; loop { let q = p + after[p..].find("Dummy {")?; if !after[q..].starts_with("Dummy { value: \"<") { return Some(q) } p = q + 1 } }).unwrap_or(0);
        let from = (0..=at.saturating_sub(200)).rev().find(|i| after.is_char_boundary(*i)).unwrap_or(0);
        let mut to = (at + 100).min(after.len());
        while !after.is_char_boundary(to) { to -= 1 }
        return Err(format!("{left} names not visited, first at: {}", &after[from..to]));
    }
    for k in 0..seen.len() { need!(after.contains(&format!("Dummy {{ value: \"<{k}>\"")), "the name {:?} (visited {k}th) was visited, but what was put in its place is not in the value: {:.6000} BECAME {:.6000}", seen[k], before, after); }
    w.traverse_fnames(&mut |n| { let k: usize = n.get_owned_content()[1..].trim_end_matches('>').parse().unwrap(); *n = seen[k].clone(); });
    need!(w == *v, "visiting changed more than the names of {before:.2000}");
    Ok(())
}
fn texts<T: FNameContainer>(v: &mut T) -> Vec<(String, Option<i32>)> {
    let mut l = vec![];
    v.traverse_fnames(&mut |n| l.push((n.get_owned_content(), match n { FName::Backed { number, .. } | FName::Dummy { number, .. } => Some(*number) })));
    l
}
/// every name is where the asset's own table has its text
fn owned<T: FNameContainer>(v: &mut T, table: &[String]) -> Result<(), String> {
    let mut bad = None;
    v.traverse_fnames(&mut |n| if let FName::Backed { index, .. } = n { if table.get(*index as usize).map_or(true, |t| n.get_owned_content() != *t) { bad = Some((n.clone(), n.get_owned_content())) } });
    need!(bad.is_none(), "after rebuilding, a name means another text in the asset's own table: {bad:?}");
    Ok(())
}
/// exports and imports moved over from another asset
fn rebuild(r: &mut Rng) -> Result<(), String> {
    let (s, v) = spec(r);
    let (s2, v2) = spec(r);
    let mut a = read(&s.build(), v).map_err(|e| format!("well-formed asset refused: {e}"))?;
    let b = read(&s2.build(), v2).map_err(|e| format!("well-formed asset refused: {e}"))?;
    let names: Vec<String> = a.get_name_map().get_ref().get_name_map_index_list().to_vec();
    let k = a.asset_data.exports.len();
    for e in &b.asset_data.exports { let at = r.us(a.asset_data.exports.len() + 1); a.asset_data.exports.insert(at, e.clone()); }
    for i in &b.imports { a.imports.push(i.clone()); }
    if r.bool() { a.asset_data.world_tile_info = b.asset_data.world_tile_info.clone(); }
    let before = texts(&mut a);
    let kinds: Vec<String> = a.asset_data.exports.iter().map(kind).collect();
    a.rebuild_name_map();
    need!(a.asset_data.exports.iter().map(kind).eq(kinds) && a.asset_data.exports.len() == k + b.asset_data.exports.len(), "exports changed");
    let after = texts(&mut a);
    need!(before == after, "rebuilding changed the text of {:?}", before.iter().zip(&after).find(|(x, y)| x != y));
    let table: Vec<String> = a.get_name_map().get_ref().get_name_map_index_list().to_vec();
    for e in &mut a.asset_data.exports { owned(e, &table)?; }
    for i in &mut a.imports { owned(i, &table)?; }
    if let Some(t) = &mut a.asset_data.world_tile_info { owned(t, &table)?; }
    need!(table.starts_with(&names), "the names the table held before moved");
    let extra = &table[names.len()..];
    for t in extra { need!(after.iter().any(|x| x.0 == *t), "{t:?} was added although nothing uses it"); }
    Ok(())
}
