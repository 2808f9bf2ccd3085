//! E01: exports. The bytes of an export are generated from a table of layouts that does not look at the code under test;
//! reading them has to consume them all and find the values put in, and writing what was read has to give them back.
use crate::ar::Ar;
use crate::p_kismet;
use crate::p_prop::{archive, index, G};
use crate::rng::Rng;
use crate::Case;
use unreal_asset_base::custom_version::{CustomVersion, CustomVersionTrait, FCoreObjectVersion, FFrameworkObjectVersion, FReleaseObjectVersion};
use unreal_asset_base::engine_version::EngineVersion as V;
use unreal_asset_base::flags::{EClassFlags, EFunctionFlags, EObjectFlags, EPropertyFlags, EStructFlags};
use unreal_asset_base::object_version::ObjectVersion as O;
use unreal_asset_base::reader::ArchiveTrait;
use unreal_asset_base::types::fname::{FName, ToSerializedName};
use unreal_asset_base::types::PackageIndex;
use unreal_asset_exports::properties::fproperty::{FBoolProperty, FProperty};
use unreal_asset_exports::properties::uproperty::{UBoolProperty, UProperty};
use unreal_asset_exports::*;
use unreal_asset_kismet::KismetExpression;

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn e01() -> Vec<Case> {
    vec![("normal", normal), ("raw", raw), ("enums", enums), ("tables", tables), ("levels", levels), ("worlds", worlds), ("properties", properties), ("conditions", conditions), ("built", built), ("structs", structs),
        ("functions", functions), ("classes", classes), ("user_structs", user_structs), ("string_tables", string_tables), ("known_unversioned_read", known_unversioned_read), ("known_unversioned_write", known_unversioned_write)]
}
type B = BaseExport<PackageIndex>;
pub fn arch(r: &mut Rng) -> Ar {
    let mut ar = archive(r);
    if r.bool() {
        let mut set = |g, v: i32| { ar.custom.retain(|c: &CustomVersion| c.guid != g); ar.custom.push(CustomVersion::new(g, v)); };
        set(FCoreObjectVersion::GUID, r.us(5) as i32);
        set(FFrameworkObjectVersion::GUID, 24 + r.us(14) as i32);
        set(FReleaseObjectVersion::GUID, r.us(50) as i32);
    }
    if r.chance(1, 3) {
        let at = [O::VER_UE4_TIGHTLY_PACKED_ENUMS, O::VER_UE4_ENUM_CLASS_SUPPORT, O::VER_UE4_CLASS_NOTPLACEABLE_ADDED, O::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING, O::VER_UE4_ADD_COOKED_TO_UCLASS];
        let v: i32 = r.pick(&at).into();
        if let Ok(o) = O::try_from(v - r.us(2) as i32) { ar.object = o; }
    }
    if r.bool() { ar.engine = r.pick(&[V::VER_UE4_15, V::VER_UE4_16, V::VER_UE4_25]); }
    for (s, _) in FPROPS.iter() { index(&ar, s); }
    for (s, _) in UPROPS.iter() { index(&ar, s); }
    let m = index(&ar, "RowStruct");
    let _ = m;
    let k = ar.names.get_ref().get_name_map_index_list().len();
    for _ in 0..1 + r.us(4) { let f = ar.names.get_ref().create_fname(r.us(k) as i32, 0); ar.objects.push(f); }
    ar
}
fn base(r: &mut Rng, ar: &Ar) -> B {
    let mut b = B::default();
    b.class_index = PackageIndex::new(-1 - r.us(ar.objects.len()) as i32);
    b.object_name = ar.objects[0].clone();
    b.serial_size = r.i64();
    b
}
pub fn ver<T: CustomVersionTrait + Into<i32>>(ar: &Ar) -> i32 { ar.get_custom_version::<T>().version }
pub fn g<'a>(r: &'a mut Rng, ar: &'a Ar) -> G<'a> { let left = r.us(5) as i32; G { r, ar, b: vec![], left, num: 0 } }
/// properties, and the word that says that no guid follows
pub fn head(g: &mut G) { g.props(3); g.c(0); }
pub fn list(g: &mut G, n: usize) -> Vec<PackageIndex> {
    let k = g.r.cnt(n);
    g.c(k as i32);
    (0..k).map(|_| pi(g)).collect()
}
pub fn pi(g: &mut G) -> PackageIndex { let v = g.r.i32(); g.c(v); PackageIndex::new(v) }
fn int(g: &mut G) -> i32 { let v = g.r.i32(); g.c(v); v }
pub fn st(g: &mut G) -> Option<String> {
    let s = if g.r.chance(1, 5) { None } else { Some(g.r.string(9).chars().filter(|c| *c != '\0').collect::<String>()) };
    g.s(s.as_deref());
    s
}
pub fn name(g: &mut G) -> FName {
    let at = g.b.len();
    g.name();
    let w = |i: usize| i32::from_le_bytes(g.b[at + i..at + i + 4].try_into().unwrap());
    g.ar.names.get_ref().create_fname(w(0), w(4))
}
/// reading gives an export `v` for which `ok` holds, takes all bytes, and writing gives them back
fn check<E: ExportTrait<PackageIndex>>(ar: &Ar, b: &[u8], read: impl Fn(&mut Ar) -> Result<E, unreal_asset_base::Error>, ok: impl Fn(&E) -> bool) -> Result<(), String> {
    let mut rd = ar.like(b.to_vec());
    let v = read(&mut rd).map_err(|e| format!("in {:?} {:?}: well-formed export refused: {e:?}: {b:02x?}", ar.engine, ar.object))?;
    need!(rd.at() == b.len() as u64, "in {:?}: reading took {} of {} bytes: {v:?}", ar.object, rd.at(), b.len());
    need!(ok(&v), "in {:?} {:?}: fields differ from what is stored: {v:?} from {b:02x?}", ar.engine, ar.object);
    let mut w = ar.like(vec![]);
    v.write(&mut w).map_err(|e| format!("cannot be written: {v:?}: {e:?}"))?;
    let c = w.bytes();
    if c != b {
        let at = (0..).find(|i| b.get(*i) != c.get(*i)).unwrap();
        return Err(format!("in {:?} {:?}: read from {} bytes, written as {} bytes, different from {at}: {v:?}\n{b:02x?}\n{c:02x?}", ar.engine, ar.object, b.len(), c.len()));
    }
    need!(w.at() == c.len() as u64, "the writer ends at {} of {}", w.at(), c.len());
    let mut rd = ar.like(c);
    let v2 = read(&mut rd).map_err(|e| format!("what was written is refused: {e:?}"))?;
    need!(v == v2, "{v:?} written and read back is {v2:?}");
    Ok(())
}
fn normal(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    g.props(4);
    check(&ar, &g.b, |a| NormalExport::from_base(&bx, a), |v| v.base_export == bx && v.extras.is_empty())
}
fn raw(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let mut bx = base(r, &ar);
    let k = r.us(200);
    let b = r.bytes(k);
    bx.serial_size = k as i64;
    check(&ar, &b, |a| RawExport::from_base(bx.clone(), a), |v| v.data == b && v.base_export == bx)?;
    let mut w = ar.like(vec![]);
    bx.write(&mut w).map_err(|e| e.to_string())?;
    need!(w.bytes().is_empty(), "an export without content writes {:?}", w.bytes());
    Ok(())
}
fn enums(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    head(&mut g);
    let k = g.r.cnt(6);
    g.c(k as i32);
    let mut names = vec![];
    for i in 0..k {
        let n = name(&mut g);
        let v = if ar.object < O::VER_UE4_TIGHTLY_PACKED_ENUMS { i as i64 }
            else if ver::<FCoreObjectVersion>(&ar) < FCoreObjectVersion::EnumProperties as i32 { let v = g.r.u8(); g.put(&[v]); v as i64 }
            else { let v = g.r.i64(); g.put(&v.to_le_bytes()); v };
        names.push((n, v));
    }
    let form = if ar.object < O::VER_UE4_ENUM_CLASS_SUPPORT { let v = g.r.us(2); g.c(v as i32); v } else { let v = g.r.us(3); g.put(&[v as u8]); v };
    let form = [enum_export::ECppForm::Regular, enum_export::ECppForm::Namespaced, enum_export::ECppForm::EnumClass][form];
    check(&ar, &g.b, |a| EnumExport::from_base(&bx, a), |v| v.value.names == names && v.value.cpp_form == form && v.normal_export.base_export == bx)
}
fn tables(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    // the struct the rows have: one with a layout of its own or any other
    let row = g.r.pick(&["Vector", "Guid", "S1", "S2", "IntPoint", "Generic"]);
    if g.r.bool() {
        let mut ar2 = ar.like(vec![]);
        ar2.objects = { let i = index(&ar, row); vec![ar.names.get_ref().create_fname(i, 0)] };
        g.n("RowStruct"); g.n("ObjectProperty"); g.c(4); g.c(0); g.tag_guid(); g.c(-1);
        let custom = row != "Generic" && g.custom(row);
        let b = std::mem::take(&mut g.b);
        return table(g.r, &ar2, &bx, b, custom, row);
    }
    table(g.r, &ar, &bx, vec![], false, "Generic")
}
fn table(r: &mut Rng, ar: &Ar, bx: &B, b: Vec<u8>, custom: bool, row: &str) -> Result<(), String> {
    let bx = B { class_index: PackageIndex::new(-1), ..bx.clone() };
    let mut g = g(r, ar);
    g.left = 3;
    g.b = b;
    head(&mut g);
    let k = g.r.cnt(4);
    g.c(k as i32);
    let mut names = vec![];
    for _ in 0..k { let n = name(&mut g); names.push(n); if custom { g.body(row) } else { g.left = 2; g.props(2) } }
    check(ar, &g.b, |a| DataTableExport::from_base(&bx, a), |v| v.table.data.iter().map(|x| x.name.clone()).collect::<Vec<_>>() == names && v.table.data.iter().all(|x| x.struct_type.as_ref().is_some_and(|t| t.get_owned_content() == row)))
}
fn levels(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    head(&mut g);
    let actors = list(&mut g, 5);
    let (a, b, c, d) = (st(&mut g), st(&mut g), st(&mut g), st(&mut g));
    let k = g.r.cnt(4);
    g.c(k as i32);
    let options: Vec<_> = (0..k).map(|_| st(&mut g)).collect();
    let (port, valid) = (int(&mut g), int(&mut g));
    let model = pi(&mut g);
    let comps = list(&mut g, 4);
    let (s, x, y) = (pi(&mut g), pi(&mut g), pi(&mut g));
    check(&ar, &g.b, |q| LevelExport::from_base(&bx, q), |v| v.actors == actors && v.url.protocol == a && v.url.host == b && v.url.map == c && v.url.portal == d && v.url.options == options
        && v.url.port == port && v.url.valid == valid && v.model == model && v.model_components == comps && v.level_script == s && v.nav_list_start == x && v.nav_list_end == y)
}
fn worlds(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    head(&mut g);
    let l = pi(&mut g);
    let (x, y) = (list(&mut g, 4), list(&mut g, 4));
    check(&ar, &g.b, |q| WorldExport::from_base(&bx, q), |v| v.persistent_level == l && v.extra_objects == x && v.streaming_levels == y)
}
fn string_tables(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    head(&mut g);
    let ns = st(&mut g);
    let k = g.r.cnt(5);
    g.c(k as i32);
    let mut want = vec![];
    for i in 0..k {
        let key = format!("{i}:{}", g.r.string(5).replace('\0', ""));
        let val = g.r.string(9).replace('\0', "");
        g.s(Some(&key));
        g.s(Some(&val));
        want.push((key, val));
    }
    check(&ar, &g.b, |q| StringTableExport::from_base(&bx, q), |v| v.namespace == ns && v.table.len() == want.len() && v.table.iter().zip(&want).all(|((_, a, b), (c, d))| a == c && b == d))
}
/// kinds of UProperty, with the number of references behind the common part
const UPROPS: [(&str, usize); 29] = [("EnumProperty", 2), ("ArrayProperty", 1), ("SetProperty", 1), ("ObjectProperty", 1), ("SoftObjectProperty", 1), ("LazyObjectProperty", 1), ("ClassProperty", 2),
    ("SoftClassProperty", 2), ("DelegateProperty", 1), ("MulticastDelegateProperty", 1), ("MulticastInlineDelegateProperty", 1), ("InterfaceProperty", 1), ("MapProperty", 2), ("ByteProperty", 1),
    ("StructProperty", 1), ("DoubleProperty", 0), ("FloatProperty", 0), ("IntProperty", 0), ("Int8Property", 0), ("Int16Property", 0), ("Int64Property", 0), ("UInt8Property", 0), ("UInt16Property", 0),
    ("UInt64Property", 0), ("NameProperty", 0), ("StrProperty", 0), ("TextProperty", 0), ("BoolProperty", 0), ("Strange", 0)];
pub fn uprop(g: &mut G, k: usize, boolean: bool) {
    if ver::<FFrameworkObjectVersion>(g.ar) < FFrameworkObjectVersion::RemoveUfieldNext as i32 { g.i32() }
    let d = g.r.us(3) as i32;
    g.c(d);
    let f = g.r.u64() & EPropertyFlags::all().bits();
    g.put(&f.to_le_bytes());
    g.name();
    if ver::<FReleaseObjectVersion>(g.ar) >= FReleaseObjectVersion::PropertiesSerializeRepCondition as i32 { let c = g.r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16]); g.put(&[c]); }
    for _ in 0..k { g.i32() }
    if boolean { g.u8(); g.bool(); }
}
fn uname(p: &UProperty) -> String { let s = format!("{p:?}"); s[..s.find('(').unwrap_or(0)].to_string() }
fn properties(r: &mut Rng) -> Result<(), String> {
    let mut ar = arch(r);
    let (ty, k) = r.pick(&UPROPS);
    ar.objects = { let i = index(&ar, ty); vec![ar.names.get_ref().create_fname(i, 0)] };
    let mut bx = base(r, &ar);
    bx.class_index = PackageIndex::new(-1);
    let mut g = g(r, &ar);
    head(&mut g);
    uprop(&mut g, k, ty == "BoolProperty");
    let want = if ty == "Strange" || ty == "TextProperty" { "UGenericProperty".to_string() } else { format!("U{ty}") };
    check(&ar, &g.b, |q| PropertyExport::from_base(&bx, q), |v| uname(&v.property) == want)
}
/// a replication condition nobody knows: refused, or kept
fn conditions(r: &mut Rng) -> Result<(), String> {
    let mut ar = arch(r);
    if ver::<FReleaseObjectVersion>(&ar) < FReleaseObjectVersion::PropertiesSerializeRepCondition as i32 { return Ok(()); }
    let (ty, k) = r.pick(&UPROPS);
    ar.objects = { let i = index(&ar, ty); vec![ar.names.get_ref().create_fname(i, 0)] };
    let mut bx = base(r, &ar);
    bx.class_index = PackageIndex::new(-1);
    let c = r.u8();
    let mut g = g(r, &ar);
    head(&mut g);
    let at = g.b.len();
    uprop(&mut g, k, ty == "BoolProperty");
    let skip = if ver::<FFrameworkObjectVersion>(&ar) < FFrameworkObjectVersion::RemoveUfieldNext as i32 { 4 } else { 0 };
    g.b[at + skip + 4 + 8 + 8] = c;
    let b = g.b.clone();
    let mut rd = ar.like(b.clone());
    let Ok(v) = PropertyExport::from_base(&bx, &mut rd) else { return Ok(()) };
    let mut w = ar.like(vec![]);
    v.write(&mut w).map_err(|e| e.to_string())?;
    need!(w.bytes() == b, "a property with the replication condition {c} was read, and is written as something else: {} bytes for {}", w.bytes().len(), b.len());
    Ok(())
}
/// exports built in memory
fn built(r: &mut Rng) -> Result<(), String> {
    let mut ar = arch(r);
    ar.objects = { let i = index(&ar, "BoolProperty"); vec![ar.names.get_ref().create_fname(i, 0)] };
    let mut bx = base(r, &ar);
    bx.class_index = PackageIndex::new(-1);
    let mut p = UBoolProperty { element_size: r.u8(), native_bool: r.bool(), ..Default::default() };
    p.generic_property.rep_notify_func = ar.objects[0].clone();
    p.generic_property.u_field.next = (ver::<FFrameworkObjectVersion>(&ar) < FFrameworkObjectVersion::RemoveUfieldNext as i32).then(|| PackageIndex::new(5));
    p.generic_property.blueprint_replication_condition = (ver::<FReleaseObjectVersion>(&ar) >= FReleaseObjectVersion::PropertiesSerializeRepCondition as i32).then(Default::default);
    let e = PropertyExport { normal_export: NormalExport { base_export: bx.clone(), extras: vec![], properties: vec![] }, property: p.into() };
    let mut w = ar.like(vec![]);
    e.write(&mut w).map_err(|e| e.to_string())?;
    let b = w.bytes();
    let mut rd = ar.like(b.clone());
    let back = PropertyExport::from_base(&bx, &mut rd).map_err(|e| format!("{e:?}"))?;
    need!(back == e && rd.at() == b.len() as u64, "{e:?} written and read back is {back:?}, {} of {} bytes", rd.at(), b.len());
    let mut q = FBoolProperty { field_size: 1, value: r.bool(), ..Default::default() };
    q.generic_property.name = ar.objects[0].clone();
    q.generic_property.rep_notify_func = ar.objects[0].clone();
    let q: FProperty = q.into();
    let mut w = ar.like(vec![]);
    FProperty::write(&q, &mut w).map_err(|e| e.to_string())?;
    let mut rd = ar.like(w.bytes());
    let back = FProperty::new(&mut rd).map_err(|e| format!("{e:?}"))?;
    need!(back == q, "{q:?} written and read back is {back:?}");
    Ok(())
}
/// kinds of FProperty: references behind the common part, and the shape of what follows
const FPROPS: [(&str, i32); 18] = [("EnumProperty", -1), ("ArrayProperty", -2), ("SetProperty", -2), ("ObjectProperty", 1), ("SoftObjectProperty", 1), ("ClassProperty", 2), ("SoftClassProperty", 2), ("DelegateProperty", 1),
    ("MulticastDelegateProperty", 1), ("MulticastInlineDelegateProperty", 1), ("InterfaceProperty", 1), ("MapProperty", -3), ("BoolProperty", -4), ("ByteProperty", 1), ("StructProperty", 1), ("NumericProperty", 0),
    ("IntProperty", 0), ("Strange", 0)];
fn fprop(g: &mut G, deep: usize) {
    let (ty, k) = loop { let x = g.r.pick(&FPROPS); if deep > 0 || x.1 >= 0 || x.1 == -4 { break x; } };
    g.n(ty);
    g.name();
    let f = g.r.u32() & EObjectFlags::all().bits();
    g.put(&f.to_le_bytes());
    let d = g.r.us(3) as i32;
    g.c(d);
    g.i32();
    let f = g.r.u64() & EPropertyFlags::all().bits();
    g.put(&f.to_le_bytes());
    g.u8(); g.u8();
    g.name();
    let c = g.r.pick(&[0u8, 1, 7, 8, 13, 15, 16]);
    g.put(&[c]);
    match k {
        -1 => { g.i32(); fprop(g, deep - 1) }
        -2 => fprop(g, deep - 1),
        -3 => { fprop(g, deep - 1); fprop(g, deep - 1) }
        -4 => { for _ in 0..4 { g.u8() } g.bool(); g.bool() }
        n => for _ in 0..n { g.i32() },
    }
}
pub struct S { field: Option<PackageIndex>, sup: PackageIndex, children: Vec<PackageIndex>, props: usize, code: Vec<KismetExpression>, size: i32, raw: Vec<u8> }
pub fn strukt(g: &mut G) -> S {
    head(g);
    let field = (ver::<FFrameworkObjectVersion>(g.ar) < FFrameworkObjectVersion::RemoveUfieldNext as i32).then(|| pi(g));
    let sup = pi(g);
    let children = list(g, 4);
    let mut props = 0;
    if ver::<FCoreObjectVersion>(g.ar) >= FCoreObjectVersion::FProperties as i32 {
        props = g.r.us(4);
        g.c(props as i32);
        for _ in 0..props { let deep = g.r.us(3); fprop(g, deep) }
    }
    let (mut code, mut raw, mut size) = (vec![], vec![], 0);
    if g.ar.engine >= V::VER_UE4_16 && !g.r.chance(1, 5) {
        let k = g.r.us(4);
        let names = vec![g.ar.objects[0].clone()];
        let mut q = p_kismet::G::new(g.r, g.ar, names);
        q.left = q.r.us(6);
        for _ in 0..k { let e = q.expr(); code.push(e); }
        let (b, n) = (std::mem::take(&mut q.b), q.n);
        size = n as i32;
        g.c(size);
        g.c(b.len() as i32);
        g.put(&b);
    } else {
        let old = g.ar.engine < V::VER_UE4_16;
        size = g.r.i32();
        let k = if old { g.r.us(30) } else { 1 + g.r.us(30) };
        // not a token the script has, unless scripts are not decoded at all
        raw = g.r.bytes(k);
        if !old { raw[0] = 0xF1; }
        // an expression (an integer constant) that goes on past the end of the script
        if !old && g.r.chance(1, 3) { raw.truncate(1 + g.r.us(4)); raw[0] = 0x1D; }
        let k = raw.len();
        g.c(size);
        g.c(k as i32);
        g.put(&raw.clone());
        let _ = &mut size;
    }
    S { field, sup, children, props, code, size, raw }
}
fn is(v: &StructExport<PackageIndex>, s: &S, ar: &Ar) -> bool {
    let code = if !s.raw.is_empty() || ar.engine < V::VER_UE4_16 { v.script_bytecode.is_none() && v.script_bytecode_raw.as_ref() == Some(&s.raw) } else { v.script_bytecode.as_ref() == Some(&s.code) && v.script_bytecode_raw.is_none() };
    v.field.next == s.field && v.super_struct == s.sup && v.children == s.children && v.loaded_properties.len() == s.props && v.script_bytecode_size == s.size && code
}
fn structs(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    let s = strukt(&mut g);
    check(&ar, &g.b, |q| StructExport::from_base(&bx, q), |v| is(v, &s, &ar) && v.loaded_properties.iter().all(|p| !p.to_serialized_name().is_empty()))
}
fn functions(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    let s = strukt(&mut g);
    let f = g.r.u32() & EFunctionFlags::all().bits();
    g.put(&f.to_le_bytes());
    check(&ar, &g.b, |q| FunctionExport::from_base(&bx, q), |v| is(&v.struct_export, &s, &ar) && v.function_flags.bits() == f)
}
fn user_structs(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    let s = strukt(&mut g);
    let f = g.r.u32() & EStructFlags::all().bits();
    g.put(&f.to_le_bytes());
    g.left = 4;
    g.props(3);
    check(&ar, &g.b, |q| UserDefinedStructExport::from_base(&bx, q), |v| is(&v.struct_export, &s, &ar) && v.flags.bits() == f)
}
fn classes(r: &mut Rng) -> Result<(), String> {
    let ar = arch(r);
    let bx = base(r, &ar);
    let mut g = g(r, &ar);
    let s = strukt(&mut g);
    let k = g.r.us(5);
    let total = ar.names.get_ref().get_name_map_index_list().len();
    let k = k.min(total);
    g.c(k as i32);
    let mut funcs = vec![];
    let from = g.r.us(total - k + 1);
    for i in 0..k { g.c((from + i) as i32); g.c(0); let p = pi(&mut g); funcs.push((ar.names.get_ref().create_fname((from + i) as i32, 0), p)); }
    let f = g.r.u32() & EClassFlags::all().bits();
    g.put(&f.to_le_bytes());
    let within = pi(&mut g);
    let config = name(&mut g);
    let after = ar.object >= O::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING;
    let n = g.r.cnt(4);
    let mut faces = vec![];
    let mut ifs = |g: &mut G| { g.c(n as i32); for _ in 0..n { let a = pi(g); let b = int(g); let c = g.r.bool(); g.c(c as i32); faces.push((a, b, c)); } };
    if !after { ifs(&mut g); }
    let by = pi(&mut g);
    if after { ifs(&mut g); }
    let script = g.r.bool();
    g.c(script as i32);
    g.n("None");
    let cooked = (ar.object >= O::VER_UE4_ADD_COOKED_TO_UCLASS).then(|| { let b = g.r.bool(); g.c(b as i32); b });
    let cdo = pi(&mut g);
    let want = if ar.object < O::VER_UE4_CLASS_NOTPLACEABLE_ADDED { f ^ 0x200 } else { f };
    // two names of the table may have the same text
    let mut seen = std::collections::BTreeSet::new();
    if !funcs.iter().all(|(n, _)| seen.insert(n.get_owned_content())) { return Ok(()); }
    check(&ar, &g.b, |q| ClassExport::from_base(&bx, q), |v| is(&v.struct_export, &s, &ar) && v.func_map.len() == k && v.func_map.iter().zip(&funcs).all(|((_, a, b), (c, d))| a == c && b == d)
        && v.class_flags.bits() == want && v.class_within == within && v.class_config_name == config && v.interfaces.len() == n && v.interfaces.iter().zip(&faces).all(|(a, b)| a.class == b.0 && a.pointer_offset == b.1 && a.implemented_by_k2 == b.2)
        && v.class_generated_by == by && v.deprecated_force_script_order == script && v.cooked == cooked && v.class_default_object == cdo)
}

/// the one integer of a class whose mappings list just that, in a package with unversioned properties
fn unversioned(b: &[u8]) -> Result<(), String> {
    let mut body = vec![2u8, 0, 0, 0, 2, b'A', 2, b'B', 0, 0, 0, 0, 1, 0, 0, 0];
    body.extend([0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 2]); // schema A, super B, one property: B, an IntProperty at index 0
    let mut f = vec![0x30u8, 0xc4, 0, 0];
    f.extend((body.len() as u32).to_le_bytes());
    f.extend((body.len() as u32).to_le_bytes());
    f.extend(body);
    let mut ar = Ar::new(V::VER_UE4_27);
    ar.unversioned = true;
    ar.mappings = Some(unreal_asset_base::unversioned::Usmap::new(std::io::Cursor::new(f)).map_err(|e| e.to_string())?);
    let a = ar.names.get_mut().add_fname("A");
    ar.objects = vec![a.clone()];
    let mut bx = B::default();
    bx.class_index = PackageIndex::new(-1);
    check(&ar, b, |a| NormalExport::from_base(&bx, a), |v| v.properties.len() == 1)
}
/// as the engine stores it: one fragment (one value, the last), then the value 5
fn known_unversioned_read(_: &mut Rng) -> Result<(), String> { unversioned(&[0, 3, 5, 0, 0, 0]) }
/// with the property guid flag which the reader expects in front of the value
fn known_unversioned_write(_: &mut Rng) -> Result<(), String> { unversioned(&[0, 3, 0, 5, 0, 0, 0]) }
