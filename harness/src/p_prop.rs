//! S01/S02: properties. The bytes of a property are generated from a table of layouts that does not look at the code under
//! test; reading them has to consume them all, and writing what was read has to give them back with the right sizes.
use crate::ar::Ar;
use crate::p_names::word;
use crate::rng::Rng;
use crate::Case;
use unreal_asset_base::custom_version::{CustomVersion, CustomVersionTrait, FAnimPhysObjectVersion, FEditorObjectVersion, FFortniteMainBranchObjectVersion, FSequencerObjectVersion};
use unreal_asset_base::engine_version::EngineVersion as V;
use unreal_asset_base::object_version::{ObjectVersion as O, ObjectVersionUE5 as O5};
use unreal_asset_base::reader::ArchiveTrait;
use unreal_asset_base::types::fname::{FName, ToSerializedName};
use unreal_asset_base::unversioned::Ancestry;
use unreal_asset_properties::world_tile_property::FWorldTileInfo;
use unreal_asset_properties::{Property, PropertyDataTrait, PropertyTrait};

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn s01() -> Vec<Case> { vec![("leaf", leaf), ("tagged", tagged), ("edited", edited), ("tiles", tiles)] }
pub fn s02() -> Vec<Case> { vec![("list", list), ("one", one), ("rebuilt", rebuilt)] }

/// values read with a tag of their own
const VALUES: [&str; 22] = ["BoolProperty", "UInt16Property", "UInt32Property", "UInt64Property", "FloatProperty", "Int16Property", "Int64Property",
    "Int8Property", "IntProperty", "ByteProperty", "DoubleProperty", "NameProperty", "StrProperty", "TextProperty", "ObjectProperty",
    "AssetObjectProperty", "SoftObjectProperty", "DelegateProperty", "MulticastDelegateProperty", "MulticastSparseDelegateProperty",
    "MulticastInlineDelegateProperty", "EnumProperty"];
/// structs with a layout of their own
const STRUCTS: [&str; 48] = ["IntPoint", "Vector", "Vector4", "Vector2D", "Box", "Box2D", "Quat", "Rotator", "Plane", "LinearColor", "Color", "Timespan",
    "DateTime", "Guid", "PerPlatformBool", "PerPlatformInt", "PerPlatformFloat", "MaterialAttributesInput", "ExpressionInput", "ColorMaterialInput",
    "ScalarMaterialInput", "ShadingModelMaterialInput", "VectorMaterialInput", "Vector2MaterialInput", "WeightedRandomSampler",
    "SkeletalMeshAreaWeightedTriangleSampler", "SkeletalMeshSamplingLODBuiltData", "SoftAssetPath", "SoftObjectPath", "SoftClassPath",
    "StringAssetReference", "RichCurveKey", "ViewTargetBlendParams", "GameplayTagContainer", "SmartName", "FontCharacter", "UniqueNetIdRepl",
    "FontData", "FloatRange", "MovieSceneEvaluationFieldEntityTree", "MovieSceneSubSequenceTree", "MovieSceneSequenceInstanceDataPtr",
    "MovieSceneTrackFieldData", "MovieSceneEventParameters", "MovieSceneFloatChannel", "MovieSceneFloatValue", "MovieSceneFrameRange", "MovieSceneEvaluationKey"];
const SMALL: [&str; 3] = ["MovieSceneSegmentIdentifier", "MovieSceneTrackIdentifier", "MovieSceneSequenceId"];
/// structs with a layout of their own that hold properties
const NESTED: [&str; 7] = ["ClothLODData", "NiagaraVariable", "NiagaraVariableWithOffset", "MovieSceneEvalTemplatePtr", "MovieSceneTrackImplementationPtr",
    "SectionEvaluationDataTree", "MovieSceneSegment"];

pub struct G<'a> { pub r: &'a mut Rng, pub ar: &'a Ar, pub b: Vec<u8>, pub left: i32, pub num: i32 }
impl<'a> G<'a> {
    pub fn put(&mut self, b: &[u8]) { self.b.extend_from_slice(b); }
    pub fn u8(&mut self) { let v = self.r.u8(); self.put(&[v]); }
    pub fn i32(&mut self) { let v = self.r.i32(); self.put(&v.to_le_bytes()); }
    pub fn c(&mut self, v: i32) { self.put(&v.to_le_bytes()); }
    pub fn i64(&mut self) { let v = self.r.i64(); self.put(&v.to_le_bytes()); }
    pub fn f32(&mut self) { let v = self.r.f32(); self.put(&v.to_le_bytes()); }
    pub fn f64(&mut self) { let v = self.r.f64(); self.put(&v.to_le_bytes()); }
    pub fn bool(&mut self) { let v = self.r.bool() as u8; self.put(&[v]); }
    pub fn bool32(&mut self) { let v = self.r.bool() as i32; self.c(v); }
    pub fn guid(&mut self) { let v = self.r.bytes(16); self.put(&v); }
    pub fn en(&mut self, n: usize) { let v = self.r.us(n) as u8; self.put(&[v]); }
    pub fn reals(&mut self, n: usize) { for _ in 0..n { if self.ar.object5 >= O5::LARGE_WORLD_COORDINATES { self.f64() } else { self.f32() } } }
    pub fn idx(&self, s: &str) -> i32 { index(self.ar, s) }
    pub fn n(&mut self, s: &str) { let i = self.idx(s); self.c(i); self.c(0); }
    pub fn name(&mut self) {
        let k = self.ar.names.get_ref().get_name_map_index_list().len();
        let i = self.r.us(k) as i32;
        self.c(i);
        let m = if self.r.bool() { 0 } else { self.r.i32() };
        self.c(m);
    }
    pub fn s(&mut self, s: Option<&str>) {
        match s {
            None => self.c(0),
            Some(t) if t.is_ascii() => { self.c(t.len() as i32 + 1); self.put(t.as_bytes()); self.put(&[0]) }
            Some(t) => { let u: Vec<u16> = t.encode_utf16().collect(); self.c(-(u.len() as i32 + 1)); for c in u { self.put(&c.to_le_bytes()) } self.put(&[0, 0]) }
        }
    }
    pub fn str(&mut self) { let t = text(self.r); self.s(t.as_deref()); }
    pub fn len(&mut self, n: usize) -> usize { let k = self.r.us(n); self.c(k as i32); k }
    pub fn soft(&mut self) { if self.ar.object5 >= O5::FSOFTOBJECTPATH_REMOVE_ASSET_PATH_FNAMES { self.name(); } self.name(); self.str(); }
    pub fn expr(&mut self) { self.i32(); self.name(); let v = self.r.bytes(20); self.put(&v); self.name(); }
    pub fn cv<T: CustomVersionTrait + Into<i32>>(&self) -> i32 { self.ar.get_custom_version::<T>().version }
    pub fn frames(&mut self) { for _ in 0..2 { self.en(4); self.i32(); } }
    pub fn node(&mut self) { self.frames(); for _ in 0..4 { self.i32(); } }
    pub fn tree(&mut self, item: fn(&mut Self)) {
        self.node();
        for data in [false, true] {
            let k = self.len(3);
            for _ in 0..3 * k { self.i32(); }
            let k = self.len(3);
            for _ in 0..k { if data { item(self) } else { self.node() } }
        }
    }
    pub fn tangent(&mut self) { for _ in 0..4 { self.f32(); } self.en(4); }
    pub fn fvalue(&mut self) { self.f32(); self.tangent(); self.en(4); self.en(4); }
    pub fn delegate(&mut self) { self.i32(); self.name(); }
    pub fn vert(&mut self) { self.reals(12); for _ in 0..4 { let v = self.r.u32() as u16; self.put(&v.to_le_bytes()); } self.f32(); self.c(0); }
    /// the guid of a tag
    pub fn tag_guid(&mut self) {
        if self.ar.object >= O::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG { if self.r.chance(1, 3) { self.put(&[1]); self.guid(); } else { self.put(&[0]); } }
    }
    /// the value of a property, without its tag
    pub fn value(&mut self, ty: &str) {
        self.left -= 1;
        match ty {
            "BoolProperty" => self.bool(),
            "Int8Property" => self.u8(),
            "UInt16Property" | "Int16Property" => { self.u8(); self.u8() }
            "UInt32Property" | "IntProperty" | "ObjectProperty" | "MovieSceneSequenceInstanceDataPtr" => self.i32(),
            "MovieSceneSegmentIdentifier" | "MovieSceneTrackIdentifier" | "MovieSceneSequenceId" | "Color" => self.i32(),
            "UInt64Property" | "Int64Property" | "Timespan" | "DateTime" => self.i64(),
            "FloatProperty" => self.f32(),
            "DoubleProperty" => self.f64(),
            "ByteProperty" => if self.r.bool() { self.u8() } else { self.name() },
            "byte" => self.u8(),
            "bytename" => self.name(),
            "NameProperty" | "EnumProperty" => self.name(),
            "StrProperty" | "AssetObjectProperty" => self.str(),
            "TextProperty" => self.text(),
            "SoftObjectProperty" => self.soft(),
            "DelegateProperty" => self.delegate(),
            "MulticastDelegateProperty" | "MulticastSparseDelegateProperty" | "MulticastInlineDelegateProperty" => { let k = self.len(4); for _ in 0..k { self.delegate(); } }
            "IntPoint" => { self.i32(); self.i32() }
            "Vector" | "Rotator" => self.reals(3),
            "Vector4" | "Quat" | "Plane" => self.reals(4),
            "Vector2D" => self.reals(2),
            "Box" => { self.reals(6); self.bool() }
            "Box2D" => { self.reals(4); self.bool() }
            "LinearColor" => for _ in 0..4 { self.f32() },
            "Guid" => self.guid(),
            "PerPlatformBool" => { let k = self.len(4); for _ in 0..k { self.bool() } }
            "PerPlatformInt" => { let k = self.len(4); for _ in 0..k { self.i32() } }
            "PerPlatformFloat" => { let k = self.len(4); for _ in 0..k { self.f32() } }
            "MaterialAttributesInput" | "ExpressionInput" => self.expr(),
            "ColorMaterialInput" | "ShadingModelMaterialInput" => { self.expr(); self.c(0); self.i32() }
            "ScalarMaterialInput" => { self.expr(); self.c(0); self.f32() }
            "VectorMaterialInput" => { self.expr(); self.c(0); self.reals(3) }
            "Vector2MaterialInput" => { self.expr(); self.c(0); self.reals(2) }
            "WeightedRandomSampler" | "SkeletalMeshAreaWeightedTriangleSampler" | "SkeletalMeshSamplingLODBuiltData" => {
                let k = self.len(4); for _ in 0..k { self.f32() }
                let k = self.len(4); for _ in 0..k { self.i32() }
                self.f32()
            }
            "SoftAssetPath" | "SoftObjectPath" | "SoftClassPath" | "StringAssetReference" =>
                if self.ar.object < O::VER_UE4_ADDED_SOFT_OBJECT_PATH { self.str() } else { self.soft() },
            "RichCurveKey" => { self.en(4); self.en(4); self.en(4); for _ in 0..6 { self.f32() } }
            "ViewTargetBlendParams" => { self.f32(); self.en(5); self.f32(); self.bool32() }
            "GameplayTagContainer" => { let k = self.len(4); for _ in 0..k { self.name() } }
            "SmartName" => {
                self.name();
                let v = self.cv::<FAnimPhysObjectVersion>();
                if v < FAnimPhysObjectVersion::RemoveUIDFromSmartNameSerialize as i32 { self.u8(); self.u8(); }
                if v < FAnimPhysObjectVersion::SmartNameRefactorForDeterministicCooking as i32 { self.guid() }
            }
            "FontCharacter" => { for _ in 0..4 { self.i32() } self.u8(); self.i32() }
            "UniqueNetIdRepl" => if self.r.bool() {
                let at = self.b.len();
                self.c(0); self.name(); self.str();
                let k = (self.b.len() - at) as i32;
                self.b[at..at + 4].copy_from_slice(&k.to_le_bytes());
            } else { self.c(0) },
            "FontData" => if self.cv::<FEditorObjectVersion>() >= FEditorObjectVersion::AddedFontFaceAssets as i32 {
                if self.r.chance(3, 4) {
                    self.c(1);
                    if self.r.bool() { self.c(0); self.str(); self.en(5); self.en(3) } else { let v = 1 + self.r.us(1000) as i32; let v = if self.r.bool() { v } else { -v }; self.c(v) }
                    self.i32()
                } else { self.c(0) }
            },
            "FloatRange" => {
                let at = self.b.len();
                self.f32();
                let v = i32::from_le_bytes(self.b[at..at + 4].try_into().unwrap());
                if v == index(self.ar, "LowerBound") { self.b.truncate(at); self.put(&1f32.to_le_bytes()); }
                self.f32()
            }
            "MovieSceneEvaluationFieldEntityTree" => self.tree(|g| { g.i32(); g.i32() }),
            "MovieSceneSubSequenceTree" => self.tree(|g| { g.i32(); g.en(4) }),
            "MovieSceneTrackFieldData" => self.tree(|g| g.i32()),
            "MovieSceneEventParameters" => { self.soft(); let k = self.len(9); let v = self.r.bytes(k); self.put(&v) }
            "MovieSceneFloatChannel" => {
                self.en(6); self.en(6);
                self.i32(); let k = self.len(4); for _ in 0..k { self.i32() }
                self.i32(); let k = self.len(4); for _ in 0..k { self.fvalue() }
                self.f32(); self.bool32(); self.i32(); self.i32()
            }
            "MovieSceneFloatValue" => self.fvalue(),
            "MovieSceneFrameRange" => self.frames(),
            "MovieSceneEvaluationKey" => { self.i32(); self.i32(); self.i32() }
            "ClothLODData" => { self.props(3); for _ in 0..2 { let k = self.len(3); for _ in 0..k { self.vert() } } }
            "NiagaraVariable" | "NiagaraVariableWithOffset" => { self.name(); self.props(3); self.i32() }
            "MovieSceneEvalTemplatePtr" | "MovieSceneTrackImplementationPtr" => if self.r.chance(1, 4) { self.c(0) } else { let w = word(self.r); self.s(Some(&w)); self.props(3) },
            "SectionEvaluationDataTree" => self.tree(|g| g.props(3)),
            "MovieSceneSegment" => { self.frames(); self.i32(); self.bool32(); let k = self.len(3); for _ in 0..k { self.props(3) } }
            _ => panic!("no layout for {ty}"),
        }
    }
    pub fn text(&mut self) {
        let v = self.ar.object;
        if v < O::VER_UE4_FTEXT_HISTORY {
            self.str();
            if v >= O::VER_UE4_ADDED_NAMESPACE_AND_KEY_DATA_TO_FTEXT { self.str() }
            self.str();
            return self.i32();
        }
        self.i32();
        match self.r.us(3) {
            0 => {
                self.put(&[0xff]);
                if self.cv::<FEditorObjectVersion>() >= FEditorObjectVersion::CultureInvariantTextSerializationKeyStability as i32 {
                    if self.r.bool() { self.c(1); let w = word(self.r); self.s(Some(&format!("x{w}"))) } else { self.c(0) }
                }
            }
            1 => { self.put(&[0]); for _ in 0..3 { self.str() } }
            _ => { self.put(&[11]); self.name(); self.str() }
        }
    }
    /// tagged properties up to the closing name
    pub fn props(&mut self, max: usize) {
        let k = if self.left <= 0 { 0 } else { self.r.us(max + 1) };
        for _ in 0..k { self.prop() }
        self.n("None");
    }
    pub fn prop(&mut self) {
        let ty = match self.r.us(12) {
            0..=2 if self.left > 0 => "StructProperty",
            3..=5 if self.left > 0 => "ArrayProperty",
            6 if self.left > 0 => "SetProperty",
            7 | 8 if self.left > 0 => "MapProperty",
            9 if self.r.chance(1, 4) => "InterfaceProperty",
            _ => self.r.pick(&VALUES),
        };
        self.tag(ty);
    }
    /// one tagged property
    pub fn tag(&mut self, ty: &str) {
        let w = format!("p{}", self.r.us(6));
        self.n(&w);
        let at = self.b.len() - 4;
        let m = if self.r.chance(1, 4) { self.r.i32() } else { 0 };
        self.b[at..at + 4].copy_from_slice(&m.to_le_bytes());
        self.n(ty);
        let at = self.b.len();
        self.c(0);
        let d = if self.r.chance(1, 4) { self.r.i32() } else { 0 };
        self.c(d);
        self.num = m;
        let size = self.tagged(&w, ty);
        self.b[at..at + 4].copy_from_slice(&(size as i32).to_le_bytes());
    }
    /// the rest of a tag and the value; gives the size of the value
    pub fn tagged(&mut self, name: &str, ty: &str) -> usize {
        let elem = ["IntProperty", "StrProperty", "NameProperty", "BoolProperty", "StructProperty", "DoubleProperty", "ObjectProperty", "EnumProperty", "TextProperty", "Int8Property", "SoftObjectProperty", "ByteProperty"];
        let num = self.num;
        match ty {
            "BoolProperty" => { self.value(ty); self.tag_guid(); 0 }
            "ByteProperty" | "EnumProperty" => { self.name(); self.tag_guid(); let at = self.b.len(); self.value(ty); self.b.len() - at }
            "StructProperty" => {
                self.left -= 1;
                let s = self.struct_type();
                self.n(&s);
                if self.ar.object >= O::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG { self.guid() }
                self.tag_guid();
                let at = self.b.len();
                if s.starts_with('S') && s.len() == 2 && self.ar.object >= O::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG && self.r.chance(1, 6) { return 0; }
                self.body(&s);
                self.b.len() - at
            }
            "ArrayProperty" => {
                self.left -= 1;
                let e = self.r.pick(&elem);
                self.n(e);
                self.tag_guid();
                let at = self.b.len();
                let k = self.len(4);
                if e == "StructProperty" { self.struct_array(name, num, k) } else { self.elems(e, k) }
                self.b.len() - at
            }
            "SetProperty" => {
                self.left -= 1;
                let e = self.r.pick(&elem[..11]);
                self.n(e);
                self.tag_guid();
                let at = self.b.len();
                for _ in 0..2 { let k = self.len(4); self.elems(e, k) }
                self.b.len() - at
            }
            "MapProperty" => {
                self.left -= 1;
                let e = self.r.pick(&elem[..11]);
                let v = self.r.pick(&elem[..11]);
                self.n(e); self.n(v);
                self.tag_guid();
                let at = self.b.len();
                let k = self.len(3);
                for _ in 0..k { self.elem(e) }
                let at2 = self.b.len();
                // keys that hold floats can be equal and look different
                let k = self.r.us(if e == "DoubleProperty" || e == "StructProperty" { 2 } else { 4 });
                self.c(k as i32);
                let mut seen: Vec<Vec<u8>> = vec![];
                for _ in 0..k {
                    let a = self.b.len();
                    self.elem(e);
                    let key = self.b[a..].to_vec();
                    if seen.contains(&key) { self.b.truncate(a); continue; }
                    seen.push(key);
                    self.elem(v);
                }
                self.b[at2..at2 + 4].copy_from_slice(&(seen.len() as i32).to_le_bytes());
                self.b.len() - at
            }
            "InterfaceProperty" => { self.tag_guid(); let k = self.r.us(12); let v = self.r.bytes(k); self.put(&v); k }
            _ => { self.tag_guid(); let at = self.b.len(); self.value(ty); self.b.len() - at }
        }
    }
    /// elements with no tag of their own
    pub fn elems(&mut self, e: &str, k: usize) {
        let b = if self.r.bool() { "byte" } else { "bytename" };
        for _ in 0..k { self.elem(if e == "ByteProperty" { b } else { e }) }
    }
    pub fn elem(&mut self, e: &str) { if e == "StructProperty" { self.left -= 1; self.props(2) } else { self.value(e) } }
    pub fn struct_array(&mut self, name: &str, num: i32, k: usize) {
        if self.ar.object < O::VER_UE4_INNER_ARRAY_TAG_INFO { for _ in 0..k { self.props(2) } return; }
        let s = loop { let s = self.struct_type(); if s != "FontData" { break s; } };
        let i = self.idx(name);
        self.c(i); self.c(num); self.n("StructProperty");
        let at = self.b.len();
        self.c(0); self.c(0);
        self.n(&s);
        self.guid();
        if self.ar.object >= O::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG { self.put(&[0]) }
        let from = self.b.len();
        for _ in 0..k { self.body(&s) }
        let n = (self.b.len() - from) as i32;
        self.b[at..at + 4].copy_from_slice(&n.to_le_bytes());
    }
    pub fn struct_type(&mut self) -> String {
        match self.r.us(8) {
            0..=2 => loop { let s = self.r.pick(&STRUCTS); if s != "Plane" && s != "Box2D" && self.custom(s) { break s.into(); } },
            3 => loop { let s = self.r.pick(&SMALL); if self.custom(s) { break s.into(); } },
            4 => self.r.pick(&NESTED).into(),
            5 => self.r.pick(&["RichCurveKey", "MovieSceneTrackIdentifier", "MovieSceneFloatChannel", "FloatRange"]).into(),
            _ => format!("S{}", self.r.us(4)),
        }
    }
    /// does this struct have a layout of its own in this version?
    pub fn custom(&self, s: &str) -> bool {
        match s {
            "RichCurveKey" => self.ar.object >= O::VER_UE4_SERIALIZE_RICH_CURVE_KEY,
            "MovieSceneTrackIdentifier" => self.cv::<FEditorObjectVersion>() >= FEditorObjectVersion::MovieSceneMetaDataSerialization as i32,
            "MovieSceneFloatChannel" => self.cv::<FSequencerObjectVersion>() >= FSequencerObjectVersion::SerializeFloatChannelCompletely as i32
                || self.cv::<FFortniteMainBranchObjectVersion>() >= FFortniteMainBranchObjectVersion::SerializeFloatChannelShowCurve as i32,
            "FontData" => self.cv::<FEditorObjectVersion>() >= FEditorObjectVersion::AddedFontFaceAssets as i32,
            _ => !s.starts_with('S') || STRUCTS.contains(&s) || NESTED.contains(&s),
        }
    }
    pub fn body(&mut self, s: &str) {
        if s == "FloatRange" && self.r.bool() {
            // the same struct written as a list of properties, which begins with its lower bound
            self.n("LowerBound"); self.n("FloatProperty"); self.c(4); self.c(0); self.tag_guid(); self.f32();
            return self.props(1);
        }
        if self.custom(s) { self.value(s) } else { self.props(3) }
    }
}
pub fn index(ar: &Ar, s: &str) -> i32 {
    match ar.names.clone().get_mut().add_fname(s) { FName::Backed { index, .. } => index, _ => panic!() }
}
fn text(r: &mut Rng) -> Option<String> {
    if r.chance(1, 4) { return None; }
    let t: String = word(r).chars().filter(|c| *c != '\0').collect();
    Some(t)
}
pub fn archive(r: &mut Rng) -> Ar {
    let engines = [V::VER_UE4_0, V::VER_UE4_4, V::VER_UE4_10, V::VER_UE4_12, V::VER_UE4_13, V::VER_UE4_16, V::VER_UE4_18, V::VER_UE4_20, V::VER_UE4_23, V::VER_UE4_25, V::VER_UE4_27, V::VER_UE5_0, V::VER_UE5_1, V::VER_UE5_2];
    let mut ar = Ar::new(r.pick(&engines));
    if r.bool() {
        let at = [O::VER_UE4_FTEXT_HISTORY, O::VER_UE4_ADDED_NAMESPACE_AND_KEY_DATA_TO_FTEXT, O::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG, O::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG,
            O::VER_UE4_INNER_ARRAY_TAG_INFO, O::VER_UE4_ADDED_SOFT_OBJECT_PATH, O::VER_UE4_SERIALIZE_RICH_CURVE_KEY, O::VER_UE4_WORLD_LEVEL_INFO_UPDATED,
            O::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING, O::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST, O::VER_UE4_WORLD_LEVEL_INFO_ZORDER];
        let v: i32 = r.pick(&at).into();
        if let Ok(o) = O::try_from(v - r.us(2) as i32) { ar.object = o; }
    }
    if r.bool() { ar.object5 = r.pick(&[O5::UNKNOWN, O5::INITIAL_VERSION, O5::LARGE_WORLD_COORDINATES, O5::FSOFTOBJECTPATH_REMOVE_ASSET_PATH_FNAMES]); }
    if r.bool() {
        let mut set = |g, v: i32| { ar.custom.retain(|c: &CustomVersion| c.guid != g); ar.custom.push(CustomVersion::new(g, v)); };
        set(FAnimPhysObjectVersion::GUID, r.us(20) as i32);
        set(FEditorObjectVersion::GUID, r.us(40) as i32);
        set(FSequencerObjectVersion::GUID, r.us(16) as i32);
        set(FFortniteMainBranchObjectVersion::GUID, r.us(70) as i32);
    }
    if r.bool() { index(&ar, "LowerBound"); }
    for _ in 0..1 + r.us(4) { let w = word(r); index(&ar, &w); }
    for s in VALUES.iter().chain(&STRUCTS).chain(&SMALL).chain(&NESTED) { if r.chance(1, 8) { index(&ar, s); } }
    for s in ["None", "StructProperty", "ArrayProperty", "SetProperty", "MapProperty", "InterfaceProperty", "TypeName", "LowerBound", "Generic",
        "PositionBaryCoordsAndDist", "NormalBaryCoordsAndDist", "TangentBaryCoordsAndDist", "SectionEvaluationDataTree"] { index(&ar, s); }
    for s in VALUES.iter().chain(&STRUCTS).chain(&SMALL).chain(&NESTED) { index(&ar, s); }
    for i in 0..6 { index(&ar, &format!("p{i}")); index(&ar, &format!("S{i}")); }
    ar
}
fn any_leaf(r: &mut Rng) -> &'static str {
    match r.us(5) { 0 | 1 => r.pick(&VALUES), 2 | 3 => r.pick(&STRUCTS), _ => r.pick(&SMALL) }
}
fn fname(ar: &Ar, s: &str) -> FName { ar.names.clone().get_mut().add_fname(s) }

/// a value with no tag: reading takes every byte, the value writes back, the size is right
fn leaf(r: &mut Rng) -> Result<(), String> {
    let ar = archive(r);
    let ty = any_leaf(r);
    let dup = r.i32();
    let mut g = G { r, ar: &ar, b: vec![], left: 10, num: 0 };
    if ty == "EnumProperty" || ty == "ByteProperty" { g.left = 10; }
    g.value(ty);
    let b = g.b;
    // a bool is part of its tag
    let size = if ty == "BoolProperty" { 0 } else { b.len() };
    check(r, &ar, ty, &b, b.len() as i64, false, dup, size)
}
#[allow(clippy::too_many_arguments)]
fn check(r: &mut Rng, ar: &Ar, ty: &str, b: &[u8], length: i64, header: bool, dup: i32, size: usize) -> Result<(), String> {
    let mut tail = b.to_vec();
    tail.extend(r.bytes(9));
    let mut rd = ar.like(tail);
    let anc = Ancestry::new(fname(ar, "p0"));
    let p = Property::from_type(&mut rd, &fname(ar, ty), fname(ar, "p1"), anc.clone(), header, length, 0, dup, false).map_err(|e| format!("{ty} in {:?}: cannot be read: {e:?} from {b:02x?}", ar.object))?;
    need!(rd.at() == b.len() as u64, "{ty} in {:?}: reading took {} of {} bytes: {p:?} from {b:02x?}", ar.object, rd.at(), b.len());
    need!(p.to_serialized_name() == ty, "{ty} was read as {}", p.to_serialized_name());
    need!(p.get_name() == fname(ar, "p1") && p.get_duplication_index() == dup && p.get_ancestry() == &anc, "{ty}: name, duplication index or ancestry differ: {p:?}");
    let mut w = ar.like(vec![]);
    let n = p.write(&mut w, header).map_err(|e| format!("{ty}: cannot be written: {e:?} {p:?}"))?;
    need!(w.bytes() == b, "{ty} in {:?} {:?}: {p:?} was read from {b:02x?} and written as {:02x?}", ar.object, ar.object5, w.bytes());
    need!(n == size, "{ty}: the value takes {size} bytes, the writer reports {n}: {p:?}");
    need!(w.at() == b.len() as u64, "{ty}: the writer is left at {} after {} bytes", w.at(), b.len());
    let mut rd = ar.like(w.bytes());
    let q = Property::from_type(&mut rd, &fname(ar, ty), fname(ar, "p1"), anc, header, length, 0, dup, false).map_err(|e| format!("{ty}: written and not readable: {e:?}"))?;
    need!(q == p, "{ty}: {p:?} written and read back is {q:?}");
    Ok(())
}
/// a value with its tag
fn tagged(r: &mut Rng) -> Result<(), String> {
    let ar = archive(r);
    let ty = any_leaf(r);
    let dup = r.i32();
    let mut g = G { r, ar: &ar, b: vec![], left: 10, num: 0 };
    let size = g.tagged("p1", ty);
    let b = g.b;
    check(r, &ar, ty, &b, size as i64, true, dup, size)
}
/// a value that replaces another one, written with the size and the tag the value needs
fn edited(r: &mut Rng) -> Result<(), String> {
    use unreal_asset_properties as p;
    let ar = archive(r);
    let anc = Ancestry::new(fname(&ar, "p0"));
    let (name, ancestry, property_guid, duplication_index) = (fname(&ar, "p2"), anc.clone(), None, r.us(3) as i32);
    let a: Property = match r.us(6) {
        0 => p::str_property::StrProperty { name, ancestry, property_guid, duplication_index, value: text(r) }.into(),
        1 => p::int_property::ByteProperty { name, ancestry, property_guid, duplication_index, enum_type: Some(fname(&ar, "p3")),
            value: if r.bool() { p::int_property::BytePropertyValue::Byte(r.u8()) } else { p::int_property::BytePropertyValue::FName(fname(&ar, "S1")) } }.into(),
        2 => p::int_property::BoolProperty { name, ancestry, property_guid, duplication_index, value: r.bool() }.into(),
        3 => p::object_property::AssetObjectProperty { name, ancestry, property_guid, duplication_index, value: text(r) }.into(),
        4 => p::enum_property::EnumProperty { name, ancestry, property_guid, duplication_index, enum_type: Some(fname(&ar, "p3")), inner_type: None, value: Some(fname(&ar, "S1")) }.into(),
        _ => p::unknown_property::UnknownProperty { name, ancestry, property_guid, duplication_index, value: { let k = r.us(9); r.bytes(k) }, serialized_type: fname(&ar, "InterfaceProperty") }.into(),
    };
    let mut w = ar.like(vec![]);
    let pre = r.us(5);
    w.c.get_mut().extend(vec![7u8; pre]);
    w.c.set_position(pre as u64);
    let at = Property::write(&a, &mut w, true).map_err(|e| format!("{e:?}"))?;
    need!(at == pre + 16, "the size is recorded at {}, reported at {at}", pre + 16);
    let end = w.at();
    need!(end == w.bytes().len() as u64, "the writer is left at {end} of {}", w.bytes().len());
    let mut rd = w.like(w.bytes());
    rd.c.set_position(pre as u64);
    let q = Property::new(&mut rd, anc, None, true).map_err(|e| format!("{a:?} cannot be read back: {e:?}"))?;
    need!(q.as_ref() == Some(&a), "{a:?} written and read back is {q:?}");
    need!(rd.at() == end, "reading took {} of {end}", rd.at());
    Ok(())
}
pub fn tile(g: &mut G) {
    let v = g.ar.object;
    g.i32(); g.i32();
    if g.cv::<FFortniteMainBranchObjectVersion>() >= FFortniteMainBranchObjectVersion::WorldCompositionTile3DOffset as i32 { g.i32() }
    g.value("Box");
    g.str(); g.i32(); g.i32(); g.i32();
    if v >= O::VER_UE4_WORLD_LEVEL_INFO_UPDATED { g.i32() }
    if v >= O::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING { g.bool32() }
    if v >= O::VER_UE4_WORLD_LEVEL_INFO_UPDATED { g.bool32(); g.str() }
    if v >= O::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST { let k = g.len(4); for _ in 0..k { g.i32(); g.f32(); g.f32(); g.i32(); g.i32() } }
    if v >= O::VER_UE4_WORLD_LEVEL_INFO_ZORDER { g.i32() }
}
/// world tile records, which are stored as a block of their own
fn tiles(r: &mut Rng) -> Result<(), String> {
    let ar = archive(r);
    let mut g = G { r, ar: &ar, b: vec![], left: 10, num: 0 };
    let v = ar.object;
    tile(&mut g);
    let b = g.b;
    let mut rd = ar.like(b.clone());
    let t = FWorldTileInfo::new(&mut rd).map_err(|e| format!("world tile: {e:?}"))?;
    need!(rd.at() == b.len() as u64, "world tile in {v:?}: reading took {} of {}", rd.at(), b.len());
    let mut w = ar.like(vec![]);
    t.write(&mut w).map_err(|e| format!("world tile: {e:?}"))?;
    need!(w.bytes() == b, "world tile in {v:?}: read from {b:02x?}, written as {:02x?}", w.bytes());
    Ok(())
}
fn read_all(ar: &Ar, b: &[u8]) -> Result<Vec<Property>, String> {
    let mut rd = ar.like(b.to_vec());
    let anc = Ancestry::new(fname(ar, "p0"));
    let mut v = vec![];
    while let Some(p) = Property::new(&mut rd, anc.clone(), None, true).map_err(|e| format!("after {v:?}: {e:?}"))? {
        v.push(p);
        if v.len() > 1000 { return Err("no end".into()); }
    }
    need!(rd.at() == b.len() as u64, "reading took {} of {} bytes: {v:?}", rd.at(), b.len());
    Ok(v)
}
fn write_all(ar: &Ar, v: &[Property]) -> Result<Vec<u8>, String> {
    let mut w = ar.like(vec![]);
    for p in v { Property::write(p, &mut w, true).map_err(|e| format!("cannot be written: {p:?}: {e:?}"))?; }
    let mut b = w.bytes();
    b.extend(index(ar, "None").to_le_bytes());
    b.extend([0; 4]);
    Ok(b)
}
fn same(ar: &Ar, b: &[u8]) -> Result<(), String> {
    let v = read_all(ar, b)?;
    let c = write_all(ar, &v)?;
    if c != b {
        let at = (0..).find(|i| b.get(*i) != c.get(*i)).unwrap();
        return Err(format!("in {:?}: read from {} bytes, written as {} bytes, different from {at}: {v:?}\n{b:02x?}\n{c:02x?}", ar.object, b.len(), c.len()));
    }
    let w = read_all(ar, &c)?;
    need!(v == w, "{v:?} written and read back is {w:?}");
    Ok(())
}
/// a list of tagged properties, nested
fn list(r: &mut Rng) -> Result<(), String> {
    let ar = archive(r);
    let left = 1 + r.us(30) as i32;
    let mut g = G { r, ar: &ar, b: vec![], left, num: 0 };
    g.props(5);
    let b = g.b;
    same(&ar, &b)
}
/// one container at a time
fn one(r: &mut Rng) -> Result<(), String> {
    let ar = archive(r);
    let left = 1 + r.us(4) as i32;
    let ty = r.pick(&["StructProperty", "ArrayProperty", "SetProperty", "MapProperty"]);
    let mut g = G { r, ar: &ar, b: vec![], left, num: 0 };
    g.tag(ty);
    g.n("None");
    let b = g.b;
    same(&ar, &b)
}
/// a list put together from others: the sizes are those of the new content
fn rebuilt(r: &mut Rng) -> Result<(), String> {
    let ar = archive(r);
    let mut g = G { r, ar: &ar, b: vec![], left: 6, num: 0 };
    g.props(4);
    let x = g.b;
    let mut g = G { r, ar: &ar, b: vec![], left: 6, num: 0 };
    g.props(4);
    let y = g.b;
    let mut v = read_all(&ar, &x)?;
    let w = read_all(&ar, &y)?;
    v.extend(w);
    let mut z = x[..x.len() - 8].to_vec();
    z.extend(y);
    let c = write_all(&ar, &v)?;
    need!(c == z, "in {:?}: {v:?}\n{z:02x?}\n{c:02x?}", ar.object);
    // the same elements inside a struct
    if let Some(Property::StructProperty(s)) = v.iter().find(|p| matches!(p, Property::StructProperty(s) if s.serialize_none && s.struct_type.as_ref().is_some_and(|t| t.get_content(|t| t.starts_with('S') && t.len() == 2)))).cloned() {
        let mut s = s;
        s.value.extend(v.iter().filter(|p| !matches!(p, Property::StructProperty(_))).cloned());
        let u: Property = s.into();
        let b = write_all(&ar, std::slice::from_ref(&u))?;
        let k = i32::from_le_bytes(b[16..20].try_into().unwrap());
        let t = read_all(&ar, &b)?;
        need!(t.len() == 1, "one struct written, {} properties read back", t.len());
        let c = write_all(&ar, &t)?;
        need!(c == b && k > 0, "a struct with more entries does not write back: {u:?}\n{b:02x?}\n{c:02x?}");
    }
    Ok(())
}
