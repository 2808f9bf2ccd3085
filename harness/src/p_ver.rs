//! V02: engine, object and custom versions.
use crate::ar::Ar;
use crate::rng::Rng;
use crate::Case;
use unreal_asset_base::custom_version::*;
use unreal_asset_base::engine_version::{get_object_versions, get_possible_versions, guess_engine_version, EngineVersion as V};
use unreal_asset_base::object_version::{ObjectVersion as O, ObjectVersionUE5 as O5};
use unreal_helpers::Guid;

macro_rules! need { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn v02() -> Vec<Case> {
    vec![("tables", tables), ("numbers", numbers), ("guess", guess), ("defaults", defaults), ("stored", stored), ("asset", asset)]
}

/// the object versions of the released engines, as numbers in the file format
const RELEASED: &[(V, i32, i32)] = &[
    (V::VER_UE4_0, 342, 0), (V::VER_UE4_1, 352, 0), (V::VER_UE4_2, 363, 0), (V::VER_UE4_3, 382, 0), (V::VER_UE4_4, 385, 0), (V::VER_UE4_5, 401, 0), (V::VER_UE4_6, 413, 0),
    (V::VER_UE4_7, 434, 0), (V::VER_UE4_8, 451, 0), (V::VER_UE4_9, 482, 0), (V::VER_UE4_10, 482, 0), (V::VER_UE4_11, 498, 0), (V::VER_UE4_12, 504, 0), (V::VER_UE4_13, 505, 0),
    (V::VER_UE4_14, 508, 0), (V::VER_UE4_15, 510, 0), (V::VER_UE4_16, 513, 0), (V::VER_UE4_17, 513, 0), (V::VER_UE4_18, 514, 0), (V::VER_UE4_19, 516, 0), (V::VER_UE4_20, 516, 0),
    (V::VER_UE4_21, 517, 0), (V::VER_UE4_22, 517, 0), (V::VER_UE4_23, 517, 0), (V::VER_UE4_24, 518, 0), (V::VER_UE4_25, 518, 0), (V::VER_UE4_26, 519, 0), (V::VER_UE4_27, 522, 0),
    (V::VER_UE5_0, 522, 1004), (V::VER_UE5_1, 522, 1008), (V::VER_UE5_2, 522, 1010),
];
fn engine(r: &mut Rng) -> (V, i32, i32) { RELEASED[r.us(RELEASED.len())] }
fn all() -> Vec<V> { (0..64).filter_map(|i| V::try_from(i).ok()).collect() }

/// what each known custom version was at each engine that introduced a new value of it
fn known() -> Vec<(&'static str, Guid, Vec<(V, i32)>)> {
    macro_rules! k { ($t:ident: $($v:ident = $x:ident),*) => {
        (stringify!($t), <$t as CustomVersionTrait>::GUID, vec![(V::VER_UE4_OLDEST_LOADABLE_PACKAGE, $t::BeforeCustomVersionWasAdded as i32), $((V::$v, $t::$x as i32)),*,
            (V::VER_UE4_AUTOMATIC_VERSION, $t::LatestVersion as i32), (V::VER_UE4_AUTOMATIC_VERSION_PLUS_ONE, $t::VersionPlusOne as i32)]) } }
    vec![
        k!(FFortniteMainBranchObjectVersion: VER_UE4_20 = CachedMaterialQualityNodeUsage, VER_UE4_21 = FoliageLazyObjPtrToSoftObjPtr, VER_UE4_22 = FortHUDElementNowRequiresTag,
            VER_UE4_23 = SupportVirtualBoneInRetargeting, VER_UE4_24 = AnimLayerGuidConformation, VER_UE4_26 = ChaosSolverPropertiesMoved, VER_UE4_27 = RemoveLandscapeWaterInfo),
        k!(FFrameworkObjectVersion: VER_UE4_12 = FixNonTransactionalPins, VER_UE4_13 = RemoveSoundWaveCompressionName, VER_UE4_14 = GeometryCacheMissingMaterials,
            VER_UE4_15 = ChangeAudioComponentOverrideSubtitlePriorityDefault, VER_UE4_16 = HardSoundReferences, VER_UE4_17 = LocalVariablesBlueprintVisible,
            VER_UE4_18 = UserDefinedStructsBlueprintVisible, VER_UE4_19 = FunctionTerminatorNodesUseMemberReference, VER_UE4_20 = EditableEventsUseConstRefParameters,
            VER_UE4_22 = BlueprintGeneratedClassIsAlwaysAuthoritative, VER_UE4_24 = EnforceBlueprintFunctionVisibility, VER_UE4_25 = StoringUCSSerializationIndex),
        k!(FCoreObjectVersion: VER_UE4_12 = MaterialInputNativeSerialize, VER_UE4_15 = EnumProperties, VER_UE4_22 = SkeletalMaterialEditorDataStripping, VER_UE4_25 = FProperties),
        k!(FEditorObjectVersion: VER_UE4_12 = GatheredTextPackageCacheFixesV1, VER_UE4_13 = SplineComponentCurvesInStruct, VER_UE4_14 = AddedFontFaceAssets, VER_UE4_15 = AddedInlineFontFaceAssets,
            VER_UE4_16 = MaterialThumbnailRenderingChanges, VER_UE4_17 = GatheredTextEditorOnlyPackageLocId, VER_UE4_19 = AddedMorphTargetSectionIndices,
            VER_UE4_20 = SerializeInstancedStaticMeshRenderData, VER_UE4_21 = MeshDescriptionNewAttributeFormat, VER_UE4_22 = MeshDescriptionRemovedHoles,
            VER_UE4_23 = RemoveLandscapeHoleMaterial, VER_UE4_24 = SkeletalMeshBuildRefactor, VER_UE4_25 = SkeletalMeshMoveEditorSourceDataToPrivateAsset,
            VER_UE4_26 = SkeletalMeshSourceDataSupport16bitOfMaterialNumber),
        k!(FAnimPhysObjectVersion: VER_UE4_16 = ThumbnailSceneInfoAndAssetImportDataAreTransactional, VER_UE4_17 = TuneSoftLimitStiffnessAndDamping, VER_UE4_18 = AddLODToCurveMetaData,
            VER_UE4_19 = SaveEditorOnlyFullPoseForPoseAsset, VER_UE4_20 = GeometryCacheAssetDeprecation),
        k!(FReleaseObjectVersion: VER_UE4_11 = StaticMeshExtendedBoundsFix, VER_UE4_13 = LevelTransArrayConvertedToTArray, VER_UE4_14 = AddComponentNodeTemplateUniqueNames,
            VER_UE4_15 = SpeedTreeBillboardSectionInfoFixup, VER_UE4_16 = SkyLightRemoveMobileIrradianceMap, VER_UE4_17 = RenameNoTwistToAllowTwistInTwoBoneIK,
            VER_UE4_19 = RemovedMaterialSharedInputCollection, VER_UE4_20 = MeshDescriptionNewSerialization, VER_UE4_21 = TrailNodeBlendVariableNameChange,
            VER_UE4_23 = UnusedSoundClass2dreverbSend, VER_UE4_24 = DeprecateFilmbackSettings, VER_UE4_25 = FFieldPathOwnerSerialization, VER_UE4_26 = StructureDataAddedToConvex,
            VER_UE4_27 = LonglatTextureCubeDefaultMaxResolution),
        k!(FSequencerObjectVersion: VER_UE4_14 = RenameMediaSourcePlatformPlayers, VER_UE4_15 = ConvertMultipleRowsToTracks, VER_UE4_16 = WhenFinishedDefaultsToRestoreState,
            VER_UE4_19 = WhenFinishedDefaultsToProjectDefault, VER_UE4_20 = FinishUMGEvaluation, VER_UE4_22 = ModifyLinearKeysForOldInterp, VER_UE4_25 = SerializeFloatChannelCompletely,
            VER_UE4_27 = SpawnableImprovements),
    ]
}
fn want(m: &[(V, i32)], e: V) -> Option<i32> { m.iter().filter(|(v, _)| *v <= e).last().map(|x| x.1) }

fn tables(_: &mut Rng) -> Result<(), String> {
    let mut last = (0, 0);
    for (e, o, o5) in RELEASED {
        let (a, b) = get_object_versions(*e);
        need!((a as i32, b as i32) == (*o, *o5), "{e:?} has object versions {}, {}; should be {o}, {o5}", a as i32, b as i32);
        need!(a as i32 >= last.0 && b as i32 >= last.1, "{e:?} has earlier object versions than the engine before it");
        last = (a as i32, b as i32);
    }
    for e in all() {
        let t = get_object_versions(e);
        if !RELEASED.iter().any(|x| x.0 == e) { need!(t == (O::UNKNOWN, O5::UNKNOWN), "{e:?} has object versions {t:?}"); }
    }
    Ok(())
}

fn numbers(r: &mut Rng) -> Result<(), String> {
    let k = match r.below(4) { 0 => r.i32(), 1 => 200 + r.below(340) as i32, 2 => 990 + r.below(40) as i32, _ => r.below(64) as i32 };
    match O::try_from(k) {
        Ok(s) => need!((k == 0 || (214..=524).contains(&k)) && i32::from(s) == k && s as i32 == k, "object version {k} became {s:?}"),
        Err(_) => need!(!(k == 0 || (214..=524).contains(&k)), "object version {k} refused"),
    }
    match O5::try_from(k) {
        Ok(s) => need!((k == 0 || (1000..=1011).contains(&k)) && i32::from(s) == k && s as i32 == k, "UE5 object version {k} became {s:?}"),
        Err(_) => need!(!(k == 0 || (1000..=1011).contains(&k)), "UE5 object version {k} refused"),
    }
    match V::try_from(k) {
        Ok(s) => need!((0..=34).contains(&k) && i32::from(s) == k, "engine version {k} became {s:?}"),
        Err(_) => need!(!(0..=34).contains(&k), "engine version {k} refused"),
    }
    match FAssetRegistryVersionType::try_from(k) {
        Ok(s) => need!((0..=16).contains(&k) && i32::from(s) == k, "registry version {k} became {s:?}"),
        Err(_) => need!(!(0..=16).contains(&k), "registry version {k} refused"),
    }
    Ok(())
}

fn versions(o: i32, o5: i32) -> (O, O5) { (O::try_from(o).unwrap(), O5::try_from(o5).unwrap()) }

fn guess(r: &mut Rng) -> Result<(), String> {
    let (o, o5) = match r.below(4) {
        0 => (r.pick(&[0, 214, 342, 400, 482, 508, 513, 517, 518, 520, 522, 523, 524]), r.pick(&[0, 1000, 1003, 1004, 1008, 1009, 1010, 1011])),
        _ => { let (_, a, b) = engine(r); (a, b) }
    };
    let (s, s5) = versions(o, o5);
    let can: Vec<V> = RELEASED.iter().filter(|x| (x.1, x.2) == (o, o5)).map(|x| x.0).collect();
    let mut got = get_possible_versions(s, s5);
    got.sort();
    need!(got == can, "object versions {o}, {o5} are possible for {got:?}, should be {can:?}");
    // the custom versions of one engine, a few of them, damaged or not
    let e = if !can.is_empty() && r.chance(3, 4) { r.pick(&can) } else { r.pick(&all()) };
    let mut cv = CustomVersion::get_default_custom_version_container(e);
    cv.sort_by_key(|c| c.guid.to_string());
    let mut whole = true;
    if r.chance(1, 2) { cv.retain(|_| r.chance(2, 3)); whole = false; }
    if r.chance(1, 4) { for c in cv.iter_mut() { if r.chance(1, 2) { c.version = r.i32(); whole = false; } } }
    if r.chance(1, 8) { cv.push(CustomVersion::new(Guid::from(r.u64() as u128), i32::MAX)); }
    let g = guess_engine_version(s, s5, &cv);
    if can.is_empty() { need!(g == V::UNKNOWN, "guess for {o}, {o5} is {g:?}"); return Ok(()); }
    need!(can.contains(&g), "guess for {o}, {o5} is {g:?}, whose object versions are others");
    if can.contains(&e) && whole {
        for (n, _, m) in known() { need!(want(&m, g) == want(&m, e), "guess for {e:?} is {g:?}, which has another {n}"); }
    }
    Ok(())
}

fn defaults(r: &mut Rng) -> Result<(), String> {
    let e = r.pick(&all());
    let cv = CustomVersion::get_default_custom_version_container(e);
    for (n, g, m) in known() {
        let got: Vec<i32> = cv.iter().filter(|c| c.guid == g).map(|c| c.version).collect();
        match want(&m, e) {
            Some(w) => need!(got == [w], "{e:?} gets {n} {got:?}, should be {w}"),
            None => need!(got.is_empty(), "{e:?} gets {n} {got:?}, should have none"),
        }
        let c = CustomVersion::new(g, 0);
        need!(c.friendly_name.as_deref() == Some(n), "{n} is called {:?}", c.friendly_name);
        for (v, x) in &m {
            let back = c.get_engine_version_from_version_number(*x);
            need!(back == Some(*v), "{n} {x} was introduced by {back:?}, should be {v:?}");
        }
        let unused = m.iter().map(|x| x.1).max().unwrap_or(0).wrapping_add(1 + r.below(1000) as i32);
        need!(c.get_engine_version_from_version_number(unused).is_none(), "{n} {unused} has an engine");
    }
    need!(cv.len() == if e == V::UNKNOWN { 0 } else { known().len() }, "{e:?} gets {} custom versions", cv.len());
    Ok(())
}

fn stored(r: &mut Rng) -> Result<(), String> {
    let g = if r.bool() { known()[r.us(7)].1 } else { Guid::from(((r.u64() as u128) << 64) | r.u64() as u128) };
    let v = r.i32();
    let c = CustomVersion::new(g, v);
    let mut w = Ar::new(V::VER_UE4_23);
    c.write(&mut w).map_err(|e| format!("{e:?}"))?;
    let b = w.bytes_();
    need!(b == [&g.0[..], &v.to_le_bytes()[..]].concat(), "custom version {g:?} {v} is stored as {b:?}");
    let mut rd = w.like(b);
    let back = CustomVersion::read(&mut rd).map_err(|e| format!("{e:?}"))?;
    need!(back == c && rd.at() == 20, "custom version {c:?} came back as {back:?}");
    Ok(())
}

fn asset(r: &mut Rng) -> Result<(), String> {
    let mut a = crate::p_pkg::sample()?;
    let before = (a.asset_data.get_engine_version(), a.asset_data.object_version, a.asset_data.object_version_ue5);
    let e = r.pick(&all());
    a.asset_data.set_engine_version(e);
    use unreal_asset_base::reader::ArchiveTrait;
    if e == V::UNKNOWN {
        need!((a.get_engine_version(), a.get_object_version(), a.get_object_version_ue5()) == before, "setting an unknown engine version changed the versions");
        return Ok(());
    }
    need!(a.get_engine_version() == e && (a.get_object_version(), a.get_object_version_ue5()) == get_object_versions(e), "setting {e:?} gives {:?}", a.get_object_version());
    let m = known();
    let w = |n: &str| want(&m.iter().find(|x| x.0 == n).unwrap().2, e).unwrap_or(0);
    macro_rules! one { ($($t:ident),*) => { $(let got = a.get_custom_version::<$t>().version; need!(got == w(stringify!($t)), "{e:?} has {} {got}", stringify!($t));)* } }
    one!(FFortniteMainBranchObjectVersion, FFrameworkObjectVersion, FCoreObjectVersion, FEditorObjectVersion, FAnimPhysObjectVersion, FReleaseObjectVersion, FSequencerObjectVersion);
    Ok(())
}
