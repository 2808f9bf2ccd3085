#![allow(warnings)]
use vstd::prelude::*;
verus! {
//@ include prelude/iter.rs
//@ include prelude/std.rs
//@ enum unreal_asset/unreal_asset_base/src/engine_version.rs EngineVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=en
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersion derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=on
//@ enum unreal_asset/unreal_asset_base/src/object_version.rs ObjectVersionUE5 derive=Copy,Clone,PartialEq,Eq,PartialOrd,Ord ord=o5n
macro_rules! cmp_as { ($t:ident, $n:ident) => { verus! {
impl vstd::std_specs::cmp::PartialEqSpecImpl for $t {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &$t) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$t) -> Option<core::cmp::Ordering> {
        if $n(*self) < $n(*o) { Some(core::cmp::Ordering::Less) } else if $n(*self) == $n(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
} } }
cmp_as!(EngineVersion, en);
cmp_as!(ObjectVersion, on);
cmp_as!(ObjectVersionUE5, o5n);
//@ pairs unreal_asset/unreal_asset_base/src/engine_version.rs OBJECT_VERSION_TO_ENGINE_VERSION ov_table ObjectVersion EngineVersion
//@ pairs unreal_asset/unreal_asset_base/src/engine_version.rs OBJECT_VERSION_TO_ENGINE_VERSION_UE5 o5_table ObjectVersionUE5 EngineVersion
//@ rewrite OBJECT_VERSION_TO_ENGINE_VERSION_UE5\s*\.iter\(\) ==> viter(o5_table_x().as_slice())
//@ rewrite OBJECT_VERSION_TO_ENGINE_VERSION\s*\.iter\(\) ==> viter(ov_table_x().as_slice())
//@ rewrite possible_versions\s*\.iter\(\) ==> viter(possible_versions.as_slice())
//@ rewrite self\.version_mappings\s*\.iter\(\) ==> viter(self.version_mappings)
//@ rewrite collect::<Vec<_>>\(\) ==> collect()
//@ rewrite (\w+)\.sort\(\) ==> vx_sort(&mut \1)
//@ rewrite (\w+)\s*\.first\(\) ==> vx_first(&\1)

// ---------------------------------------------------------------- what the engines have
/// a released engine's object versions (from the engine's own headers), nothing for the rest
pub open spec fn has(e: EngineVersion) -> (ObjectVersion, ObjectVersionUE5) {
    let n = ObjectVersionUE5::UNKNOWN;
    match e {
        EngineVersion::VER_UE4_0 => (ObjectVersion::VER_UE4_PRIVATE_REMOTE_ROLE, n),
        EngineVersion::VER_UE4_1 => (ObjectVersion::VER_UE4_UNDO_BREAK_MATERIALATTRIBUTES_CHANGE, n),
        EngineVersion::VER_UE4_2 => (ObjectVersion::VER_UE4_FIX_MATERIAL_COORDS, n),
        EngineVersion::VER_UE4_3 => (ObjectVersion::VER_UE4_FIX_MATERIAL_PROPERTY_OVERRIDE_SERIALIZE, n),
        EngineVersion::VER_UE4_4 => (ObjectVersion::VER_UE4_BLUEPRINT_USE_SCS_ROOTCOMPONENT_SCALE, n),
        EngineVersion::VER_UE4_5 => (ObjectVersion::VER_UE4_RENAME_CAMERA_COMPONENT_CONTROL_ROTATION, n),
        EngineVersion::VER_UE4_6 => (ObjectVersion::VER_UE4_MOVEMENTCOMPONENT_AXIS_SETTINGS, n),
        EngineVersion::VER_UE4_7 => (ObjectVersion::VER_UE4_AFTER_MERGING_ADD_MODIFIERS_RUNTIME_GENERATION_TO_4_7, n),
        EngineVersion::VER_UE4_8 => (ObjectVersion::VER_UE4_SERIALIZE_BLUEPRINT_EVENTGRAPH_FASTCALLS_IN_UFUNCTION, n),
        EngineVersion::VER_UE4_9 | EngineVersion::VER_UE4_10 => (ObjectVersion::VER_UE4_APEX_CLOTH_TESSELLATION, n),
        EngineVersion::VER_UE4_11 => (ObjectVersion::VER_UE4_STREAMABLE_TEXTURE_MIN_MAX_DISTANCE, n),
        EngineVersion::VER_UE4_12 => (ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED, n),
        EngineVersion::VER_UE4_13 => (ObjectVersion::VER_UE4_INSTANCED_STEREO_UNIFORM_REFACTOR, n),
        EngineVersion::VER_UE4_14 => (ObjectVersion::VER_UE4_TemplateIndex_IN_COOKED_EXPORTS, n),
        EngineVersion::VER_UE4_15 => (ObjectVersion::VER_UE4_ADDED_SEARCHABLE_NAMES, n),
        EngineVersion::VER_UE4_16 | EngineVersion::VER_UE4_17 => (ObjectVersion::VER_UE4_ADDED_SWEEP_WHILE_WALKING_FLAG, n),
        EngineVersion::VER_UE4_18 => (ObjectVersion::VER_UE4_ADDED_SOFT_OBJECT_PATH, n),
        EngineVersion::VER_UE4_19 | EngineVersion::VER_UE4_20 => (ObjectVersion::VER_UE4_ADDED_PACKAGE_SUMMARY_LOCALIZATION_ID, n),
        EngineVersion::VER_UE4_21 | EngineVersion::VER_UE4_22 | EngineVersion::VER_UE4_23 => (ObjectVersion::VER_UE4_FIX_WIDE_STRING_CRC, n),
        EngineVersion::VER_UE4_24 | EngineVersion::VER_UE4_25 => (ObjectVersion::VER_UE4_ADDED_PACKAGE_OWNER, n),
        EngineVersion::VER_UE4_26 => (ObjectVersion::VER_UE4_SKINWEIGHT_PROFILE_DATA_LAYOUT_CHANGES, n),
        EngineVersion::VER_UE4_27 => (ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, n),
        EngineVersion::VER_UE5_0 => (ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::LARGE_WORLD_COORDINATES),
        EngineVersion::VER_UE5_1 => (ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::ADD_SOFTOBJECTPATH_LIST),
        EngineVersion::VER_UE5_2 => (ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::AUTOMATIC_VERSION),
        _ => (ObjectVersion::UNKNOWN, n),
    }
}
pub open spec fn released(e: EngineVersion) -> bool { en(EngineVersion::VER_UE4_0) <= en(e) <= en(EngineVersion::VER_UE5_2) }
/// the number each engine's object versions have in the file format, as places in the enumerations
pub open spec fn rank(e: EngineVersion) -> (int, int) { match e {
    EngineVersion::VER_UE4_0 => (129, 0),
    EngineVersion::VER_UE4_1 => (139, 0),
    EngineVersion::VER_UE4_2 => (150, 0),
    EngineVersion::VER_UE4_3 => (169, 0),
    EngineVersion::VER_UE4_4 => (172, 0),
    EngineVersion::VER_UE4_5 => (188, 0),
    EngineVersion::VER_UE4_6 => (200, 0),
    EngineVersion::VER_UE4_7 => (221, 0),
    EngineVersion::VER_UE4_8 => (238, 0),
    EngineVersion::VER_UE4_9 => (269, 0),
    EngineVersion::VER_UE4_10 => (269, 0),
    EngineVersion::VER_UE4_11 => (285, 0),
    EngineVersion::VER_UE4_12 => (291, 0),
    EngineVersion::VER_UE4_13 => (292, 0),
    EngineVersion::VER_UE4_14 => (295, 0),
    EngineVersion::VER_UE4_15 => (297, 0),
    EngineVersion::VER_UE4_16 => (300, 0),
    EngineVersion::VER_UE4_17 => (300, 0),
    EngineVersion::VER_UE4_18 => (301, 0),
    EngineVersion::VER_UE4_19 => (303, 0),
    EngineVersion::VER_UE4_20 => (303, 0),
    EngineVersion::VER_UE4_21 => (304, 0),
    EngineVersion::VER_UE4_22 => (304, 0),
    EngineVersion::VER_UE4_23 => (304, 0),
    EngineVersion::VER_UE4_24 => (305, 0),
    EngineVersion::VER_UE4_25 => (305, 0),
    EngineVersion::VER_UE4_26 => (306, 0),
    EngineVersion::VER_UE4_27 => (309, 0),
    EngineVersion::VER_UE5_0 => (309, 5),
    EngineVersion::VER_UE5_1 => (309, 9),
    EngineVersion::VER_UE5_2 => (309, 11),
    _ => (0, 0),
} }
pub proof fn rank_is(e: EngineVersion) ensures rank(e) == (on(has(e).0), o5n(has(e).1)) {
    match e {
        EngineVersion::VER_UE4_0 => { assert(on(has(EngineVersion::VER_UE4_0).0) == 129 && o5n(has(EngineVersion::VER_UE4_0).1) == 0) by (compute); }
        EngineVersion::VER_UE4_1 => { assert(on(has(EngineVersion::VER_UE4_1).0) == 139 && o5n(has(EngineVersion::VER_UE4_1).1) == 0) by (compute); }
        EngineVersion::VER_UE4_2 => { assert(on(has(EngineVersion::VER_UE4_2).0) == 150 && o5n(has(EngineVersion::VER_UE4_2).1) == 0) by (compute); }
        EngineVersion::VER_UE4_3 => { assert(on(has(EngineVersion::VER_UE4_3).0) == 169 && o5n(has(EngineVersion::VER_UE4_3).1) == 0) by (compute); }
        EngineVersion::VER_UE4_4 => { assert(on(has(EngineVersion::VER_UE4_4).0) == 172 && o5n(has(EngineVersion::VER_UE4_4).1) == 0) by (compute); }
        EngineVersion::VER_UE4_5 => { assert(on(has(EngineVersion::VER_UE4_5).0) == 188 && o5n(has(EngineVersion::VER_UE4_5).1) == 0) by (compute); }
        EngineVersion::VER_UE4_6 => { assert(on(has(EngineVersion::VER_UE4_6).0) == 200 && o5n(has(EngineVersion::VER_UE4_6).1) == 0) by (compute); }
        EngineVersion::VER_UE4_7 => { assert(on(has(EngineVersion::VER_UE4_7).0) == 221 && o5n(has(EngineVersion::VER_UE4_7).1) == 0) by (compute); }
        EngineVersion::VER_UE4_8 => { assert(on(has(EngineVersion::VER_UE4_8).0) == 238 && o5n(has(EngineVersion::VER_UE4_8).1) == 0) by (compute); }
        EngineVersion::VER_UE4_9 => { assert(on(has(EngineVersion::VER_UE4_9).0) == 269 && o5n(has(EngineVersion::VER_UE4_9).1) == 0) by (compute); }
        EngineVersion::VER_UE4_10 => { assert(on(has(EngineVersion::VER_UE4_10).0) == 269 && o5n(has(EngineVersion::VER_UE4_10).1) == 0) by (compute); }
        EngineVersion::VER_UE4_11 => { assert(on(has(EngineVersion::VER_UE4_11).0) == 285 && o5n(has(EngineVersion::VER_UE4_11).1) == 0) by (compute); }
        EngineVersion::VER_UE4_12 => { assert(on(has(EngineVersion::VER_UE4_12).0) == 291 && o5n(has(EngineVersion::VER_UE4_12).1) == 0) by (compute); }
        EngineVersion::VER_UE4_13 => { assert(on(has(EngineVersion::VER_UE4_13).0) == 292 && o5n(has(EngineVersion::VER_UE4_13).1) == 0) by (compute); }
        EngineVersion::VER_UE4_14 => { assert(on(has(EngineVersion::VER_UE4_14).0) == 295 && o5n(has(EngineVersion::VER_UE4_14).1) == 0) by (compute); }
        EngineVersion::VER_UE4_15 => { assert(on(has(EngineVersion::VER_UE4_15).0) == 297 && o5n(has(EngineVersion::VER_UE4_15).1) == 0) by (compute); }
        EngineVersion::VER_UE4_16 => { assert(on(has(EngineVersion::VER_UE4_16).0) == 300 && o5n(has(EngineVersion::VER_UE4_16).1) == 0) by (compute); }
        EngineVersion::VER_UE4_17 => { assert(on(has(EngineVersion::VER_UE4_17).0) == 300 && o5n(has(EngineVersion::VER_UE4_17).1) == 0) by (compute); }
        EngineVersion::VER_UE4_18 => { assert(on(has(EngineVersion::VER_UE4_18).0) == 301 && o5n(has(EngineVersion::VER_UE4_18).1) == 0) by (compute); }
        EngineVersion::VER_UE4_19 => { assert(on(has(EngineVersion::VER_UE4_19).0) == 303 && o5n(has(EngineVersion::VER_UE4_19).1) == 0) by (compute); }
        EngineVersion::VER_UE4_20 => { assert(on(has(EngineVersion::VER_UE4_20).0) == 303 && o5n(has(EngineVersion::VER_UE4_20).1) == 0) by (compute); }
        EngineVersion::VER_UE4_21 => { assert(on(has(EngineVersion::VER_UE4_21).0) == 304 && o5n(has(EngineVersion::VER_UE4_21).1) == 0) by (compute); }
        EngineVersion::VER_UE4_22 => { assert(on(has(EngineVersion::VER_UE4_22).0) == 304 && o5n(has(EngineVersion::VER_UE4_22).1) == 0) by (compute); }
        EngineVersion::VER_UE4_23 => { assert(on(has(EngineVersion::VER_UE4_23).0) == 304 && o5n(has(EngineVersion::VER_UE4_23).1) == 0) by (compute); }
        EngineVersion::VER_UE4_24 => { assert(on(has(EngineVersion::VER_UE4_24).0) == 305 && o5n(has(EngineVersion::VER_UE4_24).1) == 0) by (compute); }
        EngineVersion::VER_UE4_25 => { assert(on(has(EngineVersion::VER_UE4_25).0) == 305 && o5n(has(EngineVersion::VER_UE4_25).1) == 0) by (compute); }
        EngineVersion::VER_UE4_26 => { assert(on(has(EngineVersion::VER_UE4_26).0) == 306 && o5n(has(EngineVersion::VER_UE4_26).1) == 0) by (compute); }
        EngineVersion::VER_UE4_27 => { assert(on(has(EngineVersion::VER_UE4_27).0) == 309 && o5n(has(EngineVersion::VER_UE4_27).1) == 0) by (compute); }
        EngineVersion::VER_UE5_0 => { assert(on(has(EngineVersion::VER_UE5_0).0) == 309 && o5n(has(EngineVersion::VER_UE5_0).1) == 5) by (compute); }
        EngineVersion::VER_UE5_1 => { assert(on(has(EngineVersion::VER_UE5_1).0) == 309 && o5n(has(EngineVersion::VER_UE5_1).1) == 9) by (compute); }
        EngineVersion::VER_UE5_2 => { assert(on(has(EngineVersion::VER_UE5_2).0) == 309 && o5n(has(EngineVersion::VER_UE5_2).1) == 11) by (compute); }
        _ => { assert(on(ObjectVersion::UNKNOWN) == 0 && o5n(ObjectVersionUE5::UNKNOWN) == 0) by (compute); }
    }
}
/// later engines never have earlier object versions
pub proof fn monotone(a: EngineVersion, b: EngineVersion)
    requires released(a), released(b), en(a) <= en(b)
    ensures on(has(a).0) <= on(has(b).0), o5n(has(a).1) <= o5n(has(b).1), !(has(a).0 is UNKNOWN)
{
    rank_is(a); rank_is(b); ranks_grow(a, b);
    assert(on(ObjectVersion::UNKNOWN) == 0) by (compute);
}
pub proof fn ranks_grow(a: EngineVersion, b: EngineVersion)
    requires released(a), released(b), en(a) <= en(b) ensures rank(a).0 <= rank(b).0, rank(a).1 <= rank(b).1, rank(a).0 > 0 { }
pub open spec fn ov_for<'a>(e: EngineVersion) -> spec_fn(&'a (ObjectVersion, EngineVersion)) -> bool { |x: &'a (ObjectVersion, EngineVersion)| x.1 == e }
pub open spec fn o5_for<'a>(e: EngineVersion) -> spec_fn(&'a (ObjectVersionUE5, EngineVersion)) -> bool { |x: &'a (ObjectVersionUE5, EngineVersion)| x.1 == e }
// the lists agree with `has` entry by entry, and list every released engine
pub open spec fn ov_right(t: Seq<(ObjectVersion, EngineVersion)>, n: nat) -> bool decreases n {
    n == 0 || (n <= t.len() && released(t[n - 1].1) && t[n - 1].0 == has(t[n - 1].1).0 && ov_right(t, (n - 1) as nat))
}
pub proof fn ov_right_at(t: Seq<(ObjectVersion, EngineVersion)>, n: nat, k: int)
    requires ov_right(t, n), 0 <= k < n ensures n <= t.len(), released(t[k].1), t[k].0 == has(t[k].1).0 decreases n
{ if k < n - 1 { ov_right_at(t, (n - 1) as nat, k); } }
pub open spec fn ov_pos(t: Seq<(ObjectVersion, EngineVersion)>, e: int, n: nat) -> int decreases n {
    if n == 0 || n > t.len() { -1 } else if en(t[n - 1].1) == e { n - 1 } else { ov_pos(t, e, (n - 1) as nat) }
}
pub proof fn ov_pos_is(t: Seq<(ObjectVersion, EngineVersion)>, e: int, n: nat)
    ensures ov_pos(t, e, n) < 0 || (ov_pos(t, e, n) < t.len() && en(t[ov_pos(t, e, n)].1) == e) decreases n
{ if n > 0 { ov_pos_is(t, e, (n - 1) as nat); } }
pub open spec fn ov_all(t: Seq<(ObjectVersion, EngineVersion)>, lo: int, hi: int) -> bool decreases hi - lo + 1 {
    lo > hi || (ov_pos(t, lo, t.len()) >= 0 && ov_all(t, lo + 1, hi))
}
pub proof fn ov_all_at(t: Seq<(ObjectVersion, EngineVersion)>, lo: int, hi: int, e: int)
    requires ov_all(t, lo, hi), lo <= e <= hi ensures ov_pos(t, e, t.len()) >= 0 decreases hi - lo + 1
{ if e > lo { ov_all_at(t, lo + 1, hi, e); } }
pub open spec fn o5_right(t: Seq<(ObjectVersionUE5, EngineVersion)>, n: nat) -> bool decreases n {
    n == 0 || (n <= t.len() && released(t[n - 1].1) && t[n - 1].0 == has(t[n - 1].1).1 && o5_right(t, (n - 1) as nat))
}
pub proof fn o5_right_at(t: Seq<(ObjectVersionUE5, EngineVersion)>, n: nat, k: int)
    requires o5_right(t, n), 0 <= k < n ensures n <= t.len(), released(t[k].1), t[k].0 == has(t[k].1).1 decreases n
{ if k < n - 1 { o5_right_at(t, (n - 1) as nat, k); } }
pub open spec fn o5_pos(t: Seq<(ObjectVersionUE5, EngineVersion)>, e: int, n: nat) -> int decreases n {
    if n == 0 || n > t.len() { -1 } else if en(t[n - 1].1) == e { n - 1 } else { o5_pos(t, e, (n - 1) as nat) }
}
pub proof fn o5_pos_is(t: Seq<(ObjectVersionUE5, EngineVersion)>, e: int, n: nat)
    ensures o5_pos(t, e, n) < 0 || (o5_pos(t, e, n) < t.len() && en(t[o5_pos(t, e, n)].1) == e) decreases n
{ if n > 0 { o5_pos_is(t, e, (n - 1) as nat); } }
pub open spec fn o5_all(t: Seq<(ObjectVersionUE5, EngineVersion)>, lo: int, hi: int) -> bool decreases hi - lo + 1 {
    lo > hi || (o5_pos(t, lo, t.len()) >= 0 && o5_all(t, lo + 1, hi))
}
pub proof fn o5_all_at(t: Seq<(ObjectVersionUE5, EngineVersion)>, lo: int, hi: int, e: int)
    requires o5_all(t, lo, hi), lo <= e <= hi ensures o5_pos(t, e, t.len()) >= 0 decreases hi - lo + 1
{ if e > lo { o5_all_at(t, lo + 1, hi, e); } }
/// the enumeration numbers the engines apart
pub proof fn en_inj(a: EngineVersion, b: EngineVersion) requires en(a) == en(b) ensures a == b { }
/// the lists hold, for every engine listed, what it has; and they list every released engine
pub proof fn lists_right()
    ensures
        forall|k: int| #![trigger ov_table()[k]] 0 <= k < ov_table().len() ==> released(ov_table()[k].1) && ov_table()[k].0 == has(ov_table()[k].1).0,
        forall|k: int| #![trigger o5_table()[k]] 0 <= k < o5_table().len() ==> released(o5_table()[k].1) && o5_table()[k].0 == has(o5_table()[k].1).1,
        forall|e: EngineVersion| released(e) ==> exists|k: int| 0 <= k < ov_table().len() && #[trigger] ov_table()[k].1 == e,
        forall|e: EngineVersion| released(e) && !(has(e).1 is UNKNOWN) ==> exists|k: int| 0 <= k < o5_table().len() && #[trigger] o5_table()[k].1 == e,
{
    assert(ov_right(ov_table(), ov_table().len())) by (compute);
    assert(o5_right(o5_table(), o5_table().len())) by (compute);
    assert(ov_all(ov_table(), en(EngineVersion::VER_UE4_0), en(EngineVersion::VER_UE5_2))) by (compute);
    assert(o5_all(o5_table(), en(EngineVersion::VER_UE5_0), en(EngineVersion::VER_UE5_2))) by (compute);
    let t = ov_table(); let u = o5_table();
    assert forall|k: int| #![trigger ov_table()[k]] 0 <= k < ov_table().len() implies released(ov_table()[k].1) && ov_table()[k].0 == has(ov_table()[k].1).0 by { ov_right_at(t, t.len(), k); }
    assert forall|k: int| #![trigger o5_table()[k]] 0 <= k < o5_table().len() implies released(o5_table()[k].1) && o5_table()[k].0 == has(o5_table()[k].1).1 by { o5_right_at(u, u.len(), k); }
    assert forall|e: EngineVersion| released(e) implies exists|k: int| 0 <= k < ov_table().len() && #[trigger] ov_table()[k].1 == e by {
        ov_all_at(t, en(EngineVersion::VER_UE4_0), en(EngineVersion::VER_UE5_2), en(e)); ov_pos_is(t, en(e), t.len());
        let k = ov_pos(t, en(e), t.len()); en_inj(t[k].1, e); assert(ov_table()[k].1 == e);
    }
    assert forall|e: EngineVersion| released(e) && !(has(e).1 is UNKNOWN) implies exists|k: int| 0 <= k < o5_table().len() && #[trigger] o5_table()[k].1 == e by {
        o5_all_at(u, en(EngineVersion::VER_UE5_0), en(EngineVersion::VER_UE5_2), en(e)); o5_pos_is(u, en(e), u.len());
        let k = o5_pos(u, en(e), u.len()); en_inj(u[k].1, e); assert(o5_table()[k].1 == e);
    }
}

#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<EngineVersion>)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> en(#[trigger] final(v)@[i]) <= en(#[trigger] final(v)@[j]),
        forall|e: EngineVersion| #[trigger] final(v)@.contains(e) <==> old(v)@.contains(e)
{ v.sort() }
pub fn vx_first(v: &Vec<EngineVersion>) -> (r: Option<&EngineVersion>) ensures r == (if v@.len() > 0 { Some(&v@[0]) } else { None })
{ if v.len() > 0 { Some(&v[0]) } else { None } }

//@ fn unreal_asset/unreal_asset_base/src/engine_version.rs - get_object_versions params=engine_version
    ensures r == has(engine_version)
//@ closure arg="&&(ObjectVersion, EngineVersion)" ret="r: bool" ens="r == (cx.1 == engine_version)" ghost="ov_for(engine_version)"
//@ closure arg="&(ObjectVersion, EngineVersion)" ret="r: ObjectVersion" ens="r == cx.0"
//@ closure arg="&&(ObjectVersionUE5, EngineVersion)" ret="r: bool" ens="r == (cx.1 == engine_version)" ghost="o5_for(engine_version)"
//@ closure arg="&(ObjectVersionUE5, EngineVersion)" ret="r: ObjectVersionUE5" ens="r == cx.0"
//@ at body-start
    proof {
        lists_right();
        let s = refs(ov_table()); let p = ov_for(engine_version);
        first_at_ok(s, p);
        assert forall|k: int| #![trigger ov_table()[k]] 0 <= k < ov_table().len() implies s[k] == &ov_table()[k] by { }
        let s5 = refs(o5_table()); let p5 = o5_for(engine_version);
        first_at_ok(s5, p5);
        assert forall|k: int| #![trigger o5_table()[k]] 0 <= k < o5_table().len() implies s5[k] == &o5_table()[k] by { }
        let k = first_at(s, p); let k5 = first_at(s5, p5);
        if k < s.len() { assert(s[k].1 == engine_version); assert(ov_table()[k].1 == engine_version); }
        else if released(engine_version) { let j = choose|k: int| 0 <= k < ov_table().len() && #[trigger] ov_table()[k].1 == engine_version; assert(!p(s[j])); assert(false); }
        if k5 < s5.len() { assert(s5[k5].1 == engine_version); assert(o5_table()[k5].1 == engine_version); }
        else if released(engine_version) && !(has(engine_version).1 is UNKNOWN) { let j = choose|k: int| 0 <= k < o5_table().len() && #[trigger] o5_table()[k].1 == engine_version; assert(!p5(s5[j])); assert(false); }
    }
//@ end

pub proof fn filter_has<X>(s: Seq<X>, p: spec_fn(X) -> bool, x: X)
    ensures s.filter(p).contains(x) <==> s.contains(x) && p(x)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        filter_has(t, p, x);
        if s.contains(x) && s.last() != x { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == x); }
        if p(s.last()) {
            let f = t.filter(p);
            assert(s.filter(p) =~= f.push(s.last()));
            if f.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(s.filter(p)[i] == x); }
            if s.filter(p).contains(x) && x != s.last() { let i = choose|i: int| 0 <= i < s.filter(p).len() && s.filter(p)[i] == x; assert(f[i] == x); }
            if x == s.last() { assert(s.filter(p)[f.len() as int] == x); assert(s[s.len() - 1] == x); }
        } else if x == s.last() { assert(!p(x)); assert(s[s.len() - 1] == x); }
    }
}
pub open spec fn ov_is<'a>(o: ObjectVersion) -> spec_fn(&'a (ObjectVersion, EngineVersion)) -> bool { |x: &'a (ObjectVersion, EngineVersion)| x.0 == o }
pub open spec fn eng_of<'a>() -> spec_fn(&'a (ObjectVersion, EngineVersion)) -> EngineVersion { |x: &'a (ObjectVersion, EngineVersion)| x.1 }
pub open spec fn o5_is(o: ObjectVersionUE5) -> spec_fn(EngineVersion) -> bool { |e: EngineVersion| has(e).1 == o }
/// the engines that have both object versions
pub open spec fn can(e: EngineVersion, o: ObjectVersion, o5: ObjectVersionUE5) -> bool { released(e) && has(e) == (o, o5) }
pub proof fn possible_is<'a>(o: ObjectVersion, o5: ObjectVersionUE5)
    ensures ({ let r = refs(ov_table()).filter(ov_is(o)).map_values(eng_of()).filter(o5_is(o5));
        &&& forall|e: EngineVersion| #[trigger] can(e, o, o5) ==> r.contains(e)
        &&& forall|i: int| 0 <= i < r.len() ==> can(#[trigger] r[i], o, o5) })
{
    lists_right();
    let s = refs(ov_table()); let f = s.filter(ov_is(o)); let m = f.map_values(eng_of());
    assert forall|e: EngineVersion| #[trigger] m.filter(o5_is(o5)).contains(e) <==> can(e, o, o5) by {
        filter_has(m, o5_is(o5), e);
        if m.contains(e) && has(e).1 == o5 {
            let i = choose|i: int| 0 <= i < m.len() && m[i] == e;
            assert(f.contains(f[i]));
            filter_has(s, ov_is(o), f[i]);
            let k = choose|k: int| 0 <= k < s.len() && s[k] == f[i];
            assert(ov_table()[k] == *f[i]);
        }
        if can(e, o, o5) {
            let k = choose|k: int| 0 <= k < ov_table().len() && #[trigger] ov_table()[k].1 == e;
            assert(s[k] == &ov_table()[k]);
            assert(s.contains(s[k]));
            filter_has(s, ov_is(o), s[k]);
            let i = choose|i: int| 0 <= i < f.len() && f[i] == s[k];
            assert(m[i] == e);
            assert(m.contains(e));
        }
    }
    let r = m.filter(o5_is(o5));
    assert forall|i: int| 0 <= i < r.len() implies can(#[trigger] r[i], o, o5) by { assert(r.contains(r[i])); }
    assert forall|e: EngineVersion| #[trigger] can(e, o, o5) implies r.contains(e) by { }
}
//@ fn unreal_asset/unreal_asset_base/src/engine_version.rs - get_possible_versions params=object_version,object_version_ue5
    ensures forall|e: EngineVersion| #[trigger] can(e, object_version, object_version_ue5) ==> r@.contains(e),
        forall|i: int| 0 <= i < r@.len() ==> can(#[trigger] r@[i], object_version, object_version_ue5),
//@ closure arg="&&(ObjectVersion, EngineVersion)" ret="r: bool" ens="r == (cx.0 == object_version)" ghost="ov_is(object_version)"
//@ closure arg="&(ObjectVersion, EngineVersion)" ret="r: EngineVersion" ens="r == cx.1" ghost="eng_of()"
//@ closure arg="&EngineVersion" ret="r: bool" ens="r == (has(*cx).1 == object_version_ue5)" ghost="o5_is(object_version_ue5)"
//@ at body-start
    proof { possible_is(object_version, object_version_ue5); }
//@ end

// ---------------------------------------------------------------- custom versions
#[derive(Copy, Clone)]
pub struct Guid(pub [u8; 16]);
//@ struct unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion
pub open spec fn num_is<'a>(n: i32) -> spec_fn(&'a (EngineVersion, i32)) -> bool { |x: &'a (EngineVersion, i32)| x.1 == n }
pub open spec fn by_then<'a>(e: EngineVersion) -> spec_fn(&'a (EngineVersion, i32)) -> bool { |x: &'a (EngineVersion, i32)| en(x.0) <= en(e) }
/// the first engine listed with number n
pub open spec fn introduced(m: Seq<(EngineVersion, i32)>, n: i32) -> Option<EngineVersion> {
    let k = first_at(refs(m), num_is(n));
    if k < m.len() { Some(m[k].0) } else { None }
}
//@ fn unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion get_engine_version_from_version_number params=version_number
    ensures r == introduced(self.version_mappings@, version_number)
//@ closure arg="&&(EngineVersion, i32)" ret="r: bool" ens="r == (cx.1 == version_number)" ghost="num_is(version_number)"
//@ closure arg="&(EngineVersion, i32)" ret="r: EngineVersion" ens="r == cx.0"
//@ at body-start
    proof { first_at_ok(refs(self.version_mappings@), num_is(version_number)); }
//@ end
/// number n is the last one introduced at or before engine e
pub open spec fn last_by(m: Seq<(EngineVersion, i32)>, e: EngineVersion, n: i32) -> bool {
    exists|k: int| 0 <= k < m.len() && #[trigger] m[k].1 == n && en(m[k].0) <= en(e)
        && forall|j: int| 0 <= j < m.len() && en(#[trigger] m[j].0) <= en(e) ==> en(m[j].0) <= en(m[k].0)
}
impl<'a> It<&'a (EngineVersion, i32)> {
    /// the item with the largest key, the last of several
    pub fn max_by_key<F: Fn(&&'a (EngineVersion, i32)) -> EngineVersion>(self, f: F, Ghost(p): Ghost<spec_fn(&'a (EngineVersion, i32)) -> EngineVersion>) -> (r: Option<&'a (EngineVersion, i32)>)
        requires forall|x: &'a (EngineVersion, i32)| #[trigger] call_requires(f, (&x,)), forall|x: &'a (EngineVersion, i32), b: EngineVersion| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)
        ensures r is None <==> self.v@.len() == 0,
            r is Some ==> self.v@.contains(r->0) && forall|j: int| 0 <= j < self.v@.len() ==> en(p(#[trigger] self.v@[j])) <= en(p(r->0)),
    {
        if self.v.len() == 0 { return None; }
        let mut best = self.v[0];
        let mut key = f(&best);
        let mut i = 1;
        assert(self.v@[0] == best);
        while i < self.v.len()
            invariant 1 <= i <= self.v.len(), self.v@.contains(best), key == p(best), forall|j: int| 0 <= j < i ==> en(p(#[trigger] self.v@[j])) <= en(key),
                forall|x: &'a (EngineVersion, i32)| #[trigger] call_requires(f, (&x,)), forall|x: &'a (EngineVersion, i32), b: EngineVersion| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)
            decreases self.v.len() - i
        {
            let x = self.v[i];
            let k = f(&x);
            if k >= key { best = x; key = k; assert(self.v@[i as int] == best); }
            i += 1;
        }
        Some(best)
    }
}
pub open spec fn key_of<'a>() -> spec_fn(&'a (EngineVersion, i32)) -> EngineVersion { |x: &'a (EngineVersion, i32)| x.0 }
pub proof fn last_is<'a>(m: Seq<(EngineVersion, i32)>, e: EngineVersion)
    ensures ({ let f = refs(m).filter(by_then(e));
        &&& (f.len() == 0 <==> (forall|j: int| 0 <= j < m.len() ==> en(#[trigger] m[j].0) > en(e)))
        &&& (forall|x: &'a (EngineVersion, i32)| #[trigger] f.contains(x) ==> (forall|j: int| 0 <= j < f.len() ==> en(#[trigger] f[j].0) <= en(x.0)) ==> last_by(m, e, x.1)) })
{
    let s = refs(m); let f = s.filter(by_then(e));
    assert forall|x: &'a (EngineVersion, i32)| #[trigger] f.contains(x) && (forall|j: int| 0 <= j < f.len() ==> en(#[trigger] f[j].0) <= en(x.0)) implies last_by(m, e, x.1) by {
        filter_has(s, by_then(e), x);
        let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
        assert(m[k] == *x);
        assert forall|j: int| 0 <= j < m.len() && en(#[trigger] m[j].0) <= en(e) implies en(m[j].0) <= en(m[k].0) by {
            assert(s[j] == &m[j]); assert(s.contains(s[j])); filter_has(s, by_then(e), s[j]);
            let i = choose|i: int| 0 <= i < f.len() && f[i] == s[j]; assert(en(f[i].0) <= en(x.0));
        }
        assert(m[k].1 == x.1);
    }
    if f.len() > 0 {
        assert(f.contains(f[0])); filter_has(s, by_then(e), f[0]);
        let k = choose|k: int| 0 <= k < s.len() && s[k] == f[0]; assert(en(m[k].0) <= en(e));
    } else {
        assert forall|j: int| 0 <= j < m.len() implies en(#[trigger] m[j].0) > en(e) by {
            assert(s[j] == &m[j]); assert(s.contains(s[j])); filter_has(s, by_then(e), s[j]);
        }
    }
}
//@ fn unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion get_version_number_from_engine_version params=engine_version
    ensures r is Some ==> last_by(self.version_mappings@, engine_version, r->0),
        r is None <==> (forall|j: int| 0 <= j < self.version_mappings@.len() ==> en(#[trigger] self.version_mappings@[j].0) > en(engine_version)),
//@ closure arg="&&(EngineVersion, i32)" ret="r: bool" ens="r == (en(cx.0) <= en(engine_version))" ghost="by_then(engine_version)"
//@ closure arg="&&(EngineVersion, i32)" ret="r: EngineVersion" ens="r == cx.0" ghost="key_of()"
//@ closure arg="&(EngineVersion, i32)" ret="r: i32" ens="r == cx.1"
//@ at body-start
    proof { last_is(self.version_mappings@, engine_version); }
//@ end

// ---------------------------------------------------------------- guessing
pub open spec fn lo_of(c: Seq<CustomVersion>) -> EngineVersion decreases c.len() {
    if c.len() == 0 { EngineVersion::VER_UE4_OLDEST_LOADABLE_PACKAGE } else {
        let was = lo_of(c.drop_last());
        match introduced(c.last().version_mappings@, c.last().version) { Some(e) => if en(e) > en(was) && !(e is UNKNOWN) { e } else { was }, None => was }
    }
}
/// the number that would have followed
pub open spec fn next(n: i32) -> i32 { if n == i32::MAX { n } else { (n + 1) as i32 } }
pub open spec fn hi_of(c: Seq<CustomVersion>) -> EngineVersion decreases c.len() {
    if c.len() == 0 { EngineVersion::VER_UE4_AUTOMATIC_VERSION_PLUS_ONE } else {
        let was = hi_of(c.drop_last());
        match introduced(c.last().version_mappings@, next(c.last().version)) { Some(e) => if en(e) < en(was) && !(e is UNKNOWN) { e } else { was }, None => was }
    }
}
/// the engine agrees with the object versions and lies where the custom versions place it
pub open spec fn fits(e: EngineVersion, o: ObjectVersion, o5: ObjectVersionUE5, c: Seq<CustomVersion>) -> bool {
    can(e, o, o5) && en(lo_of(c)) <= en(e) < en(hi_of(c))
}
pub open spec fn between<'a>(lo: EngineVersion, hi: EngineVersion) -> spec_fn(&'a EngineVersion) -> bool { |e: &'a EngineVersion| en(lo) <= en(*e) < en(hi) }
pub proof fn range_is<'a>(s: Seq<EngineVersion>, lo: EngineVersion, hi: EngineVersion)
    ensures ({ let f = refs(s).filter(between(lo, hi)).map_values(deref_of());
        forall|e: EngineVersion| #[trigger] f.contains(e) <==> s.contains(e) && en(lo) <= en(e) < en(hi) })
{
    let r = refs(s); let g = r.filter(between(lo, hi)); let f = g.map_values(deref_of());
    assert forall|e: EngineVersion| #[trigger] f.contains(e) <==> s.contains(e) && en(lo) <= en(e) < en(hi) by {
        filter_has(r, between(lo, hi), &e);
        if f.contains(e) { let i = choose|i: int| 0 <= i < f.len() && f[i] == e; assert(g[i] == &e); assert(g.contains(&e));
            let k = choose|k: int| 0 <= k < r.len() && r[k] == &e; assert(s[k] == e); }
        if s.contains(e) && en(lo) <= en(e) < en(hi) { let k = choose|k: int| 0 <= k < s.len() && s[k] == e; assert(r[k] == &e); assert(r.contains(&e));
            let i = choose|i: int| 0 <= i < g.len() && g[i] == &e; assert(f[i] == e); }
    }
}
//@ fn unreal_asset/unreal_asset_base/src/engine_version.rs - guess_engine_version params=object_version,object_version_ue5,custom_versions
    ensures
        // unknown exactly when no engine has both object versions, else one of those
        (r is UNKNOWN) <==> (forall|e: EngineVersion| !#[trigger] can(e, object_version, object_version_ue5)),
        !(r is UNKNOWN) ==> can(r, object_version, object_version_ue5),
        // and the earliest the custom versions allow, when they allow one and it is not the only one
        forall|e: EngineVersion| #[trigger] fits(e, object_version, object_version_ue5, custom_versions@) ==> fits(r, object_version, object_version_ue5, custom_versions@) && en(r) <= en(e),
//@ closure arg="&&EngineVersion" ret="r: bool" ens="r == (en(min_introduced) <= en(**cx) < en(max_introduced))" ghost="between(min_introduced, max_introduced)"
//@ loop 0 it=it
    invariant min_introduced == lo_of(custom_versions@.take(it.index() as int)), max_introduced == hi_of(custom_versions@.take(it.index() as int)), it.seq() == refs(custom_versions@),
//@ at loop-start 0
    proof {
        let t = custom_versions@.take(it.index() + 1);
        assert(t.drop_last() =~= custom_versions@.take(it.index() as int));
        assert(t.last() == *custom_version);
    }
//@ at post-loop 0
    proof { assert(custom_versions@.take(custom_versions@.len() as int) =~= custom_versions@); range_is(possible_versions@, min_introduced, max_introduced);
        let f = refs(possible_versions@).filter(between(min_introduced, max_introduced)).map_values(deref_of());
        assert forall|e: EngineVersion| #[trigger] fits(e, object_version, object_version_ue5, custom_versions@) implies f.contains(e) && f.len() > 0 by { assert(can(e, object_version, object_version_ue5)); assert(possible_versions@.contains(e)); assert(f.contains(e)); }
    }
//@ at before-tail
    proof {
        assert(final_possible_versions@.contains(final_possible_versions@[0]));
        assert forall|e: EngineVersion| #[trigger] fits(e, object_version, object_version_ue5, custom_versions@) implies final_possible_versions@.contains(e) by { }
    }
//@ end

// ---------------------------------------------------------------- the versions an engine gets
pub type VersionInfo = (String, Option<&'static [(EngineVersion, i32)]>);
/// the table of known custom version types (GUID_TO_VERSION_INFO): what each guid maps to
pub uninterp spec fn types() -> Map<Guid, VersionInfo>;
pub open spec fn maps_of(g: Guid) -> Seq<(EngineVersion, i32)> {
    if types().dom().contains(g) && types()[g].1 is Some { types()[g].1->0@ } else { Seq::empty() }
}
#[verifier::external_body]
pub fn vx_info(g: &Guid) -> (r: Option<VersionInfo>)
    ensures r is Some <==> types().dom().contains(*g), r is Some ==> (r->0).0@ == types()[*g].0@ && (r->0).1 == types()[*g].1 { unimplemented!() }
#[verifier::external_body]
pub fn vx_entries() -> (r: Vec<(Guid, ())>)
    ensures r@.no_duplicates(), forall|i: int| 0 <= i < r@.len() ==> types().dom().contains((#[trigger] r@[i]).0), forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
        forall|g: Guid| #[trigger] types().dom().contains(g) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == g { unimplemented!() }
#[verifier::external_body]
pub fn vx_default(o: Option<&'static [(EngineVersion, i32)]>) -> (r: &'static [(EngineVersion, i32)])
    ensures r@ == (match o { Some(x) => x@, None => Seq::empty() }) { o.unwrap_or_default() }
//@ rewrite GUID_TO_VERSION_INFO\s*\.get\(&guid\)\s*\.map\(\|e\| e\.to_owned\(\)\) ==> vx_info(&guid)
//@ rewrite version_info\.as_ref\(\)\.map\(\|e\| e\.0\.clone\(\)\) ==> match &version_info { Some(e) => Some(e.0.clone()), None => None }
//@ rewrite version_info\.and_then\(\|e\| e\.1\)\.unwrap_or_default\(\) ==> vx_default(match version_info { Some(e) => e.1, None => None })
//@ rewrite \bSelf\b ==> CustomVersion
//@ fn unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion new params=guid,version
    ensures r.guid == guid, r.version == version, r.version_mappings@ == maps_of(guid)
//@ end
pub open spec fn seen(all: Seq<(Guid, ())>, n: int, g: Guid) -> bool { exists|k: int| 0 <= k < n && (#[trigger] all[k]).0 == g }
/// engine e gets number n of type g
pub open spec fn gets(e: EngineVersion, g: Guid, n: i32) -> bool { last_by(maps_of(g), e, n) }
pub open spec fn given(c: Seq<CustomVersion>, e: EngineVersion, g: Guid) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).guid == g && c[i].version_mappings@ == maps_of(g) && gets(e, g, c[i].version) }
pub open spec fn starts_by(e: EngineVersion, g: Guid) -> bool { exists|j: int| 0 <= j < maps_of(g).len() && en((#[trigger] maps_of(g)[j]).0) <= en(e) }
//@ fn unreal_asset/unreal_asset_base/src/custom_version.rs CustomVersion get_default_custom_version_container params=engine_version
    ensures
        // every known type that existed by then, with its last number; each once; nothing else
        forall|g: Guid| types().dom().contains(g) && #[trigger] starts_by(engine_version, g) ==> given(r@, engine_version, g),
        forall|i: int| 0 <= i < r@.len() ==> types().dom().contains((#[trigger] r@[i]).guid) && gets(engine_version, r@[i].guid, r@[i].version),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).guid != (#[trigger] r@[j]).guid,
//@ rw! for \(guid, _\) in GUID_TO_VERSION_INFO\.iter\(\) \{ ==> for ge in viter(all.as_slice()).collect() { let guid = &ge.0;
//@ rw let mut container = Vec::new\(\); ==> let mut container: Vec<CustomVersion> = Vec::new(); let all = vx_entries();
//@ loop 0 it=it
    invariant it.seq() == refs(all@),
        forall|i: int| 0 <= i < all@.len() ==> types().dom().contains((#[trigger] all@[i]).0), forall|i: int, j: int| 0 <= i < j < all@.len() ==> (#[trigger] all@[i]).0 != (#[trigger] all@[j]).0,
        forall|g: Guid| #[trigger] types().dom().contains(g) ==> exists|i: int| 0 <= i < all@.len() && (#[trigger] all@[i]).0 == g,
        forall|k: int| 0 <= k < it.index() && #[trigger] starts_by(engine_version, (#[trigger] all@[k]).0) ==> given(container@, engine_version, all@[k].0),
        forall|i: int| 0 <= i < container@.len() ==> types().dom().contains((#[trigger] container@[i]).guid) && gets(engine_version, container@[i].guid, container@[i].version),
        forall|i: int| 0 <= i < container@.len() ==> seen(all@, it.index() as int, (#[trigger] container@[i]).guid),
        forall|i: int, j: int| 0 <= i < j < container@.len() ==> (#[trigger] container@[i]).guid != (#[trigger] container@[j]).guid,
//@ at loop-start 0
    let ghost was = container@;
    proof { assert(*ge == all@[it.index() as int]); }
//@ at loop-end 0
    proof {
        let n = it.index() as int;
        assert(container@.len() >= was.len() && forall|i: int| 0 <= i < was.len() ==> container@[i] == was[i]);
        assert forall|k: int| 0 <= k < n + 1 && #[trigger] starts_by(engine_version, (#[trigger] all@[k]).0) implies given(container@, engine_version, all@[k].0) by {
            if k < n {
                let g = all@[k].0;
                let i = choose|i: int| 0 <= i < was.len() && (#[trigger] was[i]).guid == g && was[i].version_mappings@ == maps_of(g) && gets(engine_version, g, was[i].version);
                assert(container@[i].guid == g);
            } else { assert(container@.len() == was.len() + 1); assert(container@[was.len() as int].guid == all@[k].0); }
        }
        assert forall|i: int| 0 <= i < container@.len() implies seen(all@, n + 1, (#[trigger] container@[i]).guid) by {
            if i < was.len() { let k = choose|k: int| 0 <= k < n && (#[trigger] all@[k]).0 == was[i].guid; assert(all@[k].0 == container@[i].guid); }
            else { assert(all@[n].0 == container@[i].guid); }
        }
    }
//@ end

// the mappings of the known types: one number per engine, never smaller on a later released engine
pub open spec fn fresh(m: Seq<(EngineVersion, i32)>, n: nat, e: int, v: int) -> bool decreases n {
    n == 0 || (n <= m.len() && en(m[n - 1].0) != e && (e >= en(EngineVersion::VER_UE4_AUTOMATIC_VERSION) || en(m[n - 1].0) >= en(EngineVersion::VER_UE4_AUTOMATIC_VERSION)
        || ((en(m[n - 1].0) < e) == (m[n - 1].1 < v))) && fresh(m, (n - 1) as nat, e, v))
}
pub open spec fn sound(m: Seq<(EngineVersion, i32)>, n: nat) -> bool decreases n {
    n == 0 || (n <= m.len() && fresh(m, (n - 1) as nat, en(m[n - 1].0), m[n - 1].1 as int) && sound(m, (n - 1) as nat))
}
//@ verpairs unreal_asset/unreal_asset_base/src/custom_version.rs FFortniteMainBranchObjectVersion m_fort
//@ verpairs unreal_asset/unreal_asset_base/src/custom_version.rs FFrameworkObjectVersion m_fram
//@ verpairs unreal_asset/unreal_asset_base/src/custom_version.rs FCoreObjectVersion m_core
//@ verpairs unreal_asset/unreal_asset_base/src/custom_version.rs FEditorObjectVersion m_edit
//@ verpairs unreal_asset/unreal_asset_base/src/custom_version.rs FAnimPhysObjectVersion m_anim
//@ verpairs unreal_asset/unreal_asset_base/src/custom_version.rs FReleaseObjectVersion m_rele
//@ verpairs unreal_asset/unreal_asset_base/src/custom_version.rs FSequencerObjectVersion m_sequ
pub proof fn maps_sound()
    ensures sound(m_fort(), m_fort().len()), sound(m_fram(), m_fram().len()), sound(m_core(), m_core().len()), sound(m_edit(), m_edit().len()), sound(m_anim(), m_anim().len()), sound(m_rele(), m_rele().len()), sound(m_sequ(), m_sequ().len())
{
    assert(sound(m_fort(), m_fort().len())) by (compute);
    assert(sound(m_fram(), m_fram().len())) by (compute);
    assert(sound(m_core(), m_core().len())) by (compute);
    assert(sound(m_edit(), m_edit().len())) by (compute);
    assert(sound(m_anim(), m_anim().len())) by (compute);
    assert(sound(m_rele(), m_rele().len())) by (compute);
    assert(sound(m_sequ(), m_sequ().len())) by (compute);
}
/// so the number an engine gets is one, and a later released engine gets no smaller one
pub proof fn fresh_at(m: Seq<(EngineVersion, i32)>, n: nat, e: int, v: int, j: int)
    requires fresh(m, n, e, v), 0 <= j < n
    ensures n <= m.len(), en(m[j].0) != e, e >= en(EngineVersion::VER_UE4_AUTOMATIC_VERSION) || en(m[j].0) >= en(EngineVersion::VER_UE4_AUTOMATIC_VERSION) || ((en(m[j].0) < e) == (m[j].1 < v))
    decreases n
{ if j < n - 1 { fresh_at(m, (n - 1) as nat, e, v, j); } }
pub proof fn sound_at(m: Seq<(EngineVersion, i32)>, n: nat, j: int, k: int)
    requires sound(m, n), 0 <= j < k < n
    ensures n <= m.len(), en(m[j].0) != en(m[k].0), en(m[k].0) >= en(EngineVersion::VER_UE4_AUTOMATIC_VERSION) || en(m[j].0) >= en(EngineVersion::VER_UE4_AUTOMATIC_VERSION) || ((en(m[j].0) < en(m[k].0)) == (m[j].1 < m[k].1))
    decreases n
{ if k < n - 1 { sound_at(m, (n - 1) as nat, j, k); } else { fresh_at(m, (n - 1) as nat, en(m[k].0), m[k].1 as int, j); } }
pub proof fn one_number(m: Seq<(EngineVersion, i32)>, e: EngineVersion, a: i32, b: i32)
    requires sound(m, m.len()), last_by(m, e, a), last_by(m, e, b) ensures a == b
{
    let i = choose|k: int| 0 <= k < m.len() && #[trigger] m[k].1 == a && en(m[k].0) <= en(e) && forall|j: int| 0 <= j < m.len() && en(#[trigger] m[j].0) <= en(e) ==> en(m[j].0) <= en(m[k].0);
    let j = choose|k: int| 0 <= k < m.len() && #[trigger] m[k].1 == b && en(m[k].0) <= en(e) && forall|j: int| 0 <= j < m.len() && en(#[trigger] m[j].0) <= en(e) ==> en(m[j].0) <= en(m[k].0);
    if i < j { sound_at(m, m.len(), i, j); } else if j < i { sound_at(m, m.len(), j, i); }
}
pub proof fn numbers_grow(m: Seq<(EngineVersion, i32)>, e: EngineVersion, f: EngineVersion, a: i32, b: i32)
    requires sound(m, m.len()), released(e), released(f), en(e) <= en(f), last_by(m, e, a), last_by(m, f, b) ensures a <= b
{
    let i = choose|k: int| 0 <= k < m.len() && #[trigger] m[k].1 == a && en(m[k].0) <= en(e) && forall|j: int| 0 <= j < m.len() && en(#[trigger] m[j].0) <= en(e) ==> en(m[j].0) <= en(m[k].0);
    let j = choose|k: int| 0 <= k < m.len() && #[trigger] m[k].1 == b && en(m[k].0) <= en(f) && forall|j: int| 0 <= j < m.len() && en(#[trigger] m[j].0) <= en(f) ==> en(m[j].0) <= en(m[k].0);
    assert(en(m[i].0) <= en(m[j].0));
    if i < j { sound_at(m, m.len(), i, j); } else if j < i { sound_at(m, m.len(), j, i); }
}
} fn main() {}
