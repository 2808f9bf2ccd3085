property = "M01"
needs = "old-schema metadata with an integrator entry that is present but null-free and empty"
breaks = "an empty list given for an integrator entry is dropped by the upgrade"
edits = [("unreal_mod_metadata/src/v1.rs",
"        if let Some(item_list_entries) = metadata.item_list_entries {",
"        if let Some(item_list_entries) = metadata\n            .item_list_entries\n            .filter(|e| e.as_object().map_or(true, |e| !e.is_empty()))\n        {")]
deps = ["unreal_mod_metadata", "serde_json"]
demo = r'''
fn main() {
    let m = unreal_mod_metadata::from_slice(br#"{"name":"n","mod_id":"i","version":"1.0.0","item_list_entries":{},"persistent_actors":[]}"#).unwrap();
    assert_eq!(m.integrator.get("persistent_actors"), Some(&serde_json::json!([])));
    assert_eq!(m.integrator.get("item_list_entries"), Some(&serde_json::json!({})));
}
'''
