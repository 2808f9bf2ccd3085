property = "N01"
needs = "two names that differ in letter case only, the second added without asking for a duplicate"
breaks = "adding a name returns the index of a differently cased text"
edits = [("unreal_asset/unreal_asset_base/src/containers/name_map.rs",
"""        name.hash(&mut s);

        self.name_map_lookup.get_by_key""",
"""        name.to_lowercase().hash(&mut s);

        self.name_map_lookup.get_by_key"""),
("unreal_asset/unreal_asset_base/src/containers/name_map.rs",
"""        name.hash(&mut s);

        let hash""",
"""        name.to_lowercase().hash(&mut s);

        let hash""")]
deps = ["unreal_asset_base"]
demo = r'''
use unreal_asset_base::containers::NameMap;
fn main() {
    let mut m = NameMap::new();
    let mut m = m.get_mut();
    let a = m.add_name_reference("Éa".to_string(), false);
    let b = m.add_name_reference("éa".to_string(), false);
    assert_eq!(m.get_name_reference(a), "Éa");
    assert_eq!(m.get_name_reference(b), "éa");
}
'''
