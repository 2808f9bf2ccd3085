property = "C01"
needs = "two removals, the second of an entry inserted after the first one's"
breaks = "the second removal takes another entry's insertion index away, or none"
edits = [("unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs",
"self.index_map.remove(&value.index_map_index);",
"self.index_map.remove(&value.index_iter_map_index);")]
deps = ["unreal_asset_base"]
demo = r'''
use unreal_asset_base::containers::IndexedMap;
fn main() {
    let mut m = IndexedMap::new();
    for i in 0..5 { m.insert(format!("k{i}"), i); }
    m.remove_by_key("k1");
    m.remove_by_key("k3");
    assert_eq!(m.len(), 3);
    assert_eq!(m.get_by_index(2), Some(&2));
    assert_eq!(m.get_by_index(3), None);
    assert_eq!(m.get_by_index(4), Some(&4));
}
'''
