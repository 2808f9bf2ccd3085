property = "U01"
edits = [("unreal_asset/unreal_asset_base/src/unversioned/mod.rs",
"            global_index += schema.prop_count as u32;\n",
"            global_index += (schema.prop_count as u32).max(schema.properties.len() as u32).min(255);\n")]
needs = "a property inherited from behind a class with more than 255 property slots"
breaks = "the position of the inherited property is too small"
deps = ["unreal_asset_base"]
demo = r'''
use unreal_asset_base::containers::IndexedMap;
use unreal_asset_base::types::fname::FName;
use unreal_asset_base::unversioned::properties::{shallow_property::UsmapShallowPropertyData, EPropertyType, UsmapProperty, UsmapPropertyData};
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::unversioned::{usmap_reader::*, Ancestry, EUsmapCompressionMethod, EUsmapVersion, Usmap, UsmapExtensionVersion, UsmapSchema};
fn main() {
    let prop = |name: &str, i: u16| UsmapProperty { name: name.into(), schema_index: i, array_index: 0, array_size: 1,
        property_data: UsmapPropertyData::UsmapShallowPropertyData(UsmapShallowPropertyData { property_type: EPropertyType::IntProperty }) };
    let mut m = Usmap {
        version: EUsmapVersion::Initial, name_map: vec![], enum_map: IndexedMap::new(), schemas: IndexedMap::new(), extension_version: UsmapExtensionVersion::NONE,
        object_version: ObjectVersion::UNKNOWN, object_version_ue5: ObjectVersionUE5::UNKNOWN, custom_versions: vec![], compression_method: EUsmapCompressionMethod::None, net_cl: 0 };
    let mut p = IndexedMap::new();
    p.insert(("own".to_string(), 0), prop("own", 0));
    m.schemas.insert("C".into(), UsmapSchema { name: "C".into(), super_type: "B".into(), prop_count: 300, module_path: None, properties: p });
    let mut p = IndexedMap::new();
    p.insert(("deep".to_string(), 0), prop("deep", 2));
    m.schemas.insert("B".into(), UsmapSchema { name: "B".into(), super_type: "".into(), prop_count: 3, module_path: None, properties: p });
    let n = FName::from_slice("deep");
    let (_, i) = m.get_property_with_duplication_index(&n, &Ancestry::new(FName::from_slice("C")), 0).unwrap();
    assert_eq!(i, 302);
}
'''
