property = "N03"
needs = "a name with an instance number that comes from another asset's name table, then rebuild_name_map"
breaks = "the name loses its instance number when it is moved to the asset's own table"
edits = [("unreal_asset/src/asset.rs",
"""            let FName::Backed {
                index, name_map, ..
            } = &mut name
            else {
                return;
            };

            if *name_map != current_name_map {
                let new_index = current_name_map
                    .get_mut()
                    .add_name_reference(content, false);

                *index = new_index;
                *name_map = current_name_map.clone();
            }
""",
"""            let FName::Backed { name_map, .. } = &mut name else {
                return;
            };

            if *name_map != current_name_map {
                *name = current_name_map.get_mut().add_fname(&content);
            }
""")]
deps = ["unreal_asset"]
demo = r'''
use std::io::Cursor;
use unreal_asset::{Asset, engine_version::EngineVersion, exports::ExportBaseTrait};
fn main() {
    let f = std::env::var("REPO").unwrap() + "/unreal_asset/tests/assets/general/BloodStained/PB_DT_RandomizerRoomCheck.uasset";
    let data = std::fs::read(f).unwrap();
    let open = || Asset::new(Cursor::new(data.clone()), None, EngineVersion::VER_UE4_18, None).unwrap();
    let (mut a, b) = (open(), open());
    use unreal_asset::reader::ArchiveTrait;
    let foreign = b.get_name_map().get_mut().add_fname_with_number("Moved", 7);
    a.asset_data.exports[0].get_base_export_mut().object_name = foreign.clone();
    a.rebuild_name_map();
    let n = &a.asset_data.exports[0].get_base_export().object_name;
    assert_eq!(n.get_owned_content(), "Moved");
    assert_eq!(n.get_number(), 7);
    assert!(a.search_name_reference(&"Moved".to_string()).is_some());
}
'''
