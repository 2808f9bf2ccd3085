property = "T01"
edits = [("unreal_asset/src/asset.rs",
"""            if import.class_package.eq_content(class_package)
                && import.class_name.eq_content(class_name)
                && import.object_name.eq_content(object_name)
            {
                return Some(-(i as i32) - 1);
            }
        }
        None
""",
"""            if import.class_package.eq_content(class_package)
                && import.class_name.eq_content(class_name)
                && import.object_name.eq_content(object_name)
                && (import.outer_index.index <= 0 || i + 1 == self.imports.len())
            {
                return Some(-(i as i32) - 1);
            }
        }
        None
""")]
needs = "an import whose outer object is an export, searched for without giving its outer index"
breaks = "such an import is only found when it is the last one, otherwise a later one or none is returned"
deps = ["unreal_asset", "unreal_asset_base"]
demo = r'''
use std::io::Cursor;
use unreal_asset::{engine_version::EngineVersion, types::PackageIndex, Asset, Import};
fn main() {
    let p = "unreal_asset/tests/assets/general/Misc_426/RaceSimDataAsset";
    let repo = std::env::var("REPO").unwrap();
    let a = std::fs::read(format!("{repo}/{p}.uasset")).unwrap();
    let b = std::fs::read(format!("{repo}/{p}.uexp")).unwrap();
    let mut asset = Asset::new(Cursor::new(a), Some(Cursor::new(b)), EngineVersion::VER_UE4_26, None).unwrap();
    let (c, k, o) = (asset.add_fname("Pkg"), asset.add_fname("Cls"), asset.add_fname("Obj"));
    let mut first = None;
    for outer in [3, 0, 5] {
        let i = asset.add_import(Import { class_package: c.clone(), class_name: k.clone(), outer_index: PackageIndex::new(outer), object_name: o.clone(), optional: false });
        first.get_or_insert(i);
    }
    assert_eq!(asset.find_import_no_index(&c, &k, &o), Some(first.unwrap().index));
}
'''
