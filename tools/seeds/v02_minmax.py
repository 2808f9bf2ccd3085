property = "V02"
needs = "object versions shared by several engine versions and custom versions that fit none of them"
breaks = "an engine version is guessed whose object versions are not the given ones"
edits = [("unreal_asset/unreal_asset_base/src/engine_version.rs",
"        return possible_versions[0];\n    }\n\n    final_possible_versions\n",
"        return min_introduced;\n    }\n\n    final_possible_versions\n")]
deps = ["unreal_asset_base"]
demo = r'''
use unreal_asset_base::custom_version::{CustomVersion, CustomVersionTrait, FReleaseObjectVersion, FEditorObjectVersion};
use unreal_asset_base::engine_version::{get_object_versions, guess_engine_version, EngineVersion};
fn main() {
    let e = EngineVersion::VER_UE4_16;
    let (o, o5) = get_object_versions(e);
    for n in 0..60 {
        for m in 0..60 {
            let c = [CustomVersion::new(FReleaseObjectVersion::GUID, n), CustomVersion::new(FEditorObjectVersion::GUID, m)];
            let g = guess_engine_version(o, o5, &c);
            assert_eq!(get_object_versions(g), (o, o5), "{g:?} {n} {m}");
        }
    }
}
'''
