property = "R01"
needs = "package data listing a custom version whose number is zero"
breaks = "custom versions with number zero are dropped when the registry is written"
edits = [("unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs",
"""            asset.write_i32::<LE>(custom_versions.len() as i32)?;
            for custom_version in custom_versions {
                custom_version.write(asset)?;
            }
""",
"""            let used: Vec<&CustomVersion> =
                custom_versions.iter().filter(|e| e.version != 0).collect();
            asset.write_i32::<LE>(used.len() as i32)?;
            for custom_version in used {
                custom_version.write(asset)?;
            }
""")]
deps = ["unreal_asset_base", "unreal_asset_registry", "unreal_helpers", "byteorder"]
demo = "mod ar {\n" + open("/verif/harness/src/ar.rs").read() + r'''
}
use unreal_asset_base::custom_version::FAssetRegistryVersionType;
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_registry::objects::asset_package_data::AssetPackageData;
fn main() {
    let mut a = ar::Ar::new(EngineVersion::VER_UE5_1);
    a.names.get_mut().add_fname("Package");
    let mut b = vec![];
    b.extend([0u8; 8]); // name
    b.extend(99i64.to_le_bytes());
    b.extend([7u8; 16]);
    b.extend(0i32.to_le_bytes()); // no md5
    for v in [522i32, 1008, 0] { b.extend(v.to_le_bytes()); }
    b.extend(3u32.to_le_bytes());
    b.extend(2i32.to_le_bytes());
    for (g, v) in [(1u8, 4i32), (2, 0)] { b.extend([g; 16]); b.extend(v.to_le_bytes()); }
    b.extend(0i32.to_le_bytes());
    let mut r = a.like(b.clone());
    let d = AssetPackageData::new(&mut r, FAssetRegistryVersionType::PackageFileSummaryVersionChange).unwrap();
    assert_eq!(r.at() as usize, b.len());
    let mut w = a.like(vec![]);
    d.write(&mut w).unwrap();
    assert_eq!(w.bytes(), b);
}
'''
