property = "S01"
needs = "a package of exactly the version that introduced large world coordinates"
breaks = "rotators of that version are written with single precision but read with double"
edits = [("unreal_asset/unreal_asset_properties/src/vector_property.rs",
"""        match asset.get_object_version_ue5() >= ObjectVersionUE5::LARGE_WORLD_COORDINATES {
            true => {
                asset.write_f64::<LE>(self.value.x.0)?;
                asset.write_f64::<LE>(self.value.y.0)?;
                asset.write_f64::<LE>(self.value.z.0)?;

                Ok(size_of::<f64>() * 3)
""",
"""        match asset.get_object_version_ue5() > ObjectVersionUE5::LARGE_WORLD_COORDINATES {
            true => {
                asset.write_f64::<LE>(self.value.x.0)?;
                asset.write_f64::<LE>(self.value.y.0)?;
                asset.write_f64::<LE>(self.value.z.0)?;

                Ok(size_of::<f64>() * 3)
""")]
deps = ["unreal_asset_base", "unreal_asset_properties", "unreal_helpers", "byteorder", "ordered-float"]
demo = "mod ar {\n" + open("/verif/harness/src/ar.rs").read() + r'''
}
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::object_version::ObjectVersionUE5;
use unreal_asset_base::types::fname::FName;
use unreal_asset_base::unversioned::Ancestry;
use unreal_asset_properties::{vector_property::RotatorProperty, PropertyTrait};
fn main() {
    for v in [ObjectVersionUE5::UNKNOWN, ObjectVersionUE5::OPTIONAL_RESOURCES, ObjectVersionUE5::LARGE_WORLD_COORDINATES, ObjectVersionUE5::ADD_SOFTOBJECTPATH_LIST] {
        let mut a = ar::Ar::new(EngineVersion::VER_UE5_1);
        a.object5 = v;
        let n = if v >= ObjectVersionUE5::LARGE_WORLD_COORDINATES { 24 } else { 12 };
        let bytes: Vec<u8> = (0..n).map(|i| [0, 0, 0x80, 0x3f][i % 4]).collect();
        let mut r = a.like(bytes.clone());
        let p = RotatorProperty::new(&mut r, FName::from_slice("r"), Ancestry::default(), false, 0).unwrap();
        assert_eq!(r.at() as usize, n);
        let mut w = a.like(vec![]);
        assert_eq!(p.write(&mut w, false).unwrap(), n, "{v:?}");
        assert_eq!(w.bytes(), bytes);
    }
}
'''
