property = "E01"
needs = "a struct, class or function export whose script cannot be decoded and is kept as raw bytes"
breaks = "the in-memory size recorded for the script is replaced by its stored size"
edits = [("unreal_asset/unreal_asset_exports/src/struct_export.rs",
"""            asset.write_i32::<LE>(self.script_bytecode_size)?;
            let raw_bytecode = self.script_bytecode_raw.as_ref().ok_or_else(|| {
                Error::no_data("script_bytecode and raw_bytecode are None".to_string())
            })?;
            asset.write_i32""",
"""            let raw_bytecode = self.script_bytecode_raw.as_ref().ok_or_else(|| {
                Error::no_data("script_bytecode and raw_bytecode are None".to_string())
            })?;
            asset.write_i32::<LE>(self.script_bytecode_size.min(raw_bytecode.len() as i32))?;
            asset.write_i32""")]
deps = ["unreal_asset_base", "unreal_asset_exports", "unreal_helpers", "byteorder", "ordered-float"]
demo = "mod ar {\n" + open("/verif/harness/src/ar.rs").read() + r'''
}
use std::io::Write;
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::reader::ArchiveWriter;
use unreal_asset_base::types::PackageIndex;
use unreal_asset_exports::{BaseExport, ExportTrait, StructExport};
fn main() {
    let mut a = ar::Ar::new(EngineVersion::VER_UE4_14);
    let none = a.names.get_mut().add_fname("None");
    a.write_fname(&none).unwrap();
    // object guid flag, next field, super, children, script sizes, script
    for v in [0i32, 0, 0, 0, 9, 3] { a.write_all(&v.to_le_bytes()).unwrap(); }
    a.write_all(&[1, 2, 3]).unwrap();
    let bytes = a.bytes();
    let mut r = a.like(bytes.clone());
    let base: BaseExport<PackageIndex> = Default::default();
    let e = StructExport::from_base(&base, &mut r).unwrap();
    let mut w = a.like(vec![]);
    e.write(&mut w).unwrap();
    assert_eq!(w.bytes(), bytes);
}
'''
