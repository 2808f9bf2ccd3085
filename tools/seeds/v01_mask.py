property = "V01"
needs = "an unversioned header with between 17 and 24 masked values"
breaks = "the zero mask of 17..24 values is read as three bytes instead of a whole 32-bit word"
edits = [("unreal_asset/unreal_asset_base/src/unversioned/header.rs",
"            let num_bytes = ((num_bits + 31) / 32) * 4;",
"            let num_bytes = ((num_bits + 31) / 32) * 4 - u32::from(num_bits <= 24);")]
deps = ["unreal_asset_base", "unreal_helpers", "byteorder"]
demo = "mod ar {\n" + open("/verif/harness/src/ar.rs").read() + r'''
}
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::unversioned::header::UnversionedHeader;
fn main() {
    let mut a = ar::Ar::new(EngineVersion::VER_UE5_1);
    a.unversioned = true;
    // one last fragment, 20 values with zeros
    let packed: u16 = 0x80 | 0x100 | (20 << 9);
    let mut b = packed.to_le_bytes().to_vec();
    b.extend([1, 2, 4, 0, 9, 9]);
    let mut r = a.like(b.clone());
    let h = UnversionedHeader::new(&mut r).unwrap().unwrap();
    assert_eq!(r.at(), 6);
    let mut w = a.like(vec![]);
    h.write(&mut w).unwrap();
    assert_eq!(w.bytes(), b[..6].to_vec());
}
'''
