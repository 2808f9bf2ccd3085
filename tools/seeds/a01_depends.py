property = "A01"
needs = "an asset with a depends map to which an export is added before it is written"
breaks = "the depends map is written with fewer entries than there are exports, so that what follows it is misread"
edits = [("unreal_asset/src/asset.rs",
"""            for i in 0..self.asset_data.exports.len() {
                let dummy = Vec::new();
                let current_data = match map.get(i) {
                    Some(e) => e,
                    None => &dummy,
                };
                serializer""",
"""            for current_data in map.iter().take(self.asset_data.exports.len()) {
                serializer""")]
deps = ["unreal_asset"]
demo = r'''
use std::io::Cursor;
use unreal_asset::{Asset, engine_version::EngineVersion};
fn read(b: Vec<u8>) -> Asset<Cursor<Vec<u8>>> { Asset::new(Cursor::new(b), None, EngineVersion::VER_UE4_18, None).unwrap() }
fn write(a: &Asset<Cursor<Vec<u8>>>) -> Vec<u8> { let mut c = Cursor::new(vec![]); a.write_data(&mut c, None).unwrap(); c.into_inner() }
fn main() {
    let f = std::env::var("REPO").unwrap() + "/unreal_asset/tests/assets/general/BloodStained/PB_DT_RandomizerRoomCheck.uasset";
    let data = std::fs::read(f).unwrap();
    let mut a = read(data.clone());
    assert!(write(&a) == data);
    let e = a.asset_data.exports[0].clone();
    a.asset_data.exports.push(e);
    let once = write(&a);
    // the file has no soft package references and no registry data to follow, so the depends map is the last of the header
    let b = read(once.clone());
    assert_eq!(b.asset_data.exports.len(), a.asset_data.exports.len());
    let twice = write(&b);
    assert!(once == twice, "written again: {} and {} bytes", once.len(), twice.len());
}
'''
