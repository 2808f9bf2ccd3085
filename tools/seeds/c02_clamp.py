property = "C02"
needs = "a seek beyond the end, then a seek relative to the current position"
breaks = "the chain forgets how far beyond the end it was positioned"
edits = [("unreal_asset/unreal_asset_base/src/containers/chain.rs",
"self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?",
"self.first_len + sec.seek(SeekFrom::Start((offset - self.first_len).min(self.second_len)))?")]
deps = ["unreal_asset_base"]
demo = r'''
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_asset_base::containers::Chain;
fn main() {
    let mut c = Chain::new(Cursor::new(vec![1u8, 2, 3]), Some(Cursor::new(vec![4u8, 5, 6])));
    assert_eq!(c.seek(SeekFrom::Start(9)).unwrap(), 9);
    assert_eq!(c.seek(SeekFrom::Current(-4)).unwrap(), 5);
    let mut b = [0u8; 8];
    assert_eq!(c.read(&mut b).unwrap(), 1);
    assert_eq!(b[0], 6);
}
'''
