property = "H01"
needs = "a string with a character outside the basic multilingual plane"
breaks = "the count in front of the UTF-16 text is the number of characters, not of code units"
edits = [("unreal_helpers/src/write_ext.rs",
"self.write_i32::<LE>(-(aligned.len() as i32 / 2) - 1)?;",
"self.write_i32::<LE>(-(string.chars().count() as i32) - 1)?;")]
deps = ["unreal_helpers"]
demo = r'''
use std::io::Cursor;
use unreal_helpers::{UnrealReadExt, UnrealWriteExt};
fn main() {
    for s in ["plain", "h\u{e9}llo", "x\u{1F600}y"] {
        let mut c = Cursor::new(Vec::new());
        let n = c.write_fstring(Some(s)).unwrap();
        assert_eq!(n, c.get_ref().len());
        c.set_position(0);
        assert_eq!(c.read_fstring().unwrap().as_deref(), Some(s));
        assert_eq!(c.position() as usize, n);
    }
}
'''
