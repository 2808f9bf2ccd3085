property = "P01"
needs = "an archive loaded into a memory pak that already holds an entry of the same name, or an index naming a file twice"
breaks = "loading keeps the older bytes of a name instead of the archive's"
edits = [("unreal_pak/src/pakmemory.rs",
"""            self.entries.insert(
                name,
                read_entry(
                    &mut reader,
                    self.pak_version,
                    &self.compression,
                    header.offset,
                )?,
            );
""",
"""            let data = read_entry(
                &mut reader,
                self.pak_version,
                &self.compression,
                header.offset,
            )?;
            let previous = self.entries.entry(name).or_insert_with(Vec::new);
            if previous.is_empty() || previous.len() < data.len() {
                *previous = data;
            }
""")]
needs = "an archive loaded into a memory pak that already holds longer data under one of its names"
deps = ["unreal_pak"]
demo = r'''
use std::io::Cursor;
use unreal_pak::{pakversion::PakVersion, PakMemory};
fn main() {
    let mut a = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    a.set_entry("x".into(), vec![1, 2, 3]);
    a.set_entry("y".into(), vec![4]);
    let mut f = Cursor::new(vec![]);
    a.write(&mut f).unwrap();
    let mut b = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    b.set_entry("x".into(), vec![9; 50]);
    f.set_position(0);
    b.load(&mut f).unwrap();
    assert_eq!(b.get_entry(&"x".to_string()), Some(&vec![1, 2, 3]));
    assert_eq!(b.get_entry(&"y".to_string()), Some(&vec![4]));
}
'''
