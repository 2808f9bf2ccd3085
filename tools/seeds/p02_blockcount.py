property = "P02"
needs = "compressed content whose length is an exact multiple of the block size"
breaks = "the recorded block table starts 16 bytes after the place where the stored bytes start"
edits = [("unreal_pak/src/entry.rs",
"let block_count = (data.len() as f64 / block_size as f64).ceil() as usize;",
"let block_count = data.len() / block_size as usize + 1;")]
deps = ["unreal_pak"]
demo = r'''
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_pak::{pakversion::PakVersion, PakWriter};
fn main() {
    for len in [300usize, 256, 640] {
        let data: Vec<u8> = (0..len).map(|i| (i / 7) as u8).collect();
        let mut out = Cursor::new(Vec::new());
        {
            let mut w = PakWriter::new(&mut out, PakVersion::FnameBasedCompressionMethod);
            w.block_size = 64;
            w.write_entry(&"a".to_string(), &data, true).unwrap();
            w.finish_write().unwrap();
        }
        out.seek(SeekFrom::Start(48)).unwrap();
        let mut b = [0u8; 12];
        out.read_exact(&mut b).unwrap();
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as u64;
        let start = u64::from_le_bytes(b[4..].try_into().unwrap());
        assert_eq!(n as usize, (len + 63) / 64);
        assert_eq!(start, 48 + 4 + 16 * n + 5, "first block of {len} bytes");
    }
}
'''
