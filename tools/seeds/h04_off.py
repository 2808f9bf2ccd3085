property = "H04"
needs = "a source range that runs past the end of the source list"
breaks = "target bits past the end of the source keep their old value"
edits = [("unreal_helpers/src/bitvec_ext.rs",
"""            self.set(
                (index + i) as usize,
                range
                    .get((read_offset + i) as usize)
                    .as_deref()
                    .copied()
                    .unwrap_or(false),
            )
""",
"""            let bit = match range.get((read_offset + i) as usize) {
                Some(bit) => *bit,
                None => break,
            };
            self.set((index + i) as usize, bit)
""")]
deps = ["unreal_helpers", "bitvec"]
demo = r'''
use bitvec::prelude::*;
use unreal_helpers::BitVecExt;
fn main() {
    let src: BitVec<u8, Lsb0> = bitvec![u8, Lsb0; 1, 0, 1];
    let mut t: BitVec<u8, Lsb0> = bitvec![u8, Lsb0; 1; 10];
    t.set_range_from_range(2, 5, &src, 1);
    let want: BitVec<u8, Lsb0> = bitvec![u8, Lsb0; 1, 1, 0, 1, 0, 0, 0, 1, 1, 1];
    assert_eq!(t, want);
}
'''
