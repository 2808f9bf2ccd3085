property = "A02"
needs = "an asset long enough for the key position to wrap, split so that the wrap falls between its two files"
breaks = "the key position of the second file starts over when the first file ends on a wrap, when encrypting but not when decrypting"
edits = [("unreal_asset/src/ac7.rs",
"""    for i in 0..uexp.len() {
        encrypted[i] = key.xor_byte(uexp[i]);
    }
""",
"""    for (row, block) in uexp.chunks(1024).enumerate() {
        if key.pk2 == 0 && row > 0 {
            key.pk1 = (key.pk1 + 217 - row as u32 % 217) % 217;
        }
        for (column, byte) in block.iter().enumerate() {
            encrypted[row * 1024 + column] = key.xor_byte(*byte);
        }
    }
""")]
needs = "a second file of more than 1024 bytes and a name whose key column is back at zero when it starts"
breaks = "the key row is moved at the wrap, so decrypting does not restore the bytes from there on"
deps = ["unreal_asset"]
demo = r'''
use unreal_asset::ac7::{decrypt, encrypt, AC7XorKey};
fn main() {
    let exp: Vec<u8> = (0..5000u32).map(|i| (i * 7) as u8).collect();
    for len in 4..1100usize {
        let asset = vec![1u8; len];
        let (a, b) = encrypt(&asset, &exp, AC7XorKey::new("plwp_6aam_a0"));
        let (x, y) = decrypt(&a, &b, AC7XorKey::new("plwp_6aam_a0"));
        assert_eq!(&x[4..], &asset[4..]);
        assert!(y == exp, "length {len}");
    }
}
'''
