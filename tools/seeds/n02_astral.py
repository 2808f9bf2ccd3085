property = "N02"
needs = "a name with a character outside the basic multilingual plane"
breaks = "the 64-bit hash is taken over truncated characters, not over the UTF-16 text"
edits = [("unreal_asset/unreal_asset_base/src/crc.rs",
"let encoded = string.encode_utf16().map(to_lower).collect::<Vec<_>>();",
"let encoded = string.chars().map(|c| to_lower(c as u16)).collect::<Vec<_>>();")]
deps = ["unreal_asset_base"]
demo = r'''
use unreal_asset_base::crc::cityhash64_to_lower;
fn main() {
    // different texts of the same ASCII-folded form agree, different characters do not
    assert_eq!(cityhash64_to_lower("Name"), cityhash64_to_lower("nAME"));
    assert_ne!(cityhash64_to_lower("x\u{1F600}"), cityhash64_to_lower("x\u{F600}"));
}
'''
