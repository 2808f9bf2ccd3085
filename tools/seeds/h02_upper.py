property = "H02"
needs = "a guid text that mixes dashes into a digit pair (a dash at an odd digit position)"
breaks = "dashes are only ignored between whole bytes: other dashed spellings parse to the wrong guid or are rejected"
edits = [("unreal_helpers/src/guid.rs",
"""        let cleaned = s.replace('-', "");
        let cleaned = cleaned.trim();
""",
"""        let cleaned: String = s
            .split('-')
            .flat_map(|part| part.trim().chars())
            .collect();
        let cleaned = cleaned.as_str();
""")]
deps = ["unreal_helpers"]
demo = r'''
use std::str::FromStr;
use unreal_helpers::Guid;
fn main() {
    let want = Guid::from_str("00112233445566778899aabbccddeeff").unwrap();
    assert_eq!(Guid::from_str(" {0011-2233-44556677-8899aabbccddeeff} ").unwrap(), want);
    // a blank next to a dash is another character among the digits, and those are rejected
    assert!(Guid::from_str("00112233 -445566778899aabbccddeeff").is_err());
}
'''
needs = "a blank beside a dash in the middle of the digits"
breaks = "text with a character that is neither a digit nor a dash among its digits is accepted as a guid"
