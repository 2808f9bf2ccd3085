property = "H03"
needs = "a file name without extension below a directory whose name holds a dot"
breaks = "the default extension is not added when the dot stands in a directory name"
edits = [("unreal_helpers/src/path.rs",
"""    match path.extension() {
        Some(_) => Some(path_str),
        None => path
""",
"""    match path_str.rsplit_once('.') {
        Some((_, ext)) if !ext.is_empty() => Some(path_str),
        _ => path
""")]
deps = ["unreal_helpers"]
demo = r'''
use unreal_helpers::game_to_absolute;
fn main() {
    assert_eq!(game_to_absolute("G", "/Game/A/B").as_deref(), Some("G/Content/A/B.uasset"));
    assert_eq!(game_to_absolute("G", "/Game/v1.2/B").as_deref(), Some("G/Content/v1.2/B.uasset"));
}
'''
