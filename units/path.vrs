use vstd::prelude::*;
verus! {
// std::path and regex as assumed functions over the characters of a path
/// does the last component carry an extension (std::path::Path::extension)
pub uninterp spec fn has_ext(p: Seq<char>) -> bool;
/// std::path::Path::with_extension on a path whose last component has none
pub uninterp spec fn add_ext(p: Seq<char>, e: Seq<char>) -> Seq<char>;
pub open spec fn starts(p: Seq<char>, r: Seq<char>) -> bool { r.len() <= p.len() && p.take(r.len() as int) == r }
pub struct Rooted { pub g: Ghost<Seq<char>> }
/// the regular expression `^<literal>`: the expression's text is checked below, on the source
//@ expect unreal_helpers/src/path.rs static ref GAME_REGEX : Regex = Regex :: new \( r"\^/Game/" \) \. unwrap \( \) ;
pub open spec fn root() -> Seq<char> { seq!['/', 'G', 'a', 'm', 'e', '/'] }
#[verifier::external_body]
pub fn vx_is_match(p: &str) -> (r: bool) ensures r == starts(p@, root()) { p.starts_with("/Game/") }
#[verifier::external_body]
pub fn vx_replace(p: &str, new: &String) -> (r: String)
    ensures r@ == (if starts(p@, root()) { new@ + p@.skip(6) } else { p@ }) { p.replacen("/Game/", new, 1) }
pub struct Path { pub s: String }
#[verifier::external_body]
pub fn vx_path(s: &String) -> (r: &Path) ensures r.s@ == s@ { unimplemented!() }
pub struct OsStr;
pub struct PathBuf { pub s: String }
impl Path {
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures (r is Some) == has_ext(self.s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension(&self, e: &str) -> (r: PathBuf) ensures !has_ext(self.s@) ==> r.s@ == add_ext(self.s@, e@) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, (r->0)@ == self.s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_owned(s: Option<&str>) -> (r: Option<String>) ensures (r is Some) == (s is Some), r is Some ==> (r->0)@ == (s->0)@ { s.map(|e| e.to_string()) }
#[verifier::external_body]
pub fn vx_cat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { String::from(a) + b }
//@ rewrite GAME_REGEX\.is_match\((\w+)\) ==> vx_is_match(\1)
//@ rewrite GAME_REGEX\s*\.replace\((\w+), NoExpand\(&\((.*?)\)\)\)\s*\.to_string\(\) ==> vx_replace(\1, &\2)
//@ rewrite String::from\((\w+)\) \+ ("[^"]*") ==> vx_cat(\1, \2)
//@ rewrite Path::new\(&(\w+)\) ==> vx_path(&\1)
//@ rewrite (\w+)\s*\.with_extension\(("\w*")\)\s*\.to_str\(\)\s*\.map\(\|e\| e\.to_string\(\)\) ==> vx_owned(\1.with_extension(\2).to_str())
pub open spec fn mapped(g: Seq<char>, p: Seq<char>) -> Seq<char> { g + "/Content/"@ + p.skip(6) }
//@ fn unreal_helpers/src/path.rs - game_to_absolute params=game_name,path
    ensures
        (r is Some) == starts(path@, root()),
        r is Some ==> (r->0)@ == ({ let m = mapped(game_name@, path@); if has_ext(m) { m } else { add_ext(m, "uasset"@) } }),
//@ end
}
fn main() {}
