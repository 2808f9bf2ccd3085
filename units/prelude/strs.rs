// ---- text encodings: std's UTF-8 / UTF-16 conversions as assumed, mutually inverse functions ----
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn utf16(s: Seq<char>) -> Seq<u16>;
/// more than one byte per character somewhere, so the UTF-16 form is used
pub open spec fn wide(s: Seq<char>) -> bool { utf8(s).len() != s.len() }
pub open spec fn le16s(u: Seq<u16>) -> Seq<u8> { Seq::new(2 * u.len(), |i: int| le16(u[i / 2])[i % 2]) }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn tlen(s: Seq<char>) -> nat { if wide(s) { utf16(s).len() } else { s.len() } }
/// the 32-bit count in front of a text
pub open spec fn tcount(s: Seq<char>) -> i32 { if wide(s) { (-(utf16(s).len() as int) - 1) as i32 } else { (s.len() + 1) as i32 } }
pub open spec fn tbody(s: Seq<char>) -> Seq<u8> { if wide(s) { le16s(utf16(s)) } else { utf8(s) } }
pub open spec fn tterm(s: Seq<char>) -> Seq<u8> { if wide(s) { le16(0) } else { seq![0u8] } }
pub open spec fn text_bytes(v: Option<Seq<char>>) -> Seq<u8> {
    match v { None => le32(0), Some(s) => le32(tcount(s) as u32) + (blob(tbody(s)) + tterm(s)) }
}
pub open spec fn text_ok(v: Option<Seq<char>>) -> bool { v is Some ==> tlen(v->0) <= 131072 }
pub open spec fn sview(v: Option<&str>) -> Option<Seq<char>> { match v { None => None, Some(s) => Some(s@) } }
pub open spec fn stview(v: Option<String>) -> Option<Seq<char>> { match v { None => None, Some(s) => Some(s@) } }
pub open spec fn bool_bytes(v: bool) -> Seq<u8> { seq![if v { 1u8 } else { 0u8 }] }
