// ---- meanings of std integer methods vstd has no specification for (assumed) ----
pub assume_specification [i32::saturating_sub] (a: i32, b: i32) -> (r: i32)
    ensures r == (if a - b < i32::MIN { i32::MIN as int } else if a - b > i32::MAX { i32::MAX as int } else { a - b });
pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32)
    ensures r == (if a + b < i32::MIN { i32::MIN as int } else if a + b > i32::MAX { i32::MAX as int } else { a + b });
pub assume_specification [i32::saturating_neg] (a: i32) -> (r: i32)
    ensures r == (if a == i32::MIN { i32::MAX as int } else { -(a as int) });
