use vstd::prelude::*;
verus! {
//@include prelude/rules.vrs
//@oracle ../contracts/src/easter.rs
// every entry from index i on is the computus's day, and a Monday
pub open spec fn western_ok(s: Seq<int>, i: int) -> bool
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { true }
    else { s[i] == western_easter_monday(1901 + i) && wd(ydays(1901 + i) + s[i]) == 0 && western_ok(s, i + 1) }
}
pub open spec fn orthodox_ok(s: Seq<int>, i: int) -> bool
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { true }
    else { s[i] == orthodox_easter_monday(1901 + i) && wd(ydays(1901 + i) + s[i]) == 0 && orthodox_ok(s, i + 1) }
}
proof fn easter_table_is_the_computus()
    ensures western_ok(EASTER_MONDAY_spec(), 0), EASTER_MONDAY_spec().len() == 299
{
    assert(western_ok(EASTER_MONDAY_spec(), 0)) by (compute_only);
    assert(EASTER_MONDAY_spec().len() == 299) by (compute_only);
}
proof fn orthodox_table_is_the_computus()
    ensures orthodox_ok(ORTHODOX_EASTER_MONDAY_spec(), 0), ORTHODOX_EASTER_MONDAY_spec().len() == 299
{
    assert(orthodox_ok(ORTHODOX_EASTER_MONDAY_spec(), 0)) by (compute_only);
    assert(ORTHODOX_EASTER_MONDAY_spec().len() == 299) by (compute_only);
}
proof fn lemma_western(s: Seq<int>, i: int, k: int)
    requires western_ok(s, i), 0 <= i <= k < s.len()
    ensures s[k] == western_easter_monday(1901 + k), wd(ydays(1901 + k) + s[k]) == 0
    decreases k - i
{
    if i < k { lemma_western(s, i + 1, k); }
}
proof fn lemma_orthodox(s: Seq<int>, i: int, k: int)
    requires orthodox_ok(s, i), 0 <= i <= k < s.len()
    ensures s[k] == orthodox_easter_monday(1901 + k), wd(ydays(1901 + k) + s[k]) == 0
    decreases k - i
{
    if i < k { lemma_orthodox(s, i + 1, k); }
}
pub struct Cal10;
//@fn src/time/calendars.rs trait Calendar :: easter_monday => impl Cal10
//@params year
//@spec
    requires 1901 <= year <= 2199
    ensures r == western_easter_monday(year as int), wd(ydays(year as int) + r) == 0
//@entry
    proof { easter_table_is_the_computus(); lemma_western(EASTER_MONDAY_spec(), 0, year - 1901); }
//@end
//@fn src/time/calendars.rs trait Calendar :: orthodox_easter_monday => impl Cal10
//@params year
//@spec
    requires 1901 <= year <= 2199
    ensures r == orthodox_easter_monday(year as int), wd(ydays(year as int) + r) == 0
//@entry
    proof { orthodox_table_is_the_computus(); lemma_orthodox(ORTHODOX_EASTER_MONDAY_spec(), 0, year - 1901); }
//@end
} // verus!
fn main() {}
