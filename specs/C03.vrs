use vstd::prelude::*;
verus! {
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/calendar.vrs
//@include prelude/bdb.vrs
// additivity and antisymmetry of the count
proof fn count_is_additive(c: Cal, a: int, b: int, d: int)
    requires a <= b <= d
    ensures bdb(c, a, d, None, None) == bdb(c, a, b, None, None) + bdb(c, b, d, None, None)
{ lemma_cnt_split(c, a, b, d); }
proof fn count_is_antisymmetric(c: Cal, a: int, b: int, f: Option<bool>, l: Option<bool>)
    requires a != b
    ensures bdb(c, a, b, f, l) == -bdb(c, b, a, f, l)
{ }
proof fn empty_range_counts_nothing(c: Cal, a: int, l: Option<bool>)
    ensures bdb(c, a, a, None, None) == 0, bdb(c, a, a, Some(false), l) == 0
{ }
proof fn one_day_range(c: Cal, a: int)
    ensures bdb(c, a, a, Some(true), Some(true)) == (if biz(c, a) { 1int } else { 0 })
{ reveal_with_fuel(cnt, 3); }
proof fn vacuity_bdb(c: Cal, a: int, b: int) requires inr(a), inr(b), bdb(c, a, b, None, None) == 5 { assert(false); }
}
fn main() {}
