use vstd::prelude::*;
verus! {
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/calendar.vrs
//@include prelude/monthend.vrs
// the month-end business day lies in the month whenever the month has one, and no later business day of the month exists
proof fn month_end_in_month(c: Cal, n: int, r: int, b: int)
    requires is_eom(c, n, r), biz(c, b), month_first(n) <= b <= month_last(n)
    ensures year(r) == year(n), month(r) == month(n), r >= b
{
    broadcast use axiom_civil;
    lemma_month_last(n);
    lemma_civil_unique(year(n), month(n), 1);
    lemma_order(month_first(n), r);
    lemma_order(r, month_last(n));
}
proof fn vacuity_eom(c: Cal, n: int) requires live(c, month_last(n)), year(n) == 2024 { assert(false); }
}
fn main() {}
