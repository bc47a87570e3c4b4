use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/advance_lib.vrs
//@include prelude/scale.vrs
//@include prelude/daycounter.vrs
//@include prelude/swapleg.vrs
//@include prelude/swapdates.vrs
// ---- consequences
// the periods tile the swap's life from the effective date on
proof fn periods_are_contiguous(l: InterestRateSwapLeg, v: int, i: int)
    requires l.schedule.len() == 0, l.gen_ok(v), 0 <= i < l.num()
    ensures l.rows(v)[0].s == l.eff(v), i + 1 < l.num() ==> l.rows(v)[i].e == l.rows(v)[i + 1].s, l.rows(v).len() == l.num(),
{ }
proof fn vacuity_sched(l: InterestRateSwapLeg, v: int) requires l.schedule.len() == 0, l.gen_ok(v), l.num() == 4 { assert(false); }
}
fn main() {}
