use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/calendar.vrs
//@include prelude/period.vrs
//@include prelude/monthend.vrs
//@include prelude/settlement.vrs
//@include prelude/fxpair.vrs
//@include prelude/sort0.vrs
//@include prelude/fwdpoints.vrs
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: forward_helper => impl FXUnderlying
//@params v, spot, q
//@spec
    ensures r.valuation_date == v, r.spot_ref == spot, r.spot_lag == spot_lag(*self), r.quotes == q
//@end
proof fn vacuity_points(h: FXForwardHelper, c: Cal, t: int) requires h.ok(c), h.inside(c, t) { assert(false); }
}
fn main() {}
