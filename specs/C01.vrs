use vstd::prelude::*;
verus! {
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/calendar.vrs
//@include prelude/holiday.vrs
//@include prelude/adjust.vrs
proof fn vacuity_adjust(c: Cal, n: int) requires live(c, n) { assert(false); }
}
fn main() {}
