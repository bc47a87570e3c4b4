use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/normal.vrs
//@include prelude/period.vrs
//@include prelude/calendar.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
//@include prelude/schedrow.vrs
//@include prelude/bachelier.vrs
//@include prelude/captvar.vrs
//@include prelude/irvol.vrs
//@include prelude/irmarket.vrs
//@item src/derivatives/basic.rs :: enum Style
//@item src/derivatives/basic.rs :: struct BasicInfo
//@include prelude/cap.vrs
proof fn vacuity_cap(c: CapFloor, m: IrMarketContext) requires c.m_ok(m), c.served(m), c.schedule.len() == 2 { assert(false); }
}
fn main() {}
