use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/advance_lib.vrs
//@include prelude/scale.vrs
//@include prelude/daycounter.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
//@include prelude/swapleg.vrs
//@include prelude/swapdates.vrs
//@include prelude/swapnpv.vrs
//@include prelude/immlib.vrs
//@include prelude/pillars.vrs
//@include prelude/brent.vrs
//@include prelude/bootstrap.vrs
proof fn vacuity_market(m: YieldTermMarketData) requires m.ok(), m.cash_quote.len() == 2, m.futures_quote.len() == 1, m.swap_quote.len() == 1 { assert(false); }
}
fn main() {}
