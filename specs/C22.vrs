use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/advance_lib.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Currency { x: u8 }
//@item src/markets/interestrate/interestrateindex.rs :: struct InterestRateIndex
//@include prelude/immlib.vrs
//@include prelude/pillars.vrs
proof fn vacuity_ois(o: OISRate, v: int) requires o.ok(v) { assert(false); }
proof fn vacuity_fut(o: FuturesRate, v: int, c: Seq<StrippedCurve>) requires o.ok(v), increasing(c) { assert(false); }
}
fn main() {}
