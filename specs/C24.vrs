use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/period.vrs
//@include prelude/calendar.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Currency { x: u8 }
//@include prelude/irvol.vrs
//@include prelude/irmarket.vrs
//@fn src/markets/interestrate/market_context.rs impl IrMarketContext :: caplet_vol => impl IrMarketContext
//@params t, k
//@spec
    requires self.cap_surface is Some ==> self.cap_surface->0.ok()
    ensures match r {
        Err(_) => self.cap_surface is None || self.cap_surface->0.pillars.len() == 0,
        Ok(x) => self.cap_surface is Some && self.cap_surface->0.pillars.len() > 0 && x@ == self.cap_surface->0.vol(t@, k@),
    }
//@end
proof fn vacuity_vol(s: IRNormalVolSurface, k: R) requires s.ok(), s.pillars.len() == 2 { assert(false); }
}
fn main() {}
