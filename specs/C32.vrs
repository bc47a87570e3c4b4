use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/calendar.vrs
//@include prelude/period.vrs
//@include prelude/monthend.vrs
//@include prelude/settlement.vrs
//@include prelude/fxpair.vrs
//@include prelude/sort0.vrs
//@include prelude/fwdpoints.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
#[verifier::external_body]
pub struct FXVolSurface { x: u8 }
//@include prelude/fxmkt.vrs
//@item src/derivatives/forex/forward.rs :: struct FXForward
impl FXForward {
    // the notional in foreign currency: as traded, or the domestic amount over the strike with the opposite sign
    pub open spec fn units(&self) -> real {
        (if self.notional_currency == frn(self.asset) { self.notional_amounts@ } else { 0real - self.notional_amounts@ / self.strike@ }) * sgn(self.basic_info.direction)
    }
    pub open spec fn at(&self) -> int { self.basic_info.expiry_date@ }
    pub open spec fn priced(&self, m: FxMarketContext, v: real) -> bool {
        exists|f: real| #[trigger] m.fwd(self.asset, self.at(), f) && v == self.units() * (f - self.strike@) * m.domestic_curve.disc(self.at())
    }
}
pub proof fn lemma_neg_div(n: real, k: real) requires k != 0real ensures (0real - n) / k == 0real - n / k
{ let q = n / k; assert(q * k == n) by (nonlinear_arith) requires k != 0real, q == n / k; assert((0real - n) / k == 0real - q) by (nonlinear_arith) requires q * k == n, k != 0real; }
//@fn src/derivatives/forex/forward.rs impl FXDerivatives for FXForward :: mtm => impl FXForward
//@params m
//@spec
    requires m.ok(self.asset, self.at()), self.strike@ != 0real
    ensures match r {
        Err(_) => m.quoted(self.asset, self.at(), false),
        Ok(x) => m.quoted(self.asset, self.at(), true) && x.currency == dom(self.asset) && self.priced(*m, x.value@),
    }
//@entry
    hide(FXForwardHelper::points); hide(FXForwardHelper::inside); hide(FXForwardHelper::ok); hide(YieldTermStructure::ok); hide(YieldTermStructure::disc); hide(frn); hide(dom); hide(pair_biz);
    proof { lemma_neg_div(self.notional_amounts@, self.strike@); }
//@exit
    proof {
        assert(m.fwd(self.asset, self.at(), outright_forward@));
        let (u, x, d) = (self.units(), outright_forward@ - self.strike@, discount_factor@);
        assert(payoff@ == u * x);
    }
//@end
//@fn src/derivatives/forex/forward.rs impl FXDerivatives for FXForward :: delta => impl FXForward
//@params m
//@spec
    requires self.strike@ != 0real
    ensures r is Ok, r->Ok_0.currency == frn(self.asset), r->Ok_0.value@ == self.units()
//@entry
    hide(frn); hide(dom);
    proof { lemma_neg_div(self.notional_amounts@, self.strike@); }
//@end
//@fn src/derivatives/forex/forward.rs impl FXDerivatives for FXForward :: gamma => impl FXForward
//@params m
//@spec
    ensures r is Ok, r->Ok_0@ == 0real
//@end
//@fn src/derivatives/forex/forward.rs impl FXDerivatives for FXForward :: vega => impl FXForward
//@params m
//@spec
    ensures r is Ok, r->Ok_0@ == 0real
//@end
// delta is the change of value per unit of forward, discounted
proof fn delta_is_the_slope(t: FXForward, y: YieldTermStructure, f: real, h: real)
    ensures t.units() * (f + h - t.strike@) * y.disc(t.at()) - t.units() * (f - t.strike@) * y.disc(t.at()) == t.units() * h * y.disc(t.at())
{ let (u, d, k) = (t.units(), y.disc(t.at()), t.strike@); assert(u * (f + h - k) * d - u * (f - k) * d == u * h * d) by (nonlinear_arith); }
proof fn vacuity_fwd(t: FXForward, m: FxMarketContext) requires m.ok(t.asset, t.at()), m.quoted(t.asset, t.at(), true), t.strike@ != 0real { assert(false); }
}
fn main() {}
