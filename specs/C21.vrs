use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/period.vrs
//@include prelude/calendar.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Currency { x: u8 }
#[verifier::external_body]
pub struct IRNormalVolSurface { x: u8 }
//@include prelude/irmarket.vrs
//@fn src/markets/interestrate/market_context.rs impl IrMarketContext :: rate => impl IrMarketContext
//@params date
//@spec
    requires self.curve.ok(), fin(date@)
    ensures r is Ok, r->Ok_0@ == self.curve.zero(date@)
//@end
//@fn src/markets/interestrate/market_context.rs impl IrMarketContext :: discount => impl IrMarketContext
//@params date
//@spec
    requires self.curve.ok(), fin(date@)
    ensures r is Ok, r->Ok_0@ == self.curve.disc(date@)
//@end
// ---- consequences
// the curve's valuation date discounts at one and discount factors are positive
proof fn discount_at_valuation_is_one(z: real, v: int) ensures df(z, v, v) == 1real { broadcast use axiom_exp; assert((0real - z) * yf365(v, v) == 0real) by (nonlinear_arith) requires yf365(v, v) == 0real; }
proof fn discount_positive(z: real, v: int, d: int) ensures df(z, v, d) > 0real { broadcast use axiom_exp; }
proof fn vacuity_curve(y: YieldTermStructure) requires y.ok(), y.stripped_curves.len() == 3 { assert(false); }
}
fn main() {}
