use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/schedule.vrs
//@include prelude/effective.vrs
proof fn vacuity_eff(a: PiecewiseConstant, b: PiecewiseConstant, t: real) requires a.ok(), b.ok(), a.covers(t), t > 0real, a.knots.len() > 2 { broadcast use axiom_exp, axiom_ln, axiom_sqrt; assert(false); }
}
fn main() {}
