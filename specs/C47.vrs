use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/rng.vrs
//@include prelude/schedule.vrs
//@include prelude/tdparams.vrs
//@include prelude/tdsabr.vrs
proof fn vacuity_td(q: TimeDependentSabrParams) requires q.ok(), q.alpha.knots.len() > 2 { broadcast use axiom_exp, axiom_ln, axiom_sqrt; assert(false); }
}
fn main() {}
