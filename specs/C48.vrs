use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/rng.vrs
//@include prelude/schedule.vrs
//@include prelude/tdparams.vrs
//@include prelude/normal.vrs
//@include prelude/black.vrs
//@include prelude/dupire.vrs
//@include prelude/slv.vrs
proof fn vacuity_slv(q: TimeDependentSabrParams, d: DupireLocalVol) requires q.ok(), d.ok(), q.alpha.knots.len() > 2, d.expiries.len() > 2 { broadcast use axiom_exp, axiom_ln, axiom_sqrt; assert(false); }
}
fn main() {}
