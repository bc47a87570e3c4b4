use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/fmmtenor.vrs
//@include prelude/fmm.vrs
proof fn vacuity_fmm(m: Fmm, x: FmmPath) requires m.ok(), x.ok(m), m.vol_schedule is Some, m.betas is Some, x.t@ > 0real { broadcast use axiom_exp; assert(false); }
}
fn main() {}
