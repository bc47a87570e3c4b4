use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/rng.vrs
//@include prelude/fmmtenor.vrs
//@include prelude/fmm.vrs
//@include prelude/nested.vrs
//@include prelude/cholesky.vrs
//@include prelude/fmmsim.vrs
proof fn vacuity_fmm(m: Fmm, x: FmmPath, c: FlatCurve) requires m.ok(), x.ok(m), x.of().live(m), m.vol_schedule is Some, m.betas is Some, x.t@ > 0real { broadcast use axiom_sqrt; assert(false); }
}
fn main() {}
