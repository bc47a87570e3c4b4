use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/complex.vrs
//@include prelude/chfbase.vrs
//@include prelude/rng.vrs
//@include prelude/fmmtenor.vrs
//@include prelude/nested.vrs
//@include prelude/cholesky.vrs
//@include prelude/fxfmm.vrs
//@include prelude/fxfmmsim.vrs
proof fn vacuity_fxfmmsim(m: FxFmmSimulator, x: FxFmmState) requires m.ok(), x.of().sized(m.params.tenor.n()), x.of().live(m.params.tenor), x.t@ > 0real { broadcast use axiom_sqrt; assert(false); }
}
fn main() {}
