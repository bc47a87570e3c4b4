use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/rng.vrs
//@include prelude/fxhhw.vrs
proof fn vacuity_fx_hhw(q: Correlation4x4, l: [[R; 4]; 4], g: ChaCha20Rng, p: FxHhwParams) requires factors(l, q, 4, 0), q.m(0, 1) != 0real, next_normal(g).1 > 0real, p.fx_0@ > 0real, rem(l, l, 1, 0, 1) != 0real { broadcast use axiom_exp, axiom_ln, axiom_sqrt; assert(false); }
}
fn main() {}
