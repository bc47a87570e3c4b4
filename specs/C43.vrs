use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/rng.vrs
pub broadcast proof fn neg_mul(l: real, d: real) ensures #[trigger] rexp((0real - l) * d) == rexp(0real - l * d) { assert((0real - l) * d == 0real - l * d) by (nonlinear_arith); }
//@include prelude/cir.vrs
proof fn vacuity_cir(c: CirProcess, t: real, x: real, n: int) requires c.ok(), !c.still(), t > 0real, c.eps(t) < 500real, c.cut(t, tiny(), n), x == c.series(t, n), c.mean_s(t) >= tiny() { broadcast use axiom_exp, axiom_ln, axiom_sqrt; lemma_ok(c, t); axiom_exp_mono(0real, t); assert(false); }
}
fn main() {}
