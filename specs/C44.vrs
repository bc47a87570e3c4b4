use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/rng.vrs
pub broadcast proof fn neg_mul(l: real, d: real) ensures #[trigger] rexp((0real - l) * d) == rexp(0real - l * d) { assert((0real - l) * d == 0real - l * d) by (nonlinear_arith); }
//@include prelude/sabr.vrs
proof fn vacuity_sabr(q: SabrParams, f: real, k: real, r: real, g: ChaCha20Rng) requires q.ok(), 0real < f < k, q.is_vol(f, k, 1real, r), next_normal(g).1 > 0real { broadcast use axiom_exp, axiom_ln, axiom_sqrt, axiom_powf_pos; axiom_powf_square(f, k); axiom_exp_mono(f, k); lemma_root(q.rho@, q.z(f, k)); lemma_smile(q, f); assert(false); }
}
fn main() {}
