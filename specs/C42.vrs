use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/rng.vrs
//@include prelude/hullwhite.vrs
proof fn vacuity_hull_white(h: HullWhite1F, a: R, b: R, g: ChaCha20Rng) requires !h.flat(), a@ < b@, h.bond_var_s(a@, b@, b@) != 0real, next_normal(g).1 > 0real { broadcast use axiom_exp, axiom_ln, axiom_sqrt; axiom_exp_mono(a@, b@); degenerate(h, a@, b@, b@, b@); assert(false); }
}
fn main() {}
