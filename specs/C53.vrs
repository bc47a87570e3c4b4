use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/complex.vrs
//@include prelude/cos.vrs
proof fn vacuity_cos<'a, C: ForwardChf>(p: CosPricer<'a, C>, strike: real) requires p.ok(), strike > 0real, p.n_terms > 3, series(*p.chf, 2, p.range.0@, p.range.1@, strike, true) > 0real { broadcast use axiom_exp, axiom_ln, axiom_sqrt; axiom_pi(); axiom_angle_zero(); assert(false); }
}
fn main() {}
