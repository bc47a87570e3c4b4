use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/complex.vrs
//@include prelude/chfbase.vrs
//@include prelude/chfmass.vrs
//@include prelude/hhwchf.vrs
proof fn vacuity_hhw_chf<'a>(f: FxHhw1ForwardChf<'a>, u: CV, c: ChfComponents) requires f.ok(), f.params.fx_0@ > 0real, unit(u), f.parts(u, f.expiry@, c), f.params.heston.kappa@ - f.params.heston.gamma@ * f.params.correlations.rho_xi_sigma@ > 0real { axiom_angle_zero(); axiom_csqrt_real(2real); axiom_csqrt(c1()); chf_mass_and_forward(f, u, c); broadcast use axiom_exp, axiom_ln, axiom_sqrt; assert(false); }
}
fn main() {}
