use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/complex.vrs
//@include prelude/chfbase.vrs
//@include prelude/chfmass.vrs
//@include prelude/chfseg.vrs
//@include prelude/fmmtenor.vrs
//@include prelude/nested.vrs
//@include prelude/fxfmm.vrs
//@include prelude/fxfmmchf.vrs
proof fn vacuity_fmm_chf<'a>(f: FxFmm1ForwardChf<'a>, u: CV, c: ChfComponents) requires f.ok(), f.params.fx_0@ > 0real, f.params.tenor.n() >= 2, f.sub_segments@.len() >= 4, f.n_substeps_per_period >= 2, unit(u), f.params.parts(f.expiry@, f.n_substeps_per_period as int, f.n_simpson_per_segment as int, u, c), f.params.heston.kappa@ - f.params.heston.gamma@ * f.params.correlations.rho_xi_sigma@ > 0real { axiom_angle_zero(); axiom_csqrt_real(2real); axiom_cln_one(); axiom_csqrt(c1()); chf_mass_and_forward(f, u, c); broadcast use axiom_exp, axiom_ln, axiom_sqrt; assert(false); }
}
fn main() {}
