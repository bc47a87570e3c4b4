// FX-HHW1 forward characteristic function: contracts discharged against src/models/forex/fx_hhw1_chf.rs
//@item src/models/interestrate/hull_white.rs :: struct HullWhite1F
impl HullWhite1F {
    pub open spec fn b_s(&self, d: real) -> real { if rabs(self.mean_reversion@) < 1real / 1000000000000real { 0real - d } else { (rexp(0real - self.mean_reversion@ * d) - 1real) / self.mean_reversion@ } }
}
//@fn src/models/interestrate/hull_white.rs impl HullWhite1F :: b => impl HullWhite1F
//@params t, u
//@spec
    ensures r@ == self.b_s(u@ - t@)
//@entry
    proof { let (l, d) = (self.mean_reversion@, u@ - t@); assert((0real - l) * d == 0real - l * d) by (nonlinear_arith); }
//@end
//@item src/models/forex/fx_hhw.rs :: struct Correlation4x4
//@item src/models/forex/fx_hhw.rs :: struct FxHhwParams
//@item src/models/forex/fx_hhw1_chf.rs :: struct ChfComponents
//@item src/models/forex/fx_hhw1_chf.rs :: struct SimpsonGrid
//@item src/models/forex/fx_hhw1_chf.rs :: struct FxHhw1ForwardChf
impl ChfComponents {
    pub open spec fn value(&self, x: real, sigma: real) -> CV { cexp(cadd(cadd(self.a@, cscale(x, self.b@)), cscale(sigma, self.c@))) }
}
//@fn src/models/forex/fx_hhw1_chf.rs impl ChfComponents :: assemble => impl ChfComponents
//@params x, sigma
//@spec
    ensures r@ == self.value(x@, sigma@)
//@end
impl FxHhwParams {
    pub open spec fn c_s(&self, u: CV, tau: real) -> CV { heston_c_s(u, self.heston.kappa@, self.heston.gamma@, self.correlations.rho_xi_sigma@, tau) }
    // the part of zeta without phi, and the coefficient of phi, at time t of maturity T
    pub open spec fn zeta0(&self, t: real, big_t: real) -> real {
        let (bd, bf) = (self.domestic.b_s(big_t - t), self.foreign.b_s(big_t - t));
        let (ed, ef) = (self.domestic.sigma@, self.foreign.sigma@);
        self.correlations.rho_d_f@ * ed * ef * bd * bf - 5real / 10real * (ed * ed * bd * bd + ef * ef * bf * bf)
    }
    pub open spec fn zeta1(&self, t: real, big_t: real) -> real {
        self.correlations.rho_xi_d@ * self.domestic.sigma@ * self.domestic.b_s(big_t - t) - self.correlations.rho_xi_f@ * self.foreign.sigma@ * self.foreign.b_s(big_t - t)
    }
    // A' after the elapsed time s: C at the elapsed time, the rates and phi at the time of the calendar
    pub open spec fn rate_s(&self, u: CV, s: real, big_t: real) -> CV {
        let t = big_t - s;
        let c = self.c_s(u, s);
        let (phi, bd, bf) = (self.heston.phi_s(t), self.domestic.b_s(big_t - t), self.foreign.b_s(big_t - t));
        let (g, q) = (self.heston.gamma@, self.correlations);
        cadd(cadd(cadd(cmul(cv(self.heston.kappa@ * self.heston.theta@, 0real), c),
            cmul(cmul(cv(q.rho_sigma_d@ * g * self.domestic.sigma@ * phi * bd, 0real), c), csub(c1(), iu_s(u)))),
            cmul(cmul(cv(q.rho_sigma_f@ * g * self.foreign.sigma@ * phi * bf, 0real), c), iu_s(u))),
            cscale(self.zeta0(t, big_t) + self.zeta1(t, big_t) * phi, u2iu(u)))
    }
    pub open spec fn simpson(&self, u: CV, h: real, big_t: real, n: int, k: int) -> CV decreases k {
        if k <= 0 { c0() } else { cadd(self.simpson(u, h, big_t, n, k - 1), cscale(simpson_w(k - 1, n), self.rate_s(u, (k - 1) as real * h, big_t))) }
    }
    // A(u, tau): composite Simpson on n intervals of [0, tau]
    pub open spec fn a_s(&self, u: CV, tau: real, big_t: real, n: int) -> CV {
        if tau <= 0real { c0() } else { cscale(tau / (n as real) / 3real, self.simpson(u, tau / (n as real), big_t, n, n + 1)) }
    }
    pub open spec fn x0(&self, t: real) -> real { rln(self.fx_0@ * rexp((0real - self.rf_0@) * t) / rexp((0real - self.rd_0@) * t)) }
}
impl SimpsonGrid {
    pub open spec fn of(&self, p: FxHhwParams, big_t: real, n: int) -> bool {
        &&& self.h@ == big_t / (n as real)
        &&& self.phi@.len() == n + 1 && self.bd@.len() == n + 1 && self.bf@.len() == n + 1 && self.zeta_no_phi@.len() == n + 1 && self.zeta_phi_coef@.len() == n + 1
        &&& forall|k: int| 0 <= k <= n ==> #[trigger] self.node(p, big_t, k)
    }
    pub open spec fn node(&self, p: FxHhwParams, big_t: real, k: int) -> bool {
        let t = big_t - k as real * self.h@;
        self.phi@[k]@ == p.heston.phi_s(t) && self.bd@[k]@ == p.domestic.b_s(big_t - t) && self.bf@[k]@ == p.foreign.b_s(big_t - t)
            && self.zeta_no_phi@[k]@ == p.zeta0(t, big_t) && self.zeta_phi_coef@[k]@ == p.zeta1(t, big_t)
    }
}
//@fn src/models/forex/fx_hhw1_chf.rs fn c_of_tau
//@params u, tau, params
//@spec
    ensures r@ == params.c_s(u@, tau@)
//@end
//@fn src/models/forex/fx_hhw1_chf.rs fn integrand
//@params u, s, big_t, params
//@spec
    requires params.heston.kappa@ > 0real
    ensures r@ == params.rate_s(u@, s@, big_t@)
//@end
//@fn src/models/forex/fx_hhw1_chf.rs fn a_of_tau
//@params u, tau, big_t, params, n
//@spec
    requires params.heston.kappa@ > 0real, 0 < n < usize::MAX
    ensures r@ == params.a_s(u@, tau@, big_t@, n as int)
//@loop 0
    invariant 0 <= __k0 <= n + 1, __n0 == n, 0 < n < usize::MAX, h@ == tau@ / (n as real), params.heston.kappa@ > 0real, acc@ == params.simpson(u@, h@, big_t@, n as int, __k0 as int),
    decreases n + 1 - __k0
//@end
//@fn src/models/forex/fx_hhw1_chf.rs impl SimpsonGrid :: build => impl SimpsonGrid
//@params params, expiry, n
//@spec
    requires params.heston.kappa@ > 0real, 0 < n < usize::MAX
    ensures r.of(*params, expiry@, n as int)
//@loop 0
    invariant 0 <= __k0 <= n + 1, __n0 == n, 0 < n < usize::MAX, h@ == expiry@ / (n as real), params.heston.kappa@ > 0real, eta_d == params.domestic.sigma, eta_f == params.foreign.sigma, *rho == params.correlations,
        phi@.len() == __k0, bd@.len() == __k0, bf@.len() == __k0, zeta_no_phi@.len() == __k0, zeta_phi_coef@.len() == __k0,
        forall|k: int| 0 <= k < __k0 ==> #[trigger] (SimpsonGrid { h, phi, bd, bf, zeta_no_phi, zeta_phi_coef }).node(*params, expiry@, k),
    decreases n + 1 - __k0
//@loop 0 begin
    let ghost g0 = SimpsonGrid { h, phi, bd, bf, zeta_no_phi, zeta_phi_coef };
//@loop 0 end
    proof {
        let g = SimpsonGrid { h, phi, bd, bf, zeta_no_phi, zeta_phi_coef };
        assert forall|k: int| 0 <= k < __k0 implies #[trigger] g.node(*params, expiry@, k) by { if k < __k0 - 1 { assert(g0.node(*params, expiry@, k)); } }
    }
//@end
impl SimpsonGrid {
    pub open spec fn n(&self) -> int { self.phi@.len() - 1 }
    pub open spec fn big_t(&self) -> real { self.h@ * (self.n() as real) }
}
proof fn lemma_grid(g: SimpsonGrid, p: FxHhwParams, big_t: real, n: int) requires g.of(p, big_t, n), n > 0 ensures g.n() == n, g.big_t() == big_t {
    let m = n as real;
    assert(big_t / m * m == big_t) by (nonlinear_arith) requires m > 0real;
}
// the cached sum is the sum: the grid holds what the integrand computes
//@fn src/models/forex/fx_hhw1_chf.rs fn a_of_tau_cached
//@params u, params, grid
//@spec
    requires grid.n() > 0, grid.big_t() > 0real, grid.of(*params, grid.big_t(), grid.n())
    ensures r@ == params.a_s(u@, grid.big_t(), grid.big_t(), grid.n())
//@loop 0
    invariant 0 <= __k0 <= n + 1, __n0 == n, n == grid.n(), 0 < n < usize::MAX, grid.of(*params, grid.big_t(), n as int),
        iu@ == iu_s(u@), one_minus_iu@ == csub(c1(), iu_s(u@)), u2_plus_iu@ == u2iu(u@), kappa_theta@ == params.heston.kappa@ * params.heston.theta@,
        gamma == params.heston.gamma, eta_d == params.domestic.sigma, eta_f == params.foreign.sigma, *rho == params.correlations,
        acc@ == params.simpson(u@, grid.h@, grid.big_t(), n as int, __k0 as int),
    decreases n + 1 - __k0
//@loop 0 begin
    proof { assert(grid.node(*params, grid.big_t(), __k0 as int)); }
//@end
impl<'a> FxHhw1ForwardChf<'a> {
    pub open spec fn ok(&self) -> bool { self.params.heston.kappa@ > 0real && self.expiry@ > 0real && 0 < self.n_simpson < usize::MAX && self.grid.of(*self.params, self.expiry@, self.n_simpson as int) }
    pub open spec fn parts(&self, u: CV, tau: real, r: ChfComponents) -> bool {
        let t = if rabs(tau - self.expiry@) < 1real / 1000000000000real { self.expiry@ } else { tau };
        r.b@ == iu_s(u) && r.c@ == self.params.c_s(u, tau) && r.a@ == self.params.a_s(u, t, self.expiry@, self.n_simpson as int)
    }
}
//@fn src/models/forex/fx_hhw1_chf.rs impl FxHhw1ForwardChf<'a> :: with_simpson_steps => impl<'a> FxHhw1ForwardChf<'a>
//@params params, expiry, n
//@spec
    requires n >= 2, n % 2 == 0, params.heston.kappa@ > 0real, expiry@ > 0real
    ensures r.ok(), r.n_simpson == n, r.expiry == expiry, *r.params == *params
//@end
//@fn src/models/forex/fx_hhw1_chf.rs impl FxHhw1ForwardChf<'a> :: new => impl<'a> FxHhw1ForwardChf<'a>
//@params params, expiry
//@spec
    requires params.heston.kappa@ > 0real, expiry@ > 0real
    ensures r.ok(), r.n_simpson == 128, r.expiry == expiry, *r.params == *params
//@end
//@fn src/models/forex/fx_hhw1_chf.rs impl FxHhw1ForwardChf<'a> :: params => impl<'a> FxHhw1ForwardChf<'a>
//@spec
    ensures *r == *self.params
//@end
//@fn src/models/forex/fx_hhw1_chf.rs impl FxHhw1ForwardChf<'a> :: components => impl<'a> FxHhw1ForwardChf<'a>
//@params u, tau
//@spec
    requires self.ok(), 0real <= tau@ <= self.expiry@ + 1real / 1000000000000real
    ensures self.parts(u@, tau@, r)
//@entry
    proof { lemma_grid(self.grid, *self.params, self.expiry@, self.n_simpson as int); }
//@end
//@fn src/models/forex/fx_hhw1_chf.rs impl FxHhw1ForwardChf<'a> :: evaluate => impl<'a> FxHhw1ForwardChf<'a>
//@params u
//@spec
    requires self.ok(), self.params.fx_0@ > 0real
    ensures exists|c: ChfComponents| #[trigger] self.parts(u@, self.expiry@, c) && r@ == c.value(self.params.x0(self.expiry@), self.params.heston.sigma_0@)
//@entry
    broadcast use axiom_exp;
    proof { let (f, a, b) = (self.params.fx_0@, rexp((0real - self.params.rf_0@) * self.expiry@), rexp((0real - self.params.rd_0@) * self.expiry@));
        assert(f * a / b > 0real) by (nonlinear_arith) requires f > 0real, a > 0real, b > 0real; }
//@end
// where B^2 = B nothing drifts: the mass is one and the function at -i is the forward exchange rate
proof fn lemma_rate_vanishes(p: FxHhwParams, u: CV, s: real, big_t: real)
    requires unit(u), p.heston.kappa@ > 0real, p.heston.kappa@ - p.heston.gamma@ * p.correlations.rho_xi_sigma@ > 0real
    ensures p.rate_s(u, s, big_t) == c0()
{
    lemma_unit(u);
    lemma_heston_vanishes(u, p.heston.kappa@, p.heston.gamma@, p.correlations.rho_xi_sigma@, s);
    let t = big_t - s;
    let (phi, bd, bf) = (p.heston.phi_s(t), p.domestic.b_s(big_t - t), p.foreign.b_s(big_t - t));
    lemma_times_zero(cv(p.heston.kappa@ * p.heston.theta@, 0real));
    lemma_times_zero(cv(p.correlations.rho_sigma_d@ * p.heston.gamma@ * p.domestic.sigma@ * phi * bd, 0real));
    lemma_times_zero(cv(p.correlations.rho_sigma_f@ * p.heston.gamma@ * p.foreign.sigma@ * phi * bf, 0real));
    lemma_times_zero(csub(c1(), iu_s(u)));
    lemma_times_zero(iu_s(u));
    lemma_scale_zero(p.zeta0(t, big_t) + p.zeta1(t, big_t) * phi);
}
proof fn lemma_sum_vanishes(p: FxHhwParams, u: CV, h: real, big_t: real, n: int, k: int)
    requires unit(u), p.heston.kappa@ > 0real, p.heston.kappa@ - p.heston.gamma@ * p.correlations.rho_xi_sigma@ > 0real
    ensures p.simpson(u, h, big_t, n, k) == c0()
    decreases k
{
    if k > 0 { lemma_sum_vanishes(p, u, h, big_t, n, k - 1); lemma_rate_vanishes(p, u, (k - 1) as real * h, big_t); lemma_scale_zero(simpson_w(k - 1, n)); }
}
proof fn chf_mass_and_forward<'a>(f: FxHhw1ForwardChf<'a>, u: CV, c: ChfComponents)
    requires f.ok(), f.params.fx_0@ > 0real, unit(u), f.parts(u, f.expiry@, c), f.params.heston.kappa@ - f.params.heston.gamma@ * f.params.correlations.rho_xi_sigma@ > 0real
    ensures c.value(f.params.x0(f.expiry@), f.params.heston.sigma_0@)
        == cv(if u == c0() { 1real } else { f.params.fx_0@ * rexp((0real - f.params.rf_0@) * f.expiry@) / rexp((0real - f.params.rd_0@) * f.expiry@) }, 0real)
{
    let p = *f.params; let t = f.expiry@; let n = f.n_simpson as int;
    lemma_sum_vanishes(p, u, t / (n as real), t, n, n + 1);
    lemma_scale_zero(t / (n as real) / 3real);
    assert(rabs(t - t) == 0real);
    assert(c.a@ == c0());
    lemma_heston_vanishes(u, p.heston.kappa@, p.heston.gamma@, p.correlations.rho_xi_sigma@, t);
    lemma_unit(u);
    let (x, s0) = (p.x0(t), p.heston.sigma_0@);
    lemma_scale_zero(s0); lemma_scale_zero(x);
    let m = if u == c0() { 0real } else { 1real };
    assert(x * 1real == x && x * 0real == 0real) by (nonlinear_arith);
    assert(cadd(cadd(c.a@, cscale(x, c.b@)), cscale(s0, c.c@)) == cv(if u == c0() { 0real } else { x }, 0real));
    axiom_angle_zero();
    let e = rexp(if u == c0() { 0real } else { x });
    assert(e * 1real == e && e * 0real == 0real) by (nonlinear_arith);
    assert(e == (if u == c0() { 1real } else { p.fx_0@ * rexp((0real - p.rf_0@) * t) / rexp((0real - p.rd_0@) * t) })) by {
        broadcast use axiom_exp, axiom_ln;
        let (f, a, b) = (p.fx_0@, rexp((0real - p.rf_0@) * t), rexp((0real - p.rd_0@) * t));
        assert(f * a / b > 0real) by (nonlinear_arith) requires f > 0real, a > 0real, b > 0real;
    }
}
// what the COS pricer reads from it
//@fn src/models/common/cos_pricer.rs impl ForwardChf for FxHhw1ForwardChf<'a> :: log_forward => impl<'a> FxHhw1ForwardChf<'a>
//@name cos_log_forward
//@spec
    requires self.ok(), self.params.fx_0@ > 0real
    ensures r@ == self.params.x0(self.expiry@)
//@entry
    broadcast use axiom_exp;
    proof { let (f, a, b) = (self.params.fx_0@, rexp((0real - self.params.rf_0@) * self.expiry@), rexp((0real - self.params.rd_0@) * self.expiry@));
        assert(f * a / b > 0real) by (nonlinear_arith) requires f > 0real, a > 0real, b > 0real; }
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for FxHhw1ForwardChf<'a> :: expiry => impl<'a> FxHhw1ForwardChf<'a>
//@name cos_expiry
//@spec
    ensures r == self.expiry
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for FxHhw1ForwardChf<'a> :: typical_variance => impl<'a> FxHhw1ForwardChf<'a>
//@name cos_typical_variance
//@spec
    ensures r == self.params.heston.theta
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for FxHhw1ForwardChf<'a> :: evaluate => impl<'a> FxHhw1ForwardChf<'a>
//@name cos_evaluate
//@params u
//@spec
    requires self.ok(), self.params.fx_0@ > 0real
    ensures exists|c: ChfComponents| #[trigger] self.parts(u@, self.expiry@, c) && r@ == c.value(self.params.x0(self.expiry@), self.params.heston.sigma_0@)
//@end
