// Cox-Ingersoll-Ross: contracts discharged against src/models/common/cir.rs
pub uninterp spec fn rlngamma(x: real) -> real;
#[verifier::external_body]
pub fn ln_gamma(x: R) -> (r: R) ensures r@ == rlngamma(x@) { unimplemented!() }
//@item src/models/common/cir.rs :: struct CirProcess
//@item src/models/common/cir.rs :: struct SqrtMeanProxy
// the series of E[sqrt]: ratio of gammas at k = 0, then multiplied up
pub open spec fn gamma_ratio(a: real) -> real { rexp(rlngamma(a + 1real / 2real) - rlngamma(a)) }
pub open spec fn cir_term(h: real, a: real, k: int) -> real decreases k { if k <= 0 { gamma_ratio(a) } else { cir_term(h, a, k - 1) * (h * (a + 1real / 2real + (k - 1) as real) / (k as real * (a + (k - 1) as real))) } }
pub open spec fn terms(h: real, a: real, k: int) -> real decreases k { if k <= 0 { cir_term(h, a, 0) } else { terms(h, a, k - 1) + cir_term(h, a, k) } }
impl CirProcess {
    pub open spec fn ok(&self) -> bool { self.kappa@ > 0real && self.theta@ > 0real && self.sigma_0@ >= 0real }
    pub open spec fn decay(&self, t: real) -> real { rexp(0real - self.kappa@ * t) }
    pub open spec fn mean_s(&self, t: real) -> real { if t <= 0real { self.sigma_0@ } else { self.sigma_0@ * self.decay(t) + self.theta@ * (1real - self.decay(t)) } }
    pub open spec fn var_s(&self, t: real) -> real {
        let (g, d) = (self.gamma@ * self.gamma@ / self.kappa@, self.decay(t));
        if t <= 0real { 0real } else { self.sigma_0@ * g * d * (1real - d) + self.theta@ * (g / 2real) * (1real - d) * (1real - d) }
    }
    // scale, half the degrees of freedom and non-centrality of the distribution at time t
    pub open spec fn c(&self, t: real) -> real { self.gamma@ * self.gamma@ * (1real - self.decay(t)) / (4real * self.kappa@) }
    pub open spec fn half_dof(&self) -> real { 4real * self.kappa@ * self.theta@ / (self.gamma@ * self.gamma@) / 2real }
    pub open spec fn eps(&self, t: real) -> real { 4real * self.kappa@ * self.sigma_0@ * self.decay(t) / (self.gamma@ * self.gamma@ * (1real - self.decay(t))) }
    pub open spec fn still(&self) -> bool { rabs(self.gamma@) < 1real / 100_000_000_000_000real }
    // the series cut after term n: every later term still counted is below the tolerance
    pub open spec fn cut(&self, t: real, tol: real, n: int) -> bool {
        let (h, a) = (self.eps(t) / 2real, self.half_dof());
        n >= 1 && (rabs(cir_term(h, a, n)) <= tol * rabs(terms(h, a, n)) || n > 2000)
    }
    pub open spec fn series(&self, t: real, n: int) -> real { rsqrt(2real * self.c(t)) * rexp(0real - self.eps(t) / 2real) * terms(self.eps(t) / 2real, self.half_dof(), n) }
    pub open spec fn sqrt_mean_s(&self, t: real, tol: real, r: real) -> bool {
        if t <= 0real { r == rsqrt(self.sigma_0@) }
        else if self.still() { r == rsqrt(self.mean_s(t)) }
        else if self.eps(t) > 500real { let m = self.mean_s(t); r == rsqrt(m) * rmax(1real - self.var_s(t) / (8real * m * m), 0real) }
        else { exists|n: int| #[trigger] self.cut(t, tol, n) && r == self.series(t, n) }
    }
    pub open spec fn sqrt_inf_s(&self) -> real { self.gamma@ / rsqrt(2real * self.kappa@) * gamma_ratio(self.half_dof()) }
}
//@fn src/models/common/cir.rs impl CirProcess :: mean => impl CirProcess
//@params t
//@spec
    ensures r@ == self.mean_s(t@)
//@entry
    broadcast use neg_mul;
//@end
//@fn src/models/common/cir.rs impl CirProcess :: variance => impl CirProcess
//@params t
//@spec
    requires self.kappa@ != 0real
    ensures r@ == self.var_s(t@)
//@entry
    broadcast use neg_mul;
    proof { let g = self.gamma@ * self.gamma@ / self.kappa@; assert(g * (5real / 10real) == g / 2real); }
//@end
// the smallest mean told from zero, 1e-300
pub open spec fn tiny() -> real { 1real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real }
proof fn lemma_ok(c: CirProcess, t: real)
    requires c.ok(), t > 0real
    ensures 0real < c.decay(t) < 1real, c.mean_s(t) > 0real, !c.still() ==> c.gamma@ * c.gamma@ > 0real && c.c(t) > 0real && c.half_dof() > 0real && c.eps(t) >= 0real && c.gamma@ * c.gamma@ * (1real - c.decay(t)) > 0real
{
    let (k, d, th, s0, g) = (c.kappa@, c.decay(t), c.theta@, c.sigma_0@, c.gamma@);
    broadcast use axiom_exp;
    assert(k * t > 0real) by (nonlinear_arith) requires k > 0real, t > 0real;
    axiom_exp_mono(0real - k * t, 0real);
    assert(s0 * d >= 0real) by (nonlinear_arith) requires s0 >= 0real, d > 0real;
    assert(th * (1real - d) > 0real) by (nonlinear_arith) requires th > 0real, d < 1real;
    if !c.still() {
        let (q, o) = (g * g, 1real - d);
        assert(q > 0real) by (nonlinear_arith) requires g != 0real, q == g * g;
        assert(q * o > 0real) by (nonlinear_arith) requires q > 0real, o > 0real;
        assert(q * o / (4real * k) > 0real) by (nonlinear_arith) requires q * o > 0real, k > 0real;
        assert(4real * k * th > 0real) by (nonlinear_arith) requires k > 0real, th > 0real;
        assert(4real * k * th / q > 0real) by (nonlinear_arith) requires q > 0real, 4real * k * th > 0real;
        assert(4real * k * s0 >= 0real) by (nonlinear_arith) requires k > 0real, s0 >= 0real;
        let n = 4real * k * s0;
        assert(n * d >= 0real) by (nonlinear_arith) requires n >= 0real, d > 0real;
        let (u, w) = (n * d, q * o);
        assert(u / w >= 0real) by (nonlinear_arith) requires u >= 0real, w > 0real;
    }
}
//@fn src/models/common/cir.rs impl CirProcess :: sqrt_mean_tol => impl CirProcess
//@params t, tol
//@spec
    requires self.ok(), t@ > 0real ==> self.mean_s(t@) >= tiny()
    ensures self.sqrt_mean_s(t@, tol@, r@)
//@entry
    broadcast use neg_mul;
    let ghost (h, a0) = (self.eps(t@) / 2real, self.half_dof());
    proof {
        if t@ > 0real {
            lemma_ok(*self, t@);
            let m = self.mean_s(t@);
            assert(8real * m * m != 0real) by (nonlinear_arith) requires m > 0real;
        }
    }
//@loop 0
    invariant_except_break k <= 2000, term@ == cir_term(h, a0, k as int), sum@ == terms(h, a0, k as int),
    invariant self.ok(), t@ > 0real, !self.still(), half_eps@ == h, a@ == a0, b@ == a0 + 1real / 2real, a0 > 0real, h == self.eps(t@) / 2real, a0 == self.half_dof(),
    ensures exists|n: int| #[trigger] self.cut(t@, tol@, n) && sum@ == terms(h, a0, n),
    decreases 2001 - k
//@loop 0 begin
    let ghost k0 = k as int;
    proof { let (x, y) = (k0 as real + 1real, a0 + k0 as real); assert(x * y != 0real) by (nonlinear_arith) requires x > 0real, y > 0real; assert((k0 + 1) as real == x); assert(self.cut(t@, tol@, k0 + 1) == (rabs(cir_term(h, a0, k0 + 1)) <= tol@ * rabs(terms(h, a0, k0 + 1)) || k0 + 1 > 2000)); }
//@end
//@fn src/models/common/cir.rs impl CirProcess :: sqrt_mean => impl CirProcess
//@params t
//@spec
    requires self.ok(), t@ > 0real ==> self.mean_s(t@) >= tiny()
    ensures self.sqrt_mean_s(t@, 1real / 100_000_000_000_000real, r@)
//@end
//@fn src/models/common/cir.rs impl CirProcess :: sqrt_mean_infinity => impl CirProcess
//@spec
    requires self.ok(), self.gamma@ > 0real
    ensures r@ == self.sqrt_inf_s()
//@entry
    proof {
        let (k, th, g) = (self.kappa@, self.theta@, self.gamma@);
        assert(g * g > 0real) by (nonlinear_arith) requires g > 0real;
        broadcast use axiom_sqrt;
        assert(rsqrt(2real * k) > 0real);
    }
//@end
//@fn src/models/common/cir.rs impl CirProcess :: sqrt_mean_proxy => impl CirProcess
//@spec
    requires self.ok(), self.gamma@ > 0real
    ensures r.beta1@ == self.sqrt_inf_s(), r.beta2@ == rsqrt(self.sigma_0@) - self.sqrt_inf_s(), r.beta3 == self.kappa
//@end
//@fn src/models/common/cir.rs impl CirProcess :: feller_satisfied => impl CirProcess
//@spec
    ensures r == (2real * self.kappa@ * self.theta@ >= self.gamma@ * self.gamma@)
//@end
//@fn src/models/common/cir.rs impl SqrtMeanProxy :: eval => impl SqrtMeanProxy
//@params t
//@spec
    ensures r@ == self.beta1@ + self.beta2@ * rexp(0real - self.beta3@ * t@)
//@entry
    broadcast use neg_mul;
//@end
//@item src/models/common/cir.rs :: struct CirSimulator
//@fn src/models/common/cir.rs impl CirSimulator :: new => impl CirSimulator
//@params p, seed
//@spec
    ensures r.process == p, r.rng == seeded(seed)
//@end
//@type Self::State => R
//@fn src/models/common/cir.rs impl SimulationModel for CirSimulator :: initial_state => impl CirSimulator
//@spec
    ensures r == self.process.sigma_0
//@end
//@fn src/models/common/cir.rs impl SimulationModel for CirSimulator :: step => impl CirSimulator
//@params s, t, dt
//@spec
    requires dt@ >= 0real
    ensures ({ let ((g, z), c, x) = (next_normal(old(self).rng), old(self).process, rmax(s@, 0real)); final(self).rng == g
            && r@ == rmax(x + c.kappa@ * (c.theta@ - x) * dt@ + c.gamma@ * rsqrt(x) * rsqrt(dt@) * z, 0real) }), r@ >= 0real,
        final(self).process == old(self).process
//@end
// the proxy meets the start and settles at the limit
proof fn proxy_start(c: CirProcess, p: SqrtMeanProxy)
    requires p.beta1@ == c.sqrt_inf_s(), p.beta2@ == rsqrt(c.sigma_0@) - c.sqrt_inf_s(), p.beta3 == c.kappa
    ensures p.beta1@ + p.beta2@ * rexp(0real - p.beta3@ * 0real) == rsqrt(c.sigma_0@)
{ broadcast use axiom_exp; assert(p.beta3@ * 0real == 0real) by (nonlinear_arith); }
