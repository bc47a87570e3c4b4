// the characteristic function: contracts discharged against src/models/forex/fx_hlmm1_chf.rs
//@item src/models/forex/fx_hlmm1_chf.rs :: struct ChfComponents
//@item src/models/forex/fx_hlmm1_chf.rs :: struct Segment
//@item src/models/forex/fx_hlmm1_chf.rs :: struct FxHlmm1ForwardChf
impl ChfComponents {
    pub open spec fn value(&self, x: real, sigma: real, vd: real, vf: real) -> CV { cexp(cadd(cadd(cadd(cadd(self.a@, cscale(x, self.b@)), cscale(sigma, self.c@)), cscale(vd, self.d_d@)), cscale(vf, self.d_f@))) }
}
//@fn src/models/forex/fx_hlmm1_chf.rs impl ChfComponents :: assemble => impl ChfComponents
//@params x, sigma, v_d, v_f
//@spec
    ensures r@ == self.value(x@, sigma@, v_d@, v_f@)
//@end
//@fn src/models/forex/fx_hlmm1_chf.rs fn heston_c
//@params u, kappa, gamma, rho, tau
//@spec
    ensures r@ == heston_c_s(u@, kappa@, gamma@, rho@, tau@)
//@end
//@fn src/models/forex/fx_hlmm1_chf.rs fn heston_a_closed_form
//@params u, kappa, theta, gamma, rho, tau
//@spec
    ensures r@ == heston_a_s(u@, kappa@, theta@, gamma@, rho@, tau@)
//@end
//@fn src/models/forex/fx_hlmm1_chf.rs fn heston_a_increment
//@params u, kappa, theta, gamma, rho, tau1, tau2
//@spec
    ensures r@ == csub(heston_a_s(u@, kappa@, theta@, gamma@, rho@, tau2@), heston_a_s(u@, kappa@, theta@, gamma@, rho@, tau1@))
//@end
//@fn src/models/forex/fx_hlmm1_chf.rs fn advance_d_riccati
//@params u, lambda, eta, a_j, v_0, d_prev, s
//@spec
    requires eta@ > 0real
    ensures r.0@ == riccati_d(u@, lambda@, eta@, a_j@, d_prev@, s@), r.1@ == riccati_a(u@, lambda@, eta@, a_j@, v_0@, d_prev@, s@)
//@entry
    proof { let e = eta@; assert(e * e != 0real) by (nonlinear_arith) requires e > 0real; }
//@end
impl FxHlmmParams {
    // Simpson's rule for the cross terms over time left [lo, hi]
    pub open spec fn f_sum(&self, big_t: real, lo: real, h: real, s: int, n: int, k: int) -> real decreases k {
        if k <= 0 { 0real } else { self.f_sum(big_t, lo, h, s, n, k - 1) + simpson_w(k - 1, n) * self.f_s(big_t - (lo + (k - 1) as real * h), s) }
    }
    pub open spec fn f_integral(&self, big_t: real, lo: real, hi: real, s: int, n: int) -> real { let h = (hi - lo) / (n as real); self.f_sum(big_t, lo, h, s, n, n + 1) * h / 3real }
    // times left at which the set of live rates changes: the dates from the last but one down, then the whole time to expiry
    pub open spec fn cuts(&self, big_t: real, k: int) -> Seq<real> decreases self.tenor.n_s() - k {
        if k >= self.tenor.n_s() { Seq::empty() } else { let v = self.cuts(big_t, k + 1); let x = big_t - self.tenor.d(k); if 0real < x < big_t + tol() { v.push(x) } else { v } }
    }
    pub open spec fn ends(&self, big_t: real) -> Seq<real> { let v = self.cuts(big_t, 0); if v.len() == 0 || rabs(v.last() - big_t) > tol() { v.push(big_t) } else { v } }
    pub open spec fn seg_lo(&self, big_t: real, j: int) -> real { if j <= 0 { 0real } else { self.ends(big_t)[j - 1] } }
    // the first live rate on the segment, judged at its middle
    pub open spec fn live(&self, big_t: real, j: int) -> int { self.tenor.m_s(big_t - 5real / 10real * (self.seg_lo(big_t, j) + self.ends(big_t)[j])) + 1 }
    pub open spec fn seg(&self, big_t: real, j: int, n: int) -> Seg {
        let (lo, hi, s) = (self.seg_lo(big_t, j), self.ends(big_t)[j], self.live(big_t, j));
        Seg { lo, hi, len: hi - lo, ad: side_s(self.domestic, self.tenor, s), af: side_s(self.foreign, self.tenor, s), f: self.f_integral(big_t, lo, hi, s, n) }
    }
    pub open spec fn segs(&self, big_t: real, n: int) -> Seq<Seg> { Seq::new(self.ends(big_t).len(), |j: int| self.seg(big_t, j, n)) }
    pub open spec fn chf(&self) -> Chf {
        Chf { kappa: self.heston.kappa@, theta: self.heston.theta@, gamma: self.heston.gamma@, rho: self.correlations.rho_xi_sigma@,
            ld: self.domestic.lambda@, ed: self.domestic.eta@, vd: self.domestic.v_0@, lf: self.foreign.lambda@, ef: self.foreign.eta@, vf: self.foreign.v_0@ }
    }
    pub open spec fn parts(&self, big_t: real, n: int, u: CV, r: ChfComponents) -> bool {
        let v = self.segs(big_t, n); let p = self.chf(); let z = v.len() as int;
        r.b@ == iu_s(u) && r.c@ == heston_c_s(u, p.kappa, p.gamma, p.rho, big_t) && r.a@ == walk_a(u, p, v, z) && r.d_d@ == walk_d(u, p.ld, p.ed, v, true, z) && r.d_f@ == walk_d(u, p.lf, p.ef, v, false, z)
    }
}
proof fn lemma_cuts(p: FxHlmmParams, big_t: real, k: int)
    requires p.tenor.ok(), 0 <= k <= p.tenor.n_s()
    ensures ({ let v = p.cuts(big_t, k);
        (forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j]) && (forall|i: int| 0 <= i < v.len() ==> 0real < #[trigger] v[i] <= big_t) && (forall|i: int| 0 <= i < v.len() && k < p.tenor.n_s() ==> #[trigger] v[i] <= big_t - p.tenor.d(k)) })
    decreases p.tenor.n_s() - k
{
    if k < p.tenor.n_s() {
        lemma_cuts(p, big_t, k + 1);
        let q = p.tenor;
        assert(q.dates@[k]@ >= 0real) by { if k > 0 { assert(q.dates@[0]@ < q.dates@[k]@); } }
        let (w, v, x) = (p.cuts(big_t, k + 1), p.cuts(big_t, k), big_t - q.d(k));
        assert(k + 1 < q.dates@.len());
        assert(q.dates@[k]@ < q.dates@[k + 1]@);
        assert(forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] < x) by { assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] < x by { assert(k + 1 < q.n_s()); assert(w[i] <= big_t - q.d(k + 1)); } }
        if 0real < x < big_t + tol() { assert(v == w.push(x)); assert(v[w.len() as int] == x); assert(forall|i: int| 0 <= i < w.len() ==> #[trigger] v[i] == w[i]); } else { assert(v == w); }
    }
}
proof fn lemma_ends(p: FxHlmmParams, big_t: real)
    requires p.tenor.ok(), big_t > 0real
    ensures ({ let v = p.ends(big_t); v.len() > 0 && (forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j]) && (forall|i: int| 0 <= i < v.len() ==> 0real < #[trigger] v[i] <= big_t) })
{ lemma_cuts(p, big_t, 0); }
//@fn src/models/forex/fx_hlmm1_chf.rs fn simpson_f_integral
//@params p, big_t, lo, hi, s, n
//@spec
    requires p.ok(), p.heston.kappa@ > 0real, s >= 1, p.tenor.n_s() < usize::MAX - 1, 0 < n < usize::MAX
    ensures r@ == cv(p.f_integral(big_t@, lo@, hi@, s as int, n as int), 0real)
//@loop 0
    invariant 0 <= __k0 <= n + 1, __n0 == n, 0 < n < usize::MAX, params == p, expiry == big_t, tau1 == lo, start_idx == s, s >= 1, p.ok(), p.heston.kappa@ > 0real, p.tenor.n_s() < usize::MAX - 1, h@ == (hi@ - lo@) / (n as real), acc@ == p.f_sum(big_t@, lo@, h@, s as int, n as int, __k0 as int),
    decreases n + 1 - __k0
//@end
impl Segment {
    pub open spec fn of(&self, p: FxHlmmParams, big_t: real, j: int) -> bool {
        let s = p.live(big_t, j);
        self.tau@ == p.ends(big_t)[j] && self.length@ == p.ends(big_t)[j] - p.seg_lo(big_t, j) && self.start_idx == s && self.a_d@ == side_s(p.domestic, p.tenor, s) && self.a_f@ == side_s(p.foreign, p.tenor, s)
    }
}
impl<'a> FxHlmm1ForwardChf<'a> {
    pub open spec fn ok(&self) -> bool {
        &&& self.params.ok() && self.params.heston.kappa@ > 0real && self.params.tenor.n_s() < usize::MAX - 1 && self.expiry@ > 0real && 0 < self.n_simpson_per_segment < usize::MAX
        &&& self.segments@.len() == self.params.ends(self.expiry@).len()
        &&& forall|j: int| 0 <= j < self.segments@.len() ==> (#[trigger] self.segments@[j]).of(*self.params, self.expiry@, j)
    }
}
pub open spec fn same_reals(v: Seq<R>, w: Seq<real>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == w[i] }
//@fn src/models/forex/fx_hlmm1_chf.rs impl FxHlmm1ForwardChf<'a> :: with_simpson_steps => impl<'a> FxHlmm1ForwardChf<'a>
//@params p, big_t, n
//@spec
    requires n >= 2, n % 2 == 0, p.ok(), p.tenor.n_s() >= 1, p.heston.kappa@ > 0real, big_t@ > 0real, p.tenor.n_s() < usize::MAX - 1
    ensures r.ok(), r.n_simpson_per_segment == n, r.expiry == big_t, *r.params == *p
//@local tau_boundaries: Vec<R>
//@local segments: Vec<Segment>
//@entry
    proof { lemma_ends(*p, big_t@); }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == p.tenor.n_s(), __rn0 == __n0, __lo1 == 0, tenor == p.tenor, p.ok(), expiry == big_t, big_t@ > 0real, same_reals(tau_boundaries@, p.cuts(big_t@, p.tenor.n_s() - __k0)),
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == tau_boundaries@.len(), __s2@ == tau_boundaries@, params == p, *tenor == p.tenor, expiry == big_t, p.ok(), p.heston.kappa@ > 0real, big_t@ > 0real, p.tenor.n_s() < usize::MAX - 1,
        same_reals(tau_boundaries@, p.ends(big_t@)), prev@ == p.seg_lo(big_t@, __k1 as int), segments@.len() == __k1, forall|j: int| 0 <= j < __k1 ==> (#[trigger] segments@[j]).of(*p, big_t@, j),
        forall|i: int, j: int| 0 <= i < j < __n1 ==> #[trigger] p.ends(big_t@)[i] < #[trigger] p.ends(big_t@)[j], forall|i: int| 0 <= i < __n1 ==> 0real < #[trigger] p.ends(big_t@)[i],
    decreases __n1 - __k1
//@end
//@fn src/models/forex/fx_hlmm1_chf.rs impl FxHlmm1ForwardChf<'a> :: new => impl<'a> FxHlmm1ForwardChf<'a>
//@params p, big_t
//@spec
    requires p.ok(), p.tenor.n_s() >= 1, p.heston.kappa@ > 0real, big_t@ > 0real, p.tenor.n_s() < usize::MAX - 1
    ensures r.ok(), r.n_simpson_per_segment == 32, r.expiry == big_t, *r.params == *p
//@end
//@fn src/models/forex/fx_hlmm1_chf.rs impl FxHlmm1ForwardChf<'a> :: params => impl<'a> FxHlmm1ForwardChf<'a>
//@spec
    ensures *r == *self.params
//@end
//@fn src/models/forex/fx_hlmm1_chf.rs impl FxHlmm1ForwardChf<'a> :: components => impl<'a> FxHlmm1ForwardChf<'a>
//@params u
//@spec
    requires self.ok()
    ensures self.params.parts(self.expiry@, self.n_simpson_per_segment as int, u@, r)
//@entry
    proof { lemma_ends(*self.params, self.expiry@); }
    let ghost v = self.params.segs(self.expiry@, self.n_simpson_per_segment as int);
    let ghost q = self.params.chf();
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.segments@.len(), __s0@ == self.segments@, self.ok(), *p == *self.params, v == self.params.segs(self.expiry@, self.n_simpson_per_segment as int), q == self.params.chf(),
        a@ == walk_a(u@, q, v, __k0 as int), d_d@ == walk_d(u@, q.ld, q.ed, v, true, __k0 as int), d_f@ == walk_d(u@, q.lf, q.ef, v, false, __k0 as int), tau_prev@ == self.params.seg_lo(self.expiry@, __k0 as int),
    decreases __n0 - __k0
//@loop 0 begin
    proof { lemma_m(p.tenor, self.expiry@ - 5real / 10real * (self.params.seg_lo(self.expiry@, __k0 as int) + self.params.ends(self.expiry@)[__k0 as int]), 0); assert(self.segments@[__k0 as int].of(*self.params, self.expiry@, __k0 as int)); assert(v[__k0 as int] == self.params.seg(self.expiry@, __k0 as int, self.n_simpson_per_segment as int)); }
//@end
// the discount factor over the dates, carried on at the last rate: one curve for both currencies
pub open spec fn bond(q: LiborTenor, k: int) -> real decreases k { if k <= 0 { 1real } else { bond(q, k - 1) / (1real + q.t(k) * q.libors@[k - 1]@) } }
pub open spec fn bond_to(q: LiborTenor, t: real) -> real {
    let b = bond(q, q.n_s());
    if t > q.d(q.n_s()) + tol() { b * rexp((0real - q.libors@[q.n_s() - 1]@) * (t - q.d(q.n_s()))) } else { b }
}
proof fn lemma_bond(q: LiborTenor, k: int)
    requires rates_ok(q), 0 <= k <= q.n_s()
    ensures bond(q, k) > 0real
    decreases k
{
    if k > 0 {
        lemma_bond(q, k - 1);
        let l = q.libors@[k - 1];
        let (b, x) = (bond(q, k - 1), 1real + q.t(k) * q.libors@[k - 1]@);
        assert(b / x > 0real) by (nonlinear_arith) requires b > 0real, x > 0real;
    }
}
proof fn lemma_bond_to(q: LiborTenor, t: real)
    requires rates_ok(q)
    ensures bond_to(q, t) > 0real
{
    broadcast use axiom_exp;
    let (b, e) = (bond(q, q.n_s()), rexp((0real - q.libors@[q.n_s() - 1]@) * (t - q.d(q.n_s()))));
    lemma_bond(q, q.n_s());
    assert(b * e > 0real) by (nonlinear_arith) requires b > 0real, e > 0real;
}
//@fn src/models/forex/fx_hlmm1_chf.rs fn discount_factors_from_libors
//@params p, t
//@spec
    requires p.ok(), p.tenor.n_s() >= 1, p.tenor.n_s() < usize::MAX - 1
    ensures r.0 == r.1, r.0@ == bond_to(p.tenor, t@), r.0@ > 0real
//@entry
    broadcast use axiom_exp;
    let ghost q = p;
//@loop 0
    invariant 1 <= __k0 <= __n0 + 1, __n0 == q.tenor.n_s(), q.tenor.n_s() < usize::MAX - 1, *tenor == q.tenor, rates_ok(q.tenor), p@ == bond(q.tenor, __k0 - 1), p@ > 0real,
    decreases __n0 + 1 - __k0
//@loop 0 begin
    proof { lemma_bond(q.tenor, __k0 as int); let l = q.tenor.libors@[__k0 - 1]; }
//@exit
    proof { lemma_bond_to(q.tenor, t@); }
//@end
//@fn src/models/forex/fx_hlmm1_chf.rs impl FxHlmm1ForwardChf<'a> :: evaluate => impl<'a> FxHlmm1ForwardChf<'a>
//@params u
//@spec
    requires self.ok(), self.params.fx_0@ > 0real, self.params.tenor.n_s() >= 1
    ensures exists|c: ChfComponents| #[trigger] self.params.parts(self.expiry@, self.n_simpson_per_segment as int, u@, c) && r@ == c.value(rln(self.params.fx_0@), self.params.heston.sigma_0@, self.params.domestic.v_0@, self.params.foreign.v_0@)
//@entry
    proof { lemma_bond_to(self.params.tenor, self.expiry@); let (f, b) = (self.params.fx_0@, bond_to(self.params.tenor, self.expiry@)); assert(f * b / b == f && f * b / b > 0real) by (nonlinear_arith) requires f > 0real, b > 0real; }
//@end
// unit mass at u = 0, and at u = -i the forward: the spot, the curve being shared
proof fn chf_mass_and_forward<'a>(f: FxHlmm1ForwardChf<'a>, u: CV, c: ChfComponents)
    requires f.ok(), f.params.fx_0@ > 0real, unit(u), f.params.parts(f.expiry@, f.n_simpson_per_segment as int, u, c), f.params.heston.kappa@ - f.params.heston.gamma@ * f.params.correlations.rho_xi_sigma@ > 0real
    ensures c.value(rln(f.params.fx_0@), f.params.heston.sigma_0@, f.params.domestic.v_0@, f.params.foreign.v_0@) == cv(if u == c0() { 1real } else { f.params.fx_0@ }, 0real)
{
    let p = *f.params; let t = f.expiry@; let n = f.n_simpson_per_segment as int;
    let v = p.segs(t, n);
    lemma_walk_vanishes(u, p.chf(), v, v.len() as int);
    lemma_heston_vanishes(u, p.heston.kappa@, p.heston.gamma@, p.correlations.rho_xi_sigma@, t);
    lemma_unit(u);
    let x = rln(p.fx_0@);
    lemma_scale_zero(p.heston.sigma_0@); lemma_scale_zero(x); lemma_scale_zero(p.domestic.v_0@); lemma_scale_zero(p.foreign.v_0@);
    let y = if u == c0() { 0real } else { x };
    assert(x * 1real == x && x * 0real == 0real) by (nonlinear_arith);
    assert(cadd(cadd(cadd(cadd(c.a@, cscale(x, c.b@)), cscale(p.heston.sigma_0@, c.c@)), cscale(p.domestic.v_0@, c.d_d@)), cscale(p.foreign.v_0@, c.d_f@)) == cv(y, 0real));
    axiom_angle_zero();
    let e = rexp(y);
    assert(e * 1real == e && e * 0real == 0real) by (nonlinear_arith);
    assert(e == (if u == c0() { 1real } else { p.fx_0@ })) by { broadcast use axiom_exp, axiom_ln; }
}
// what the COS pricer reads from it
//@fn src/models/common/cos_pricer.rs impl ForwardChf for FxHlmm1ForwardChf<'a> :: log_forward => impl<'a> FxHlmm1ForwardChf<'a>
//@name cos_log_forward
//@spec
    requires self.params.fx_0@ > 0real
    ensures r@ == rln(self.params.fx_0@)
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for FxHlmm1ForwardChf<'a> :: expiry => impl<'a> FxHlmm1ForwardChf<'a>
//@name cos_expiry
//@spec
    ensures r == self.expiry
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for FxHlmm1ForwardChf<'a> :: typical_variance => impl<'a> FxHlmm1ForwardChf<'a>
//@name cos_typical_variance
//@spec
    ensures r == self.params.heston.theta
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for FxHlmm1ForwardChf<'a> :: evaluate => impl<'a> FxHlmm1ForwardChf<'a>
//@name cos_evaluate
//@params u
//@spec
    requires self.ok(), self.params.fx_0@ > 0real, self.params.tenor.n_s() >= 1
    ensures exists|c: ChfComponents| #[trigger] self.params.parts(self.expiry@, self.n_simpson_per_segment as int, u@, c) && r@ == c.value(rln(self.params.fx_0@), self.params.heston.sigma_0@, self.params.domestic.v_0@, self.params.foreign.v_0@)
//@end
