// the characteristic function: contracts discharged against src/models/forex/fx_fmm1_chf.rs
//@item src/models/forex/fx_fmm1_chf.rs :: struct ChfComponents
//@item src/models/forex/fx_fmm1_chf.rs :: struct SubSegment
//@item src/models/forex/fx_fmm1_chf.rs :: struct FxFmm1ForwardChf
impl ChfComponents {
    pub open spec fn value(&self, x: real, sigma: real, vd: real, vf: real) -> CV { cexp(cadd(cadd(cadd(cadd(self.a@, cscale(x, self.b@)), cscale(sigma, self.c@)), cscale(vd, self.d_d@)), cscale(vf, self.d_f@))) }
}
//@fn src/models/forex/fx_fmm1_chf.rs impl ChfComponents :: assemble => impl ChfComponents
//@params x, sigma, v_d, v_f
//@spec
    ensures r@ == self.value(x@, sigma@, v_d@, v_f@)
//@end
//@fn src/models/forex/fx_fmm1_chf.rs fn heston_c
//@params u, kappa, gamma, rho, tau
//@spec
    ensures r@ == heston_c_s(u@, kappa@, gamma@, rho@, tau@)
//@end
//@fn src/models/forex/fx_fmm1_chf.rs fn heston_a_closed_form
//@params u, kappa, theta, gamma, rho, tau
//@spec
    ensures r@ == heston_a_s(u@, kappa@, theta@, gamma@, rho@, tau@)
//@end
//@fn src/models/forex/fx_fmm1_chf.rs fn heston_a_increment
//@params u, kappa, theta, gamma, rho, tau1, tau2
//@spec
    ensures r@ == csub(heston_a_s(u@, kappa@, theta@, gamma@, rho@, tau2@), heston_a_s(u@, kappa@, theta@, gamma@, rho@, tau1@))
//@end
//@fn src/models/forex/fx_fmm1_chf.rs fn advance_d_riccati
//@params u, lambda, eta, a_j, v_0, d_prev, s
//@spec
    requires eta@ > 0real
    ensures r.0@ == riccati_d(u@, lambda@, eta@, a_j@, d_prev@, s@), r.1@ == riccati_a(u@, lambda@, eta@, a_j@, v_0@, d_prev@, s@)
//@entry
    proof { let e = eta@; assert(e * e != 0real) by (nonlinear_arith) requires e > 0real; }
//@end
impl FxFmmParams {
    // Simpson's rule for the cross terms over time left [lo, hi]
    pub open spec fn f_sum(&self, big_t: real, lo: real, h: real, s: int, n: int, k: int) -> real decreases k {
        if k <= 0 { 0real } else { self.f_sum(big_t, lo, h, s, n, k - 1) + simpson_w(k - 1, n) * self.f_s(big_t - (lo + (k - 1) as real * h), s) }
    }
    pub open spec fn f_integral(&self, big_t: real, lo: real, hi: real, s: int, n: int) -> real { let h = (hi - lo) / (n as real); self.f_sum(big_t, lo, h, s, n, n + 1) * h / 3real }
    // times left at which the set of live rates changes: the dates from the last but one down, then the whole time to expiry
    pub open spec fn cuts(&self, big_t: real, k: int) -> Seq<real> decreases self.tenor.n() - k {
        if k >= self.tenor.n() { Seq::empty() } else { let v = self.cuts(big_t, k + 1); let x = big_t - self.tenor.d(k); if 0real < x < big_t + tol() { v.push(x) } else { v } }
    }
    pub open spec fn ends(&self, big_t: real) -> Seq<real> { let v = self.cuts(big_t, 0); if v.len() == 0 || rabs(v.last() - big_t) > tol() { v.push(big_t) } else { v } }
    pub open spec fn seg_lo(&self, big_t: real, j: int) -> real { if j <= 0 { 0real } else { self.ends(big_t)[j - 1] } }
    // the i-th of n equal pieces of the j-th stretch
    pub open spec fn piece(&self, big_t: real, n: int, j: int, i: int) -> Piece {
        let (lo, hi) = (self.seg_lo(big_t, j), self.ends(big_t)[j]);
        let h = (hi - lo) / (n as real);
        let a = lo + i as real * h;
        Piece { lo: a, hi: if i + 1 == n { hi } else { a + h } }
    }
    pub open spec fn pieces(&self, big_t: real, n: int, j: int, i: int) -> Seq<Piece> decreases j, i {
        if i <= 0 { if j <= 0 { Seq::empty() } else { self.pieces(big_t, n, j - 1, n) } } else { self.pieces(big_t, n, j, i - 1).push(self.piece(big_t, n, j, i - 1)) }
    }
    pub open spec fn all(&self, big_t: real, n: int) -> Seq<Piece> { self.pieces(big_t, n, self.ends(big_t).len() as int, 0) }
    // its coefficients: rates alive at its middle, decayed to then
    pub open spec fn seg(&self, big_t: real, c: Piece, n: int) -> Seg {
        let (t, s) = (c.mid(big_t), self.tenor.first(c.mid(big_t), 1));
        Seg { lo: c.lo, hi: c.hi, len: c.hi - c.lo, ad: side_s(self.domestic, self.tenor, t, s), af: side_s(self.foreign, self.tenor, t, s), f: self.f_integral(big_t, c.lo, c.hi, s, n) }
    }
    pub open spec fn segs(&self, big_t: real, m: int, n: int) -> Seq<Seg> { let v = self.all(big_t, m); Seq::new(v.len(), |k: int| self.seg(big_t, v[k], n)) }
    pub open spec fn chf(&self) -> Chf {
        Chf { kappa: self.heston.kappa@, theta: self.heston.theta@, gamma: self.heston.gamma@, rho: self.correlations.rho_xi_sigma@,
            ld: self.domestic.lambda@, ed: self.domestic.eta@, vd: self.domestic.v_0@, lf: self.foreign.lambda@, ef: self.foreign.eta@, vf: self.foreign.v_0@ }
    }
    pub open spec fn parts(&self, big_t: real, m: int, n: int, u: CV, r: ChfComponents) -> bool {
        let v = self.segs(big_t, m, n); let p = self.chf(); let z = v.len() as int;
        r.b@ == iu_s(u) && r.c@ == heston_c_s(u, p.kappa, p.gamma, p.rho, big_t) && r.a@ == walk_a(u, p, v, z) && r.d_d@ == walk_d(u, p.ld, p.ed, v, true, z) && r.d_f@ == walk_d(u, p.lf, p.ef, v, false, z)
    }
}
pub struct Piece { pub lo: real, pub hi: real }
impl Piece { pub open spec fn mid(&self, big_t: real) -> real { big_t - 5real / 10real * (self.lo + self.hi) } }
// the pieces follow each other from zero
proof fn lemma_pieces(p: FxFmmParams, big_t: real, n: int, j: int, i: int)
    requires 0 <= j, 0 <= i <= n, n >= 1, i > 0 ==> j < p.ends(big_t).len(), j <= p.ends(big_t).len()
    ensures ({ let v = p.pieces(big_t, n, j, i); (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).lo == (if k == 0 { 0real } else { v[k - 1].hi }))
        && (if v.len() == 0 { 0real } else { v.last().hi }) == (if i == n { p.ends(big_t)[j] } else { p.piece(big_t, n, j, i).lo }) && (v.len() == 0 ==> i == 0 && j == 0) })
    decreases j, i
{
    let h = (p.ends(big_t)[j] - p.seg_lo(big_t, j)) / (n as real);
    if i <= 0 {
        assert(0int as real * h == 0real) by (nonlinear_arith);
        if j > 0 { lemma_pieces(p, big_t, n, j - 1, n); }
    } else {
        lemma_pieces(p, big_t, n, j, i - 1);
        let (v, w, x) = (p.pieces(big_t, n, j, i - 1), p.pieces(big_t, n, j, i), p.piece(big_t, n, j, i - 1));
        assert(w == v.push(x));
        let (y, z) = (i as real, (i - 1) as real);
        assert(z * h + h == y * h) by (nonlinear_arith) requires z == y - 1real;
        assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).lo == (if k == 0 { 0real } else { w[k - 1].hi }) by { if k < v.len() { assert(w[k] == v[k]); if k > 0 { assert(w[k - 1] == v[k - 1]); } } else { if k > 0 { assert(w[k - 1] == v.last()); } } }
    }
}
proof fn lemma_cuts(p: FxFmmParams, big_t: real, k: int)
    requires p.tenor.ok(), 0 <= k <= p.tenor.n()
    ensures ({ let v = p.cuts(big_t, k);
        (forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j]) && (forall|i: int| 0 <= i < v.len() ==> 0real < #[trigger] v[i] <= big_t) && (forall|i: int| 0 <= i < v.len() && k < p.tenor.n() ==> #[trigger] v[i] <= big_t - p.tenor.d(k)) })
    decreases p.tenor.n() - k
{
    if k < p.tenor.n() {
        lemma_cuts(p, big_t, k + 1);
        let q = p.tenor;
        assert(q.dates@[k]@ >= 0real) by { if k > 0 { assert(q.dates@[0]@ < q.dates@[k]@); } }
        let (w, v, x) = (p.cuts(big_t, k + 1), p.cuts(big_t, k), big_t - q.d(k));
        assert(k + 1 < q.dates@.len());
        assert(q.dates@[k]@ < q.dates@[k + 1]@);
        assert(forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] < x) by { assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] < x by { assert(k + 1 < q.n()); assert(w[i] <= big_t - q.d(k + 1)); } }
        if 0real < x < big_t + tol() { assert(v == w.push(x)); assert(v[w.len() as int] == x); assert(forall|i: int| 0 <= i < w.len() ==> #[trigger] v[i] == w[i]); } else { assert(v == w); }
    }
}
proof fn lemma_ends(p: FxFmmParams, big_t: real)
    requires p.tenor.ok(), big_t > 0real
    ensures ({ let v = p.ends(big_t); v.len() > 0 && (forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j]) && (forall|i: int| 0 <= i < v.len() ==> 0real < #[trigger] v[i] <= big_t) })
{ lemma_cuts(p, big_t, 0); }
impl SubSegment {
    pub open spec fn of(&self, p: FxFmmParams, big_t: real, c: Piece) -> bool {
        let (t, s) = (c.mid(big_t), p.tenor.first(c.mid(big_t), 1));
        self.tau@ == c.hi && self.length@ == c.hi - c.lo && self.start_idx == s && self.a_d@ == side_s(p.domestic, p.tenor, t, s) && self.a_f@ == side_s(p.foreign, p.tenor, t, s)
    }
}
impl<'a> FxFmm1ForwardChf<'a> {
    // the cached coefficients are those of the parameters
    pub open spec fn cached(&self) -> bool {
        let p = *self.params; let n = p.tenor.n();
        &&& p.ok() && p.heston.kappa@ > 0real && n < usize::MAX - 1
        &&& self.psi_base_d@.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] self.psi_base_d@[j])@ == p.domestic.base_s(p.tenor, j + 1)
        &&& self.psi_base_f@.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] self.psi_base_f@[j])@ == p.foreign.base_s(p.tenor, j + 1)
        &&& self.phi_sigma_cir == p.heston && self.phi_d_cir == p.domestic.cir() && self.phi_f_cir == p.foreign.cir()
    }
    pub open spec fn ok(&self) -> bool {
        let v = self.params.all(self.expiry@, self.n_substeps_per_period as int);
        &&& self.cached() && self.expiry@ > 0real && 2 <= self.n_simpson_per_segment < usize::MAX && self.n_substeps_per_period >= 1
        &&& self.sub_segments@.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] self.sub_segments@[k]).of(*self.params, self.expiry@, v[k])
    }
}
//@fn src/models/forex/fx_fmm1_chf.rs impl FxFmm1ForwardChf<'a> :: f_at => impl<'a> FxFmm1ForwardChf<'a>
//@params t, s
//@spec
    requires self.cached(), s >= 1
    ensures r@ == self.params.f_s(t@, s as int)
//@entry
    let ghost p = *self.params;
//@loop 0
    invariant s <= __k0 <= __n0 + 1, __n0 == m, m == p.tenor.n(), start_idx == s, s >= 1, m < usize::MAX - 1, p == *self.params, *tenor == p.tenor, *decay_d == p.domestic.decay, self.cached(), two_ab@ == load(p.domestic, p.tenor, t@, p.correlations.rho_xi_d@, s as int, __k0 - 1),
    decreases __n0 + 1 - __k0
//@loop 0 begin
    proof { let x = self.psi_base_d@[__k0 - 1]; }
//@loop 1
    invariant s <= __k1 <= __n1 + 1, __n1 == m, m == p.tenor.n(), start_idx == s, s >= 1, m < usize::MAX - 1, p == *self.params, *tenor == p.tenor, *decay_f == p.foreign.decay, self.cached(), two_ac@ == load(p.foreign, p.tenor, t@, p.correlations.rho_xi_f@, s as int, __k1 - 1),
    decreases __n1 + 1 - __k1
//@loop 1 begin
    proof { let x = self.psi_base_f@[__k1 - 1]; }
//@loop 2
    invariant s <= __k2 <= __n2 + 1, __n2 == m, m == p.tenor.n(), start_idx == s, s >= 1, m < usize::MAX - 1, p == *self.params, *tenor == p.tenor, *decay_d == p.domestic.decay, *decay_f == p.foreign.decay, self.cached(), two_bc@ == p.cross(t@, s as int, __k2 - 1),
    decreases __n2 + 1 - __k2
//@loop 3
    invariant s <= __k3 <= __n3 + 1, __n3 == m, m == p.tenor.n(), start_idx == s, s <= j <= m, idx_j == j - 1, gj@ == p.tenor.gam(j as int, t@), s >= 1, m < usize::MAX - 1, p == *self.params, *tenor == p.tenor, *decay_f == p.foreign.decay, self.cached(), two_bc@ == p.cross_row(t@, p.cross(t@, s as int, j - 1), s as int, j as int, __k3 - 1),
    decreases __n3 + 1 - __k3
//@loop 3 begin
    proof {
        assert(p.correlations.cross_rate_corr@[j - 1]@.len() == m);
        let (x, y, g, w) = (self.psi_base_d@[j - 1]@, self.psi_base_f@[__k3 - 1]@, p.tenor.gam(j as int, t@), p.tenor.gam(__k3 as int, t@));
        let z = x * g;
        assert(z * y * w == z * (y * w)) by (nonlinear_arith);
    }
//@end
//@fn src/models/forex/fx_fmm1_chf.rs impl FxFmm1ForwardChf<'a> :: simpson_f_integral => impl<'a> FxFmm1ForwardChf<'a>
//@params lo, hi, s, n
//@spec
    requires self.cached(), s >= 1, 0 < n < usize::MAX
    ensures r@ == cv(self.params.f_integral(self.expiry@, lo@, hi@, s as int, n as int), 0real)
//@entry
    let ghost (p, big_t) = (*self.params, self.expiry@);
//@loop 0
    invariant 0 <= __k0 <= n + 1, __n0 == n, 0 < n < usize::MAX, p == *self.params, big_t == self.expiry@, tau1 == lo, start_idx == s, s >= 1, self.cached(), h@ == (hi@ - lo@) / (n as real), acc@ == p.f_sum(big_t, lo@, h@, s as int, n as int, __k0 as int),
    decreases n + 1 - __k0
//@end
pub open spec fn same_reals(v: Seq<R>, w: Seq<real>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == w[i] }
//@fn src/models/forex/fx_fmm1_chf.rs impl FxFmm1ForwardChf<'a> :: with_resolution => impl<'a> FxFmm1ForwardChf<'a>
//@params p, big_t, w, n
//@spec
    requires w >= 1, 2 <= n < usize::MAX, n % 2 == 0, p.ok(), p.heston.kappa@ > 0real, big_t@ > 0real, p.tenor.n() < usize::MAX - 1
    ensures r.ok(), r.n_simpson_per_segment == n, r.n_substeps_per_period == w, r.expiry == big_t, *r.params == *p
//@local tau_boundaries: Vec<R>
//@entry
    proof { lemma_ends(*p, big_t@); }
    let ghost q = *p;
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == p.tenor.n(), __rn0 == __n0, __lo1 == 0, tenor == p.tenor, p.ok(), expiry == big_t, big_t@ > 0real, same_reals(tau_boundaries@, p.cuts(big_t@, p.tenor.n() - __k0)),
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == tau_boundaries@.len(), __s2@ == tau_boundaries@, params == p, *tenor == p.tenor, m == p.tenor.n(), expiry == big_t, p.ok(), p.heston.kappa@ > 0real, big_t@ > 0real, p.tenor.n() < usize::MAX - 1, n_substeps_per_period == w, w >= 1,
        same_reals(tau_boundaries@, p.ends(big_t@)), prev@ == p.seg_lo(big_t@, __k1 as int), pieces_of(sub_segments@, *p, big_t@, p.pieces(big_t@, w as int, __k1 as int, 0)),
        forall|i: int, j: int| 0 <= i < j < __n1 ==> #[trigger] p.ends(big_t@)[i] < #[trigger] p.ends(big_t@)[j], forall|i: int| 0 <= i < __n1 ==> 0real < #[trigger] p.ends(big_t@)[i],
    decreases __n1 - __k1
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == w, 0 < __k1 <= __n1, __n1 == tau_boundaries@.len(), params == p, *tenor == p.tenor, m == p.tenor.n(), expiry == big_t, p.ok(), big_t@ > 0real, p.tenor.n() < usize::MAX - 1, n_substeps_per_period == w, w >= 1,
        same_reals(tau_boundaries@, p.ends(big_t@)), prev@ == p.seg_lo(big_t@, __k1 - 1), tau_j@ == p.ends(big_t@)[__k1 - 1], h@ == (tau_j@ - prev@) / (w as real), pieces_of(sub_segments@, *p, big_t@, p.pieces(big_t@, w as int, __k1 - 1, __k2 as int)),
    decreases __n2 - __k2
//@loop 2 begin
    proof { let c = p.piece(big_t@, w as int, __k1 - 1, __k2 as int); lemma_first(p.tenor, c.mid(big_t@), 1); }
//@end
//@fn src/models/forex/fx_fmm1_chf.rs impl FxFmm1ForwardChf<'a> :: new => impl<'a> FxFmm1ForwardChf<'a>
//@params p, big_t
//@spec
    requires p.ok(), p.heston.kappa@ > 0real, big_t@ > 0real, p.tenor.n() < usize::MAX - 1
    ensures r.ok(), r.n_simpson_per_segment == 32, r.n_substeps_per_period == 1, r.expiry == big_t, *r.params == *p
//@end
//@fn src/models/forex/fx_fmm1_chf.rs impl FxFmm1ForwardChf<'a> :: params => impl<'a> FxFmm1ForwardChf<'a>
//@spec
    ensures *r == *self.params
//@end
//@fn src/models/forex/fx_fmm1_chf.rs impl FxFmm1ForwardChf<'a> :: components => impl<'a> FxFmm1ForwardChf<'a>
//@params u
//@spec
    requires self.ok()
    ensures self.params.parts(self.expiry@, self.n_substeps_per_period as int, self.n_simpson_per_segment as int, u@, r)
//@entry
    proof { lemma_ends(*self.params, self.expiry@); lemma_pieces(*self.params, self.expiry@, self.n_substeps_per_period as int, self.params.ends(self.expiry@).len() as int, 0); }
    let ghost cs = self.params.all(self.expiry@, self.n_substeps_per_period as int);
    let ghost v = self.params.segs(self.expiry@, self.n_substeps_per_period as int, self.n_simpson_per_segment as int);
    let ghost q = self.params.chf();
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.sub_segments@.len(), __s0@ == self.sub_segments@, self.ok(), *p == *self.params, v == self.params.segs(self.expiry@, self.n_substeps_per_period as int, self.n_simpson_per_segment as int), q == self.params.chf(), cs == self.params.all(self.expiry@, self.n_substeps_per_period as int),
        forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).lo == (if k == 0 { 0real } else { cs[k - 1].hi }),
        a@ == walk_a(u@, q, v, __k0 as int), d_d@ == walk_d(u@, q.ld, q.ed, v, true, __k0 as int), d_f@ == walk_d(u@, q.lf, q.ef, v, false, __k0 as int), tau_prev@ == (if __k0 == 0 { 0real } else { cs[__k0 - 1].hi }),
    decreases __n0 - __k0
//@loop 0 begin
    proof { let c = cs[__k0 as int]; lemma_first(self.params.tenor, c.mid(self.expiry@), 1); assert(self.sub_segments@[__k0 as int].of(*self.params, self.expiry@, c)); assert(v[__k0 as int] == self.params.seg(self.expiry@, c, self.n_simpson_per_segment as int)); }
//@end
pub open spec fn pieces_of(v: Seq<SubSegment>, p: FxFmmParams, big_t: real, c: Seq<Piece>) -> bool { v.len() == c.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).of(p, big_t, c[k]) }
// the discount factor over the dates, carried on at the last rate: one curve for both currencies
pub open spec fn bond(q: FmmTenor, k: int) -> real decreases k { if k <= 0 { 1real } else { bond(q, k - 1) / (1real + q.t(k) * q.initial_rates@[k - 1]@) } }
pub open spec fn bond_to(q: FmmTenor, t: real) -> real {
    let b = bond(q, q.n());
    if t > q.d(q.n()) + tol() { b * rexp((0real - q.initial_rates@[q.n() - 1]@) * (t - q.d(q.n()))) } else { b }
}
proof fn lemma_bond(q: FmmTenor, k: int)
    requires rates_ok(q), 0 <= k <= q.n()
    ensures bond(q, k) > 0real
    decreases k
{
    if k > 0 {
        lemma_bond(q, k - 1);
        let l = q.initial_rates@[k - 1];
        let (b, x) = (bond(q, k - 1), 1real + q.t(k) * q.initial_rates@[k - 1]@);
        assert(b / x > 0real) by (nonlinear_arith) requires b > 0real, x > 0real;
    }
}
proof fn lemma_bond_to(q: FmmTenor, t: real)
    requires rates_ok(q)
    ensures bond_to(q, t) > 0real
{
    broadcast use axiom_exp;
    let (b, e) = (bond(q, q.n()), rexp((0real - q.initial_rates@[q.n() - 1]@) * (t - q.d(q.n()))));
    lemma_bond(q, q.n());
    assert(b * e > 0real) by (nonlinear_arith) requires b > 0real, e > 0real;
}
//@fn src/models/forex/fx_fmm1_chf.rs fn discount_factors_from_rates
//@params p, t
//@spec
    requires p.ok(), p.tenor.n() >= 1, p.tenor.n() < usize::MAX - 1
    ensures r.0 == r.1, r.0@ == bond_to(p.tenor, t@), r.0@ > 0real
//@entry
    broadcast use axiom_exp;
    let ghost q = p;
//@loop 0
    invariant 1 <= __k0 <= __n0 + 1, __n0 == q.tenor.n(), q.tenor.n() < usize::MAX - 1, *tenor == q.tenor, rates_ok(q.tenor), p@ == bond(q.tenor, __k0 - 1), p@ > 0real,
    decreases __n0 + 1 - __k0
//@loop 0 begin
    proof { lemma_bond(q.tenor, __k0 as int); let l = q.tenor.initial_rates@[__k0 - 1]; }
//@exit
    proof { lemma_bond_to(q.tenor, t@); }
//@end
//@fn src/models/forex/fx_fmm1_chf.rs impl FxFmm1ForwardChf<'a> :: evaluate => impl<'a> FxFmm1ForwardChf<'a>
//@params u
//@spec
    requires self.ok(), self.params.fx_0@ > 0real, self.params.tenor.n() >= 1
    ensures exists|c: ChfComponents| #[trigger] self.params.parts(self.expiry@, self.n_substeps_per_period as int, self.n_simpson_per_segment as int, u@, c) && r@ == c.value(rln(self.params.fx_0@), self.params.heston.sigma_0@, self.params.domestic.v_0@, self.params.foreign.v_0@)
//@entry
    proof { lemma_bond_to(self.params.tenor, self.expiry@); let (f, b) = (self.params.fx_0@, bond_to(self.params.tenor, self.expiry@)); assert(f * b / b == f && f * b / b > 0real) by (nonlinear_arith) requires f > 0real, b > 0real; }
//@end
// unit mass at u = 0, and at u = -i the forward: the spot, the curve being shared
proof fn chf_mass_and_forward<'a>(f: FxFmm1ForwardChf<'a>, u: CV, c: ChfComponents)
    requires f.ok(), f.params.fx_0@ > 0real, unit(u), f.params.parts(f.expiry@, f.n_substeps_per_period as int, f.n_simpson_per_segment as int, u, c), f.params.heston.kappa@ - f.params.heston.gamma@ * f.params.correlations.rho_xi_sigma@ > 0real
    ensures c.value(rln(f.params.fx_0@), f.params.heston.sigma_0@, f.params.domestic.v_0@, f.params.foreign.v_0@) == cv(if u == c0() { 1real } else { f.params.fx_0@ }, 0real)
{
    let p = *f.params; let t = f.expiry@; let n = f.n_simpson_per_segment as int;
    let v = p.segs(t, f.n_substeps_per_period as int, n);
    lemma_walk_vanishes(u, p.chf(), v, v.len() as int);
    lemma_heston_vanishes(u, p.heston.kappa@, p.heston.gamma@, p.correlations.rho_xi_sigma@, t);
    lemma_unit(u);
    let x = rln(p.fx_0@);
    lemma_scale_zero(p.heston.sigma_0@); lemma_scale_zero(x); lemma_scale_zero(p.domestic.v_0@); lemma_scale_zero(p.foreign.v_0@);
    let y = if u == c0() { 0real } else { x };
    assert(x * 1real == x && x * 0real == 0real) by (nonlinear_arith);
    assert(cadd(cadd(cadd(cadd(c.a@, cscale(x, c.b@)), cscale(p.heston.sigma_0@, c.c@)), cscale(p.domestic.v_0@, c.d_d@)), cscale(p.foreign.v_0@, c.d_f@)) == cv(y, 0real));
    axiom_angle_zero();
    let e = rexp(y);
    assert(e * 1real == e && e * 0real == 0real) by (nonlinear_arith);
    assert(e == (if u == c0() { 1real } else { p.fx_0@ })) by { broadcast use axiom_exp, axiom_ln; }
}
// what the COS pricer reads from it
//@fn src/models/common/cos_pricer.rs impl ForwardChf for crate::models::forex::fx_fmm1_chf::FxFmm1ForwardChf<'a> :: log_forward => impl<'a> FxFmm1ForwardChf<'a>
//@name cos_log_forward
//@spec
    requires self.params.fx_0@ > 0real
    ensures r@ == rln(self.params.fx_0@)
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for crate::models::forex::fx_fmm1_chf::FxFmm1ForwardChf<'a> :: expiry => impl<'a> FxFmm1ForwardChf<'a>
//@name cos_expiry
//@spec
    ensures r == self.expiry
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for crate::models::forex::fx_fmm1_chf::FxFmm1ForwardChf<'a> :: typical_variance => impl<'a> FxFmm1ForwardChf<'a>
//@name cos_typical_variance
//@spec
    ensures r == self.params.heston.theta
//@end
//@fn src/models/common/cos_pricer.rs impl ForwardChf for crate::models::forex::fx_fmm1_chf::FxFmm1ForwardChf<'a> :: evaluate => impl<'a> FxFmm1ForwardChf<'a>
//@name cos_evaluate
//@params u
//@spec
    requires self.ok(), self.params.fx_0@ > 0real, self.params.tenor.n() >= 1
    ensures exists|c: ChfComponents| #[trigger] self.params.parts(self.expiry@, self.n_substeps_per_period as int, self.n_simpson_per_segment as int, u@, c) && r@ == c.value(rln(self.params.fx_0@), self.params.heston.sigma_0@, self.params.domestic.v_0@, self.params.foreign.v_0@)
//@end
