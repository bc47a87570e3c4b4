// FX with two forward market models: parameters and frozen-rate coefficients, contracts discharged against src/models/forex/fx_fmm.rs
//@type String => Str
//@item src/models/forex/fx_fmm.rs :: struct FmmSide
//@item src/models/forex/fx_fmm.rs :: struct FxFmmCorrelations
//@item src/models/forex/fx_fmm.rs :: struct FxFmmParams
// a square matrix of correlations
pub open spec fn tol() -> real { 1real / 1000000000000real }
pub open spec fn entry_ok(c: Seq<Vec<R>>, i: int, j: int) -> bool { rabs(at(c, i, j) - at(c, j, i)) <= tol() && rabs(at(c, i, j)) <= 1real + tol() }
pub open spec fn correlations_ok(c: Seq<Vec<R>>, n: int) -> bool {
    square(c, n) && (forall|i: int| 0 <= i < n ==> rabs(#[trigger] at(c, i, i) - 1real) <= tol()) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] entry_ok(c, i, j))
}
impl FmmSide {
    pub open spec fn ok(&self, n: int) -> bool {
        self.sigmas@.len() == n && correlations_ok(self.rate_corr@, n) && self.lambda@ > 0real && self.eta@ > 0real && self.v_0@ > 0real && forall|i: int| 0 <= i < n ==> (#[trigger] self.sigmas@[i])@ >= 0real
    }
    pub open spec fn base_s(&self, q: FmmTenor, k: int) -> real { let (t, x) = (q.t(k), q.initial_rates@[k - 1]@); t * self.sigmas@[k - 1]@ / (1real + t * x) }
    pub open spec fn psi_s(&self, q: FmmTenor, t: real, k: int) -> real { self.base_s(q, k) * q.gam(k, t) }
}
//@fn src/models/forex/fx_fmm.rs impl FmmSide :: validate => impl FmmSide
//@params q
//@spec
    ensures r is Ok <==> self.ok(q.n())
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.rate_corr@.len(), __s0@ == self.rate_corr@, m == q.n(), self.rate_corr@.len() == m, forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.rate_corr@[i])@.len() == m,
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == m, m == q.n(), square(self.rate_corr@, m as int),
        forall|i: int| 0 <= i < __k1 ==> rabs(#[trigger] at(self.rate_corr@, i, i) - 1real) <= tol(), forall|i: int, j: int| 0 <= i < __k1 && 0 <= j < m ==> #[trigger] entry_ok(self.rate_corr@, i, j),
    decreases __n1 - __k1
//@loop 1 begin
    proof { assert(self.rate_corr@[__k1 as int]@.len() == m); let x = at(self.rate_corr@, __k1 as int, __k1 as int); }
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == m, m == q.n(), square(self.rate_corr@, m as int), 0 <= i < m, forall|j: int| 0 <= j < __k2 ==> #[trigger] entry_ok(self.rate_corr@, i as int, j),
    decreases __n2 - __k2
//@loop 2 begin
    proof { assert(self.rate_corr@[i as int]@.len() == m && self.rate_corr@[__k2 as int]@.len() == m); let e = entry_ok(self.rate_corr@, i as int, __k2 as int); }
//@loop 3
    invariant 0 <= __k3 <= __n3, __n3 == self.sigmas@.len(), __s1@ == self.sigmas@, forall|i: int| 0 <= i < __k3 ==> (#[trigger] self.sigmas@[i])@ >= 0real,
    decreases __n3 - __k3
//@end
impl FxFmmCorrelations {
    pub open spec fn ok(&self, n: int) -> bool {
        &&& rabs(self.rho_xi_sigma@) <= 1real + tol()
        &&& self.rho_xi_d@.len() == n && self.rho_xi_f@.len() == n && self.rho_sigma_d@.len() == n && self.rho_sigma_f@.len() == n && square(self.cross_rate_corr@, n)
        &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> rabs(#[trigger] at(self.cross_rate_corr@, i, j)) <= 1real + tol()
        &&& within(self.rho_xi_d@, n) && within(self.rho_xi_f@, n) && within(self.rho_sigma_d@, n) && within(self.rho_sigma_f@, n)
    }
}
pub open spec fn within(v: Seq<R>, n: int) -> bool { forall|i: int| 0 <= i < n ==> rabs((#[trigger] v[i])@) <= 1real + tol() }
//@fn src/models/forex/fx_fmm.rs impl FxFmmCorrelations :: validate => impl FxFmmCorrelations
//@params q
//@spec
    ensures r is Ok <==> self.ok(q.n())
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.cross_rate_corr@.len(), __s0@ == self.cross_rate_corr@, m == q.n(), self.cross_rate_corr@.len() == m,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.cross_rate_corr@[i])@.len() == m, forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < m ==> rabs(#[trigger] at(self.cross_rate_corr@, i, j)) <= 1real + tol(),
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == row@.len(), __s1@ == row@, m == q.n(), row@.len() == m, 0 <= __k0 - 1 < self.cross_rate_corr@.len(), row@ == self.cross_rate_corr@[__k0 - 1]@,
        forall|j: int| 0 <= j < __k1 ==> rabs(#[trigger] at(self.cross_rate_corr@, __k0 - 1, j)) <= 1real + tol(),
    decreases __n1 - __k1
//@loop 1 begin
    let ghost x = at(self.cross_rate_corr@, __k0 - 1, __k1 as int);
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == self.rho_xi_d@.len(), __s3@ == self.rho_xi_d@, within(self.rho_xi_d@, __k2 as int),
    decreases __n2 - __k2
//@loop 3
    invariant 0 <= __k3 <= __n3, __n3 == self.rho_xi_f@.len(), __s5@ == self.rho_xi_f@, within(self.rho_xi_f@, __k3 as int),
    decreases __n3 - __k3
//@loop 4
    invariant 0 <= __k4 <= __n4, __n4 == self.rho_sigma_d@.len(), __s7@ == self.rho_sigma_d@, within(self.rho_sigma_d@, __k4 as int),
    decreases __n4 - __k4
//@loop 5
    invariant 0 <= __k5 <= __n5, __n5 == self.rho_sigma_f@.len(), __s9@ == self.rho_sigma_f@, within(self.rho_sigma_f@, __k5 as int),
    decreases __n5 - __k5
//@end
impl FxFmmParams {
    pub open spec fn valid(&self) -> bool { self.domestic.ok(self.tenor.n()) && self.foreign.ok(self.tenor.n()) && self.correlations.ok(self.tenor.n()) }
    // what the constructors promise, and rates above -1/tau
    pub open spec fn ok(&self) -> bool { self.valid() && self.tenor.ok() && forall|k: int| 1 <= k <= self.tenor.n() ==> 1real + self.tenor.t(k) * (#[trigger] self.tenor.initial_rates@[k - 1])@ > 0real }
}
//@fn src/models/forex/fx_fmm.rs impl FxFmmParams :: validate => impl FxFmmParams
//@spec
    ensures r is Ok <==> self.valid()
//@end
pub open spec fn rates_ok(q: FmmTenor) -> bool { q.ok() && forall|k: int| 1 <= k <= q.n() ==> 1real + q.t(k) * (#[trigger] q.initial_rates@[k - 1])@ > 0real }
//@fn src/models/forex/fx_fmm.rs impl FmmSide :: psi_base => impl FmmSide
//@local __acc0: Vec<R>
//@params q
//@spec
    requires rates_ok(*q), self.sigmas@.len() == q.n()
    ensures r@.len() == q.n(), forall|j: int| 0 <= j < q.n() ==> (#[trigger] r@[j])@ == self.base_s(*q, j + 1)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == q.n(), __lo1 == 0, tenor == q, rates_ok(*q), self.sigmas@.len() == q.n(), __acc0@.len() == __k0, forall|j: int| 0 <= j < __k0 ==> (#[trigger] __acc0@[j])@ == self.base_s(*q, j + 1),
    decreases __n0 - __k0
//@loop 0 begin
    proof { let l = q.initial_rates@[__k0 + 1 - 1]; }
//@end
//@fn src/models/forex/fx_fmm.rs fn psi_at
//@local __acc0: Vec<R>
//@params m, q, t
//@spec
    requires rates_ok(*q), m.sigmas@.len() == q.n()
    ensures r@.len() == q.n(), forall|j: int| 0 <= j < q.n() ==> (#[trigger] r@[j])@ == m.psi_s(*q, t@, j + 1)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == q.n(), __lo1 == 0, tenor == q, side == m, rates_ok(*q), base@.len() == q.n(), forall|j: int| 0 <= j < q.n() ==> (#[trigger] base@[j])@ == m.base_s(*q, j + 1), __acc0@.len() == __k0, forall|j: int| 0 <= j < __k0 ==> (#[trigger] __acc0@[j])@ == m.psi_s(*q, t@, j + 1),
    decreases __n0 - __k0
//@end
// the variance of the sum of the rates from the s-th on: squares, then twice the products
pub open spec fn squares(m: FmmSide, q: FmmTenor, t: real, s: int, j: int) -> real decreases j - s + 1 { if j < s { 0real } else { squares(m, q, t, s, j - 1) + m.psi_s(q, t, j) * m.psi_s(q, t, j) } }
pub open spec fn products(m: FmmSide, q: FmmTenor, t: real, x: real, i: int, j: int) -> real decreases j - i { if j <= i { x } else { products(m, q, t, x, i, j - 1) + 2real * m.psi_s(q, t, i) * m.psi_s(q, t, j) * at(m.rate_corr@, i - 1, j - 1) } }
pub open spec fn pairs(m: FmmSide, q: FmmTenor, t: real, s: int, i: int) -> real decreases i - s + 1 { if i < s { squares(m, q, t, s, q.n()) } else { products(m, q, t, pairs(m, q, t, s, i - 1), i, q.n()) } }
pub open spec fn side_s(m: FmmSide, q: FmmTenor, t: real, s: int) -> real { if s > q.n() { 0real } else { pairs(m, q, t, s, q.n()) } }
//@fn src/models/forex/fx_fmm.rs fn compute_a_side
//@params x, q, t, s
//@spec
    requires rates_ok(*q), x.sigmas@.len() == q.n(), square(x.rate_corr@, q.n()), s >= 1, q.n() < usize::MAX - 1
    ensures r@ == side_s(*x, *q, t@, s as int)
//@loop 0
    invariant s <= __k0 <= __n0 + 1, __n0 == m, m == q.n(), start_idx == s, s >= 1, m < usize::MAX - 1, psi@.len() == m, forall|j: int| 0 <= j < m ==> (#[trigger] psi@[j])@ == x.psi_s(*q, t@, j + 1), total@ == squares(*x, *q, t@, s as int, __k0 - 1),
    decreases __n0 + 1 - __k0
//@loop 1
    invariant s <= __k1 <= __n1 + 1, __n1 == m, m == q.n(), start_idx == s, side == x, s >= 1, m < usize::MAX - 1, psi@.len() == m, square(x.rate_corr@, m as int), forall|j: int| 0 <= j < m ==> (#[trigger] psi@[j])@ == x.psi_s(*q, t@, j + 1), total@ == pairs(*x, *q, t@, s as int, __k1 - 1),
    decreases __n1 + 1 - __k1
//@loop 2
    invariant i + 1 <= __k2 <= __n2 + 1, __n2 == m, m == q.n(), s <= i <= m, side == x, s >= 1, m < usize::MAX - 1, psi@.len() == m, square(x.rate_corr@, m as int), forall|j: int| 0 <= j < m ==> (#[trigger] psi@[j])@ == x.psi_s(*q, t@, j + 1), total@ == products(*x, *q, t@, pairs(*x, *q, t@, s as int, i - 1), i as int, __k2 - 1),
    decreases __n2 + 1 - __k2
//@loop 2 begin
    proof { assert(x.rate_corr@[i - 1]@.len() == m); }
//@end
//@fn src/models/forex/fx_fmm.rs fn compute_a_d
//@params p, t, s
//@spec
    requires p.ok(), s >= 1, p.tenor.n() < usize::MAX - 1
    ensures r@ == side_s(p.domestic, p.tenor, t@, s as int)
//@end
//@fn src/models/forex/fx_fmm.rs fn compute_a_f
//@params p, t, s
//@spec
    requires p.ok(), s >= 1, p.tenor.n() < usize::MAX - 1
    ensures r@ == side_s(p.foreign, p.tenor, t@, s as int)
//@end
// the cross terms
impl FmmSide { pub open spec fn cir(&self) -> CirProcess { CirProcess { kappa: self.lambda, theta: self.v_0, gamma: self.eta, sigma_0: self.v_0 } } }
pub open spec fn load(m: FmmSide, q: FmmTenor, t: real, c: Seq<R>, s: int, j: int) -> real decreases j - s + 1 { if j < s { 0real } else { load(m, q, t, c, s, j - 1) + m.psi_s(q, t, j) * c[j - 1]@ } }
impl FxFmmParams {
    pub open spec fn cross_row(&self, t: real, x: real, s: int, j: int, k: int) -> real decreases k - s + 1 { if k < s { x } else { self.cross_row(t, x, s, j, k - 1) + self.domestic.psi_s(self.tenor, t, j) * self.foreign.psi_s(self.tenor, t, k) * at(self.correlations.cross_rate_corr@, j - 1, k - 1) } }
    pub open spec fn cross(&self, t: real, s: int, j: int) -> real decreases j - s + 1 { if j < s { 0real } else { self.cross_row(t, self.cross(t, s, j - 1), s, j, self.tenor.n()) } }
    pub open spec fn f_s(&self, t: real, s: int) -> real {
        let n = self.tenor.n();
        let (x, d, f) = (self.heston.phi_s(t), self.domestic.cir().phi_s(t), self.foreign.cir().phi_s(t));
        if s > n { 0real } else {
            load(self.domestic, self.tenor, t, self.correlations.rho_xi_d@, s, n) * (2real * x * d) - load(self.foreign, self.tenor, t, self.correlations.rho_xi_f@, s, n) * (2real * x * f) - self.cross(t, s, n) * (2real * d * f)
        }
    }
}
//@fn src/models/forex/fx_fmm.rs fn compute_f_linearised
//@params p, t, s
//@spec
    requires p.ok(), p.heston.kappa@ > 0real, s >= 1, p.tenor.n() < usize::MAX - 1
    ensures r@ == p.f_s(t@, s as int)
//@loop 0
    invariant s <= __k0 <= __n0 + 1, __n0 == m, m == p.tenor.n(), start_idx == s, s >= 1, m < usize::MAX - 1, params == p, p.ok(), psi_d@.len() == m, forall|j: int| 0 <= j < m ==> (#[trigger] psi_d@[j])@ == p.domestic.psi_s(p.tenor, t@, j + 1), two_ab@ == load(p.domestic, p.tenor, t@, p.correlations.rho_xi_d@, s as int, __k0 - 1),
    decreases __n0 + 1 - __k0
//@loop 1
    invariant s <= __k1 <= __n1 + 1, __n1 == m, m == p.tenor.n(), start_idx == s, s >= 1, m < usize::MAX - 1, params == p, p.ok(), psi_f@.len() == m, forall|j: int| 0 <= j < m ==> (#[trigger] psi_f@[j])@ == p.foreign.psi_s(p.tenor, t@, j + 1), two_ac@ == load(p.foreign, p.tenor, t@, p.correlations.rho_xi_f@, s as int, __k1 - 1),
    decreases __n1 + 1 - __k1
//@loop 2
    invariant s <= __k2 <= __n2 + 1, __n2 == m, m == p.tenor.n(), start_idx == s, s >= 1, m < usize::MAX - 1, params == p, p.ok(), psi_d@.len() == m, psi_f@.len() == m, forall|j: int| 0 <= j < m ==> (#[trigger] psi_d@[j])@ == p.domestic.psi_s(p.tenor, t@, j + 1), forall|j: int| 0 <= j < m ==> (#[trigger] psi_f@[j])@ == p.foreign.psi_s(p.tenor, t@, j + 1), two_bc@ == p.cross(t@, s as int, __k2 - 1),
    decreases __n2 + 1 - __k2
//@loop 3
    invariant s <= __k3 <= __n3 + 1, __n3 == m, m == p.tenor.n(), start_idx == s, s <= j <= m, s >= 1, m < usize::MAX - 1, params == p, p.ok(), psi_d@.len() == m, psi_f@.len() == m, forall|j: int| 0 <= j < m ==> (#[trigger] psi_d@[j])@ == p.domestic.psi_s(p.tenor, t@, j + 1), forall|j: int| 0 <= j < m ==> (#[trigger] psi_f@[j])@ == p.foreign.psi_s(p.tenor, t@, j + 1), two_bc@ == p.cross_row(t@, p.cross(t@, s as int, j - 1), s as int, j as int, __k3 - 1),
    decreases __n3 + 1 - __k3
//@loop 3 begin
    proof { assert(p.correlations.cross_rate_corr@[j - 1]@.len() == m); }
//@end
