// FX with two Libor market models: parameters and frozen-rate coefficients, contracts discharged against src/models/forex/fx_hlmm.rs
//@type String => Str
//@item src/models/forex/fx_hlmm.rs :: struct LiborTenor
//@item src/models/forex/fx_hlmm.rs :: struct DdSvLmm
//@item src/models/forex/fx_hlmm.rs :: struct FxHlmmCorrelations
//@item src/models/forex/fx_hlmm.rs :: struct FxHlmmParams
pub open spec fn at(l: Seq<Vec<R>>, i: int, j: int) -> real { l[i]@[j]@ }
impl LiborTenor {
    pub open spec fn n_s(&self) -> int { self.libors@.len() as int }
    pub open spec fn d(&self, j: int) -> real { self.dates@[j]@ }
    pub open spec fn ok(&self) -> bool {
        &&& self.dates@.len() == self.n_s() + 1
        &&& self.d(0) >= 0real
        &&& forall|i: int, j: int| 0 <= i < j < self.dates@.len() ==> (#[trigger] self.dates@[i])@ < (#[trigger] self.dates@[j])@
    }
    pub open spec fn t(&self, j: int) -> real { self.d(j) - self.d(j - 1) }
    // the first date from the k-th on that does not lie before t, the last if none
    pub open spec fn m_from(&self, t: real, k: int) -> int decreases self.n_s() + 1 - k { if k > self.n_s() { self.n_s() } else if t <= self.d(k) { k } else { self.m_from(t, k + 1) } }
    pub open spec fn m_s(&self, t: real) -> int { self.m_from(t, 0) }
}
proof fn lemma_m(q: LiborTenor, t: real, k: int) requires 0 <= k ensures q.m_from(t, k) <= q.n_s(), k <= q.n_s() ==> q.m_from(t, k) >= k decreases q.n_s() + 1 - k { if k <= q.n_s() && !(t <= q.d(k)) { lemma_m(q, t, k + 1); } }
//@fn src/models/forex/fx_hlmm.rs impl LiborTenor :: new => impl LiborTenor
//@params ds, ls
//@spec
    requires (LiborTenor { dates: ds, libors: ls }).ok()
    ensures r.dates == ds, r.libors == ls
//@entry
    let ghost q = LiborTenor { dates: ds, libors: ls };
    proof { assert(q.dates@ =~= ds@ && q.libors@ =~= ls@); assert(q.d(0) == ds@[0]@); }
//@loop 0
    invariant 1 <= __k0 <= __n0, __n0 == ds@.len(), forall|i: int, j: int| 0 <= i < j < ds@.len() ==> (#[trigger] ds@[i])@ < (#[trigger] ds@[j])@, dates == ds,
    decreases __n0 - __k0
//@end
//@fn src/models/forex/fx_hlmm.rs impl LiborTenor :: n => impl LiborTenor
//@spec
    ensures r == self.n_s()
//@end
//@fn src/models/forex/fx_hlmm.rs impl LiborTenor :: tau => impl LiborTenor
//@params k
//@spec
    requires self.ok(), 1 <= k <= self.n_s()
    ensures r@ == self.t(k as int), r@ > 0real
//@entry
    proof { assert(self.dates@[k - 1]@ < self.dates@[k as int]@); }
//@end
//@fn src/models/forex/fx_hlmm.rs impl LiborTenor :: m => impl LiborTenor
//@params t
//@spec
    requires self.ok()
    ensures r == self.m_s(t@), r <= self.n_s()
//@entry
    proof { lemma_m(*self, t@, 0); }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.dates@.len(), __s1@ == self.dates@, self.ok(), self.m_s(t@) == self.m_from(t@, __k0 as int), self.m_s(t@) <= self.n_s(),
    decreases __n0 - __k0
//@end
// a square matrix of correlations
pub open spec fn tol() -> real { 1real / 1000000000000real }
pub open spec fn square(c: Seq<Vec<R>>, n: int) -> bool { c.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] c[i])@.len() == n }
pub open spec fn entry_ok(c: Seq<Vec<R>>, i: int, j: int) -> bool { rabs(at(c, i, j) - at(c, j, i)) <= tol() && rabs(at(c, i, j)) <= 1real + tol() }
pub open spec fn correlations_ok(c: Seq<Vec<R>>, n: int) -> bool {
    square(c, n) && (forall|i: int| 0 <= i < n ==> rabs(#[trigger] at(c, i, i) - 1real) <= tol()) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] entry_ok(c, i, j))
}
impl DdSvLmm {
    pub open spec fn ok(&self, n: int) -> bool {
        self.sigmas@.len() == n && self.betas@.len() == n && correlations_ok(self.libor_corr@, n) && self.lambda@ > 0real && self.eta@ > 0real && self.v_0@ > 0real
    }
    pub open spec fn psi_s(&self, q: LiborTenor, k: int) -> real { let (t, l) = (q.t(k), q.libors@[k - 1]@); t * self.sigmas@[k - 1]@ * l / (1real + t * l) }
}
//@fn src/models/forex/fx_hlmm.rs impl DdSvLmm :: validate => impl DdSvLmm
//@params q
//@spec
    ensures r is Ok <==> self.ok(q.n_s())
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.libor_corr@.len(), __s0@ == self.libor_corr@, n == q.n_s(), self.libor_corr@.len() == n, forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.libor_corr@[i])@.len() == n,
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == n, n == q.n_s(), square(self.libor_corr@, n as int),
        forall|i: int| 0 <= i < __k1 ==> rabs(#[trigger] at(self.libor_corr@, i, i) - 1real) <= tol(), forall|i: int, j: int| 0 <= i < __k1 && 0 <= j < n ==> #[trigger] entry_ok(self.libor_corr@, i, j),
    decreases __n1 - __k1
//@loop 1 begin
    proof { assert(self.libor_corr@[__k1 as int]@.len() == n); let x = at(self.libor_corr@, __k1 as int, __k1 as int); }
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == n, n == q.n_s(), square(self.libor_corr@, n as int), 0 <= i < n, forall|j: int| 0 <= j < __k2 ==> #[trigger] entry_ok(self.libor_corr@, i as int, j),
    decreases __n2 - __k2
//@loop 2 begin
    proof { assert(self.libor_corr@[i as int]@.len() == n && self.libor_corr@[__k2 as int]@.len() == n); let e = entry_ok(self.libor_corr@, i as int, __k2 as int); }
//@end
impl FxHlmmCorrelations {
    pub open spec fn ok(&self, n: int) -> bool {
        &&& rabs(self.rho_xi_sigma@) <= 1real + tol()
        &&& self.rho_xi_d@.len() == n && self.rho_xi_f@.len() == n && square(self.libor_cross_corr@, n)
        &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> rabs(#[trigger] at(self.libor_cross_corr@, i, j)) <= 1real + tol()
        &&& forall|i: int| 0 <= i < n ==> rabs((#[trigger] self.rho_xi_d@[i])@) <= 1real + tol()
        &&& forall|i: int| 0 <= i < n ==> rabs((#[trigger] self.rho_xi_f@[i])@) <= 1real + tol()
    }
}
//@fn src/models/forex/fx_hlmm.rs impl FxHlmmCorrelations :: validate => impl FxHlmmCorrelations
//@params q
//@spec
    ensures r is Ok <==> self.ok(q.n_s())
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.libor_cross_corr@.len(), __s0@ == self.libor_cross_corr@, n == q.n_s(), self.libor_cross_corr@.len() == n,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.libor_cross_corr@[i])@.len() == n, forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < n ==> rabs(#[trigger] at(self.libor_cross_corr@, i, j)) <= 1real + tol(),
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == row@.len(), __s1@ == row@, n == q.n_s(), row@.len() == n, 0 <= __k0 - 1 < self.libor_cross_corr@.len(), row@ == self.libor_cross_corr@[__k0 - 1]@,
        forall|j: int| 0 <= j < __k1 ==> rabs(#[trigger] at(self.libor_cross_corr@, __k0 - 1, j)) <= 1real + tol(),
    decreases __n1 - __k1
//@loop 1 begin
    let ghost x = at(self.libor_cross_corr@, __k0 - 1, __k1 as int);
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == self.rho_xi_d@.len(), __s3@ == self.rho_xi_d@, forall|i: int| 0 <= i < __k2 ==> rabs((#[trigger] self.rho_xi_d@[i])@) <= 1real + tol(),
    decreases __n2 - __k2
//@loop 3
    invariant 0 <= __k3 <= __n3, __n3 == self.rho_xi_f@.len(), __s5@ == self.rho_xi_f@, forall|i: int| 0 <= i < __k3 ==> rabs((#[trigger] self.rho_xi_f@[i])@) <= 1real + tol(),
    decreases __n3 - __k3
//@end
impl FxHlmmParams {
    pub open spec fn valid(&self) -> bool { self.domestic.ok(self.tenor.n_s()) && self.foreign.ok(self.tenor.n_s()) && self.correlations.ok(self.tenor.n_s()) }
    // what the constructors promise, and rates above -1/tau
    pub open spec fn ok(&self) -> bool { self.valid() && self.tenor.ok() && forall|k: int| 1 <= k <= self.tenor.n_s() ==> 1real + self.tenor.t(k) * (#[trigger] self.tenor.libors@[k - 1])@ > 0real }
}
//@fn src/models/forex/fx_hlmm.rs impl FxHlmmParams :: validate => impl FxHlmmParams
//@spec
    ensures r is Ok <==> self.valid()
//@end
pub open spec fn rates_ok(q: LiborTenor) -> bool { q.ok() && forall|k: int| 1 <= k <= q.n_s() ==> 1real + q.t(k) * (#[trigger] q.libors@[k - 1])@ > 0real }
//@fn src/models/forex/fx_hlmm.rs impl DdSvLmm :: psi => impl DdSvLmm
//@local __acc0: Vec<R>
//@params q
//@spec
    requires rates_ok(*q), self.sigmas@.len() == q.n_s()
    ensures r@.len() == q.n_s(), forall|j: int| 0 <= j < q.n_s() ==> (#[trigger] r@[j])@ == self.psi_s(*q, j + 1)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == n, __lo1 == 0, n == q.n_s(), tenor == q, rates_ok(*q), self.sigmas@.len() == n, __acc0@.len() == __k0, forall|j: int| 0 <= j < __k0 ==> (#[trigger] __acc0@[j])@ == self.psi_s(*q, j + 1),
    decreases __n0 - __k0
//@loop 0 begin
    proof { let l = q.libors@[__k0 + 1 - 1]; }
//@end
// the variance of the sum of the rates from the s-th on: squares, then twice the products
pub open spec fn squares(m: DdSvLmm, q: LiborTenor, s: int, j: int) -> real decreases j - s + 1 { if j < s { 0real } else { squares(m, q, s, j - 1) + m.psi_s(q, j) * m.psi_s(q, j) } }
pub open spec fn products(m: DdSvLmm, q: LiborTenor, x: real, i: int, j: int) -> real decreases j - i { if j <= i { x } else { products(m, q, x, i, j - 1) + 2real * m.psi_s(q, i) * m.psi_s(q, j) * at(m.libor_corr@, i - 1, j - 1) } }
pub open spec fn pairs(m: DdSvLmm, q: LiborTenor, s: int, i: int) -> real decreases i - s + 1 { if i < s { squares(m, q, s, q.n_s()) } else { products(m, q, pairs(m, q, s, i - 1), i, q.n_s()) } }
pub open spec fn side_s(m: DdSvLmm, q: LiborTenor, s: int) -> real { if s > q.n_s() { 0real } else { pairs(m, q, s, q.n_s()) } }
//@fn src/models/forex/fx_hlmm.rs fn compute_a_side
//@params lmm, q, s, corr
//@spec
    requires rates_ok(*q), lmm.sigmas@.len() == q.n_s(), square(lmm.libor_corr@, q.n_s()), corr@ == lmm.libor_corr@, s >= 1, q.n_s() < usize::MAX - 1
    ensures r@ == side_s(*lmm, *q, s as int)
//@loop 0
    invariant s <= __k0 <= __n0 + 1, __n0 == n, n == q.n_s(), start_idx == s, s >= 1, n < usize::MAX - 1, psi@.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] psi@[j])@ == lmm.psi_s(*q, j + 1), total@ == squares(*lmm, *q, s as int, __k0 - 1),
    decreases __n0 + 1 - __k0
//@loop 1
    invariant s <= __k1 <= __n1 + 1, __n1 == n, n == q.n_s(), start_idx == s, s >= 1, n < usize::MAX - 1, psi@.len() == n, square(lmm.libor_corr@, n as int), corr@ == lmm.libor_corr@, forall|j: int| 0 <= j < n ==> (#[trigger] psi@[j])@ == lmm.psi_s(*q, j + 1), total@ == pairs(*lmm, *q, s as int, __k1 - 1),
    decreases __n1 + 1 - __k1
//@loop 2
    invariant i + 1 <= __k2 <= __n2 + 1, __n2 == n, n == q.n_s(), s <= i <= n, s >= 1, n < usize::MAX - 1, psi@.len() == n, square(lmm.libor_corr@, n as int), corr@ == lmm.libor_corr@, forall|j: int| 0 <= j < n ==> (#[trigger] psi@[j])@ == lmm.psi_s(*q, j + 1), total@ == products(*lmm, *q, pairs(*lmm, *q, s as int, i - 1), i as int, __k2 - 1),
    decreases __n2 + 1 - __k2
//@loop 2 begin
    proof { assert(lmm.libor_corr@[i - 1]@.len() == n); }
//@end
//@fn src/models/forex/fx_hlmm.rs fn compute_a_d
//@params p, s
//@spec
    requires p.ok(), s >= 1, p.tenor.n_s() < usize::MAX - 1
    ensures r@ == side_s(p.domestic, p.tenor, s as int)
//@end
//@fn src/models/forex/fx_hlmm.rs fn compute_a_f
//@params p, s
//@spec
    requires p.ok(), s >= 1, p.tenor.n_s() < usize::MAX - 1
    ensures r@ == side_s(p.foreign, p.tenor, s as int)
//@end
// the cross terms
impl DdSvLmm { pub open spec fn cir(&self) -> CirProcess { CirProcess { kappa: self.lambda, theta: self.v_0, gamma: self.eta, sigma_0: self.v_0 } } }
pub open spec fn load(m: DdSvLmm, q: LiborTenor, c: Seq<R>, s: int, j: int) -> real decreases j - s + 1 { if j < s { 0real } else { load(m, q, c, s, j - 1) + m.psi_s(q, j) * c[j - 1]@ } }
impl FxHlmmParams {
    pub open spec fn cross_row(&self, x: real, s: int, j: int, k: int) -> real decreases k - s + 1 { if k < s { x } else { self.cross_row(x, s, j, k - 1) + self.domestic.psi_s(self.tenor, j) * self.foreign.psi_s(self.tenor, k) * at(self.correlations.libor_cross_corr@, j - 1, k - 1) } }
    pub open spec fn cross(&self, s: int, j: int) -> real decreases j - s + 1 { if j < s { 0real } else { self.cross_row(self.cross(s, j - 1), s, j, self.tenor.n_s()) } }
    pub open spec fn f_s(&self, t: real, s: int) -> real {
        let n = self.tenor.n_s();
        let (x, d, f) = (self.heston.phi_s(t), self.domestic.cir().phi_s(t), self.foreign.cir().phi_s(t));
        if s > n { 0real } else {
            load(self.domestic, self.tenor, self.correlations.rho_xi_d@, s, n) * (2real * x * d) - load(self.foreign, self.tenor, self.correlations.rho_xi_f@, s, n) * (2real * x * f) - self.cross(s, n) * (2real * d * f)
        }
    }
}
//@fn src/models/forex/fx_hlmm.rs fn compute_f_linearised
//@params p, time, s
//@spec
    requires p.ok(), p.heston.kappa@ > 0real, s >= 1, p.tenor.n_s() < usize::MAX - 1
    ensures r@ == p.f_s(time@, s as int)
//@loop 0
    invariant s <= __k0 <= __n0 + 1, __n0 == n, n == p.tenor.n_s(), start_idx == s, s >= 1, n < usize::MAX - 1, params == p, p.ok(), psi_d@.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] psi_d@[j])@ == p.domestic.psi_s(p.tenor, j + 1), two_ab@ == load(p.domestic, p.tenor, p.correlations.rho_xi_d@, s as int, __k0 - 1),
    decreases __n0 + 1 - __k0
//@loop 1
    invariant s <= __k1 <= __n1 + 1, __n1 == n, n == p.tenor.n_s(), start_idx == s, s >= 1, n < usize::MAX - 1, params == p, p.ok(), psi_f@.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] psi_f@[j])@ == p.foreign.psi_s(p.tenor, j + 1), two_ac@ == load(p.foreign, p.tenor, p.correlations.rho_xi_f@, s as int, __k1 - 1),
    decreases __n1 + 1 - __k1
//@loop 2
    invariant s <= __k2 <= __n2 + 1, __n2 == n, n == p.tenor.n_s(), start_idx == s, s >= 1, n < usize::MAX - 1, params == p, p.ok(), psi_d@.len() == n, psi_f@.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] psi_d@[j])@ == p.domestic.psi_s(p.tenor, j + 1), forall|j: int| 0 <= j < n ==> (#[trigger] psi_f@[j])@ == p.foreign.psi_s(p.tenor, j + 1), two_bc@ == p.cross(s as int, __k2 - 1),
    decreases __n2 + 1 - __k2
//@loop 3
    invariant s <= __k3 <= __n3 + 1, __n3 == n, n == p.tenor.n_s(), start_idx == s, s <= j <= n, s >= 1, n < usize::MAX - 1, params == p, p.ok(), psi_d@.len() == n, psi_f@.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] psi_d@[j])@ == p.domestic.psi_s(p.tenor, j + 1), forall|j: int| 0 <= j < n ==> (#[trigger] psi_f@[j])@ == p.foreign.psi_s(p.tenor, j + 1), two_bc@ == p.cross_row(p.cross(s as int, j - 1), s as int, j as int, __k3 - 1),
    decreases __n3 + 1 - __k3
//@loop 3 begin
    proof { assert(p.correlations.libor_cross_corr@[j - 1]@.len() == n); }
//@end
