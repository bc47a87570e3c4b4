// FX with two forward market models, simulated: contracts discharged against src/models/forex/fx_fmm_simulator.rs
//@item src/models/forex/fx_fmm_simulator.rs :: struct FxFmmState
//@item src/models/forex/fx_fmm_simulator.rs :: struct FxFmmSimulator
//@fn src/models/forex/fx_fmm_simulator.rs fn cholesky
//@params c
//@spec
    requires square(c@, c@.len() as int), c@.len() < usize::MAX
    ensures r is Some ==> square(r.unwrap()@, c@.len() as int) && factors(r.unwrap()@, c@, c@.len() as int, c@.len() as int, 0),
        r is None ==> exists|l: Mx, k: int| 0 <= k < c@.len() && square(l, c@.len() as int) && #[trigger] factors(l, c@, c@.len() as int, k, k) && dot(l, k, k, k) >= at(c@, k, k)
//@entry
    broadcast use axiom_sqrt;
    let ghost z = c@.len() as int;
//@loop 0
    invariant 0 <= __k0 <= n, __n0 == n, z == n, z == c@.len(), z < usize::MAX, m@ == c@, square(c@, z), square(l@, z), rows(c@, l@, z, __k0 as int, 0),
    decreases n - __k0
//@loop 1
    invariant 0 <= __k1 <= i + 1, __n1 == i, i < n, z == n, z == c@.len(), z < usize::MAX, m@ == c@, square(c@, z), square(l@, z), rows(c@, l@, z, i as int, __k1 as int),
    decreases i + 1 - __k1
//@loop 1 begin
    let ghost l0 = l@;
    let ghost k = __k1 as int;
    proof {
        assert(rem(c@, l@, i as int, k, 0) == at(c@, i as int, k));
        if i != k { assert(entry(c@, l@, k, k)); let s = rem(c@, l@, k, k, k); assert(s > 0real); assert(rsqrt(s) != 0real) by { broadcast use axiom_sqrt; if rsqrt(s) == 0real { assert(rsqrt(s) * rsqrt(s) == 0real) by (nonlinear_arith) requires rsqrt(s) == 0real; } } }
    }
//@loop 1 end
    proof {
        assert forall|a: int, b: int| 0 <= a < z && 0 <= b < z && !(a == i && b == j) implies #[trigger] at(l@, a, b) == at(l0, a, b) by {}
        lemma_rem(c@, l0, l@, i as int, j as int, j as int);
        assert(entry(c@, l@, i as int, j as int));
        lemma_more(c@, l0, l@, z, i as int, j as int);
    }
//@loop 2
    invariant 0 <= __k2 <= j, __n2 == j, j <= i, i < n, z == n, m@ == c@, square(c@, z), square(l@, z), sum@ == rem(c@, l@, i as int, j as int, __k2 as int),
    decreases j - __k2
//@exit
    proof { if rows(c@, l@, z, z, 0) { lemma_factors(c@, l@, z, z, 0); }
        assert forall|k: int| 0 <= k < z && #[trigger] rows(c@, l@, z, k, k) && rem(c@, l@, k, k, k) <= 0real implies factors(l@, c@, z, k, k) && dot(l@, k, k, k) >= at(c@, k, k) by { lemma_factors(c@, l@, z, k, k); lemma_dot(c@, l@, k, k, k); } }
//@end
//@fn src/models/forex/fx_fmm_simulator.rs fn side_adapted_vol
//@params s, j, x
//@spec
    requires 1 <= j <= s.sigmas@.len()
    ensures r@ == s.sigmas@[j - 1]@
//@end
// the correlation of the drivers: spot, its variance, the domestic rates, the foreign rates
impl FxFmmParams {
    pub open spec fn with_rate(&self, i: int, j: int) -> real {
        let n = self.tenor.n();
        if i == 0 { if j < n { self.correlations.rho_xi_d@[j]@ } else { self.correlations.rho_xi_f@[j - n]@ } } else { if j < n { self.correlations.rho_sigma_d@[j]@ } else { self.correlations.rho_sigma_f@[j - n]@ } }
    }
    pub open spec fn across(&self, a: int, b: int) -> real { (5real / 10real) * (at(self.correlations.cross_rate_corr@, a, b) + at(self.correlations.cross_rate_corr@, b, a)) }
    pub open spec fn joint(&self, i: int, j: int) -> real {
        let n = self.tenor.n();
        if i < 2 && j < 2 { if i == j { 1real } else { self.correlations.rho_xi_sigma@ } }
        else if i < 2 { self.with_rate(i, j - 2) } else if j < 2 { self.with_rate(j, i - 2) }
        else if i < 2 + n && j < 2 + n { at(self.domestic.rate_corr@, i - 2, j - 2) }
        else if i >= 2 + n && j >= 2 + n { at(self.foreign.rate_corr@, i - 2 - n, j - 2 - n) }
        else if i < 2 + n { self.across(i - 2, j - 2 - n) } else { self.across(j - 2, i - 2 - n) }
    }
    // which entries are in place: the first k1 and k2 rates beside spot and variance, the first rows and entries of the blocks
    pub open spec fn placed(&self, k: Seq<int>, i: int, j: int) -> bool {
        let n = self.tenor.n();
        let b = |x: int| if x < 2 + n { x - 2 } else { x - 2 - n };
        if i < 2 && j < 2 { true }
        else if i < 2 { b(j) < k[i] } else if j < 2 { b(i) < k[j] }
        else if i < 2 + n && j < 2 + n { i - 2 < k[2] || (i - 2 == k[2] && j - 2 < k[3]) }
        else if i >= 2 + n && j >= 2 + n { b(i) < k[4] || (b(i) == k[4] && b(j) < k[5]) }
        else { let (d, f) = if i < 2 + n { (b(i), b(j)) } else { (b(j), b(i)) }; d < k[6] || (d == k[6] && f < k[7]) }
    }
    pub open spec fn filled(&self, c: Mx, k: Seq<int>) -> bool {
        let z = 2 + 2 * self.tenor.n();
        square(c, z) && forall|i: int, j: int| 0 <= i < z && 0 <= j < z && self.placed(k, i, j) ==> #[trigger] at(c, i, j) == self.joint(i, j)
    }
}
//@fn src/models/forex/fx_fmm_simulator.rs fn build_joint_correlation
//@params p
//@spec
    requires p.valid(), p.tenor.n() < 1000000
    ensures p.describes(r@)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == n, n == 2 + 2 * p.tenor.n(), square(c@, n as int), forall|i: int| 0 <= i < __k0 ==> #[trigger] at(c@, i, i) == 1real,
    decreases __n0 - __k0
//@loop 0 begin
    let ghost c0 = c@;
//@loop 0 end
    proof { assert forall|i: int| 0 <= i < __k0 implies #[trigger] at(c@, i, i) == 1real by { let x = at(c0, i, i); } }
//@loop 0 after
    proof { assert(at(c@, 0, 0) == 1real && at(c@, 1, 1) == 1real); }
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == m, m == p.tenor.n(), m < 1000000, n == 2 + 2 * m, p.valid(), p.filled(c@, seq![__k1 as int, 0, 0, 0, 0, 0, 0, 0]),
    decreases __n1 - __k1
//@loop 1 begin
    let ghost c0 = c@;
//@loop 1 end
    proof { let k = seq![__k1 as int, 0, 0, 0, 0, 0, 0, 0];
        assert forall|a: int, b: int| 0 <= a < c0.len() && 0 <= b < c0.len() && p.placed(k, a, b) implies #[trigger] at(c@, a, b) == p.joint(a, b) by { let x = at(c0, a, b); } }
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == m, m == p.tenor.n(), m < 1000000, n == 2 + 2 * m, p.valid(), p.filled(c@, seq![m as int, __k2 as int, 0, 0, 0, 0, 0, 0]),
    decreases __n2 - __k2
//@loop 2 begin
    let ghost c0 = c@;
//@loop 2 end
    proof { let k = seq![m as int, __k2 as int, 0, 0, 0, 0, 0, 0];
        assert forall|a: int, b: int| 0 <= a < c0.len() && 0 <= b < c0.len() && p.placed(k, a, b) implies #[trigger] at(c@, a, b) == p.joint(a, b) by { let x = at(c0, a, b); } }
//@loop 3
    invariant 0 <= __k3 <= __n3, __n3 == m, m == p.tenor.n(), m < 1000000, n == 2 + 2 * m, p.valid(), p.filled(c@, seq![m as int, m as int, __k3 as int, 0, 0, 0, 0, 0]),
    decreases __n3 - __k3
//@loop 4
    invariant 0 <= __k4 <= __n4, __n4 == m, m == p.tenor.n(), m < 1000000, n == 2 + 2 * m, i < m, p.valid(), p.filled(c@, seq![m as int, m as int, i as int, __k4 as int, 0, 0, 0, 0]),
    decreases __n4 - __k4
//@loop 4 begin
    let ghost c0 = c@;
    proof { assert(p.domestic.rate_corr@[i as int]@.len() == m); }
//@loop 4 end
    proof { let k = seq![m as int, m as int, i as int, __k4 as int, 0, 0, 0, 0];
        assert forall|a: int, b: int| 0 <= a < c0.len() && 0 <= b < c0.len() && p.placed(k, a, b) implies #[trigger] at(c@, a, b) == p.joint(a, b) by { let x = at(c0, a, b); } }
//@loop 5
    invariant 0 <= __k5 <= __n5, __n5 == m, m == p.tenor.n(), m < 1000000, n == 2 + 2 * m, p.valid(), p.filled(c@, seq![m as int, m as int, m as int, 0, __k5 as int, 0, 0, 0]),
    decreases __n5 - __k5
//@loop 6
    invariant 0 <= __k6 <= __n6, __n6 == m, m == p.tenor.n(), m < 1000000, n == 2 + 2 * m, i < m, p.valid(), p.filled(c@, seq![m as int, m as int, m as int, 0, i as int, __k6 as int, 0, 0]),
    decreases __n6 - __k6
//@loop 6 begin
    let ghost c0 = c@;
    proof { assert(p.foreign.rate_corr@[i as int]@.len() == m); }
//@loop 6 end
    proof { let k = seq![m as int, m as int, m as int, 0, i as int, __k6 as int, 0, 0];
        assert forall|a: int, b: int| 0 <= a < c0.len() && 0 <= b < c0.len() && p.placed(k, a, b) implies #[trigger] at(c@, a, b) == p.joint(a, b) by { let x = at(c0, a, b); } }
//@loop 7
    invariant 0 <= __k7 <= __n7, __n7 == m, m == p.tenor.n(), m < 1000000, n == 2 + 2 * m, p.valid(), p.filled(c@, seq![m as int, m as int, m as int, 0, m as int, 0, __k7 as int, 0]),
    decreases __n7 - __k7
//@loop 8
    invariant 0 <= __k8 <= __n8, __n8 == m, m == p.tenor.n(), m < 1000000, n == 2 + 2 * m, i < m, p.valid(), p.filled(c@, seq![m as int, m as int, m as int, 0, m as int, 0, i as int, __k8 as int]),
    decreases __n8 - __k8
//@loop 8 begin
    let ghost c0 = c@;
    proof { assert(p.correlations.cross_rate_corr@[i as int]@.len() == m && p.correlations.cross_rate_corr@[__k8 as int]@.len() == m); }
//@loop 8 end
    proof { let k = seq![m as int, m as int, m as int, 0, m as int, 0, i as int, __k8 as int];
        assert forall|a: int, b: int| 0 <= a < c0.len() && 0 <= b < c0.len() && p.placed(k, a, b) implies #[trigger] at(c@, a, b) == p.joint(a, b) by { let x = at(c0, a, b); } }
//@end
// one currency's rates, and the whole state
pub struct Sd { pub r: Seq<real>, pub y: Seq<real>, pub rs: Seq<real>, pub ys: Seq<real>, pub x: real }
pub struct Xs { pub fx: real, pub v: real, pub d: Sd, pub f: Sd, pub t: real }
pub open spec fn reals(s: Seq<R>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i]@) }
impl Sd {
    pub open spec fn live(&self, q: FmmTenor) -> bool { self.r.len() == q.n() && forall|j: int| 1 <= j <= q.n() ==> 1real + #[trigger] q.t(j) * self.r[j - 1] > 0real }
    pub open spec fn sized(&self, n: int) -> bool { self.r.len() == n && self.y.len() == n && self.rs.len() == n && self.ys.len() == n }
}
impl FxFmmState {
    pub open spec fn of(&self) -> Xs { Xs {
        fx: self.fx@, v: self.variance@,
        d: Sd { r: reals(self.rates_d@), y: reals(self.y_diag_d@), rs: reals(self.rates_at_start_d@), ys: reals(self.y_at_start_d@), x: self.x_active_d@ },
        f: Sd { r: reals(self.rates_f@), y: reals(self.y_diag_f@), rs: reals(self.rates_at_start_f@), ys: reals(self.y_at_start_f@), x: self.x_active_f@ },
        t: self.t@ } }
}
impl Xs {
    // spot is positive, and so is the accrual of every period in either currency
    pub open spec fn live(&self, q: FmmTenor) -> bool { self.fx > 0real && self.d.live(q) && self.f.live(q) }
    pub open spec fn sized(&self, n: int) -> bool { self.d.sized(n) && self.f.sized(n) }
    pub open spec fn side(&self, f: bool) -> Sd { if f { self.f } else { self.d } }
}
impl FmmSide {
    // what rate i puts into the drift of the rates after it, over a step with midpoint u
    pub open spec fn weight(&self, q: FmmTenor, i: int, u: real, x: real) -> real { self.sigmas@[i - 1]@ * q.gam(i, u) * q.t(i) / (1real + q.t(i) * x) }
    pub open spec fn pull(&self, q: FmmTenor, lo: int, hi: int, j: int, u: real, r: Seq<real>) -> real decreases hi - lo { if hi <= lo { 0real } else { self.pull(q, lo, hi - 1, j, u, r) + at(self.rate_corr@, hi - 2, j - 1) * self.weight(q, hi - 1, u, r[hi - 2]) } }
    pub open spec fn next_y(&self, q: FmmTenor, s: Sd, t: real, dt: real, j: int) -> real {
        if t >= q.d(j) { s.y[j - 1] } else { s.y[j - 1] + rpow(self.sigmas@[j - 1]@ / (s.r[j - 1] + 1real / q.t(j)), 2) * rmin(q.d(j) - t, dt) }
    }
}
// the period of rate j begins with this step
pub open spec fn enters(q: FmmTenor, t: real, dt: real, j: int) -> bool { q.first(t, 1) < j <= q.first(t + dt, 1) && j <= q.n() }
impl FxFmmParams {
    pub open spec fn side(&self, f: bool) -> FmmSide { if f { self.foreign } else { self.domestic } }
    pub open spec fn inc(&self, l: Mx, g: ChaCha20Rng, f: bool, j: int, dt: real) -> real { incr(l, g, if f { 2 + self.tenor.n() + (j - 1) } else { 2 + (j - 1) }, dt) }
    // foreign rates drift down by their covariance with spot
    pub open spec fn quanto(&self, f: bool, v: real, a: real, j: int) -> real { if f { a * self.correlations.rho_xi_f@[j - 1]@ * rsqrt(rmax(v, 0real)) } else { 0real } }
    // the next value of rate j
    pub open spec fn next(&self, l: Mx, g: ChaCha20Rng, s: Xs, dt: real, f: bool, j: int) -> real {
        let (q, m, u, k, x) = (self.tenor, self.side(f), s.t + (5real / 10real) * dt, self.tenor.first(s.t, 1), s.side(f).r[j - 1]);
        let (a, c) = (m.sigmas@[j - 1]@, q.gam(j, u));
        if j < k || c == 0real { x } else { x + (a * c * m.pull(q, k, j + 1, j, u, s.side(f).r) - self.quanto(f, s.v, a * c, j)) * dt + a * c * self.inc(l, g, f, j, dt) }
    }
    pub open spec fn next_y(&self, s: Xs, dt: real, f: bool, j: int) -> real { self.side(f).next_y(self.tenor, s.side(f), s.t, dt, j) }
    pub open spec fn next_x(&self, l: Mx, g: ChaCha20Rng, s: Xs, dt: real, f: bool) -> real {
        let (q, k, z) = (self.tenor, self.tenor.first(s.t, 1), s.side(f));
        if k > q.n() || s.t <= q.d(k - 1) || s.t >= q.d(k) { z.x } else {
            let mid = (5real / 10real) * (z.r[k - 1] + self.next(l, g, s, dt, f, k));
            z.x + (1real / q.t(k) * (self.next_y(s, dt, f, k) - z.ys[k - 1]) * dt + self.side(f).sigmas@[k - 1]@ / (mid + 1real / q.t(k)) * self.inc(l, g, f, k, dt))
        }
    }
    pub open spec fn evolve_side(&self, l: Mx, g: ChaCha20Rng, s: Xs, dt: real, f: bool) -> Sd {
        let (q, z, n) = (self.tenor, s.side(f), self.tenor.n() as nat);
        Sd {
            r: Seq::new(n, |i: int| self.next(l, g, s, dt, f, i + 1)),
            y: Seq::new(n, |i: int| self.next_y(s, dt, f, i + 1)),
            rs: Seq::new(n, |i: int| if enters(q, s.t, dt, i + 1) { self.next(l, g, s, dt, f, i + 1) } else { z.rs[i] }),
            ys: Seq::new(n, |i: int| if enters(q, s.t, dt, i + 1) { self.next_y(s, dt, f, i + 1) } else { z.ys[i] }),
            x: if enters(q, s.t, dt, q.first(s.t, 1) + 1) { 0real } else { self.next_x(l, g, s, dt, f) },
        }
    }
    pub open spec fn next_v(&self, l: Mx, g: ChaCha20Rng, v: real, dt: real) -> real { let w = rmax(v, 0real); rmax(w + self.heston.kappa@ * (self.heston.theta@ - w) * dt + self.heston.gamma@ * rsqrt(w) * incr(l, g, 1, dt), 0real) }
    pub open spec fn next_fx(&self, l: Mx, g: ChaCha20Rng, s: Xs, dt: real) -> real {
        let (w, e) = (rmax(s.v, 0real), self.tenor.first(s.t, 1));
        let k = if e < self.tenor.n() { e } else { self.tenor.n() };
        rexp(rln(s.fx) + (s.d.r[k - 1] - s.f.r[k - 1] - (5real / 10real) * w) * dt + rsqrt(w) * incr(l, g, 0, dt))
    }
    pub open spec fn evolve(&self, l: Mx, g: ChaCha20Rng, s: Xs, dt: real) -> Xs {
        Xs { fx: self.next_fx(l, g, s, dt), v: self.next_v(l, g, s.v, dt), d: self.evolve_side(l, g, s, dt, false), f: self.evolve_side(l, g, s, dt, true), t: s.t + dt }
    }
    pub open spec fn start_side(&self) -> Sd {
        let (q, n) = (self.tenor, self.tenor.n() as nat);
        Sd { r: reals(q.initial_rates@), y: Seq::new(n, |i: int| 0real), rs: Seq::new(n, |i: int| if i == 0 { q.initial_rates@[0]@ } else { 0real }), ys: Seq::new(n, |i: int| 0real), x: 0real }
    }
    pub open spec fn start(&self) -> Xs { Xs { fx: self.fx_0@, v: self.heston.sigma_0@, d: self.start_side(), f: self.start_side(), t: 0real } }
    pub open spec fn describes(&self, c: Mx) -> bool { let z = 2 + 2 * self.tenor.n(); square(c, z) && forall|i: int, j: int| 0 <= i < z && 0 <= j < z ==> #[trigger] at(c, i, j) == self.joint(i, j) }
    // the rotation: lower triangular, positive diagonal, its square the joint correlation in rows before k and the first k entries of row k
    pub open spec fn rotation(&self, l: Mx, k: int) -> bool {
        let z = 2 + 2 * self.tenor.n();
        &&& square(l, z)
        &&& forall|i: int, j: int| 0 <= j <= i < z && (i < k || (i == k && j < k)) ==> #[trigger] dot(l, i, j, j + 1) == self.joint(i, j)
        &&& forall|i: int| 0 <= i < k ==> #[trigger] at(l, i, i) > 0real
        &&& forall|i: int, j: int| 0 <= i < j < z ==> #[trigger] at(l, i, j) == 0real
    }
}
impl FxFmmSimulator {
    pub open spec fn ok(&self) -> bool { self.params.ok() && self.params.tenor.n() < 1000000 && square(self.chol@, 2 + 2 * self.params.tenor.n()) }
    pub open spec fn same(&self, o: &Self) -> bool { self.params == o.params && self.chol == o.chol }
}
//@fn src/models/forex/fx_fmm_simulator.rs impl FxFmmState :: initial => impl FxFmmState
//@params p
//@spec
    requires p.ok()
    ensures r.of() == p.start(), r.of().sized(p.tenor.n())
//@exit
    proof { let (a, b) = (r.of(), p.start()); assert(a.d.r =~= b.d.r); assert(a.d.y =~= b.d.y); assert(a.d.rs =~= b.d.rs); assert(a.d.ys =~= b.d.ys); assert(a.f.r =~= b.f.r); assert(a.f.y =~= b.f.y); assert(a.f.rs =~= b.f.rs); assert(a.f.ys =~= b.f.ys); }
//@end
//@fn src/models/forex/fx_fmm_simulator.rs impl FxFmmSimulator :: new => impl FxFmmSimulator
//@params p, seed
//@spec
    requires p.tenor.n() < 1000000
    ensures r is Ok ==> p.valid() && r.unwrap().params == p && r.unwrap().rng == seeded(seed) && p.rotation(r.unwrap().chol@, 2 + 2 * p.tenor.n()),
        r is Err ==> !p.valid() || exists|l: Mx, k: int| 0 <= k < 2 + 2 * p.tenor.n() && #[trigger] p.rotation(l, k) && dot(l, k, k, k) >= p.joint(k, k)
//@entry
    let ghost z = 2 + 2 * p.tenor.n();
    proof { assert forall|c: Mx, l: Mx, k: int, h: int| p.describes(c) && square(l, z) && 0 <= k <= z && h == (if k < z { k } else { 0 }) && #[trigger] factors(l, c, z, k, h) implies p.rotation(l, k) && (k < z ==> at(c, k, k) == p.joint(k, k)) by {
        assert forall|i: int, j: int| 0 <= j <= i < z && (i < k || (i == k && j < k)) implies #[trigger] dot(l, i, j, j + 1) == p.joint(i, j) by { assert(at(c, i, j) == p.joint(i, j)); }
    } }
//@end
proof fn lemma_level(x: real, w: real) requires 1real + w * x > 0real, w > 0real ensures x + 1real / w > 0real {
    let z = 1real / w;
    assert(z * w == 1real) by (nonlinear_arith) requires w > 0real, z == 1real / w;
    assert(x + z > 0real) by (nonlinear_arith) requires z * w == 1real, 1real + w * x > 0real, w > 0real;
}
proof fn lemma_order(q: FmmTenor, s: real, t: real, j: int) requires s <= t, 1 <= j <= q.n() + 1 ensures q.first(s, j) <= q.first(t, j) decreases q.n() + 1 - j { lemma_first(q, t, j); if j <= q.n() && q.d(j) < s { lemma_order(q, s, t, j + 1); } }
//@fn src/models/forex/fx_fmm_simulator.rs impl FxFmmSimulator :: step => impl FxFmmSimulator
//@local __acc0: Vec<R>
//@local __acc1: Vec<R>
//@flags float-sums
//@params x, dt
//@spec
    requires old(self).ok(), dt@ > 0real, old(x).of().sized(old(self).params.tenor.n()), old(x).of().live(old(self).params.tenor), old(self).params.evolve(old(self).chol@, old(self).rng, old(x).of(), dt@).live(old(self).params.tenor)
    ensures final(self).same(old(self)), final(self).rng == draws(old(self).rng, (2 + 2 * old(self).params.tenor.n()) as nat), final(x).of().sized(old(self).params.tenor.n()), final(x).of() == old(self).params.evolve(old(self).chol@, old(self).rng, old(x).of(), dt@)
//@entry
    broadcast use axiom_sqrt;
    let ghost (g0, w, l, s0, x0) = (self.rng, self.params, self.chol@, x.of(), *x);
    let ghost (nn, e, u) = (w.tenor.n(), w.tenor.first(s0.t, 1), s0.t + (5real / 10real) * dt@);
    let ghost zz = 2 + 2 * nn;
    proof {
        lemma_first(w.tenor, s0.t, 1); lemma_first(w.tenor, s0.t + dt@, 1); lemma_order(w.tenor, s0.t, s0.t + dt@, 1);
        assert forall|j: int| 1 <= j <= nn implies #[trigger] w.tenor.t(j) > 0real && 1real + w.tenor.t(j) * s0.d.r[j - 1] > 0real && s0.d.r[j - 1] + 1real / w.tenor.t(j) > 0real && 1real + w.tenor.t(j) * s0.f.r[j - 1] > 0real && s0.f.r[j - 1] + 1real / w.tenor.t(j) > 0real by {
            assert(w.tenor.dates@[j - 1]@ < w.tenor.dates@[j]@);
            lemma_level(s0.d.r[j - 1], w.tenor.t(j)); lemma_level(s0.f.r[j - 1], w.tenor.t(j));
        }
    }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == zz, __lo1 == 0, __acc0.len() == __k0, self.same(old(self)), self.rng == draws(g0, __k0 as nat), forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0[i])@ == draw(g0, i as nat),
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == zz, zz < 3000000, __s4@ == l, square(l, zz), self.same(old(self)), z.len() == zz, forall|i: int| 0 <= i < zz ==> (#[trigger] z[i])@ == draw(g0, i as nat), sqrt_dt@ == rsqrt(dt@),
        __acc1.len() == __k1, forall|i: int| 0 <= i < __k1 ==> (#[trigger] __acc1[i])@ == incr(l, g0, i, dt@),
    decreases __n1 - __k1
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == i + 1, 0 <= i < zz, square(l, zz), row@ == l[i as int]@, __s8@ == row@, __s9@ == z@, z.len() == zz, forall|i: int| 0 <= i < zz ==> (#[trigger] z[i])@ == draw(g0, i as nat), __acc2@ == mixed(l, g0, i as int, __k2 as int),
    decreases __n2 - __k2
//@loop 3
    invariant 1 <= __k3 <= m + 1, __n3 == m, m == nn, nn == w.tenor.n(), nn < 1000000, self.same(old(self)), self.params == w, w.ok(), p == self.params, tenor == p.tenor, *x == x0, s0 == x0.of(), s0.sized(nn), t_mid@ == u, gamma_mid_d.len() == m, adapted_d.len() == m, drift_weight_d.len() == m,
        forall|j: int| 1 <= j <= nn ==> #[trigger] w.tenor.t(j) > 0real && 1real + w.tenor.t(j) * s0.d.r[j - 1] > 0real,
        forall|i: int| 0 <= i < __k3 - 1 ==> (#[trigger] gamma_mid_d[i])@ == w.tenor.gam(i + 1, u),
        forall|i: int| 0 <= i < __k3 - 1 ==> (#[trigger] adapted_d[i])@ == w.domestic.sigmas[i]@,
        forall|i: int| 0 <= i < __k3 - 1 ==> (#[trigger] drift_weight_d[i])@ == w.domestic.weight(w.tenor, i + 1, u, s0.d.r[i]),
    decreases m + 1 - __k3
//@loop 3 begin
    proof { assert(w.tenor.t(__k3 as int) > 0real); }
//@loop 4
    invariant e <= __k4 <= m + 1, 1 <= e <= m + 1, eta_old == e, __n4 == m, m == nn, nn == w.tenor.n(), nn < 1000000, self.same(old(self)), self.params == w, w.ok(), p == self.params, tenor == p.tenor, *x == x0, s0 == x0.of(), s0.sized(nn), gamma_mid_d.len() == m, adapted_d.len() == m, drift_weight_d.len() == m, dw_d@.len() == m, new_rates_d.len() == m, e == w.tenor.first(s0.t, 1), u == s0.t + (5real / 10real) * dt@, sqrt_sigma@ == rsqrt(rmax(s0.v, 0real)),
        forall|i: int| 0 <= i < m ==> (#[trigger] gamma_mid_d[i])@ == w.tenor.gam(i + 1, u),
        forall|i: int| 0 <= i < m ==> (#[trigger] adapted_d[i])@ == w.domestic.sigmas[i]@,
        forall|i: int| 0 <= i < m ==> (#[trigger] drift_weight_d[i])@ == w.domestic.weight(w.tenor, i + 1, u, s0.d.r[i]),
        forall|i: int| 0 <= i < m ==> (#[trigger] dw_d@[i])@ == w.inc(l, g0, false, i + 1, dt@),
        forall|i: int| 0 <= i < m ==> (#[trigger] new_rates_d[i])@ == (if i + 1 < __k4 { w.next(l, g0, s0, dt@, false, i + 1) } else { s0.d.r[i] }),
    decreases m + 1 - __k4
//@loop 5
    invariant e <= __k5 <= j + 1, 1 <= e <= m + 1, __n5 == j, 1 <= j <= m, m == nn, nn == w.tenor.n(), nn < 1000000, self.params == w, p == self.params, w.ok(), s0 == x0.of(), s0.sized(nn), drift_weight_d.len() == m, forall|i: int| 0 <= i < m ==> (#[trigger] drift_weight_d[i])@ == w.domestic.weight(w.tenor, i + 1, u, s0.d.r[i]),
        sum@ == w.domestic.pull(w.tenor, e, __k5 as int, j as int, u, s0.d.r),
    decreases j + 1 - __k5
//@loop 5 begin
    proof { assert(w.domestic.rate_corr@[__k5 - 1]@.len() == m); }
//@loop 6
    invariant 1 <= __k6 <= m + 1, __n6 == m, m == nn, nn == w.tenor.n(), nn < 1000000, self.same(old(self)), self.params == w, w.ok(), p == self.params, tenor == p.tenor, *x == x0, s0 == x0.of(), s0.sized(nn), t_mid@ == u, gamma_mid_f.len() == m, adapted_f.len() == m, drift_weight_f.len() == m,
        forall|j: int| 1 <= j <= nn ==> #[trigger] w.tenor.t(j) > 0real && 1real + w.tenor.t(j) * s0.f.r[j - 1] > 0real,
        forall|i: int| 0 <= i < __k6 - 1 ==> (#[trigger] gamma_mid_f[i])@ == w.tenor.gam(i + 1, u),
        forall|i: int| 0 <= i < __k6 - 1 ==> (#[trigger] adapted_f[i])@ == w.foreign.sigmas[i]@,
        forall|i: int| 0 <= i < __k6 - 1 ==> (#[trigger] drift_weight_f[i])@ == w.foreign.weight(w.tenor, i + 1, u, s0.f.r[i]),
    decreases m + 1 - __k6
//@loop 6 begin
    proof { assert(w.tenor.t(__k6 as int) > 0real); }
//@loop 7
    invariant e <= __k7 <= m + 1, 1 <= e <= m + 1, eta_old == e, __n7 == m, m == nn, nn == w.tenor.n(), nn < 1000000, self.same(old(self)), self.params == w, w.ok(), p == self.params, tenor == p.tenor, *x == x0, s0 == x0.of(), s0.sized(nn), gamma_mid_f.len() == m, adapted_f.len() == m, drift_weight_f.len() == m, dw_f@.len() == m, new_rates_f.len() == m, e == w.tenor.first(s0.t, 1), u == s0.t + (5real / 10real) * dt@, sqrt_sigma@ == rsqrt(rmax(s0.v, 0real)),
        forall|i: int| 0 <= i < m ==> (#[trigger] gamma_mid_f[i])@ == w.tenor.gam(i + 1, u),
        forall|i: int| 0 <= i < m ==> (#[trigger] adapted_f[i])@ == w.foreign.sigmas[i]@,
        forall|i: int| 0 <= i < m ==> (#[trigger] drift_weight_f[i])@ == w.foreign.weight(w.tenor, i + 1, u, s0.f.r[i]),
        forall|i: int| 0 <= i < m ==> (#[trigger] dw_f@[i])@ == w.inc(l, g0, true, i + 1, dt@),
        forall|i: int| 0 <= i < m ==> (#[trigger] new_rates_f[i])@ == (if i + 1 < __k7 { w.next(l, g0, s0, dt@, true, i + 1) } else { s0.f.r[i] }),
    decreases m + 1 - __k7
//@loop 8
    invariant e <= __k8 <= j + 1, 1 <= e <= m + 1, __n8 == j, 1 <= j <= m, m == nn, nn == w.tenor.n(), nn < 1000000, self.params == w, p == self.params, w.ok(), s0 == x0.of(), s0.sized(nn), drift_weight_f.len() == m, forall|i: int| 0 <= i < m ==> (#[trigger] drift_weight_f[i])@ == w.foreign.weight(w.tenor, i + 1, u, s0.f.r[i]),
        sum@ == w.foreign.pull(w.tenor, e, __k8 as int, j as int, u, s0.f.r),
    decreases j + 1 - __k8
//@loop 8 begin
    proof { assert(w.foreign.rate_corr@[__k8 - 1]@.len() == m); }
//@loop 9
    invariant 1 <= __k9 <= m + 1, __n9 == m, m == nn, nn == w.tenor.n(), nn < 1000000, self.same(old(self)), self.params == w, w.ok(), p == self.params, tenor == p.tenor, x.rates_d == x0.rates_d, x.rates_f == x0.rates_f, x.rates_at_start_d == x0.rates_at_start_d, x.rates_at_start_f == x0.rates_at_start_f, x.y_at_start_d == x0.y_at_start_d, x.y_at_start_f == x0.y_at_start_f, x.x_active_d == x0.x_active_d, x.x_active_f == x0.x_active_f, x.fx == x0.fx, x.variance == x0.variance, x.t == x0.t, s0 == x0.of(), s0.sized(nn), x.y_diag_d.len() == m, x.y_diag_f.len() == m, t@ == s0.t,
        forall|j: int| 1 <= j <= nn ==> #[trigger] w.tenor.t(j) > 0real && s0.d.r[j - 1] + 1real / w.tenor.t(j) > 0real && s0.f.r[j - 1] + 1real / w.tenor.t(j) > 0real,
        forall|i: int| 0 <= i < m ==> (#[trigger] x.y_diag_d[i])@ == (if i + 1 < __k9 { w.next_y(s0, dt@, false, i + 1) } else { s0.d.y[i] }),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.y_diag_f[i])@ == (if i + 1 < __k9 { w.next_y(s0, dt@, true, i + 1) } else { s0.f.y[i] }),
    decreases m + 1 - __k9
//@loop 9 begin
    proof { assert(w.tenor.t(__k9 as int) > 0real); }
//@loop 9 after
    proof {
        assert forall|i: int| 0 <= i < m implies (#[trigger] new_rates_d@[i])@ == w.next(l, g0, s0, dt@, false, i + 1) by {}
        assert forall|i: int| 0 <= i < m implies (#[trigger] new_rates_f@[i])@ == w.next(l, g0, s0, dt@, true, i + 1) by {}
        assert forall|j: int| 1 <= j <= nn implies #[trigger] w.tenor.t(j) > 0real && new_rates_d@[j - 1]@ + 1real / w.tenor.t(j) > 0real by {
            let s1 = w.evolve(l, g0, s0, dt@).d;
            assert(s1.r[j - 1] == w.next(l, g0, s0, dt@, false, j));
            assert(1real + w.tenor.t(j) * s1.r[j - 1] > 0real);
            lemma_level(s1.r[j - 1], w.tenor.t(j));
        }
        if 1 <= e <= nn {
            let (x, y, z) = (s0.d.r[e - 1], new_rates_d@[e - 1]@, 1real / w.tenor.t(e));
            assert(w.tenor.t(e) > 0real);
            assert(x + z > 0real && y + z > 0real);
            assert((5real / 10real) * (x + y) + z > 0real);
        }
        assert forall|j: int| 1 <= j <= nn implies #[trigger] w.tenor.t(j) > 0real && new_rates_f@[j - 1]@ + 1real / w.tenor.t(j) > 0real by {
            let s1 = w.evolve(l, g0, s0, dt@).f;
            assert(s1.r[j - 1] == w.next(l, g0, s0, dt@, true, j));
            assert(1real + w.tenor.t(j) * s1.r[j - 1] > 0real);
            lemma_level(s1.r[j - 1], w.tenor.t(j));
        }
        if 1 <= e <= nn {
            let (x, y, z) = (s0.f.r[e - 1], new_rates_f@[e - 1]@, 1real / w.tenor.t(e));
            assert(w.tenor.t(e) > 0real);
            assert(x + z > 0real && y + z > 0real);
            assert((5real / 10real) * (x + y) + z > 0real);
        }
    }
//@loop 10
    invariant e + 1 <= __k10 <= __n10 + 1, 1 <= e <= m, __n10 <= m, m == nn, nn == w.tenor.n(), nn < 1000000, self.same(old(self)), self.params == w, w.ok(), s0 == x0.of(), s0.sized(nn), x.of().sized(nn), x.t@ == s0.t + dt@, x.fx@ == w.next_fx(l, g0, s0, dt@), x.variance@ == w.next_v(l, g0, s0.v, dt@),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.rates_d[i])@ == w.next(l, g0, s0, dt@, false, i + 1),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.y_diag_d[i])@ == w.next_y(s0, dt@, false, i + 1),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.rates_at_start_d[i])@ == (if e < i + 1 < __k10 { w.next(l, g0, s0, dt@, false, i + 1) } else { s0.d.rs[i] }),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.y_at_start_d[i])@ == (if e < i + 1 < __k10 { w.next_y(s0, dt@, false, i + 1) } else { s0.d.ys[i] }),
        x.x_active_d@ == (if e + 1 < __k10 { 0real } else { w.next_x(l, g0, s0, dt@, false) }),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.rates_f[i])@ == w.next(l, g0, s0, dt@, true, i + 1),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.y_diag_f[i])@ == w.next_y(s0, dt@, true, i + 1),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.rates_at_start_f[i])@ == (if e < i + 1 < __k10 { w.next(l, g0, s0, dt@, true, i + 1) } else { s0.f.rs[i] }),
        forall|i: int| 0 <= i < m ==> (#[trigger] x.y_at_start_f[i])@ == (if e < i + 1 < __k10 { w.next_y(s0, dt@, true, i + 1) } else { s0.f.ys[i] }),
        x.x_active_f@ == (if e + 1 < __k10 { 0real } else { w.next_x(l, g0, s0, dt@, true) }),
    decreases __n10 + 1 - __k10
//@exit
    proof { let (a, b) = (x.of(), w.evolve(l, g0, s0, dt@)); assert(a.d.r =~= b.d.r); assert(a.d.y =~= b.d.y); assert(a.d.rs =~= b.d.rs); assert(a.d.ys =~= b.d.ys); assert(a.d.x == b.d.x); assert(a.f.r =~= b.f.r); assert(a.f.y =~= b.f.y); assert(a.f.rs =~= b.f.rs); assert(a.f.ys =~= b.f.ys); assert(a.f.x == b.f.x); assert(a.t == b.t); assert(a.fx == b.fx); assert(a.v == b.v); }
//@end
// k equal steps of one path
pub open spec fn trail(w: FxFmmParams, l: Mx, g: ChaCha20Rng, dt: real, k: nat) -> Xs decreases k { if k == 0 { w.start() } else { w.evolve(l, draws(g, ((2 + 2 * w.tenor.n()) * (k - 1)) as nat), trail(w, l, g, dt, (k - 1) as nat), dt) } }
//@fn src/models/forex/fx_fmm_simulator.rs impl FxFmmSimulator :: simulate_terminal => impl FxFmmSimulator
//@params end, k, q
//@local out: Vec<FxFmmState>
//@spec
    requires old(self).ok(), k > 0, q > 0, end@ > 0real,
        forall|a: nat, i: nat| #[trigger] trail(old(self).params, old(self).chol@, draws(old(self).rng, a), end@ / (k as int as real), i).live(old(self).params.tenor)
    ensures final(self).same(old(self)), r.len() == q, ({ let (w, l, g, dt) = (old(self).params, old(self).chol@, old(self).rng, end@ / (k as int as real)); let z = 2 + 2 * w.tenor.n();
        &&& final(self).rng == draws(g, (z * k * q) as nat)
        &&& forall|i: int| 0 <= i < q ==> (#[trigger] r[i]).of() == trail(w, l, draws(g, (z * k * i) as nat), dt, k as nat) })
//@entry
    let ghost (w, l, g, d, n) = (self.params, self.chol@, self.rng, end@ / (k as int as real), 2 + 2 * self.params.tenor.n());
    proof { assert(d > 0real) by (nonlinear_arith) requires d == end@ / (k as int as real), end@ > 0real, k > 0; assert(n * k * 0 == 0) by (nonlinear_arith); }
//@loop 0
    invariant 0 <= __k0 <= q, __n0 == q, n_steps == k, self.params == w, self.chol@ == l, self.ok(), self.same(old(self)), k > 0, dt@ == d, d > 0real, n == 2 + 2 * w.tenor.n(), out.len() == __k0, self.rng == draws(g, (n * k * __k0) as nat), 0 <= n * k * __k0,
        forall|a: nat, i: nat| #[trigger] trail(w, l, draws(g, a), d, i).live(w.tenor),
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] out[i]).of() == trail(w, l, draws(g, (n * k * i) as nat), d, k as nat),
    decreases q - __k0
//@loop 0 begin
    let ghost (i0, o0) = (__k0 as int, out@);
    proof { assert(n * k * (i0 + 1) == n * k * i0 + n * k) by (nonlinear_arith); assert(n * k >= 0) by (nonlinear_arith) requires n >= 0, k > 0; assert(n * 0 == 0) by (nonlinear_arith); }
//@loop 0 end
    proof { assert forall|i: int| 0 <= i < i0 implies #[trigger] out@[i] == o0[i] by {} lemma_draws(g, (n * k * i0) as nat, (n * k) as nat); }
//@loop 1
    invariant 0 <= __k1 <= k, __n1 == k, self.params == w, self.chol@ == l, self.ok(), self.same(old(self)), k > 0, dt@ == d, d > 0real, n == 2 + 2 * w.tenor.n(), state.of().sized(w.tenor.n()), 0 <= n * k * i0,
        forall|a: nat, i: nat| #[trigger] trail(w, l, draws(g, a), d, i).live(w.tenor), 0 <= n * __k1,
        self.rng == draws(draws(g, (n * k * i0) as nat), (n * __k1) as nat), state.of() == trail(w, l, draws(g, (n * k * i0) as nat), d, __k1 as nat),
    decreases k - __k1
//@loop 1 begin
    let ghost a0 = __k1 as int;
    proof {
        let h = draws(g, (n * k * i0) as nat);
        assert(n * (a0 + 1) == n * a0 + n) by (nonlinear_arith);
        assert(trail(w, l, h, d, a0 as nat).live(w.tenor) && trail(w, l, h, d, (a0 + 1) as nat).live(w.tenor));
        lemma_draws(h, (n * a0) as nat, n as nat);
    }
//@end
// a derived clone is the value
impl Clone for FxFmmState {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@type Self::State => FxFmmState
//@fn src/models/forex/fx_fmm_simulator.rs impl SimulationModel for FxFmmSimulator :: initial_state => impl FxFmmSimulator
//@spec
    requires self.params.ok()
    ensures r.of() == self.params.start(), r.of().sized(self.params.tenor.n())
//@end
//@fn src/models/forex/fx_fmm_simulator.rs impl SimulationModel for FxFmmSimulator :: step => impl FxFmmSimulator
//@name model_step
//@subst FxFmmSimulator::step(self, &mut next, dt) => self.step(&mut next, dt)
//@params x, t, dt
//@spec
    requires old(self).ok(), dt@ > 0real, x.of().sized(old(self).params.tenor.n()), x.of().live(old(self).params.tenor), old(self).params.evolve(old(self).chol@, old(self).rng, x.of(), dt@).live(old(self).params.tenor)
    ensures final(self).same(old(self)), final(self).rng == draws(old(self).rng, (2 + 2 * old(self).params.tenor.n()) as nat), r.of().sized(old(self).params.tenor.n()), r.of() == old(self).params.evolve(old(self).chol@, old(self).rng, x.of(), dt@)
//@end
