// Forward market model, simulated: contracts discharged against src/models/interestrate/fmm.rs
//@fn src/models/interestrate/fmm.rs fn cholesky
//@params c
//@spec
    requires square(c@, c@.len() as int), c@.len() < usize::MAX
    ensures r is Some ==> square(r.unwrap()@, c@.len() as int) && factors(r.unwrap()@, c@, c@.len() as int, c@.len() as int, 0),
        r is None ==> exists|l: Mx, k: int| 0 <= k < c@.len() && square(l, c@.len() as int) && #[trigger] factors(l, c@, c@.len() as int, k, k) && dot(l, k, k, k) >= at(c@, k, k)
//@entry
    broadcast use axiom_sqrt;
    let ghost z = c@.len() as int;
//@loop 0
    invariant 0 <= __k0 <= n, __n0 == n, z == n, z == c@.len(), z < usize::MAX, m@ == c@, square(c@, z), square(l@, z), rows(c@, l@, z, __k0 as int, 0),
    decreases n - __k0
//@loop 1
    invariant 0 <= __k1 <= i + 1, __n1 == i, i < n, z == n, z == c@.len(), z < usize::MAX, m@ == c@, square(c@, z), square(l@, z), rows(c@, l@, z, i as int, __k1 as int),
    decreases i + 1 - __k1
//@loop 1 begin
    let ghost l0 = l@;
    let ghost k = __k1 as int;
    proof {
        assert(rem(c@, l@, i as int, k, 0) == at(c@, i as int, k));
        if i != k { assert(entry(c@, l@, k, k)); let s = rem(c@, l@, k, k, k); assert(s > 0real); assert(rsqrt(s) != 0real) by { broadcast use axiom_sqrt; if rsqrt(s) == 0real { assert(rsqrt(s) * rsqrt(s) == 0real) by (nonlinear_arith) requires rsqrt(s) == 0real; } } }
    }
//@loop 1 end
    proof {
        assert forall|a: int, b: int| 0 <= a < z && 0 <= b < z && !(a == i && b == j) implies #[trigger] at(l@, a, b) == at(l0, a, b) by {}
        lemma_rem(c@, l0, l@, i as int, j as int, j as int);
        assert(entry(c@, l@, i as int, j as int));
        lemma_more(c@, l0, l@, z, i as int, j as int);
    }
//@loop 2
    invariant 0 <= __k2 <= j, __n2 == j, j <= i, i < n, z == n, m@ == c@, square(c@, z), square(l@, z), sum@ == rem(c@, l@, i as int, j as int, __k2 as int),
    decreases j - __k2
//@exit
    proof { if rows(c@, l@, z, z, 0) { lemma_factors(c@, l@, z, z, 0); }
        assert forall|k: int| 0 <= k < z && #[trigger] rows(c@, l@, z, k, k) && rem(c@, l@, k, k, k) <= 0real implies factors(l@, c@, z, k, k) && dot(l@, k, k, k) >= at(c@, k, k) by { lemma_factors(c@, l@, z, k, k); lemma_dot(c@, l@, k, k, k); } }
//@end
//@item src/models/interestrate/fmm.rs :: struct FmmSimulator
pub struct Fs { pub r: Seq<real>, pub y: Seq<real>, pub rs: Seq<real>, pub ys: Seq<real>, pub x: real, pub t: real }
pub open spec fn reals(s: Seq<R>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i]@) }
impl FmmPath { pub open spec fn of(&self) -> Fs { Fs { r: reals(self.rates@), y: reals(self.y_diag@), rs: reals(self.rates_at_start@), ys: reals(self.y_at_start@), x: self.x_active@, t: self.t@ } } }
impl Fs {
    // the accrual of every period stays positive
    pub open spec fn live(&self, m: Fmm) -> bool { self.r.len() == m.n() && forall|j: int| 1 <= j <= m.n() ==> 1real + #[trigger] m.tenor.t(j) * self.r[j - 1] > 0real }
}
impl Fmm {
    // what rate i puts into the drift of the rates after it, over a step with midpoint u
    pub open spec fn weight(&self, i: int, u: real, x: real) -> real { self.vol(i, u) * self.level(i, x) * self.tenor.gam(i, u) * self.tenor.t(i) / (1real + self.tenor.t(i) * x) }
    pub open spec fn pull(&self, lo: int, hi: int, j: int, u: real, r: Seq<real>) -> real decreases hi - lo { if hi <= lo { 0real } else { self.pull(lo, hi - 1, j, u, r) + at(self.correlation@, hi - 2, j - 1) * self.weight(hi - 1, u, r[hi - 2]) } }
    // the next value of rate j
    pub open spec fn next(&self, l: Mx, g: ChaCha20Rng, s: Fs, dt: real, j: int) -> real {
        let (u, k, x) = (s.t + (5real / 10real) * dt, self.tenor.first(s.t, 1), s.r[j - 1]);
        let (a, c) = (self.vol(j, u) * self.level(j, x), self.tenor.gam(j, u));
        if j < k || c == 0real { x } else { x + a * c * self.pull(k, j + 1, j, u, s.r) * dt + a * c * incr(l, g, j - 1, dt) }
    }
    pub open spec fn next_y(&self, s: Fs, dt: real, j: int) -> real {
        let (u, x) = (s.t + (5real / 10real) * dt, s.r[j - 1]);
        if s.t >= self.tenor.d(j) { s.y[j - 1] } else { s.y[j - 1] + rpow(self.vol(j, u) * self.level(j, x) / (x + 1real / self.tenor.t(j)), 2) * rmin(self.tenor.d(j) - s.t, dt) }
    }
    pub open spec fn next_x(&self, l: Mx, g: ChaCha20Rng, s: Fs, dt: real) -> real {
        let (u, k) = (s.t + (5real / 10real) * dt, self.tenor.first(s.t, 1));
        if k > self.n() || s.t <= self.tenor.d(k - 1) || s.t >= self.tenor.d(k) { s.x } else {
            let mid = (5real / 10real) * (s.r[k - 1] + self.next(l, g, s, dt, k));
            s.x + (1real / self.tenor.t(k) * (self.next_y(s, dt, k) - s.ys[k - 1]) * dt + self.vol(k, u) * self.level(k, mid) / (mid + 1real / self.tenor.t(k)) * incr(l, g, k - 1, dt))
        }
    }
    // the period of rate j begins with this step
    pub open spec fn enters(&self, s: Fs, dt: real, j: int) -> bool { self.tenor.first(s.t, 1) < j <= self.tenor.first(s.t + dt, 1) && j <= self.n() }
    pub open spec fn evolve(&self, l: Mx, g: ChaCha20Rng, s: Fs, dt: real) -> Fs {
        Fs {
            r: Seq::new(self.n() as nat, |i: int| self.next(l, g, s, dt, i + 1)),
            y: Seq::new(self.n() as nat, |i: int| self.next_y(s, dt, i + 1)),
            rs: Seq::new(self.n() as nat, |i: int| if self.enters(s, dt, i + 1) { self.next(l, g, s, dt, i + 1) } else { s.rs[i] }),
            ys: Seq::new(self.n() as nat, |i: int| if self.enters(s, dt, i + 1) { self.next_y(s, dt, i + 1) } else { s.ys[i] }),
            x: if self.enters(s, dt, self.tenor.first(s.t, 1) + 1) { 0real } else { self.next_x(l, g, s, dt) },
            t: s.t + dt,
        }
    }
    pub open spec fn start(&self) -> Fs {
        Fs { r: reals(self.tenor.initial_rates@), y: Seq::new(self.n() as nat, |i: int| 0real), rs: Seq::new(self.n() as nat, |i: int| if i == 0 { self.tenor.initial_rates@[0]@ } else { 0real }), ys: Seq::new(self.n() as nat, |i: int| 0real), x: 0real, t: 0real }
    }
}
impl FmmSimulator {
    pub open spec fn ok(&self) -> bool { self.model.ok() && square(self.chol@, self.model.n()) }
    pub open spec fn same(&self, o: &Self) -> bool { self.model == o.model && self.chol == o.chol }
}
//@fn src/models/interestrate/fmm.rs impl FmmSimulator :: new => impl FmmSimulator
//@params m, seed
//@spec
    requires m.ok()
    ensures r is Ok ==> r.unwrap().model == m && r.unwrap().rng == seeded(seed) && r.unwrap().ok() && factors(r.unwrap().chol@, m.correlation@, m.n(), m.n(), 0),
        r is Err ==> exists|l: Mx, k: int| 0 <= k < m.n() && square(l, m.n()) && #[trigger] factors(l, m.correlation@, m.n(), k, k) && dot(l, k, k, k) >= at(m.correlation@, k, k)
//@end
//@fn src/models/interestrate/fmm.rs impl FmmSimulator :: initial_path => impl FmmSimulator
//@spec
    requires self.model.ok()
    ensures r.ok(self.model), r.of() == self.model.start()
//@exit
    proof { let (a, b) = (r.of(), self.model.start()); assert(a.r =~= b.r); assert(a.y =~= b.y); assert(a.rs =~= b.rs); assert(a.ys =~= b.ys); }
//@end
proof fn lemma_level(x: real, w: real) requires 1real + w * x > 0real, w > 0real ensures x + 1real / w > 0real {
    let z = 1real / w;
    assert(z * w == 1real) by (nonlinear_arith) requires w > 0real, z == 1real / w;
    assert(x + z > 0real) by (nonlinear_arith) requires z * w == 1real, 1real + w * x > 0real, w > 0real;
}
//@fn src/models/interestrate/fmm.rs impl FmmSimulator :: step => impl FmmSimulator
//@local __acc0: Vec<R>
//@local __acc1: Vec<R>
//@flags float-sums
//@params p, dt
//@spec
    requires old(self).ok(), dt@ > 0real, old(p).ok(old(self).model), old(p).of().live(old(self).model), old(self).model.evolve(old(self).chol@, old(self).rng, old(p).of(), dt@).live(old(self).model)
    ensures final(self).same(old(self)), final(self).rng == draws(old(self).rng, old(self).model.n() as nat), final(p).ok(old(self).model), final(p).of() == old(self).model.evolve(old(self).chol@, old(self).rng, old(p).of(), dt@)
//@entry
    broadcast use axiom_sqrt;
    let ghost (g0, w, l, s0, p0) = (self.rng, self.model, self.chol@, p.of(), *p);
    let ghost (n, e, u) = (w.n(), w.tenor.first(s0.t, 1), s0.t + (5real / 10real) * dt@);
    proof {
        lemma_first(w.tenor, s0.t, 1); lemma_first(w.tenor, s0.t + dt@, 1); lemma_order(w.tenor, s0.t, s0.t + dt@, 1);
        assert forall|j: int| 1 <= j <= n implies #[trigger] w.tenor.t(j) > 0real && 1real + w.tenor.t(j) * s0.r[j - 1] > 0real && s0.r[j - 1] + 1real / w.tenor.t(j) > 0real by {
            assert(w.tenor.dates@[j - 1]@ < w.tenor.dates@[j]@);
            lemma_level(s0.r[j - 1], w.tenor.t(j));
        }
    }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == m, m == n, __lo1 == 0, __acc0.len() == __k0, self.same(old(self)), self.rng == draws(g0, __k0 as nat), forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0[i])@ == draw(g0, i as nat),
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == m, m == n, n < usize::MAX - 1, __s4@ == l, square(l, n), self.same(old(self)), z.len() == m, forall|i: int| 0 <= i < m ==> (#[trigger] z[i])@ == draw(g0, i as nat), sqrt_dt@ == rsqrt(dt@),
        __acc1.len() == __k1, forall|i: int| 0 <= i < __k1 ==> (#[trigger] __acc1[i])@ == incr(l, g0, i, dt@),
    decreases __n1 - __k1
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == i + 1, 0 <= i < m, m == n, square(l, n), row@ == l[i as int]@, __s8@ == row@, __s9@ == z@, z.len() == m, forall|i: int| 0 <= i < m ==> (#[trigger] z[i])@ == draw(g0, i as nat), __acc2@ == mixed(l, g0, i as int, __k2 as int),
    decreases __n2 - __k2
//@loop 3
    invariant 1 <= __k3 <= m + 1, __n3 == m, m == n, n == w.n(), n < usize::MAX - 1, self.same(old(self)), self.model == w, w.ok(), *p == p0, s0 == p0.of(), p0.ok(w), t_mid@ == u, gamma_mid.len() == m, adapted.len() == m, drift_weight.len() == m,
        forall|j: int| 1 <= j <= n ==> #[trigger] w.tenor.t(j) > 0real && 1real + w.tenor.t(j) * s0.r[j - 1] > 0real,
        forall|i: int| 0 <= i < __k3 - 1 ==> (#[trigger] gamma_mid[i])@ == w.tenor.gam(i + 1, u),
        forall|i: int| 0 <= i < __k3 - 1 ==> (#[trigger] adapted[i])@ == w.vol(i + 1, u) * w.level(i + 1, s0.r[i]),
        forall|i: int| 0 <= i < __k3 - 1 ==> (#[trigger] drift_weight[i])@ == w.weight(i + 1, u, s0.r[i]),
    decreases m + 1 - __k3
//@loop 3 begin
    proof { assert(w.tenor.t(__k3 as int) > 0real); }
//@loop 4
    invariant e <= __k4 <= m + 1, 1 <= e <= m + 1, eta_old == e, __n4 == m, m == n, n == w.n(), n < usize::MAX - 1, self.same(old(self)), self.model == w, w.ok(), *p == p0, s0 == p0.of(), p0.ok(w), gamma_mid.len() == m, adapted.len() == m, drift_weight.len() == m, dw.len() == m, new_rates.len() == m, e == w.tenor.first(s0.t, 1), u == s0.t + (5real / 10real) * dt@,
        forall|i: int| 0 <= i < m ==> (#[trigger] gamma_mid[i])@ == w.tenor.gam(i + 1, u),
        forall|i: int| 0 <= i < m ==> (#[trigger] adapted[i])@ == w.vol(i + 1, u) * w.level(i + 1, s0.r[i]),
        forall|i: int| 0 <= i < m ==> (#[trigger] drift_weight[i])@ == w.weight(i + 1, u, s0.r[i]),
        forall|i: int| 0 <= i < m ==> (#[trigger] dw[i])@ == incr(l, g0, i, dt@),
        forall|i: int| 0 <= i < m ==> (#[trigger] new_rates[i])@ == (if i + 1 < __k4 { w.next(l, g0, s0, dt@, i + 1) } else { s0.r[i] }),
    decreases m + 1 - __k4
//@loop 5
    invariant e <= __k5 <= j + 1, 1 <= e <= m + 1, __n5 == j, 1 <= j <= m, m == n, n == w.n(), n < usize::MAX - 1, self.model == w, w.ok(), s0 == p0.of(), p0.ok(w), drift_weight.len() == m, forall|i: int| 0 <= i < m ==> (#[trigger] drift_weight[i])@ == w.weight(i + 1, u, s0.r[i]),
        sum@ == w.pull(e, __k5 as int, j as int, u, s0.r),
    decreases j + 1 - __k5
//@loop 6
    invariant 1 <= __k6 <= m + 1, __n6 == m, m == n, n == w.n(), n < usize::MAX - 1, self.same(old(self)), self.model == w, w.ok(), p.rates == p0.rates, p.rates_at_start == p0.rates_at_start, p.y_at_start == p0.y_at_start, p.x_active == p0.x_active, p.t == p0.t, s0 == p0.of(), p0.ok(w), p.y_diag.len() == m, t@ == s0.t, t_mid@ == u, u == s0.t + (5real / 10real) * dt@,
        forall|j: int| 1 <= j <= n ==> #[trigger] w.tenor.t(j) > 0real && s0.r[j - 1] + 1real / w.tenor.t(j) > 0real,
        forall|i: int| 0 <= i < m ==> (#[trigger] p.y_diag[i])@ == (if i + 1 < __k6 { w.next_y(s0, dt@, i + 1) } else { s0.y[i] }),
    decreases m + 1 - __k6
//@loop 6 begin
    proof { assert(w.tenor.t(__k6 as int) > 0real); }
//@loop 6 after
    proof {
        assert forall|i: int| 0 <= i < m implies (#[trigger] new_rates@[i])@ == w.next(l, g0, s0, dt@, i + 1) by {}
        assert forall|j: int| 1 <= j <= n implies #[trigger] w.tenor.t(j) > 0real && new_rates@[j - 1]@ + 1real / w.tenor.t(j) > 0real by {
            let s1 = w.evolve(l, g0, s0, dt@);
            assert(s1.r[j - 1] == w.next(l, g0, s0, dt@, j));
            assert(1real + w.tenor.t(j) * s1.r[j - 1] > 0real);
            lemma_level(s1.r[j - 1], w.tenor.t(j));
        }
        if 1 <= e <= n {
            let (x, y, z) = (s0.r[e - 1], new_rates@[e - 1]@, 1real / w.tenor.t(e));
            assert(w.tenor.t(e) > 0real);
            assert(x + z > 0real && y + z > 0real);
            assert((5real / 10real) * (x + y) + z > 0real);
        }
    }
//@loop 7
    invariant e + 1 <= __k7 <= __n7 + 1, 1 <= e <= m, __n7 <= m, m == n, n == w.n(), n < usize::MAX - 1, self.same(old(self)), self.model == w, w.ok(), s0 == p0.of(), p0.ok(w), p.rates.len() == m, p.y_diag.len() == m, p.rates_at_start.len() == m, p.y_at_start.len() == m, p.t@ == s0.t + dt@,
        forall|i: int| 0 <= i < m ==> (#[trigger] p.rates[i])@ == w.next(l, g0, s0, dt@, i + 1),
        forall|i: int| 0 <= i < m ==> (#[trigger] p.y_diag[i])@ == w.next_y(s0, dt@, i + 1),
        forall|i: int| 0 <= i < m ==> (#[trigger] p.rates_at_start[i])@ == (if e < i + 1 < __k7 { w.next(l, g0, s0, dt@, i + 1) } else { s0.rs[i] }),
        forall|i: int| 0 <= i < m ==> (#[trigger] p.y_at_start[i])@ == (if e < i + 1 < __k7 { w.next_y(s0, dt@, i + 1) } else { s0.ys[i] }),
        p.x_active@ == (if e + 1 < __k7 { 0real } else { w.next_x(l, g0, s0, dt@) }),
    decreases __n7 + 1 - __k7
//@exit
    proof { let (a, b) = (p.of(), w.evolve(l, g0, s0, dt@)); assert(a.r =~= b.r); assert(a.y =~= b.y); assert(a.rs =~= b.rs); assert(a.ys =~= b.ys); assert(a.x == b.x); assert(a.t == b.t); }
//@end
// k equal steps of one path
pub open spec fn trail(w: Fmm, l: Mx, g: ChaCha20Rng, dt: real, k: nat) -> Fs decreases k { if k == 0 { w.start() } else { w.evolve(l, draws(g, (w.n() * (k - 1)) as nat), trail(w, l, g, dt, (k - 1) as nat), dt) } }
//@fn src/models/interestrate/fmm.rs impl FmmSimulator :: simulate_terminal => impl FmmSimulator
//@params end, k, q
//@local out: Vec<FmmPath>
//@spec
    requires old(self).ok(), k > 0, q > 0, end@ > 0real,
        forall|a: nat, i: nat| #[trigger] trail(old(self).model, old(self).chol@, draws(old(self).rng, a), end@ / (k as int as real), i).live(old(self).model)
    ensures final(self).same(old(self)), r.len() == q, ({ let (w, l, g, dt) = (old(self).model, old(self).chol@, old(self).rng, end@ / (k as int as real));
        &&& final(self).rng == draws(g, (w.n() * k * q) as nat)
        &&& forall|i: int| 0 <= i < q ==> (#[trigger] r[i]).of() == trail(w, l, draws(g, (w.n() * k * i) as nat), dt, k as nat) })
//@entry
    let ghost (w, l, g, d, n) = (self.model, self.chol@, self.rng, end@ / (k as int as real), self.model.n());
    proof { assert(d > 0real) by (nonlinear_arith) requires d == end@ / (k as int as real), end@ > 0real, k > 0; assert(n * k * 0 == 0) by (nonlinear_arith); }
//@loop 0
    invariant 0 <= __k0 <= q, __n0 == q, n_steps == k, self.model == w, self.chol@ == l, w.ok(), square(l, w.n()), self.same(old(self)), k > 0, dt@ == d, d > 0real, n == w.n(), out.len() == __k0, self.rng == draws(g, (n * k * __k0) as nat), 0 <= n * k * __k0,
        forall|a: nat, i: nat| #[trigger] trail(w, l, draws(g, a), d, i).live(w),
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] out[i]).of() == trail(w, l, draws(g, (n * k * i) as nat), d, k as nat),
    decreases q - __k0
//@loop 0 begin
    let ghost (i0, o0) = (__k0 as int, out@);
    proof { assert(n * k * (i0 + 1) == n * k * i0 + n * k) by (nonlinear_arith); assert(n * k >= 0) by (nonlinear_arith) requires n >= 0, k > 0; assert(n * 0 == 0) by (nonlinear_arith); }
//@loop 0 end
    proof { assert forall|i: int| 0 <= i < i0 implies #[trigger] out@[i] == o0[i] by {} lemma_draws(g, (n * k * i0) as nat, (n * k) as nat); }
//@loop 1
    invariant 0 <= __k1 <= k, __n1 == k, self.model == w, self.chol@ == l, w.ok(), square(l, w.n()), self.same(old(self)), k > 0, dt@ == d, d > 0real, n == w.n(), path.ok(w), 0 <= n * k * i0,
        forall|a: nat, i: nat| #[trigger] trail(w, l, draws(g, a), d, i).live(w), 0 <= n * __k1,
        self.rng == draws(draws(g, (n * k * i0) as nat), (n * __k1) as nat), path.of() == trail(w, l, draws(g, (n * k * i0) as nat), d, __k1 as nat),
    decreases k - __k1
//@loop 1 begin
    let ghost a0 = __k1 as int;
    proof {
        let h = draws(g, (n * k * i0) as nat);
        assert(n * (a0 + 1) == n * a0 + n) by (nonlinear_arith);
        assert(trail(w, l, h, d, a0 as nat).live(w) && trail(w, l, h, d, (a0 + 1) as nat).live(w));
        lemma_draws(h, (n * a0) as nat, n as nat);
    }
//@end
// a derived clone is the value
impl Clone for FmmPath {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@type Self::State => FmmPath
//@fn src/models/interestrate/fmm.rs impl SimulationModel for FmmSimulator :: initial_state => impl FmmSimulator
//@spec
    requires self.model.ok()
    ensures r.ok(self.model), r.of() == self.model.start()
//@end
//@fn src/models/interestrate/fmm.rs impl SimulationModel for FmmSimulator :: step => impl FmmSimulator
//@name model_step
//@subst FmmSimulator::step(self, &mut next, dt) => self.step(&mut next, dt)
//@params p, t, dt
//@spec
    requires old(self).ok(), dt@ > 0real, p.ok(old(self).model), p.of().live(old(self).model), old(self).model.evolve(old(self).chol@, old(self).rng, p.of(), dt@).live(old(self).model)
    ensures final(self).same(old(self)), final(self).rng == draws(old(self).rng, old(self).model.n() as nat), r.ok(old(self).model), r.of() == old(self).model.evolve(old(self).chol@, old(self).rng, p.of(), dt@)
//@end
