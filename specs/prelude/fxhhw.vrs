// FX-Heston-Hull-White: contracts discharged against src/models/forex/fx_hhw.rs
//@item src/models/common/cir.rs :: struct CirProcess
//@item src/models/interestrate/hull_white.rs :: struct HullWhite1F
//@item src/models/forex/fx_hhw.rs :: struct Correlation4x4
//@fn src/models/forex/fx_hhw.rs impl Correlation4x4 :: as_matrix => impl Correlation4x4
//@spec
    ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> (#[trigger] r[i][j])@ == self.m(i, j)
//@end
impl Correlation4x4 {
    // the correlation of driver i with driver j: FX, variance, domestic rate, foreign rate
    pub open spec fn m(&self, i: int, j: int) -> real {
        if i == j { 1real } else {
            let (a, b) = if i < j { (i, j) } else { (j, i) };
            if a == 0 && b == 1 { self.rho_xi_sigma@ } else if a == 0 && b == 2 { self.rho_xi_d@ } else if a == 0 { self.rho_xi_f@ }
            else if a == 1 && b == 2 { self.rho_sigma_d@ } else if a == 1 { self.rho_sigma_f@ } else { self.rho_d_f@ }
        }
    }
}
// what is left of c[i][j] after the products of the first k columns of rows i and j
pub open spec fn rem(c: [[R; 4]; 4], l: [[R; 4]; 4], i: int, j: int, k: int) -> real decreases k { if k <= 0 { c[i][j]@ } else { rem(c, l, i, j, k - 1) - l[i][k - 1]@ * l[j][k - 1]@ } }
pub open spec fn entry(c: [[R; 4]; 4], l: [[R; 4]; 4], i: int, j: int) -> bool { if i == j { rem(c, l, i, i, i) > 0real && l[i][i]@ == rsqrt(rem(c, l, i, i, i)) } else { l[i][j]@ == rem(c, l, i, j, j) / l[j][j]@ } }
// rows before n and the first m entries of row n are those of the factor, nothing lies above the diagonal
pub open spec fn rows(c: [[R; 4]; 4], l: [[R; 4]; 4], n: int, m: int) -> bool {
    (forall|i: int, j: int| 0 <= j <= i < 4 && (i < n || (i == n && j < m)) ==> #[trigger] entry(c, l, i, j))
        && (forall|i: int, j: int| 0 <= i < j < 4 ==> (#[trigger] l[i][j])@ == 0real)
}
proof fn lemma_rem(c: [[R; 4]; 4], l: [[R; 4]; 4], q: [[R; 4]; 4], i: int, j: int, k: int)
    requires 0 <= i < 4, 0 <= j < 4, 0 <= k <= 4, forall|m: int| 0 <= m < k ==> #[trigger] l[i][m] == q[i][m], forall|m: int| 0 <= m < k ==> #[trigger] l[j][m] == q[j][m]
    ensures rem(c, l, i, j, k) == rem(c, q, i, j, k)
    decreases k
{ if k > 0 { lemma_rem(c, l, q, i, j, k - 1); assert(l[i][k - 1] == q[i][k - 1]); assert(l[j][k - 1] == q[j][k - 1]); } }
// one more entry leaves the ones before it
proof fn lemma_more(c: [[R; 4]; 4], l: [[R; 4]; 4], q: [[R; 4]; 4], n: int, m: int)
    requires rows(c, l, n, m), 0 <= m <= n < 4, forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 && !(i == n && j == m) ==> #[trigger] q[i][j] == l[i][j], entry(c, q, n, m)
    ensures rows(c, q, n, m + 1)
{
    assert forall|i: int, j: int| 0 <= j <= i < 4 && (i < n || (i == n && j < m + 1)) implies #[trigger] entry(c, q, i, j) by {
        if !(i == n && j == m) { assert(entry(c, l, i, j)); lemma_rem(c, l, q, i, j, j); assert(l[i][j] == q[i][j]); assert(l[j][j] == q[j][j]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < 4 implies (#[trigger] q[i][j])@ == 0real by { assert(l[i][j]@ == 0real); }
}
// L times its transpose is the matrix
pub open spec fn squares_to(l: [[R; 4]; 4], c: [[R; 4]; 4]) -> bool { forall|i: int, j: int| 0 <= j <= i < 4 ==> #[trigger] rem(c, l, i, j, j + 1) == 0real }
proof fn lemma_squares(c: [[R; 4]; 4], l: [[R; 4]; 4])
    requires rows(c, l, 4, 0)
    ensures squares_to(l, c)
{
    broadcast use axiom_sqrt;
    assert forall|i: int, j: int| 0 <= j <= i < 4 implies #[trigger] rem(c, l, i, j, j + 1) == 0real by {
        assert(entry(c, l, i, j) && entry(c, l, j, j));
        let (x, d, s) = (rem(c, l, i, j, j), l[j][j]@, rem(c, l, j, j, j));
        assert(d != 0real) by { if d == 0real { assert(d * d == 0real) by (nonlinear_arith) requires d == 0real; } }
        if i != j { assert(x / d * d == x) by (nonlinear_arith) requires d != 0real; }
    }
}
//@fn src/models/forex/fx_hhw.rs fn cholesky_4x4
//@local __k0: usize
//@params c
//@spec
    ensures r is Some ==> rows(*c, r.unwrap(), 4, 0) && squares_to(r.unwrap(), *c),
        r is None ==> exists|l: [[R; 4]; 4], n: int| 0 <= n < 4 && rows(*c, l, n, n) && #[trigger] rem(*c, l, n, n, n) <= 0real
//@entry
    broadcast use axiom_sqrt;
//@loop 0
    invariant 0 <= __k0 <= 4, __n0 == 4usize, rows(*c, l, __k0 as int, 0),
    decreases 4 - __k0
//@loop 1
    invariant 0 <= __k1 <= i + 1, __n1 == i, i < 4, __k0 == i + 1, __n0 == 4usize, rows(*c, l, i as int, __k1 as int),
    decreases i + 1 - __k1
//@loop 1 begin
    let ghost l0 = l;
    let ghost m = __k1 as int;
    proof {
        assert(rem(*c, l, i as int, m, 0) == c[i as int][m]@);
        if i != m { assert(entry(*c, l, m, m)); let s = rem(*c, l, m, m, m); assert(s > 0real); assert(rsqrt(s) != 0real) by { broadcast use axiom_sqrt; if rsqrt(s) == 0real { assert(rsqrt(s) * rsqrt(s) == 0real) by (nonlinear_arith) requires rsqrt(s) == 0real; } } }
    }
//@loop 1 end
    proof {
        lemma_rem(*c, l0, l, i as int, j as int, j as int);
        assert(entry(*c, l, i as int, j as int));
        lemma_more(*c, l0, l, i as int, j as int);
    }
//@loop 2
    invariant 0 <= __k2 <= j, __n2 == j, j <= i, i < 4, sum@ == rem(*c, l, i as int, j as int, __k2 as int),
    decreases j - __k2
//@exit
    proof { if rows(*c, l, 4, 0) { lemma_squares(*c, l); } }
//@end
// inner product of the first k entries of rows i and j
pub open spec fn dot(l: [[R; 4]; 4], i: int, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { dot(l, i, j, k - 1) + l[i][k - 1]@ * l[j][k - 1]@ } }
// lower triangular with a positive diagonal, and its square is the correlation matrix, in the rows before n and the first m entries of row n
pub open spec fn factors(l: [[R; 4]; 4], q: Correlation4x4, n: int, m: int) -> bool {
    (forall|i: int, j: int| 0 <= j <= i < 4 && (i < n || (i == n && j < m)) ==> #[trigger] dot(l, i, j, j + 1) == q.m(i, j))
        && (forall|i: int| 0 <= i < n ==> (#[trigger] l[i][i])@ > 0real)
        && (forall|i: int, j: int| 0 <= i < j < 4 ==> (#[trigger] l[i][j])@ == 0real)
}
proof fn lemma_dot(c: [[R; 4]; 4], l: [[R; 4]; 4], i: int, j: int, k: int) requires 0 <= k ensures rem(c, l, i, j, k) == c[i][j]@ - dot(l, i, j, k) decreases k { if k > 0 { lemma_dot(c, l, i, j, k - 1); } }
proof fn lemma_factors(c: [[R; 4]; 4], l: [[R; 4]; 4], q: Correlation4x4, n: int, m: int)
    requires rows(c, l, n, m), 0 <= m <= n <= 4, forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> (#[trigger] c[i][j])@ == q.m(i, j)
    ensures factors(l, q, n, m)
{
    broadcast use axiom_sqrt;
    assert forall|i: int, j: int| 0 <= j <= i < 4 && (i < n || (i == n && j < m)) implies #[trigger] dot(l, i, j, j + 1) == q.m(i, j) by {
        assert(entry(c, l, i, j) && entry(c, l, j, j));
        let (x, d, s) = (rem(c, l, i, j, j), l[j][j]@, rem(c, l, j, j, j));
        assert(d != 0real) by { if d == 0real { assert(d * d == 0real) by (nonlinear_arith) requires d == 0real; } }
        if i != j { assert(x / d * d == x) by (nonlinear_arith) requires d != 0real; }
        lemma_dot(c, l, i, j, j); lemma_dot(c, l, i, j, j + 1);
        assert(c[i][j]@ == q.m(i, j));
    }
    assert forall|i: int| 0 <= i < n implies (#[trigger] l[i][i])@ > 0real by {
        assert(entry(c, l, i, i));
        let d = l[i][i]@;
        if d == 0real { assert(d * d == 0real) by (nonlinear_arith) requires d == 0real; }
    }
}
//@fn src/models/forex/fx_hhw.rs impl Correlation4x4 :: cholesky => impl Correlation4x4
//@spec
    ensures r is Some ==> factors(r.unwrap(), *self, 4, 0),
        r is None ==> exists|l: [[R; 4]; 4], n: int| 0 <= n < 4 && #[trigger] factors(l, *self, n, n) && dot(l, n, n, n) >= 1real
//@site cholesky_4x4
    proof {
        assert forall|l: [[R; 4]; 4]| #[trigger] rows(c, l, 4, 0) implies factors(l, *self, 4, 0) by { lemma_factors(c, l, *self, 4, 0); }
        assert forall|l: [[R; 4]; 4], n: int| 0 <= n < 4 && rows(c, l, n, n) && #[trigger] rem(c, l, n, n, n) <= 0real implies factors(l, *self, n, n) && dot(l, n, n, n) >= 1real by { lemma_factors(c, l, *self, n, n); lemma_dot(c, l, n, n, n); assert(c[n][n]@ == self.m(n, n)); }
    }
//@end
//@fn src/models/forex/fx_hhw.rs impl Correlation4x4 :: is_valid => impl Correlation4x4
//@spec
    ensures r ==> exists|l: [[R; 4]; 4]| #[trigger] factors(l, *self, 4, 0),
        !r ==> exists|l: [[R; 4]; 4], n: int| 0 <= n < 4 && #[trigger] factors(l, *self, n, n) && dot(l, n, n, n) >= 1real
//@end
//@item src/models/forex/fx_hhw.rs :: struct FxHhwParams
//@item src/models/forex/fx_hhw.rs :: struct FxHhwState
//@fn src/models/forex/fx_hhw.rs impl FxHhwState :: initial => impl FxHhwState
//@params p
//@spec
    ensures r.fx == p.fx_0, r.variance == p.heston.sigma_0, r.rd == p.rd_0, r.rf == p.rf_0
//@end
// the drift targets of the two rates: some function of time, possibly with a state of its own
#[verifier::external_body]
pub struct Targets { x: u8 }
impl Targets {
    pub uninterp spec fn after(&self, t: real) -> (Targets, real, real);
    #[verifier::external_body]
    pub fn at(&mut self, t: R) -> (r: (R, R)) ensures (*final(self), r.0@, r.1@) == old(self).after(t@) { unimplemented!() }
    pub open spec fn constant(&self, c: real, d: real) -> bool { forall|t: real| #[trigger] self.after(t) == (*self, c, d) }
    #[verifier::external_body]
    pub fn constantly(c: R, d: R) -> (r: Targets) ensures r.constant(c@, d@) { unimplemented!() }
}
// a closure put in a box is those targets
pub trait Closure: Sized { spec fn boxed(self) -> Targets; fn into_box(self) -> (r: Targets) ensures r == self.boxed(); }
//@type Box<dyn FnMut(f64) -> (f64, f64) + 'static> => Targets
//@item src/models/forex/fx_hhw.rs :: struct FxHhwSimulator
impl FxHhwSimulator {
    pub open spec fn same(&self, o: &Self) -> bool { self.params == o.params && self.chol == o.chol }
}
//@fn src/models/forex/fx_hhw.rs impl FxHhwSimulator :: new => impl FxHhwSimulator
//@params p, seed
//@subst Box::new(move |_t| (td, tf)) => Targets::constantly(td, tf)
//@spec
    ensures r is Ok ==> ({ let s = r.unwrap(); s.params == p && factors(s.chol, p.correlations, 4, 0) && s.rng == seeded(seed) && s.theta_fn.constant(p.theta_d@, p.theta_f@) }),
        r is Err ==> exists|l: [[R; 4]; 4], n: int| 0 <= n < 4 && #[trigger] factors(l, p.correlations, n, n) && dot(l, n, n, n) >= 1real
//@end
//@fn src/models/forex/fx_hhw.rs impl FxHhwSimulator :: with_theta_fn => impl FxHhwSimulator
//@bound F: Closure
//@subst Box::new(f) => f.into_box()
//@params h
//@spec
    ensures r.same(&self), r.rng == self.rng, r.theta_fn == h.boxed()
//@end
// four draws, in order, and the generator after them
pub open spec fn draws(g: ChaCha20Rng, n: nat) -> ChaCha20Rng decreases n { if n == 0 { g } else { next_normal(draws(g, (n - 1) as nat)).0 } }
pub open spec fn draw(g: ChaCha20Rng, i: nat) -> real { next_normal(draws(g, i)).1 }
// the i-th correlated increment: row i of the factor times the draws
pub open spec fn mixed(l: [[R; 4]; 4], g: ChaCha20Rng, i: int, k: int) -> real decreases k { if k <= 0 { 0real } else { mixed(l, g, i, k - 1) + l[i][k - 1]@ * draw(g, (k - 1) as nat) } }
pub open spec fn incr(l: [[R; 4]; 4], g: ChaCha20Rng, i: int, dt: real) -> real { mixed(l, g, i, i + 1) * rsqrt(dt) }
pub struct Hhw { pub fx: real, pub v: real, pub rd: real, pub rf: real }
impl FxHhwState { pub open spec fn of(&self) -> Hhw { Hhw { fx: self.fx@, v: self.variance@, rd: self.rd@, rf: self.rf@ } } }
pub open spec fn evolve(p: FxHhwParams, l: [[R; 4]; 4], g: ChaCha20Rng, s: Hhw, dt: real, td: real, tf: real) -> Hhw {
    let v = rmax(s.v, 0real);
    let w = rsqrt(v);
    Hhw {
        fx: rexp(rln(s.fx) + (s.rd - s.rf - (5real / 10real) * v) * dt + w * incr(l, g, 0, dt)),
        v: rmax(v + p.heston.kappa@ * (p.heston.theta@ - v) * dt + p.heston.gamma@ * w * incr(l, g, 1, dt), 0real),
        rd: s.rd + p.domestic.mean_reversion@ * (td - s.rd) * dt + p.domestic.sigma@ * incr(l, g, 2, dt),
        rf: s.rf + (p.foreign.mean_reversion@ * (tf - s.rf) - p.foreign.sigma@ * p.correlations.rho_xi_f@ * w) * dt + p.foreign.sigma@ * incr(l, g, 3, dt),
    }
}
//@fn src/models/forex/fx_hhw.rs impl FxHhwSimulator :: step_at_time => impl FxHhwSimulator
//@params st, dt, td, tf
//@local __k0: usize
//@spec
    requires dt@ > 0real, st.fx@ > 0real
    ensures final(self).same(old(self)), final(self).theta_fn == old(self).theta_fn, final(self).rng == draws(old(self).rng, 4),
        r.0.of() == evolve(old(self).params, old(self).chol, old(self).rng, st.of(), dt@, td@, tf@), r.0.fx@ > 0real,
        forall|i: int| 0 <= i < 4 ==> (#[trigger] r.1[i])@ == incr(old(self).chol, old(self).rng, i, dt@)
//@entry
    let ghost g0 = self.rng;
    broadcast use axiom_sqrt, axiom_exp;
    proof { reveal_with_fuel(draws, 5); }
//@loop 0
    invariant 0 <= __k0 <= 4, __n0 == 4usize, self.same(old(self)), self.theta_fn == old(self).theta_fn, self.rng == draws(g0, 4), g0 == old(self).rng, sqrt_dt@ == rsqrt(dt@), forall|i: int| 0 <= i < 4 ==> (#[trigger] z[i])@ == draw(g0, i as nat),
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] dw[i])@ == incr(self.chol, g0, i, dt@),
    decreases 4 - __k0
//@loop 1
    invariant 0 <= __k1 <= i + 1, __n1 == i, i < 4, s@ == mixed(self.chol, g0, i as int, __k1 as int), forall|i: int| 0 <= i < 4 ==> (#[trigger] z[i])@ == draw(g0, i as nat),
    decreases i + 1 - __k1
//@end
//@fn src/models/forex/fx_hhw.rs impl FxHhwSimulator :: step => impl FxHhwSimulator
//@params st, dt
//@spec
    requires dt@ > 0real, st.fx@ > 0real
    ensures final(self).same(old(self)), final(self).theta_fn == old(self).theta_fn, final(self).rng == draws(old(self).rng, 4),
        r.0.of() == evolve(old(self).params, old(self).chol, old(self).rng, st.of(), dt@, old(self).params.theta_d@, old(self).params.theta_f@), r.0.fx@ > 0real,
        forall|i: int| 0 <= i < 4 ==> (#[trigger] r.1[i])@ == incr(old(self).chol, old(self).rng, i, dt@)
//@end
//@type Self::State => FxHhwState
//@fn src/models/forex/fx_hhw.rs impl SimulationModel for FxHhwSimulator :: initial_state => impl FxHhwSimulator
//@spec
    ensures r.of() == start(self.params)
//@end
// n equal steps of one path under the constant targets
pub open spec fn start(p: FxHhwParams) -> Hhw { Hhw { fx: p.fx_0@, v: p.heston.sigma_0@, rd: p.rd_0@, rf: p.rf_0@ } }
pub open spec fn path(p: FxHhwParams, l: [[R; 4]; 4], g: ChaCha20Rng, dt: real, n: nat) -> Hhw decreases n {
    if n == 0 { start(p) } else { evolve(p, l, draws(g, (4 * (n - 1)) as nat), path(p, l, g, dt, (n - 1) as nat), dt, p.theta_d@, p.theta_f@) }
}
proof fn lemma_draws(g: ChaCha20Rng, a: nat, b: nat) ensures draws(draws(g, a), b) == draws(g, a + b) decreases b { if b > 0 { lemma_draws(g, a, (b - 1) as nat); } }
//@fn src/models/forex/fx_hhw.rs impl FxHhwSimulator :: simulate => impl FxHhwSimulator
//@params end, n, m
//@local terminals: Vec<FxHhwState>
//@spec
    requires n > 0, m > 0, end@ > 0real, old(self).params.fx_0@ > 0real
    ensures final(self).same(old(self)), final(self).theta_fn == old(self).theta_fn, r.len() == m, ({ let (p, l, g, dt) = (old(self).params, old(self).chol, old(self).rng, end@ / (n as int as real));
        &&& final(self).rng == draws(g, (4 * n * m) as nat)
        &&& forall|i: int| 0 <= i < m ==> (#[trigger] r[i]).of() == path(p, l, draws(g, (4 * n * i) as nat), dt, n as nat) })
//@entry
    let ghost (p, l, g, d) = (self.params, self.chol, self.rng, end@ / (n as int as real));
    proof { assert(d > 0real) by (nonlinear_arith) requires d == end@ / (n as int as real), end@ > 0real, n > 0; assert(4 * n * 0 == 0) by (nonlinear_arith); }
//@loop 0
    invariant 0 <= __k0 <= m, __n0 == m, n_steps == n, self.params == p, self.chol == l, self.theta_fn == old(self).theta_fn, self.same(old(self)), n > 0, dt@ == d, d > 0real, p.fx_0@ > 0real, terminals.len() == __k0, self.rng == draws(g, (4 * n * __k0) as nat), 0 <= 4 * n * __k0,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] terminals[i]).of() == path(p, l, draws(g, (4 * n * i) as nat), d, n as nat),
    decreases m - __k0
//@loop 0 begin
    let ghost (i0, o0) = (__k0 as int, terminals@);
    proof { assert(4 * n * (i0 + 1) == 4 * n * i0 + 4 * n) by (nonlinear_arith); }
//@loop 0 end
    proof { assert forall|i: int| 0 <= i < i0 implies #[trigger] terminals@[i] == o0[i] by {} lemma_draws(g, (4 * n * i0) as nat, (4 * n) as nat); }
//@loop 1
    invariant 0 <= __k1 <= n, __n1 == n, self.params == p, self.chol == l, self.theta_fn == old(self).theta_fn, self.same(old(self)), n > 0, dt@ == d, d > 0real, state.fx@ > 0real,
        self.rng == draws(draws(g, (4 * n * i0) as nat), (4 * __k1) as nat), state.of() == path(p, l, draws(g, (4 * n * i0) as nat), d, __k1 as nat),
    decreases n - __k1
//@loop 1 begin
    proof { lemma_draws(draws(g, (4 * n * i0) as nat), (4 * __k1) as nat, 4); }
//@end
// the simulation model's step takes the targets of the time it is given
//@fn src/models/forex/fx_hhw.rs impl SimulationModel for FxHhwSimulator :: step => impl FxHhwSimulator
//@name model_step
//@params st, t, dt
//@subst (self.theta_fn)(t) => self.theta_fn.at(t)
//@spec
    requires dt@ > 0real, st.fx@ > 0real
    ensures final(self).same(old(self)), final(self).rng == draws(old(self).rng, 4), ({ let (f, td, tf) = old(self).theta_fn.after(t@);
        final(self).theta_fn == f && r.of() == evolve(old(self).params, old(self).chol, old(self).rng, st.of(), dt@, td, tf) })
//@end
