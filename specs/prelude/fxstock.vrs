// FX-HHW with a foreign stock: contracts discharged against src/models/forex/fx_hhw_stock.rs
//@item src/models/forex/fx_hhw_stock.rs :: struct ForeignStock
//@item src/models/forex/fx_hhw_stock.rs :: struct FxHhwStockState
//@item src/models/forex/fx_hhw_stock.rs :: struct FxHhwStockSimulator
//@fn src/models/forex/fx_hhw_stock.rs impl FxHhwStockState :: initial => impl FxHhwStockState
//@params p, q
//@spec
    ensures r.fx.of() == start(*p), r.stock == q.s_0, r.stock_variance == q.variance.sigma_0
//@end
impl FxHhwStockSimulator {
    pub open spec fn same(&self, o: &Self) -> bool { self.fx == o.fx && self.stock == o.stock && self.base_chol == o.base_chol }
    pub open spec fn ok(&self) -> bool { self.fx.fx_0@ > 0real && self.stock.s_0@ > 0real && -1real <= self.stock.rho_xi_sf@ <= 1real && -1real <= self.stock.rho_sf_omega@ <= 1real }
}
//@fn src/models/forex/fx_hhw_stock.rs impl FxHhwStockSimulator :: new => impl FxHhwStockSimulator
//@params p, q, seed
//@spec
    ensures r is Ok ==> ({ let s = r.unwrap(); s.fx == p && s.stock == q && factors(s.base_chol, p.correlations, 4, 0) && s.rng == seeded(seed) && -1real <= q.rho_xi_sf@ <= 1real && -1real <= q.rho_sf_omega@ <= 1real }),
        r is Err ==> rabs(q.rho_xi_sf@) > 1real || rabs(q.rho_sf_omega@) > 1real || exists|l: [[R; 4]; 4], n: int| 0 <= n < 4 && #[trigger] factors(l, p.correlations, n, n) && dot(l, n, n, n) >= 1real
//@end
// the stock's normal and its variance's, from the FX draw and two of their own
pub open spec fn z_stock(q: ForeignStock, g: ChaCha20Rng) -> real { q.rho_xi_sf@ * draw(g, 0) + rsqrt(1real - q.rho_xi_sf@ * q.rho_xi_sf@) * draw(g, 4) }
pub open spec fn z_omega(q: ForeignStock, g: ChaCha20Rng) -> real { q.rho_sf_omega@ * z_stock(q, g) + rsqrt(1real - q.rho_sf_omega@ * q.rho_sf_omega@) * draw(g, 5) }
pub struct Hs { pub b: Hhw, pub s: real, pub w: real }
impl FxHhwStockState { pub open spec fn all(&self) -> Hs { Hs { b: self.fx.of(), s: self.stock@, w: self.stock_variance@ } } }
pub open spec fn evolve_s(p: FxHhwParams, q: ForeignStock, l: [[R; 4]; 4], g: ChaCha20Rng, x: Hs, dt: real) -> Hs {
    let (v, w) = (rsqrt(rmax(x.b.v, 0real)), rmax(x.w, 0real));
    let o = rsqrt(w);
    Hs {
        b: evolve(p, l, g, x.b, dt, p.theta_d@, p.theta_f@),
        s: rexp(rln(x.s) + (x.b.rf - q.rho_xi_sf@ * v * o - (5real / 10real) * w) * dt + o * (z_stock(q, g) * rsqrt(dt))),
        w: rmax(w + (q.variance.kappa@ * (q.variance.theta@ - w) - q.rho_sf_omega@ * q.rho_xi_sf@ * q.variance.gamma@ * o * v) * dt + q.variance.gamma@ * o * (z_omega(q, g) * rsqrt(dt)), 0real),
    }
}
proof fn lemma_unit(x: real) requires -1real <= x <= 1real ensures 1real - x * x >= 0real { assert(x * x <= 1real) by (nonlinear_arith) requires -1real <= x <= 1real; }
//@fn src/models/forex/fx_hhw_stock.rs impl FxHhwStockSimulator :: step => impl FxHhwStockSimulator
//@params st, dt
//@local __k0: usize
//@spec
    requires dt@ > 0real, st.fx.fx@ > 0real, st.stock@ > 0real, old(self).ok()
    ensures final(self).same(old(self)), final(self).rng == draws(old(self).rng, 6), r.all() == evolve_s(old(self).fx, old(self).stock, old(self).base_chol, old(self).rng, st.all(), dt@), r.fx.fx@ > 0real, r.stock@ > 0real
//@entry
    let ghost g0 = self.rng;
    broadcast use axiom_sqrt, axiom_exp;
    proof { reveal_with_fuel(draws, 7); lemma_unit(self.stock.rho_xi_sf@); lemma_unit(self.stock.rho_sf_omega@); }
//@loop 0
    invariant 0 <= __k0 <= 4, __n0 == 4usize, self.same(old(self)), self.rng == draws(g0, 6), g0 == old(self).rng, sqrt_dt@ == rsqrt(dt@), forall|i: int| 0 <= i < 6 ==> (#[trigger] z[i])@ == draw(g0, i as nat),
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] dw[i])@ == incr(self.base_chol, g0, i, dt@),
    decreases 4 - __k0
//@loop 1
    invariant 0 <= __k1 <= i + 1, __n1 == i, i < 4, s@ == mixed(self.base_chol, g0, i as int, __k1 as int), forall|i: int| 0 <= i < 6 ==> (#[trigger] z[i])@ == draw(g0, i as nat),
    decreases i + 1 - __k1
//@end
pub open spec fn start_s(p: FxHhwParams, q: ForeignStock) -> Hs { Hs { b: start(p), s: q.s_0@, w: q.variance.sigma_0@ } }
pub open spec fn path_s(p: FxHhwParams, q: ForeignStock, l: [[R; 4]; 4], g: ChaCha20Rng, dt: real, n: nat) -> Hs decreases n {
    if n == 0 { start_s(p, q) } else { evolve_s(p, q, l, draws(g, (6 * (n - 1)) as nat), path_s(p, q, l, g, dt, (n - 1) as nat), dt) }
}
//@fn src/models/forex/fx_hhw_stock.rs impl FxHhwStockSimulator :: simulate => impl FxHhwStockSimulator
//@params end, n, m
//@local terminals: Vec<FxHhwStockState>
//@spec
    requires n > 0, m > 0, end@ > 0real, old(self).ok()
    ensures final(self).same(old(self)), r.len() == m, ({ let (s, g, dt) = (*old(self), old(self).rng, end@ / (n as int as real));
        &&& final(self).rng == draws(g, (6 * n * m) as nat)
        &&& forall|i: int| 0 <= i < m ==> (#[trigger] r[i]).all() == path_s(s.fx, s.stock, s.base_chol, draws(g, (6 * n * i) as nat), dt, n as nat) })
//@entry
    let ghost (p, q, l, g, d) = (self.fx, self.stock, self.base_chol, self.rng, end@ / (n as int as real));
    proof { assert(d > 0real) by (nonlinear_arith) requires d == end@ / (n as int as real), end@ > 0real, n > 0; assert(6 * n * 0 == 0) by (nonlinear_arith); }
//@loop 0
    invariant 0 <= __k0 <= m, __n0 == m, n_steps == n, self.same(old(self)), self.ok(), p == self.fx, q == self.stock, l == self.base_chol, n > 0, dt@ == d, d > 0real, terminals.len() == __k0, self.rng == draws(g, (6 * n * __k0) as nat), 0 <= 6 * n * __k0,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] terminals[i]).all() == path_s(p, q, l, draws(g, (6 * n * i) as nat), d, n as nat),
    decreases m - __k0
//@loop 0 begin
    let ghost (i0, o0) = (__k0 as int, terminals@);
    proof { assert(6 * n * (i0 + 1) == 6 * n * i0 + 6 * n) by (nonlinear_arith); }
//@loop 0 end
    proof { assert forall|i: int| 0 <= i < i0 implies #[trigger] terminals@[i] == o0[i] by {} lemma_draws(g, (6 * n * i0) as nat, (6 * n) as nat); }
//@loop 1
    invariant 0 <= __k1 <= n, __n1 == n, self.same(old(self)), self.ok(), p == self.fx, q == self.stock, l == self.base_chol, n > 0, dt@ == d, d > 0real, state.fx.fx@ > 0real, state.stock@ > 0real,
        self.rng == draws(draws(g, (6 * n * i0) as nat), (6 * __k1) as nat), state.all() == path_s(p, q, l, draws(g, (6 * n * i0) as nat), d, __k1 as nat),
    decreases n - __k1
//@loop 1 begin
    proof { lemma_draws(draws(g, (6 * n * i0) as nat), (6 * __k1) as nat, 6); }
//@end
//@type Self::State => FxHhwStockState
//@fn src/models/forex/fx_hhw_stock.rs impl SimulationModel for FxHhwStockSimulator :: initial_state => impl FxHhwStockSimulator
//@spec
    ensures r.all() == start_s(self.fx, self.stock)
//@end
//@fn src/models/forex/fx_hhw_stock.rs impl SimulationModel for FxHhwStockSimulator :: step => impl FxHhwStockSimulator
//@name model_step
//@params st, t, dt
//@spec
    requires dt@ > 0real, st.fx.fx@ > 0real, st.stock@ > 0real, old(self).ok()
    ensures final(self).same(old(self)), final(self).rng == draws(old(self).rng, 6), r.all() == evolve_s(old(self).fx, old(self).stock, old(self).base_chol, old(self).rng, st.all(), dt@)
//@end
