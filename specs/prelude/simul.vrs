// Monte Carlo over dates: contracts discharged against src/models/common/simulation.rs.
//@type &dyn DayCounters => &Dcc
//@call .binary_search => &search_dates
//@call .clone => &copy_of
//@call .to_vec => dates_of
//@call .unwrap_or => result_or
// Result::unwrap_or of the standard library
pub fn result_or<T, E>(r: core::result::Result<T, E>, d: T) -> (x: T) ensures x == (match r { Ok(y) => y, Err(_) => d }) { match r { Ok(y) => y, Err(_) => d } }
#[derive(Clone, Copy)]
pub struct Days { pub n: u64 }
impl Days { pub fn new(n: u64) -> (r: Days) ensures r.n == n { Days { n } } }
impl NaiveDate {
    #[verifier::external_body]
    pub fn checked_add_days(self, d: Days) -> (r: Option<NaiveDate>)
        ensures DMIN <= self@ + d.n <= DMAX ==> r is Some, r is Some ==> r->0@ == self@ + d.n
    { unimplemented!() }
}
// Clone gives an equal value
#[verifier::external_body]
pub fn copy_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vec_rep<T>(x: T, n: usize) -> (r: Vec<T>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == x { unimplemented!() }
#[verifier::external_body]
pub fn dates_of(x: &[NaiveDate]) -> (r: Vec<NaiveDate>) ensures r@ == x@ { unimplemented!() }
//@include datevec.vrs
#[verifier::external_body]
pub fn search_dates(v: &Vec<NaiveDate>, d: &NaiveDate) -> (r: core::result::Result<usize, usize>)
    requires rising(v@)
    ensures match r { Ok(i) => i < v.len() && v[i as int]@ == d@, Err(_) => !holds(v@, d@) }
{ unimplemented!() }
// a model is what it does: its initial state, and its next self and state after a step
pub trait SimulationModel: Sized {
    type State;
    spec fn init(&self) -> Self::State;
    spec fn after(&self, s: Self::State, t: real, dt: real) -> (Self, Self::State);
    fn initial_state(&self) -> (r: Self::State) ensures r == self.init();
    fn step(&mut self, s: &Self::State, t: R, dt: R) -> (r: Self::State) ensures (*final(self), r) == old(self).after(*s, t@, dt@);
}
//@item src/models/common/simulation.rs :: struct DatedPaths
// the integration grid: valuation, every step-th day before the last observation, and all observations
pub open spec fn on_grid(d: int, v: int, obs: Seq<NaiveDate>, last: int, step: int) -> bool { d == v || holds(obs, d) || v < d < last && (d - v) % step == 0 }
pub open spec fn is_last(obs: Seq<NaiveDate>, last: int) -> bool { holds(obs, last) && forall|i: int| 0 <= i < obs.len() ==> (#[trigger] obs[i])@ <= last }
pub open spec fn is_grid(g: Seq<NaiveDate>, v: int, obs: Seq<NaiveDate>, step: int) -> bool {
    climbing(g) && exists|last: int| #[trigger] is_last(obs, last) && forall|d: int| #[trigger] holds(g, d) == on_grid(d, v, obs, last, step)
}
// model and state after the first i grid intervals of one path
pub open spec fn run<M: SimulationModel>(m: M, v: int, g: Seq<NaiveDate>, dc: Dcc, i: int) -> (M, M::State) decreases i {
    if i <= 0 { (m, m.init()) } else {
        let (x, s) = run(m, v, g, dc, i - 1);
        let (a, b) = (yfd(dc, v, g[i - 1]@), yfd(dc, v, g[i]@));
        if b - a > 0real { x.after(s, (a + b) / 2real, b - a) } else { (x, s) }
    }
}
// the model after p whole paths
pub open spec fn runs<M: SimulationModel>(m: M, v: int, g: Seq<NaiveDate>, dc: Dcc, p: int) -> M decreases p {
    if p <= 0 { m } else { run(runs(m, v, g, dc, p - 1), v, g, dc, g.len() - 1).0 }
}
pub open spec fn captured<M: SimulationModel>(m: M, v: int, g: Seq<NaiveDate>, dc: Dcc, d: int, s: M::State) -> bool {
    exists|i: int| 0 <= i < g.len() && (#[trigger] g[i])@ == d && s == run(m, v, g, dc, i).1
}
pub open spec fn simulated<M: SimulationModel>(m: M, v: int, g: Seq<NaiveDate>, dc: Dcc, obs: Seq<NaiveDate>, paths: Seq<Vec<M::State>>) -> bool {
    forall|p: int| 0 <= p < paths.len() ==> (#[trigger] paths[p]).len() == obs.len() && forall|k: int| 0 <= k < obs.len() ==> captured(runs(m, v, g, dc, p), v, g, dc, obs[k]@, #[trigger] paths[p][k])
}
pub open spec fn ladder(d: int, v: int, cur: int, last: int, step: int) -> bool { v <= d <= cur && ((d - v) % step == 0 || d == last) }
proof fn lemma_push(s: Seq<NaiveDate>, x: NaiveDate, d: int) ensures holds(s.push(x), d) == (holds(s, d) || d == x@)
{
    let t = s.push(x);
    assert(t[s.len() as int]@ == x@);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == t[i] by {}
    if holds(s, d) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == d; assert(t[i]@ == d); }
    if holds(t, d) && d != x@ { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == d; assert(s[i]@ == d); }
}
proof fn lemma_rung(c: int, v: int, last: int, step: int) requires step > 0, c < last, (c - v) % step == 0 ensures (c + step - v) % step == 0
{ vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(c - v, step); }
proof fn lemma_gap(c: int, v: int, step: int, d: int) requires step > 0, (c - v) % step == 0 ensures c < d < c + step ==> (d - v) % step != 0
{
    if c < d < c + step && (d - v) % step == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c - v, step); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d - v, step);
        let (x, y) = ((c - v) / step, (d - v) / step);
        assert(step * (y - x) == d - c) by (nonlinear_arith) requires c - v == step * x, d - v == step * y;
        assert(false) by (nonlinear_arith) requires 0 < step * (y - x) < step, step > 0;
    }
}
// where each observation sits on the grid
pub open spec fn placed(ix: Seq<usize>, g: Seq<NaiveDate>, obs: Seq<NaiveDate>) -> bool {
    &&& ix.len() == obs.len()
    &&& forall|i: int| 0 <= i < ix.len() ==> 1 <= (#[trigger] ix[i]) < g.len() && g[ix[i] as int]@ == obs[i]@
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> (#[trigger] ix[i]) <= (#[trigger] ix[j])
}
pub open spec fn path_ok<M: SimulationModel>(m: M, v: int, g: Seq<NaiveDate>, dc: Dcc, obs: Seq<NaiveDate>, p: Seq<M::State>, at: int) -> bool {
    p.len() == obs.len() && forall|k: int| 0 <= k < obs.len() ==> captured(runs(m, v, g, dc, at), v, g, dc, obs[k]@, #[trigger] p[k])
}
proof fn lemma_sorted(os: Seq<NaiveDate>, obs: Seq<NaiveDate>)
    requires rising(obs), os.len() > 0, same_dates(obs, os)
    ensures is_last(os, obs[obs.len() - 1]@)
{
    let l = obs[obs.len() - 1]@;
    assert(holds(obs, l)); assert(holds(os, l));
    assert forall|i: int| 0 <= i < os.len() implies (#[trigger] os[i])@ <= l by { let x = os[i]@; assert(holds(obs, x) == holds(os, x)); assert(holds(os, x)); let j = choose|j: int| 0 <= j < obs.len() && (#[trigger] obs[j])@ == os[i]@; assert(j == obs.len() - 1 || obs[j]@ <= l); }
}
proof fn lemma_within(os: Seq<NaiveDate>, z: Seq<NaiveDate>, lo: int, hi: int)
    requires same_dates(z, os), within(os, lo, hi)
    ensures within(z, lo, hi)
{
    assert forall|i: int| 0 <= i < z.len() implies lo < (#[trigger] z[i])@ <= hi by { let x = z[i]@; assert(holds(z, x)); let j = choose|j: int| 0 <= j < os.len() && (#[trigger] os[j])@ == x; }
}
proof fn lemma_placed(ix: Seq<usize>, g: Seq<NaiveDate>, obs: Seq<NaiveDate>, v: int)
    requires ix.len() == obs.len(), climbing(g), rising(obs), holds(g, v), forall|i: int| 0 <= i < obs.len() ==> v < (#[trigger] obs[i])@,
        forall|i: int| 0 <= i < ix.len() ==> (#[trigger] ix[i]) < g.len() && g[ix[i] as int]@ == obs[i]@
    ensures placed(ix, g, obs)
{
    let z = choose|z: int| 0 <= z < g.len() && (#[trigger] g[z])@ == v;
    assert(g[0]@ <= v);
    assert forall|i: int| 0 <= i < ix.len() implies 1 <= (#[trigger] ix[i]) by { assert(obs[i]@ > v); if ix[i] == 0 { assert(g[ix[i] as int]@ == obs[i]@); } }
    assert forall|i: int, j: int| 0 <= i < j < ix.len() implies (#[trigger] ix[i]) <= (#[trigger] ix[j]) by {
        assert(obs[i]@ <= obs[j]@);
        if ix[j] < ix[i] { assert(g[ix[j] as int]@ < g[ix[i] as int]@); }
    }
}
proof fn lemma_grid(g: Seq<NaiveDate>, v: int, obs: Seq<NaiveDate>, os: Seq<NaiveDate>, last: int, step: int)
    requires climbing(g), step > 0, is_last(os, last), last > v, forall|d: int| #[trigger] holds(obs, d) == holds(os, d),
        forall|d: int| #[trigger] holds(g, d) == (ladder(d, v, last, last, step) || holds(obs, d))
    ensures is_grid(g, v, os, step)
{
    assert forall|d: int| #[trigger] holds(g, d) == on_grid(d, v, os, last, step) by { vstd::arithmetic::div_mod::lemma_small_mod(0, step as nat); assert(holds(obs, d) == holds(os, d)); }
}
//@fn src/models/common/simulation.rs fn simulate_at_dates
//@params model, v, obs, n, step, dc
//@local __acc3: Vec<usize>
//@local __acc4: Vec<R>
//@spec
    requires n > 0, step > 0, obs.len() > 0, forall|i: int| 0 <= i < obs.len() ==> v@ < (#[trigger] obs[i])@ <= DMAX - step, DMIN <= v@,
    ensures r.valuation_date == v, rising(r.observation_dates@), r.observation_dates@.to_multiset() == obs@.to_multiset(), r.paths.len() == n,
        exists|g: Seq<NaiveDate>| #[trigger] is_grid(g, v@, obs@, step as int) && simulated(*old(model), v@, g, *dc, r.observation_dates@, r.paths@) && *final(model) == runs(*old(model), v@, g, *dc, n as int)
//@entry
    let ghost m0 = *model;
    let ghost os = obs@;
    proof {
        assert forall|z: Seq<NaiveDate>| #[trigger] rising(z) && same_dates(z, os) implies within(z, v@, DMAX - step) && is_last(os, z[z.len() - 1]@) by { lemma_sorted(os, z); lemma_within(os, z, v@, DMAX - step); }
        assert forall|g: Seq<NaiveDate>, d: int| #![trigger holds(g, d)] g.len() == 1 implies holds(g, d) == (d == g[0]@) by { if d == g[0]@ { assert(holds(g, d)); } }
        vstd::arithmetic::div_mod::lemma_small_mod(0, step as nat);
    }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == observation_dates.len(), __s0@ == observation_dates@, valuation_date == v, observation_dates@ == os,
        forall|i: int| 0 <= i < os.len() ==> v@ < (#[trigger] os[i])@ <= DMAX - step,
    decreases __n0 - __k0
//@loop 1
    invariant v@ <= cur@ <= last@ <= DMAX - step, DMIN <= v@, step > 0, max_step_days == step, cur@ == last@ || (cur@ - v@) % (step as int) == 0,
        forall|d: int| #[trigger] holds(grid@, d) == ladder(d, v@, cur@, last@, step as int),
    decreases last@ - cur@
//@loop 1 begin
    let ghost g0 = grid@;
    let ghost c0 = cur@;
//@loop 1 end
    proof {
        lemma_rung(c0, v@, last@, step as int);
        assert forall|d: int| #[trigger] holds(grid@, d) == ladder(d, v@, cur@, last@, step as int) by { lemma_push(g0, capped, d); assert(holds(g0, d) == ladder(d, v@, c0, last@, step as int)); assert(grid@ == g0.push(capped)); lemma_gap(c0, v@, step as int, d); }
    }
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == obs.len(), __s1@ == obs@, 
        forall|d: int| #[trigger] holds(grid@, d) == (ladder(d, v@, last@, last@, step as int) || holds(obs@.take(__k2 as int), d)),
    decreases __n2 - __k2
//@loop 2 begin
    let ghost g1 = grid@;
    let ghost at = __k2 as int;
//@loop 2 end
    proof {
        assert(obs@.take(at + 1) =~= obs@.take(at).push(*d));
        assert forall|x: int| #[trigger] holds(grid@, x) == (ladder(x, v@, last@, last@, step as int) || holds(obs@.take(at + 1), x)) by { lemma_push(g1, *d, x); lemma_push(obs@.take(at), *d, x); assert(holds(g1, x) == (ladder(x, v@, last@, last@, step as int) || holds(obs@.take(at), x))); }
    }
//@loop 2 after
    proof { assert(obs@.take(obs.len() as int) =~= obs@); }
//@loop 3
    invariant 0 <= __k3 <= __n3, __n3 == obs.len(), __s3@ == obs@, __acc3.len() == __k3, rising(grid@),
        forall|i: int| 0 <= i < obs.len() ==> holds(grid@, (#[trigger] obs[i])@),
        forall|i: int| 0 <= i < __k3 ==> (#[trigger] __acc3[i]) < grid.len() && grid[__acc3[i] as int]@ == obs[i]@,
    decreases __n3 - __k3
//@loop 4
    invariant 0 <= __k4 <= __n4, __n4 == grid.len(), __s5@ == grid@, __acc4.len() == __k4, valuation_date == v, day_counter == dc,
        forall|i: int| 0 <= i < __k4 ==> (#[trigger] __acc4[i])@ == yfd(*dc, v@, grid[i]@),
    decreases __n4 - __k4
//@loop 4 after
    proof { lemma_placed(obs_indices@, grid@, obs@, v@); lemma_grid(grid@, v@, obs@, os, last@, step as int); }
//@loop 5
    invariant 0 <= __k5 <= __n5, __n5 == n, paths.len() == n, *model == runs(m0, v@, grid@, *dc, __k5 as int), placed(obs_indices@, grid@, obs@), yf.len() == grid.len(), grid.len() > 0,
        forall|i: int| 0 <= i < yf.len() ==> (#[trigger] yf[i])@ == yfd(*dc, v@, grid[i]@),
        forall|p: int| 0 <= p < __k5 ==> path_ok(m0, v@, grid@, *dc, obs@, #[trigger] paths[p]@, p),
        forall|p: int| __k5 <= p < n ==> (#[trigger] paths[p]).len() == 0,
    decreases __n5 - __k5
//@loop 6
    invariant 1 <= __k6 <= __n6, __n6 == grid.len(), placed(obs_indices@, grid@, obs@), yf.len() == grid.len(),
        forall|i: int| 0 <= i < yf.len() ==> (#[trigger] yf[i])@ == yfd(*dc, v@, grid[i]@),
        (*model, state) == run(mp, v@, grid@, *dc, __k6 - 1), path.len() == next_obs, next_obs <= obs.len(),
        forall|k: int| 0 <= k < next_obs ==> captured(mp, v@, grid@, *dc, obs[k]@, #[trigger] path[k]),
        forall|k: int| next_obs <= k < obs.len() ==> (#[trigger] obs_indices[k]) >= __k6,
    decreases __n6 - __k6
//@loop 7
    invariant 1 <= i < grid.len(), placed(obs_indices@, grid@, obs@), state == run(mp, v@, grid@, *dc, i as int).1, path.len() == next_obs, next_obs <= obs.len(),
        forall|k: int| 0 <= k < next_obs ==> captured(mp, v@, grid@, *dc, obs[k]@, #[trigger] path[k]),
        forall|k: int| next_obs <= k < obs.len() ==> (#[trigger] obs_indices[k]) >= i,
    decreases obs.len() - next_obs
//@loop 5 begin
    let ghost mp = *model;
    let ghost at = __k5 as int;
//@loop 5 end
    proof {
        assert(next_obs == obs.len()) by { if next_obs < obs.len() { assert(obs_indices[next_obs as int] >= grid.len()); } }
        assert(path_ok(m0, v@, grid@, *dc, obs@, path@, at));
    }
//@end
impl<S> DatedPaths<S> {
    pub open spec fn ok(self) -> bool { rising(self.observation_dates@) && forall|p: int| 0 <= p < self.paths.len() ==> (#[trigger] self.paths[p]).len() == self.observation_dates.len() }
}
//@fn src/models/common/simulation.rs impl DatedPaths<S> :: states_at => impl<S> DatedPaths<S>
//@params d
//@spec
    requires self.ok()
    ensures match r {
            Some(xs) => xs.len() == self.paths.len() && exists|k: int| 0 <= k < self.observation_dates.len() && (#[trigger] self.observation_dates[k])@ == d@ && forall|p: int| 0 <= p < xs.len() ==> #[trigger] xs[p] == self.paths[p][k],
            None => !holds(self.observation_dates@, d@) }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.paths.len(), __s1@ == self.paths@, self.ok(), idx < self.observation_dates.len(), __acc0.len() == __k0,
        forall|p: int| 0 <= p < __k0 ==> #[trigger] __acc0[p] == self.paths[p][idx as int],
    decreases __n0 - __k0
//@end
//@include rng.vrs
//@type Self::State => R
//@item src/models/common/simulation.rs :: struct BrownianMotion
//@item src/models/common/simulation.rs :: struct GeometricBrownianMotion
//@fn src/models/common/simulation.rs impl SimulationModel for BrownianMotion :: initial_state => impl BrownianMotion
//@spec
    ensures r == self.x_0
//@end
//@fn src/models/common/simulation.rs impl SimulationModel for BrownianMotion :: step => impl BrownianMotion
//@params s, t, dt
//@spec
    requires dt@ >= 0real
    ensures ({ let (g, z) = next_normal(old(self).rng); final(self).rng == g && r@ == s@ + old(self).drift@ * dt@ + old(self).volatility@ * rsqrt(dt@) * z }),
        final(self).x_0 == old(self).x_0, final(self).drift == old(self).drift, final(self).volatility == old(self).volatility
//@end
//@fn src/models/common/simulation.rs impl SimulationModel for GeometricBrownianMotion :: initial_state => impl GeometricBrownianMotion
//@spec
    ensures r == self.s_0
//@end
//@fn src/models/common/simulation.rs impl SimulationModel for GeometricBrownianMotion :: step => impl GeometricBrownianMotion
//@params s, t, dt
//@spec
    requires dt@ >= 0real
    ensures ({ let (g, z) = next_normal(old(self).rng); final(self).rng == g && r@ == s@ * rexp((old(self).drift@ - old(self).volatility@ * old(self).volatility@ / 2real) * dt@ + old(self).volatility@ * rsqrt(dt@) * z) }),
        final(self).s_0 == old(self).s_0, final(self).drift == old(self).drift, final(self).volatility == old(self).volatility
//@entry
    proof { let v = self.volatility@; assert((5real / 10real) * v * v == v * v / 2real) by (nonlinear_arith); }
//@end
//@fn src/models/common/simulation.rs impl BrownianMotion :: new => impl BrownianMotion
//@params seed
//@spec
    ensures r.x_0@ == 0real, r.drift@ == 0real, r.volatility@ == 1real, r.rng == seeded(seed)
//@end
//@fn src/models/common/simulation.rs impl BrownianMotion :: with_drift => impl BrownianMotion
//@params m
//@spec
    ensures r.x_0 == self.x_0, r.drift == m, r.volatility == self.volatility, r.rng == self.rng
//@end
//@fn src/models/common/simulation.rs impl BrownianMotion :: with_volatility => impl BrownianMotion
//@params m
//@spec
    ensures r.x_0 == self.x_0, r.drift == self.drift, r.volatility == m, r.rng == self.rng
//@end
//@fn src/models/common/simulation.rs impl BrownianMotion :: with_initial => impl BrownianMotion
//@params m
//@spec
    ensures r.x_0 == m, r.drift == self.drift, r.volatility == self.volatility, r.rng == self.rng
//@end
//@fn src/models/common/simulation.rs impl GeometricBrownianMotion :: new => impl GeometricBrownianMotion
//@params s0, mu, sigma, seed
//@spec
    ensures r.s_0 == s0, r.drift == mu, r.volatility == sigma, r.rng == seeded(seed)
//@end
