// FxHlmm smile calibrator: contracts discharged against src/models/forex/fx_hlmm_calibrator.rs
//@call .to_vec => &copied
//@type Self::Market => MarketSmileStrip
//@type Self::Params => FxHlmmParams
//@item src/models/common/cir.rs :: struct CirProcess => #[derive(Clone, Copy)]
//@item src/models/forex/fx_hlmm.rs :: struct LiborTenor
//@item src/models/forex/fx_hlmm.rs :: struct DdSvLmm
//@item src/models/forex/fx_hlmm.rs :: struct FxHlmmCorrelations
//@item src/models/forex/fx_hlmm.rs :: struct FxHlmmParams
//@item src/models/forex/fx_hlmm_calibrator.rs :: struct CalibrationTarget
//@item src/models/forex/fx_hlmm_calibrator.rs :: struct CalibrationResult
//@item src/models/forex/fx_hlmm_calibrator.rs :: struct FxHlmmSmileCalibrator
// the COS price of a call under these parameters (C53), and the volatility implied by a price (C34): here functions of their arguments
pub uninterp spec fn call(q: FxHlmmParams, t: real, k: real, df: real) -> real;
pub uninterp spec fn implied(x: real, f: real, k: real, t: real, df: real) -> Option<real>;
// a derived clone is the value
impl Clone for FxHlmmParams { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct FxHlmm1ForwardChf { pub of: Ghost<FxHlmmParams>, pub t: Ghost<real> }
pub struct CosPricer { pub of: Ghost<FxHlmmParams>, pub t: Ghost<real> }
impl FxHlmm1ForwardChf {
    #[verifier::external_body]
    pub fn new(q: &FxHlmmParams, t: R) -> (r: Self) requires t@ > 0real, q.valid() ensures r.of@ == *q, r.t@ == t@ { unimplemented!() }
}
impl CosPricer {
    #[verifier::external_body]
    pub fn new(c: &FxHlmm1ForwardChf) -> (r: Self) ensures r.of@ == c.of@, r.t@ == c.t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&self, k: R, df: R) -> (r: R) requires k@ > 0real, df@ > 0real ensures r@ == call(self.of@, self.t@, k@, df@) { unimplemented!() }
}
#[verifier::external_body]
pub fn bs_implied_vol(x: R, f: R, k: R, t: R, df: R, c: bool) -> (r: Option<R>)
    requires f@ > 0real, k@ > 0real, t@ > 0real, df@ > 0real, c
    ensures r is Some <==> implied(x@, f@, k@, t@, df@) is Some, r is Some ==> r->0@ == implied(x@, f@, k@, t@, df@)->0
{ unimplemented!() }
impl LiborTenor {
    pub open spec fn count(&self) -> int { self.libors@.len() as int }
    pub open spec fn d(&self, j: int) -> real { self.dates@[j]@ }
    pub open spec fn t(&self, j: int) -> real { self.d(j) - self.d(j - 1) }
    pub open spec fn ok(&self) -> bool { 1 <= self.count() < 1_000_000 && self.dates@.len() == self.count() + 1 && forall|k: int| 1 <= k <= self.count() ==> 1real + self.t(k) * (#[trigger] self.libors@[k - 1])@ > 0real }
    // the discount factor over the first k periods
    pub open spec fn over(&self, k: int) -> real decreases k { if k <= 0 { 1real } else { self.over(k - 1) / (1real + self.t(k) * self.libors@[k - 1]@) } }
}
//@fn src/models/forex/fx_hlmm.rs impl LiborTenor :: n => impl LiborTenor
//@spec
    ensures r == self.count()
//@end
//@fn src/models/forex/fx_hlmm.rs impl LiborTenor :: tau => impl LiborTenor
//@params k
//@spec
    requires self.ok(), 1 <= k <= self.count()
    ensures r@ == self.t(k as int)
//@end
impl FxHlmmParams {
    // the shapes and bounds of its vectors and correlations, as proved in C55
    pub uninterp spec fn valid(&self) -> bool;
    #[verifier::external_body]
    pub fn validate(&self) -> (r: core::result::Result<(), Str>) ensures r is Ok <==> self.valid() { unimplemented!() }
    pub open spec fn ok(&self) -> bool { self.fx_0@ > 0real && self.tenor.ok() }
    // the domestic discount factor: over all periods, and at the last rate beyond them
    pub open spec fn discount(&self, t: real) -> real {
        let (q, n) = (self.tenor, self.tenor.count());
        if t > q.d(n) + 1real / 1_000_000_000_000real { q.over(n) * rexp(-q.libors@[n - 1]@ * (t - q.d(n))) } else { q.over(n) }
    }
    pub open spec fn vol(&self, k: real, t: real) -> Option<real> { implied(call(*self, t, k, self.discount(t)), self.fx_0@, k, t, self.discount(t)) }
    pub open spec fn same(&self, o: Self) -> bool { self.same_base(o) && self.correlations == (FxHlmmCorrelations { rho_xi_sigma: self.correlations.rho_xi_sigma, ..o.correlations }) }
    pub open spec fn same_base(&self, o: Self) -> bool { self.fx_0 == o.fx_0 && self.tenor == o.tenor && self.domestic == o.domestic && self.foreign == o.foreign }
    pub open spec fn with(&self, kappa: real, gamma: real, theta: real, sigma: real, rho: real) -> Self {
        FxHlmmParams { heston: CirProcess { kappa: mk_r(kappa), theta: mk_r(theta), gamma: mk_r(gamma), sigma_0: mk_r(sigma) }, correlations: FxHlmmCorrelations { rho_xi_sigma: mk_r(rho), ..self.correlations }, ..*self }
    }
}
proof fn lemma_with(q: FxHlmmParams, p: FxHlmmParams, kappa: real, gamma: real, theta: real, sigma: real, rho: real)
    requires p.same(q), p.heston.kappa@ == kappa, p.heston.gamma@ == gamma, p.heston.theta@ == theta, p.heston.sigma_0@ == sigma, p.correlations.rho_xi_sigma@ == rho
    ensures p == q.with(kappa, gamma, theta, sigma, rho)
{
    broadcast use axiom_mk_r, axiom_r_ext;
    let w = q.with(kappa, gamma, theta, sigma, rho);
    assert(p.heston.kappa@ == w.heston.kappa@ && p.heston.gamma@ == w.heston.gamma@ && p.heston.theta@ == w.heston.theta@ && p.heston.sigma_0@ == w.heston.sigma_0@ && p.correlations.rho_xi_sigma@ == w.correlations.rho_xi_sigma@);
}
proof fn lemma_over(q: LiborTenor, k: int)
    requires q.ok(), 0 <= k <= q.count()
    ensures q.over(k) > 0real
    decreases k
{
    if k > 0 {
        lemma_over(q, k - 1);
        assert(q.libors@[k - 1] == q.libors@[k - 1]);
        let (x, y) = (q.over(k - 1), 1real + q.t(k) * q.libors@[k - 1]@);
        assert(x / y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real;
    }
}
proof fn lemma_discount(q: FxHlmmParams, t: real)
    requires q.ok()
    ensures q.discount(t) > 0real
{
    broadcast use axiom_exp;
    let n = q.tenor.count();
    lemma_over(q.tenor, n);
    let (x, y) = (q.tenor.over(n), rexp(-q.tenor.libors@[n - 1]@ * (t - q.tenor.d(n))));
    assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real;
}
pub open spec fn smile(q: FxHlmmParams, ts: Seq<CalibrationTarget>, t: real) -> Seq<Option<real>> { Seq::new(ts.len(), |i: int| q.vol(ts[i].strike@, t)) }
pub open spec fn market(ts: Seq<CalibrationTarget>) -> Seq<real> { Seq::new(ts.len(), |i: int| ts[i].market_vol@) }
// invalid parameters cost as much as a missing volatility
pub open spec fn misfit(q: FxHlmmParams, ts: Seq<CalibrationTarget>, t: real) -> real { if q.valid() { loss(smile(q, ts, t), market(ts)) } else { 1_000_000real } }
pub broadcast proof fn lemma_misfit(q: FxHlmmParams, ts: Seq<CalibrationTarget>, t: real) ensures #[trigger] misfit(q, ts, t) >= 0real { broadcast use lemma_loss; }
pub open spec fn targets_ok(ts: Seq<CalibrationTarget>) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).strike@ > 0real }
pub open spec fn decoded(q: &FxHlmmParams, floor: real, x: Seq<R>) -> FxHlmmParams { q.with(floor + soft(x[0]@), soft(x[1]@), soft(x[2]@), soft(x[3]@), rtanh(x[4]@)) }
pub open spec fn same_as(a: &FxHlmmParams, b: &FxHlmmParams) -> bool { *a == *b }
pub open spec fn floor8(x: real) -> real { rmax(x, 1real / 100_000_000real) }
pub open spec fn within(x: real, lo: real, hi: real) -> real { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn rho0(q: FxHlmmParams) -> real { within(q.correlations.rho_xi_sigma@, -(999real / 1000real), 999real / 1000real) }
pub open spec fn start(q: FxHlmmParams, floor: real) -> FxHlmmParams { q.with(floor + floor8(q.heston.kappa@ - floor), floor8(q.heston.gamma@), floor8(q.heston.theta@), floor8(q.heston.sigma_0@), rho0(q)) }
pub open spec fn fitted(q: FxHlmmParams, floor: real, ts: Seq<CalibrationTarget>, t: real, p: FxHlmmParams, rmse: real, m: Minimum) -> bool {
    &&& p.same(q) && p.heston.kappa@ > floor && p.heston.gamma@ > 0real && p.heston.theta@ > 0real && p.heston.sigma_0@ > 0real && -1real < p.correlations.rho_xi_sigma@ < 1real
    &&& m.f@ == misfit(p, ts, t) && m.f@ <= misfit(start(q, floor), ts, t)
    &&& rmse == rsqrt(m.f@ / (ts.len() as real))
}
//@fn src/models/forex/fx_hlmm_calibrator.rs fn softplus
//@spec
    ensures r@ == soft(x@)
//@entry
    broadcast use axiom_exp;
//@end
//@fn src/models/forex/fx_hlmm_calibrator.rs fn inv_softplus
//@spec
    requires y@ > 0real
    ensures r@ == soft_inv(y@)
//@entry
    proof { lemma_above_one(y@); }
//@end
//@fn src/models/forex/fx_hlmm_calibrator.rs fn reify_params
//@params q, f, x
//@spec
    requires x.len() == 5
    ensures r == decoded(q, f@, x@)
//@exit
    proof { lemma_with(*q, r, f@ + soft(x@[0]@), soft(x@[1]@), soft(x@[2]@), soft(x@[3]@), rtanh(x@[4]@)); }
//@end
//@fn src/models/forex/fx_hlmm_calibrator.rs fn forward_fx
//@params q, t
//@spec
    ensures r == q.fx_0
//@end
//@fn src/models/forex/fx_hlmm_calibrator.rs fn discount_factor
//@params q, t
//@spec
    requires q.ok()
    ensures r@ == q.discount(t@), r@ > 0real
//@entry
    proof { lemma_discount(*q, t@); }
//@loop 0
    invariant 1 <= __k0 <= __n0 + 1, __n0 == q.tenor.count(), q.ok(), tenor == q.tenor, p@ == q.tenor.over(__k0 as int - 1)
    decreases __n0 + 1 - __k0
//@loop 0 begin
    proof { assert(q.tenor.libors@[__k0 as int - 1] == q.tenor.libors@[__k0 as int - 1]); assert(1real + q.tenor.t(__k0 as int) * q.tenor.libors@[__k0 as int - 1]@ > 0real); }
//@end
//@fn src/models/forex/fx_hlmm_calibrator.rs fn calibrate
//@params q, ts, t, f, o
//@closure 0 |x: &[R]| -> (w: R) requires x.len() == 5, same_as(&initial_cloned, &q), kappa_floor == f, expiry == t, t@ > 0real, q.ok(), fwd == q.fx_0, discount@ == q.discount(t@), discount@ > 0real, ts@ == targets_cloned@, targets_ok(ts@) ensures w@ == misfit(decoded(&q, f@, x@), ts@, t@)
//@spec
    requires q.ok(), t@ > 0real, ts.len() >= 1, f@ >= 0real, targets_ok(ts@)
    ensures fitted(q, f@, ts@, t@, r.params, r.rmse@, r.optimiser), r.optimiser.x.len() == 5, r.params == decoded(&q, f@, r.optimiser.x@)
//@entry
    broadcast use lemma_soft, lemma_soft_inv, axiom_tanh, axiom_atanh, axiom_mk_r, axiom_r_ext, lemma_misfit, lemma_ratio, axiom_exp;
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == __s0.len(), __s0@ == ts@, targets_cloned@ == ts@, targets_ok(ts@), trial == decoded(&q, f@, x@), t@ > 0real, expiry == t, pricer.of@ == trial, pricer.t@ == t@, fwd == q.fx_0, discount@ == q.discount(t@), discount@ > 0real, q.ok(), trial.valid(),
        quoted(smile(trial, ts@, t@), __k0 as int), ssr@ == sse(smile(trial, ts@, t@), market(ts@), __k0 as int)
    decreases __n0 - __k0
//@loop 0 begin
    proof { assert(smile(trial, ts@, t@)[__k0 as int] == trial.vol(ts@[__k0 as int].strike@, t@)); }
//@end
//@fn src/models/forex/fx_hlmm_calibrator.rs fn targets_from_grid
//@params k, v
//@spec
    requires k.len() == v.len()
    ensures r.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> (#[trigger] r[i]).strike == k[i] && r[i].market_vol == v[i]
//@local __acc0: Vec<CalibrationTarget>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == k.len(), k.len() == v.len(), __s2@ == k@, __s3@ == v@, __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0@[i]).strike == k@[i] && __acc0@[i].market_vol == v@[i]
    decreases __n0 - __k0
//@end
pub open spec fn is_vol(a: Option<R>, b: Option<real>) -> bool { (a is Some <==> b is Some) && (a is Some ==> a->0@ == b->0) }
//@fn src/models/forex/fx_hlmm_calibrator.rs fn model_implied_vols
//@params q, t, ks
//@spec
    requires q.ok(), q.valid(), t@ > 0real, positive(ks@)
    ensures r.len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> is_vol(#[trigger] r[i], q.vol(ks[i]@, t@))
//@local __acc0: Vec<Option<R>>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == ks.len(), __s1@ == ks@, q.ok(), t@ > 0real, expiry == t, pricer.of@ == *q, pricer.t@ == t@, fwd == q.fx_0, discount@ == q.discount(t@), discount@ > 0real, positive(ks@), __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> is_vol(#[trigger] __acc0@[i], q.vol(ks@[i]@, t@))
    decreases __n0 - __k0
//@end
//@fn src/models/forex/fx_hlmm_calibrator.rs fn price_call
//@params q, t, k
//@spec
    requires q.ok(), q.valid(), t@ > 0real, k@ > 0real
    ensures r@ == call(*q, t@, k@, q.discount(t@))
//@end
impl MarketSmileStrip {
    pub open spec fn quotes(&self, ts: Seq<CalibrationTarget>) -> bool { ts.len() == self.strikes.len() && forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).strike == self.strikes@[i] && ts[i].market_vol == self.vols@[i] }
}
//@fn src/models/forex/fx_hlmm_calibrator.rs impl Calibration for FxHlmmSmileCalibrator :: calibrate => impl FxHlmmSmileCalibrator
//@spec
    requires self.initial.ok(), self.kappa_floor@ >= 0real, market.ok()
    ensures r is Ok, r->Ok_0.optimiser is Some, exists|ts: Seq<CalibrationTarget>| #[trigger] market.quotes(ts) && fitted(self.initial, self.kappa_floor@, ts, market.expiry_yf@, r->Ok_0.params, r->Ok_0.rmse@, r->Ok_0.optimiser->0)
//@entry
    proof { assert forall|ts: Seq<CalibrationTarget>| #[trigger] market.quotes(ts) implies targets_ok(ts) by { assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] ts[i]).strike@ > 0real by { assert(market.strikes@[i]@ > 0real); } } }
//@local __acc0: Vec<CalibrationTarget>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == market.strikes.len(), market.strikes.len() == market.vols.len(), __s2@ == market.strikes@, __s3@ == market.vols@, __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0@[i]).strike == market.strikes@[i] && __acc0@[i].market_vol == market.vols@[i]
    decreases __n0 - __k0
//@loop 0 after
    proof { assert(market.quotes(__acc0@)); }
//@end
