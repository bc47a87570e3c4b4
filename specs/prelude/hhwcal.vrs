// FX-Heston-Hull-White smile calibrator: contracts discharged against src/models/forex/fx_hhw_calibrator.rs
//@call .to_vec => &copied
//@type Self::Market => MarketSmileStrip
//@type Self::Params => FxHhwParams
pub type HhwTarget = CalibrationTarget;
//@item src/models/common/cir.rs :: struct CirProcess => #[derive(Clone, Copy)]
//@item src/models/interestrate/hull_white.rs :: struct HullWhite1F => #[derive(Clone, Copy)]
//@item src/models/forex/fx_hhw.rs :: struct Correlation4x4 => #[derive(Clone, Copy)]
//@item src/models/forex/fx_hhw.rs :: struct FxHhwParams => #[derive(Clone, Copy)]
//@item src/models/forex/fx_hhw_calibrator.rs :: struct CalibrationTarget
//@item src/models/forex/fx_hhw_calibrator.rs :: struct CalibrationResult
//@item src/models/forex/fx_hhw_calibrator.rs :: struct FxHhwSmileCalibrator
// the COS price of a call under these parameters (C53), and the volatility implied by a price (C34): here functions of their arguments
pub uninterp spec fn call(q: FxHhwParams, t: real, k: real, df: real) -> real;
pub uninterp spec fn implied(x: real, f: real, k: real, t: real, df: real) -> Option<real>;
pub struct FxHhw1ForwardChf { pub of: Ghost<FxHhwParams>, pub t: Ghost<real> }
pub struct CosPricer { pub of: Ghost<FxHhwParams>, pub t: Ghost<real> }
impl FxHhw1ForwardChf {
    #[verifier::external_body]
    pub fn new(q: &FxHhwParams, t: R) -> (r: Self) requires t@ > 0real ensures r.of@ == *q, r.t@ == t@ { unimplemented!() }
}
impl CosPricer {
    #[verifier::external_body]
    pub fn new(c: &FxHhw1ForwardChf) -> (r: Self) ensures r.of@ == c.of@, r.t@ == c.t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&self, k: R, df: R) -> (r: R) requires k@ > 0real, df@ > 0real ensures r@ == call(self.of@, self.t@, k@, df@) { unimplemented!() }
}
#[verifier::external_body]
pub fn bs_implied_vol(x: R, f: R, k: R, t: R, df: R, c: bool) -> (r: Option<R>)
    requires f@ > 0real, k@ > 0real, t@ > 0real, df@ > 0real, c
    ensures r is Some <==> implied(x@, f@, k@, t@, df@) is Some, r is Some ==> r->0@ == implied(x@, f@, k@, t@, df@)->0
{ unimplemented!() }
impl FxHhwParams {
    // the domestic discount factor and the forward to t at the initial short rates
    pub open spec fn discount(&self, t: real) -> real { rexp(-self.rd_0@ * t) }
    pub open spec fn forward(&self, t: real) -> real { self.fx_0@ * rexp(-self.rf_0@ * t) / rexp(-self.rd_0@ * t) }
    pub open spec fn vol(&self, k: real, t: real) -> Option<real> { implied(call(*self, t, k, self.discount(t)), self.forward(t), k, t, self.discount(t)) }
    // the rates, their Hull-White processes and every correlation but that of spot and variance
    pub open spec fn same(&self, o: Self) -> bool {
        &&& self.fx_0 == o.fx_0 && self.domestic == o.domestic && self.foreign == o.foreign && self.rd_0 == o.rd_0 && self.rf_0 == o.rf_0 && self.theta_d == o.theta_d && self.theta_f == o.theta_f
        &&& self.correlations.rho_xi_d == o.correlations.rho_xi_d && self.correlations.rho_xi_f == o.correlations.rho_xi_f && self.correlations.rho_sigma_d == o.correlations.rho_sigma_d
            && self.correlations.rho_sigma_f == o.correlations.rho_sigma_f && self.correlations.rho_d_f == o.correlations.rho_d_f
    }
    pub open spec fn with(&self, kappa: real, gamma: real, theta: real, sigma: real, rho: real) -> Self {
        FxHhwParams { heston: CirProcess { kappa: mk_r(kappa), theta: mk_r(theta), gamma: mk_r(gamma), sigma_0: mk_r(sigma) }, correlations: Correlation4x4 { rho_xi_sigma: mk_r(rho), ..self.correlations }, ..*self }
    }
}
proof fn lemma_with(q: FxHhwParams, p: FxHhwParams, kappa: real, gamma: real, theta: real, sigma: real, rho: real)
    requires p.same(q), p.heston.kappa@ == kappa, p.heston.gamma@ == gamma, p.heston.theta@ == theta, p.heston.sigma_0@ == sigma, p.correlations.rho_xi_sigma@ == rho
    ensures p == q.with(kappa, gamma, theta, sigma, rho)
{
    broadcast use axiom_mk_r, axiom_r_ext;
    let w = q.with(kappa, gamma, theta, sigma, rho);
    assert(p.heston.kappa@ == w.heston.kappa@ && p.heston.gamma@ == w.heston.gamma@ && p.heston.theta@ == w.heston.theta@ && p.heston.sigma_0@ == w.heston.sigma_0@ && p.correlations.rho_xi_sigma@ == w.correlations.rho_xi_sigma@);
}
proof fn lemma_forward(q: FxHhwParams, t: real)
    requires q.fx_0@ > 0real
    ensures q.forward(t) > 0real, q.discount(t) > 0real
{
    broadcast use axiom_exp;
    let (x, a, b) = (q.fx_0@, rexp(-q.rf_0@ * t), rexp(-q.rd_0@ * t));
    let y = x * a;
    assert(y > 0real) by (nonlinear_arith) requires y == x * a, x > 0real, a > 0real;
    assert(y / b > 0real) by (nonlinear_arith) requires y > 0real, b > 0real;
}
pub open spec fn smile(q: FxHhwParams, d: FxHhwParams, ts: Seq<CalibrationTarget>, t: real) -> Seq<Option<real>> { Seq::new(ts.len(), |i: int| implied(call(q, t, ts[i].strike@, d.discount(t)), d.forward(t), ts[i].strike@, t, d.discount(t))) }
pub open spec fn market(ts: Seq<CalibrationTarget>) -> Seq<real> { Seq::new(ts.len(), |i: int| ts[i].market_vol@) }
// the forward and the discount factor are those of the initial parameters, whose rates the candidates share
pub open spec fn misfit(q: FxHhwParams, ts: Seq<CalibrationTarget>, t: real) -> real { loss(smile(q, q, ts, t), market(ts)) }
pub open spec fn targets_ok(ts: Seq<CalibrationTarget>) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).strike@ > 0real }
pub open spec fn decoded(q: FxHhwParams, floor: real, x: Seq<R>) -> FxHhwParams { q.with(floor + soft(x[0]@), soft(x[1]@), soft(x[2]@), soft(x[3]@), rtanh(x[4]@)) }
pub open spec fn capped(q: FxHhwParams, floor: real, top: real, x: Seq<R>) -> FxHhwParams { q.with(floor + soft(x[0]@), top / (1real + rexp(0real - x[1]@)), soft(x[2]@), soft(x[3]@), rtanh(x[4]@)) }
pub open spec fn floor8(x: real) -> real { rmax(x, 1real / 100_000_000real) }
pub open spec fn within(x: real, lo: real, hi: real) -> real { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn rho0(q: FxHhwParams) -> real { within(q.correlations.rho_xi_sigma@, -(999real / 1000real), 999real / 1000real) }
pub open spec fn start(q: FxHhwParams, floor: real) -> FxHhwParams { q.with(floor + floor8(q.heston.kappa@ - floor), floor8(q.heston.gamma@), floor8(q.heston.theta@), floor8(q.heston.sigma_0@), rho0(q)) }
pub open spec fn share(q: FxHhwParams, top: real) -> real { within(q.heston.gamma@ / top, 1real / 10_000real, 1real - 1real / 10_000real) }
pub open spec fn start_capped(q: FxHhwParams, floor: real, top: real) -> FxHhwParams { q.with(floor + floor8(q.heston.kappa@ - floor), top * share(q, top), floor8(q.heston.theta@), floor8(q.heston.sigma_0@), rho0(q)) }
pub open spec fn fitted(q: FxHhwParams, floor: real, ts: Seq<CalibrationTarget>, t: real, p: FxHhwParams, rmse: real, m: Minimum, s: FxHhwParams) -> bool {
    &&& p.same(q) && p.heston.kappa@ > floor && p.heston.gamma@ > 0real && p.heston.theta@ > 0real && p.heston.sigma_0@ > 0real && -1real < p.correlations.rho_xi_sigma@ < 1real
    &&& m.f@ == misfit(p, ts, t) && m.f@ <= misfit(s, ts, t)
    &&& rmse == rsqrt(m.f@ / (ts.len() as real))
}
// the logistic function and its inverse
proof fn lemma_logit(y: real)
    requires 0real < y < 1real
    ensures 1real / (1real + rexp(0real - rln(y / (1real - y)))) == y, y / (1real - y) > 0real
{
    let z = 1real - y;
    let o = y / z;
    assert(o > 0real && o * z == y) by (nonlinear_arith) requires o == y / z, y > 0real, z > 0real;
    broadcast use axiom_ln, axiom_exp;
    let l = rln(o);
    axiom_exp_add(l, 0real - l);
    let e = rexp(0real - l);
    assert(o * e == 1real);
    assert(y * e == z) by (nonlinear_arith) requires o * e == 1real, o * z == y;
    let d = 1real + e;
    assert(y * d == 1real) by (nonlinear_arith) requires y * e == z, d == 1real + e, z == 1real - y;
    assert(1real / d == y) by (nonlinear_arith) requires y * d == 1real, d > 0real;
}
proof fn lemma_cap(top: real, x: real)
    requires top > 0real
    ensures 0real < top / (1real + rexp(0real - x)) < top
{
    broadcast use axiom_exp;
    let d = 1real + rexp(0real - x);
    assert(0real < top / d < top) by (nonlinear_arith) requires top > 0real, d > 1real;
}
proof fn lemma_scaled(top: real, d: real, y: real) requires d > 0real, 1real / d == y ensures top / d == top * y { assert(top / d == top * y) by (nonlinear_arith) requires d > 0real, 1real / d == y; }
//@fn src/models/forex/fx_hhw_calibrator.rs fn softplus
//@spec
    ensures r@ == soft(x@)
//@entry
    broadcast use axiom_exp;
//@end
//@fn src/models/forex/fx_hhw_calibrator.rs fn inv_softplus
//@spec
    requires y@ > 0real
    ensures r@ == soft_inv(y@)
//@entry
    proof { lemma_above_one(y@); }
//@end
//@fn src/models/forex/fx_hhw_calibrator.rs fn reify_params
//@params q, f, x
//@spec
    requires x.len() == 5
    ensures r == decoded(*q, f@, x@)
//@exit
    proof { lemma_with(*q, r, f@ + soft(x@[0]@), soft(x@[1]@), soft(x@[2]@), soft(x@[3]@), rtanh(x@[4]@)); }
//@end
//@fn src/models/forex/fx_hhw_calibrator.rs fn reify_params_bounded
//@params q, f, top, x
//@spec
    requires x.len() == 5, top@ > 0real
    ensures r == capped(*q, f@, top@, x@)
//@entry
    broadcast use axiom_exp;
//@exit
    proof { lemma_with(*q, r, f@ + soft(x@[0]@), top@ / (1real + rexp(0real - x@[1]@)), soft(x@[2]@), soft(x@[3]@), rtanh(x@[4]@)); }
//@end
//@fn src/models/forex/fx_hhw_calibrator.rs fn calibrate
//@params q, ts, t, f, o
//@closure 0 |x: &[R]| -> (w: R) requires x.len() == 5, initial_cloned == q, kappa_floor == f, expiry == t, t@ > 0real, q.fx_0@ > 0real, fwd@ == q.forward(t@), discount@ == q.discount(t@), ts@ == targets_cloned@, targets_ok(ts@) ensures w@ == misfit(decoded(q, f@, x@), ts@, t@)
//@spec
    requires q.fx_0@ > 0real, t@ > 0real, ts.len() >= 1, f@ >= 0real, targets_ok(ts@)
    ensures fitted(q, f@, ts@, t@, r.params, r.rmse@, r.optimiser, start(q, f@)), r.optimiser.x.len() == 5, r.params == decoded(q, f@, r.optimiser.x@)
//@entry
    broadcast use lemma_soft, lemma_soft_inv, axiom_tanh, axiom_atanh, axiom_mk_r, axiom_r_ext, lemma_loss, lemma_ratio, axiom_exp;
    proof { lemma_forward(q, t@); }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == __s0.len(), __s0@ == ts@, targets_cloned@ == ts@, targets_ok(ts@), trial == decoded(q, f@, x@), t@ > 0real, expiry == t, pricer.of@ == trial, pricer.t@ == t@, fwd@ == q.forward(t@), discount@ == q.discount(t@), q.fx_0@ > 0real,
        quoted(smile(trial, trial, ts@, t@), __k0 as int), ssr@ == sse(smile(trial, trial, ts@, t@), market(ts@), __k0 as int)
    decreases __n0 - __k0
//@loop 0 begin
    proof { lemma_forward(q, t@); assert(smile(trial, trial, ts@, t@)[__k0 as int] == trial.vol(ts@[__k0 as int].strike@, t@)); }
//@end
//@fn src/models/forex/fx_hhw_calibrator.rs fn calibrate_bounded
//@params q, ts, t, f, top, o
//@closure 0 |x: &[R]| -> (w: R) requires x.len() == 5, initial_cloned == q, kappa_floor == f, gamma_max == top, top@ > 0real, expiry == t, t@ > 0real, q.fx_0@ > 0real, fwd@ == q.forward(t@), discount@ == q.discount(t@), ts@ == targets_cloned@, targets_ok(ts@) ensures w@ == misfit(capped(q, f@, top@, x@), ts@, t@)
//@spec
    requires q.fx_0@ > 0real, t@ > 0real, ts.len() >= 1, f@ >= 0real, top@ > 0real, targets_ok(ts@)
    ensures fitted(q, f@, ts@, t@, r.params, r.rmse@, r.optimiser, start_capped(q, f@, top@)), r.params.heston.gamma@ < top@, r.optimiser.x.len() == 5, r.params == capped(q, f@, top@, r.optimiser.x@)
//@entry
    broadcast use lemma_soft, lemma_soft_inv, axiom_tanh, axiom_atanh, axiom_mk_r, axiom_r_ext, lemma_loss, lemma_ratio, axiom_exp;
    proof {
        lemma_forward(q, t@);
        let y = share(q, top@);
        lemma_logit(y);
        lemma_scaled(top@, 1real + rexp(0real - rln(y / (1real - y))), y);
    }
//@exit
    proof { lemma_cap(top@, r.optimiser.x@[1]@); }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == __s0.len(), __s0@ == ts@, targets_cloned@ == ts@, targets_ok(ts@), trial == capped(q, f@, top@, x@), t@ > 0real, expiry == t, pricer.of@ == trial, pricer.t@ == t@, fwd@ == q.forward(t@), discount@ == q.discount(t@), q.fx_0@ > 0real,
        quoted(smile(trial, trial, ts@, t@), __k0 as int), ssr@ == sse(smile(trial, trial, ts@, t@), market(ts@), __k0 as int)
    decreases __n0 - __k0
//@loop 0 begin
    proof { lemma_forward(q, t@); assert(smile(trial, trial, ts@, t@)[__k0 as int] == trial.vol(ts@[__k0 as int].strike@, t@)); }
//@end
//@fn src/models/forex/fx_hhw_calibrator.rs fn targets_from_grid
//@params k, v
//@spec
    requires k.len() == v.len()
    ensures r.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> (#[trigger] r[i]).strike == k[i] && r[i].market_vol == v[i]
//@local __acc0: Vec<CalibrationTarget>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == k.len(), k.len() == v.len(), __s2@ == k@, __s3@ == v@, __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0@[i]).strike == k@[i] && __acc0@[i].market_vol == v@[i]
    decreases __n0 - __k0
//@end
pub open spec fn is_vol(a: Option<R>, b: Option<real>) -> bool { (a is Some <==> b is Some) && (a is Some ==> a->0@ == b->0) }
//@fn src/models/forex/fx_hhw_calibrator.rs fn model_implied_vols
//@params q, t, ks
//@spec
    requires q.fx_0@ > 0real, t@ > 0real, positive(ks@)
    ensures r.len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> is_vol(#[trigger] r[i], q.vol(ks[i]@, t@))
//@entry
    broadcast use axiom_exp;
    proof { lemma_forward(*q, t@); }
//@local __acc0: Vec<Option<R>>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == ks.len(), __s1@ == ks@, q.fx_0@ > 0real, t@ > 0real, expiry == t, pricer.of@ == *q, pricer.t@ == t@, fwd@ == q.forward(t@), discount@ == q.discount(t@), fwd@ > 0real, discount@ > 0real, positive(ks@), __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> is_vol(#[trigger] __acc0@[i], q.vol(ks@[i]@, t@))
    decreases __n0 - __k0
//@end
//@fn src/models/forex/fx_hhw_calibrator.rs fn price_call
//@params q, t, k
//@spec
    requires t@ > 0real, k@ > 0real
    ensures r@ == call(*q, t@, k@, q.discount(t@))
//@entry
    broadcast use axiom_exp;
//@end
//@fn src/models/forex/market_data.rs impl MarketSmileStrip :: hhw_targets => impl MarketSmileStrip
//@spec
    requires self.strikes.len() == self.vols.len()
    ensures self.quotes(r@)
//@local __acc0: Vec<CalibrationTarget>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.strikes.len(), self.strikes.len() == self.vols.len(), __s2@ == self.strikes@, __s3@ == self.vols@, __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0@[i]).strike == self.strikes@[i] && __acc0@[i].market_vol == self.vols@[i]
    decreases __n0 - __k0
//@end
impl MarketSmileStrip {
    pub open spec fn quotes(&self, ts: Seq<CalibrationTarget>) -> bool { ts.len() == self.strikes.len() && forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).strike == self.strikes@[i] && ts[i].market_vol == self.vols@[i] }
}
//@fn src/models/forex/fx_hhw_calibrator.rs impl Calibration for FxHhwSmileCalibrator :: calibrate => impl FxHhwSmileCalibrator
//@spec
    requires self.initial.fx_0@ > 0real, self.kappa_floor@ >= 0real, self.gamma_max is Some ==> self.gamma_max->0@ > 0real, market.ok()
    ensures r is Ok, r->Ok_0.optimiser is Some, self.gamma_max is Some ==> r->Ok_0.params.heston.gamma@ < self.gamma_max->0@,
        exists|ts: Seq<CalibrationTarget>| #[trigger] market.quotes(ts) && fitted(self.initial, self.kappa_floor@, ts, market.expiry_yf@, r->Ok_0.params, r->Ok_0.rmse@, r->Ok_0.optimiser->0,
            if self.gamma_max is Some { start_capped(self.initial, self.kappa_floor@, self.gamma_max->0@) } else { start(self.initial, self.kappa_floor@) })
//@entry
    proof { assert forall|ts: Seq<CalibrationTarget>| #[trigger] market.quotes(ts) implies targets_ok(ts) by { assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] ts[i]).strike@ > 0real by { assert(market.strikes@[i]@ > 0real); } } }
//@end
