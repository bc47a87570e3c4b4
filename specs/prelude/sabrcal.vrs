// SABR smile calibrator: contracts discharged against src/models/forex/sabr_calibrator.rs
//@call .to_vec => &copied
//@type Self::Params => SabrParams
//@type Self::Market => MarketSmileStrip
pub type SabrTarget = CalibrationTarget;
//@item src/models/forex/sabr.rs :: struct SabrParams => #[derive(Clone, Copy)]
//@item src/models/forex/sabr_calibrator.rs :: struct CalibrationTarget
//@item src/models/forex/sabr_calibrator.rs :: struct CalibrationResult
//@item src/models/forex/sabr_calibrator.rs :: struct SabrSmileCalibrator
impl SabrParams {
    pub open spec fn ok(&self) -> bool { self.alpha@ > 0real && 0real <= self.beta@ <= 1real && -1real < self.rho@ < 1real && self.nu@ >= 0real }
}
// Hagan's volatility: the value proved in C44, here a function of its arguments
pub uninterp spec fn hagan(q: SabrParams, f: real, k: real, t: real) -> real;
#[verifier::external_body]
pub fn hagan_implied_vol(q: &SabrParams, f: R, k: R, t: R) -> (r: R)
    requires q.ok(), f@ > 0real, k@ > 0real, t@ > 0real
    ensures r@ == hagan(*q, f@, k@, t@)
{ unimplemented!() }
pub open spec fn point(q: SabrParams, f: real, k: real, t: real) -> Option<real> { let v = hagan(q, f, k, t); if v <= 0real { None } else { Some(v) } }
pub open spec fn smile(q: SabrParams, f: real, ts: Seq<CalibrationTarget>, t: real) -> Seq<Option<real>> { Seq::new(ts.len(), |i: int| point(q, f, ts[i].strike@, t)) }
pub open spec fn market(ts: Seq<CalibrationTarget>) -> Seq<real> { Seq::new(ts.len(), |i: int| ts[i].market_vol@) }
pub open spec fn misfit(q: SabrParams, f: real, ts: Seq<CalibrationTarget>, t: real) -> real { loss(smile(q, f, ts, t), market(ts)) }
pub open spec fn targets_ok(ts: Seq<CalibrationTarget>) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).strike@ > 0real }
// the parameters a point of the search stands for
pub open spec fn decoded(beta: R, x: Seq<R>) -> SabrParams { SabrParams { alpha: mk_r(soft(x[0]@)), beta, rho: mk_r(rtanh(x[1]@)), nu: mk_r(soft(x[2]@)) } }
proof fn lemma_same(r: Option<SabrParams>, b: R, x: Seq<R>)
    requires r is Some ==> r->0.alpha@ == soft(x[0]@) && r->0.rho@ == rtanh(x[1]@) && r->0.nu@ == soft(x[2]@) && r->0.beta == b
    ensures r is Some ==> r->0 == decoded(b, x)
{
    broadcast use axiom_mk_r, axiom_r_ext;
    if r is Some { let d = decoded(b, x); assert(r->0.alpha@ == d.alpha@ && r->0.rho@ == d.rho@ && r->0.nu@ == d.nu@); }
}
// where the search starts: the initial parameters, inside their floors and bounds
pub open spec fn floor8(x: real) -> real { rmax(x, 1real / 100_000_000real) }
pub open spec fn inside(x: real) -> real { if x < -(999real / 1000real) { -(999real / 1000real) } else if x > 999real / 1000real { 999real / 1000real } else { x } }
pub open spec fn start(q: SabrParams) -> SabrParams { SabrParams { alpha: mk_r(floor8(q.alpha@)), beta: q.beta, rho: mk_r(inside(q.rho@)), nu: mk_r(floor8(q.nu@)) } }
pub open spec fn fitted(q: SabrParams, f: real, ts: Seq<CalibrationTarget>, t: real, p: SabrParams, rmse: real, m: Minimum) -> bool {
    &&& p.ok() && p.beta == q.beta && p.nu@ > 0real
    &&& m.f@ == misfit(p, f, ts, t) && m.f@ <= misfit(start(q), f, ts, t)
    &&& rmse == rsqrt(m.f@ / (ts.len() as real))
}
//@fn src/models/forex/sabr_calibrator.rs fn softplus
//@spec
    ensures r@ == soft(x@)
//@entry
    broadcast use axiom_exp;
//@end
//@fn src/models/forex/sabr_calibrator.rs fn inv_softplus
//@spec
    requires y@ > 0real
    ensures r@ == soft_inv(y@)
//@entry
    proof { lemma_above_one(y@); }
//@end
//@fn src/models/forex/sabr_calibrator.rs fn reify
//@params b, x
//@spec
    requires x.len() == 3, 0real <= b@ <= 1real
    ensures r == Some(decoded(b, x@)), r->0.ok(), r->0.nu@ > 0real
//@entry
    broadcast use lemma_soft, axiom_tanh, axiom_mk_r, axiom_r_ext;
//@exit
    proof { lemma_same(r, b, x@); }
//@end
//@fn src/models/forex/sabr_calibrator.rs fn calibrate
//@name calibrate
//@params q, f, ts, t, o
//@closure 0 |x: &[R]| -> (w: R) requires x.len() == 3, q.beta == beta, 0real <= beta@ <= 1real, f@ > 0real, t@ > 0real, ts@ == targets_cloned@, targets_ok(ts@) ensures w@ == misfit(decoded(q.beta, x@), f@, ts@, t@)
//@spec
    requires 0real <= q.beta@ <= 1real, f@ > 0real, t@ > 0real, ts.len() >= 1, targets_ok(ts@)
    ensures fitted(q, f@, ts@, t@, r.params, r.rmse@, r.optimiser), r.optimiser.x.len() == 3, r.params == decoded(q.beta, r.optimiser.x@)
//@entry
    broadcast use lemma_soft, lemma_soft_inv, axiom_tanh, axiom_atanh, axiom_mk_r, axiom_r_ext, lemma_loss, lemma_ratio;
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == __s0.len(), __s0@ == ts@, targets_cloned@ == ts@, targets_ok(ts@), trial == decoded(q.beta, x@), trial.ok(), f@ > 0real, t@ > 0real,
        forward == f, expiry == t, quoted(smile(trial, f@, ts@, t@), __k0 as int), ssr@ == sse(smile(trial, f@, ts@, t@), market(ts@), __k0 as int)
    decreases __n0 - __k0
//@loop 0 begin
    proof { assert(smile(trial, f@, ts@, t@)[__k0 as int] == point(trial, f@, ts@[__k0 as int].strike@, t@)); }
//@end
//@fn src/models/forex/sabr_calibrator.rs fn targets_from_grid
//@params k, v
//@spec
    requires k.len() == v.len()
    ensures r.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> (#[trigger] r[i]).strike == k[i] && r[i].market_vol == v[i]
//@local __acc0: Vec<CalibrationTarget>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == k.len(), k.len() == v.len(), __s2@ == k@, __s3@ == v@, __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0@[i]).strike == k@[i] && __acc0@[i].market_vol == v@[i]
    decreases __n0 - __k0
//@end
//@fn src/models/forex/sabr_calibrator.rs fn model_implied_vols
//@params q, f, t, ks
//@spec
    requires q.ok(), f@ > 0real, t@ > 0real, positive(ks@)
    ensures r.len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> (#[trigger] r[i])@ == hagan(*q, f@, ks[i]@, t@)
//@local __acc0: Vec<R>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == ks.len(), __s1@ == ks@, q.ok(), params == q, forward == f, expiry == t, f@ > 0real, t@ > 0real, positive(ks@), __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0@[i])@ == hagan(*q, f@, ks@[i]@, t@)
    decreases __n0 - __k0
//@end
//@fn src/models/forex/market_data.rs impl MarketSmileStrip :: sabr_targets => impl MarketSmileStrip
//@spec
    requires self.strikes.len() == self.vols.len()
    ensures self.quotes(r@)
//@local __acc0: Vec<CalibrationTarget>
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.strikes.len(), self.strikes.len() == self.vols.len(), __s2@ == self.strikes@, __s3@ == self.vols@, __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0@[i]).strike == self.strikes@[i] && __acc0@[i].market_vol == self.vols@[i]
    decreases __n0 - __k0
//@end
impl MarketSmileStrip {
    pub open spec fn quotes(&self, ts: Seq<CalibrationTarget>) -> bool { ts.len() == self.strikes.len() && forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).strike == self.strikes@[i] && ts[i].market_vol == self.vols@[i] }
}
//@fn src/models/forex/sabr_calibrator.rs impl Calibration for SabrSmileCalibrator :: calibrate => impl SabrSmileCalibrator
//@spec
    requires 0real <= self.initial.beta@ <= 1real, market.ok()
    ensures r is Ok, r->Ok_0.optimiser is Some, exists|ts: Seq<CalibrationTarget>| #[trigger] market.quotes(ts) && fitted(self.initial, market.forward@, ts, market.expiry_yf@, r->Ok_0.params, r->Ok_0.rmse@, r->Ok_0.optimiser->0)
//@entry
    proof { assert forall|ts: Seq<CalibrationTarget>| #[trigger] market.quotes(ts) implies targets_ok(ts) by { assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] ts[i]).strike@ > 0real by { assert(market.strikes@[i]@ > 0real); } } }
//@end
