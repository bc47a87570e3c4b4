use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/result.vrs
//@include prelude/real.vrs
//@include prelude/calib.vrs
//@include prelude/hhwcal.vrs
proof fn vacuity_hhwcal(c: FxHhwSmileCalibrator, m: MarketSmileStrip, q: FxHhwParams, ts: Seq<CalibrationTarget>, o: Minimum) requires c.initial.fx_0@ > 0real, c.kappa_floor@ > 0real, m.ok(), m.quotes(ts), fitted(c.initial, c.kappa_floor@, ts, m.expiry_yf@, q, 1real, o, start(c.initial, c.kappa_floor@)), fitted(c.initial, c.kappa_floor@, ts, m.expiry_yf@, q, 1real, o, start_capped(c.initial, c.kappa_floor@, 3real)) { broadcast use axiom_exp, axiom_ln, axiom_sqrt, axiom_tanh, axiom_atanh, axiom_mk_r, axiom_r_ext, lemma_soft, lemma_soft_inv, lemma_loss, lemma_ratio; lemma_logit(1real / 2real); lemma_cap(3real, 0real); lemma_forward(q, 1real); axiom_exp_mono(0real, 1real); assert(false); }
}
fn main() {}
