use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/result.vrs
//@include prelude/real.vrs
//@include prelude/calib.vrs
//@include prelude/hlmmcal.vrs
proof fn vacuity_hlmmcal(c: FxHlmmSmileCalibrator, m: MarketSmileStrip, q: FxHlmmParams, ts: Seq<CalibrationTarget>, o: Minimum) requires c.initial.ok(), q.valid(), c.initial.tenor.count() >= 2, c.kappa_floor@ > 0real, m.ok(), m.quotes(ts), fitted(c.initial, c.kappa_floor@, ts, m.expiry_yf@, q, 1real, o) { broadcast use axiom_exp, axiom_ln, axiom_sqrt, axiom_tanh, axiom_atanh, axiom_mk_r, axiom_r_ext, lemma_soft, lemma_soft_inv, lemma_loss, lemma_ratio; lemma_discount(q, 1real); axiom_exp_mono(0real, 1real); assert(false); }
}
fn main() {}
