use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/result.vrs
//@include prelude/real.vrs
//@include prelude/calib.vrs
//@include prelude/sabrcal.vrs
proof fn vacuity_sabrcal(c: SabrSmileCalibrator, m: MarketSmileStrip, q: SabrParams, ts: Seq<CalibrationTarget>, o: Minimum) requires 0real < c.initial.beta@ < 1real, m.ok(), m.quotes(ts), fitted(c.initial, m.forward@, ts, m.expiry_yf@, q, 1real, o) { broadcast use axiom_exp, axiom_ln, axiom_sqrt, axiom_tanh, axiom_atanh, axiom_mk_r, axiom_r_ext, lemma_soft, lemma_soft_inv, lemma_loss, lemma_ratio; axiom_exp_mono(0real, 1real); assert(false); }
}
fn main() {}
