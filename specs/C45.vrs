use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/normal.vrs
//@include prelude/black.vrs
//@include prelude/dupire.vrs
proof fn vacuity_dupire(m: Market, d: DupireLocalVol) requires m.ok(), d.ok(), d.expiries@ == m.e, d.strikes@ == m.k, d.at(0, 0) == m.local(0, 0) { broadcast use axiom_exp, axiom_ln, axiom_sqrt, axiom_ncdf; axiom_exp_mono(0real, m.s); axiom_ncdf_mono(0real, m.s); lemma_knot(m.k, m.k[0]@, 0); assert(false); }
}
fn main() {}
