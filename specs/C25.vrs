use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/normal.vrs
//@include prelude/calendar.vrs
//@include prelude/period.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
//@include prelude/sort0.vrs
//@include prelude/fxvol.vrs
//@include prelude/fxsmile.vrs
proof fn vacuity_surface(p: Seq<FXDeltaVolPillar>, x: FXVolSurface, s: SmileSection, z: Seq<DeltaPair>, d: NaiveDate, t: real)
    requires fin(d@), pillars_ok(p), p.len() == 2, usable(p[0].quotes@), x.ok(), x.smiles.len() == 2, t > 0real, s.ok(), shape(s, z, atm_of(p[0].quotes@)->0@), normal(p[0].quotes@, z), z.len() == 1
{ axiom_ncdf_mono(t, t + 1real); axiom_sqrt(t); axiom_ln(t); axiom_nquant(1real / 2real); assert(false); }
}
fn main() {}
