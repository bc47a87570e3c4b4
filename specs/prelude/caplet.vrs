pub open spec fn b_opt(c: CapFloorKind, f: real, k: real, v: real) -> real { match c { CapFloorKind::Cap => b_call(f, k, v), CapFloorKind::Floor => b_put(f, k, v) } }
// the simple forward rate over an accrual period
pub open spec fn fwd1(y: YieldTermStructure, sh: real, w: Row, tau: real) -> real { (y.disc_s(w.s, sh) / y.disc_s(w.e, sh) - 1real) / tau }
