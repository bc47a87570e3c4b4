use vstd::prelude::*;
use vstd::arithmetic::power2::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/normal.vrs
//@include prelude/bachelier.vrs
//@include prelude/black.vrs
// ---- implied volatility
pub open spec fn vol_lo() -> real { 1real / 100000000real }
pub open spec fn vol_hi() -> real { 5real }
pub open spec fn eps12() -> real { 1real / 1000000000000real }
// a and b straddle the target (to within tol) and are less than 1e-12 apart
pub open spec fn pinned(x: real, f: real, k: real, t: real, df: real, c: bool, tol: real, a: real, b: real) -> bool {
    &&& b - a < eps12() && black(f, k, a, t, df, c) <= x + tol && black(f, k, b, t, df, c) >= x - tol
}
pub open spec fn implied(x: real, f: real, k: real, t: real, df: real, c: bool, tol: real, r: Option<R>) -> bool {
    match r {
        None => x < black(f, k, vol_lo(), t, df, c) - tol || x > black(f, k, vol_hi(), t, df, c) + tol,
        Some(s) => {
            &&& x >= black(f, k, vol_lo(), t, df, c) - tol && x <= black(f, k, vol_hi(), t, df, c) + tol
            &&& vol_lo() <= s@ <= vol_hi()
            &&& rabs(black(f, k, s@, t, df, c) - x) < tol || exists|a: real, b: real| a <= s@ <= b && #[trigger] pinned(x, f, k, t, df, c, tol, a, b)
        }
    }
}
proof fn lemma_window(w: real, n: nat)
    requires w * (pow2(n) as real) <= 5real, n >= 43, w >= 0real
    ensures w < eps12()
{
    lemma2_to64(); lemma2_to64_rest();
    assert(pow2(43) == 8796093022208);
    if n > 43 { lemma_pow2_strictly_increases(43, n); }
    let p = pow2(n) as real;
    assert(p >= 8796093022208real);
    assert(w < 1real / 1000000000000real) by (nonlinear_arith) requires w * p <= 5real, p >= 8796093022208real, w >= 0real;
}
//@fn src/models/common/black_scholes.rs fn bs_implied_vol_tol
//@params x, f, k, t, df, c, tol
//@closure 0 |sigma: R| -> (q: R) requires f@ > 0real, k@ > 0real ensures q@ == black(f@, k@, sigma@, t@, df@, c)
//@spec
    requires f@ > 0real, k@ > 0real, tol@ >= 0real
    ensures implied(x@, f@, k@, t@, df@, c, tol@, r)
//@entry
    proof { lemma2_to64(); }
//@loop 0
    invariant 0 <= __k0 <= 200, __n0 == 200, target == x, tol@ >= 0real, lo@ <= hi@, forall|s: R| #[trigger] pricer.requires((s,)),
        forall|s: R, q: R| #[trigger] pricer.ensures((s,), q) ==> q@ == black(f@, k@, s@, t@, df@, c), vol_lo() <= lo@, hi@ <= vol_hi(), (hi@ - lo@) * (pow2(__k0 as nat) as real) <= 5real,
        black(f@, k@, lo@, t@, df@, c) <= x@ + tol@, black(f@, k@, hi@, t@, df@, c) >= x@ - tol@,
        x@ >= black(f@, k@, vol_lo(), t@, df@, c) - tol@, x@ <= black(f@, k@, vol_hi(), t@, df@, c) + tol@
    decreases 200 - __k0
//@loop 0 begin
    proof {
        let (w, n) = (hi@ - lo@, pow2(__k0 as nat) as real);
        lemma_pow2_unfold((__k0 + 1) as nat);
        assert(pow2((__k0 + 1) as nat) as real == 2real * n);
        assert((w / 2real) * (2real * n) == w * n) by (nonlinear_arith);
        assert(hi@ - (5real / 10real) * (lo@ + hi@) == w / 2real && (5real / 10real) * (lo@ + hi@) - lo@ == w / 2real);
        if w < eps12() { assert(pinned(x@, f@, k@, t@, df@, c, tol@, lo@, hi@)); }
    }
//@loop 0 after
    proof { lemma_window(hi@ - lo@, 200); assert(pinned(x@, f@, k@, t@, df@, c, tol@, lo@, hi@)); }
//@end
//@fn src/models/common/black_scholes.rs fn bs_implied_vol
//@params x, f, k, t, df, c
//@spec
    requires f@ > 0real, k@ > 0real
    ensures implied(x@, f@, k@, t@, df@, c, 1real / 100000000real, r)
//@end
proof fn vacuity_black(f: real, k: real, x: real) requires f > 0real, k > 0real, implied(x, f, k, 1real, 1real, true, 0real, Some(mk_r(x))) { axiom_ncdf_mono(0real, f); broadcast use axiom_ncdf; assert(false); }
}
fn main() {}
