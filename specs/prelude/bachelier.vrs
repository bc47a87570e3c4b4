// ---- Bachelier
pub open spec fn b_call(f: real, k: real, v: real) -> real {
    if v <= 0real { rmax(f - k, 0real) } else { let d = (f - k) / rsqrt(v); rsqrt(v) * npdf(d) + (f - k) * ncdf(d) }
}
pub open spec fn b_put(f: real, k: real, v: real) -> real {
    if v <= 0real { rmax(k - f, 0real) } else { let d = (f - k) / rsqrt(v); rsqrt(v) * npdf(d) + (k - f) * ncdf(0real - d) }
}
//@fn src/models/common/bachelier.rs fn bachelier_call
//@params f, k, v
//@spec
    ensures r@ == b_call(f@, k@, v@)
//@entry
    broadcast use axiom_sqrt;
//@end
//@fn src/models/common/bachelier.rs fn bachelier_put
//@params f, k, v
//@spec
    ensures r@ == b_put(f@, k@, v@)
//@entry
    broadcast use axiom_sqrt;
//@end
//@fn src/models/common/bachelier.rs fn bachelier_vega_variance
//@params f, k, v
//@spec
    ensures r@ == (if v@ <= 0real { 0real } else { npdf((f@ - k@) / rsqrt(v@)) / (2real * rsqrt(v@)) })
//@entry
    broadcast use axiom_sqrt;
//@end
pub proof fn bachelier_parity(f: real, k: real, v: real)
    ensures b_call(f, k, v) - b_put(f, k, v) == f - k
{
    if v > 0real {
        let d = (f - k) / rsqrt(v);
        axiom_ncdf(d);
        let p = ncdf(d);
        assert((f - k) * p - (k - f) * (1real - p) == f - k) by (nonlinear_arith);
    }
}
