// ---- Black on a forward
pub open spec fn d1(f: real, k: real, s: real, t: real) -> real { (rln(f / k) + (1real / 2real) * s * s * t) / (s * rsqrt(t)) }
pub open spec fn d2(f: real, k: real, s: real, t: real) -> real { d1(f, k, s, t) - s * rsqrt(t) }
pub open spec fn black_call(f: real, k: real, s: real, t: real, df: real) -> real {
    if s <= 0real || t <= 0real { df * rmax(f - k, 0real) } else { df * (f * ncdf(d1(f, k, s, t)) - k * ncdf(d2(f, k, s, t))) }
}
pub open spec fn black_put(f: real, k: real, s: real, t: real, df: real) -> real {
    if s <= 0real || t <= 0real { df * rmax(k - f, 0real) } else { df * (k * ncdf(0real - d2(f, k, s, t)) - f * ncdf(0real - d1(f, k, s, t))) }
}
pub open spec fn black(f: real, k: real, s: real, t: real, df: real, call: bool) -> real { if call { black_call(f, k, s, t, df) } else { black_put(f, k, s, t, df) } }
proof fn lemma_half(s: real, t: real)
    ensures (5real / 10real) * s * s * t == (1real / 2real) * s * s * t
{ }
proof fn lemma_terms(f: real, k: real, s: real, t: real)
    requires f > 0real, k > 0real
    ensures f / k > 0real, s > 0real && t > 0real ==> s * rsqrt(t) > 0real
{
    broadcast use axiom_sqrt;
    assert(f / k > 0real) by (nonlinear_arith) requires f > 0real, k > 0real;
    let q = rsqrt(t);
    if s > 0real && t > 0real { assert(s * q > 0real) by (nonlinear_arith) requires s > 0real, q > 0real; }
}
//@fn src/models/common/black_scholes.rs fn bs_call_forward
//@params f, k, s, t, df
//@spec
    requires f@ > 0real, k@ > 0real
    ensures r@ == black_call(f@, k@, s@, t@, df@)
//@entry
    proof { lemma_terms(f@, k@, s@, t@); }
//@end
//@fn src/models/common/black_scholes.rs fn bs_put_forward
//@params f, k, s, t, df
//@spec
    requires f@ > 0real, k@ > 0real
    ensures r@ == black_put(f@, k@, s@, t@, df@)
//@entry
    proof { lemma_terms(f@, k@, s@, t@); }
//@end
proof fn black_parity(f: real, k: real, s: real, t: real, df: real)
    ensures black_call(f, k, s, t, df) - black_put(f, k, s, t, df) == df * (f - k)
{
    let (a, b) = (d1(f, k, s, t), d2(f, k, s, t));
    axiom_ncdf(a); axiom_ncdf(b);
    let (p, q) = (ncdf(a), ncdf(b));
    assert(df * (f * p - k * q) - df * (k * (1real - q) - f * (1real - p)) == df * (f - k)) by (nonlinear_arith);
    assert(df * rmax(f - k, 0real) - df * rmax(k - f, 0real) == df * (f - k)) by (nonlinear_arith)
        requires rmax(f - k, 0real) - rmax(k - f, 0real) == f - k;
}
