use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/captvar.vrs
// ---- consequences
proof fn variance_not_negative(c: CapStyle, s: real, a: real, b: real)
    requires a <= b
    ensures tvar(c, s, a, b) >= 0real
{
    let q = s * s;
    assert(q >= 0real) by (nonlinear_arith) requires q == s * s;
    if b > 0real {
        let m = rmax(a, 0real);
        assert(q * m >= 0real) by (nonlinear_arith) requires q >= 0real, m >= 0real;
        let d = b - a;
        if a >= 0real { let x = a + d / 3real; assert(q * x >= 0real) by (nonlinear_arith) requires q >= 0real, x >= 0real; }
        else {
            let (b3, e) = (b * b * b, 3real * d * d);
            assert(e > 0real) by (nonlinear_arith) requires d > 0real, e == 3real * d * d;
            assert(b3 > 0real) by (nonlinear_arith) requires b > 0real, b3 == b * b * b;
            let n = q * b3;
            assert(n >= 0real) by (nonlinear_arith) requires q >= 0real, b3 > 0real, n == q * b3;
            assert(n / e >= 0real) by (nonlinear_arith) requires n >= 0real, e > 0real;
        }
    }
}
// the two branches of a backward-looking caplet meet at the start of its period
proof fn continuous_at_the_start(s: real, b: real)
    requires b > 0real
    ensures tvar(CapStyle::BackwardCompounded, s, 0real, b) == s * s * (b * b * b) / (3real * (b - 0real) * (b - 0real))
{
    let q = s * s;
    let e = 3real * b * b;
    assert(e > 0real) by (nonlinear_arith) requires b > 0real, e == 3real * b * b;
    let n = q * (b * b * b);
    let x = q * (b / 3real);
    assert(x * e == n) by (nonlinear_arith) requires x == q * (b / 3real), e == 3real * b * b, n == q * (b * b * b);
    assert(n / e == x) by (nonlinear_arith) requires x * e == n, e > 0real;
    assert(0real + (b - 0real) / 3real == b / 3real);
}
proof fn vacuity_tvar(c: CapStyle, s: real) requires s > 0real { assert(false); }
}
fn main() {}
