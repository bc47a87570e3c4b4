use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/advance_lib.vrs
//@include prelude/scale.vrs
//@include prelude/daycounter.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
//@include prelude/swapleg.vrs
//@include prelude/swapdates.vrs
//@include prelude/swappv.vrs
// ---- consequences
// a leg's value is odd in its direction
proof fn buying_is_minus_selling(a: InterestRateSwapLeg, b: InterestRateSwapLeg, y: YieldTermStructure, sh: real, w: Seq<Row>, n: int)
    requires a.swap_type == b.swap_type, a.schedule_detail.day_counter == b.schedule_detail.day_counter, a.direction is Buy, b.direction is Sell
    ensures a.pv(y, sh, w, n) == 0real - b.pv(y, sh, w, n), a.leg_pv(y, sh, w) == 0real - b.leg_pv(y, sh, w)
    decreases w.len() + (if n > 0 { n } else { 0 })
{
    if n > 0 {
        buying_is_minus_selling(a, b, y, sh, w, n - 1);
        let x = w[n - 1];
        assert(a.payment(y, sh, x) == b.payment(y, sh, x));
        let q = a.payment(y, sh, x) * y.disc_s(x.pay, sh);
        assert(q * 1real == 0real - q * (0real - 1real)) by (nonlinear_arith);
    }
    if w.len() > 0 {
        if n != w.len() as int { lemma_odd(a, b, y, sh, w, w.len() as int); }
        let q = w[w.len() - 1].bal * y.disc_s(w[w.len() - 1].pay, sh);
        assert(q * 1real == 0real - q * (0real - 1real)) by (nonlinear_arith);
    }
}
proof fn lemma_odd(a: InterestRateSwapLeg, b: InterestRateSwapLeg, y: YieldTermStructure, sh: real, w: Seq<Row>, n: int)
    requires a.swap_type == b.swap_type, a.schedule_detail.day_counter == b.schedule_detail.day_counter, a.direction is Buy, b.direction is Sell
    ensures a.pv(y, sh, w, n) == 0real - b.pv(y, sh, w, n)
    decreases (if n > 0 { n } else { 0 })
{
    if n > 0 {
        lemma_odd(a, b, y, sh, w, n - 1);
        let x = w[n - 1];
        assert(a.payment(y, sh, x) == b.payment(y, sh, x));
        let q = a.payment(y, sh, x) * y.disc_s(x.pay, sh);
        assert(q * 1real == 0real - q * (0real - 1real)) by (nonlinear_arith);
    }
}
// a bought floating leg without spread, paid at each period's end over adjoining periods on a constant notional,
// is worth that notional discounted from its first day
proof fn par_floater(l: InterestRateSwapLeg, y: YieldTermStructure, sh: real, w: Seq<Row>, b: real, n: int)
    requires l.direction is Buy, l.swap_type is Float, l.swap_type->spread@ == 0real, 0 <= n <= w.len(), w.len() > 0,
        forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).pay == w[i].e && w[i].bal == b && l.tau(w[i]) != 0real,
        forall|i: int| 0 < i < w.len() ==> (#[trigger] w[i]).s == w[i - 1].e,
    ensures n > 0 ==> l.pv(y, sh, w, n) == b * (y.disc_s(w[0].s, sh) - y.disc_s(w[n - 1].e, sh)),
        n == w.len() ==> l.leg_pv(y, sh, w) == b * y.disc_s(w[0].s, sh),
    decreases n
{
    if n > 0 {
        par_floater(l, y, sh, w, b, n - 1);
        let x = w[n - 1];
        let (ds, de, t) = (y.disc_s(x.s, sh), y.disc_s(x.e, sh), l.tau(x));
        lemma_disc_pos(y, x.e, sh);
        let f = ds / de - 1real;
        assert(f * de == ds - de) by (nonlinear_arith) requires f == ds / de - 1real, de > 0real;
        assert((f / t) * t == f) by (nonlinear_arith) requires t != 0real;
        assert(l.rate(y, sh, x) == f / t);
        assert(l.payment(y, sh, x) == f * b);
        assert((f * b) * de * 1real == b * (f * de)) by (nonlinear_arith);
        assert(l.pv1(y, sh, x) == b * (ds - de));
        let d0 = y.disc_s(w[0].s, sh);
        assert(b * (d0 - ds) + b * (ds - de) == b * (d0 - de)) by (nonlinear_arith);
        if n == 1 { assert(l.pv(y, sh, w, 0) == 0real); }
        assert(b * (d0 - de) + b * de * 1real == b * d0) by (nonlinear_arith);
    }
}
proof fn vacuity_pv(l: InterestRateSwap, y: YieldTermStructure, v: int) requires l.pv_ok(v), y.ok(), l.legs.len() == 2 { assert(false); }
}
fn main() {}
