// Effective parameters of the time-dependent SABR model: contracts discharged against src/models/forex/sabr_effective.rs
//@call .to_vec => &reals_of
#[verifier::external_body]
pub fn reals_of(x: &[R]) -> (r: Vec<R>) ensures r@ == x@ { unimplemented!() }
// int_0^d e^{cs} ds and the kernel of the double integral, expanded near zero
pub open spec fn e_seg(c: real, d: real) -> real {
    let x = c * d;
    if rabs(x) < 1real / 100_000_000real { d * (1real + (5real / 10real) * x + x * x / 6real + x * x * x / 24real) } else { (rexp(x) - 1real) / c }
}
pub open spec fn kern(g: real, d: real) -> real {
    if rabs(g * d) < 1real / 10_000real { (5real / 10real) * d * d + (7real / 6real) * g * d * d * d + (43real / 24real) * g * g * d * d * d * d }
    else { (e_seg(6real * g, d) - e_seg(g, d)) / (5real * g) }
}
//@fn src/models/forex/sabr_effective.rs fn exp_seg
//@params c, d
//@spec
    ensures r@ == e_seg(c@, d@)
//@entry
    proof { let (a, b) = (c@, d@); if a == 0real { assert(a * b == 0real) by (nonlinear_arith) requires a == 0real; } }
//@end
//@fn src/models/forex/sabr_effective.rs fn exp_seg_diff_kernel
//@params g, d
//@spec
    ensures r@ == kern(g@, d@)
//@entry
    proof { let (a, b) = (g@, d@); if a == 0real { assert(a * b == 0real) by (nonlinear_arith) requires a == 0real; } }
//@end
// number of knots up to the expiry
pub open spec fn upto(k: Seq<R>, t: real, i: int) -> int decreases k.len() - i { if i >= k.len() { k.len() as int } else if k[i]@ <= t + 1real / 1_000_000_000_000real { upto(k, t, i + 1) } else { i } }
pub open spec fn on_knot(k: Seq<R>, t: real) -> bool { exists|i: int| 0 <= i < k.len() && rabs((#[trigger] k[i])@ - t) < 1real / 1_000_000_000_000real }
pub open spec fn aligned(a: PiecewiseConstant, b: PiecewiseConstant, t: real) -> bool {
    a.ok() && b.ok() && a.knots.len() == b.knots.len() && (forall|i: int| 0 <= i < a.knots.len() ==> (#[trigger] a.knots[i])@ == b.knots[i]@) && on_knot(a.knots@, t)
}
// the schedules up to the expiry: lengths of the segments and values on them
pub open spec fn cut_of(a: PiecewiseConstant, b: PiecewiseConstant, t: real, d: Seq<R>, g: Seq<R>, o: Seq<R>) -> bool {
    let n = upto(a.knots@, t, 0) - 1;
    0 <= n <= a.values.len() && d.len() == n && g.len() == n && o.len() == n && g == a.values@.take(n) && o == b.values@.take(n)
        && forall|k: int| 0 <= k < n ==> (#[trigger] d[k])@ == a.knots[k + 1]@ - a.knots[k]@
}
proof fn lemma_range(k: Seq<R>, t: real, i: int)
    requires 0 <= i <= k.len()
    ensures i <= upto(k, t, i) <= k.len()
    decreases k.len() - i
{
    if i < k.len() && k[i]@ <= t + 1real / 1_000_000_000_000real { lemma_range(k, t, i + 1); }
}
proof fn lemma_upto(a: PiecewiseConstant, t: real)
    requires a.ok(), on_knot(a.knots@, t)
    ensures 1 <= upto(a.knots@, t, 0) <= a.knots.len()
{
    let i = choose|i: int| 0 <= i < a.knots.len() && rabs((#[trigger] a.knots[i])@ - t) < 1real / 1_000_000_000_000real;
    if i > 0 { assert(a.knots[0]@ < a.knots[i]@); }
    lemma_range(a.knots@, t, 1);
}
//@fn src/models/forex/sabr_effective.rs fn aligned_segments
//@params gamma, omega1, expiry
//@local __acc2: Vec<R>
//@spec
    requires aligned(*gamma, *omega1, expiry@)
    ensures cut_of(*gamma, *omega1, expiry@, r.0@, r.1@, r.2@)
//@entry
    proof { lemma_upto(*gamma, expiry@); }
//@loop 0
    invariant __k0 <= __n0, __n0 == gamma.knots.len(), __s0@ == gamma.knots@, on_knot(gamma.knots@, expiry@), !__acc0 ==> forall|i: int| 0 <= i < __k0 ==> rabs((#[trigger] gamma.knots@[i])@ - expiry@) >= 1real / 1_000_000_000_000real,
    ensures __acc0,
    decreases __n0 - __k0
//@loop 1
    invariant __k1 <= __n1, __n1 == gamma.knots.len(), __s2@ == gamma.knots@, __acc1 == __k1, upto(gamma.knots@, expiry@, 0) == upto(gamma.knots@, expiry@, __k1 as int),
    ensures __acc1 == upto(gamma.knots@, expiry@, 0),
    decreases __n1 - __k1
//@loop 2
    invariant __k2 <= __n2, __n2 == n, __lo5 == 0, n < gamma.knots.len(), __acc2.len() == __k2, forall|k: int| 0 <= k < __k2 ==> (#[trigger] __acc2[k])@ == gamma.knots[k + 1]@ - gamma.knots[k]@,
    decreases __n2 - __k2
//@end
// G_k, I, h_k and the double integral, segment by segment
pub open spec fn g_s(d: Seq<R>, g: Seq<R>, k: int) -> real decreases k { if k <= 0 { 0real } else { g_s(d, g, k - 1) + g[k - 1]@ * g[k - 1]@ * d[k - 1]@ } }
pub open spec fn i_s(d: Seq<R>, g: Seq<R>, o: Seq<R>, k: int) -> real decreases k {
    if k <= 0 { 0real } else { i_s(d, g, o, k - 1) + o[k - 1]@ * o[k - 1]@ * rexp(g_s(d, g, k - 1)) * e_seg(g[k - 1]@ * g[k - 1]@, d[k - 1]@) }
}
pub open spec fn h_s(d: Seq<R>, g: Seq<R>, o: Seq<R>, k: int) -> real decreases k {
    if k <= 0 { 0real } else { h_s(d, g, o, k - 1) + o[k - 1]@ * o[k - 1]@ * rexp(5real * g_s(d, g, k - 1)) * e_seg(5real * (g[k - 1]@ * g[k - 1]@), d[k - 1]@) }
}
pub open spec fn l_s(d: Seq<R>, g: Seq<R>, o: Seq<R>, k: int) -> real decreases k {
    if k <= 0 { 0real } else {
        let (g2, o2, x) = (g[k - 1]@ * g[k - 1]@, o[k - 1]@ * o[k - 1]@, g_s(d, g, k - 1));
        l_s(d, g, o, k - 1) + (o2 * rexp(x) * h_s(d, g, o, k - 1) * e_seg(g2, d[k - 1]@) + o2 * o2 * rexp(6real * x) * kern(g2, d[k - 1]@))
    }
}
pub open spec fn tiny() -> real { 1real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real }
pub open spec fn rhs_s(q: real, t: real, i: real) -> real {
    let x = q * t;
    let e = rexp(x) - 1real;
    if rabs(e) < tiny() { (5real / 10real) * i * i }
    else { i * i / (5real * e * e) * (if rabs(x) < 1real / 1000real { (25real / 10real) * (x * x) + (35real / 6real) * (x * x) * x + (215real / 24real) * (x * x) * (x * x) + (1295real / 120real) * (x * x) * (x * x) * x } else { (rexp(6real * x) - 1real) / 6real - (rexp(x) - 1real) }) }
}
//@fn src/models/forex/sabr_effective.rs fn i_integral
//@params deltas, gamma, omega1
//@spec
    requires gamma.len() == deltas.len(), omega1.len() == deltas.len()
    ensures r@ == i_s(deltas@, gamma@, omega1@, deltas.len() as int)
//@loop 0
    invariant __k0 <= __n0, __n0 == deltas.len(), gamma.len() == deltas.len(), omega1.len() == deltas.len(), g_prev@ == g_s(deltas@, gamma@, __k0 as int), total@ == i_s(deltas@, gamma@, omega1@, __k0 as int),
    decreases __n0 - __k0
//@end
//@fn src/models/forex/sabr_effective.rs fn lhs_double_integral
//@params deltas, gamma, omega1
//@spec
    requires gamma.len() == deltas.len(), omega1.len() == deltas.len()
    ensures r@ == l_s(deltas@, gamma@, omega1@, deltas.len() as int)
//@loop 0
    invariant __k0 <= __n0, __n0 == deltas.len(), gamma.len() == deltas.len(), omega1.len() == deltas.len(), g_prev@ == g_s(deltas@, gamma@, __k0 as int), h_prev@ == h_s(deltas@, gamma@, omega1@, __k0 as int), total@ == l_s(deltas@, gamma@, omega1@, __k0 as int),
    decreases __n0 - __k0
//@end
//@fn src/models/forex/sabr_effective.rs fn rhs_at_gamma_tilde
//@params q, t, i
//@spec
    ensures r@ == rhs_s(q@, t@, i@)
//@entry
    proof { let e = rexp(q@ * t@) - 1real; if e != 0real { assert(5real * e * e != 0real) by (nonlinear_arith) requires e != 0real; } }
//@end
pub open spec fn half(k: int) -> real decreases k { if k <= 0 { 1real } else { half(k - 1) / 2real } }
pub open spec fn top(e: int) -> real decreases e { if e <= 0 { 4real } else { top(e - 1) * 2real } }
// the schedules' own numbers
pub open spec fn first_s(a: PiecewiseConstant, b: PiecewiseConstant, t: real, i: real, l: real) -> bool {
    exists|d: Seq<R>, g: Seq<R>, o: Seq<R>| #[trigger] cut_of(a, b, t, d, g, o) && i == i_s(d, g, o, d.len() as int) && l == l_s(d, g, o, d.len() as int)
}
// the two sides meet between lo and hi, which are close
pub open spec fn meets(t: real, i: real, l: real, lo: real, hi: real, e: int) -> bool {
    0real <= lo <= hi && rhs_s(lo, t, i) <= l <= rhs_s(hi, t, i) && 0 <= e <= 20 && (hi - lo < 1real / 100_000_000_000_000real || hi - lo == top(e) * half(60))
}
pub open spec fn volvol_of(t: real, i: real, l: real, r: real) -> bool {
    if l <= (5real / 10real) * i * i * (1real + 1real / 1_000_000_000_000real) { r == 0real }
    else { r >= 0real && exists|lo: real, hi: real, e: int| #[trigger] meets(t, i, l, lo, hi, e) && r * r == (5real / 10real) * (lo + hi) }
}
pub open spec fn is_volvol(a: PiecewiseConstant, b: PiecewiseConstant, t: real, r: real) -> bool { exists|i: real, l: real| #[trigger] first_s(a, b, t, i, l) && volvol_of(t, i, l, r) }
// the right-hand side catches up below 2^22
pub open spec fn bracketed(a: PiecewiseConstant, b: PiecewiseConstant, t: real) -> bool { forall|i: real, l: real| #[trigger] first_s(a, b, t, i, l) ==> l <= rhs_s(top(20), t, i) }
proof fn lemma_top(e: int) ensures top(e) >= 4real decreases e { if e > 0 { lemma_top(e - 1); } }
proof fn lemma_floor(t: real, i: real, l: real)
    requires l > (5real / 10real) * i * i * (1real + 1real / 1_000_000_000_000real)
    ensures rhs_s(0real, t, i) <= l
{
    broadcast use axiom_exp;
    assert(0real * t == 0real) by (nonlinear_arith);
    let y = (5real / 10real) * i * i;
    assert(y >= 0real) by (nonlinear_arith) requires y == (5real / 10real) * i * i;
    assert(y * (1real + 1real / 1_000_000_000_000real) >= y) by (nonlinear_arith) requires y >= 0real;
}
//@fn src/models/forex/sabr_effective.rs fn effective_vol_vol
//@params gamma, omega1, expiry
//@spec
    requires aligned(*gamma, *omega1, expiry@), bracketed(*gamma, *omega1, expiry@)
    ensures is_volvol(*gamma, *omega1, expiry@, r@)
//@entry
    broadcast use axiom_sqrt;
//@site rhs_at_zero
    proof { assert(first_s(*gamma, *omega1, expiry@, i_val@, lhs@)); if lhs@ > (5real / 10real) * i_val@ * i_val@ * (1real + 1real / 1_000_000_000_000real) { lemma_floor(expiry@, i_val@, lhs@); } }
//@exit
    proof {
        assert(volvol_of(expiry@, i_val@, lhs@, r@));
    }
//@loop 0
    invariant 0 <= expansions <= 20, hi@ == top(expansions as int), f_hi@ == rhs_s(hi@, expiry@, i_val@) - lhs@,
    decreases 20 - expansions
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == 60, 0real <= lo@ <= hi@, hi@ - lo@ == top(expansions as int) * half(__k1 as int), rhs_s(lo@, expiry@, i_val@) <= lhs@ <= rhs_s(hi@, expiry@, i_val@),
    ensures hi@ - lo@ < 1real / 100_000_000_000_000real || hi@ - lo@ == top(expansions as int) * half(60),
    decreases __n1 - __k1
//@loop 0 after
    proof { lemma_top(expansions as int); }
//@loop 1 after
    proof { assert(meets(expiry@, i_val@, lhs@, lo@, hi@, expansions as int)); }
//@loop 1 begin
    proof { let (x, y) = (top(expansions as int), half(__k1 as int)); assert(x * (y / 2real) == x * y / 2real) by (nonlinear_arith); assert(half(__k1 + 1) == y / 2real); }
//@end
proof fn lemma_seg_pos(c: real, d: real)
    requires c >= 0real, d >= 0real
    ensures e_seg(c, d) >= 0real
{
    broadcast use axiom_exp;
    let x = c * d;
    assert(x >= 0real) by (nonlinear_arith) requires x == c * d, c >= 0real, d >= 0real;
    assert(x * x >= 0real) by (nonlinear_arith);
    assert(x * x * x >= 0real) by (nonlinear_arith) requires x >= 0real;
    if x < 1real / 100_000_000real {
        let y = 1real + (5real / 10real) * x + x * x / 6real + x * x * x / 24real;
        assert(d * y >= 0real) by (nonlinear_arith) requires d >= 0real, y >= 0real;
    } else {
        axiom_exp_mono(0real, x);
        if c == 0real { assert(c * d == 0real) by (nonlinear_arith) requires c == 0real; }
        let y = rexp(x) - 1real;
        assert(y / c >= 0real) by (nonlinear_arith) requires y > 0real, c > 0real;
    }
}
proof fn lemma_i_pos(d: Seq<R>, g: Seq<R>, o: Seq<R>, k: int)
    requires 0 <= k <= d.len(), g.len() == d.len(), o.len() == d.len(), forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i])@ >= 0real
    ensures i_s(d, g, o, k) >= 0real
    decreases k
{
    if k > 0 {
        broadcast use axiom_exp;
        lemma_i_pos(d, g, o, k - 1);
        let (a, b) = (g[k - 1]@, o[k - 1]@);
        assert(a * a >= 0real) by (nonlinear_arith);
        assert(b * b >= 0real) by (nonlinear_arith);
        assert(d[k - 1]@ >= 0real);
        lemma_seg_pos(a * a, d[k - 1]@);
        let (u, v, w) = (b * b, rexp(g_s(d, g, k - 1)), e_seg(a * a, d[k - 1]@));
        assert(u * v >= 0real) by (nonlinear_arith) requires u >= 0real, v > 0real;
        let z = u * v;
        assert(z * w >= 0real) by (nonlinear_arith) requires z >= 0real, w >= 0real;
    }
}
proof fn lemma_cut(a: PiecewiseConstant, b: PiecewiseConstant, t: real, d: Seq<R>, g: Seq<R>, o: Seq<R>)
    requires a.ok(), cut_of(a, b, t, d, g, o)
    ensures i_s(d, g, o, d.len() as int) >= 0real
{
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k])@ >= 0real by { assert(a.knots[k]@ < a.knots[k + 1]@); }
    lemma_i_pos(d, g, o, d.len() as int);
}
// the square of the level at the vol-of-vol g
pub open spec fn level2(t: real, i: real, g: real) -> real { let x = g * g * t; if rabs(x) < 1real / 1_000_000real { i / t } else { g * g * i / (rexp(x) - 1real) } }
pub open spec fn level_of(a: PiecewiseConstant, b: PiecewiseConstant, t: real, i: real, l: real, g: real, r: real) -> bool { first_s(a, b, t, i, l) && is_volvol(a, b, t, g) && r >= 0real && r * r == level2(t, i, g) }
pub open spec fn is_level(a: PiecewiseConstant, b: PiecewiseConstant, t: real, r: real) -> bool { exists|i: real, l: real, g: real| #[trigger] level_of(a, b, t, i, l, g, r) }
//@fn src/models/forex/sabr_effective.rs fn effective_term_structure
//@params gamma, omega1, expiry
//@spec
    requires aligned(*gamma, *omega1, expiry@), bracketed(*gamma, *omega1, expiry@), expiry@ > 0real
    ensures is_level(*gamma, *omega1, expiry@, r@)
//@entry
    broadcast use axiom_sqrt, axiom_exp;
//@site omega_sq
    proof {
        lemma_cut(*gamma, *omega1, expiry@, deltas@, gs@, os@);
        let (g, t, i) = (gamma_tilde@, expiry@, i_val@);
        let q = g * g;
        assert(q >= 0real) by (nonlinear_arith) requires q == g * g;
        let x = q * t;
        assert(x >= 0real) by (nonlinear_arith) requires x == q * t, q >= 0real, t > 0real;
        if x > 0real { axiom_exp_mono(0real, x); }
        let n = q * i;
        assert(n >= 0real) by (nonlinear_arith) requires n == q * i, q >= 0real, i >= 0real;
        let e = rexp(x) - 1real;
        if x > 0real { assert(n / e >= 0real) by (nonlinear_arith) requires n >= 0real, e > 0real; }
        assert(i / t >= 0real) by (nonlinear_arith) requires i >= 0real, t > 0real;
    }
//@exit
    proof {
        let l = l_s(deltas@, gs@, os@, deltas.len() as int);
        assert(first_s(*gamma, *omega1, expiry@, i_val@, l));
        assert(level_of(*gamma, *omega1, expiry@, i_val@, l, gamma_tilde@, r@));
    }
//@end
pub open spec fn c_s(d: Seq<R>, g: Seq<R>, o: Seq<R>, p: Seq<R>, k: int) -> real decreases k { if k <= 0 { 0real } else { c_s(d, g, o, p, k - 1) + p[k - 1]@ * g[k - 1]@ / o[k - 1]@ * d[k - 1]@ } }
pub open spec fn corr_of(a: PiecewiseConstant, b: PiecewiseConstant, c: PiecewiseConstant, t: real, d: Seq<R>, g: Seq<R>, o: Seq<R>, v: real, w: real, r: real) -> bool {
    cut_of(a, b, t, d, g, o) && is_volvol(a, b, t, v) && is_level(a, b, t, w)
        && r == (if rabs(v) < tick() { 0real } else { w / (v * t) * c_s(d, g, o, c.values@.take(d.len() as int), d.len() as int) })
}
pub open spec fn is_corr(a: PiecewiseConstant, b: PiecewiseConstant, c: PiecewiseConstant, t: real, r: real) -> bool { exists|d: Seq<R>, g: Seq<R>, o: Seq<R>, v: real, w: real| #[trigger] corr_of(a, b, c, t, d, g, o, v, w, r) }
//@fn src/models/forex/sabr_effective.rs fn effective_correlation
//@params gamma, omega1, rho, expiry
//@spec
    requires aligned(*gamma, *omega1, expiry@), aligned(*gamma, *rho, expiry@), bracketed(*gamma, *omega1, expiry@), expiry@ > 0real, forall|k: int| 0 <= k < omega1.values.len() ==> rabs((#[trigger] omega1.values@[k])@) > tick()
    ensures is_corr(*gamma, *omega1, *rho, expiry@, r@)
//@entry
    broadcast use axiom_sqrt;
//@loop 0
    invariant __k0 <= __n0, __n0 == deltas.len(), cut_of(*gamma, *omega1, expiry@, deltas@, gs@, os@), rs@ == rho.values@.take(deltas.len() as int), rs.len() == deltas.len(), integral@ == c_s(deltas@, gs@, os@, rs@, __k0 as int),
        forall|k: int| 0 <= k < omega1.values.len() ==> rabs((#[trigger] omega1.values@[k])@) > tick(), omega1.ok(), gamma.ok(), gamma.knots.len() == omega1.knots.len(),
    decreases __n0 - __k0
//@loop 0 begin
    proof { assert(os@[__k0 as int] == omega1.values@[__k0 as int]); }
//@site omega_tilde
    proof { let (v, t) = (gamma_tilde@, expiry@); if v != 0real { assert(v * t != 0real) by (nonlinear_arith) requires v != 0real, t > 0real; } }
//@exit
    proof { assert(corr_of(*gamma, *omega1, *rho, expiry@, deltas@, gs@, os@, gamma_tilde@, omega_tilde@, r@)); }
//@end
