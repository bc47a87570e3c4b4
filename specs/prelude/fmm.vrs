// Forward market model: contracts discharged against src/models/interestrate/fmm.rs
//@item src/models/interestrate/fmm.rs :: struct FlatCurve
//@item src/models/interestrate/fmm.rs :: struct FmmPath
//@item src/models/interestrate/fmm.rs :: struct Fmm
//@item src/models/interestrate/fmm.rs :: enum VolSchedule
// the number of leading knots that start by t, from the k-th on
pub open spec fn lead(s: Seq<(R, R)>, t: real, k: int) -> int decreases s.len() - k { if 0 <= k < s.len() && s[k].0@ <= t { lead(s, t, k + 1) } else { k } }
impl VolSchedule {
    pub open spec fn ok(&self, n: int) -> bool { match self { VolSchedule::PiecewiseConstant(s) => s@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s@[i])@.len() > 0, _ => true } }
    pub open spec fn rising(&self) -> bool { match self { VolSchedule::PiecewiseConstant(s) => forall|i: int, k: int| 0 <= i < s@.len() && 0 <= k < s@[i]@.len() - 1 ==> (#[trigger] s@[i]@[k]).0@ < s@[i]@[k + 1].0@, _ => true } }
    pub open spec fn vol(&self, j: int, t: real, q: FmmTenor) -> real {
        match self {
            VolSchedule::PiecewiseConstant(s) => { let p = s@[j - 1]@; let k = lead(p, t, 0); p[if k == 0 { 0 } else { k - 1 }].1@ }
            VolSchedule::HoLeeEquivalent { vol, mean_reversion } => {
                let a = mean_reversion@;
                if t >= q.d(j) { 0real } else if rabs(a) < 1real / 1_000_000_000_000real { vol@ * q.t(j) } else { vol@ * (rexp((0real - a) * (q.d(j - 1) - t)) - rexp((0real - a) * (q.d(j) - t))) / a }
            }
        }
    }
}
//@fn src/models/interestrate/fmm.rs impl VolSchedule :: sigma_at => impl VolSchedule
//@params j, t, q
//@spec
    requires q.ok(), 1 <= j <= q.n(), self.ok(q.n())
    ensures r@ == self.vol(j as int, t@, *q)
//@loop 0
    invariant_except_break 0 <= __k0 <= __n0, __n0 == per_rate@.len(), __s0@ == per_rate@, per_rate@.len() > 0, lead(per_rate@, t@, 0) == lead(per_rate@, t@, __k0 as int), last == per_rate@[if __k0 == 0 { 0 } else { __k0 - 1 }].1,
    ensures per_rate@.len() > 0, last == per_rate@[if lead(per_rate@, t@, 0) == 0 { 0 } else { lead(per_rate@, t@, 0) - 1 }].1
    decreases per_rate@.len() - __k0
//@end
impl Fmm {
    pub open spec fn n(&self) -> int { self.tenor.n() }
    pub open spec fn ok(&self) -> bool {
        &&& self.tenor.ok() && self.n() < usize::MAX - 1
        &&& self.sigmas@.len() == self.n()
        &&& self.correlation@.len() == self.n() && forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.correlation@[i])@.len() == self.n()
        &&& self.betas is Some ==> self.betas.unwrap()@.len() == self.n()
        &&& self.vol_schedule is Some ==> self.vol_schedule.unwrap().ok(self.n())
    }
    pub open spec fn vol(&self, j: int, t: real) -> real { match self.vol_schedule { Some(s) => s.vol(j, t, self.tenor), None => self.sigmas@[j - 1]@ } }
    pub open spec fn level(&self, j: int, x: real) -> real { match self.betas { Some(b) => b@[j - 1]@ * x + (1real - b@[j - 1]@) * self.tenor.initial_rates@[j - 1]@, None => 1real } }
}
// a correlation matrix: ones on the diagonal, symmetric, entries between -1 and 1 (up to 1e-12)
pub open spec fn correlates(c: Seq<Vec<R>>) -> bool {
    forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() ==> { let x = #[trigger] c[i]@[j]@; rabs(x - c[j]@[i]@) < 1real / 1_000_000_000_000real && rabs(x) <= 1real + 1real / 1_000_000_000_000real && (i == j ==> rabs(x - 1real) < 1real / 1_000_000_000_000real) }
}
//@fn src/models/interestrate/fmm.rs impl Fmm :: new => impl Fmm
//@params q, v, c, g
//@spec
    requires q.ok(), v@.len() == q.n(), c@.len() == q.n(), forall|i: int| 0 <= i < q.n() ==> (#[trigger] c@[i])@.len() == q.n(), correlates(c@), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@ >= 0real
    ensures r == (Fmm { tenor: q, sigmas: v, correlation: c, decay: g, betas: None, vol_schedule: None })
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == q.n(), __s1@ == c@, c@.len() == q.n(), correlation == c, m == q.n(), forall|i: int| 0 <= i < q.n() ==> (#[trigger] c@[i])@.len() == q.n(), correlates(c@),
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == q.n(), 0 <= i < q.n(), row@ == correlation@[i as int]@, __s3@ == row@, correlation@.len() == q.n(), m == q.n(), forall|i: int| 0 <= i < q.n() ==> (#[trigger] correlation@[i])@.len() == q.n(), correlates(correlation@),
    decreases __n1 - __k1
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == v@.len(), sigmas == v, __s5@ == v@, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@ >= 0real,
    decreases __n2 - __k2
//@end
//@fn src/models/interestrate/fmm.rs impl Fmm :: with_betas => impl Fmm
//@params b
//@spec
    requires b@.len() == self.n(), forall|i: int| 0 <= i < b@.len() ==> 0real <= (#[trigger] b@[i])@ <= 1real
    ensures r == (Fmm { betas: Some(b), ..self })
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == b@.len(), __s0@ == betas@, betas == b, forall|i: int| 0 <= i < b@.len() ==> 0real <= (#[trigger] b@[i])@ <= 1real,
    decreases __n0 - __k0
//@end
//@fn src/models/interestrate/fmm.rs impl Fmm :: with_vol_schedule => impl Fmm
//@params s
//@spec
    requires s.ok(self.n()), s.rising()
    ensures r == (Fmm { vol_schedule: Some(s), ..self })
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.n(), __s1@ == sched@, sched@.len() == self.n(), s == VolSchedule::PiecewiseConstant(*sched), s.ok(self.n()), s.rising(),
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __s2@ == per_rate@, __n1 == per_rate@.len() - 1, 1 <= per_rate@.len() <= usize::MAX, sched@.len() == self.n(), 0 <= j < self.n(), per_rate@ == sched@[j as int]@, s == VolSchedule::PiecewiseConstant(*sched), s.ok(self.n()), s.rising(),
    decreases __n1 - __k1
//@end
//@fn src/models/interestrate/fmm.rs impl Fmm :: sigma_at => impl Fmm
//@params j, t
//@spec
    requires self.ok(), 1 <= j <= self.n()
    ensures r@ == self.vol(j as int, t@)
//@end
//@fn src/models/interestrate/fmm.rs impl Fmm :: displacement_level => impl Fmm
//@params j, x
//@spec
    requires self.ok(), 1 <= j <= self.n()
    ensures r@ == self.level(j as int, x@)
//@end
//@fn src/models/interestrate/fmm.rs impl Fmm :: adapted_vol => impl Fmm
//@params j, t, x
//@spec
    requires self.ok(), 1 <= j <= self.n()
    ensures r@ == self.vol(j as int, t@) * self.level(j as int, x@)
//@end
impl FmmPath {
    pub open spec fn ok(&self, m: Fmm) -> bool { self.rates@.len() == m.n() && self.y_diag@.len() == m.n() && self.rates_at_start@.len() == m.n() && self.y_at_start@.len() == m.n() }
    // one plus the interest of the j-th period
    pub open spec fn acc(&self, m: Fmm, j: int) -> real { 1real + m.tenor.t(j) * self.rates@[j - 1]@ }
    pub open spec fn live(&self, m: Fmm) -> bool { forall|j: int| 1 <= j <= m.n() ==> #[trigger] self.acc(m, j) != 0real }
}
//@type C => Curve0
//@type &C => &Curve0
// the market's discount factors today
#[verifier::external_body]
pub struct Curve0 { x: u8 }
impl Curve0 {
    pub uninterp spec fn p(&self, t: real) -> real;
    pub open spec fn ok(&self) -> bool { forall|t: real| #[trigger] self.p(t) > 0real }
    pub open spec fn pf(&self, s: real, t: real) -> real { self.p(t) / self.p(s) }
    #[verifier::external_body]
    pub fn p0(&self, t: R) -> (r: R) ensures r@ == self.p(t@) { unimplemented!() }
}
//@fn src/models/interestrate/fmm.rs trait InitialDiscountCurve :: p0_fwd => impl Curve0
//@params s, t
//@spec
    requires self.ok()
    ensures r@ == self.pf(s@, t@)
//@entry
    proof { assert(self.p(s@) > 0real); }
//@end
//@fn src/models/interestrate/fmm.rs impl InitialDiscountCurve for FlatCurve :: p0 => impl FlatCurve
//@params t
//@spec
    ensures r@ == rexp((0real - self.rate@) * t@)
//@end
// price seen from t <= T_{k-1} of one unit at t2 in the k-th period, forward to T_{k-1}
pub open spec fn back(m: Fmm, x: FmmPath, k: int, t2: real, a: real, b: real) -> real {
    let (g, h) = (m.tenor.gg(k, m.tenor.d(k - 1), t2), m.tenor.gg(k, t2, m.tenor.d(k)));
    a * rpowf(x.acc(m, k), 0real - g) * rpowf(b, 0real - g) * rexp((5real / 10real) * g * h * x.y_diag@[k - 1]@)
}
// price seen from inside the k-th period of one unit at t2 in the same period
pub open spec fn front(m: Fmm, x: FmmPath, k: int, t2: real, a: real, b: real) -> real {
    let (q, t) = (m.tenor, x.t@);
    let g = q.gg(k, t, t2);
    let y0 = x.y_at_start@[k - 1]@;
    let e = (0real - g) * x.x_active@ - (5real / 10real) * g * g * (x.y_diag@[k - 1]@ - y0)
        + (5real / 10real) * y0 * (q.gg(k, t2, q.d(k)) * q.gg(k, q.d(k - 1), t2) - q.gg(k, t, q.d(k)) * q.gg(k, q.d(k - 1), t));
    a * rpowf(b, 0real - g) * rpowf(1real + q.t(k) * x.rates_at_start@[k - 1]@, 0real - g) * rexp(e)
}
pub open spec fn tiny() -> real { 1real / 1_000_000_000_000_000real }
// one unit at t2 of the k-th period, seen from the path's time in the same period
pub open spec fn stub(m: Fmm, x: FmmPath, k: int, t2: real, c: Curve0) -> real {
    let (lo, hi) = (m.tenor.d(k - 1), m.tenor.d(k));
    if x.t@ <= lo + tiny() { back(m, x, k, t2, c.pf(lo, t2), c.pf(lo, hi)) } else { front(m, x, k, t2, c.pf(x.t@, t2), c.pf(lo, hi)) }
}
// one over the accruals of periods lo..hi
pub open spec fn chain(m: Fmm, x: FmmPath, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 1real } else { chain(m, x, lo, hi - 1) / x.acc(m, hi - 1) } }
pub open spec fn bond(m: Fmm, x: FmmPath, t2: real, c: Curve0) -> real {
    let (i, j) = (m.tenor.first(x.t@, 1), m.tenor.first(t2, 1));
    if rabs(t2 - x.t@) < tiny() { 1real } else if i == j { stub(m, x, i, t2, c) } else {
        let (lo, hi) = (m.tenor.d(j - 1), m.tenor.d(j));
        stub(m, x, i, m.tenor.d(i), c) * chain(m, x, i + 1, j) * back(m, x, j, t2, c.pf(lo, t2), c.pf(lo, hi))
    }
}
pub open spec fn compound(m: Fmm, x: FmmPath, n: int) -> real decreases n { if n <= 0 { 1real } else { compound(m, x, n - 1) * x.acc(m, n) } }
//@fn src/models/interestrate/fmm.rs fn back_stub_forward_bond
//@params m, x, k, t2, a0, b0
//@spec
    requires m.ok(), x.ok(*m), 1 <= k <= m.n(), x.t@ <= m.tenor.d(k - 1) + tiny(), m.tenor.d(k - 1) - tiny() < t2@ <= m.tenor.d(k as int) + tiny()
    ensures r@ == back(*m, *x, k as int, t2@, a0@, b0@)
//@end
//@fn src/models/interestrate/fmm.rs fn front_stub_bond
//@params m, x, t2, a0, b0
//@spec
    requires m.ok(), x.ok(*m), m.tenor.first(x.t@, 1) <= m.n(), m.tenor.d(m.tenor.first(x.t@, 1) - 1) - tiny() < x.t@, x.t@ - tiny() < t2@ <= m.tenor.d(m.tenor.first(x.t@, 1)) + tiny()
    ensures r@ == front(*m, *x, m.tenor.first(x.t@, 1), t2@, a0@, b0@)
//@entry
    proof { lemma_first(m.tenor, x.t@, 1); }
//@end
//@fn src/models/interestrate/fmm.rs fn bond_price
//@params m0, x, t2, c
//@bound C: -
//@spec
    requires m0.ok(), x.ok(*m0), x.live(*m0), c.ok(), m0.tenor.d(0) <= x.t@, x.t@ <= t2@ <= m0.tenor.d(m0.n())
    ensures r@ == bond(*m0, *x, t2@, *c)
//@entry
    let ghost q = m0.tenor;
    let ghost (i0, j0) = (q.first(x.t@, 1), q.first(t2@, 1));
    proof {
        lemma_first(q, x.t@, 1); lemma_first(q, t2@, 1);
        lemma_order(q, x.t@, t2@, 1);
    }
//@loop 0
    invariant *tenor == m0.tenor, *path == *x, i0 + 1 <= __k0 <= __n0, __n0 == j0, middle@ == chain(*m0, *x, i0 + 1, __k0 as int), x.live(*m0), x.ok(*m0), m0.ok(), 1 <= i0 < j0 <= m0.n(),
    decreases __n0 - __k0
//@loop 0 begin
    proof { assert(x.acc(*m0, __k0 as int) != 0real); }
//@end
proof fn lemma_order(q: FmmTenor, s: real, t: real, j: int)
    requires q.ok(), 1 <= j <= q.n() + 1, s <= t
    ensures q.first(s, j) <= q.first(t, j)
    decreases q.n() + 1 - j
{ lemma_first(q, s, j); lemma_first(q, t, j); if j <= q.n() { lemma_order(q, s, t, j + 1); } }
//@fn src/models/interestrate/fmm.rs fn bank_account
//@params m0, x, c
//@bound C: -
//@spec
    requires m0.ok(), x.ok(*m0), x.live(*m0), c.ok(), m0.tenor.d(0) <= x.t@
    ensures r@ == ({ let k = m0.tenor.first(x.t@, 1); if k > m0.n() { compound(*m0, *x, m0.n()) } else { compound(*m0, *x, k) * bond(*m0, *x, m0.tenor.d(k), *c) } })
//@loop 0
    invariant *tenor == m0.tenor, *path == *x, 1 <= __k0 <= __n0 + 1, __n0 <= m0.n(), product@ == compound(*m0, *x, __k0 - 1), x.ok(*m0), m0.ok(),
    decreases __n0 + 1 - __k0
//@entry
    proof { lemma_first(m0.tenor, x.t@, 1); }
//@end
#[verifier::external_body]
pub proof fn axiom_powf(x: real, y: real) requires x > 0real ensures rpowf(x, y) == rexp(y * rln(x)) { }
proof fn lemma_inverse(z: real) requires z > 0real ensures rpowf(z, 0real - 1real) * z == 1real {
    broadcast use axiom_exp, axiom_ln;
    axiom_powf(z, 0real - 1real);
    let l = rln(z);
    assert((0real - 1real) * l == 0real - l) by (nonlinear_arith);
    axiom_exp_add(0real - l, l);
}
// at the end of its period the stub is the single-period discount factor
proof fn lemma_back_full(m: Fmm, x: FmmPath, k: int, b: real)
    requires m.ok(), x.ok(m), 1 <= k <= m.n(), x.acc(m, k) > 0real, b > 0real
    ensures back(m, x, k, m.tenor.d(k), b, b) * x.acc(m, k) == 1real
{
    broadcast use axiom_exp;
    let (q, z, y) = (m.tenor, x.acc(m, k), x.y_diag@[k - 1]@);
    lemma_decay(q, k, q.d(k), q.d(k));
    lemma_inverse(z); lemma_inverse(b);
    let (g, h) = (q.gg(k, q.d(k - 1), q.d(k)), q.gg(k, q.d(k), q.d(k)));
    let (u, v) = (rpowf(z, 0real - 1real), rpowf(b, 0real - 1real));
    assert((5real / 10real) * g * h * y == 0real) by (nonlinear_arith) requires h == 0real;
    assert(back(m, x, k, q.d(k), b, b) == b * u * v * 1real);
    assert((b * u * v * 1real) * z == 1real) by (nonlinear_arith) requires u * z == 1real, v * b == 1real;
}
// a path that starts at the rates of the curve
pub open spec fn today(m: Fmm, x: FmmPath, c: Curve0) -> bool {
    &&& m.ok() && x.ok(m) && c.ok() && m.tenor.d(0) == 0real && x.t@ == 0real && c.p(0real) == 1real
    &&& forall|k: int| 1 <= k <= m.n() ==> #[trigger] x.acc(m, k) == c.p(m.tenor.d(k - 1)) / c.p(m.tenor.d(k))
    &&& forall|k: int| 0 <= k < m.n() ==> (#[trigger] x.y_diag@[k])@ == 0real
}
proof fn lemma_ratio(x: real, y: real) requires x > 0real, y > 0real ensures x / y > 0real, (x / y) * (y / x) == 1real {
    let (a, b) = (x / y, y / x);
    assert(a * y == x) by (nonlinear_arith) requires y != 0real, a == x / y;
    assert(b * x == y) by (nonlinear_arith) requires x != 0real, b == y / x;
    assert(a > 0real) by (nonlinear_arith) requires a * y == x, x > 0real, y > 0real;
    assert(a * b == 1real) by { assert(a * b * x == a * y) by (nonlinear_arith) requires b * x == y; assert(a * b * x == x); assert(a * b == 1real) by (nonlinear_arith) requires a * b * x == x, x > 0real; }
}
proof fn lemma_back_today(m: Fmm, x: FmmPath, c: Curve0, k: int, t2: real)
    requires today(m, x, c), 1 <= k <= m.n()
    ensures back(m, x, k, t2, c.pf(m.tenor.d(k - 1), t2), c.pf(m.tenor.d(k - 1), m.tenor.d(k))) == c.pf(m.tenor.d(k - 1), t2)
{
    broadcast use axiom_exp, axiom_ln;
    let q = m.tenor;
    let (lo, hi) = (q.d(k - 1), q.d(k));
    assert(c.p(lo) > 0real && c.p(hi) > 0real);
    lemma_ratio(c.p(lo), c.p(hi)); lemma_ratio(c.p(hi), c.p(lo));
    let (g, h) = (q.gg(k, lo, t2), q.gg(k, t2, hi));
    let (z, b, a, n) = (x.acc(m, k), c.pf(lo, hi), c.pf(lo, t2), 0real - g);
    let (lz, lb) = (rln(z), rln(b));
    axiom_exp_add(lz, lb);
    assert(rexp(lz + lb) == 1real);
    assert(rexp(0real) == 1real);
    assert(rln(rexp(lz + lb)) == rln(rexp(0real)));
    axiom_powf(z, n); axiom_powf(b, n);
    axiom_exp_add(n * lz, n * lb);
    assert(n * lz + n * lb == 0real) by (nonlinear_arith) requires lz + lb == 0real;
    let (u, v) = (rpowf(z, n), rpowf(b, n));
    let y = x.y_diag@[k - 1]@;
    assert((5real / 10real) * g * h * y == 0real) by (nonlinear_arith) requires y == 0real;
    assert(u * v == 1real);
    assert(a * u * v * 1real == a) by (nonlinear_arith) requires u * v == 1real;
}
proof fn lemma_chain_today(m: Fmm, x: FmmPath, c: Curve0, lo: int, hi: int)
    requires today(m, x, c), 1 <= lo <= hi <= m.n()
    ensures chain(m, x, lo, hi) == c.p(m.tenor.d(hi - 1)) / c.p(m.tenor.d(lo - 1))
    decreases hi - lo
{
    let (a, b) = (c.p(m.tenor.d(lo - 1)), c.p(m.tenor.d(hi - 1)));
    assert(a > 0real && b > 0real);
    if lo == hi { assert(a / a == 1real) by (nonlinear_arith) requires a > 0real; } else {
        lemma_chain_today(m, x, c, lo, hi - 1);
        let d = c.p(m.tenor.d(hi - 2));
        assert(d > 0real);
        assert(x.acc(m, hi - 1) == d / b);
        lemma_quot(d, a, b);
    }
}
proof fn lemma_quot(d: real, a: real, b: real) requires d > 0real, a > 0real, b > 0real ensures (d / a) / (d / b) == b / a {
    lemma_ratio(d, b);
    let (x, y, z) = (d / a, d / b, b / a);
    assert(x * a == d) by (nonlinear_arith) requires a != 0real, x == d / a;
    assert(y * b == d) by (nonlinear_arith) requires b != 0real, y == d / b;
    assert(z * a == b) by (nonlinear_arith) requires a != 0real, z == b / a;
    assert(z * y * a == x * a) by (nonlinear_arith) requires z * a == b, y * b == d, x * a == d;
    assert(z * y == x) by (nonlinear_arith) requires z * y * a == x * a, a > 0real;
    assert(x / y == z) by (nonlinear_arith) requires z * y == x, y > 0real;
}
// today's bond prices are the curve's
proof fn lemma_bond_today(m: Fmm, x: FmmPath, c: Curve0, t2: real)
    requires today(m, x, c), tiny() <= t2 <= m.tenor.d(m.n())
    ensures bond(m, x, t2, c) == c.p(t2)
{
    let q = m.tenor;
    lemma_first(q, 0real, 1); lemma_first(q, t2, 1);
    assert(q.dates@[0]@ < q.dates@[1]@);
    let j = q.first(t2, 1);
    assert(q.first(0real, 1) == 1);
    if j > q.n() { assert(q.dates@[q.n()]@ < t2); }
    lemma_back_today(m, x, c, 1, t2);
    assert(c.p(t2) / c.p(0real) == c.p(t2)) by (nonlinear_arith) requires c.p(0real) == 1real;
    if j > 1 {
        let (d1, lo, e) = (q.d(1), q.d(j - 1), c.p(t2));
        assert(c.p(d1) > 0real && c.p(lo) > 0real);
        lemma_back_today(m, x, c, 1, d1);
        lemma_chain_today(m, x, c, 2, j);
        lemma_back_today(m, x, c, j, t2);
        let (a, b) = (c.p(d1), c.p(lo));
        assert(a / 1real == a) by (nonlinear_arith);
        assert(c.pf(0real, d1) == a);
        let (u, v) = (b / a, e / b);
        assert(u * a == b) by (nonlinear_arith) requires a > 0real, u == b / a;
        assert(v * b == e) by (nonlinear_arith) requires b > 0real, v == e / b;
        assert(a * u * v == e) by (nonlinear_arith) requires u * a == b, v * b == e;
    }
}
