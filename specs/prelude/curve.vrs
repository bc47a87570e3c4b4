//@type Box<dyn Calendar> => Cal
//@type Box<dyn DayCounters> => Dcc
//@include daycounter.vrs
//@item src/markets/termstructures/yieldcurve.rs :: enum InterpolationMethodEnum
//@item src/markets/termstructures/yieldcurve.rs :: enum InterestRateQuoteEnum => #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item src/markets/termstructures/yieldcurve.rs :: struct StrippedCurve => #[derive(Clone, Copy)]
impl PartialEq for StrippedCurve { #[verifier::external_body] fn eq(&self, o: &StrippedCurve) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<StrippedCurve> for StrippedCurve {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &StrippedCurve) -> bool { *self == *o }
}
//@item src/markets/termstructures/yieldcurve.rs :: struct YieldTermStructure
// pillars in date order, at least one of them visible
pub open spec fn ordered(s: Seq<StrippedCurve>) -> bool {
    &&& s.len() > 0
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).date@ <= (#[trigger] s[j]).date@
}
// first visible pillar at or after t, from index i; s.len() if there is none
pub open spec fn bracket(s: Seq<StrippedCurve>, t: int, i: int) -> int decreases s.len() - i {
    if i >= s.len() || i < 0 { s.len() as int } else if t <= s[i].date@ && !s[i].hidden_pillar { i } else { bracket(s, t, i + 1) }
}
// last visible pillar before index i (0 if there is none)
pub open spec fn last_visible(s: Seq<StrippedCurve>, i: int) -> int decreases i {
    if i <= 0 { 0 } else if !s[i - 1].hidden_pillar { i - 1 } else { last_visible(s, i - 1) }
}
// the zero rate at day t: the first visible pillar's up to it, the last visible pillar's beyond that one,
// linear in calendar days between the neighbouring visible pillars in between
pub open spec fn zero_at(s: Seq<StrippedCurve>, t: int) -> real {
    let k = bracket(s, t, 0);
    if k >= s.len() { s[last_visible(s, s.len() as int)].zero_rate@ }
    else if k == first_visible(s) { s[k].zero_rate@ }
    else {
        let (a, b) = (s[last_visible(s, k)], s[k]);
        ((t - a.date@) as real * b.zero_rate@ + (b.date@ - t) as real * a.zero_rate@) / ((b.date@ - a.date@) as real)
    }
}
pub open spec fn curve_ok(s: Seq<StrippedCurve>) -> bool { ordered(s) && first_visible(s) < s.len() }
pub open spec fn df(z: real, v: int, d: int) -> real { rexp((0real - z) * yf365(v, d)) }
pub open spec fn first_visible(s: Seq<StrippedCurve>) -> int { bracket(s, -3_000_000_000, 0) }
pub proof fn lemma_bracket(s: Seq<StrippedCurve>, t: int, i: int)
    requires 0 <= i <= s.len()
    ensures ({ let k = bracket(s, t, i);
        i <= k <= s.len() && (k < s.len() ==> t <= s[k].date@ && !s[k].hidden_pillar)
        && forall|j: int| i <= j < k ==> !(t <= (#[trigger] s[j]).date@ && !s[j].hidden_pillar) })
    decreases s.len() - i
{ if i < s.len() && !(t <= s[i].date@ && !s[i].hidden_pillar) { lemma_bracket(s, t, i + 1); } }
pub proof fn lemma_last_visible(s: Seq<StrippedCurve>, i: int)
    requires 0 <= i <= s.len()
    ensures 0 <= last_visible(s, i), i > 0 ==> last_visible(s, i) < i,
        forall|j: int| 0 <= j < i && !(#[trigger] s[j]).hidden_pillar ==> !s[last_visible(s, i)].hidden_pillar && j <= last_visible(s, i)
    decreases i
{ if i > 0 && s[i - 1].hidden_pillar { lemma_last_visible(s, i - 1); } }
//@fn src/markets/termstructures/yieldcurve.rs impl YieldTermStructure :: step_function_forward_zero_rate => impl YieldTermStructure
//@params date
//@spec
    requires curve_ok(self.stripped_curves@), fin(date@)
    ensures r@ == zero_at(self.stripped_curves@, date@ + 1)
//@entry
    let ghost s = self.stripped_curves@;
    let ghost t = date@ + 1;
    proof { lemma_bracket(s, t, 0); lemma_bracket(s, -3_000_000_000, 0); lemma_last_visible(s, bracket(s, t, 0)); }
//@loop 0
    invariant_except_break
        *second == s[0], *first == s[last_visible(s, __k0 as int)], bracket(s, t, 0) == bracket(s, t, __k0 as int),
    invariant 0 <= __k0 <= __n0, __n0 == s.len(), __s0@ == s, s == self.stripped_curves@, ordered(s), t == target_date@
    ensures ({ let k = bracket(s, t, 0);
        if k < s.len() { *second == s[k] && *first == s[last_visible(s, k)] } else { *second == s[0] && *first == s[last_visible(s, s.len() as int)] } })
    decreases __n0 - __k0
//@loop 1
    invariant_except_break first_visible(s) == bracket(s, -3_000_000_000, __k1 as int)
    invariant 0 <= __k1 <= __n1, __n1 == s.len(), __s1@ == s, s == self.stripped_curves@, first_visible(s) < s.len()
    ensures *true_first == s[first_visible(s)]
    decreases __n1 - __k1
//@end
impl YieldTermStructure {
    pub open spec fn ok(&self) -> bool { curve_ok(self.stripped_curves@) && fin(self.valuation_date@) }
    pub open spec fn zero(&self, d: int) -> real { zero_at(self.stripped_curves@, d + 1) }
    pub open spec fn disc(&self, d: int) -> real { df(self.zero(d), self.valuation_date@, d) }
    // the discount factor with every zero rate moved by s basis points
    pub open spec fn disc_s(&self, d: int, s: real) -> real { df(self.zero(d) + s / 10000real, self.valuation_date@, d) }
}
//@fn src/markets/termstructures/yieldcurve.rs impl YieldTermStructure :: zero_rate => impl YieldTermStructure
//@params date, m
//@spec
    requires self.ok(), fin(date@)
    ensures r is Ok, r->Ok_0@ == self.zero(date@)
//@end
//@fn src/markets/termstructures/yieldcurve.rs impl YieldTermStructure :: discount => impl YieldTermStructure
//@params date, m
//@spec
    requires self.ok(), fin(date@)
    ensures r is Ok, r->Ok_0@ == self.disc(date@)
//@entry
    proof { lemma_fin(date@); lemma_fin(self.valuation_date@); }
//@end
//@fn src/markets/termstructures/yieldcurve.rs impl YieldTermStructure :: shifted_discount => impl YieldTermStructure
//@params date, m, s
//@spec
    requires self.ok(), fin(date@)
    ensures r is Ok, r->Ok_0@ == self.disc_s(date@, s@)
//@entry
    proof {
        lemma_fin(date@); lemma_fin(self.valuation_date@);
        let (z, t, k) = (self.zero(date@), yf365(self.valuation_date@, date@), s@);
        axiom_exp_add((0real - z) * t, (0real - k) * (1real / 10000real) * t);
        assert((0real - z) * t + (0real - k) * (1real / 10000real) * t == (0real - (z + k / 10000real)) * t) by (nonlinear_arith);
    }
//@end
pub open spec fn fwd_ok(v: int, a: int, p: Period) -> bool {
    &&& addable(a, p, 1) && countable(p)
    &&& fin(a) && fin(plus(a, p, 1)) && plus(a, p, 1) != a
}
//@fn src/markets/termstructures/yieldcurve.rs impl YieldTermStructure :: forward_rate => impl YieldTermStructure
//@params a, p, m
//@spec
    requires self.ok(), fwd_ok(self.valuation_date@, a@, p)
    ensures r is Ok, self.disc(a@) == self.disc(plus(a@, p, 1)) * rexp(r->Ok_0@ * yf365(a@, plus(a@, p, 1)))
//@entry
    broadcast use axiom_exp; broadcast use axiom_ln;
    proof {
        lemma_fin(a@); lemma_fin(plus(a@, p, 1)); lemma_fin(self.valuation_date@);
        lemma_fwd(self.disc(a@), self.disc(plus(a@, p, 1)), self.valuation_date@, a@, plus(a@, p, 1));
    }
//@end
pub proof fn lemma_fwd(x: real, y: real, v: int, a: int, b: int)
    requires x > 0real, y > 0real, a != b
    ensures x / y > 0real, yf365(v, b) - yf365(v, a) == yf365(a, b), yf365(a, b) != 0real,
        x == y * rexp((rln(x / y) / yf365(a, b)) * yf365(a, b)),
{
    broadcast use axiom_ln;
    let t = yf365(a, b);
    assert(x / y > 0real && y * (x / y) == x) by (nonlinear_arith) requires x > 0real, y > 0real;
    let l = rln(x / y);
    assert(t != 0real);
    assert((l / t) * t == l) by (nonlinear_arith) requires t != 0real;
}
pub proof fn lemma_fin(n: int)
    requires fin(n)
    ensures -200_000 < year(n) < 200_000
{ broadcast use axiom_civil; lemma_year_range(year(n)); }
pub proof fn lemma_disc0(y: YieldTermStructure, d: int)
    ensures y.disc_s(d, 0real) == y.disc(d)
{ assert(y.zero(d) + 0real / 10000real == y.zero(d)); }
pub proof fn lemma_disc_pos(y: YieldTermStructure, d: int, s: real) ensures y.disc_s(d, s) > 0real { broadcast use axiom_exp; }
