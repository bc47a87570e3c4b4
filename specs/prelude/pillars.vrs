// Cash and futures quotes: contracts discharged against oisratehelper.rs, ratehelper.rs, futures.rs and yieldcurve.rs
//@type String => Text
impl InterestRateIndex {
    // spot date of a valuation date, and maturity of an instrument on this index that settles on s
    pub open spec fn spot(&self, v: int) -> int { adv(self.calendar, v, Period::Days(self.settlement_days), self.convention, self.end_of_month) }
    pub open spec fn end(&self, s: int) -> int { adv(self.calendar, s, self.period, self.convention, self.end_of_month) }
    pub open spec fn spot_ok(&self, v: int) -> bool { room(self.calendar, v, Period::Days(self.settlement_days)) }
    pub open spec fn ok(&self, v: int) -> bool {
        self.spot_ok(v) && room(self.calendar, self.spot(v), self.period) && fin(v) && fin(self.spot(v)) && fin(self.end(self.spot(v)))
    }
}
// ---- cash (deposit / OIS) quotes
//@item src/markets/termstructures/yieldcurve/oisratehelper.rs :: struct OISRate
//@fn src/markets/termstructures/yieldcurve/oisratehelper.rs impl InterestRateQuote for OISRate :: settle_date => impl OISRate
//@params v
//@spec
    requires self.interest_rate_index.spot_ok(v@)
    ensures r is Ok, r->Ok_0@ == self.interest_rate_index.spot(v@)
//@end
//@fn src/markets/termstructures/yieldcurve/oisratehelper.rs impl InterestRateQuote for OISRate :: maturity_date => impl OISRate
//@params v
//@spec
    requires self.interest_rate_index.spot_ok(v@), room(self.interest_rate_index.calendar, self.interest_rate_index.spot(v@), self.interest_rate_index.period)
    ensures r is Ok, r->Ok_0@ == self.interest_rate_index.end(self.interest_rate_index.spot(v@))
//@end
impl OISRate {
    pub open spec fn s(&self, v: int) -> int { self.interest_rate_index.spot(v) }
    pub open spec fn m(&self, v: int) -> int { self.interest_rate_index.end(self.s(v)) }
    // what one unit deposited at the quoted rate has grown to at maturity
    pub open spec fn growth(&self, v: int) -> real { 1real + yfd(self.interest_rate_index.day_counter, self.s(v), self.m(v)) * self.value@ }
    pub open spec fn ok(&self, v: int) -> bool { self.interest_rate_index.ok(v) && self.growth(v) > 0real && self.s(v) != self.m(v) }
    pub open spec fn z(&self, v: int) -> real { rln(self.growth(v)) / yf365(self.s(v), self.m(v)) }
}
proof fn lemma_ln_inv(x: real)
    requires x > 0real
    ensures 1real / x > 0real, 0real - rln(1real / x) == rln(x)
{
    broadcast use axiom_exp; broadcast use axiom_ln;
    assert(1real / x > 0real && x * (1real / x) == 1real) by (nonlinear_arith) requires x > 0real;
    axiom_exp_add(rln(x), rln(1real / x));
    assert(rexp(rln(x) + rln(1real / x)) == 1real);
    assert(rln(1real) == 0real) by { assert(rln(rexp(0real)) == 0real); }
    assert(rln(rexp(rln(x) + rln(1real / x))) == rln(x) + rln(1real / x));
}
//@fn src/markets/termstructures/yieldcurve/oisratehelper.rs impl OISRate :: zero_rate => impl OISRate
//@params v
//@spec
    requires self.ok(v@)
    ensures r is Ok, r->Ok_0@ == self.z(v@),
        // continuously compounded over settlement to maturity it is the quote's growth
        rexp(r->Ok_0@ * yf365(self.s(v@), self.m(v@))) == self.growth(v@),
//@entry
    proof {
        lemma_fin(self.s(v@)); lemma_fin(self.m(v@)); lemma_fin(v@); lemma_ln_inv(self.growth(v@));
        broadcast use axiom_ln;
        let (l, t) = (rln(self.growth(v@)), yf365(self.s(v@), self.m(v@)));
        assert(t != 0real);
        assert((l / t) * t == l) by (nonlinear_arith) requires t != 0real;
    }
//@end
//@fn src/markets/termstructures/yieldcurve/oisratehelper.rs impl OISRate :: discount => impl OISRate
//@params v
//@spec
    requires self.ok(v@)
    ensures r is Ok, r->Ok_0@ == df(self.z(v@), v@, self.m(v@))
//@entry
    proof { lemma_fin(self.m(v@)); lemma_fin(v@); }
//@end
// ---- futures
//@item src/markets/interestrate/futures.rs :: struct InterestRateFutures
//@item src/markets/termstructures/yieldcurve/ratehelper.rs :: struct FuturesRate
pub open spec fn imm_of_month(n: int) -> int { third_wed(year(n), month(n)) }
impl InterestRateFutures {
    pub open spec fn mat(&self, s: int) -> int { imm_of_month(adv(self.calendar, s, self.period, self.convention, self.end_of_month)) }
    pub open spec fn ok(&self, s: int) -> bool {
        room(self.calendar, s, self.period) && fin(adv(self.calendar, s, self.period, self.convention, self.end_of_month)) && fin(self.mat(s))
    }
}
//@fn src/markets/interestrate/futures.rs impl InterestRateFutures :: maturity_date => impl InterestRateFutures
//@params s
//@spec
    requires self.ok(s@)
    ensures r is Ok, r->Ok_0@ == self.mat(s@)
//@entry
    broadcast use axiom_civil;
    let ghost t = adv(self.calendar, s@, self.period, self.convention, self.end_of_month);
    proof { lemma_fin(t); lemma_civil_unique(year(t), month(t), 1); }
//@end
//@fn src/markets/termstructures/yieldcurve/ratehelper.rs impl InterestRateQuote for FuturesRate :: settle_date => impl FuturesRate
//@params v
//@spec
    requires imm_code_ok(self.imm_code@), 1910 <= year(v@) < 180_000
    ensures r is Ok, r->Ok_0@ == imm_resolved(self.imm_code@, v@)
//@end
//@fn src/markets/termstructures/yieldcurve/ratehelper.rs impl InterestRateQuote for FuturesRate :: maturity_date => impl FuturesRate
//@params v
//@spec
    requires imm_code_ok(self.imm_code@), 1910 <= year(v@) < 180_000, self.futures_spec.ok(imm_resolved(self.imm_code@, v@))
    ensures r is Ok, r->Ok_0@ == self.futures_spec.mat(imm_resolved(self.imm_code@, v@))
//@end
//@fn src/markets/termstructures/yieldcurve/ratehelper.rs impl FuturesRate :: implied_quote => impl FuturesRate
//@spec
    ensures r@ == 1real - (self.value@ - self.convexity_adjustment@) / 100real
//@end
// the pillar the future's start is read off: the last one for a start beyond it; else the first that covers it, or its
// predecessor where that one's date is nearer; the first pillar for a start that none covers
pub open spec fn covers(c: StrippedCurve, t: int) -> bool { c.first_settle_date@ < t && c.date@ >= t }
pub open spec fn first_cover(s: Seq<StrippedCurve>, t: int, i: int) -> int decreases s.len() - i {
    if i >= s.len() || i < 0 { s.len() as int } else if covers(s[i], t) { i } else { first_cover(s, t, i + 1) }
}
pub open spec fn related(s: Seq<StrippedCurve>, t: int) -> int {
    let k = first_cover(s, t, 0);
    if t > s[s.len() - 1].date@ { s.len() - 1 } else if k >= s.len() || k == 0 { 0 } else if s[k].date@ - t <= t - s[k - 1].date@ { k } else { k - 1 }
}
pub proof fn lemma_first_cover(s: Seq<StrippedCurve>, t: int, i: int)
    requires 0 <= i <= s.len()
    ensures ({ let k = first_cover(s, t, i); i <= k <= s.len() && (k < s.len() ==> covers(s[k], t)) && forall|j: int| i <= j < k ==> !covers(#[trigger] s[j], t) })
    decreases s.len() - i
{ if i < s.len() { lemma_first_cover(s, t, i + 1); } }
pub open spec fn increasing(s: Seq<StrippedCurve>) -> bool {
    &&& s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> fin((#[trigger] s[i]).date@)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).date@ <= (#[trigger] s[j]).date@
}
//@fn src/markets/termstructures/yieldcurve.rs trait InterestRateQuote :: retrieve_related_stripped_curve => impl FuturesRate
//@params cs, t
//@spec
    requires increasing(cs@), fin(t@)
    ensures *r == cs@[related(cs@, t@)]
//@entry
    let ghost s = cs@;
    proof { lemma_first_cover(s, t@, 0); let k = first_cover(s, t@, 0); if 0 < k < s.len() { assert(!covers(s[0], t@)); assert(s[k] != s[0]); } }
//@loop 0
    invariant_except_break
        *second == s[0], *first == s[if __k0 == 0 { 0 } else { __k0 - 1 }], first_cover(s, t@, 0) == first_cover(s, t@, __k0 as int),
    invariant 0 <= __k0 <= __n0, __n0 == s.len(), __s0@ == s, s == cs@, increasing(s), target_date == t
    ensures ({ let k = first_cover(s, t@, 0);
        if k < s.len() { *second == s[k] && *first == s[if k == 0 { 0 } else { k - 1 }] } else { *second == s[0] && *first == s[s.len() - 1] } })
    decreases __n0 - __k0
//@end
impl FuturesRate {
    pub open spec fn s(&self, v: int) -> int { imm_resolved(self.imm_code@, v) }
    pub open spec fn m(&self, v: int) -> int { self.futures_spec.mat(self.s(v)) }
    pub open spec fn rate(&self) -> real { 1real - (self.value@ - self.convexity_adjustment@) / 100real }
    pub open spec fn growth(&self, v: int) -> real { 1real + yfd(self.interest_rate_index.day_counter, self.s(v), self.m(v)) * self.rate() }
    pub open spec fn ok(&self, v: int) -> bool {
        imm_code_ok(self.imm_code@) && fin(v) && 1910 <= year(v) < 180_000 && fin(self.s(v)) && self.futures_spec.ok(self.s(v)) && self.growth(v) > 0real
    }
    // discount to the start read off the related pillar, then one period at the futures rate
    pub open spec fn d(&self, v: int, c: Seq<StrippedCurve>) -> real { df(c[related(c, self.s(v))].zero_rate@, v, self.s(v)) / self.growth(v) }
}
//@fn src/markets/termstructures/yieldcurve/ratehelper.rs impl FuturesRate :: discount => impl FuturesRate
//@params v, cs
//@spec
    requires self.ok(v@), increasing(cs@)
    ensures r is Ok, r->Ok_0@ == self.d(v@, cs@), r->Ok_0@ > 0real
//@entry
    proof {
        lemma_fin(self.s(v@)); lemma_fin(self.m(v@)); lemma_fin(v@);
        broadcast use axiom_exp;
        let (g, e) = (self.growth(v@), df(cs@[related(cs@, self.s(v@))].zero_rate@, v@, self.s(v@)));
        assert((1real / g) * e == e / g && e / g > 0real) by (nonlinear_arith) requires g > 0real, e > 0real;
    }
//@end
// zero rates of the pillars compounded piece by piece
pub open spec fn chained(v: int, c: Seq<StrippedCurve>, n: int) -> real decreases n {
    if n <= 0 { 1real } else { chained(v, c, n - 1) * rexp((0real - c[n - 1].zero_rate@) * yf365(if n == 1 { v } else { c[n - 2].date@ }, c[n - 1].date@)) }
}
pub proof fn lemma_chained(v: int, c: Seq<StrippedCurve>, n: int)
    requires n >= 0 ensures chained(v, c, n) > 0real decreases n
{
    broadcast use axiom_exp;
    if n > 0 {
        lemma_chained(v, c, n - 1);
        let (a, e) = (chained(v, c, n - 1), rexp((0real - c[n - 1].zero_rate@) * yf365(if n == 1 { v } else { c[n - 2].date@ }, c[n - 1].date@)));
        assert(a * e > 0real) by (nonlinear_arith) requires a > 0real, e > 0real;
    }
}
pub open spec fn some_future(c: Seq<StrippedCurve>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] c[i]).source is Futures }
//@fn src/markets/termstructures/yieldcurve/ratehelper.rs impl FuturesRate :: zero_rate => impl FuturesRate
//@params v, cs
//@spec
    requires self.ok(v@), increasing(cs@), self.m(v@) != v@, self.m(v@) != cs@[cs.len() - 1].date@
    ensures r is Ok,
        some_future(cs@, cs.len() as int) ==> self.d(v@, cs@) == df(r->Ok_0@, v@, self.m(v@)),
        !some_future(cs@, cs.len() as int) ==> self.d(v@, cs@) == chained(v@, cs@, cs.len() as int) * df(r->Ok_0@, cs@[cs.len() - 1].date@, self.m(v@)),
//@entry
    proof {
        lemma_fin(self.s(v@)); lemma_fin(self.m(v@)); lemma_fin(v@); broadcast use axiom_exp; broadcast use axiom_ln;
        let (l, t) = (rln(self.d(v@, cs@)), yf365(v@, self.m(v@)));
        assert(t != 0real);
        assert((0real - (0real - l) / t) * t == l) by (nonlinear_arith) requires t != 0real;
        assert(cs@[cs.len() - 1] == cs@.last());
        assert forall|i: int| 0 <= i < cs.len() implies -200_000 < #[trigger] year(cs@[i].date@) < 200_000 by { lemma_fin(cs@[i].date@); }
    }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == cs.len(), __s0@ == cs@, is_first == !some_future(cs@, __k0 as int)
    decreases __n0 - __k0
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == cs.len(), stripped_curves == cs, valuation_date == v, fin(v@), increasing(cs@),
        forall|i: int| 0 <= i < cs.len() ==> -200_000 < #[trigger] year(cs@[i].date@) < 200_000, -200_000 < year(v@) < 200_000,
        cum_discount@ == chained(v@, cs@, __k1 as int)
    decreases __n1 - __k1
//@loop 1 after
    proof {
        broadcast use axiom_exp; broadcast use axiom_ln;
        lemma_chained(v@, cs@, cs.len() as int);
        let (d, c, t) = (self.d(v@, cs@), chained(v@, cs@, cs.len() as int), yf365(cs@[cs.len() - 1].date@, self.m(v@)));
        assert(t != 0real);
        assert(d / c > 0real && c * (d / c) == d) by (nonlinear_arith) requires d > 0real, c > 0real;
        let l = rln(d / c);
        assert((0real - (0real - l) / t) * t == l) by (nonlinear_arith) requires t != 0real;
    }
//@end
