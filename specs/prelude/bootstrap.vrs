// The bootstrapped curve: contracts discharged against YieldTermMarketData::get_stripped_curve and InterestRateSwap::solve_zero_rate
//@include datevec.vrs
//@call .to_vec => &slice_copy
#[verifier::external_body]
pub fn slice_copy<T: Copy>(v: &[T]) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn target_cal() -> Cal { unimplemented!() }
#[verifier::external_body]
pub fn default_dcc() -> Dcc { unimplemented!() }
// Result::unwrap of the root finder's outcome: panics without a root (the contract speaks about the runs that return)
#[verifier::external_body]
pub fn found(r: core::result::Result<R, SearchError>) -> (x: R) ensures r is Ok, x == r->Ok_0 { unimplemented!() }
//@fn src/markets/termstructures/yieldcurve.rs impl YieldTermStructure :: new => impl YieldTermStructure
//@params c, d, v, s
//@spec
    ensures r.calendar == c, r.day_counter == d, r.valuation_date == v, r.stripped_curves == s
//@end
// ---- a swap's value depends on the curve's dates, visibilities and zero rates only
pub open spec fn alike(a: Seq<StrippedCurve>, b: Seq<StrippedCurve>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i].date == b[i].date && a[i].hidden_pillar == b[i].hidden_pillar && a[i].zero_rate == b[i].zero_rate
}
pub open spec fn same_frame(a: Seq<StrippedCurve>, b: Seq<StrippedCurve>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i].date == b[i].date && a[i].hidden_pillar == b[i].hidden_pillar
}
proof fn lemma_frame(a: Seq<StrippedCurve>, b: Seq<StrippedCurve>, t: int, i: int)
    requires same_frame(a, b), 0 <= i <= a.len()
    ensures bracket(a, t, i) == bracket(b, t, i)
    decreases a.len() - i
{ if i < a.len() { assert(a[i].date == b[i].date); lemma_frame(a, b, t, i + 1); } }
proof fn lemma_frame2(a: Seq<StrippedCurve>, b: Seq<StrippedCurve>, i: int)
    requires same_frame(a, b), 0 <= i <= a.len()
    ensures last_visible(a, i) == last_visible(b, i)
    decreases i
{ if i > 0 { assert(a[i - 1].date == b[i - 1].date); lemma_frame2(a, b, i - 1); } }
proof fn lemma_zero_alike(a: Seq<StrippedCurve>, b: Seq<StrippedCurve>, t: int)
    requires alike(a, b), curve_ok(a)
    ensures zero_at(a, t) == zero_at(b, t)
{
    let k = bracket(a, t, 0);
    lemma_frame(a, b, t, 0); lemma_frame(a, b, -3_000_000_000, 0); lemma_bracket(a, t, 0); lemma_bracket(a, -3_000_000_000, 0);
    lemma_frame2(a, b, a.len() as int); lemma_frame2(a, b, k); lemma_last_visible(a, a.len() as int); lemma_last_visible(a, k);
    assert(a[last_visible(a, a.len() as int)].zero_rate == b[last_visible(a, a.len() as int)].zero_rate);
    if k < a.len() {
        assert(a[k].zero_rate == b[k].zero_rate);
        if k > 0 { assert(a[last_visible(a, k)].zero_rate == b[last_visible(a, k)].zero_rate); } else { assert(a[0].zero_rate == b[0].zero_rate); }
    }
}
pub open spec fn same_discounts(a: YieldTermStructure, b: YieldTermStructure) -> bool { forall|d: int| #[trigger] a.disc_s(d, 0real) == b.disc_s(d, 0real) }
proof fn lemma_discounts(a: YieldTermStructure, b: YieldTermStructure)
    requires alike(a.stripped_curves@, b.stripped_curves@), a.valuation_date == b.valuation_date, curve_ok(a.stripped_curves@)
    ensures same_discounts(a, b)
{ assert forall|d: int| #[trigger] a.disc_s(d, 0real) == b.disc_s(d, 0real) by { lemma_zero_alike(a.stripped_curves@, b.stripped_curves@, d + 1); } }
proof fn lemma_pv_alike(l: InterestRateSwapLeg, a: YieldTermStructure, b: YieldTermStructure, w: Seq<Row>, n: int)
    requires same_discounts(a, b), 0 <= n <= w.len()
    ensures l.pv(a, 0real, w, n) == l.pv(b, 0real, w, n)
    decreases n
{
    if n > 0 {
        lemma_pv_alike(l, a, b, w, n - 1);
        let x = w[n - 1];
        assert(a.disc_s(x.s, 0real) == b.disc_s(x.s, 0real)); assert(a.disc_s(x.e, 0real) == b.disc_s(x.e, 0real)); assert(a.disc_s(x.pay, 0real) == b.disc_s(x.pay, 0real));
    }
}
proof fn lemma_value_alike(l: InterestRateSwap, a: YieldTermStructure, b: YieldTermStructure, v: int, n: int)
    requires same_discounts(a, b), 0 <= n <= l.legs.len()
    ensures l.total(a, 0real, v, n) == l.total(b, 0real, v, n)
    decreases n
{
    if n > 0 {
        lemma_value_alike(l, a, b, v, n - 1);
        let w = l.legs@[n - 1].rows(v);
        lemma_pv_alike(l.legs@[n - 1], a, b, w, w.len() as int);
        if w.len() > 0 { assert(a.disc_s(w[w.len() - 1].pay, 0real) == b.disc_s(w[w.len() - 1].pay, 0real)); }
    }
}
// the swap's value on the pillars c
pub open spec fn on_pillars(y: YieldTermStructure, v: NaiveDate, c: Seq<StrippedCurve>) -> bool { y.valuation_date == v && y.stripped_curves@ == c }
pub open spec fn worth(l: InterestRateSwap, v: NaiveDate, c: Seq<StrippedCurve>) -> real { l.value(choose|y: YieldTermStructure| on_pillars(y, v, c), 0real, v@) }
proof fn lemma_worth(l: InterestRateSwap, v: NaiveDate, c: Seq<StrippedCurve>, y: YieldTermStructure)
    requires on_pillars(y, v, c), curve_ok(c)
    ensures l.value(y, 0real, v@) == worth(l, v, c)
{ let z = choose|y: YieldTermStructure| on_pillars(y, v, c); lemma_discounts(y, z); lemma_value_alike(l, y, z, v@, l.legs.len() as int); }
// the pillars with the last one's zero rate replaced
pub open spec fn amended(c: Seq<StrippedCurve>, x: R) -> Seq<StrippedCurve> { c.update(c.len() - 1, StrippedCurve { zero_rate: x, ..c[c.len() - 1] }) }
proof fn lemma_amended(c: Seq<StrippedCurve>, x: R)
    requires curve_ok(c)
    ensures curve_ok(amended(c, x))
{
    let a = amended(c, x);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] a[i].date == c[i].date && a[i].hidden_pillar == c[i].hidden_pillar by {}
    assert(same_frame(c, a));
    lemma_frame(c, a, -3_000_000_000, 0);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).date@ <= (#[trigger] a[j]).date@ by { assert(c[i].date@ <= c[j].date@); }
}
// the swap is worth nothing when the last pillar's zero rate is z: to within eps, or its worth changes sign within eps of z
pub open spec fn sign_change(l: InterestRateSwap, v: NaiveDate, c: Seq<StrippedCurve>, p: R, q: R) -> bool { worth(l, v, amended(c, p)) * worth(l, v, amended(c, q)) <= 0real }
pub open spec fn eps15() -> real { 1real / 1_000_000_000_000_000real }
pub open spec fn reprices(l: InterestRateSwap, v: NaiveDate, c: Seq<StrippedCurve>, z: R) -> bool {
    0real - 5real / 10real <= z@ <= 5real / 10real && (rabs(worth(l, v, amended(c, z))) < eps15()
        || exists|p: R, q: R| #[trigger] sign_change(l, v, c, p, q) && rabs(p@ - q@) < eps15() && rabs(z@ - p@) <= 4real * eps15())
}
proof fn lemma_reprices<F: Fn(R) -> R>(f: F, l: InterestRateSwap, v: NaiveDate, c: Seq<StrippedCurve>, x: R)
    requires root_of(f, x, eps15()), 0real - 5real / 10real <= x@ <= 5real / 10real, forall|x: R, y: R| #[trigger] f.ensures((x,), y) ==> y@ == worth(l, v, amended(c, x))
    ensures reprices(l, v, c, x)
{
    if !(exists|y: R| #[trigger] f.ensures((x,), y) && rabs(y@) < eps15()) {
        let (p, q) = choose|p: R, q: R| #[trigger] straddles(f, p, q) && rabs(p@ - q@) < eps15() && rabs(x@ - p@) <= 4real * eps15();
        assert(sign_change(l, v, c, p, q));
    }
}
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwap :: amend_last => impl InterestRateSwap
//@params x, c
//@spec
    requires old(c).len() > 0
    ensures r is Ok, r->Ok_0@ == amended(old(c)@, x), *final(c) == *final(r->Ok_0)
//@end
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwap :: calculate_npv => impl InterestRateSwap
//@params x, v, c
//@subst Box::new(Target) => target_cal()
//@subst Box::<Actual365Fixed>::default() => default_dcc()
//@spec
    requires curve_ok(old(c)@), fin(v@), self.pv_ok(v@)
    ensures r is Ok, r->Ok_0@ == worth(*self, v, amended(old(c)@, x)), final(c)@ == old(c)@
//@entry
    proof {
        lemma_amended(c@, x);
        assert forall|y: YieldTermStructure| y.valuation_date == v && y.stripped_curves@ =~= amended(c@, x) implies #[trigger] self.value(y, 0real, v@) == worth(*self, v, amended(c@, x)) by { lemma_worth(*self, v, amended(c@, x), y); }
    }
//@end
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwap :: solve_zero_rate => impl InterestRateSwap
//@params v, c
//@closure 0 |x: R| -> (q: R) requires curve_ok(stripped_curves@), fin(v@), self.pv_ok(v@), valuation_date == v ensures q@ == worth(*self, v, amended(stripped_curves@, x))
//@subst root.unwrap() => found(root)
//@spec
    requires curve_ok(c@), fin(v@), self.pv_ok(v@)
    ensures reprices(*self, v, c@, r)
//@entry
    let ghost c0 = c@;
//@exit
    proof { lemma_reprices(f, *self, v, c0, r); }
//@end
// ---- the pillars of the quotes
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwapLeg :: get_reference_rate => impl InterestRateSwapLeg
//@spec
    ensures r == self.quoted()
//@end
impl InterestRateSwapLeg {
    pub open spec fn quoted(&self) -> R { match self.swap_type { InterestRateSwapLegType::Fixed { coupon } => coupon, InterestRateSwapLegType::Float { spread } => spread } }
}
//@fn src/markets/termstructures/yieldcurve/oisratehelper.rs impl InterestRateQuote for OISRate :: yts_type => impl OISRate
//@spec
    ensures r is OIS
//@end
//@fn src/markets/termstructures/yieldcurve/ratehelper.rs impl InterestRateQuote for FuturesRate :: yts_type => impl FuturesRate
//@spec
    ensures r is Futures
//@end
//@fn src/derivatives/interestrate/swap.rs impl InterestRateQuote for InterestRateSwap :: yts_type => impl InterestRateSwap
//@spec
    ensures r is Swap
//@end
#[verifier::external_body]
pub struct Observers { x: u8 }
//@type RefCell<Vec<Weak<RefCell<dyn Observer>>>> => Observers
//@item src/markets/termstructures/yieldcurve.rs :: struct YieldTermMarketData
pub open spec fn cash_pillar(q: OISRate, v: int, p: StrippedCurve) -> bool {
    &&& p.first_settle_date@ == q.s(v) && p.date@ == q.m(v) && p.market_rate == q.value && p.zero_rate@ == q.z(v) && p.discount@ == df(q.z(v), v, q.m(v))
    &&& p.hidden_pillar == (q.interest_rate_index.period == Period::Weeks(1)) && p.source is OIS
}
pub open spec fn future_pillar(q: FuturesRate, v: int, c: Seq<StrippedCurve>, p: StrippedCurve) -> bool {
    &&& p.first_settle_date@ == q.s(v) && p.date@ == q.m(v) && p.market_rate == q.value && p.discount@ == q.d(v, c) && !p.hidden_pillar && p.source is Futures
    &&& q.d(v, c) == (if some_future(c, c.len() as int) { df(p.zero_rate@, v, q.m(v)) } else { chained(v, c, c.len() as int) * df(p.zero_rate@, c[c.len() - 1].date@, q.m(v)) })
}
// the latest of the swap's legs' last accrual ends
pub open spec fn ends_at(q: InterestRateSwap, v: int, d: int) -> bool {
    (exists|i: int| 0 <= i < q.legs.len() && d == #[trigger] q.last_end(v, i)) && forall|i: int| 0 <= i < q.legs.len() ==> #[trigger] q.last_end(v, i) <= d
}
pub open spec fn swap_pillar(q: InterestRateSwap, v: NaiveDate, c: Seq<StrippedCurve>, p: StrippedCurve) -> bool {
    &&& p.first_settle_date@ == q.legs@[0].eff(v@) && ends_at(q, v@, p.date@) && p.market_rate == q.legs@[0].quoted() && !p.hidden_pillar && p.source is Swap
    &&& p.discount@ == df(p.zero_rate@, v@, p.date@)
    // found with the pillar in place (the swap's worth reads dates, visibility and zero rates: lemma_value_alike)
    &&& exists|h: StrippedCurve| h.date == p.date && h.hidden_pillar == p.hidden_pillar && #[trigger] reprices(q, v, c.push(h), p.zero_rate)
}
// the pillars p are the cash quotes' in order of maturity, then of quotation: quote ix[k] is the k-th
pub open spec fn before(q: Seq<OISRate>, v: int, a: int, b: int) -> bool { q[a].m(v) < q[b].m(v) || q[a].m(v) == q[b].m(v) && a < b }
pub open spec fn cash_order(q: Seq<OISRate>, v: int, p: Seq<StrippedCurve>, ix: Seq<int>) -> bool {
    &&& p.len() == ix.len()
    &&& forall|k: int| 0 <= k < ix.len() ==> 0 <= (#[trigger] ix[k]) < q.len() && cash_pillar(q[ix[k]], v, p[k])
    &&& forall|a: int, b: int| 0 <= a < b < ix.len() ==> before(q, v, #[trigger] ix[a], #[trigger] ix[b])
}
pub open spec fn listed(ix: Seq<int>, c: int) -> bool { exists|k: int| 0 <= k < ix.len() && #[trigger] ix[k] == c }
pub open spec fn cash_part(q: Seq<OISRate>, v: int, p: Seq<StrippedCurve>) -> bool {
    p.len() == q.len() && exists|ix: Seq<int>| #[trigger] cash_order(q, v, p, ix) && forall|c: int| 0 <= c < q.len() ==> #[trigger] listed(ix, c)
}
impl YieldTermMarketData {
    pub open spec fn at(&self) -> int { self.valuation_date@ }
    pub open spec fn matures(&self, k: int, d: int) -> bool {
        let (a, b) = (self.cash_quote.len(), self.futures_quote.len());
        if k < a { d == self.cash_quote@[k].m(self.at()) } else if k < a + b { d == self.futures_quote@[k - a].m(self.at()) } else { ends_at(self.swap_quote@[k - a - b], self.at(), d) }
    }
    pub open spec fn count(&self) -> int { self.cash_quote.len() + self.futures_quote.len() + self.swap_quote.len() }
    // every quote can be read at the valuation date; futures mature after all cash and earlier futures quotes, swaps not before any earlier quote
    pub open spec fn ok(&self) -> bool {
        &&& self.count() <= usize::MAX && fin(self.at()) && 1910 <= year(self.at())
        &&& forall|k: int| 0 <= k < self.cash_quote.len() ==> (#[trigger] self.cash_quote@[k]).ok(self.at())
        &&& self.futures_quote.len() > 0 ==> self.cash_quote.len() > 0
        &&& forall|k: int| 0 <= k < self.futures_quote.len() ==> (#[trigger] self.futures_quote@[k]).ok(self.at()) && self.futures_quote@[k].m(self.at()) != self.at()
        &&& forall|k: int| 0 <= k < self.swap_quote.len() ==> { let q = #[trigger] self.swap_quote@[k]; q.legs.len() > 0 && q.dates_ok(self.at()) && q.legs@[0].eff_ok(self.at()) && q.pv_ok(self.at()) }
        &&& forall|k: int, l: int, d: int, e: int| #![trigger self.matures(k, d), self.matures(l, e)] 0 <= k < l < self.count() && l >= self.cash_quote.len() && self.matures(k, d) && self.matures(l, e) ==> d <= e && (l < self.cash_quote.len() + self.futures_quote.len() ==> d < e)
        &&& forall|k: int, d: int| #[trigger] self.matures(k, d) && 0 <= k < self.count() ==> fin(d)
    }
}
proof fn lemma_all_listed(ix: Seq<int>, n: int)
    requires n >= 0, forall|k: int| 0 <= k < ix.len() ==> 0 <= (#[trigger] ix[k]) < n, forall|a: int, b: int| 0 <= a < b < ix.len() ==> #[trigger] ix[a] != #[trigger] ix[b], forall|c: int| 0 <= c < n ==> #[trigger] listed(ix, c)
    ensures ix.len() == n
{
    assert(ix.no_duplicates());
    ix.unique_seq_to_set();
    let s = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert forall|c: int| #[trigger] ix.to_set().contains(c) == s.contains(c) by {
        if s.contains(c) { assert(listed(ix, c)); let k = choose|k: int| 0 <= k < ix.len() && #[trigger] ix[k] == c; assert(ix.contains(c)); }
    }
    assert(ix.to_set() =~= s);
}
proof fn lemma_visible(c: Seq<StrippedCurve>, i: int)
    requires 0 <= i < c.len(), !c[i].hidden_pillar, fin(c[i].date@)
    ensures first_visible(c) < c.len()
{ lemma_bracket(c, -3_000_000_000, 0); }
impl YieldTermMarketData {
    // pillars in date order, each at the maturity of one of the first n quotes
    pub open spec fn dated(&self, p: Seq<StrippedCurve>, n: int) -> bool {
        &&& forall|k: int| 0 <= k < p.len() ==> self.matured((#[trigger] p[k]).date@, n)
        &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).date@ <= (#[trigger] p[j]).date@
    }
    pub open spec fn matured(&self, d: int, n: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] self.matures(j, d) }
    proof fn lemma_dated(&self, p: Seq<StrippedCurve>, x: StrippedCurve, n: int)
        requires self.ok(), self.dated(p, n), self.cash_quote.len() <= n < self.count(), self.matures(n, x.date@)
        ensures self.dated(p.push(x), n + 1), fin(x.date@), forall|k: int| 0 <= k < p.len() ==> fin((#[trigger] p[k]).date@) && p[k].date@ <= x.date@ && (n < self.cash_quote.len() + self.futures_quote.len() ==> p[k].date@ < x.date@)
    {
        assert forall|k: int| 0 <= k < p.len() implies fin((#[trigger] p[k]).date@) && p[k].date@ <= x.date@ && (n < self.cash_quote.len() + self.futures_quote.len() ==> p[k].date@ < x.date@) && self.matured(p[k].date@, n + 1) by {
            assert(self.matured(p[k].date@, n));
            let j = choose|j: int| 0 <= j < n && #[trigger] self.matures(j, p[k].date@);
        }
        let q = p.push(x);
        assert(self.matured(x.date@, n + 1));
        assert forall|k: int| 0 <= k < q.len() implies self.matured((#[trigger] q[k]).date@, n + 1) by { if k < p.len() { assert(q[k] == p[k]); assert(p[k].date@ <= x.date@); } }
    }
    proof fn lemma_next(&self, p: Seq<StrippedCurve>, d: int, n: int)
        requires self.ok(), self.dated(p, n), self.cash_quote.len() <= n < self.count(), self.matures(n, d)
        ensures fin(d), forall|k: int| 0 <= k < p.len() ==> fin((#[trigger] p[k]).date@) && p[k].date@ <= d && (n < self.cash_quote.len() + self.futures_quote.len() ==> p[k].date@ < d)
    {
        assert forall|k: int| 0 <= k < p.len() implies fin((#[trigger] p[k]).date@) && p[k].date@ <= d && (n < self.cash_quote.len() + self.futures_quote.len() ==> p[k].date@ < d) by {
            assert(self.matured(p[k].date@, n));
            let j = choose|j: int| 0 <= j < n && #[trigger] self.matures(j, p[k].date@);
        }
    }
    proof fn lemma_cash(&self, p: Seq<StrippedCurve>, ix: Seq<int>)
        requires self.ok(), cash_order(self.cash_quote@, self.at(), p, ix), forall|c: int| 0 <= c < self.cash_quote.len() ==> #[trigger] listed(ix, c)
        ensures cash_part(self.cash_quote@, self.at(), p), self.dated(p, self.cash_quote.len() as int)
    {
        let n = self.cash_quote.len() as int;
        assert forall|a: int, b: int| 0 <= a < b < ix.len() implies #[trigger] ix[a] != #[trigger] ix[b] && p[a].date@ <= p[b].date@ by { assert(before(self.cash_quote@, self.at(), ix[a], ix[b])); }
        lemma_all_listed(ix, n);
        assert forall|a: int, b: int| 0 <= a < b < p.len() implies (#[trigger] p[a]).date@ <= (#[trigger] p[b]).date@ by { assert(ix[a] != ix[b]); }
        assert forall|k: int| 0 <= k < p.len() implies self.matured((#[trigger] p[k]).date@, n) by { assert(self.matures(ix[k], p[k].date@)); }
    }
}
//@fn src/markets/termstructures/yieldcurve.rs impl YieldTermMarketData :: get_stripped_curve => impl YieldTermMarketData
//@local cash_quote_maturity: Vec<NaiveDate>
//@spec
    requires self.ok()
    ensures r is Ok, ({ let (p, a, b) = (r->Ok_0@, self.cash_quote.len() as int, self.futures_quote.len() as int);
        &&& p.len() == self.count()
        &&& cash_part(self.cash_quote@, self.at(), p.take(a))
        &&& forall|k: int| a <= k < a + b ==> future_pillar(self.futures_quote@[k - a], self.at(), p.take(k), #[trigger] p[k])
        &&& forall|k: int| a + b <= k < p.len() ==> swap_pillar(self.swap_quote@[k - a - b], self.valuation_date, p.take(k), #[trigger] p[k]) })
//@entry
    broadcast use axiom_civil;
    let ghost mut ix: Seq<int> = Seq::empty();
    let ghost (a, b) = (self.cash_quote.len() as int, self.futures_quote.len() as int);
    let ghost v = self.valuation_date@;
    proof { lemma_fin(v); }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.cash_quote.len(), __s0@ == self.cash_quote@, self.ok(), v == self.valuation_date@, cash_quote_maturity.len() == __k0,
        forall|c: int| 0 <= c < __k0 ==> cash_quote_maturity@[c]@ == (#[trigger] self.cash_quote@[c]).m(v),
    decreases __n0 - __k0
//@loop 0 after
    proof { assert forall|c: int| 0 <= c < a implies holds(cash_quote_maturity@, (#[trigger] self.cash_quote@[c]).m(v)) by { assert(cash_quote_maturity@[c]@ == self.cash_quote@[c].m(v)); } }
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == cash_quote_maturity.len(), __s1@ == cash_quote_maturity@, self.ok(), v == self.valuation_date@, climbing(cash_quote_maturity@), a == self.cash_quote.len(),
        forall|c: int| 0 <= c < a ==> holds(cash_quote_maturity@, (#[trigger] self.cash_quote@[c]).m(v)),
        cash_order(self.cash_quote@, v, outputs@, ix),
        forall|j: int, k: int| 0 <= j < ix.len() && __k1 <= k < __n1 ==> self.cash_quote@[#[trigger] ix[j]].m(v) < (#[trigger] cash_quote_maturity@[k])@,
        forall|c: int| 0 <= c < a && holds(cash_quote_maturity@.take(__k1 as int), self.cash_quote@[c].m(v)) ==> #[trigger] listed(ix, c),
    decreases __n1 - __k1
//@loop 1 begin
    let ghost at = __k1 as int;
    let ghost ms = cash_quote_maturity@;
//@loop 1 end
    proof {
        assert forall|j: int, k: int| 0 <= j < ix.len() && at + 1 <= k < ms.len() implies self.cash_quote@[#[trigger] ix[j]].m(v) < (#[trigger] ms[k])@ by { assert(ms[at]@ < ms[k]@); }
        assert forall|c: int| 0 <= c < a && holds(ms.take(at + 1), self.cash_quote@[c].m(v)) implies #[trigger] listed(ix, c) by {
            let d = self.cash_quote@[c].m(v);
            let i = choose|i: int| 0 <= i < at + 1 && (#[trigger] ms.take(at + 1)[i])@ == d;
            if i < at { assert(ms.take(at)[i]@ == d); assert(holds(ms.take(at), d)); } else { assert(ms[at]@ == d); }
        }
    }
//@loop 1 after
    proof {
        let ms = cash_quote_maturity@;
        assert(ms.take(ms.len() as int) =~= ms);
        assert forall|c: int| 0 <= c < a implies #[trigger] listed(ix, c) by { assert(holds(ms, self.cash_quote@[c].m(v))); }
        self.lemma_cash(outputs@, ix);
        assert(outputs@.take(a) =~= outputs@);
    }
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == self.cash_quote.len(), __s2@ == self.cash_quote@, self.ok(), v == self.valuation_date@, a == self.cash_quote.len(), ms == cash_quote_maturity@, 0 <= at < ms.len(), maturity == ms[at],
        cash_order(self.cash_quote@, v, outputs@, ix),
        forall|j: int| 0 <= j < ix.len() ==> self.cash_quote@[#[trigger] ix[j]].m(v) < maturity@ || self.cash_quote@[ix[j]].m(v) == maturity@ && ix[j] < __k2,
        forall|c: int| 0 <= c < a && (holds(ms.take(at), self.cash_quote@[c].m(v)) || self.cash_quote@[c].m(v) == maturity@ && c < __k2) ==> #[trigger] listed(ix, c),
    decreases __n2 - __k2
//@loop 2 begin
    let ghost p0 = outputs@;
    let ghost i0 = ix;
    let ghost c0 = __k2 as int;
//@loop 2 end
    proof {
        if self.cash_quote@[c0].m(v) == maturity@ {
            ix = i0.push(c0);
            assert forall|x: int, y: int| 0 <= x < y < ix.len() implies before(self.cash_quote@, v, #[trigger] ix[x], #[trigger] ix[y]) by { assert(ix[x] == i0[x]); if y < i0.len() { assert(ix[y] == i0[y]); } }
            assert(cash_pillar(self.cash_quote@[c0], v, outputs@[p0.len() as int]));
            assert forall|k: int| 0 <= k < ix.len() implies 0 <= (#[trigger] ix[k]) < a && cash_pillar(self.cash_quote@[ix[k]], v, outputs@[k]) by { if k < i0.len() { assert(ix[k] == i0[k]); assert(outputs@[k] == p0[k]); } }
            assert forall|c: int| 0 <= c < a && (holds(ms.take(at), self.cash_quote@[c].m(v)) || self.cash_quote@[c].m(v) == maturity@ && c < __k2) implies #[trigger] listed(ix, c) by {
                if c == c0 { assert(ix[i0.len() as int] == c); } else { assert(listed(i0, c)); let k = choose|k: int| 0 <= k < i0.len() && #[trigger] i0[k] == c; assert(ix[k] == c); }
            }
        }
    }
//@loop 3
    invariant 0 <= __k3 <= __n3, __n3 == self.futures_quote.len(), __s3@ == self.futures_quote@, self.ok(), v == self.valuation_date@, a == self.cash_quote.len(), b == self.futures_quote.len(), outputs.len() == a + __k3,
        self.dated(outputs@, a + __k3), cash_part(self.cash_quote@, v, outputs@.take(a)),
        forall|k: int| a <= k < outputs.len() ==> future_pillar(self.futures_quote@[k - a], v, outputs@.take(k), #[trigger] outputs@[k]),
    decreases __n3 - __k3
//@loop 3 begin
    let ghost c0 = outputs@;
    proof {
        let q = self.futures_quote@[__k3 as int];
        assert(self.matures(a + __k3, q.m(v)));
        self.lemma_next(c0, q.m(v), a + __k3);
        lemma_fin(q.m(v));
    }
//@loop 3 end
    proof {
        assert(outputs@ =~= c0.push(outputs@[c0.len() as int]));
        self.lemma_dated(c0, outputs@[c0.len() as int], a + __k3 - 1);
        assert(outputs@.take(a) =~= c0.take(a));
        assert forall|k: int| a <= k < outputs.len() implies future_pillar(self.futures_quote@[k - a], v, outputs@.take(k), #[trigger] outputs@[k]) by {
            if k < c0.len() { assert(outputs@[k] == c0[k]); assert(outputs@.take(k) =~= c0.take(k)); } else { assert(outputs@.take(k) =~= c0); }
        }
    }
//@loop 4
    invariant 0 <= __k4 <= __n4, __n4 == self.swap_quote.len(), __s4@ == self.swap_quote@, self.ok(), v == self.valuation_date@, a == self.cash_quote.len(), b == self.futures_quote.len(), outputs.len() == a + b + __k4,
        self.dated(outputs@, a + b + __k4), cash_part(self.cash_quote@, v, outputs@.take(a)),
        forall|k: int| a <= k < a + b ==> future_pillar(self.futures_quote@[k - a], v, outputs@.take(k), #[trigger] outputs@[k]),
        forall|k: int| a + b <= k < outputs.len() ==> swap_pillar(self.swap_quote@[k - a - b], self.valuation_date, outputs@.take(k), #[trigger] outputs@[k]),
    decreases __n4 - __k4
//@loop 4 begin
    let ghost c0 = outputs@;
    let ghost q0 = self.swap_quote@[__k4 as int];
    let ghost n0 = a + b + __k4;
    proof { lemma_fin(v); }
//@site solve_zero_rate
    proof {
        let h = outputs@[c0.len() as int];
        assert(outputs@ =~= c0.push(h));
        assert(self.matures(n0, h.date@));
        self.lemma_dated(c0, h, n0);
        lemma_visible(outputs@, c0.len() as int);
        lemma_fin(h.date@);
    }
    let ghost h = outputs@[c0.len() as int];
//@loop 4 end
    proof {
        let p = outputs@[c0.len() as int];
        assert(outputs@ =~= c0.push(p));
        assert(self.matures(n0, p.date@));
        self.lemma_dated(c0, p, n0);
        assert(reprices(q0, self.valuation_date, c0.push(h), p.zero_rate));
        assert(swap_pillar(q0, self.valuation_date, c0, p));
        assert(outputs@.take(a) =~= c0.take(a));
        assert forall|k: int| a <= k < a + b implies future_pillar(self.futures_quote@[k - a], v, outputs@.take(k), #[trigger] outputs@[k]) by { assert(outputs@[k] == c0[k]); assert(outputs@.take(k) =~= c0.take(k)); }
        assert forall|k: int| a + b <= k < outputs.len() implies swap_pillar(self.swap_quote@[k - a - b], self.valuation_date, outputs@.take(k), #[trigger] outputs@[k]) by {
            if k < c0.len() { assert(outputs@[k] == c0[k]); assert(outputs@.take(k) =~= c0.take(k)); } else { assert(outputs@.take(k) =~= c0); }
        }
    }
//@end
