// FX forward points: contracts discharged against src/markets/forex/quotes/forwardpoints.rs.
//@type RefCell<Vec<Weak<RefCell<dyn Observer>>>> => Observers
//@type &dyn Calendar => &Cal
#[verifier::external_body]
pub struct Observers { x: u8 }
#[verifier::external_body]
pub fn no_observers() -> Observers { unimplemented!() }
//@item src/markets/forex/quotes/forwardpoints.rs :: struct FXForwardQuote => #[derive(Clone, Copy)]
//@item src/markets/forex/quotes/forwardpoints.rs :: struct FXForwardHelper
#[verifier::external_body]
pub fn r_epsilon() -> (r: R) ensures 0real < r@ < 1real { unimplemented!() }
// slice::sort_unstable_by_key and binary_search_by_key on the dates
#[verifier::external_body]
pub fn search_by_key_0(v: &Vec<(NaiveDate, R)>, t: &NaiveDate) -> (r: core::result::Result<usize, usize>)
    requires by_date(v@)
    ensures match r {
        Ok(i) => i < v.len() && v[i as int].0@ == t@,
        Err(i) => i <= v.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).0@ < t@) && (forall|j: int| i <= j < v.len() ==> (#[trigger] v[j]).0@ > t@),
    }
{ unimplemented!() }
impl FXForwardHelper {
    // the settlement date of quote i
    pub open spec fn on(&self, c: Cal, i: int, d: int) -> bool { settled(c, self.valuation_date@, self.quotes@[i].tenor, self.spot_lag as int, d) }
    pub open spec fn has(&self, c: Cal, i: int, d: int) -> bool { 0 <= i < self.quotes.len() && self.on(c, i, d) }
    pub open spec fn ok(&self, c: Cal) -> bool {
        forall|i: int| 0 <= i < self.quotes.len() ==> settle_room(c, self.valuation_date@, (#[trigger] self.quotes@[i]).tenor, self.spot_lag as int)
    }
    pub open spec fn inside(&self, c: Cal, t: int) -> bool {
        &&& self.valuation_date@ < t && self.quotes.len() >= 2
        &&& exists|i: int, a: int| #[trigger] self.has(c, i, a) && a <= t
        &&& exists|i: int, a: int| #[trigger] self.has(c, i, a) && a >= t
    }
    // x are the forward points for day t: a quote settling on t, or the straight line between a nearest quote on either side
    pub open spec fn points(&self, c: Cal, t: int, x: real) -> bool {
        if exists|i: int| #[trigger] self.has(c, i, t) { exists|i: int| #[trigger] self.has(c, i, t) && x == self.quotes@[i].value@ }
        else {
            exists|i: int, a: int, j: int, b: int| #[trigger] self.has(c, i, a) && #[trigger] self.has(c, j, b) && a < t < b
                && (forall|k: int, d: int| #[trigger] self.has(c, k, d) ==> d <= a || d >= b)
                && x * ((b - a) as real) == self.quotes@[i].value@ * ((b - t) as real) + self.quotes@[j].value@ * ((t - a) as real)
        }
    }
}
pub proof fn lemma_settled_one(c: Cal, v: int, p: Period, lag: int, x: int, y: int)
    requires settled(c, v, p, lag, x), settled(c, v, p, lag, y)
    ensures x == y
{
    let u = unadjusted(v, p, lag);
    let e = choose|e: int| #[trigger] is_eom(c, u, e) && (if u >= e { x == e } else { is_next(c, u, x) });
    let f = choose|e: int| #[trigger] is_eom(c, u, e) && (if u >= e { y == e } else { is_next(c, u, y) });
    if e < f { assert(!biz(c, f)); } else if f < e { assert(!biz(c, e)); }
    if u < e { if x < y { assert(!biz(c, x)); } else if y < x { assert(!biz(c, y)); } }
}
pub proof fn lemma_line(s: real, e: real, a: int, b: int, t: int)
    requires a < t < b
    ensures ({ let w = ((t - a) as real) / ((b - a) as real); (s + (e - s) * w) * ((b - a) as real) == s * ((b - t) as real) + e * ((t - a) as real) })
{
    let (p, q) = ((t - a) as real, (b - a) as real);
    assert((p / q) * q == p) by (nonlinear_arith) requires q > 0real;
    let w = p / q;
    assert((s + (e - s) * w) * q == s * q + (e - s) * (w * q)) by (nonlinear_arith);
    assert(s * q + (e - s) * p == s * (q - p) + e * p) by (nonlinear_arith);
    assert((b - t) as real == q - p);
}
//@fn src/markets/forex/quotes/forwardpoints.rs impl FXForwardHelper :: with_spot_lag => impl FXForwardHelper
//@params v, spot, lag, q
//@subst RefCell::new(Vec::new()) => no_observers()
//@spec
    ensures r.valuation_date == v, r.spot_ref == spot, r.spot_lag == lag, r.quotes == q
//@end
//@fn src/markets/forex/quotes/forwardpoints.rs impl FXForwardHelper :: new => impl FXForwardHelper
//@params v, spot, q
//@spec
    ensures r.valuation_date == v, r.spot_ref == spot, r.spot_lag == 2, r.quotes == q
//@end
// d lists the settlement dates and values of all quotes
pub open spec fn src_of(h: FXForwardHelper, c: Cal, d: Seq<(NaiveDate, R)>, j: int, i: int) -> bool { h.has(c, i, d[j].0@) && d[j].1 == h.quotes@[i].value }
pub open spec fn has_src(h: FXForwardHelper, c: Cal, d: Seq<(NaiveDate, R)>, j: int) -> bool { exists|i: int| src_of(h, c, d, j, i) }
pub open spec fn lists(h: FXForwardHelper, c: Cal, d: Seq<(NaiveDate, R)>) -> bool {
    &&& d.len() == h.quotes.len()
    &&& forall|j: int| 0 <= j < d.len() ==> #[trigger] has_src(h, c, d, j)
    &&& forall|i: int, a: int| #[trigger] h.has(c, i, a) ==> exists|j: int| 0 <= j < d.len() && d[#[trigger] idj(j)].0@ == a
}
pub open spec fn idj(j: int) -> int { j }
pub open spec fn perm(x: Seq<(NaiveDate, R)>, y: Seq<(NaiveDate, R)>) -> bool {
    &&& x.len() == y.len() && (forall|j: int| 0 <= j < x.len() ==> y.contains(#[trigger] x[j]))
    &&& forall|j: int| 0 <= j < y.len() ==> x.contains(#[trigger] y[j])
}
// what a sorted copy of the list says about day t
pub open spec fn line(d: Seq<(NaiveDate, R)>, i: int, k: int, t: int) -> real {
    d[i].1@ + (d[k].1@ - d[i].1@) * (((t - d[i].0@) as real) / ((d[k].0@ - d[i].0@) as real))
}
pub open spec fn answers(h: FXForwardHelper, c: Cal, d: Seq<(NaiveDate, R)>, t: int) -> bool {
    &&& forall|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0@ == t ==> h.inside(c, t) && h.points(c, t, d[k].1@)
    &&& forall|i: int, k: int| 0 <= i < d.len() && k == i + 1 && k < d.len() && (#[trigger] d[i]).0@ < t < (#[trigger] d[k]).0@ ==> h.inside(c, t) && h.points(c, t, line(d, i, k, t))
    &&& (forall|k: int| 0 <= k < d.len() ==> (#[trigger] d[k]).0@ > t) ==> !h.inside(c, t)
    &&& (forall|k: int| 0 <= k < d.len() ==> (#[trigger] d[k]).0@ < t) ==> !h.inside(c, t)
}
pub proof fn lemma_answers(h: FXForwardHelper, c: Cal, acc: Seq<(NaiveDate, R)>, d: Seq<(NaiveDate, R)>, t: int)
    requires h.valuation_date@ < t, h.quotes.len() >= 2, by_date(d), perm(d, acc), acc.len() == h.quotes.len(),
        forall|i: int| 0 <= i < acc.len() ==> h.has(c, i, (#[trigger] acc[i]).0@) && acc[i].1 == h.quotes@[i].value
    ensures answers(h, c, d, t)
{
    hide(settled); hide(unadjusted); hide(base); hide(settle_room);
    assert forall|i: int, a: int, b: int| #[trigger] h.has(c, i, a) && #[trigger] h.has(c, i, b) implies a == b by {
        lemma_settled_one(c, h.valuation_date@, h.quotes@[i].tenor, h.spot_lag as int, a, b);
    }
    assert forall|j: int| 0 <= j < d.len() implies #[trigger] has_src(h, c, d, j) by {
        assert(acc.contains(d[j]));
        let i = choose|i: int| 0 <= i < acc.len() && acc[i] == d[j];
        assert(h.has(c, i, acc[i].0@));
        assert(src_of(h, c, d, j, i));
    }
    assert forall|i: int, a: int| #[trigger] h.has(c, i, a) implies exists|j: int| 0 <= j < d.len() && d[#[trigger] idj(j)].0@ == a by {
        assert(h.has(c, i, acc[i].0@)); assert(d.contains(acc[i]));
        let j = choose|j: int| 0 <= j < d.len() && d[j] == acc[i];
        assert(d[idj(j)].0@ == a);
    }
    assert(lists(h, c, d));
    assert forall|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0@ == t implies h.inside(c, t) && h.points(c, t, d[k].1@) by {
        assert(has_src(h, c, d, k));
        let i = choose|i: int| src_of(h, c, d, k, i);
        assert(h.has(c, i, t));
    }
    assert forall|k1: int, k: int| 0 <= k1 < d.len() && k == k1 + 1 && k < d.len() && (#[trigger] d[k1]).0@ < t < (#[trigger] d[k]).0@ implies h.inside(c, t) && h.points(c, t, line(d, k1, k, t)) by {
        assert(has_src(h, c, d, k) && has_src(h, c, d, k1));
        let i = choose|i: int| src_of(h, c, d, k1, i);
        let j = choose|j: int| src_of(h, c, d, k, j);
        let (a, b) = (d[k1].0@, d[k].0@);
        assert(h.has(c, i, a) && h.has(c, j, b));
        assert forall|m: int, e: int| #[trigger] h.has(c, m, e) implies e <= a || e >= b by {
            let n = choose|n: int| 0 <= n < d.len() && d[#[trigger] idj(n)].0@ == e;
            if n < k1 { assert(d[n].0@ <= d[k1].0@); }
            if n > k { assert(d[k].0@ <= d[n].0@); }
        }
        lemma_line(d[k1].1@, d[k].1@, a, b, t);
    }
}
//@fn src/markets/forex/quotes/forwardpoints.rs impl FXForwardHelper :: get_forward => impl FXForwardHelper
//@params t, c
//@local __acc0: Vec<(NaiveDate, R)>
//@spec
    requires self.ok(*c)
    ensures r is Ok, r->Ok_0 is Some <==> self.inside(*c, t@), r->Ok_0 is Some ==> self.points(*c, t@, r->Ok_0->0@)
//@entry
    hide(FXForwardHelper::points); hide(FXForwardHelper::inside); hide(by_date); hide(settled); hide(settle_room); hide(unadjusted); hide(base); hide(plus);
    proof { if self.valuation_date@ >= t@ || self.quotes.len() < 2 { reveal(FXForwardHelper::inside); } }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.quotes.len(), __s1@ == self.quotes@, self.ok(*calendar), __acc0.len() == __k0, calendar == c,
        forall|i: int| 0 <= i < __k0 ==> self.has(*calendar, i, (#[trigger] __acc0[i]).0@) && __acc0[i].1 == self.quotes@[i].value,
    decreases __n0 - __k0
//@loop 0 begin
    assert(settle_room(*calendar, self.valuation_date@, self.quotes@[__k0 as int].tenor, self.spot_lag as int));
//@site sort_by_key_0
    let ghost acc = dated@;
//@site search_by_key_0
    proof { lemma_answers(*self, *c, acc, dated@, t@); }
//@end
