// Caplet volatility stripping: contracts discharged against src/markets/interestrate/volsurface.rs
//@call .to_vec => slice_copy
#[verifier::external_body]
pub fn slice_copy<T: Copy>(v: &[T]) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (x: core::result::Result<T, E>, d: T) -> (r: T) where E: core::marker::Destruct, T: core::marker::Destruct
    ensures r == (match x { Ok(v) => v, Err(_) => d });
pub open spec fn key_le<T, F: Fn(&T) -> NaiveDate>(f: F, x: &T, y: &T) -> bool { exists|a: NaiveDate, b: NaiveDate| #[trigger] f.ensures((x,), a) && #[trigger] f.ensures((y,), b) && a@ <= b@ }
#[verifier::external_body]
pub fn sort_by_fn<T, F: Fn(&T) -> NaiveDate>(v: &mut Vec<T>, f: F)
    requires forall|x: &T| #[trigger] f.requires((x,))
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v).len() == old(v).len(),
        forall|i: int| 0 <= i < final(v).len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
        forall|i: int| 0 <= i < old(v).len() ==> final(v)@.contains(#[trigger] old(v)@[i]),
        forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i < j < final(v).len() ==> key_le(f, &final(v)@[i], &final(v)@[j]),
{ unimplemented!() }
//@include brent.vrs
//@item src/markets/interestrate/volsurface.rs :: struct CapQuote
//@item src/markets/interestrate/volsurface.rs :: struct StripPoint => #[derive(Clone, Copy)]
// the volatility of a caplet starting at t: of the first segment not ending before it, else s
pub open spec fn strip_vol(p: Seq<StripPoint>, t: int, s: real, i: int) -> real decreases p.len() - i {
    if i < 0 || i >= p.len() { s } else if t <= p[i].expiry@ { p[i].sigma@ } else { strip_vol(p, t, s, i + 1) }
}
impl CapQuote {
    pub open spec fn row_ok(&self, w: Row) -> bool { fin(w.s) && fin(w.e) && fin(w.pay) && yfd(self.accrual_day_counter, w.s, w.e) != 0real }
    pub open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < self.schedule.len() ==> self.row_ok(row(#[trigger] self.schedule@[i])) }
    pub open spec fn last(&self) -> int { self.schedule@[self.schedule.len() - 1].accrual_start_date@ }
    pub open spec fn one(&self, y: YieldTermStructure, v: int, p: Seq<StripPoint>, s: real, w: Row) -> real {
        let tau = yfd(self.accrual_day_counter, w.s, w.e);
        sgn(self.direction) * self.notional@ * tau * y.disc(w.pay)
            * b_opt(self.kind, fwd1(y, 0real, w, tau), self.strike@, tvar(self.style, strip_vol(p, w.s, s, 0), yf365(v, w.s), yf365(v, w.e)))
    }
    pub open spec fn part(&self, y: YieldTermStructure, v: int, p: Seq<StripPoint>, s: real, n: int) -> real decreases n {
        if n <= 0 { 0real } else { self.part(y, v, p, s, n - 1) + self.one(y, v, p, s, row(self.schedule@[n - 1])) }
    }
    // the quote priced with the segments p, and s beyond them
    pub open spec fn price(&self, y: YieldTermStructure, v: int, p: Seq<StripPoint>, s: real) -> real { self.part(y, v, p, s, self.schedule.len() as int) }
    pub open spec fn miss(&self, y: YieldTermStructure, v: int, p: Seq<StripPoint>) -> spec_fn(real) -> real { |s: real| self.price(y, v, p, s) - self.market_npv@ }
}
//@fn src/markets/interestrate/volsurface.rs impl CapQuote :: last_accrual_start => impl CapQuote
//@flags opt-combinators
//@spec
    ensures match r { Err(_) => self.schedule.len() == 0, Ok(d) => self.schedule.len() > 0 && d@ == self.last() }
//@end
//@fn src/markets/interestrate/volsurface.rs fn caplet_sigma_for_start
//@params t, p, s
//@spec
    ensures r@ == strip_vol(p@, t@, s@, 0)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == p.len(), __s0@ == p@, start == t, strip_vol(p@, t@, s@, 0) == strip_vol(p@, t@, s@, __k0 as int)
    decreases __n0 - __k0
//@end
//@fn src/markets/interestrate/volsurface.rs fn price_cap_with_strip
//@params y, v, q, p, s
//@spec
    requires y.ok(), q.ok(), fin(v@)
    ensures r is Ok, r->Ok_0@ == q.price(*y, v@, p@, s@)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == q.schedule.len(), __s0@ == q.schedule@, q.ok(), y.ok(), fin(v@), yts == y, quote == q, valuation_date == v, strip == p, trial_sigma == s,
        dir_sign@ == sgn(q.direction), vol_time.market is None, npv@ == q.part(*y, v@, p@, s@, __k0 as int),
    decreases __n0 - __k0
//@loop 0 begin
    proof {
        let w = row(q.schedule@[__k0 as int]);
        assert(q.row_ok(w));
        lemma_fin(w.s); lemma_fin(w.e); lemma_fin(v@); lemma_disc_pos(*y, w.e, 0real); lemma_disc0(*y, w.s); lemma_disc0(*y, w.e); lemma_disc0(*y, w.pay);
    }
//@end
pub open spec fn eps10() -> real { 1real / 10_000_000_000real }
pub open spec fn quotes_ok(q: Seq<&CapQuote>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).ok() }
// segment k's volatility prices a quote ending there at its market value, given the segments before it
pub open spec fn solves(q: &CapQuote, y: YieldTermStructure, v: int, p: Seq<StripPoint>, k: int) -> bool {
    q.schedule.len() > 0 && q.last() == p[k].expiry@ && root_at(q.miss(y, v, p.subrange(0, k)), p[k].sigma@, eps10()) && 1real / 100000real <= p[k].sigma@ <= 1real / 10real
}
pub open spec fn solved(qs: Seq<&CapQuote>, y: YieldTermStructure, v: int, p: Seq<StripPoint>, k: int) -> bool { exists|i: int| 0 <= i < qs.len() && solves(#[trigger] qs[i], y, v, p, k) }
pub open spec fn ends(q: &CapQuote, p: Seq<StripPoint>) -> bool { q.schedule.len() > 0 && exists|k: int| 0 <= k < p.len() && (#[trigger] p[k]).expiry@ == q.last() }
pub open spec fn rising(p: Seq<StripPoint>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).expiry@ < (#[trigger] p[j]).expiry@ }
pub open spec fn stripped(qs: Seq<&CapQuote>, y: YieldTermStructure, v: int, p: Seq<StripPoint>) -> bool {
    &&& rising(p)
    &&& forall|i: int| 0 <= i < qs.len() ==> ends(#[trigger] qs[i], p)
    &&& forall|k: int| 0 <= k < p.len() ==> #[trigger] solved(qs, y, v, p, k)
}
pub open spec fn end_or(q: &CapQuote, v: int) -> int { if q.schedule.len() > 0 { q.last() } else { v } }
pub open spec fn in_order(q: Seq<&CapQuote>, v: int) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> end_or(#[trigger] q[i], v) <= end_or(#[trigger] q[j], v) }
pub open spec fn same_members(a: Seq<&CapQuote>, b: Seq<&CapQuote>) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])) && (forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]))
}
pub proof fn lemma_push(qs: Seq<&CapQuote>, y: YieldTermStructure, v: int, p: Seq<StripPoint>, x: StripPoint)
    ensures forall|k: int| 0 <= k < p.len() && #[trigger] solved(qs, y, v, p, k) ==> solved(qs, y, v, p.push(x), k),
        forall|q: &CapQuote| #[trigger] ends(q, p) ==> ends(q, p.push(x)),
{
    let z = p.push(x);
    assert forall|k: int| 0 <= k < p.len() && #[trigger] solved(qs, y, v, p, k) implies solved(qs, y, v, z, k) by {
        let i = choose|i: int| 0 <= i < qs.len() && solves(#[trigger] qs[i], y, v, p, k);
        assert(z.subrange(0, k) =~= p.subrange(0, k));
        assert(solves(qs[i], y, v, z, k));
    }
    assert forall|q: &CapQuote| #[trigger] ends(q, p) implies ends(q, z) by {
        let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).expiry@ == q.last();
        assert(z[k] == p[k]);
    }
}
pub proof fn lemma_back(qs: Seq<&CapQuote>, zs: Seq<&CapQuote>, y: YieldTermStructure, v: int, p: Seq<StripPoint>)
    requires same_members(qs, zs), rising(p), forall|i: int| 0 <= i < zs.len() ==> ends(#[trigger] zs[i], p), forall|k: int| 0 <= k < p.len() ==> #[trigger] solved(zs, y, v, p, k)
    ensures stripped(qs, y, v, p)
{
    assert forall|i: int| 0 <= i < qs.len() implies ends(#[trigger] qs[i], p) by {
        assert(zs.contains(qs[i]));
        let j = choose|j: int| 0 <= j < zs.len() && zs[j] == qs[i];
        assert(ends(zs[j], p));
    }
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] solved(qs, y, v, p, k) by {
        assert(solved(zs, y, v, p, k));
        let i = choose|i: int| 0 <= i < zs.len() && solves(#[trigger] zs[i], y, v, p, k);
        assert(qs.contains(zs[i]));
        let j = choose|j: int| 0 <= j < qs.len() && qs[j] == zs[i];
        assert(solves(qs[j], y, v, p, k));
    }
}
//@fn src/markets/interestrate/volsurface.rs fn strip_one_strike
//@params y, v, qs
//@closure 0 |q: &&CapQuote| -> (d: NaiveDate) requires valuation_date == v ensures d@ == end_or(*q, v@)
//@closure 1 |s: R| -> (z: R) requires y.ok(), quote.ok(), fin(v@), yts == y, valuation_date == v ensures z@ == quote.price(*y, v@, snapshot@, s@) - quote.market_npv@
//@spec
    requires y.ok(), fin(v@), quotes_ok(qs@)
    ensures r is Ok ==> stripped(qs@, *y, v@, r->Ok_0@)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == __s0.len(), yts == y, valuation_date == v, y.ok(), fin(v@), same_members(qs@, __s0@), quotes_ok(__s0@), in_order(__s0@, v@),
        convergency.eps@ == eps10(), rising(strip@),
        forall|i: int| 0 <= i < __k0 ==> ends(#[trigger] __s0@[i], strip@),
        forall|k: int| 0 <= k < strip.len() ==> #[trigger] solved(__s0@, *y, v@, strip@, k),
        strip.len() > 0 ==> exists|i: int| 0 <= i < __k0 && (#[trigger] __s0@[i]).schedule.len() > 0 && __s0@[i].last() == strip@[strip.len() - 1].expiry@,
    decreases __n0 - __k0
//@loop 0 begin
    let ghost zs = __s0@;
    let ghost at = __k0 as int;
    let ghost was = strip@;
    proof {
        let q = zs[at];
        if q.schedule.len() > 0 && was.len() > 0 {
            let i = choose|i: int| 0 <= i < at && (#[trigger] zs[i]).schedule.len() > 0 && zs[i].last() == was[was.len() - 1].expiry@;
            assert(end_or(zs[i], v@) <= end_or(q, v@));
            if q.last() <= was[was.len() - 1].expiry@ { assert(was[was.len() - 1].expiry@ == q.last()); assert(ends(q, was)); }
        }
    }
//@loop 0 end
    proof {
        let n = was.len() as int;
        lemma_push(zs, *y, v@, was, strip@[n]);
        assert(strip@ =~= was.push(strip@[n]));
        assert(strip@.subrange(0, n) =~= was);
        assert(strip@[n].expiry@ == zs[at].last());
        lemma_root(residual, zs[at].miss(*y, v@, was), sigma, eps10());
        assert(solves(zs[at], *y, v@, strip@, n));
        assert(solved(zs, *y, v@, strip@, n));
        assert forall|k: int| 0 <= k < n implies #[trigger] solved(zs, *y, v@, strip@, k) by { assert(solved(zs, *y, v@, was, k)); }
    }
//@loop 0 after
    proof { lemma_back(qs@, quotes@, *y, v@, strip@); }
//@site find_root_brent
    proof { assert(snapshot@ =~= strip@); }
//@end
