//@item src/derivatives/interestrate/swap.rs :: struct InterestRateSwap
pub open spec fn is_max(s: Seq<NaiveDate>, m: int) -> bool { (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == m) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ <= m }
#[verifier::external_body]
pub fn max_date(v: &Vec<NaiveDate>) -> (r: &NaiveDate) requires v.len() > 0 ensures is_max(v@, r@) { unimplemented!() }
impl InterestRateSwap {
    pub open spec fn last_end(&self, v: int, i: int) -> int { let w = self.legs@[i].rows(v); w[w.len() - 1].e }
    pub open spec fn dates_ok(&self, v: int) -> bool {
        forall|i: int| 0 <= i < self.legs.len() ==> (#[trigger] self.legs@[i]).sched_ok(v) && self.legs@[i].rows(v).len() > 0
    }
}
//@fn src/derivatives/interestrate/swap.rs impl InterestRateQuote for InterestRateSwap :: settle_date => impl InterestRateSwap
//@params v
//@spec
    requires self.legs.len() > 0 ==> self.legs@[0].eff_ok(v@)
    ensures r is Ok, r->Ok_0@ == (if self.legs.len() == 0 { v@ } else { self.legs@[0].eff(v@) })
//@end
//@fn src/derivatives/interestrate/swap.rs impl InterestRateQuote for InterestRateSwap :: maturity_date => impl InterestRateSwap
//@params v
//@local last_end_dates: Vec<NaiveDate>
//@subst last_end_dates.iter().max().unwrap() => max_date(&last_end_dates)
//@spec
    requires self.dates_ok(v@)
    ensures r is Ok,
        self.legs.len() == 0 ==> r->Ok_0@ == v@,
        // the latest of the legs' last accrual ends
        self.legs.len() > 0 ==> (exists|i: int| 0 <= i < self.legs.len() && r->Ok_0@ == #[trigger] self.last_end(v@, i)),
        forall|i: int| 0 <= i < self.legs.len() ==> #[trigger] self.last_end(v@, i) <= r->Ok_0@,
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.legs.len(), __s0@ == self.legs@, self.dates_ok(v@), valuation_date == v,
        last_end_dates.len() == __k0,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] last_end_dates@[i])@ == self.last_end(v@, i),
    decreases __n0 - __k0
//@loop 0 after
    proof {
        assert forall|i: int, m: int| 0 <= i < self.legs.len() && #[trigger] is_max(last_end_dates@, m) implies #[trigger] self.last_end(v@, i) <= m by { assert(last_end_dates@[i]@ == self.last_end(v@, i)); }
        assert forall|m: int| self.legs.len() > 0 && #[trigger] is_max(last_end_dates@, m) implies exists|i: int| 0 <= i < self.legs.len() && m == #[trigger] self.last_end(v@, i) by {
            let i = choose|i: int| 0 <= i < last_end_dates@.len() && (#[trigger] last_end_dates@[i])@ == m;
            assert(m == self.last_end(v@, i));
        }
    }
//@end
