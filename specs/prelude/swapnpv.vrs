//@item src/derivatives/interestrate/swap.rs :: struct InterestRateCashflow
impl InterestRateSwapLeg {
    pub open spec fn tau(&self, w: Row) -> real { yfd(self.schedule_detail.day_counter, w.s, w.e) }
    // the period's rate: the coupon, or the curve's simple forward rate over the accrual period plus the spread
    pub open spec fn rate(&self, y: YieldTermStructure, sh: real, w: Row) -> real {
        match self.swap_type {
            InterestRateSwapLegType::Fixed { coupon } => coupon@,
            InterestRateSwapLegType::Float { spread } => (y.disc_s(w.s, sh) / y.disc_s(w.e, sh) - 1real) / self.tau(w) + spread@,
        }
    }
    pub open spec fn payment(&self, y: YieldTermStructure, sh: real, w: Row) -> real { self.rate(y, sh, w) * self.tau(w) * w.bal }
    pub open spec fn pv1(&self, y: YieldTermStructure, sh: real, w: Row) -> real { self.payment(y, sh, w) * y.disc_s(w.pay, sh) * sgn(self.direction) }
    pub open spec fn pv(&self, y: YieldTermStructure, sh: real, w: Seq<Row>, n: int) -> real decreases n {
        if n <= 0 { 0real } else { self.pv(y, sh, w, n - 1) + self.pv1(y, sh, w[n - 1]) }
    }
    // coupons paid on the pay dates, and the notional of the last period on its pay date
    pub open spec fn leg_pv(&self, y: YieldTermStructure, sh: real, w: Seq<Row>) -> real {
        self.pv(y, sh, w, w.len() as int) + (if w.len() > 0 { w[w.len() - 1].bal * y.disc_s(w[w.len() - 1].pay, sh) * sgn(self.direction) } else { 0real })
    }
    pub open spec fn row_ok(&self, w: Row) -> bool { fin(w.s) && fin(w.e) && fin(w.pay) && self.tau(w) != 0real }
    pub open spec fn pv_ok(&self, v: int) -> bool { self.sched_ok(v) && forall|i: int| 0 <= i < self.rows(v).len() ==> self.row_ok(#[trigger] self.rows(v)[i]) }
}
impl InterestRateSwap {
    pub open spec fn total(&self, y: YieldTermStructure, sh: real, v: int, n: int) -> real decreases n {
        if n <= 0 { 0real } else { self.total(y, sh, v, n - 1) + self.legs@[n - 1].leg_pv(y, sh, self.legs@[n - 1].rows(v)) }
    }
    pub open spec fn value(&self, y: YieldTermStructure, sh: real, v: int) -> real { self.total(y, sh, v, self.legs.len() as int) }
    pub open spec fn pv_ok(&self, v: int) -> bool { forall|i: int| 0 <= i < self.legs.len() ==> (#[trigger] self.legs@[i]).pv_ok(v) }
}
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwap :: calculate_period_cashflow => impl InterestRateSwap
//@params period, leg, y
//@spec
    requires old(y).ok(), leg.row_ok(row(*period))
    ensures r is Ok, *final(y) == *old(y), ({ let (w, c) = (row(*period), r->Ok_0);
        &&& c.day_counts is Some && c.day_counts->0 == dcd(leg.schedule_detail.day_counter, w.s, w.e)
        &&& c.notional == Some(period.balance)
        &&& c.reset_rate is Some && c.reset_rate->0@ == leg.rate(*old(y), 0real, w)
        &&& c.payment is Some && c.payment->0@ == leg.payment(*old(y), 0real, w)
        &&& c.discount is Some && c.discount->0@ == old(y).disc(w.pay)
        &&& c.present_value is Some && c.present_value->0@ == leg.pv1(*old(y), 0real, w) })
//@entry
    proof {
        let w = row(*period);
        lemma_disc0(*y, w.s); lemma_disc0(*y, w.e); lemma_disc0(*y, w.pay); lemma_disc_pos(*y, w.e, 0real);
    }
//@end
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwap :: npv => impl InterestRateSwap
//@params v, y
//@spec
    requires old(y).ok(), self.pv_ok(v@)
    ensures r is Ok, *final(y) == *old(y), r->Ok_0@ == self.value(*old(y), 0real, v@)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.legs.len(), __s0@ == self.legs@, self.pv_ok(v@), *y == *old(y), y.ok(), valuation_date == v,
        total_npv@ == self.total(*y, 0real, v@, __k0 as int),
    decreases __n0 - __k0
//@loop 0 begin
    let ghost base = total_npv@;
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == schedule.len(), __s1@ == schedule@, rows(schedule@) =~= leg.rows(v@), leg.pv_ok(v@), *y == *old(y), y.ok(),
        total_npv@ == base + leg.pv(*y, 0real, leg.rows(v@), __k1 as int), direction_sign@ == sgn(leg.direction),
    decreases __n1 - __k1
//@loop 1 begin
    proof { assert(rows(schedule@)[__k1 as int] == row(schedule@[__k1 as int])); assert(leg.row_ok(leg.rows(v@)[__k1 as int])); }
//@loop 1 after
    proof {
        let n = schedule.len() as int;
        if n > 0 {
            assert(rows(schedule@)[n - 1] == row(schedule@[n - 1])); assert(leg.row_ok(leg.rows(v@)[n - 1]));
            lemma_disc0(*y, schedule@[n - 1].pay_date@);
        }
    }
//@end
