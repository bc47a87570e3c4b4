//@include stdnum.vrs
// Swap legs and their schedules: contracts discharged against src/derivatives/interestrate/swap.rs
//@type Box<dyn Calendar> => Cal
//@type Box<dyn DayCounters> => Dcc
//@include schedrow.vrs
#[verifier::external_body]
pub fn vec_copy<T: Copy>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
//@item src/time/frequency.rs :: enum Frequency
//@item src/markets/interestrate/interestrateindex.rs :: struct InterestRateIndex
//@item src/derivatives/interestrate/swap.rs :: enum InterestRateSwapLegType
//@item src/derivatives/interestrate/swap.rs :: struct ScheduleDetail
//@item src/derivatives/interestrate/swap.rs :: struct InterestRateSwapLeg
pub open spec fn freq_period(f: Frequency) -> Option<Period> {
    match f {
        Frequency::NoFrequency => Some(Period::ON), Frequency::Once => None, Frequency::OtherFrequency => None,
        Frequency::Annual => Some(Period::Years(1)), Frequency::Semiannual => Some(Period::Months(6)), Frequency::EveryFourthMonth => Some(Period::Months(4)),
        Frequency::Quarterly => Some(Period::Months(3)), Frequency::Bimonthly => Some(Period::Months(2)), Frequency::Monthly => Some(Period::Months(1)),
        Frequency::EveryFourthWeek => Some(Period::Weeks(4)), Frequency::Biweekly => Some(Period::Weeks(2)), Frequency::Weekly => Some(Period::Weeks(1)),
        Frequency::Daily => Some(Period::Days(1)),
    }
}
//@fn src/time/frequency.rs impl Frequency :: period => impl Frequency
//@spec
    ensures r == freq_period(*self)
//@end
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSchedulePeriod :: new => impl InterestRateSchedulePeriod
//@params a, b, c, d, e, f
//@spec
    ensures r.accrual_start_date == a, r.accrual_end_date == b, r.pay_date == c, r.reset_date == d, r.amortisation_amounts == e, r.balance == f
//@end
// how many units a period spans (its own unit); one for the pre-spot tenors
pub open spec fn size(p: Period) -> int {
    match p { Period::Days(n) => n as int, Period::Weeks(n) => n as int, Period::Months(n) => n as int, Period::Years(n) => n as int, _ => 1 }
}
impl InterestRateSwapLeg {
    pub open spec fn cal(&self) -> Cal { self.schedule_detail.calendar }
    pub open spec fn eff(&self, v: int) -> int {
        adv(self.cal(), v, Period::Days(self.interest_rate_index.settlement_days), self.schedule_detail.convention, self.interest_rate_index.end_of_month)
    }
    pub open spec fn eff_ok(&self, v: int) -> bool { room(self.cal(), v, Period::Days(self.interest_rate_index.settlement_days)) }
    pub open spec fn freq(&self) -> Period { freq_period(self.schedule_detail.frequency)->0 }
    pub open spec fn num(&self) -> int { size(self.schedule_detail.duration) / size(self.schedule_detail.tenor) }
    // end of the k-th period: the effective date moved by k frequencies; period 0 ends on the effective date
    pub open spec fn end(&self, v: int, k: int) -> int {
        if k == 0 { self.eff(v) } else { adv(self.cal(), self.eff(v), scaled(k as u32, self.freq()), self.schedule_detail.convention, self.interest_rate_index.end_of_month) }
    }
    pub open spec fn gen_row(&self, v: int, i: int) -> Row {
        Row {
            s: self.end(v, i), e: self.end(v, i + 1),
            pay: adv(self.cal(), self.end(v, i + 1), Period::Days(self.schedule_detail.pay_delay), self.schedule_detail.convention, false),
            reset: adv(self.cal(), self.end(v, i), Period::Days((-self.schedule_detail.days_before_accrual) as i64), self.schedule_detail.convention, false),
            bal: self.notional@,
        }
    }
    // the schedule: the leg's own if it carries one, else generated
    pub open spec fn rows(&self, v: int) -> Seq<Row> {
        if self.schedule.len() > 0 { rows(self.schedule@) } else { Seq::new(self.num() as nat, |i: int| self.gen_row(v, i)) }
    }
    pub open spec fn room_at(&self, v: int, k: int) -> bool {
        &&& scalable(k as u32, self.freq()) && room(self.cal(), self.eff(v), scaled(k as u32, self.freq()))
    }
    pub open spec fn gen_ok(&self, v: int) -> bool {
        &&& self.eff_ok(v)
        &&& freq_period(self.schedule_detail.frequency) is Some
        &&& 0 < size(self.schedule_detail.tenor) <= u32::MAX && 0 <= size(self.schedule_detail.duration) <= u32::MAX && self.num() <= 100_000
        &&& -100_000 <= self.schedule_detail.pay_delay <= 100_000 && -100_000 <= self.schedule_detail.days_before_accrual <= 100_000
        &&& forall|k: int| 1 <= k <= self.num() ==> #[trigger] self.room_at(v, k)
        &&& forall|k: int| 0 <= k <= self.num() ==> room(self.cal(), #[trigger] self.end(v, k), Period::Days(self.schedule_detail.pay_delay))
            && room(self.cal(), self.end(v, k), Period::Days((-self.schedule_detail.days_before_accrual) as i64))
    }
    pub open spec fn sched_ok(&self, v: int) -> bool { self.schedule.len() > 0 || self.gen_ok(v) }
}
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwapLeg :: effective_date => impl InterestRateSwapLeg
//@params v
//@spec
    requires self.eff_ok(v@)
    ensures r is Ok, r->Ok_0 is Some, r->Ok_0->0@ == self.eff(v@)
//@end
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwapLeg :: generate_schedule => impl InterestRateSwapLeg
//@params v
//@subst self.schedule.to_vec() => vec_copy(&self.schedule)
//@spec
    requires self.sched_ok(v@)
    ensures r is Ok, rows(r->Ok_0@) =~= self.rows(v@)
//@loop 0
    invariant 1 <= __k0 <= __n0, __n0 == num + 1, num == self.num(), self.gen_ok(v@), effective_date@ == self.eff(v@),
        start_date@ == self.end(v@, __k0 - 1), schedule.len() == __k0 - 1,
        forall|i: int| 0 <= i < schedule.len() ==> row(#[trigger] schedule@[i]) == self.gen_row(v@, i),
    decreases __n0 - __k0
//@loop 0 begin
    assert(self.room_at(v@, __k0 as int));
    assert(room(self.cal(), self.end(v@, __k0 as int), Period::Days(self.schedule_detail.pay_delay)));
//@end
