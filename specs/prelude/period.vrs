// Period and its addition to dates: contracts, discharged here against src/time/period.rs.
//@call Months::new => ChronoMonths::new
//@call Duration::try_days => TimeDelta::try_days
//@include result.vrs
//@item src/time/period.rs :: enum Period => #[derive(Clone, Copy, PartialEq, Eq, Structural)]
// the day number `n + p`
pub open spec fn plus(n: int, p: Period, s: int) -> int {
    match p {
        Period::ON => n + s, Period::TN => n + s, Period::SPOT => n, Period::SN => n + s,
        Period::Days(k) => if s > 0 { n + k } else { n - k },
        Period::Weeks(k) => if s > 0 { n + 7 * k } else { n - 7 * k },
        Period::Months(k) => add_months(n, s * k),
        Period::Years(k) => add_months(n, s * 12 * k),
    }
}
// periods whose size chrono can represent at all
pub open spec fn countable(p: Period) -> bool {
    match p {
        Period::Days(k) => -100_000_000_000 < k < 100_000_000_000,
        Period::Weeks(k) => -14_000_000_000 < k < 14_000_000_000,
        Period::Years(k) => 12 * k <= u32::MAX,
        _ => true,
    }
}
pub open spec fn uncountable(p: Period) -> bool {
    match p {
        Period::Days(k) => k <= -107_000_000_000 || k >= 107_000_000_000,
        Period::Weeks(k) => k <= -16_000_000_000 || k >= 16_000_000_000,
        Period::Years(k) => 12 * k > u32::MAX,
        _ => false,
    }
}
// the sum is a date chrono can represent (or no date at all)
pub open spec fn addable(n: int, p: Period, s: int) -> bool {
    uncountable(p) || (countable(p) && inr(plus(n, p, s)) && match p { Period::Months(k) => k <= i32::MAX, Period::Years(k) => 12 * k <= i32::MAX, _ => true })
}
impl vstd::std_specs::ops::AddSpecImpl<Period> for NaiveDate {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, p: Period) -> bool { addable(self@, p, 1) }
    open spec fn add_spec(self, p: Period) -> Result<NaiveDate> { Ok(self) }
}
impl vstd::std_specs::ops::SubSpecImpl<Period> for NaiveDate {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, p: Period) -> bool { addable(self@, p, -1) }
    open spec fn sub_spec(self, p: Period) -> Result<NaiveDate> { Ok(self) }
}
//@fn src/time/period.rs impl Add<Period> for NaiveDate :: add => impl core::ops::Add<Period> for NaiveDate { type Output = Result<NaiveDate>;
//@params p
//@spec
    ensures countable(p) ==> r is Ok && r->Ok_0@ == plus(self@, p, 1), uncountable(p) ==> r is Err,
        r is Ok ==> r->Ok_0@ == plus(self@, p, 1),
//@end
//@fn src/time/period.rs impl Sub<Period> for NaiveDate :: sub => impl core::ops::Sub<Period> for NaiveDate { type Output = Result<NaiveDate>;
//@params p
//@spec
    ensures countable(p) ==> r is Ok && r->Ok_0@ == plus(self@, p, -1), uncountable(p) ==> r is Err,
        r is Ok ==> r->Ok_0@ == plus(self@, p, -1),
//@end
