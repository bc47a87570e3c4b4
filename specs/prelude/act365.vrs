// Actual/365 (Fixed): contract discharged against src/time/daycounters/actual365fixed.rs
//@item src/time/daycounters/actual365fixed.rs :: enum Actual365FixedMarket
//@item src/time/daycounters/actual365fixed.rs :: struct Actual365Fixed
impl Actual365Fixed {
    #[verifier::external_body]
    pub fn default() -> (r: Actual365Fixed) ensures r.market is None { unimplemented!() }
}
pub open spec fn noleap_day(n: int) -> int { 365 * year(n) + (if month(n) == 2 && day(n) == 29 { 59 } else { cum(1, month(n)) + day(n) }) }
pub open spec fn act365(m: Option<Actual365FixedMarket>, a: int, b: int) -> int {
    match m { Some(Actual365FixedMarket::NoLeap) => noleap_day(b) - noleap_day(a), _ => b - a }
}
// dates the financial contracts speak about: years between -1900 and 1900 of chrono's epoch suffice by far
pub open spec fn fin(n: int) -> bool { 1_000 < n < 3_600_000 }
//@fn src/time/daycounters/actual365fixed.rs impl DayCounters for Actual365Fixed :: day_count => impl Actual365Fixed
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0 == act365(self.market, d1@, d2@)
//@entry
    broadcast use axiom_civil;
//@end
//@fn src/time/daycounters/actual365fixed.rs impl DayCounters for Actual365Fixed :: year_fraction => impl Actual365Fixed
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0@ == (act365(self.market, d1@, d2@) as real) / 365real
//@end
// year fraction of a to b
pub open spec fn yf365(a: int, b: int) -> real { ((b - a) as real) / 365real }
