use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/result.vrs
//@item src/time/daycounters/actual360.rs :: struct Actual360
//@fn src/time/daycounters/actual360.rs impl DayCounters for Actual360 :: day_count => impl Actual360
//@params d1, d2
//@spec
    ensures r is Ok, r->Ok_0 == d2@ - d1@
//@end
//@fn src/time/daycounters/actual360.rs impl DayCounters for Actual360 :: year_fraction => impl Actual360
//@params d1, d2
//@spec
    ensures r is Ok, r->Ok_0@ == ((d2@ - d1@) as real) / 360real
//@end
//@item src/time/daycounters/actual364.rs :: struct Actual364
//@fn src/time/daycounters/actual364.rs impl DayCounters for Actual364 :: day_count => impl Actual364
//@params d1, d2
//@spec
    ensures r is Ok, r->Ok_0 == d2@ - d1@
//@end
//@fn src/time/daycounters/actual364.rs impl DayCounters for Actual364 :: year_fraction => impl Actual364
//@params d1, d2
//@spec
    ensures r is Ok, r->Ok_0@ == ((d2@ - d1@) as real) / 364real
//@end
//@item src/time/daycounters/actual366.rs :: struct Actual366
//@fn src/time/daycounters/actual366.rs impl DayCounters for Actual366 :: day_count => impl Actual366
//@params d1, d2
//@spec
    ensures r is Ok, r->Ok_0 == d2@ - d1@
//@end
//@fn src/time/daycounters/actual366.rs impl DayCounters for Actual366 :: year_fraction => impl Actual366
//@params d1, d2
//@spec
    ensures r is Ok, r->Ok_0@ == ((d2@ - d1@) as real) / 366real
//@end
// ---- Actual/365 (Fixed) and its no-leap variant
//@item src/time/daycounters/actual365fixed.rs :: enum Actual365FixedMarket
//@item src/time/daycounters/actual365fixed.rs :: struct Actual365Fixed
pub open spec fn noleap_day(n: int) -> int {
    // day index in a calendar whose every year has 365 days; 29 February shares 28 February's
    365 * year(n) + (if month(n) == 2 && day(n) == 29 { 59 } else { cum(1, month(n)) + day(n) })
}
pub open spec fn act365(m: Option<Actual365FixedMarket>, a: int, b: int) -> int {
    match m { Some(Actual365FixedMarket::NoLeap) => noleap_day(b) - noleap_day(a), _ => b - a }
}
//@fn src/time/daycounters/actual365fixed.rs impl DayCounters for Actual365Fixed :: day_count => impl Actual365Fixed
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0 == act365(self.market, d1@, d2@)
//@entry
    broadcast use axiom_civil;
//@end
//@fn src/time/daycounters/actual365fixed.rs impl DayCounters for Actual365Fixed :: year_fraction => impl Actual365Fixed
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0@ == (act365(self.market, d1@, d2@) as real) / 365real
//@end
// ---- 30/365
pub open spec fn thirty(y1: int, m1: int, d1: int, y2: int, m2: int, d2: int) -> int { 360 * (y2 - y1) + 30 * (m2 - m1) + (d2 - d1) }
//@item src/time/daycounters/thirty365.rs :: struct Thirty365
//@fn src/time/daycounters/thirty365.rs impl DayCounters for Thirty365 :: day_count => impl Thirty365
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0 == thirty(year(d1@), month(d1@), day(d1@), year(d2@), month(d2@), day(d2@))
//@entry
    broadcast use axiom_civil;
//@end
//@fn src/time/daycounters/thirty365.rs impl DayCounters for Thirty365 :: year_fraction => impl Thirty365
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0@ == (thirty(year(d1@), month(d1@), day(d1@), year(d2@), month(d2@), day(d2@)) as real) / 365real
//@end
// ---- 30/360
//@item src/time/daycounters/thirty360.rs :: enum Thirty360Market
//@item src/time/daycounters/thirty360.rs :: struct Thirty360
pub open spec fn feb_end(n: int) -> bool { month(n) == 2 && day(n) == dim(year(n), 2) }
pub open spec fn cap30(d: int) -> int { if d == 31 { 30 } else { d } }
pub open spec fn thirty360(m: Thirty360Market, a: int, b: int) -> int {
    let (y1, m1, d1, y2, m2, d2) = (year(a), month(a), day(a), year(b), month(b), day(b));
    match m {
        // SIA: end-of-February start counts as the 30th, so does an end-of-February end then
        Thirty360Market::USA => {
            let s = if feb_end(a) { 30 } else { cap30(d1) };
            let e = if feb_end(a) && feb_end(b) { 30 } else if d2 == 31 && s == 30 { 30 } else { d2 };
            thirty(y1, m1, s, y2, m2, e)
        }
        Thirty360Market::European => thirty(y1, m1, cap30(d1), y2, m2, cap30(d2)),
        Thirty360Market::Italian => thirty(y1, m1, if m1 == 2 && d1 >= 28 { 30 } else { cap30(d1) }, y2, m2, if m2 == 2 && d2 >= 28 { 30 } else { cap30(d2) }),
        Thirty360Market::ISMA => thirty(y1, m1, cap30(d1), y2, m2, if d2 == 31 && cap30(d1) == 30 { 30 } else { d2 }),
        Thirty360Market::ISDA(t) => thirty(y1, m1, if feb_end(a) { 30 } else { cap30(d1) }, y2, m2, if b != t@ && feb_end(b) { 30 } else { cap30(d2) }),
        Thirty360Market::German(t) => thirty(y1, m1, if feb_end(a) { 30 } else { cap30(d1) }, y2, m2, if b != t@ && feb_end(b) { 30 } else { cap30(d2) }),
        // NASD: a 31st end after a start before the 30th is the 1st of the next month
        Thirty360Market::NASD => if d2 == 31 && cap30(d1) == 30 { thirty(y1, m1, 30, y2, m2, 30) } else if d2 == 31 { thirty(y1, m1, d1, y2, m2 + 1, 1) } else { thirty(y1, m1, cap30(d1), y2, m2, d2) },
    }
}
//@fn src/time/daycounters/thirty360.rs impl DayCounters for Thirty360 :: day_count => impl Thirty360
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0 == thirty360(self.market, d1@, d2@)
//@entry
    broadcast use axiom_civil;
//@end
//@fn src/time/daycounters/thirty360.rs impl DayCounters for Thirty360 :: year_fraction => impl Thirty360
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0@ == (thirty360(self.market, d1@, d2@) as real) / 360real
//@end
// ---- consequences
proof fn no_period_no_days(m: Thirty360Market, k: Option<Actual365FixedMarket>, a: int)
    requires m is USA || m is European || m is Italian || m is ISMA
    ensures thirty360(m, a, a) == 0, act365(k, a, a) == 0
{ broadcast use axiom_civil; }
proof fn actual_counts_add_up(k: Option<Actual365FixedMarket>, a: int, b: int, c: int)
    ensures act365(k, a, c) == act365(k, a, b) + act365(k, b, c), act365(k, a, b) == -act365(k, b, a)
{ }
// from one day to the next the no-leap count advances by one, except onto 29 February
proof fn noleap_next_day(n: int)
    ensures noleap_day(n + 1) - noleap_day(n) == (if month(n + 1) == 2 && day(n + 1) == 29 { 0int } else { 1 })
{
    broadcast use axiom_civil;
    lemma_order(n, n + 1);
    let (y, m, d) = (year(n), month(n), day(n));
    if d < dim(y, m) { lemma_civil_unique(y, m, d + 1); }
    else if m < 12 { lemma_civil_unique(y, m + 1, 1); }
    else { lemma_ydays_mono(y, y + 1); lemma_civil_unique(y + 1, 1, 1); }
}
proof fn vacuity_dc(a: int, b: int) requires -200_000 < year(a) < year(b) < 200_000 { broadcast use axiom_civil; assert(false); }
}
fn main() {}
