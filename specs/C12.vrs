use vstd::prelude::*;
verus! {
//@float
//@call Months::new => ChronoMonths::new
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/result.vrs
//@item src/time/daycounters/actualactual.rs :: enum ActualActualMarket
//@item src/time/daycounters/actualactual.rs :: struct ActualActual
pub open spec fn ylen(y: int) -> int { if leap(y) { 366 } else { 365 } }
// a date as a point on the axis of years: the year plus the elapsed fraction of that year
pub open spec fn year_point(n: int) -> real { year(n) as real + ((n - dfc(year(n), 1, 1)) as real) / (ylen(year(n)) as real) }
// one year back, 28 February of a leap year becoming the 29th
pub open spec fn year_back(n: int) -> int {
    let t = add_months(n, -12);
    if month(t) == 2 && day(t) == 28 && leap(year(t)) { t + 1 } else { t }
}
pub open spec fn feb29(t: int) -> bool { month(t) == 2 && day(t) == 29 }
pub open spec fn afb_den(a: int, e: int) -> int { if exists|t: int| a <= t < e && #[trigger] feb29(t) { 366 } else { 365 } }
// AFB: whole years counted back from the end, the rest over 366 days when it contains a 29 February
pub open spec fn afb(a: int, b: int) -> real
    decreases b - a
{
    let s = year_back(b);
    if a < b && a <= s < b { 1real + afb(a, s) } else { ((b - a) as real) / (afb_den(a, b) as real) }
}
proof fn lemma_year_back(n: int)
    ensures n - 366 <= year_back(n) < n - 364,
        year_back(n) == dfc(year(n) - 1, month(n), if month(n) == 2 && day(n) >= 28 && leap(year(n) - 1) && (day(n) == 28 || day(n) == 29) { 29 } else if day(n) <= dim(year(n) - 1, month(n)) { day(n) } else { dim(year(n) - 1, month(n)) }),
{
    broadcast use axiom_civil;
    let (y, m, d) = (year(n), month(n), day(n));
    lemma_ydays_mono(y - 1, y);
    assert((y * 12 + (m - 1) - 12) / 12 == y - 1 && (y * 12 + (m - 1) - 12) % 12 == m - 1);
    let d2 = if d <= dim(y - 1, m) { d } else { dim(y - 1, m) };
    assert(valid(y - 1, m, d2));
    lemma_civil_unique(y - 1, m, d2);
}
proof fn lemma_back_year(n: int)
    ensures year(year_back(n)) == year(n) - 1
{
    broadcast use axiom_civil;
    let (y, m, d) = (year(n), month(n), day(n));
    lemma_year_back(n);
    let d2 = if m == 2 && d >= 28 && leap(y - 1) && (d == 28 || d == 29) { 29 } else if d <= dim(y - 1, m) { d } else { dim(y - 1, m) };
    lemma_civil_unique(y - 1, m, d2);
}
proof fn lemma_feb29(t: int, y: int)
    ensures feb29(t) && year(t) == y ==> t == dfc(y, 2, 29) && leap(y),
        leap(y) ==> feb29(dfc(y, 2, 29)) && year(dfc(y, 2, 29)) == y,
{
    broadcast use axiom_civil;
    if leap(y) { lemma_civil_unique(y, 2, 29); }
}
proof fn lemma_afb_den(a: int, e: int, y: int, z: int)
    requires a <= e, y == year(e), z == year(a), e == a || year_back(e) < a
    ensures afb_den(a, e) == (if leap(y) { if e > dfc(y, 2, 29) && a <= dfc(y, 2, 29) { 366int } else { 365 } }
        else if leap(z) { if e > dfc(z, 2, 29) && a <= dfc(z, 2, 29) { 366int } else { 365 } } else { 365 })
{
    broadcast use axiom_civil;
    lemma_order(a, e);
    lemma_year_back(e);
    if e != a { let t = year_back(e); lemma_order(t, a); lemma_back_year(e); }
    assert(y <= z + 1);
    lemma_feb29(a, y); lemma_feb29(a, z);
    assert forall|t: int| a <= t < e && #[trigger] feb29(t) implies (t == dfc(y, 2, 29) && leap(y)) || (t == dfc(z, 2, 29) && leap(z)) by {
        lemma_order(a, t); lemma_order(t, e); lemma_feb29(t, y); lemma_feb29(t, z);
    }
    if leap(y) { assert(feb29(dfc(y, 2, 29))); }
    if leap(z) { assert(feb29(dfc(z, 2, 29))); }
}
//@fn src/time/daycounters/actualactual.rs impl DayCounters for ActualActual :: day_count => impl ActualActual
//@params d1, d2
//@spec
    ensures r is Ok, r->Ok_0 == d2@ - d1@
//@end
//@fn src/time/daycounters/actualactual.rs impl ActualActual :: isda_year_fraction => impl ActualActual
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r@ == year_point(d2@) - year_point(d1@)
//@entry
    broadcast use axiom_civil;
    proof {
        lemma_ydays_mono(year(d1@), year(d1@) + 1);
        lemma_isda(year(d1@), year(d2@), d1@, d2@);
    }
//@end
proof fn lemma_isda(y1: int, y2: int, a: int, b: int)
    ensures
        (y2 - y1) as real - 1real + ((ydays(y1) + ylen(y1) + 1 - a) as real) / (ylen(y1) as real) + ((b - (ydays(y2) + 1)) as real) / (ylen(y2) as real)
        == y2 as real + ((b - (ydays(y2) + 1)) as real) / (ylen(y2) as real) - (y1 as real + ((a - (ydays(y1) + 1)) as real) / (ylen(y1) as real))
{
    let l = ylen(y1) as real;
    let x = (a - (ydays(y1) + 1)) as real;
    assert((ydays(y1) + ylen(y1) + 1 - a) as real == l - x);
    assert((l - x) / l == 1real - x / l) by(nonlinear_arith) requires l > 0real;
}
//@fn src/time/daycounters/actualactual.rs impl ActualActual :: euro_year_fraction => impl ActualActual
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000, d1@ <= d2@
    ensures r@ == afb(d1@, d2@)
//@entry
    broadcast use axiom_civil;
    proof { lemma_year_range(year(d1@)); lemma_year_range(year(d2@)); lemma_month_bounds(year(d1@), month(d1@), day(d1@)); lemma_month_bounds(year(d2@), month(d2@), day(d2@)); }
//@loop 0
    invariant d1@ <= new_d2@ <= d2@, temp@ > d1@ ==> temp@ == new_d2@,
        temp@ <= d1@ && d1@ < d2@ ==> (new_d2@ == d1@ || year_back(new_d2@) < d1@),
        -79_000_000 < d1@, d2@ < 79_000_000, -200_000 < year(d1@) < 200_000,
        sum@ + afb(d1@, new_d2@) == afb(d1@, d2@),
        temp@ <= d2@,
    decreases new_d2@ - d1@ + (if temp@ > d1@ { 1int } else { 0 })
//@loop 0 begin
    let ghost pre = new_d2@;
    proof {
        lemma_year_back(pre); lemma_year_inv(pre);
        lemma_feb29(pre, year(pre));
        broadcast use axiom_civil;
        assert(ONE_DAY.days == 1);
        assert(inr(add_months(pre, -12)));
    }
//@loop 0 after
    let ghost e = new_d2@;
    proof {
        lemma_year_back(e);
        lemma_order(d1@, e); lemma_year_inv(e);
        if d1@ == d2@ { assert(afb(d1@, d2@) == 0real / (afb_den(d1@, d2@) as real)); }
        lemma_afb_den(d1@, e, year(e), year(d1@));
        if leap(year(e)) { assert(valid(year(e), 2, 29)); }
        if leap(year(d1@)) { assert(valid(year(d1@), 2, 29)); }
    }
//@end
//@fn src/time/daycounters/actualactual.rs impl DayCounters for ActualActual :: year_fraction => impl ActualActual
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000, d1@ <= d2@ || !(self.market matches Some(ActualActualMarket::Euro))
    ensures r is Ok, match self.market {
        Some(ActualActualMarket::Euro) => r->Ok_0@ == afb(d1@, d2@),
        _ => r->Ok_0@ == year_point(d2@) - year_point(d1@),
    }
//@end
// ---- consequences
proof fn isda_adds_up(a: int, b: int, c: int)
    ensures year_point(c) - year_point(a) == (year_point(b) - year_point(a)) + (year_point(c) - year_point(b))
{ }
proof fn isda_is_monotone(a: int, b: int)
    requires a < b
    ensures year_point(a) < year_point(b)
{
    broadcast use axiom_civil;
    lemma_order(a, b);
    let (y, z) = (year(a), year(b));
    lemma_month_bounds(y, month(a), day(a)); lemma_month_bounds(z, month(b), day(b));
    let p = (a - dfc(y, 1, 1)) as real; let q = (b - dfc(z, 1, 1)) as real;
    let l = ylen(y) as real; let m = ylen(z) as real;
    assert(0real <= p < l && 0real <= q < m);
    assert(p / l < 1real) by(nonlinear_arith) requires 0real <= p < l;
    assert(q / m >= 0real) by(nonlinear_arith) requires 0real <= q < m;
    if y == z { assert(p / l < q / l) by(nonlinear_arith) requires 0real <= p < q, l > 0real; }
}
proof fn whole_calendar_year_is_one(y: int)
    ensures year_point(dfc(y + 1, 1, 1)) - year_point(dfc(y, 1, 1)) == 1real
{
    lemma_civil_unique(y, 1, 1); lemma_civil_unique(y + 1, 1, 1);
    assert(0real / (ylen(y) as real) == 0real && 0real / (ylen(y + 1) as real) == 0real);
}
proof fn vacuity_aa(a: int, b: int) requires -200_000 < year(a) < year(b) < 200_000 { broadcast use axiom_civil; assert(false); }
}
fn main() {}
