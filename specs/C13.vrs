use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/calendar.vrs
//@include prelude/bdb.vrs
//@include prelude/period.vrs
//@type Box<dyn Calendar> => Cal
//@call Months => Period::Months
//@item src/time/daycounters/business252.rs :: struct Business252
//@fn src/time/daycounters/business252.rs impl Business252 :: same_month => impl Business252
//@params d1, d2
//@spec
    ensures r == (year(d1@) == year(d2@) && month(d1@) == month(d2@))
//@end
pub open spec fn mindex(n: int) -> int { year(n) * 12 + month(n) }
//@fn src/time/daycounters/business252.rs impl DayCounters for Business252 :: day_count => impl Business252
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0 == bdb(self.calendar, d1@, d2@, None, None)
//@entry
    broadcast use axiom_civil;
    proof {
        lemma_year_range(year(d1@)); lemma_year_range(year(d2@));
        lemma_month_bounds(year(d1@), month(d1@), day(d1@)); lemma_month_bounds(year(d2@), month(d2@), day(d2@));
        lemma_first_next(d1@); lemma_first_next(month_first(d1@)); lemma_first(d1@);
        if d1@ <= d2@ { lemma_order(d1@, d2@); }
        assert forall|x: int, y: int| x <= y implies #[trigger] cnt(self.calendar, x, y) >= 0 && cnt(self.calendar, x, y) <= y - x by { lemma_cnt_nonneg(self.calendar, x, y); }
    }
//@loop 0
    invariant -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000, -79_000_000 < d1@ < d@, d2@ < 79_000_000,
        day(d@) == 1, mindex(d1@) < mindex(d@) <= mindex(d2@), d@ <= d2@, d1@ <= d2@,
        total == cnt(self.calendar, d1@, d@),
        forall|x: int, y: int| x <= y ==> #[trigger] cnt(self.calendar, x, y) >= 0 && cnt(self.calendar, x, y) <= y - x,
    decreases mindex(d2@) - mindex(d@)
//@loop 0 begin
    let ghost m = d@;
    proof {
        broadcast use axiom_civil;
        lemma_first_next(m); lemma_order(m, d2@); lemma_year_inv(m);
        if dfc2_next(m) > d2@ { lemma_order(d2@, dfc2_next(m) - 1); lemma_prev_of_first(m); }
        lemma_year_inv(d2@);
        lemma_order_idx(m, d2@);
        lemma_cnt_split(self.calendar, d1@, m, dfc2_next(m));
    }
//@loop 0 after
    proof {
        lemma_cnt_split(self.calendar, d1@, d@, d2@);
    }
//@end
// first day of the month after n's month
pub open spec fn dfc2_next(n: int) -> int { if month(n) == 12 { dfc(year(n) + 1, 1, 1) } else { dfc(year(n), month(n) + 1, 1) } }
proof fn lemma_first(n: int)
    ensures year(month_first(n)) == year(n), month(month_first(n)) == month(n), day(month_first(n)) == 1, month_first(n) <= n
{
    broadcast use axiom_civil;
    lemma_civil_unique(year(n), month(n), 1);
}
proof fn lemma_first_next(n: int)
    ensures day(n) == 1 ==> add_months(n, 1) == dfc2_next(n),
        mindex(dfc2_next(n)) == mindex(n) + 1, day(dfc2_next(n)) == 1, n < dfc2_next(n) <= n + 31,
        day(n) == 1 ==> year(n) == year(n) && dfc2_next(n) - n == dim(year(n), month(n)),
{
    broadcast use axiom_civil;
    let (y, m) = (year(n), month(n));
    if m == 12 { lemma_civil_unique(y + 1, 1, 1); lemma_ydays_mono(y, y + 1);
        assert((y * 12 + 11 + 1) / 12 == y + 1 && (y * 12 + 11 + 1) % 12 == 0);
    } else { lemma_civil_unique(y, m + 1, 1);
        assert((y * 12 + (m - 1) + 1) / 12 == y && (y * 12 + (m - 1) + 1) % 12 == m);
    }
}
proof fn lemma_prev_of_first(n: int)
    ensures year(dfc2_next(n) - 1) == year(n), month(dfc2_next(n) - 1) == month(n)
{
    broadcast use axiom_civil;
    lemma_month_last(n);
}
proof fn lemma_order_idx(a: int, b: int)
    requires a <= b
    ensures mindex(a) <= mindex(b), mindex(a) == mindex(b) ==> year(a) == year(b) && month(a) == month(b),
{
    broadcast use axiom_civil;
    lemma_order(a, b);
}
//@fn src/time/daycounters/business252.rs impl DayCounters for Business252 :: year_fraction => impl Business252
//@params d1, d2
//@spec
    requires -200_000 < year(d1@) < 200_000, -200_000 < year(d2@) < 200_000
    ensures r is Ok, r->Ok_0@ == (bdb(self.calendar, d1@, d2@, None, None) as real) / 252real
//@end
proof fn vacuity_b252(a: int, b: int) requires -200_000 < year(a) < year(b) < 200_000 { broadcast use axiom_civil; assert(false); }
}
fn main() {}
