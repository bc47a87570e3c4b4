use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/calendar.vrs
//@include prelude/period.vrs
//@include prelude/monthend.vrs
//@include prelude/adjust.vrs
//@include prelude/advance.vrs
//@fn src/time/calendars.rs trait Calendar :: advance => impl Cal
//@params date, period, bdc, end_of_month
//@spec
    requires room(*self, date@, period)
    ensures r is Ok, r->Ok_0 is Some, advanced(*self, date@, period, bdc, end_of_month == Some(true), r->Ok_0->0@)
//@entry
    broadcast use axiom_civil;
    let ghost n = date@;
    proof {
        assert(period is Days || live(*self, plus(n, period, 1)));
        assert forall|a: int| DMIN + 19_000_000 <= a <= DMAX - 19_000_000 implies (-200_000 < #[trigger] year(a) < 200_000 && live(*self, month_last(a))) by {
            lemma_year_inv(a); lemma_month_last(a); lemma_month_bounds(year(a), month(a), dim(year(a), month(a)));
        }
    }
    let ghost k0: int = match period { Period::Days(k) => k as int, _ => 0 };
//@loop 0
    invariant live_all(*self), n == date@, 0 <= num <= k0 <= 100_000, k0 > 0, DMIN + 20_000_000 <= n <= DMAX - 20_000_000,
        n <= advance_date@ <= n + 101 * (k0 - num), cnt(*self, n + 1, advance_date@ + 1) == k0 - num,
        k0 - num > 0 ==> biz(*self, advance_date@) && advance_date@ > n,
        ONE_DAY.days == 1,
    decreases num
//@loop 0 begin
    let ghost m = advance_date@;
    proof { assert(live(*self, m + 1)); }
    let ghost hi = choose|k: int| m + 1 <= k <= m + 1 + 100 && #[trigger] biz(*self, k);
//@loop 1
    invariant m + 1 <= advance_date@ <= hi <= m + 101, biz(*self, hi), n <= m, 0 < num <= k0 <= 100_000, n <= m <= n + 101 * (k0 - num), DMIN + 20_000_000 <= n <= DMAX - 20_000_000,
        forall|k: int| m + 1 <= k < advance_date@ ==> !#[trigger] biz(*self, k),
    decreases hi - advance_date@
//@loop 1 after
    proof {
        lemma_cnt_none(*self, m + 1, advance_date@);
        lemma_cnt_split(*self, n + 1, m + 1, advance_date@ + 1);
        lemma_cnt_split(*self, m + 1, advance_date@, advance_date@ + 1);
        lemma_cnt_one(*self, advance_date@);
    }
//@loop 2
    invariant live_all(*self), n == date@, k0 <= num <= 0, -100_000 <= k0 < 0, DMIN + 20_000_000 <= n <= DMAX - 20_000_000,
        n >= advance_date@ >= n - 101 * (num - k0), cnt(*self, advance_date@, n) == num - k0,
        num - k0 > 0 ==> biz(*self, advance_date@) && advance_date@ < n,
    decreases -num
//@loop 2 begin
    let ghost m = advance_date@;
    proof { assert(live(*self, m - 1)); }
    let ghost lo = choose|k: int| m - 1 - 100 <= k <= m - 1 && #[trigger] biz(*self, k);
//@loop 3
    invariant m - 1 >= advance_date@ >= lo >= m - 101, biz(*self, lo), n >= m, k0 <= num < 0, -100_000 <= k0, n >= m >= n - 101 * (num - k0), DMIN + 20_000_000 <= n <= DMAX - 20_000_000,
        forall|k: int| advance_date@ < k <= m - 1 ==> !#[trigger] biz(*self, k),
    decreases advance_date@ - lo
//@loop 3 after
    proof {
        lemma_cnt_none(*self, advance_date@ + 1, m);
        lemma_cnt_split(*self, advance_date@, m, n);
        lemma_cnt_split(*self, advance_date@, advance_date@ + 1, m);
        lemma_cnt_one(*self, advance_date@);
    }
//@end
// so the result is the function `adv` the financial properties use
proof fn advance_is_a_function(c: Cal, n: int, p: Period, b: BusinessDayConvention, eom: bool, r: int)
    requires advanced(c, n, p, b, eom, r) ensures r == adv(c, n, p, b, eom)
{ lemma_advanced_unique(c, n, p, b, eom, r, adv(c, n, p, b, eom)); }
// k business days forward and k back again return to a business day
proof fn forward_and_back(c: Cal, n: int, k: int, r: int, back: int)
    requires biz(c, n), k > 0, is_step(c, n, k, r), is_step(c, r, -k, back)
    ensures back == n
{
    lemma_cnt_one(c, n); lemma_cnt_one(c, r);
    lemma_cnt_split(c, n, n + 1, r + 1);
    lemma_cnt_split(c, n, r, r + 1);
    // cnt(n, r) == k as well
    if back < n { lemma_cnt_split(c, back, n, r); lemma_cnt_split(c, back, back + 1, n); lemma_cnt_one(c, back); lemma_cnt_nonneg(c, back + 1, n); }
    if n < back { lemma_cnt_split(c, n, back, r); lemma_cnt_split(c, n, n + 1, back); lemma_cnt_nonneg(c, n + 1, back); }
}
proof fn vacuity_advance(c: Cal, n: int, p: Period) requires room(c, n, p), p == Period::Days(3) { assert(false); }
}
fn main() {}
