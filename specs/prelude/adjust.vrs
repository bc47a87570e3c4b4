// Business-day adjustment: contract discharged against src/time/calendars.rs.
//@type &dyn Calendar => &Cal
//@item src/time/businessdayconvention.rs :: enum BusinessDayConvention => #[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub open spec fn rank(b: BusinessDayConvention) -> int {
    match b { BusinessDayConvention::ModifiedFollowing => 1, BusinessDayConvention::HalfMonthModifiedFollowing => 1, BusinessDayConvention::ModifiedPreceding => 1, _ => 0 }
}
pub open spec fn same_month(a: int, b: int) -> bool { year(a) == year(b) && month(a) == month(b) }
pub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn is_nearest(c: Cal, n: int, r: int) -> bool {
    &&& biz(c, r)
    &&& forall|k: int| abs(k - n) < abs(r - n) ==> !#[trigger] biz(c, k)
    &&& r < n ==> !biz(c, n + (n - r))
}
pub open spec fn adjusted(c: Cal, n: int, b: BusinessDayConvention, r: int) -> bool {
    match b {
        BusinessDayConvention::Unadjusted => r == n,
        BusinessDayConvention::Following => is_next(c, n, r),
        BusinessDayConvention::Preceding => is_prev(c, n, r),
        BusinessDayConvention::ModifiedFollowing =>
            exists|f: int| #[trigger] is_next(c, n, f) && (if same_month(f, n) { r == f } else { is_prev(c, n, r) }),
        BusinessDayConvention::ModifiedPreceding =>
            exists|p: int| #[trigger] is_prev(c, n, p) && (if same_month(p, n) { r == p } else { is_next(c, n, r) }),
        BusinessDayConvention::HalfMonthModifiedFollowing =>
            exists|f: int| #[trigger] is_next(c, n, f) && (if same_month(f, n) && !(day(n) <= 15 && day(f) > 15) { r == f } else { is_prev(c, n, r) }),
        BusinessDayConvention::Nearest => is_nearest(c, n, r),
    }
}
//@fn src/time/calendars.rs trait Calendar :: adjust => impl Cal
//@params date, bdc
//@spec
    requires live(*self, date@)
    ensures r is Some, adjusted(*self, date@, bdc, r->0@)
    decreases rank(bdc)
//@entry
    let ghost n = date@;
    let ghost hi = choose|k: int| n <= k <= n + 100 && #[trigger] biz(*self, k);
    let ghost lo = choose|k: int| n - 100 <= k <= n && #[trigger] biz(*self, k);
    proof {
        assert forall|f: int| n <= f <= n + 100 && month(f) == month(n) implies #[trigger] year(f) == year(n) by { lemma_same_month(n, f); }
        assert forall|f: int| n - 100 <= f <= n && month(f) == month(n) implies #[trigger] year(f) == year(n) by { lemma_same_month(f, n); }
    }
//@loop 0
    invariant n == date@, n <= d1@ <= hi <= n + 100, biz(*self, hi), inr(n - 100), inr(n + 100),
        forall|k: int| n <= k < d1@ ==> !#[trigger] biz(*self, k),
    ensures biz(*self, d1@)
    decreases hi - d1@
//@loop 0 after
    assert(is_next(*self, n, d1@));
//@loop 1
    invariant n == date@, n >= d1@ >= lo >= n - 100, biz(*self, lo), inr(n - 100), inr(n + 100),
        forall|k: int| d1@ < k <= n ==> !#[trigger] biz(*self, k),
    ensures biz(*self, d1@)
    decreases d1@ - lo
//@loop 1 after
    assert(is_prev(*self, n, d1@));
//@loop 2
    invariant n == date@, n <= d1@ <= n + 100, d2@ == n - (d1@ - n), d1@ <= hi <= n + 100, biz(*self, hi), inr(n - 200), inr(n + 200),
        forall|k: int| d2@ < k < d1@ ==> !#[trigger] biz(*self, k),
    ensures biz(*self, d1@) || biz(*self, d2@)
    decreases hi - d1@
//@end
