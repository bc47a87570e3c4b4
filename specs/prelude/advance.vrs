// Advancing a date: definitions, and the relation is a function.
//@include calendar.vrs
//@include period.vrs
//@include monthend.vrs
//@include adjust.vrs
// n moved by k business days (k > 0 forward): the k-th business day strictly after / before n
pub open spec fn is_step(c: Cal, n: int, k: int, r: int) -> bool {
    if k > 0 { r > n && biz(c, r) && cnt(c, n + 1, r + 1) == k }
    else { r < n && biz(c, r) && cnt(c, r, n) == -k }
}
pub open spec fn advanced(c: Cal, n: int, p: Period, b: BusinessDayConvention, eom: bool, r: int) -> bool {
    match p {
        Period::Days(k) => if k == 0 { adjusted(c, n, b, r) } else { is_step(c, n, k as int, r) },
        Period::Months(_) => if eom { exists|a: int| #[trigger] adjusted(c, plus(n, p, 1), b, a) && is_eom(c, a, r) } else { adjusted(c, plus(n, p, 1), b, r) },
        Period::Years(_) => if eom { exists|a: int| #[trigger] adjusted(c, plus(n, p, 1), b, a) && is_eom(c, a, r) } else { adjusted(c, plus(n, p, 1), b, r) },
        _ => adjusted(c, plus(n, p, 1), b, r),
    }
}
// the walk stays inside chrono's range
pub open spec fn room(c: Cal, n: int, p: Period) -> bool {
    &&& live_all(c)
    &&& countable(p) && addable(n, p, 1)
    &&& match p {
        Period::Days(k) => -100_000 <= k <= 100_000 && DMIN + 20_000_000 <= n <= DMAX - 20_000_000,
        _ => DMIN + 20_000_000 <= plus(n, p, 1) <= DMAX - 20_000_000,
    }
}
// advancing is a function: the relation has at most one result
pub open spec fn adv(c: Cal, n: int, p: Period, b: BusinessDayConvention, eom: bool) -> int { choose|r: int| advanced(c, n, p, b, eom, r) }
proof fn lemma_next_unique(c: Cal, n: int, r: int, q: int)
    requires is_next(c, n, r), is_next(c, n, q) ensures r == q
{ if r < q { assert(!biz(c, r)); } if q < r { assert(!biz(c, q)); } }
proof fn lemma_prev_unique(c: Cal, n: int, r: int, q: int)
    requires is_prev(c, n, r), is_prev(c, n, q) ensures r == q
{ if r < q { assert(!biz(c, q)); } if q < r { assert(!biz(c, r)); } }
proof fn lemma_adjusted_unique(c: Cal, n: int, b: BusinessDayConvention, r: int, q: int)
    requires adjusted(c, n, b, r), adjusted(c, n, b, q) ensures r == q
{
    assert forall|x: int, y: int| #[trigger] is_next(c, n, x) && #[trigger] is_next(c, n, y) implies x == y by { lemma_next_unique(c, n, x, y); }
    assert forall|x: int, y: int| #[trigger] is_prev(c, n, x) && #[trigger] is_prev(c, n, y) implies x == y by { lemma_prev_unique(c, n, x, y); }
    if b is Nearest { if abs(r - n) < abs(q - n) { assert(!biz(c, r)); } if abs(q - n) < abs(r - n) { assert(!biz(c, q)); } }
}
proof fn lemma_step_unique(c: Cal, n: int, k: int, r: int, q: int)
    requires k != 0, is_step(c, n, k, r), is_step(c, n, k, q), r < q ensures false
{
    if k > 0 {
        lemma_cnt_split(c, n + 1, r + 1, q + 1); lemma_cnt_split(c, r + 1, q, q + 1); lemma_cnt_one(c, q); lemma_cnt_nonneg(c, r + 1, q);
    } else {
        lemma_cnt_split(c, r, q, n); lemma_cnt_split(c, r, r + 1, q); lemma_cnt_one(c, r); lemma_cnt_nonneg(c, r + 1, q);
    }
}
pub proof fn lemma_advanced_unique(c: Cal, n: int, p: Period, b: BusinessDayConvention, eom: bool, r: int, q: int)
    requires advanced(c, n, p, b, eom, r), advanced(c, n, p, b, eom, q) ensures r == q
{
    if let Period::Days(k) = p {
        if k == 0 { lemma_adjusted_unique(c, n, b, r, q); }
        else { if r < q { lemma_step_unique(c, n, k as int, r, q); } if q < r { lemma_step_unique(c, n, k as int, q, r); } }
    } else if eom && (p is Months || p is Years) {
        let x = choose|a: int| #[trigger] adjusted(c, plus(n, p, 1), b, a) && is_eom(c, a, r);
        let y = choose|a: int| #[trigger] adjusted(c, plus(n, p, 1), b, a) && is_eom(c, a, q);
        lemma_adjusted_unique(c, plus(n, p, 1), b, x, y);
        lemma_prev_unique(c, month_last(x), r, q);
    } else { lemma_adjusted_unique(c, plus(n, p, 1), b, r, q); }
}
