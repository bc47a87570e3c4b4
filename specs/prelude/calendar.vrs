// The abstract calendar: any deterministic `is_business_day`.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Cal { x: u8 }
pub uninterp spec fn biz(c: Cal, n: int) -> bool;
pub open spec fn is_next(c: Cal, n: int, r: int) -> bool {
    n <= r && biz(c, r) && forall|k: int| n <= k < r ==> !#[trigger] biz(c, k)
}
pub open spec fn is_prev(c: Cal, n: int, r: int) -> bool {
    r <= n && biz(c, r) && forall|k: int| r < k <= n ==> !#[trigger] biz(c, k)
}
// n has business days within 100 days on either side (all the calendars' longest closure is far shorter)
pub open spec fn live(c: Cal, n: int) -> bool {
    &&& DMIN + 100_000 <= n <= DMAX - 100_000
    &&& exists|k: int| n <= k <= n + 100 && #[trigger] biz(c, k)
    &&& exists|k: int| n - 100 <= k <= n && #[trigger] biz(c, k)
}
pub open spec fn live_all(c: Cal) -> bool {
    forall|n: int| DMIN + 100_000 <= n <= DMAX - 100_000 ==> #[trigger] live(c, n)
}
// number of business days in [a, b)
pub open spec fn cnt(c: Cal, a: int, b: int) -> int
    decreases b - a
{
    if a >= b { 0 } else { cnt(c, a, b - 1) + (if biz(c, b - 1) { 1int } else { 0 }) }
}
pub proof fn lemma_cnt_split(c: Cal, a: int, m: int, b: int)
    requires a <= m <= b
    ensures cnt(c, a, b) == cnt(c, a, m) + cnt(c, m, b)
    decreases b - m
{
    if m < b { lemma_cnt_split(c, a, m, b - 1); }
}
pub proof fn lemma_cnt_none(c: Cal, a: int, b: int)
    requires forall|k: int| a <= k < b ==> !#[trigger] biz(c, k)
    ensures cnt(c, a, b) == 0
    decreases b - a
{
    if a < b { lemma_cnt_none(c, a, b - 1); }
}
pub proof fn lemma_cnt_nonneg(c: Cal, a: int, b: int)
    ensures 0 <= cnt(c, a, b) <= (if a < b { b - a } else { 0 })
    decreases b - a
{
    if a < b { lemma_cnt_nonneg(c, a, b - 1); }
}
pub proof fn lemma_cnt_one(c: Cal, a: int)
    ensures cnt(c, a, a + 1) == (if biz(c, a) { 1int } else { 0 })
{
    assert(cnt(c, a, a) == 0);
}
impl Cal {
    #[verifier::external_body]
    pub fn is_business_day(&self, date: NaiveDate) -> (r: bool) ensures r == biz(*self, date@) { unimplemented!() }
}
