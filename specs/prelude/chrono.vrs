// Assumed contracts for chrono's date type (trusted base of the Verus part).
// Every clause below that speaks about dates between 1901-01-01 and 2199-12-31
// is itself discharged against the real chrono by the Kani harnesses
// `shim::*` of /verif/contracts (see DESIGN.md, "chrono shim").
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NaiveDate { pub n: i32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TimeDelta { pub days: i64 }
pub type Duration = TimeDelta;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ChronoMonths { pub k: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Weekday { Mon, Tue, Wed, Thu, Fri, Sat, Sun }

pub const ONE_DAY: TimeDelta = TimeDelta { days: 1 };
pub const TWO_DAYS: TimeDelta = TimeDelta { days: 2 };

// chrono's representable range, in days from the common era, rounded inwards
pub spec const DMIN: int = -90_000_000;
pub spec const DMAX: int = 90_000_000;

pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn dim(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } }
    else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
// days in the year before month m
pub open spec fn cum(y: int, m: int) -> int {
    let l: int = if leap(y) { 1 } else { 0 };
    if m <= 1 { 0 } else if m == 2 { 31 } else if m == 3 { 59 + l } else if m == 4 { 90 + l }
    else if m == 5 { 120 + l } else if m == 6 { 151 + l } else if m == 7 { 181 + l }
    else if m == 8 { 212 + l } else if m == 9 { 243 + l } else if m == 10 { 273 + l }
    else if m == 11 { 304 + l } else { 334 + l }
}
// days before 1 January of year y
pub open spec fn ydays(y: int) -> int { 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 }
pub open spec fn dfc(y: int, m: int, d: int) -> int { ydays(y) + cum(y, m) + d }
pub open spec fn valid(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= dim(y, m) }

pub uninterp spec fn year(n: int) -> int;
pub uninterp spec fn month(n: int) -> int;
pub uninterp spec fn day(n: int) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_civil(n: int)
    ensures #![trigger year(n)] #![trigger month(n)] #![trigger day(n)]
        valid(year(n), month(n), day(n)), dfc(year(n), month(n), day(n)) == n,
{ }
// 0 = Monday
pub open spec fn wd(n: int) -> int { (n - 1) % 7 }
pub open spec fn wday(n: int) -> Weekday {
    if wd(n) == 0 { Weekday::Mon } else if wd(n) == 1 { Weekday::Tue } else if wd(n) == 2 { Weekday::Wed }
    else if wd(n) == 3 { Weekday::Thu } else if wd(n) == 4 { Weekday::Fri } else if wd(n) == 5 { Weekday::Sat }
    else { Weekday::Sun }
}
pub open spec fn add_months(n: int, k: int) -> int {
    let t = year(n) * 12 + (month(n) - 1) + k;
    let (y, m) = (t / 12, t % 12 + 1);
    dfc(y, m, if day(n) <= dim(y, m) { day(n) } else { dim(y, m) })
}
pub open spec fn inr(n: int) -> bool { DMIN <= n <= DMAX }

impl View for NaiveDate { type V = int; open spec fn view(&self) -> int { self.n as int } }

impl NaiveDate {
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == day(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == month(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == year(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ordinal(&self) -> (r: u32) ensures r == self@ - ydays(year(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn weekday(&self) -> (r: Weekday) ensures r == wday(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn leap_year(&self) -> (r: bool) ensures r == leap(year(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>)
        requires -240000 < y < 240000
        ensures valid(y as int, m as int, d as int) ==> r is Some && r->0@ == dfc(y as int, m as int, d as int),
            !valid(y as int, m as int, d as int) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pred_opt(&self) -> (r: Option<NaiveDate>)
        ensures self@ > DMIN ==> r is Some && r->0@ == self@ - 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn succ_opt(&self) -> (r: Option<NaiveDate>)
        ensures self@ < DMAX ==> r is Some && r->0@ == self@ + 1
    { unimplemented!() }
}
impl Weekday {
    #[verifier::external_body]
    pub fn num_days_from_monday(&self) -> (r: u32)
        ensures r == (match *self { Weekday::Mon => 0int, Weekday::Tue => 1, Weekday::Wed => 2, Weekday::Thu => 3, Weekday::Fri => 4, Weekday::Sat => 5, Weekday::Sun => 6 })
    { unimplemented!() }
}
// date comparison is day-number comparison
impl core::cmp::PartialOrd<NaiveDate> for NaiveDate {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &NaiveDate) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<NaiveDate> for NaiveDate {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &NaiveDate) -> Option<core::cmp::Ordering> {
        if self.n < o.n { Some(core::cmp::Ordering::Less) } else if self.n == o.n { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl core::ops::Add<TimeDelta> for NaiveDate {
    type Output = NaiveDate;
    #[verifier::external_body]
    fn add(self, o: TimeDelta) -> (r: NaiveDate) ensures r@ == self@ + o.days { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<TimeDelta> for NaiveDate {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: TimeDelta) -> bool { inr(self@ + o.days) }
    open spec fn add_spec(self, o: TimeDelta) -> NaiveDate { self }
}
impl core::ops::Sub<TimeDelta> for NaiveDate {
    type Output = NaiveDate;
    #[verifier::external_body]
    fn sub(self, o: TimeDelta) -> (r: NaiveDate) ensures r@ == self@ - o.days { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<TimeDelta> for NaiveDate {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: TimeDelta) -> bool { inr(self@ - o.days) }
    open spec fn sub_spec(self, o: TimeDelta) -> NaiveDate { self }
}
impl core::ops::Sub<NaiveDate> for NaiveDate {
    type Output = TimeDelta;
    #[verifier::external_body]
    fn sub(self, o: NaiveDate) -> (r: TimeDelta) ensures r.days == self@ - o@ { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<NaiveDate> for NaiveDate {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: NaiveDate) -> bool { true }
    open spec fn sub_spec(self, o: NaiveDate) -> TimeDelta { TimeDelta { days: 0 } }
}
impl core::ops::Add<ChronoMonths> for NaiveDate {
    type Output = NaiveDate;
    #[verifier::external_body]
    fn add(self, o: ChronoMonths) -> (r: NaiveDate) ensures r@ == add_months(self@, o.k as int) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<ChronoMonths> for NaiveDate {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: ChronoMonths) -> bool { inr(add_months(self@, o.k as int)) && o.k <= i32::MAX }
    open spec fn add_spec(self, o: ChronoMonths) -> NaiveDate { self }
}
impl core::ops::Sub<ChronoMonths> for NaiveDate {
    type Output = NaiveDate;
    #[verifier::external_body]
    fn sub(self, o: ChronoMonths) -> (r: NaiveDate) ensures r@ == add_months(self@, -(o.k as int)) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<ChronoMonths> for NaiveDate {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: ChronoMonths) -> bool { inr(add_months(self@, -(o.k as int))) && o.k <= i32::MAX }
    open spec fn sub_spec(self, o: ChronoMonths) -> NaiveDate { self }
}
impl ChronoMonths {
    pub fn new(k: u32) -> (r: ChronoMonths) ensures r.k == k { ChronoMonths { k } }
}
impl TimeDelta {
    #[verifier::external_body]
    pub fn try_days(d: i64) -> (r: Option<TimeDelta>)
        ensures -100_000_000_000 < d < 100_000_000_000 ==> r is Some && r->0.days == d,
            d <= -107_000_000_000 || d >= 107_000_000_000 ==> r is None,
            r is Some ==> r->0.days == d,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn days(d: i64) -> (r: TimeDelta)
        requires -100_000_000_000 < d < 100_000_000_000
        ensures r.days == d,
    { unimplemented!() }
    pub fn num_days(&self) -> (r: i64) ensures r == self.days { self.days }
}
// `d.iter_days()` yields d, d+1, d+2, ...; element i
#[verifier::external_body]
pub fn nth_day(d: NaiveDate, i: usize) -> (r: NaiveDate)
    requires inr(d@ + i)
    ensures r@ == d@ + i
{ unimplemented!() }

// ---- facts about the civil calendar, proved (no axioms below this line)
proof fn lemma_div4(y: int) ensures y / 4 - (y - 1) / 4 == (if y % 4 == 0 { 1int } else { 0 }) { }
proof fn lemma_div100(y: int) ensures y / 100 - (y - 1) / 100 == (if y % 100 == 0 { 1int } else { 0 }) { }
proof fn lemma_div400(y: int) ensures y / 400 - (y - 1) / 400 == (if y % 400 == 0 { 1int } else { 0 }) { }
proof fn lemma_mods(y: int) ensures y % 100 == 0 ==> y % 4 == 0, y % 400 == 0 ==> y % 100 == 0 { }
proof fn lemma_leap_count(a4: int, a100: int, a400: int, b4: int, b100: int, b400: int, c4: bool, c100: bool, c400: bool)
    requires a4 - b4 == (if c4 { 1int } else { 0 }), a100 - b100 == (if c100 { 1int } else { 0 }), a400 - b400 == (if c400 { 1int } else { 0 }), c100 ==> c4, c400 ==> c100
    ensures (a4 - a100 + a400) - (b4 - b100 + b400) == (if c4 && (!c100 || c400) { 1int } else { 0 })
{ }
pub proof fn lemma_ydays_one(y: int)
    ensures ydays(y + 1) - ydays(y) == (if leap(y) { 366int } else { 365 })
{
    lemma_div4(y); lemma_div100(y); lemma_div400(y); lemma_mods(y);
    lemma_leap_count(y / 4, y / 100, y / 400, (y - 1) / 4, (y - 1) / 100, (y - 1) / 400, y % 4 == 0, y % 100 == 0, y % 400 == 0);
}
pub proof fn lemma_ydays_mono(y1: int, y2: int)
    requires y1 < y2
    ensures ydays(y2) - ydays(y1) >= 365 * (y2 - y1),
        y2 == y1 + 1 ==> ydays(y2) - ydays(y1) == (if leap(y1) { 366int } else { 365 }),
    decreases y2 - y1
{
    hide(ydays);
    lemma_ydays_one(y2 - 1);
    if y1 < y2 - 1 { lemma_ydays_mono(y1, y2 - 1); }
}
pub proof fn lemma_month_bounds(y: int, m: int, d: int)
    requires valid(y, m, d)
    ensures 1 <= cum(y, m) + d <= (if leap(y) { 366int } else { 365 })
{ }
// a day number determines its civil date
pub proof fn lemma_civil_unique(y: int, m: int, d: int)
    requires valid(y, m, d)
    ensures year(dfc(y, m, d)) == y, month(dfc(y, m, d)) == m, day(dfc(y, m, d)) == d
{
    broadcast use axiom_civil;
    let n = dfc(y, m, d);
    let (y2, m2, d2) = (year(n), month(n), day(n));
    lemma_month_bounds(y, m, d);
    lemma_month_bounds(y2, m2, d2);
    if y2 < y { lemma_ydays_step(y2, y); }
    if y < y2 { lemma_ydays_step(y, y2); }
    assert(y == y2);
}
pub proof fn lemma_ydays_step(y1: int, y2: int)
    requires y1 < y2
    ensures ydays(y2) >= ydays(y1) + (if leap(y1) { 366int } else { 365 })
{
    lemma_ydays_mono(y1, y1 + 1);
    if y1 + 1 < y2 { lemma_ydays_mono(y1 + 1, y2); }
}
// two dates less than 300 days apart with the same month number lie in the same month
pub proof fn lemma_same_month(a: int, b: int)
    requires a <= b <= a + 300, month(a) == month(b)
    ensures year(a) == year(b)
{
    broadcast use axiom_civil;
    if year(a) < year(b) {
        lemma_ydays_step(year(a), year(b));
        lemma_month_bounds(year(a), month(a), day(a));
        lemma_month_bounds(year(b), month(b), day(b));
    }
    if year(b) < year(a) {
        lemma_ydays_step(year(b), year(a));
        lemma_month_bounds(year(a), month(a), day(a));
        lemma_month_bounds(year(b), month(b), day(b));
    }
}
// the civil decomposition is monotone in the day number
pub proof fn lemma_order(a: int, b: int)
    requires a <= b
    ensures year(a) <= year(b), year(a) == year(b) ==> month(a) <= month(b),
        year(a) == year(b) && month(a) == month(b) ==> day(b) - day(a) == b - a,
{
    broadcast use axiom_civil;
    if year(b) < year(a) {
        lemma_ydays_step(year(b), year(a));
        lemma_month_bounds(year(a), month(a), day(a));
        lemma_month_bounds(year(b), month(b), day(b));
    }
}
pub open spec fn month_first(n: int) -> int { dfc(year(n), month(n), 1) }
pub open spec fn month_last(n: int) -> int { dfc(year(n), month(n), dim(year(n), month(n))) }

// the last day of a month is the day before the first of the next
pub proof fn lemma_month_last(n: int)
    ensures month(n) < 12 ==> month_last(n) == dfc(year(n), month(n) + 1, 1) - 1,
        month(n) == 12 ==> month_last(n) == dfc(year(n) + 1, 1, 1) - 1,
        month_last(n) >= n,
        year(month_last(n)) == year(n), month(month_last(n)) == month(n), day(month_last(n)) == dim(year(n), month(n)),
{
    broadcast use axiom_civil;
    lemma_ydays_mono(year(n), year(n) + 1);
    lemma_civil_unique(year(n), month(n), dim(year(n), month(n)));
}
pub proof fn lemma_year_range(y: int)
    requires -200_000 <= y <= 200_000
    ensures -80_000_000 < ydays(y) < 80_000_000
{ }

pub proof fn lemma_year_inv(n: int)
    requires -80_000_000 <= n <= 80_000_000
    ensures -230_000 < year(n) < 230_000, -73_000_000 < n < 73_000_000 ==> -200_000 < year(n) < 200_000
{
    broadcast use axiom_civil;
    lemma_month_bounds(year(n), month(n), day(n));
}
