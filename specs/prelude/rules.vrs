// What the rule-based calendars share: the date fields, the weekend, Easter.
//@boolbits
//@include base.vrs
//@include chrono.vrs
//@table src/time/calendars.rs EASTER_MONDAY
//@table src/time/calendars.rs ORTHODOX_EASTER_MONDAY
//@oracle ../contracts/src/oracle.rs
pub struct Base;
//@fn src/time/calendars.rs trait Calendar :: naive_date_to_dkmy => impl Base
//@params date
//@spec
    ensures r.0 == day(date@), r.1 == wday(date@), r.2 == month(date@), r.3 == year(date@), r.4 == yday(date@),
//@end
//@fn src/time/calendars.rs trait Calendar :: is_weekend => impl Base
//@params date
//@spec
    ensures r == wkend(wd(date@))
//@end
//@fn src/time/calendars.rs trait Calendar :: easter_monday => impl Base
//@params year
//@spec
    requires 1901 <= year <= 2199
    ensures r == em(year as int)
//@end
//@fn src/time/calendars.rs trait Calendar :: orthodox_easter_monday => impl Base
//@params year
//@spec
    requires 1901 <= year <= 2199
    ensures r == om(year as int)
//@end
pub open spec fn yday(n: int) -> int { n - ydays(year(n)) }
pub open spec fn em(y: int) -> int { EASTER_MONDAY_spec()[y - 1901] }
pub open spec fn om(y: int) -> int { ORTHODOX_EASTER_MONDAY_spec()[y - 1901] }
// calls on `self` reach the trait's default methods above
fn call_dkmy<C>(c: &C, date: NaiveDate) -> (r: (u32, Weekday, u32, i32, u32))
    ensures r.0 == day(date@), r.1 == wday(date@), r.2 == month(date@), r.3 == year(date@), r.4 == yday(date@), 1 <= r.0 <= 31, 1 <= r.2 <= 12, 1 <= r.4 <= 366,
{
    proof { broadcast use axiom_civil; }
    Base.naive_date_to_dkmy(date)
}
fn call_weekend<C>(c: &C, date: NaiveDate) -> (r: bool) ensures r == wkend(wd(date@)) { Base.is_weekend(date) }
fn call_easter<C>(c: &C, year: i32) -> (r: u32)
    requires 1901 <= year <= 2199
    ensures r == em(year as int), 60 < r < 200
{
    proof { lemma_tables(year as int); }
    Base.easter_monday(year)
}
fn call_orthodox<C>(c: &C, year: i32) -> (r: u32)
    requires 1901 <= year <= 2199
    ensures r == om(year as int), 60 < r < 200
{
    proof { lemma_tables(year as int); }
    Base.orthodox_easter_monday(year)
}
//@call .naive_date_to_dkmy => call_dkmy
//@call .is_weekend => call_weekend
//@call .easter_monday => call_easter
//@call .orthodox_easter_monday => call_orthodox
// every entry of both tables is a plausible day of the year
pub open spec fn in_range(s: Seq<int>, i: int) -> bool
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { true } else { 60 < s[i] < 200 && in_range(s, i + 1) }
}
proof fn lemma_in_range(s: Seq<int>, i: int, k: int)
    requires in_range(s, i), 0 <= i <= k < s.len()
    ensures 60 < s[k] < 200
    decreases k - i
{
    if i < k { lemma_in_range(s, i + 1, k); }
}
proof fn lemma_tables(y: int)
    requires 1901 <= y <= 2199
    ensures 60 < em(y) < 200, 60 < om(y) < 200
{
    assert(in_range(EASTER_MONDAY_spec(), 0)) by (compute_only);
    assert(in_range(ORTHODOX_EASTER_MONDAY_spec(), 0)) by (compute_only);
    assert(EASTER_MONDAY_spec().len() == 299) by (compute_only);
    assert(ORTHODOX_EASTER_MONDAY_spec().len() == 299) by (compute_only);
    lemma_in_range(EASTER_MONDAY_spec(), 0, y - 1901);
    lemma_in_range(ORTHODOX_EASTER_MONDAY_spec(), 0, y - 1901);
}
