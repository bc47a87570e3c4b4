//! Dates, calendars, periods.
use crate::cals::{Biz, Mask};
use crate::civil::*;
use crate::contracts::shim::{Y0, Y1, num};
use crate::src::Src;
use chrono::{Datelike, NaiveDate};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::*;
use finquant::time::period::Period;

/// a business-day mask around `d` that is live (some business day on either side within 20 days)
pub fn mask_around<S: Src>(s: &mut S, d: NaiveDate) -> Mask {
    let mask = s.i64("calendar mask (bit k = business day at date-32+k)", i64::MIN, i64::MAX) as u64;
    Mask { base: num(d) as i32 - 32, mask }
}
pub fn bdc<S: Src>(s: &mut S) -> B {
    match s.int("convention 0=F 1=MF 2=HMMF 3=P 4=MP 5=U 6=N", 0, 6) {
        0 => B::Following,
        1 => B::ModifiedFollowing,
        2 => B::HalfMonthModifiedFollowing,
        3 => B::Preceding,
        4 => B::ModifiedPreceding,
        5 => B::Unadjusted,
        _ => B::Nearest,
    }
}
pub fn next(c: &impl Biz, mut n: i32) -> i32 {
    while !c.biz(n) { n += 1; }
    n
}
pub fn prev(c: &impl Biz, mut n: i32) -> i32 {
    while !c.biz(n) { n -= 1; }
    n
}
pub fn civil(n: i32) -> (i32, i32, i32) {
    let d = NaiveDate::from_num_days_from_ce_opt(n as i32).unwrap();
    (d.year() as i32, d.month() as i32, d.day() as i32)
}
/// the definition of business-day adjustment
pub fn adjusted(c: &impl Biz, n: i32, b: B) -> i32 {
    let (y, m, d) = civil(n);
    let same = |k: i32| { let (y2, m2, _) = civil(k); y2 == y && m2 == m };
    match b {
        B::Unadjusted => n,
        B::Following => next(c, n),
        B::Preceding => prev(c, n),
        B::ModifiedFollowing => { let f = next(c, n); if same(f) { f } else { prev(c, n) } }
        B::ModifiedPreceding => { let p = prev(c, n); if same(p) { p } else { next(c, n) } }
        B::HalfMonthModifiedFollowing => {
            let f = next(c, n);
            if same(f) && !(d <= 15 && civil(f).2 > 15) { f } else { prev(c, n) }
        }
        B::Nearest => { let (f, p) = (next(c, n), prev(c, n)); if f - n <= n - p { f } else { p } }
    }
}
pub fn to_date(n: i32) -> NaiveDate {
    NaiveDate::from_num_days_from_ce_opt(n as i32).unwrap()
}

/// n moved by k months, day clamped to the month's length
pub fn add_months(n: i32, k: i32) -> i32 {
    let (y, m, d) = civil(n);
    let t = y * 12 + m - 1 + k;
    let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1);
    dfc(y, m, d.min(dim(y, m)))
}
/// n plus (sign = 1) or minus (sign = -1) a period
pub fn plus(n: i32, p: Period, sign: i32) -> i32 {
    match p {
        Period::ON | Period::TN | Period::SN => n + sign,
        Period::SPOT => n,
        Period::Days(k) => n + sign * k as i32,
        Period::Weeks(k) => n + sign * 7 * k as i32,
        Period::Months(k) => add_months(n, sign * k as i32),
        Period::Years(k) => add_months(n, sign * 12 * k as i32),
    }
}
pub fn period<S: Src>(s: &mut S, max_days: i32) -> Period {
    let kind = s.int("period kind 0=ON 1=TN 2=SPOT 3=SN 4=D 5=W 6=M 7=Y", 0, 7);
    match kind {
        0 => Period::ON,
        1 => Period::TN,
        2 => Period::SPOT,
        3 => Period::SN,
        4 => Period::Days(s.i64("days", -(max_days as i64), max_days as i64)),
        5 => Period::Weeks(s.i64("weeks", -104, 104)),
        6 => Period::Months(s.int("months", 0, 240) as u32),
        _ => Period::Years(s.int("years", 0, 40) as u32),
    }
}
pub fn eom(c: &impl Biz, n: i32) -> i32 {
    let (y, m, _) = civil(n);
    prev(c, dfc(y, m, dim(y, m)))
}
pub fn step(c: &impl Biz, n: i32, k: i32) -> i32 {
    let mut x = n;
    for _ in 0..k.abs() {
        x = if k > 0 { next(c, x + 1) } else { prev(c, x - 1) };
    }
    x
}
/// the definition of advancing a date
pub fn advanced(c: &impl Biz, n: i32, p: Period, b: B, e: bool) -> i32 {
    match p {
        Period::Days(0) => adjusted(c, n, b),
        Period::Days(k) => step(c, n, k as i32),
        Period::Months(_) | Period::Years(_) if e => eom(c, adjusted(c, plus(n, p, 1), b)),
        _ => adjusted(c, plus(n, p, 1), b),
    }
}
/// a mask calendar placed around day number n
pub fn mask_at<S: Src>(s: &mut S, n: i32) -> Mask {
    let mask = s.i64("calendar mask (bit k = business day at anchor-32+k)", i64::MIN, i64::MAX) as u64;
    Mask { base: n - 32, mask }
}
pub fn count(c: &impl Biz, a: i32, b: i32) -> i64 {
    (a..b).filter(|k| c.biz(*k)).count() as i64
}
pub fn opt_bool<S: Src>(s: &mut S, what: &'static str) -> Option<bool> {
    match s.int(what, 0, 2) { 0 => None, 1 => Some(false), _ => Some(true) }
}
pub fn between(c: &impl Biz, a: i32, b: i32, f: Option<bool>, l: Option<bool>) -> i64 {
    if a > b {
        return -between(c, b, a, f, l);
    }
    let lo = if f.unwrap_or(true) { a } else { a + 1 };
    let hi = if l.unwrap_or(false) { b + 1 } else { b };
    count(c, lo, hi)
}
/// a second date within `span` days of the first
pub fn near<S: Src>(s: &mut S, d: NaiveDate, span: i32) -> NaiveDate {
    let k = s.int("days later", -span, span);
    to_date(num(d) + k)
}
fn base_of(v: i32, p: Period, lag: i32) -> i32 {
    match p { Period::ON => v, Period::TN => v + 1, _ => v + lag }
}
pub fn settled(c: &impl Biz, v: i32, p: Period, lag: i32) -> i32 {
    let u = plus(base_of(v, p, lag), p, 1);
    let e = eom(c, u);
    if u >= e { e } else { next(c, u) }
}
pub fn near_leg(v: i32, p: Period, lag: i32) -> Option<i32> {
    match p { Period::ON => Some(v), Period::TN => Some(v + 1), Period::SN => Some(v + lag), _ => None }
}

contracts! {
    C01 adjust_definition run |s| {
        let d = s.date("date", Y0, Y1)?;
        let c = mask_around(s, d);
        let b = bdc(s);
        let want = adjusted(&c, num(d), b);
        let got = c.adjust(d, b);
        s.note(&|| format!("{b:?}: adjust({d}) = {got:?}, expected {}", to_date(want)));
        check!(s, got.map(num) == Some(want), "adjust returns the date its convention defines");
    }
    C01 holiday_is_not_business run |s| {
        let d = s.date("date", Y0, Y1)?;
        let c = mask_around(s, d);
        check!(s, c.is_holiday(d) == !c.is_business_day(d), "holiday iff not a business day");
    }
    C02 advance_by_business_days run |s| {
        let d = s.date("date", Y0, Y1)?;
        let k = s.int("business days", -45, 45);
        let c = mask_at(s, num(d) + k);
        let b = bdc(s);
        let want = if k == 0 { adjusted(&c, num(d), b) } else { step(&c, num(d), k) };
        let e = opt_bool(s, "end of month");
        let got = c.advance(d, Period::Days(k as i64), b, e).ok().flatten();
        s.note(&|| format!("advance({d}, {k} days, {b:?}) = {got:?}, expected {}", to_date(want)));
        check!(s, got.map(num) == Some(want), "the k-th business day after or before the date");
    }
    C02 advance_by_calendar_period run |s| {
        let d = s.date("date", Y0, Y1)?;
        let p = period(s, 0);
        let b = bdc(s);
        let e = opt_bool(s, "end of month");
        let u = plus(num(d), p, 1);
        let c = mask_at(s, u);
        let a = adjusted(&c, u, b);
        let want = if e == Some(true) && matches!(p, Period::Months(_) | Period::Years(_)) { eom(&c, a) } else { a };
        let got = c.advance(d, p, b, e).ok().flatten();
        s.note(&|| format!("advance({d}, {p:?}, {b:?}, {e:?}) = {got:?}, expected {}", to_date(want)));
        check!(s, got.map(num) == Some(want), "period added, then adjusted, then month end when asked");
    }
    C03 between_counts_business_days run |s| {
        let d = s.date("date", Y0, Y1)?;
        let t = near(s, d, 70);
        let c = mask_at(s, (num(d) + num(t)) / 2);
        let f = opt_bool(s, "include first");
        let l = opt_bool(s, "include last");
        let want = between(&c, num(d), num(t), f, l);
        let got = c.business_days_between(d, t, f, l);
        s.note(&|| format!("business_days_between({d}, {t}, {f:?}, {l:?}) = {got}, expected {want}"));
        check!(s, got == want, "the number of business days in the range");
    }
    C03 between_long_range run |s| {
        let d = s.date("date", Y0, Y1)?;
        let t = near(s, d, 5000);
        let c = mask_at(s, num(d) + 40);
        let f = opt_bool(s, "include first");
        let l = opt_bool(s, "include last");
        check!(s, c.business_days_between(d, t, f, l) == between(&c, num(d), num(t), f, l), "the number of business days in a long range");
    }
    C04 last_day_of_month_exhaustive run |s| {
        let d = s.date("date", Y0, Y1)?;
        let c = Mask { base: 0, mask: 0 };
        let (y, m, _) = civil(num(d));
        s.note(&|| format!("last_day_of_month({d}) = {:?}", c.last_day_of_month(d)));
        check!(s, num(c.last_day_of_month(d)) == dfc(y, m, dim(y, m)), "last calendar day of the month");
    }
    C04 end_of_month_business run |s| {
        let d = s.date("date", Y0, Y1)?;
        let (y, m, _) = civil(num(d));
        let c = mask_at(s, dfc(y, m, dim(y, m)) - 16);
        let want = eom(&c, num(d));
        s.note(&|| format!("end_of_month({d}) = {:?}, expected {}", c.end_of_month(d), to_date(want)));
        check!(s, num(c.end_of_month(d)) == want, "last business day of the month");
    }
    C05 date_plus_minus_period run |s| {
        let d = s.date("date", 1950, 2150)?;
        let p = period(s, 20000);
        let (a, b) = ((d + p).ok(), (d - p).ok());
        s.note(&|| format!("{d} + {p:?} = {a:?}, {d} - {p:?} = {b:?}"));
        check!(s, a.map(num) == Some(plus(num(d), p, 1)), "date plus period");
        check!(s, b.map(num) == Some(plus(num(d), p, -1)), "date minus period");
    }
    C05 period_out_of_bounds_is_an_error run |s| {
        let d = s.date("date", 1950, 2150)?;
        let k = s.i64("count", i64::MIN, i64::MAX);
        let weeks = s.bool("weeks");
        let (p, days) = if weeks { (Period::Weeks(k), k as i128 * 7) } else { (Period::Days(k), k as i128) };
        s.assume(days.abs() > 107_000_000_000 || days.abs() < 100_000);
        let want_ok = days.abs() < 100_000;
        check!(s, (d + p).is_ok() == want_ok, "date plus an unrepresentable period is an error");
        check!(s, (d - p).is_ok() == want_ok, "date minus an unrepresentable period is an error");
    }
    C05 years_out_of_bounds_is_an_error run |s| {
        let d = s.date("date", 1950, 2150)?;
        let k = s.i64("years", 357913942, u32::MAX as i64) as u32;
        check!(s, (d + Period::Years(k)).is_err(), "date plus unrepresentable years is an error");
        check!(s, (d - Period::Years(k)).is_err(), "date minus unrepresentable years is an error");
    }
    C05 integer_times_period run |s| {
        let k = s.int("factor", 0, 1000) as u32;
        let p = period(s, 1000);
        let want = match p {
            Period::Days(n) => Period::Days(n * k as i64),
            Period::Weeks(n) => Period::Weeks(n * k as i64),
            Period::Months(n) => Period::Months(n * k),
            Period::Years(n) => Period::Years(n * k),
            x => x,
        };
        s.note(&|| format!("{k} * {p:?} = {:?}", k * p));
        check!(s, k * p == want, "a period scaled by a count");
    }
    C06 settlement_date_rule run |s| {
        let v = s.date("valuation date", 1950, 2150)?;
        let p = period(s, 400);
        let u = plus(base_of(num(v), p, 2), p, 1);
        let c = mask_at(s, u);
        let want = settled(&c, num(v), p, 2);
        let got = p.settlement_date(v, &c).ok();
        s.note(&|| format!("{p:?}.settlement_date({v}) = {got:?}, expected {}", to_date(want)));
        check!(s, got.map(num) == Some(want), "far leg: base date plus tenor, month-end capped, rolled forward");
    }
    C06 near_date_rule run |s| {
        let v = s.date("valuation date", 1950, 2150)?;
        let p = period(s, 400);
        let c = mask_at(s, num(v) + 20);
        let want = near_leg(num(v), p, 2).map(|b| next(&c, b));
        let got = p.near_date(v, &c).ok();
        s.note(&|| format!("{p:?}.near_date({v}) = {got:?}, expected {:?}", want.map(to_date)));
        check!(s, got.map(|o| o.map(num)) == Some(want), "near leg of ON/TN/SN, none for the rest");
    }
    C08 joint_is_the_conjunction run |s| {
        let d = s.date("date", Y0, Y1)?;
        let n = s.idx("members", 6);
        let mut v: Vec<Box<dyn Calendar>> = vec![];
        let mut want = true;
        for _ in 0..n {
            let open = s.bool("open");
            want = want && open;
            v.push(Box::new(Mask { base: num(d), mask: if open { !0 } else { !1 } }));
        }
        let j = JointCalendar::new(v);
        check!(s, j.is_business_day(d) == want, "open exactly when every member is open");
        check!(s, j.is_holiday(d) == !want, "closed when some member is closed");
    }
}
