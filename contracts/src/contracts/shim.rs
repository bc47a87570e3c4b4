//! The assumed contracts of `specs/prelude/chrono.vrs`, stated against the real
//! chrono and proved by Kani for every date of 1901..2199 (and replayed).
use crate::civil::*;
use crate::src::Src;
use chrono::{Datelike, Duration, Months, NaiveDate};
use finquant::time::period::{ONE_DAY, TWO_DAYS};

pub const Y0: i32 = 1901;
pub const Y1: i32 = 2199;
pub fn num(d: NaiveDate) -> i32 {
    d.num_days_from_ce()
}

contracts! {
    SHIM shim_fields kani |s| {
        let d = s.date("date", Y0, Y1)?;
        let (y, m, dd) = (d.year() as i32, d.month() as i32, d.day() as i32);
        check!(s, 1 <= m && m <= 12 && 1 <= dd && dd <= dim(y, m), "civil date valid");
        check!(s, dfc(y, m, dd) == num(d), "day number of civil date");
        check!(s, d.ordinal() as i32 == num(d) - ydays(y), "ordinal");
        check!(s, d.weekday().num_days_from_monday() as i32 == wd(num(d)), "weekday");
        check!(s, d.leap_year() == leap(y), "leap year");
    }
    SHIM shim_from_ymd kani |s| {
        let y = s.int("year", Y0, Y1);
        let m = s.int("month", 0, 14) as u32;
        let d = s.int("day", 0, 33) as u32;
        let r = NaiveDate::from_ymd_opt(y, m, d);
        let v = 1 <= m && m <= 12 && 1 <= d && d as i32 <= dim(y as i32, m as i32);
        check!(s, r.is_some() == v, "from_ymd_opt validity");
        if let Some(x) = r {
            check!(s, x.year() == y && x.month() == m && x.day() == d, "from_ymd_opt fields");
        }
    }
    SHIM shim_step kani |s| {
        let d = s.date("date", Y0, Y1)?;
        check!(s, num(d.pred_opt().unwrap()) == num(d) - 1, "pred");
        check!(s, num(d.succ_opt().unwrap()) == num(d) + 1, "succ");
        check!(s, num(d + ONE_DAY) == num(d) + 1 && num(d - ONE_DAY) == num(d) - 1, "one day");
        check!(s, num(d + TWO_DAYS) == num(d) + 2, "two days");
    }
    SHIM shim_days kani |s| {
        let d = s.date("date", Y0, Y1)?;
        let k = s.int("days", -40000, 40000);
        let t = Duration::try_days(k as i64).unwrap();
        check!(s, t.num_days() == k as i64 && Duration::days(k as i64).num_days() == k as i64, "num_days");
        check!(s, num(d + t) == num(d) + k, "date + days");
        check!(s, num(d - t) == num(d) - k, "date - days");
    }
    SHIM shim_diff kani |s| {
        let a = s.date("a", Y0, Y1)?;
        let b = s.date("b", Y0, Y1)?;
        check!(s, (a - b).num_days() == (num(a) - num(b)) as i64, "date difference");
        check!(s, (a < b) == (num(a) < num(b)) && (a == b) == (num(a) == num(b)) && (a <= b) == (num(a) <= num(b)), "date order");
    }
    SHIM shim_months kani |s| {
        let d = s.date("date", Y0, Y1)?;
        let k = s.int("months", 0, 2400);
        let t = d.year() as i32 * 12 + d.month() as i32 - 1;
        let want = |t: i32| { let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1); dfc(y, m, (d.day() as i32).min(dim(y, m))) };
        check!(s, num(d + Months::new(k as u32)) == want(t + k), "date + months");
        check!(s, num(d - Months::new(k as u32)) == want(t - k), "date - months");
    }
    SHIM shim_iter_days run |s| {
        let d = s.date("date", Y0, Y1)?;
        let n = s.i64("n", 0, 30) as usize;
        let mut i = 0;
        for x in d.iter_days().take(n) {
            check!(s, num(x) == num(d) + i, "iter_days");
            i += 1;
        }
        check!(s, i == n as i32, "take");
    }
    SHIM shim_try_days kani |s| {
        let k = s.i64("days", i64::MIN, i64::MAX);
        match Duration::try_days(k) {
            Some(t) => check!(s, t.num_days() == k && -107_000_000_000 < k && k < 107_000_000_000, "try_days value"),
            None => check!(s, k <= -100_000_000_000 || k >= 100_000_000_000, "try_days range"),
        }
    }
}
