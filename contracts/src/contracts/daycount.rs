//! Day counters and IMM dates.
use crate::cals::Mask;
use crate::civil::*;
use crate::contracts::shim::num;
use crate::contracts::time::*;
use crate::src::Src;
use chrono::{Datelike, NaiveDate, Weekday};
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual364::Actual364;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actual366::Actual366;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::business252::Business252;
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use finquant::time::daycounters::thirty365::Thirty365;
use finquant::time::imm::IMM;

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-11 * (1.0 + a.abs().max(b.abs()))
}
pub fn two_dates<S: Src>(s: &mut S) -> Option<(NaiveDate, NaiveDate)> {
    let a = s.date("d1", 1901, 2199)?;
    match s.int("second date 0=near 1=anniversary 2=any 3=month ends", 0, 3) {
        0 => Some((a, near(s, a, 800))),
        1 => {
            let k = s.int("years later", -60, 60);
            let j = s.int("and days", -2, 2);
            Some((a, to_date(add_months(num(a), 12 * k) + j)))
        }
        2 => Some((a, s.date("d2", 1901, 2199)?)),
        _ => {
            let e = |n: i32| { let (y, m, _) = civil(n); to_date(dfc(y, m, dim(y, m))) };
            let i = s.int("days before month end 1", 0, 3);
            let k = s.int("months later", -40, 40);
            let j = s.int("days before month end 2", 0, 3);
            let x = num(e(num(a))) - i;
            Some((to_date(x), to_date(num(e(add_months(num(a), k))) - j)))
        }
    }
}
fn noleap_day(n: i32) -> i64 {
    let (y, m, d) = civil(n);
    365 * y as i64 + (cum(1, m) + if m == 2 && d == 29 { 28 } else { d }) as i64
}
fn thirty(y1: i32, m1: i32, d1: i32, y2: i32, m2: i32, d2: i32) -> i64 {
    (360 * (y2 - y1) + 30 * (m2 - m1) + d2 - d1) as i64
}
fn feb_end(n: i32) -> bool {
    let (y, m, d) = civil(n);
    m == 2 && d == dim(y, 2)
}
fn cap30(d: i32) -> i32 { if d == 31 { 30 } else { d } }
/// the seven 30/360 rules
fn thirty360(k: i32, a: i32, b: i32, term: i32) -> i64 {
    let ((y1, m1, d1), (y2, m2, d2)) = (civil(a), civil(b));
    match k {
        0 => {
            let st = if feb_end(a) { 30 } else { cap30(d1) };
            let e = if feb_end(a) && feb_end(b) { 30 } else if d2 == 31 && st == 30 { 30 } else { d2 };
            thirty(y1, m1, st, y2, m2, e)
        }
        1 => thirty(y1, m1, cap30(d1), y2, m2, cap30(d2)),
        2 => thirty(y1, m1, if m1 == 2 && d1 >= 28 { 30 } else { cap30(d1) }, y2, m2, if m2 == 2 && d2 >= 28 { 30 } else { cap30(d2) }),
        3 => thirty(y1, m1, cap30(d1), y2, m2, if d2 == 31 && cap30(d1) == 30 { 30 } else { d2 }),
        4 | 5 => thirty(y1, m1, if feb_end(a) { 30 } else { cap30(d1) }, y2, m2, if b != term && feb_end(b) { 30 } else { cap30(d2) }),
        _ => if d2 == 31 && cap30(d1) == 30 { thirty(y1, m1, 30, y2, m2, 30) } else if d2 == 31 { thirty(y1, m1, d1, y2, m2 + 1, 1) } else { thirty(y1, m1, cap30(d1), y2, m2, d2) },
    }
}
fn ylen(y: i32) -> i32 { if leap(y) { 366 } else { 365 } }
/// exact difference of two year points as a fraction over 365*366
fn isda(a: i32, b: i32) -> f64 {
    let pt = |n: i32| { let (y, _, _) = civil(n); (y as i64 * 365 * 366 + (n - ydays(y) - 1) as i64 * (if leap(y) { 365 } else { 366 })) as i128 };
    (pt(b) - pt(a)) as f64 / (365.0 * 366.0)
}
fn afb(a: i32, b: i32) -> f64 {
    let back = |n: i32| {
        let t = add_months(n, -12);
        let (y, m, d) = civil(t);
        if m == 2 && d == 28 && leap(y) { t + 1 } else { t }
    };
    let mut e = b;
    let mut years = 0;
    while e > a && back(e) >= a {
        e = back(e);
        years += 1;
    }
    let has29 = (a..e).any(|n| { let (_, m, d) = civil(n); m == 2 && d == 29 });
    years as f64 + (e - a) as f64 / if has29 { 366.0 } else { 365.0 }
}
fn third_wed(y: i32, m: i32) -> i32 {
    (dfc(y, m, 15)..dfc(y, m, 22)).find(|n| wd(*n) == 2).unwrap()
}
fn is_imm(n: i32, main: bool) -> bool {
    let (y, m, _) = civil(n);
    n == third_wed(y, m) && (!main || m % 3 == 0)
}
const LETTERS: [char; 12] = ['F', 'G', 'H', 'J', 'K', 'M', 'N', 'Q', 'U', 'V', 'X', 'Z'];

contracts! {
    C11 actual_counters run |s| {
        let (a, b) = two_dates(s)?;
        let (n, m) = (num(a), num(b));
        let days = (m - n) as i64;
        let k = s.int("counter 0=A/360 1=A/364 2=A/365F 3=A/365NL 4=A/366", 0, 4);
        let (dc, want, den): (Box<dyn DayCounters>, i64, f64) = match k {
            0 => (Box::new(Actual360), days, 360.0),
            1 => (Box::new(Actual364), days, 364.0),
            2 => (if s.bool("explicit standard") { serde_json::from_str("{\"type\":\"Actual365Fixed\",\"market\":\"Standard\"}").unwrap() } else { Box::new(Actual365Fixed::default()) }, days, 365.0),
            3 => (serde_json::from_str("{\"type\":\"Actual365Fixed\",\"market\":\"NoLeap\"}").unwrap(), noleap_day(m) - noleap_day(n), 365.0),
            _ => (Box::new(Actual366), days, 366.0),
        };
        let (g, y) = (dc.day_count(a, b).ok(), dc.year_fraction(a, b).ok());
        s.note(&|| format!("{dc:?}: {a} -> {b}: day count {g:?} (expected {want}), year fraction {y:?}"));
        check!(s, g == Some(want), "day count");
        check!(s, y.is_some_and(|y| close(y, want as f64 / den)), "year fraction is the day count over the basis");
    }
    C11 thirty_counters run |s| {
        let (a, b) = two_dates(s)?;
        let k = s.int("rule 0=US 1=EU 2=Italian 3=ISMA 4=ISDA 5=German 6=NASD 7=30/365 8=default", 0, 8);
        let term = if s.bool("termination is d2") { b } else { near(s, b, 3) };
        let (n, m) = (num(a), num(b));
        let (dc, den): (Box<dyn DayCounters>, f64) = match k {
            0 => (Box::new(Thirty360::new(Thirty360Market::USA)), 360.0),
            1 => (Box::new(Thirty360::new(Thirty360Market::European)), 360.0),
            2 => (Box::new(Thirty360::new(Thirty360Market::Italian)), 360.0),
            3 => (Box::new(Thirty360::new(Thirty360Market::ISMA)), 360.0),
            4 => (Box::new(Thirty360::new(Thirty360Market::ISDA(term))), 360.0),
            5 => (Box::new(Thirty360::new(Thirty360Market::German(term))), 360.0),
            6 => (Box::new(Thirty360::new(Thirty360Market::NASD)), 360.0),
            7 => (Box::new(Thirty365), 365.0),
            _ => (Box::new(Thirty360::default()), 360.0),
        };
        let want = if k == 7 {
            let ((y1, m1, d1), (y2, m2, d2)) = (civil(n), civil(m));
            thirty(y1, m1, d1, y2, m2, d2)
        } else { thirty360(if k == 8 { 0 } else { k }, n, m, num(term)) };
        let (g, y) = (dc.day_count(a, b).ok(), dc.year_fraction(a, b).ok());
        s.note(&|| format!("{dc:?}: {a} -> {b}: day count {g:?} (expected {want}), year fraction {y:?}"));
        check!(s, g == Some(want), "30/360 day count");
        check!(s, y.is_some_and(|y| close(y, want as f64 / den)), "year fraction is the day count over the basis");
    }
    C12 actual_actual run |s| {
        let (a, b) = two_dates(s)?;
        let k = s.int("market 0=default 1=ISDA 2=Euro", 0, 2);
        let (n, m) = (num(a), num(b));
        if k == 2 && !s.assume(n <= m) { return None; }
        let dc = ActualActual { market: match k { 0 => None, 1 => Some(ActualActualMarket::Isda), _ => Some(ActualActualMarket::Euro) } };
        let want = if k == 2 { afb(n, m) } else { isda(n, m) };
        let y = dc.year_fraction(a, b).ok();
        s.note(&|| format!("{dc:?}: year_fraction({a}, {b}) = {y:?}, expected {want}"));
        check!(s, y.is_some_and(|y| close(y, want)), "year fraction");
        check!(s, dc.day_count(a, b).ok() == Some((m - n) as i64), "day count");
    }
    C13 business_252 run |s| {
        let a = s.date("d1", 1950, 2150)?;
        let b = near(s, a, 140);
        let c = mask_at(s, (num(a) + num(b)) / 2);
        let dc: Box<dyn DayCounters> = serde_json::from_str(&format!("{{\"type\":\"Business252\",\"calendar\":{{\"type\":\"Mask\",\"base\":{},\"mask\":{}}}}}", c.base, c.mask)).unwrap();
        let want = between(&c, num(a), num(b), None, None);
        let (g, y) = (dc.day_count(a, b).ok(), dc.year_fraction(a, b).ok());
        s.note(&|| format!("Business252: {a} -> {b}: {g:?}, expected {want}; year fraction {y:?}"));
        check!(s, g == Some(want), "day count is the number of business days");
        check!(s, y.is_some_and(|y| close(y, want as f64 / 252.0)), "year fraction is the count over 252");
    }
    C13 business_252_long run |s| {
        let (a, b) = two_dates(s)?;
        let c = mask_at(s, num(a) + 20);
        let dc: Box<dyn DayCounters> = serde_json::from_str(&format!("{{\"type\":\"Business252\",\"calendar\":{{\"type\":\"Mask\",\"base\":{},\"mask\":{}}}}}", c.base, c.mask)).unwrap();
        check!(s, dc.day_count(a, b).ok() == Some(between(&c, num(a), num(b), None, None)), "day count over long periods");
    }
    C14 imm_dates run |s| {
        let d = s.date("date", 1901, 2199)?;
        let main = s.bool("main cycle");
        let n = num(d);
        check!(s, IMM.is_imm_date(d, main) == is_imm(n, main), "IMM date: third Wednesday (of a quarter month in the main cycle)");
        let want = (n + 1..).find(|k| is_imm(*k, main)).unwrap();
        let got = IMM.next_date(d, main);
        s.note(&|| format!("next_date({d}, {main}) = {got}, expected {}", to_date(want)));
        check!(s, num(got) == want, "next IMM date: the first one after the date");
    }
    C14 imm_codes run |s| {
        let d = s.date("date", 1910, 2189)?;
        let n = num(d);
        let code = IMM.code(d);
        let (y, m, _) = civil(n);
        let want = if is_imm(n, false) { Some(format!("{}{}", LETTERS[m as usize - 1], y % 10)) } else { None };
        s.note(&|| format!("code({d}) = {code:?}, expected {want:?}"));
        check!(s, code == want, "code of an IMM date");
        if let Some(c) = code {
            check!(s, IMM.date(c.clone(), Some(d)) == Some(d), "an IMM date's code resolves to itself from that date");
            check!(s, IMM.is_imm_code(c, false), "a code is a code");
        }
    }
    C14 imm_code_resolution run |s| {
        let d = s.date("reference date", 1910, 2180)?;
        let l = s.idx("letter", 12);
        let k = s.int("digit", 0, 9);
        let lower = s.bool("lower case");
        let c = if lower { LETTERS[l].to_ascii_lowercase() } else { LETTERS[l] };
        let code = format!("{c}{k}");
        let (y, _, _) = civil(num(d));
        let want = (y..).filter(|y| y % 10 == k).map(|y| third_wed(y, l as i32 + 1)).find(|n| *n >= num(d)).unwrap();
        // the resolution looks only inside the decade of the reference date and the next
        let got = IMM.date(code.clone(), Some(d));
        s.note(&|| format!("date({code}, {d}) = {got:?}, expected {}", to_date(want)));
        check!(s, got.map(num) == Some(want), "first IMM date of that month and year digit on or after the reference date");
        check!(s, IMM.is_imm_code(code.clone(), false), "valid code");
        check!(s, IMM.is_imm_code(code, true) == (l % 3 == 2), "main-cycle code");
    }
    C14 imm_code_strings run |s| {
        let n = s.int("length", 0, 3);
        let pool: Vec<char> = "aAbBfFgGhHiIjJkKlLmMnNoOpPqQuUvVwWxXzZ0123456789 -é٣K".chars().collect();
        let mut t = String::new();
        for _ in 0..n { t.push(pool[s.idx("char", pool.len())]); }
        let main = s.bool("main cycle");
        let cs: Vec<char> = t.chars().collect();
        let set: Vec<char> = LETTERS.iter().enumerate().filter(|(i, _)| !main || i % 3 == 2).flat_map(|(_, c)| [*c, c.to_ascii_lowercase()]).collect();
        let want = cs.len() == 2 && set.contains(&cs[0]) && cs[1].is_ascii_digit();
        s.note(&|| format!("is_imm_code({t:?}, {main}) expected {want}"));
        check!(s, IMM.is_imm_code(t.clone(), main) == want, "exactly the month letters followed by a decimal digit");
        let all = cs.len() == 2 && LETTERS.contains(&cs[0].to_ascii_uppercase()) && cs[0].is_ascii() && cs[1].is_ascii_digit();
        check!(s, IMM.date(t, Some(to_date(738000))).is_some() == all, "a date for every code and for nothing else");
    }
}
