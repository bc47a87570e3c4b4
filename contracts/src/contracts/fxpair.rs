//! FX pair conventions.
use crate::civil::*;
use crate::contracts::shim::num;
use crate::contracts::time::*;
use crate::src::Src;
use chrono::{NaiveDate, NaiveTime};
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::time::calendars::*;
use finquant::time::period::Period;
use iso_currency::Currency;
use std::str::FromStr;

pub const PAIRS: [&str; 60] = [
    "EURGBP", "EURUSD", "EURCAD", "EURJPY", "EURCHF", "EURNOK", "EURSEK", "EURAUD", "EURNZD", "EURDKK", "EURPLN", "EURHUF", "EURCZK", "EURRON",
    "GBPUSD", "GBPCAD", "GBPJPY", "GBPAUD", "GBPNZD", "GBPCHF", "GBPNOK", "GBPSEK",
    "AUDUSD", "NZDUSD", "USDCHF", "USDNOK", "USDSEK", "USDJPY", "USDSGD", "USDHKD", "USDCNY", "USDPLN", "USDHUF", "USDCZK", "USDZAR", "USDKRW",
    "USDINR", "USDBRL", "USDDKK", "USDIDR", "USDTWD", "USDTHB", "USDILS", "USDRON",
    "USDCAD", "USDMXN", "USDTRY", "USDRUB",
    "AUDNZD", "AUDCAD", "AUDCHF", "AUDJPY", "AUDSGD", "NZDCAD", "NZDCHF", "NZDJPY", "NZDSGD", "CADJPY", "CHFJPY", "CADCHF",
];
pub fn home(c: &str) -> Box<dyn Calendar> {
    match c {
        "EUR" => Box::new(Target),
        "GBP" => Box::new(UnitedKingdom::default()),
        "USD" => Box::new(UnitedStates::default()),
        "JPY" => Box::new(Japan),
        "CAD" => Box::new(Canada::default()),
        "AUD" => Box::new(Australia::default()),
        "NZD" => Box::new(NewZealand::default()),
        "CHF" => Box::new(Switzerland),
        "NOK" => Box::new(Norway),
        "SEK" => Box::new(Sweden),
        "MXN" => Box::new(Mexico),
        "TRY" => Box::new(Turkey),
        "RUB" => Box::new(Russia::default()),
        "SGD" => Box::new(Singapore),
        "HKD" => Box::new(HongKong),
        "CNY" => Box::new(China),
        "PLN" => Box::new(Poland::default()),
        "HUF" => Box::new(Hungary),
        "CZK" => Box::new(CzechRepublic),
        "ZAR" => Box::new(SouthAfrica),
        "KRW" => Box::new(SouthKorea),
        "INR" => Box::new(India),
        "BRL" => Box::new(Brazil::default()),
        "DKK" => Box::new(Denmark),
        "IDR" => Box::new(Indonesia),
        "TWD" => Box::new(Taiwan),
        "THB" => Box::new(Thailand),
        "ILS" => Box::new(Israel::default()),
        "RON" => Box::new(Romania),
        _ => panic!("no calendar for {c}"),
    }
}
pub fn lag(p: &str) -> i32 {
    if matches!(p, "USDCAD" | "USDMXN" | "USDTRY" | "USDRUB") { 1 } else { 2 }
}
pub fn cutoff(p: &str) -> (u32, u32) {
    match p {
        "USDCAD" | "USDMXN" => (17, 0),
        "USDTRY" => (9, 0),
        "USDRUB" => (9, 30),
        _ => (22, 0),
    }
}
pub fn open(p: &str, n: i32) -> bool {
    home(&p[..3]).is_business_day(to_date(n)) && home(&p[3..]).is_business_day(to_date(n))
}
pub fn pair_next(p: &str, mut n: i32) -> i32 {
    while !open(p, n) { n += 1; }
    n
}
pub fn pair_settled(p: &str, v: i32, t: Period, lag: i32) -> i32 {
    let u = plus(match t { Period::ON => v, Period::TN => v + 1, _ => v + lag }, t, 1);
    let (y, m, _) = civil(u);
    let mut e = dfc(y, m, dim(y, m));
    while !open(p, e) { e -= 1; }
    if u >= e { e } else { pair_next(p, u) }
}

contracts! {
    C07 pair_conventions run |s| {
        let i = s.idx("pair", 60);
        let name = PAIRS[i];
        let p = FXUnderlying::from_str(name).unwrap();
        s.note(&|| format!("{name}: dom {:?} frn {:?} settles {} cutoff {} points {}", p.dom_currency(), p.frn_currency(), p.settles(), p.cutoff_utc(), p.forward_points_converter()));
        check!(s, p.to_string() == name, "name");
        check!(s, p.dom_currency() == Currency::from_code(&name[3..]).unwrap(), "domestic currency is the second code");
        check!(s, p.frn_currency() == Currency::from_code(&name[..3]).unwrap(), "foreign currency is the first code");
        check!(s, p.settles() as i32 == lag(name), "spot lag");
        let (h, m) = cutoff(name);
        check!(s, p.cutoff_utc() == NaiveTime::from_hms_opt(h, m, 0).unwrap(), "cut-off");
        check!(s, p.forward_points_converter() == if name.ends_with("JPY") { 100.0 } else { 10000.0 }, "pip scale");
    }
    C07 pair_calendar run |s| {
        let i = s.idx("pair", 60);
        let name = PAIRS[i];
        let p = FXUnderlying::from_str(name).unwrap();
        let y = s.int("year", 1995, 2045);
        let c = p.calendar();
        let mut bad = None;
        for n in dfc(y, 1, 1)..dfc(y + 1, 1, 1) {
            if c.is_business_day(to_date(n)) != open(name, n) && bad.is_none() { bad = Some(n); }
        }
        s.note(&|| format!("{name}: {:?}", bad.map(to_date)));
        check!(s, bad.is_none(), "the pair's calendar is the conjunction of its two home calendars");
    }
    C07 pair_settlement run |s| {
        let i = s.idx("pair", 60);
        let name = PAIRS[i];
        let p = FXUnderlying::from_str(name).unwrap();
        let v = s.date("valuation date", 1995, 2045)?;
        let t = period(s, 400);
        let l = lag(name);
        let want = pair_settled(name, num(v), t, l);
        let got = p.settlement_date(t, v).ok();
        s.note(&|| format!("{name}.settlement_date({t:?}, {v}) = {got:?}, expected {}", to_date(want)));
        check!(s, got.map(num) == Some(want), "settlement date on the pair's own lag and calendar");
        let wn = match t { Period::ON => Some(num(v)), Period::TN => Some(num(v) + 1), Period::SN => Some(num(v) + l), _ => None }.map(|b| pair_next(name, b));
        let gn = p.near_date(t, v).ok();
        s.note(&|| format!("near_date = {gn:?}, expected {:?}", wn.map(to_date)));
        check!(s, gn.map(|o| o.map(num)) == Some(wn), "near date on the pair's own lag and calendar");
    }
    C07 pair_cutoff run |s| {
        let i = s.idx("pair", 60);
        let name = PAIRS[i];
        let p = FXUnderlying::from_str(name).unwrap();
        let v = s.date("valuation date", 1995, 2045)?;
        let (h, m) = cutoff(name);
        let at = (h * 3600 + m * 60) as i32;
        let sec = match s.int("time 0=any 1=around the cut-off", 0, 1) { 0 => s.int("second", 0, 86399), _ => at + s.int("seconds after the cut-off", -3600, 3600) };
        let ns = s.int("nanosecond", 0, 999_999_999) as u32;
        let t = NaiveTime::from_num_seconds_from_midnight_opt(sec as u32, ns).unwrap();
        let want = if sec >= at { pair_next(name, num(v) + 1) } else { num(v) };
        let got = p.effective_valuation_date(v, t);
        s.note(&|| format!("{name}.effective_valuation_date({v}, {t}) = {got}, expected {}", to_date(want)));
        check!(s, num(got) == want, "the date itself before the cut-off, the next business day of the pair from then on");
    }
}
