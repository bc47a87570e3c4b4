//! The rule-based national calendars and the Easter tables.
use crate::civil::*;
use crate::contracts::time::*;
use crate::easter::*;
use crate::oracle as o;
use crate::src::Src;
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::*;

pub struct D { pub d: i32, pub w: i32, pub m: i32, pub y: i32, pub k: i32 }
/// name, the calendar, holiday on that day?
type Row = (&'static str, Box<dyn Calendar>, fn(&D, i32, i32) -> bool);
macro_rules! e6 { ($f:ident) => { |x, e, _| o::$f(x.d, x.w, x.m, x.y, x.k, e) } }
macro_rules! o6 { ($f:ident) => { |x, _, q| o::$f(x.d, x.w, x.m, x.y, x.k, q) } }
macro_rules! e4 { ($f:ident) => { |x, _, _| o::$f(x.d, x.w, x.m, x.y) } }
/// the day of the winter solstice in Chile (June), from Meeus's mean expression; UTC-4
/// (2021, the first year, was celebrated on the 21st)
pub fn solstice(y: i32) -> i32 {
    if y == 2021 { return 21; }
    let t = (y as f64 - 2000.0) / 1000.0;
    let jde0 = 2451716.56767 + 365241.62603 * t + 0.00325 * t * t + 0.00888 * t * t * t - 0.00030 * t * t * t * t;
    let c = (jde0 - 2451545.0) / 36525.0;
    let w = (35999.373 * c - 2.47).to_radians();
    let l = 1.0 + 0.0334 * w.cos() + 0.0007 * (2.0 * w).cos();
    const P: [(f64, f64, f64); 24] = [(485., 324.96, 1934.136), (203., 337.23, 32964.467), (199., 342.08, 20.186), (182., 27.85, 445267.112), (156., 73.14, 45036.886),
        (136., 171.52, 22518.443), (77., 222.54, 65928.934), (74., 296.72, 3034.906), (70., 243.58, 9037.513), (58., 119.81, 33718.147), (52., 297.17, 150.678),
        (50., 21.02, 2281.226), (45., 247.54, 29929.562), (44., 325.15, 31555.956), (29., 60.93, 4443.417), (18., 155.12, 67555.328), (17., 288.79, 4562.452),
        (16., 198.04, 62894.029), (14., 199.76, 31436.921), (12., 95.39, 14577.848), (12., 287.11, 31931.756), (12., 320.81, 34777.259), (9., 227.73, 1222.114), (8., 15.45, 16859.074)];
    let s: f64 = P.iter().map(|(a, b, k)| a * (b + k * c).to_radians().cos()).sum();
    let jd = jde0 + 0.00001 * s / l;
    // dynamical time is 70 s .. 7 min ahead over 2021-2199
    let u = (y as f64 - 1820.0) / 100.0;
    let dt = (if y < 2050 { 70.0 } else { -20.0 + 32.0 * u * u - 0.5628 * (2150.0 - y as f64).max(0.0) }) / 86400.0;
    let local = jd - dt - 4.0 / 24.0 + 0.5; // day boundary at integers
    (local.floor() as i64 - 1721425 - dfc(y, 6, 1) as i64 + 1) as i32
}
/// the market enums are private to the crate: built the way a user does, from configuration
fn mk(c: &str, m: &str) -> Box<dyn Calendar> {
    serde_json::from_str(&format!("{{\"type\":\"{c}\",\"market\":\"{m}\"}}")).unwrap()
}
pub fn rows() -> Vec<Row> {
    vec![
        ("Argentina", Box::new(Argentina), e6!(argentina)),
        ("Austria", Box::new(Austria::default()), e6!(austria_settlement)),
        ("Austria/Settlement", mk("Austria", "Settlement"), e6!(austria_settlement)),
        ("Austria/Exchange", mk("Austria", "Exchange"), e6!(austria_exchange)),
        ("Australia", Box::new(Australia::default()), e6!(australia_settlement)),
        ("Australia/Settlement", mk("Australia", "Settlement"), e6!(australia_settlement)),
        ("Australia/ASX", mk("Australia", "ASX"), e6!(australia_asx)),
        ("Botswana", Box::new(Botswana), e6!(botswana)),
        ("Brazil", Box::new(Brazil::default()), e6!(brazil_settlement)),
        ("Brazil/Settlement", mk("Brazil", "Settlement"), e6!(brazil_settlement)),
        ("Brazil/Exchange", mk("Brazil", "Exchange"), e6!(brazil_exchange)),
        ("Canada", Box::new(Canada::default()), e6!(canada_settlement)),
        ("Canada/Settlement", mk("Canada", "Settlement"), e6!(canada_settlement)),
        ("Canada/TSX", mk("Canada", "TSX"), e6!(canada_tsx)),
        ("Chile", Box::new(Chile), |x, e, _| o::chile(x.d, x.w, x.m, x.y, x.k, e, if x.m == 6 && x.y >= 2021 { solstice(x.y) } else { 0 })),
        ("CzechRepublic", Box::new(CzechRepublic), e6!(czech_republic)),
        ("Denmark", Box::new(Denmark), e6!(denmark)),
        ("Finland", Box::new(Finland), e6!(finland)),
        ("France/Exchange", mk("France", "Exchange"), e6!(france_exchange)),
        ("Germany", Box::new(Germany::default()), e6!(germany_frankfurt)),
        ("Germany/Settlement", mk("Germany", "Settlement"), e6!(germany_settlement)),
        ("Germany/FrankfurtStockExchange", mk("Germany", "FrankfurtStockExchange"), e6!(germany_frankfurt)),
        ("Germany/Xetra", mk("Germany", "Xetra"), e6!(germany_frankfurt)),
        ("Germany/Eurex", mk("Germany", "Eurex"), e6!(germany_eurex)),
        ("Germany/Euwax", mk("Germany", "Euwax"), e6!(germany_euwax)),
        ("Hungary", Box::new(Hungary), e6!(hungary)),
        ("Iceland", Box::new(Iceland), e6!(iceland)),
        ("Italy", Box::new(Italy::default()), e6!(italy_settlement)),
        ("Italy/Settlement", mk("Italy", "Settlement"), e6!(italy_settlement)),
        ("Italy/Exchange", mk("Italy", "Exchange"), e6!(italy_exchange)),
        ("Japan", Box::new(Japan), |x, _, _| o::japan(x.d, x.w, x.m, x.y, o::japan_vernal(x.y), o::japan_autumnal(x.y))),
        ("Mexico", Box::new(Mexico), e6!(mexico)),
        ("NewZealand", Box::new(NewZealand::default()), e6!(new_zealand_wellington)),
        ("NewZealand/Wellington", mk("NewZealand", "Wellington"), e6!(new_zealand_wellington)),
        ("NewZealand/Auckland", mk("NewZealand", "Auckland"), e6!(new_zealand_auckland)),
        ("Norway", Box::new(Norway), e6!(norway)),
        ("Poland", Box::new(Poland::default()), e6!(poland_settlement)),
        ("Poland/Settlement", mk("Poland", "Settlement"), e6!(poland_settlement)),
        ("Poland/WSE", mk("Poland", "WSE"), e6!(poland_wse)),
        ("Romania", Box::new(Romania), o6!(romania)),
        ("Russia", Box::new(Russia::default()), e4!(russia_settlement)),
        ("Russia/Settlement", mk("Russia", "Settlement"), e4!(russia_settlement)),
        ("Russia/Exchange", mk("Russia", "Exchange"), e4!(russia_exchange)),
        ("Slovakia", Box::new(Slovakia), e6!(slovakia)),
        ("SouthAfrica", Box::new(SouthAfrica), e6!(south_africa)),
        ("Sweden", Box::new(Sweden), e6!(sweden)),
        ("Switzerland", Box::new(Switzerland), e6!(switzerland)),
        ("Target", Box::new(Target), e6!(target)),
        ("Ukraine", Box::new(Ukraine), o6!(ukraine)),
        ("UnitedKingdom", Box::new(UnitedKingdom::default()), e6!(united_kingdom)),
        ("UnitedKingdom/Settlement", mk("UnitedKingdom", "Settlement"), e6!(united_kingdom)),
        ("UnitedKingdom/Exchange", mk("UnitedKingdom", "Exchange"), e6!(united_kingdom)),
        ("UnitedKingdom/Metals", mk("UnitedKingdom", "Metals"), e6!(united_kingdom)),
        ("UnitedStates", Box::new(UnitedStates::default()), e4!(us_settlement)),
        ("UnitedStates/Settlement", mk("UnitedStates", "Settlement"), e4!(us_settlement)),
        ("UnitedStates/Libor", mk("UnitedStates", "Libor"), e4!(us_libor)),
        ("UnitedStates/NYSE", mk("UnitedStates", "NYSE"), e6!(us_nyse)),
        ("UnitedStates/GovernmentBond", mk("UnitedStates", "GovernmentBond"), e6!(us_government_bond)),
        ("UnitedStates/SOFR", mk("UnitedStates", "SOFR"), e6!(us_sofr)),
        ("UnitedStates/NERC", mk("UnitedStates", "NERC"), e4!(us_nerc)),
        ("UnitedStates/FederalReserve", mk("UnitedStates", "FederalReserve"), e4!(us_federal_reserve)),
        ("WeekendsOnly", Box::new(WeekendsOnly), |x, _, _| o::wkend(x.w)),
        // the two known deviations of France's settlement calendar are a contract of their own
        ("France", Box::new(France::default()), e6!(france_settlement)),
        ("France/Settlement", mk("France", "Settlement"), e6!(france_settlement)),
    ]
}
/// the days on which France's settlement calendar is a known finding: a contract of their own
fn france_listed(x: &D, e: i32) -> bool { x.k == e + 38 || x.k == e + 49 || o::fx(x.d, x.m, 10, 5) || o::fx(x.d, x.m, 21, 5) }
fn day(y: i32, k: i32) -> D {
    let n = ydays(y) + k;
    let (_, m, d) = civil(n);
    D { d, w: wd(n), m, y, k }
}
contracts! {
    C09 calendar_year run |s| {
        let rs = rows();
        let c = s.idx("calendar (index of contracts::calendars::rows)", rs.len());
        let y = s.int("year", 1901, 2199);
        let (e, q) = (western_easter_monday(y), orthodox_easter_monday(y));
        let (name, cal, rule) = &rs[c];
        for k in 1..=365 + leap(y) as i32 {
            let x = day(y, k);
            if (*name == "France" || *name == "France/Settlement") && france_listed(&x, e) { continue; }
            let got = !cal.is_business_day(to_date(ydays(y) + k));
            let want = rule(&x, e, q);
            if got != want {
                s.note(&|| format!("{name} {:04}-{:02}-{:02}: closed {got}, by its rules {want}", x.y, x.m, x.d));
                check!(s, false, "closed exactly on weekends and on the days its holiday rules give");
                break;
            }
        }
    }
    C09 france_ascension_whit_monday run |s| {
        let y = s.int("year", 1901, 2199);
        let e = western_easter_monday(y);
        let cal = France::default();
        for k in 1..=365 + leap(y) as i32 {
            let x = day(y, k);
            let got = !cal.is_business_day(to_date(ydays(y) + k));
            let want = o::france_settlement(x.d, x.w, x.m, x.y, x.k, e);
            if got != want {
                let listed = if got { o::fx(x.d, x.m, 10, 5) || o::fx(x.d, x.m, 21, 5) } else { x.k == e + 38 || x.k == e + 49 };
                s.note(&|| format!("France/Settlement {:04}-{:02}-{:02}: closed {got}, by its rules {want}{}", x.y, x.m, x.d, if listed { " (fixed-date Ascension/Whit Monday)" } else { "" }));
                check!(s, false, "France closes on Ascension (39th day) and Whit Monday (50th day after Easter), not on fixed dates");
                if !listed { break; }
            }
        }
    }
    C10 easter_year run |s| {
        let y = s.int("year", 1901, 2199);
        let (a, b) = (Target.easter_monday(y) as i32, Target.orthodox_easter_monday(y) as i32);
        s.note(&|| format!("western {a}, by the computus {}; orthodox {b}, by the computus {}", western_easter_monday(y), orthodox_easter_monday(y)));
        check!(s, a == western_easter_monday(y), "Easter Monday is the Gregorian computus's");
        check!(s, b == orthodox_easter_monday(y), "Orthodox Easter Monday is the Julian computus's");
        check!(s, wd(ydays(y) + a) == 0 && wd(ydays(y) + b) == 0, "both fall on a Monday");
    }
}
