CAL = "src/time/calendars.rs"
SEEDS = {
    "time-modprec-january": dict(property="C01", edits=[(CAL, "if bdc == BusinessDayConvention::ModifiedPreceding && d1.month() != date.month() {", "if bdc == BusinessDayConvention::ModifiedPreceding && d1.month() < date.month() {")],
        needs="a modified-preceding adjustment of a holiday in the first days of January: the preceding business day lies in December, whose month number is larger",
        breaks="the date moves into the previous year instead of turning forward",
        demo="""
use finquant::time::calendars::{Calendar, UnitedKingdom};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
fn main() { assert_eq!(UnitedKingdom::default().adjust(d(2023, 1, 1), B::ModifiedPreceding), Some(d(2023, 1, 3))); }
"""),
    "time-halfmonth-15th": dict(property="C01", edits=[(CAL, "                && date.day() <= 15\n", "                && date.day() < 15\n")],
        needs="the half-month convention and a start date that is exactly the 15th and a holiday",
        breaks="the 15th rolls into the second half of the month",
        demo="""
use finquant::time::calendars::{Calendar, UnitedKingdom};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
fn main() { assert_eq!(UnitedKingdom::default().adjust(d(2023, 7, 15), B::HalfMonthModifiedFollowing), Some(d(2023, 7, 14))); }
"""),
    "time-advance-eom-order": dict(property="C02", edits=[(CAL, "Some(self.end_of_month(self.adjust(advance_date, bdc).unwrap()))", "self.adjust(self.end_of_month(advance_date), bdc)")],
        needs="the end-of-month option together with a convention that rolls the advanced date into the next month",
        breaks="the month end of the unadjusted month is returned",
        demo="""
use finquant::time::calendars::{Calendar, UnitedKingdom};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::period::Period;
fn main() {
    // 30 Sep 2023 is a Saturday; following gives 2 October, whose month ends on the 31st
    let r = UnitedKingdom::default().advance(d(2023, 8, 30), Period::Months(1), B::Following, Some(true)).unwrap();
    assert_eq!(r, Some(d(2023, 10, 31)));
}
"""),
    "time-advance-back-holiday": dict(property="C02", edits=[(CAL, "advance_date = (advance_date - Period::Days(1))?;\n                            while !self.is_business_day(advance_date) {", "advance_date = (advance_date - Period::Days(1))?;\n                            while self.is_weekend(advance_date) {")],
        needs="a negative number of business days across a weekday holiday",
        breaks="weekday holidays are counted as business days when going backwards",
        demo="""
use finquant::time::calendars::{Calendar, UnitedKingdom};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::period::Period;
fn main() {
    let r = UnitedKingdom::default().advance(d(2023, 12, 27), Period::Days(-1), B::Following, None).unwrap();
    assert_eq!(r, Some(d(2023, 12, 22)));
}
"""),
    "time-between-reversed-flags": dict(property="C03", edits=[(CAL, "return -self.business_days_between(to, from, include_first, include_last);", "return -self.business_days_between(to, from, include_last, include_first);")],
        needs="dates in reverse order",
        breaks="the flags of a reversed range are exchanged, so the sign rule no longer holds",
        demo="""
use finquant::time::calendars::{Calendar, UnitedKingdom};
fn main() {
    let c = UnitedKingdom::default();
    let (a, b) = (d(2023, 6, 5), d(2023, 6, 9));
    for (f, l) in [(None, None), (Some(true), Some(false)), (Some(false), Some(true)), (Some(true), None)] {
        assert_eq!(c.business_days_between(b, a, f, l), -c.business_days_between(a, b, f, l));
    }
}
"""),
    "time-eom-weekend-only": dict(property="C04", edits=[(CAL, "while self.is_holiday(last_day_of_month) {", "while self.is_weekend(last_day_of_month) {")],
        needs="a month whose last weekday is a holiday",
        breaks="the business month end is a holiday",
        demo="""
use finquant::time::calendars::{Calendar, UnitedKingdom};
fn main() { let e = UnitedKingdom::default().end_of_month(d(2021, 5, 10)); assert_eq!(e, d(2021, 5, 28)); }
"""),
    "time-sub-months-30": dict(property="C05", edits=[("src/time/period.rs", "Period::Months(num) => self - Months::new(num),", "Period::Months(num) => self - Duration::days(30 * num as i64),")],
        needs="subtracting months from a date whose previous month does not have 30 days",
        breaks="a month is thirty days",
        demo="""
use finquant::time::period::Period;
fn main() { assert_eq!((d(2023, 8, 17) - Period::Months(1)).unwrap(), d(2023, 7, 17)); }
"""),
    "time-settlement-cap-tenors": dict(property="C06", edits=[("src/time/period.rs", "        if settlement_date >= calendar.end_of_month(settlement_date) {", "        if matches!(self, Period::Months(_) | Period::Years(_))\n            && settlement_date >= calendar.end_of_month(settlement_date)\n        {")],
        needs="a week or swap tenor whose unadjusted far leg lies on or after the last business day of a month",
        breaks="week tenors roll into the next month",
        demo="""
use finquant::time::period::Period;
use finquant::time::calendars::UnitedKingdom;
fn main() {
    // spot 23 Sep 2023 (a Saturday); one week later is Saturday 30 September
    assert_eq!(Period::Weeks(1).settlement_date(d(2023, 9, 21), &UnitedKingdom::default()).unwrap(), d(2023, 9, 29));
}
"""),
    "time-near-sn-cal": dict(property="C06", edits=[("src/time/period.rs", "            Some(mut d) => {\n                while !calendar.is_business_day(d) {\n                    d += ONE_DAY;", "            Some(mut d) => {\n                while !calendar.is_business_day(d) {\n                    d += if calendar.is_weekend(d) { TWO_DAYS } else { ONE_DAY };"),
            ("src/time/period.rs", "pub const TWO_DAYS: TimeDelta = const_unwrap!(Duration::try_days(2));", "pub const TWO_DAYS: TimeDelta = const_unwrap!(Duration::try_days(2));\n")],
        needs="a near leg whose unadjusted date is a Sunday",
        breaks="a Sunday near leg skips Monday",
        demo="""
use finquant::time::period::Period;
use finquant::time::calendars::UnitedKingdom;
fn main() { assert_eq!(Period::ON.near_date(d(2023, 9, 24), &UnitedKingdom::default()).unwrap(), Some(d(2023, 9, 25))); }
"""),
    "fx-pair-israel-row": dict(property="C07", edits=[("src/derivatives/forex/basic.rs", "            Currency::ILS => Box::new(Israel::default()),\n", ""), ("src/derivatives/forex/basic.rs", "    Indonesia, Israel, Japan,", "    Indonesia, Japan,")],
        needs="the shekel pair on a date that is a holiday in Israel only",
        breaks="USDILS settles on the TARGET calendar",
        demo="""
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::time::calendars::{Calendar, Israel};
fn main() {
    let c = FXUnderlying::USDILS.calendar();
    let mut x = d(2023, 1, 1);
    while x < d(2024, 1, 1) { if !Israel::default().is_business_day(x) { assert!(!c.is_business_day(x), "{x}"); } x += Duration::days(1); }
}
"""),
    "fx-pair-chfjpy-pips": dict(property="C07", edits=[("src/derivatives/forex/basic.rs", "            | FXUnderlying::NZDJPY\n            | FXUnderlying::CHFJPY => 100f64,", "            | FXUnderlying::NZDJPY => 100f64,")],
        needs="one pair of sixty",
        breaks="forward points of a yen cross are scaled by 10000",
        demo="""
use finquant::derivatives::forex::basic::FXUnderlying;
fn main() { assert_eq!(FXUnderlying::CHFJPY.forward_points_converter(), 100.0); }
"""),
    "fx-cutoff-before-weekend": dict(property="C07", edits=[("src/derivatives/forex/basic.rs", "            while !cal.is_business_day(next) {\n                next += Duration::days(1);", "            while !cal.is_business_day(next) && next - valuation_date < Duration::days(4) {\n                next += Duration::days(1);")],
        needs="a cut-off passed before a closure of four days or more (Good Friday to Easter Monday)",
        breaks="the effective valuation date is a holiday",
        demo="""
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::time::calendars::Calendar;
fn main() {
    let r = FXUnderlying::EURGBP.effective_valuation_date(d(2023, 4, 6), NaiveTime::from_hms_opt(23, 0, 0).unwrap());
    assert_eq!(r, d(2023, 4, 11));
}
"""),
    "joint-first-two": dict(property="C08", edits=[("src/time/calendars/jointcalendar.rs", "for calendar in &self.calendars {", "for calendar in self.calendars.iter().take(2) {")],
        needs="three or more member calendars, the holiday only in a later one",
        breaks="later members are ignored",
        demo="""
use finquant::time::calendars::*;
fn main() {
    let j = JointCalendar::new(vec![Box::new(UnitedKingdom::default()), Box::new(Target), Box::new(UnitedStates::default())]);
    assert!(!j.is_business_day(d(2023, 7, 4)));
}
"""),
    "dc-isda-termination": dict(property="C11", edits=[("src/time/daycounters/thirty360.rs", "if d2 != termination_date && self.is_last_of_february(d2) {", "if d2 < termination_date && self.is_last_of_february(d2) {")],
        needs="30/360 ISDA with an end date after the termination date that is the end of February",
        breaks="the end-of-February rule is dropped for dates after termination",
        demo="""
use finquant::time::daycounters::thirty360::*;
use finquant::time::daycounters::DayCounters;
fn main() { assert_eq!(Thirty360::new(Thirty360Market::ISDA(d(2023, 1, 1))).day_count(d(2022, 8, 31), d(2023, 2, 28)).unwrap(), 180); }
"""),
    "dc-noleap-feb29": dict(property="C11", edits=[("src/time/daycounters/actual365fixed.rs", "        if d1.month() == 2 && d1.day() == 29 {", "        if d1.month() == 2 && d1.day() == 29 && d2.day() != 29 {")],
        needs="the no-leap count between a 29 February and another 29th",
        breaks="a 29 February start counts as the 1 March",
        demo="""
use finquant::time::daycounters::DayCounters;
fn main() {
    let c: Box<dyn DayCounters> = serde_json::from_str("{\\"type\\":\\"Actual365Fixed\\",\\"market\\":\\"NoLeap\\"}").unwrap();
    assert_eq!(c.day_count(d(2024, 2, 29), d(2024, 3, 29)).unwrap(), 29);
}
"""),
    "dc-afb-leap-start": dict(property="C12", edits=[("src/time/daycounters/actualactual.rs", "            } else if d1.leap_year() {\n                temp = NaiveDate::from_ymd_opt(d1.year(), 2, 29).unwrap();\n                if new_d2 > temp && d1 <= temp {", "            } else if d1.leap_year() {\n                temp = NaiveDate::from_ymd_opt(d1.year(), 2, 29).unwrap();\n                if new_d2 > temp && d1 < temp {")],
        needs="AFB fraction starting on 29 February and ending in the following common year",
        breaks="the remaining days are divided by 365",
        demo="""
use finquant::time::daycounters::actualactual::*;
use finquant::time::daycounters::DayCounters;
fn main() {
    let c = ActualActual { market: Some(ActualActualMarket::Euro) };
    let y = c.year_fraction(d(2024, 2, 29), d(2025, 2, 20)).unwrap();
    assert!((y - 357.0 / 366.0).abs() < 1e-12, "{y}");
}
"""),
    "dc-isda-leap-end": dict(property="C12", edits=[("src/time/daycounters/actualactual.rs", "let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };", "let dib2 = if d2.leap_year() && d2.ordinal() > 59 { 366f64 } else { 365f64 };")],
        needs="an ISDA fraction ending in January or February of a leap year",
        breaks="days of a leap year before 29 February are 1/365",
        demo="""
use finquant::time::daycounters::actualactual::*;
use finquant::time::daycounters::DayCounters;
fn main() {
    let c = ActualActual { market: None };
    let y = c.year_fraction(d(2023, 1, 1), d(2024, 2, 1)).unwrap();
    assert!((y - (1.0 + 31.0 / 366.0)).abs() < 1e-12, "{y}");
}
"""),
    "dc-b252-same-month": dict(property="C13", edits=[("src/time/daycounters/business252.rs", "d1.year() == d2.year() && d1.month() == d2.month()", "d1.month() == d2.month() && (d1.year() - d2.year()).abs() < 2")],
        needs="a range from one month to the same month of the next year or, through the accumulation loop, beyond",
        breaks="the accumulation stops a year early",
        demo="""
use finquant::time::daycounters::DayCounters;
use finquant::time::calendars::*;
fn main() {
    let c: Box<dyn DayCounters> = serde_json::from_str("{\\"type\\":\\"Business252\\",\\"calendar\\":{\\"type\\":\\"Target\\"}}").unwrap();
    let (a, b) = (d(2021, 3, 10), d(2024, 2, 7));
    assert_eq!(c.day_count(a, b).unwrap(), Target.business_days_between(a, b, None, None));
    let (a, b) = (d(2023, 3, 10), d(2024, 7, 7));
    assert_eq!(c.day_count(a, b).unwrap(), Target.business_days_between(a, b, None, None));
    let (a, b) = (d(2023, 3, 10), d(2024, 3, 20));
    let (x, y) = (c.day_count(a, d(2024, 1, 1)).unwrap(), c.day_count(d(2024, 1, 1), b).unwrap());
    assert_eq!(c.day_count(a, b).unwrap(), x + y);
}
"""),
    "imm-date-on-expiry": dict(property="C14", edits=[("src/time/imm.rs", "            if result < ref_date {", "            if result <= ref_date {")],
        needs="resolving a code on its own expiry date",
        breaks="the code resolves ten years later",
        demo="""
use finquant::time::imm::IMM;
fn main() { assert_eq!(IMM.date("H4".to_string(), Some(d(2024, 3, 20))), Some(d(2024, 3, 20))); }
"""),
    "imm-nth-weekday-monday": dict(property="C14", edits=[("src/time/imm.rs", "            let first = NaiveDate::from_ymd_opt(y, m, 1).unwrap().weekday();", "            let first = NaiveDate::from_ymd_opt(y.min(2100), m, 1).unwrap().weekday();")],
        needs="a date after the year 2100",
        breaks="IMM dates of the next century are computed from the wrong weekday",
        demo="""
use finquant::time::imm::IMM;
fn main() { let n = IMM.next_date(d(2101, 1, 1), true); assert_eq!((n.weekday(), n.day() >= 15 && n.day() <= 21, n.month()), (Weekday::Wed, true, 3)); }
"""),
}
