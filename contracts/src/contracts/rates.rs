//! Yield curve, curve pillars, swap schedules and values.
use crate::cals::{Biz, Scatter};
use crate::civil::*;
use crate::contracts::shim::num;
use crate::contracts::time::*;
use crate::src::Src;
use chrono::NaiveDate;
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::basic::{IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::thirty360::Thirty360;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;

const M: InterpolationMethodEnum = InterpolationMethodEnum::PiecewiseLinearContinuous;
pub fn near_eq(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
pub fn yf(a: i32, b: i32) -> f64 {
    (b - a) as f64 / 365.0
}
pub fn scatter<S: Src>(s: &mut S) -> Scatter {
    Scatter { seed: s.i64("calendar seed", 0, 1 << 40) as u64, weekends: s.bool("weekends off"), every: [0, 2, 3, 5, 9, 20][s.idx("every n-th day a holiday (0,2,3,5,9,20)", 6)] }
}
/// a rate, sometimes zero
pub fn rate<S: Src>(s: &mut S, n: &'static str, lo: f64, hi: f64) -> f64 {
    if s.int("rate 0=zero 1..=any", 0, 9) == 0 { 0.0 } else { s.f64(n, lo, hi) }
}
pub fn method<S: Src>(s: &mut S) -> InterpolationMethodEnum {
    if s.bool("step function") { InterpolationMethodEnum::StepFunctionForward } else { M }
}
/// pillars in date order, at least one visible
pub fn pillars<S: Src>(s: &mut S, v: i32, n: i32) -> Vec<StrippedCurve> {
    let mut d = v + s.int("first pillar, days after valuation", 0, 40);
    let mut out = vec![];
    for k in 0..n {
        let z = rate(s, "zero rate", -0.02, 0.15);
        let hidden = s.int("0=hidden", 0, 3) == 0 && (k + 1 < n || out.iter().any(|p: &StrippedCurve| !p.hidden_pillar));
        let source = [InterestRateQuoteEnum::OIS, InterestRateQuoteEnum::Futures, InterestRateQuoteEnum::Swap][s.idx("source 0=OIS 1=Futures 2=Swap", 3)];
        let settle = v + s.int("settles after", 0, 5);
        out.push(StrippedCurve { first_settle_date: to_date(settle), date: to_date(d), market_rate: z, zero_rate: z, discount: (-z * yf(v, d)).exp(), source, hidden_pillar: hidden });
        d += match s.int("gap 0=days 1=months 2=years", 0, 2) { 0 => s.int("days", 1, 10), 1 => s.int("days", 20, 190), _ => s.int("days", 360, 2000) };
    }
    out
}
pub fn copy(c: &StrippedCurve) -> StrippedCurve {
    *c
}
/// the zero rate the curve gives a date: flat before the first visible pillar and beyond the last one, linear in between
pub fn zero(c: &[StrippedCurve], d: i32) -> f64 {
    let t = d + 1;
    let first = c.iter().position(|p| !p.hidden_pillar).unwrap();
    match c.iter().position(|p| num(p.date) >= t && !p.hidden_pillar) {
        None => c.iter().rfind(|p| !p.hidden_pillar).unwrap().zero_rate,
        Some(k) if k == first => c[k].zero_rate,
        Some(k) => {
            let (a, b) = (c[..k].iter().rfind(|p| !p.hidden_pillar).unwrap(), &c[k]);
            let w = (t - num(a.date)) as f64 / (num(b.date) - num(a.date)) as f64;
            a.zero_rate + w * (b.zero_rate - a.zero_rate)
        }
    }
}
pub struct Curve {
    pub v: i32,
    pub c: Vec<StrippedCurve>,
}
impl Curve {
    pub fn df(&self, d: i32, bp: f64) -> f64 {
        (-(zero(&self.c, d) + bp / 1e4) * yf(self.v, d)).exp()
    }
    pub fn real(&self) -> YieldTermStructure {
        YieldTermStructure::new(Box::new(Target), Box::<Actual365Fixed>::default(), to_date(self.v), self.c.clone())
    }
    pub fn show(&self) -> String {
        self.c.iter().map(|p| format!("{}{} {:.4}%", p.date, if p.hidden_pillar { "(hidden)" } else { "" }, p.zero_rate * 100.0)).collect::<Vec<_>>().join(", ")
    }
}
pub fn curve<S: Src>(s: &mut S, v: i32) -> Curve {
    let n = s.int("pillars", 1, 6);
    let c = pillars(s, v, n);
    Curve { v, c }
}
/// a date, often next to one of the pillars
pub fn target<S: Src>(s: &mut S, c: &Curve) -> i32 {
    match s.int("date 0=near a pillar 1=short 2=long", 0, 2) {
        0 => { let k = s.idx("pillar", 6) % c.c.len(); num(c.c[k].date) + s.int("days from it", -3, 3) }
        1 => c.v + s.int("days after valuation", 0, 400),
        _ => c.v + s.int("days after valuation", 0, 12_000),
    }
}
pub fn counter<S: Src>(s: &mut S) -> (Box<dyn DayCounters>, Box<dyn DayCounters>, &'static str) {
    match s.int("day counter 0=A/360 1=A/365F 2=30/360", 0, 2) {
        0 => (Box::new(Actual360), Box::new(Actual360), "A/360"),
        1 => (Box::<Actual365Fixed>::default(), Box::<Actual365Fixed>::default(), "A/365F"),
        _ => (Box::<Thirty360>::default(), Box::<Thirty360>::default(), "30/360"),
    }
}
struct Index {
    c: Scatter,
    lag: i32,
    p: Period,
    b: finquant::time::businessdayconvention::BusinessDayConvention,
    e: bool,
    dc: Box<dyn DayCounters>,
}
impl Index {
    fn spot(&self, v: i32) -> i32 { advanced(&self.c, v, Period::Days(self.lag as i64), self.b, self.e) }
    fn end(&self, n: i32) -> i32 { advanced(&self.c, n, self.p, self.b, self.e) }
}
fn tenor<S: Src>(s: &mut S) -> Period {
    match s.int("tenor 0=D 1=W 2=M 3=Y 4=ON 5=TN", 0, 5) {
        0 => Period::Days(s.int("days", 1, 10) as i64),
        1 => Period::Weeks(s.int("weeks", 1, 8) as i64),
        2 => Period::Months(s.int("months", 1, 24) as u32),
        3 => Period::Years(s.int("years", 1, 3) as u32),
        4 => Period::ON,
        _ => Period::TN,
    }
}
fn index<S: Src>(s: &mut S) -> (Index, InterestRateIndex) {
    let c = scatter(s);
    let lag = s.int("settlement days", 0, 3);
    let p = tenor(s);
    let b = bdc(s);
    let e = s.int("end of month", 0, 3) == 0;
    let (dc, dc2, _) = counter(s);
    (Index { c, lag, p, b, e, dc }, InterestRateIndex { period: p, settlement_days: lag as i64, currency: Currency::EUR, calendar: Box::new(c), convention: b, day_counter: dc2, end_of_month: e })
}
pub fn frac(dc: &dyn DayCounters, a: i32, b: i32) -> f64 {
    dc.year_fraction(to_date(a), to_date(b)).unwrap()
}
/// third Wednesday of the month of n
fn imm_of(n: i32) -> i32 {
    let (y, m, _) = civil(n);
    let f = dfc(y, m, 1);
    f + (2 - wd(f)).rem_euclid(7) + 14
}
const LETTERS: [char; 12] = ['F', 'G', 'H', 'J', 'K', 'M', 'N', 'Q', 'U', 'V', 'X', 'Z'];
pub fn future<S: Src>(s: &mut S, v: i32) -> Option<(FuturesRate, i32, i32, f64)> {
    let (y, m, _) = civil(v);
    let k = s.int("IMM months ahead", 0, 60);
    let t = y * 12 + m - 1 + k;
    let (iy, im) = (t.div_euclid(12), t.rem_euclid(12) + 1);
    let start = imm_of(dfc(iy, im, 1));
    if !s.assume(start >= v) { return None; }
    let code = format!("{}{}", LETTERS[im as usize - 1], iy % 10);
    let c = scatter(s);
    let p = Period::Months([1, 2, 3, 6][s.idx("months of the contract (1,2,3,6)", 4)]);
    let b = bdc(s);
    let e = s.int("end of month", 0, 3) == 0;
    let (dc, dc2, _) = counter(s);
    let mat = imm_of(advanced(&c, start, p, b, e));
    if !s.assume(mat > start) { return None; }
    let value = s.f64("price", 88.0, 101.0);
    let convexity = rate(s, "convexity", -0.5, 0.5);
    let (_, idx) = index(s);
    let f = FuturesRate {
        value, imm_code: code, convexity_adjustment: convexity,
        futures_spec: InterestRateFutures { period: p, calendar: Box::new(c), convention: b, day_counter: Box::<Actual365Fixed>::default(), end_of_month: e },
        interest_rate_index: InterestRateIndex { day_counter: dc2, ..idx },
    };
    let r = (100.0 - value + convexity) / 100.0;
    let growth = 1.0 + frac(&*dc, start, mat) * r;
    Some((f, start, mat, growth))
}
/// the pillar a start date is read off
pub fn related(c: &[StrippedCurve], t: i32) -> usize {
    let n = c.len();
    if t > num(c[n - 1].date) { return n - 1; }
    match c.iter().position(|p| num(p.first_settle_date) < t && num(p.date) >= t) {
        None | Some(0) => 0,
        Some(k) => if num(c[k].date) - t <= t - num(c[k - 1].date) { k } else { k - 1 },
    }
}
// ---- swaps
fn freq<S: Src>(s: &mut S) -> (Frequency, Period) {
    match s.int("frequency", 0, 10) {
        0 => (Frequency::Annual, Period::Years(1)),
        1 => (Frequency::Semiannual, Period::Months(6)),
        2 => (Frequency::EveryFourthMonth, Period::Months(4)),
        3 => (Frequency::Quarterly, Period::Months(3)),
        4 => (Frequency::Bimonthly, Period::Months(2)),
        5 => (Frequency::Monthly, Period::Months(1)),
        6 => (Frequency::EveryFourthWeek, Period::Weeks(4)),
        7 => (Frequency::Biweekly, Period::Weeks(2)),
        8 => (Frequency::Weekly, Period::Weeks(1)),
        9 => (Frequency::Daily, Period::Days(1)),
        _ => (Frequency::NoFrequency, Period::ON),
    }
}
pub fn times(k: i32, p: Period) -> Period {
    match p {
        Period::Days(n) => Period::Days(n * k as i64),
        Period::Weeks(n) => Period::Weeks(n * k as i64),
        Period::Months(n) => Period::Months(n * k as u32),
        Period::Years(n) => Period::Years(n * k as u32),
        _ => p,
    }
}
fn size(p: Period) -> i32 {
    match p {
        Period::Days(n) | Period::Weeks(n) => n as i32,
        Period::Months(n) | Period::Years(n) => n as i32,
        _ => 1,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Row { pub s: i32, pub e: i32, pub pay: i32, pub reset: i32, pub bal: f64 }
pub struct Leg { pub rows: Vec<Row>, pub eff: i32, pub fixed: Option<f64>, pub spread: f64, pub sign: f64, pub dc: Box<dyn DayCounters> }
fn row(p: &InterestRateSchedulePeriod) -> Row {
    Row { s: num(p.accrual_start_date), e: num(p.accrual_end_date), pay: num(p.pay_date), reset: num(p.reset_date), bal: p.balance }
}
fn leg<S: Src>(s: &mut S, v: i32, gap: bool) -> Option<(Leg, InterestRateSwapLeg)> {
    let (ix, mut index) = index(s);
    index.currency = [Currency::EUR, Currency::USD, Currency::CHF][s.idx("currency", 3)];
    let c = scatter(s);
    let b = bdc(s);
    let (dc, dc2, _) = counter(s);
    let (f, fp) = freq(s);
    let tenor = match s.int("schedule tenor 0=M 1=Y 2=W 3=SPOT", 0, 3) { 0 => Period::Months(s.int("months", 1, 6) as u32), 1 => Period::Years(1), 2 => Period::Weeks(s.int("weeks", 1, 4) as i64), _ => Period::SPOT };
    let n = s.int("schedule duration", 0, 24);
    let duration = match tenor { Period::Months(_) => Period::Months(n as u32), Period::Years(_) => Period::Years(n as u32), Period::Weeks(_) => Period::Weeks(n as i64), _ => if n < 12 { Period::SPOT } else { Period::ON } };
    let pay = s.int("pay delay", -1, 3);
    let before = s.int("days before accrual", -1, 3);
    let notional = s.f64("notional", 1.0, 1e6);
    let own = s.int("own schedule 0=yes", 0, 5) == 0;
    let fixed = if s.bool("fixed") { Some(rate(s, "coupon", -0.02, 0.15)) } else { None };
    let spread = if fixed.is_none() { rate(s, "spread", -0.02, 0.05) } else { 0.0 };
    let sell = s.bool("sell");
    let eff = advanced(&c, v, Period::Days(ix.lag as i64), b, ix.e);
    let mut rows = vec![];
    let mut sched = vec![];
    let count = if own { s.int("own periods", 1, 4) } else { size(duration) / size(tenor) };
    let mut start = eff;
    for k in 1..=count {
        let r = if own {
            let st = start + s.int("gap", 0, 3);
            let end = st + s.int("days", 20, 400);
            Row { s: st, e: end, pay: end + s.int("pays later", 0, 5), reset: st - s.int("resets before", 0, 5), bal: s.f64("balance", 1.0, 1e6) }
        } else {
            let end = advanced(&c, eff, times(k, fp), b, ix.e);
            Row { s: start, e: end, pay: advanced(&c, end, Period::Days(pay as i64), b, false), reset: advanced(&c, start, Period::Days(-before as i64), b, false), bal: notional }
        };
        if own { sched.push(InterestRateSchedulePeriod::new(to_date(r.s), to_date(r.e), to_date(r.pay), to_date(r.reset), r.bal, r.bal)); }
        start = r.e;
        rows.push(r);
    }
    if gap {
        for r in &rows { if !s.assume(frac(&*dc, r.s, r.e).abs() > 1e-9) { return None; } }
    }
    let sd = ScheduleDetail::new(f, tenor, duration, dc2, Box::new(c), b, s.int("schedule settlement days (unused)", 0, 3) as i64, pay as i64, before as i64);
    let ty = match fixed { Some(coupon) => InterestRateSwapLegType::Fixed { coupon }, None => InterestRateSwapLegType::Float { spread } };
    let l = InterestRateSwapLeg::new(ty, if sell { Direction::Sell } else { Direction::Buy }, index, notional, sd, sched);
    Some((Leg { rows, eff, fixed, spread, sign: if sell { -1.0 } else { 1.0 }, dc }, l))
}
pub fn leg_value(l: &Leg, c: &Curve, bp: f64) -> f64 {
    let mut t = 0.0;
    for r in &l.rows {
        let tau = frac(&*l.dc, r.s, r.e);
        let rt = match l.fixed { Some(k) => k, None => (c.df(r.s, bp) / c.df(r.e, bp) - 1.0) / tau + l.spread };
        t += rt * tau * r.bal * c.df(r.pay, bp) * l.sign;
    }
    if let Some(r) = l.rows.last() { t += r.bal * c.df(r.pay, bp) * l.sign; }
    t
}
pub fn scale(ls: &[Leg]) -> f64 { 1.0 + ls.iter().map(|l| l.rows.iter().map(|r| r.bal).fold(0.0, f64::max)).sum::<f64>() }
fn rel(a: f64, b: f64, sc: f64) -> bool { (a - b).abs() <= 1e-9 * sc }

contracts! {
    C21 curve_zero_rate run |s| {
        let v = num(s.date("valuation date", 1960, 2080)?);
        let c = curve(s, v);
        let d = target(s, &c);
        let m = method(s);
        let (want, got) = (zero(&c.c, d), c.real().zero_rate(to_date(d), &m).unwrap());
        s.note(&|| format!("valuation {}; pillars {}; zero_rate({}) = {got}, expected {want}", to_date(v), c.show(), to_date(d)));
        check!(s, near_eq(got, want), "zero rate: flat up to the first visible pillar and beyond the last, linear in between");
    }
    C21 curve_discount run |s| {
        let v = num(s.date("valuation date", 1960, 2080)?);
        let c = curve(s, v);
        let d = target(s, &c);
        let m = method(s);
        let bp = match s.int("shift 0=none 1=any", 0, 1) { 0 => 0.0, _ => s.f64("basis points", -200.0, 200.0) };
        let y = c.real();
        let (want, got) = (c.df(d, 0.0), y.discount(to_date(d), &m).unwrap());
        s.note(&|| format!("valuation {}; pillars {}; discount({}) = {got}, expected {want}", to_date(v), c.show(), to_date(d)));
        check!(s, near_eq(got, want), "discount factor is exp(-z t) on Actual/365");
        let x = IrMarketContext::new(to_date(v), Currency::EUR, c.real(), None);
        let (gz, gd) = (x.rate(to_date(d)).unwrap(), x.discount(to_date(d)).unwrap());
        s.note(&|| format!("through the market context: zero rate {gz}, expected {}; discount factor {gd}", zero(&c.c, d)));
        check!(s, near_eq(gz, zero(&c.c, d)) && near_eq(gd, want), "the market context's rate and discount factor are its curve's");
        let (want, got) = (c.df(d, bp), y.shifted_discount(to_date(d), &m, bp).unwrap());
        s.note(&|| format!("shifted by {bp}bp: {got}, expected {want}"));
        check!(s, near_eq(got, want), "shifted discount factor is that of the curve with every zero rate moved");
    }
    C21 curve_forward run |s| {
        let v = num(s.date("valuation date", 1960, 2080)?);
        let c = curve(s, v);
        let d = target(s, &c);
        let p = period(s, 400);
        let m = method(s);
        let e = plus(d, p, 1);
        if !s.assume(e != d) { return None; }
        let f = c.real().forward_rate(to_date(d), p, &m).unwrap();
        let (a, b) = (c.df(d, 0.0), c.df(e, 0.0) * (f * yf(d, e)).exp());
        s.note(&|| format!("valuation {}; pillars {}; forward_rate({}, {p:?}) = {f}; D(start) = {a}, D(end)·exp(f τ) = {b}", to_date(v), c.show(), to_date(d)));
        check!(s, near_eq(a, b), "compounding the forward rate over the period links the two discount factors");
    }
    C22 cash_pillar run |s| {
        let v = num(s.date("valuation date", 1960, 2080)?);
        let (ix, index) = index(s);
        let r = rate(s, "quote", -0.03, 0.3);
        let o = OISRate { value: r, interest_rate_index: index };
        let (a, b) = (ix.spot(v), ix.end(ix.spot(v)));
        let (ga, gb) = (o.settle_date(to_date(v)).ok(), o.maturity_date(to_date(v)).ok());
        s.note(&|| format!("{:?} lag {} {:?} eom {} at {}: settles {ga:?}, expected {}; matures {gb:?}, expected {}", ix.p, ix.lag, ix.b, ix.e, to_date(v), to_date(a), to_date(b)));
        check!(s, ga.map(num) == Some(a), "settles on the index's spot date");
        check!(s, gb.map(num) == Some(b), "matures one index period after settlement");
        let g = 1.0 + frac(&*ix.dc, a, b) * r;
        if !s.assume(b > a && g > 0.1) { return None; }
        let (z, d) = (o.zero_rate(to_date(v)).unwrap(), o.discount(to_date(v)).unwrap());
        s.note(&|| format!("growth {g}; zero rate {z} gives {}; discount {d}", (z * yf(a, b)).exp()));
        check!(s, near_eq((z * yf(a, b)).exp(), g), "the zero rate compounds to the deposit's growth");
        check!(s, near_eq(d, (-z * yf(v, b)).exp()), "the discount factor is that zero rate over valuation to maturity");
    }
    C22 futures_pillar run |s| {
        let v = num(s.date("valuation date", 1960, 2080)?);
        let (f, a, b, g) = future(s, v)?;
        let (ga, gb) = (f.settle_date(to_date(v)).ok(), f.maturity_date(to_date(v)).ok());
        s.note(&|| format!("{} at {}: starts {ga:?}, expected {}; ends {gb:?}, expected {}", f.imm_code, to_date(v), to_date(a), to_date(b)));
        check!(s, ga.map(num) == Some(a), "starts on the code's IMM date");
        check!(s, gb.map(num) == Some(b), "ends on the IMM date of the month one contract period later");
        check!(s, near_eq(f.implied_quote(), 1.0 - (f.value - f.convexity_adjustment) / 100.0), "rate = 1 - (price - convexity)/100");
        if !s.assume(g > 0.1) { return None; }
        let n = s.int("pillars", 1, 6);
        let c = pillars(s, v, n);
        let z0 = c[related(&c, a)].zero_rate;
        let want = (-z0 * yf(v, a)).exp() / g;
        let d = f.discount(to_date(v), &c).unwrap();
        s.note(&|| format!("pillars {}; discount {d}, expected {want}", Curve { v, c: c.clone() }.show()));
        check!(s, near_eq(d, want), "discount = discount to the start at the related pillar's zero rate, over the futures growth");
        let last = num(c[c.len() - 1].date);
        if !s.assume(b != v && b != last) { return None; }
        let z = f.zero_rate(to_date(v), &c).unwrap();
        let had = c.iter().any(|p| p.source == InterestRateQuoteEnum::Futures);
        let mut chain = 1.0;
        let mut at = v;
        for p in &c { chain *= (-p.zero_rate * yf(at, num(p.date))).exp(); at = num(p.date); }
        let back = if had { (-z * yf(v, b)).exp() } else { chain * (-z * yf(last, b)).exp() };
        s.note(&|| format!("zero rate {z} ({}): gives {back}, expected {want}", if had { "a future precedes" } else { "first future" }));
        check!(s, near_eq(back, want), "the zero rate gives that discount factor back");
    }
    C30 swap_schedule run |s| {
        let v = num(s.date("valuation date", 1960, 2080)?);
        let (want, l) = leg(s, v, false)?;
        let e = l.effective_date(to_date(v)).ok().flatten();
        s.note(&|| format!("{l:?}: effective {e:?}, expected {}", to_date(want.eff)));
        check!(s, e.map(num) == Some(want.eff), "effective date: settlement days after valuation");
        let got: Option<Vec<Row>> = l.generate_schedule(to_date(v)).ok().map(|g| g.iter().map(row).collect());
        s.note(&|| format!("valuation {}; schedule {got:?}, expected {:?}", to_date(v), want.rows));
        check!(s, got.as_deref() == Some(&want.rows[..]), "the leg's own schedule, or the generated one");
    }
    C30 swap_dates run |s| {
        let v = num(s.date("valuation date", 1960, 2080)?);
        let n = 3 - s.int("3 - legs", 0, 3);
        let (mut w, mut ls) = (vec![], vec![]);
        for _ in 0..n { let (a, b) = leg(s, v, false)?; if !s.assume(!a.rows.is_empty()) { return None; } w.push(a); ls.push(b); }
        let sw = InterestRateSwap::new(ls);
        let (settle, end) = if n == 0 { (v, v) } else { (w[0].eff, w.iter().map(|l| l.rows[l.rows.len() - 1].e).max().unwrap()) };
        let (gs, ge) = (sw.settle_date(to_date(v)).ok(), sw.maturity_date(to_date(v)).ok());
        s.note(&|| format!("settles {gs:?}, expected {}; matures {ge:?}, expected {}", to_date(settle), to_date(end)));
        check!(s, gs.map(num) == Some(settle), "settles on the first leg's effective date");
        check!(s, ge.map(num) == Some(end), "matures on the latest of the legs' last accrual ends");
    }
    C31 swap_value run |s| {
        let v = num(s.date("valuation date", 1980, 2060)?);
        let c = curve(s, v);
        let n = 3 - s.int("3 - legs", 0, 3);
        let (mut w, mut ls) = (vec![], vec![]);
        for _ in 0..n { let (a, b) = leg(s, v, true)?; w.push(a); ls.push(b); }
        let currency = ls.first().map(|l| l.interest_rate_index.currency);
        let sw = InterestRateSwap::new(ls);
        let value = |bp: f64| w.iter().map(|l| leg_value(l, &c, bp)).sum::<f64>();
        let sc = scale(&w);
        let got = sw.npv(to_date(v), &mut c.real()).unwrap();
        s.note(&|| format!("valuation {}; curve {}; legs {:?}; npv {got}, expected {}", to_date(v), c.show(), w.iter().map(|l| (&l.rows, l.fixed, l.spread, l.sign)).collect::<Vec<_>>(), value(0.0)));
        check!(s, rel(got, value(0.0), sc), "npv = coupons and final notional at their discount factors, signed by direction");
        let m = IrMarketContext::new(to_date(v), Currency::EUR, c.real(), None);
        if n == 0 {
            check!(s, sw.mtm(&m).is_err(), "a swap without legs has no currency");
            return Some(());
        }
        let x = sw.mtm(&m).unwrap();
        s.note(&|| format!("mtm {x:?}"));
        check!(s, rel(x.value, value(0.0), sc) && Some(x.currency) == currency, "mtm is the npv, in the currency of the first leg's index");
        let d = sw.dv01(&m).unwrap();
        s.note(&|| format!("dv01 {d}, expected {}", value(1.0) - value(0.0)));
        check!(s, rel(d, value(1.0) - value(0.0), sc), "dv01 = value one basis point up minus value");
        let h = s.f64("gamma shift", 0.0, 100.0);
        let g = sw.gamma(&m, h, RateShiftMode::Zeros).unwrap();
        s.note(&|| format!("gamma({h}) {g}, expected {}", value(h) + value(-h) - 2.0 * value(0.0)));
        check!(s, rel(g, value(h) + value(-h) - 2.0 * value(0.0), sc), "gamma = value up plus value down minus twice the value");
        let mode = [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps][s.idx("other shift mode", 3)];
        check!(s, sw.gamma(&m, h, mode).is_err(), "other shift modes are refused");
        check!(s, sw.vega(&m, h).unwrap() == 0.0, "a swap has no vega");
        let md = sw.modified_duration(&m).unwrap();
        let (pv, dv) = (value(0.0), value(1.0) - value(0.0));
        if !s.assume(pv.abs() > 1e-4 * sc) { return None; }
        s.note(&|| format!("modified duration {md}, expected {}", -dv * 1e4 / pv));
        check!(s, (md * pv + dv * 1e4).abs() <= 1e-4 * sc, "modified duration = -dv01 * 10000 / value");
    }
}
