//! FX forward points, forwards and options.
use crate::civil::*;
use crate::contracts::fxpair::{PAIRS, lag, pair_settled};
use crate::contracts::rates::*;
use crate::contracts::shim::num;
use crate::contracts::time::*;
use crate::normal::{cdf, pdf};
use crate::src::Src;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{FXDerivatives, FXUnderlying};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType, black_scholes};
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::{StrippedCurve, YieldTermMarketData};
use finquant::time::businessdayconvention::BusinessDayConvention;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::time::period::Period;
use iso_currency::Currency;
use std::str::FromStr;

pub fn fx_tenor<S: Src>(s: &mut S) -> Period {
    match s.int("tenor 0=ON 1=TN 2=SPOT 3=SN 4=D 5=W 6=M 7=Y", 0, 7) {
        0 => Period::ON,
        1 => Period::TN,
        2 => Period::SPOT,
        3 => Period::SN,
        4 => Period::Days(s.int("days", 0, 40) as i64),
        5 => Period::Weeks(s.int("weeks", 1, 8) as i64),
        6 => Period::Months(s.int("months", 1, 24) as u32),
        _ => Period::Years(s.int("years", 1, 10) as u32),
    }
}
pub struct Quotes { pub v: i32, pub q: Vec<(Period, f64)> }
impl Quotes {
    pub fn real(&self) -> Vec<FXForwardQuote> { self.q.iter().map(|&(tenor, value)| FXForwardQuote { tenor, value }).collect() }
    /// the points for day t may be any of these (several quotes can share a settlement date)
    pub fn points(&self, settle: &dyn Fn(Period) -> i32, t: i32) -> Vec<f64> {
        if t <= self.v || self.q.len() < 2 { return vec![]; }
        let d: Vec<(i32, f64)> = self.q.iter().map(|&(p, x)| (settle(p), x)).collect();
        let on: Vec<f64> = d.iter().filter(|q| q.0 == t).map(|q| q.1).collect();
        if !on.is_empty() { return on; }
        let (Some(a), Some(b)) = (d.iter().map(|q| q.0).filter(|&x| x < t).max(), d.iter().map(|q| q.0).filter(|&x| x > t).min()) else { return vec![] };
        let mut out = vec![];
        for x in d.iter().filter(|q| q.0 == a) { for y in d.iter().filter(|q| q.0 == b) {
            out.push(x.1 + (y.1 - x.1) * (t - a) as f64 / (b - a) as f64);
        } }
        out
    }
}
pub fn quotes<S: Src>(s: &mut S, v: i32) -> Quotes {
    let n = 7 - s.int("7 - quotes", 0, 7);
    let mut q = vec![];
    for _ in 0..n { q.push((fx_tenor(s), rate(s, "points", -300.0, 300.0))); }
    Quotes { v, q }
}
pub fn fx_target<S: Src>(s: &mut S, q: &Quotes, settle: &dyn Fn(Period) -> i32) -> i32 {
    match s.int("target 0=near a settlement date 1=near valuation 2=any", 0, 2) {
        0 if !q.q.is_empty() => settle(q.q[s.idx("quote", 7) % q.q.len()].0) + s.int("days from it", -3, 3),
        2 => q.v + s.int("days", 0, 4000),
        _ => q.v + s.int("days", -2, 40),
    }
}
fn agrees(got: Option<f64>, want: &[f64]) -> bool {
    match got { None => want.is_empty(), Some(x) => want.iter().any(|w| near_eq(x, *w)) }
}
/// a pair, its market and an expiry with the forwards it may see
pub struct Market { pub name: &'static str, pub c: Curve, pub q: Quotes, pub spot: f64, pub at: i32, pub fwd: Vec<f64> }
impl Market {
    pub fn pair(&self) -> FXUnderlying { FXUnderlying::from_str(self.name).unwrap() }
    pub fn dom(&self) -> Currency { Currency::from_code(&self.name[3..]).unwrap() }
    pub fn frn(&self) -> Currency { Currency::from_code(&self.name[..3]).unwrap() }
    pub fn real(&self) -> FxMarketContext {
        let v = to_date(self.c.v);
        let foreign = Curve { v: self.c.v, c: vec![StrippedCurve { zero_rate: 0.4242, hidden_pillar: false, ..copy(&self.c.c[0]) }] };
        FxMarketContext::for_linear(v, self.spot, (self.dom(), self.frn()), self.c.real(), foreign.real(), self.pair().forward_helper(v, self.spot, self.q.real())).unwrap()
    }
    pub fn show(&self) -> String { format!("{} spot {} valuation {}; curve {}; quotes {:?}; expiry {}", self.name, self.spot, to_date(self.c.v), self.c.show(), self.q.q, to_date(self.at)) }
}
pub fn market<S: Src>(s: &mut S) -> Option<Market> {
    let i = s.idx("pair (44..=47 settle T+1)", 60);
    let name = PAIRS[match s.int("0=any 1=T+1 2=yen", 0, 2) { 0 => i, 1 => 44 + i % 4, _ => [3, 27, 51, 55, 57, 58][i % 6] }];
    let v = num(s.date("valuation date", 1995, 2045)?);
    let c = curve(s, v);
    let q = quotes(s, v);
    let settle = |t: Period| pair_settled(name, v, t, lag(name));
    let at = fx_target(s, &q, &settle);
    let spot = s.f64("spot", 1.0, 160.0);
    let pip = if name.ends_with("JPY") { 100.0 } else { 1e4 };
    let fwd = q.points(&settle, at).iter().map(|p| spot + p / pip).collect();
    Some(Market { name, c, q, spot, at, fwd })
}
fn info(m: &Market, sell: bool, style: Style) -> BasicInfo {
    BasicInfo { trade_date: to_date(m.c.v), style, direction: if sell { Direction::Sell } else { Direction::Buy }, expiry_date: to_date(m.at), delivery_date: to_date(m.at + 2) }
}
fn close(a: f64, b: f64, sc: f64) -> bool { (a - b).abs() <= 1e-8 * sc.abs() || (a.is_nan() && b.is_nan()) }
/// Black-Scholes on a forward; om is 1 for a call and -1 for a put
fn bs(f: f64, k: f64, v: f64, df: f64, om: f64) -> f64 {
    if v <= 0.0 { return df * (om * (f - k)).max(0.0); }
    let d1 = ((f / k).ln() + 0.5 * v) / v.sqrt();
    df * (om * f * cdf(om * d1) - om * k * cdf(om * (d1 - v.sqrt())))
}

contracts! {
    C32 fx_forward run |s| {
        let m = market(s)?;
        let sell = s.bool("sell");
        let foreign = s.bool("foreign notional");
        let n = s.f64("notional", 1.0, 1e7);
        let k = s.f64("strike", 0.5, 170.0);
        let t = FXForward { basic_info: info(&m, sell, Style::FXForward), asset: m.pair(), notional_currency: if foreign { m.frn() } else { m.dom() }, notional_amounts: n, strike: k };
        let x = m.real();
        let units = (if foreign { n } else { -n / k }) * if sell { -1.0 } else { 1.0 };
        let df = m.c.df(m.at, 0.0);
        let want: Vec<f64> = m.fwd.iter().map(|f| units * (f - k) * df).collect();
        let got = t.mtm(&x);
        s.note(&|| format!("{}; {} {n} {} at {k}: mtm {got:?}, expected {want:?}", m.show(), if sell { "sell" } else { "buy" }, t.notional_currency.code()));
        match got {
            Err(_) => check!(s, want.is_empty(), "an error only outside the quoted forwards"),
            Ok(g) => {
                check!(s, want.iter().any(|w| close(g.value, *w, units * (m.spot + k))), "mtm = foreign units x (outright forward - strike) x discount factor at expiry");
                check!(s, g.currency == m.dom(), "mtm is in the domestic currency");
            }
        }
        let d = t.delta(&x).unwrap();
        s.note(&|| format!("delta {d:?}, expected {units}"));
        check!(s, close(d.value, units, units) && d.currency == m.frn(), "delta = signed notional in the foreign currency");
        check!(s, t.gamma(&x).unwrap() == 0.0 && t.vega(&x).unwrap() == 0.0, "no gamma, no vega");
    }
    C33 black_scholes_formula run |s| {
        let f = s.f64("forward", 0.01, 200.0);
        let k = match s.int("strike 0=any 1=at the forward 2=near it", 0, 2) { 0 => s.f64("strike", 0.01, 200.0), 1 => f, _ => f * s.f64("moneyness", 0.8, 1.2) };
        let v = match s.int("variance 0=zero 1=small 2=any 3=negative", 0, 3) { 0 => 0.0, 1 => s.f64("variance", 1e-10, 0.01), 2 => s.f64("variance", 1e-4, 4.0), _ => s.f64("variance", -1.0, 0.0) };
        let df = s.f64("discount factor", 0.1, 1.2);
        let (c, p) = (black_scholes(f, k, v, df, OptionType::Call), black_scholes(f, k, v, df, OptionType::Put));
        s.note(&|| format!("F {f} K {k} V {v} df {df}: call {c}, expected {}; put {p}, expected {}", bs(f, k, v, df, 1.0), bs(f, k, v, df, -1.0)));
        check!(s, close(c, bs(f, k, v, df, 1.0), f + k) && close(p, bs(f, k, v, df, -1.0), f + k), "the Black-Scholes value, intrinsic without variance");
        check!(s, close(c - p, df * (f - k), f + k), "put-call parity");
    }
    C33 fx_option run |s| {
        let m = market(s)?;
        let sell = s.bool("sell");
        let foreign = s.bool("foreign notional");
        let put = s.bool("put");
        let n = s.f64("notional", 1.0, 1e7);
        let k = match s.int("strike 0=any 1=near spot", 0, 1) { 0 => s.f64("strike", 0.5, 170.0), _ => m.spot * s.f64("moneyness", 0.9, 1.1) };
        let vol = match s.int("volatility 0=zero", 0, 9) { 0 => 0.0, _ => s.f64("volatility", 0.01, 0.6) };
        if !s.assume(m.fwd.iter().all(|f| *f > 0.01)) { return None; }
        let t = FXVanillaOption { basic_info: info(&m, sell, if put { Style::FXPut } else { Style::FXCall }), asset: m.pair(), option_type: if put { OptionType::Put } else { OptionType::Call }, notional_currency: if foreign { m.frn() } else { m.dom() }, notional_amounts: n, strike: k, volatility: vol };
        let x = m.real();
        let (sg, om) = (if sell { -1.0 } else { 1.0 }, if put { -1.0 } else { 1.0 });
        let tau = yf(m.c.v, m.at);
        let v = vol * vol * tau;
        let df = m.c.df(m.at, 0.0);
        let per = if foreign { m.spot } else { k };
        let value: Vec<f64> = m.fwd.iter().map(|f| -sg * n * bs(*f, k, v, df, om) / per).collect();
        let got = t.mtm(&x);
        s.note(&|| format!("{}; {} {om} {n} {} at {k} vol {vol}: mtm {got:?}, expected {value:?}", m.show(), if sell { "sell" } else { "buy" }, t.notional_currency.code()));
        match got {
            Err(_) => check!(s, value.is_empty(), "an error only outside the quoted forwards"),
            Ok(g) => {
                check!(s, value.iter().any(|w| close(g.value, *w, n * (m.spot + k) / per)), "mtm = minus direction x notional x Black-Scholes value, per spot or per strike");
                check!(s, g.currency == t.notional_currency, "mtm is in the notional currency");
            }
        }
        let (d, g, w) = (t.delta(&x), t.gamma(&x), t.vega(&x));
        check!(s, d.is_err() == value.is_empty() && g.is_err() == value.is_empty() && w.is_err() == value.is_empty(), "greeks exist where the value does");
        if value.is_empty() { return Some(()); }
        if vol == 0.0 {
            check!(s, g.unwrap() == 0.0, "no gamma without volatility");
            return Some(());
        }
        let (d, g, w) = (d.unwrap(), g.unwrap(), w.unwrap());
        let d1 = |f: f64| ((f / k).ln() + 0.5 * v) / v.sqrt();
        let dw: Vec<f64> = m.fwd.iter().map(|f| n * sg * om * cdf(om * d1(*f))).collect();
        let gw: Vec<f64> = m.fwd.iter().map(|f| n * sg * df * pdf(d1(*f)) / (f * v.sqrt())).collect();
        let ww: Vec<f64> = m.fwd.iter().map(|f| sg * n / per * df * f * pdf(d1(*f)) * tau.sqrt() / 100.0).collect();
        s.note(&|| format!("delta {d:?}, expected {dw:?}; gamma {g}, expected {gw:?}; vega {w}, expected {ww:?}"));
        check!(s, dw.iter().any(|y| close(d.value, *y, n)) && d.currency == m.frn(), "delta = direction x notional x omega N(omega d1), in the foreign currency");
        check!(s, gw.iter().any(|y| close(g, *y, n * df / (0.01 * v.sqrt()).min(1.0))), "gamma = direction x notional x df x density(d1) / (F sigma sqrt T)");
        check!(s, ww.iter().any(|y| close(w, *y, n * (m.spot + k) / per * tau.sqrt())), "vega per 1% = direction x notional x df x F x density(d1) x sqrt T / 100, per spot or per strike");
    }
    C20 forward_points run |s| {
        let v = num(s.date("valuation date", 1995, 2045)?);
        let c = scatter(s);
        let q = quotes(s, v);
        let settle = |p: Period| settled(&c, v, p, 2);
        let t = fx_target(s, &q, &settle);
        let want = q.points(&settle, t);
        let got = FXForwardHelper::new(to_date(v), 1.1, q.real()).get_forward(to_date(t), &c).unwrap();
        s.note(&|| format!("valuation {}; quotes {:?}; points for {} = {got:?}, expected {want:?}", to_date(v), q.q.iter().map(|&(p, x)| (p, to_date(settle(p)), x)).collect::<Vec<_>>(), to_date(t)));
        check!(s, agrees(got, &want), "the quote settling on the date, else linear between the nearest quotes on either side, else none");
    }
    C20 pair_forward_points run |s| {
        let i = s.idx("pair (44..=47 settle T+1)", 60);
        let name = PAIRS[if s.bool("T+1 pair") { 44 + i % 4 } else { i }];
        let p = FXUnderlying::from_str(name).unwrap();
        let v = num(s.date("valuation date", 1995, 2045)?);
        let q = quotes(s, v);
        let settle = |t: Period| pair_settled(name, v, t, lag(name));
        let t = fx_target(s, &q, &settle);
        let want = q.points(&settle, t);
        let got = p.forward_helper(to_date(v), 1.1, q.real()).get_forward(to_date(t), &p.calendar()).unwrap();
        s.note(&|| format!("{name}: valuation {}; quotes {:?}; points for {} = {got:?}, expected {want:?}", to_date(v), q.q.iter().map(|&(p, x)| (p, to_date(settle(p)), x)).collect::<Vec<_>>(), to_date(t)));
        check!(s, agrees(got, &want), "the pair's own spot lag and calendar date its quotes");
    }
    C26 fx_market_context run |s| {
        let v = num(s.date("valuation date", 1995, 2045)?);
        let cal = scatter(s);
        let (d, f) = (curve(s, v), curve(s, v));
        let q = quotes(s, v);
        let pair = [(Currency::JPY, Currency::USD), (Currency::USD, Currency::EUR), (Currency::USD, Currency::JPY), (Currency::CHF, Currency::GBP)][s.idx("0=USDJPY 1=EURUSD 2=JPYUSD 3=GBPCHF", 4)];
        let spot = s.f64("spot", 0.5, 160.0);
        let settle = |p: Period| settled(&cal, v, p, 2);
        let t = fx_target(s, &q, &settle);
        let k = match s.int("strike 0=not positive", 0, 9) { 0 => s.f64("strike", -1.0, 0.0), _ => s.f64("strike", 0.5, 2.0) };
        let pip = if pair.0 == Currency::JPY { 100.0 } else { 1e4 };
        let want: Vec<f64> = q.points(&settle, t).iter().map(|p| spot + p / pip).collect();
        let vol = |a: f64| vec![FXDeltaVolPillar { expiry: to_date(v + 365), forward: 1.1, quotes: vec![FXVolQuote::Atm(a), FXVolQuote::Put { delta: 0.25, vol: a * 1.05 }, FXVolQuote::Call { delta: 0.25, vol: a * 1.02 }] }];
        let (fwd, own) = (|| FXForwardHelper::new(to_date(v), spot, q.real()), FXVolSurface::new(to_date(v), vol(0.2)).unwrap());
        let check = |s: &mut S, x: &FxMarketContext, df: &dyn Fn(bool) -> f64, z: &dyn Fn(bool) -> f64, surface: &dyn Fn() -> Option<f64>| {
            let got = x.forward_at(to_date(t), &cal);
            s.note(&|| format!("forward {got:?}, expected {want:?}; rates {:?} {:?}, expected {} {}; discounts {:?} {:?}; volatility {:?}, expected {:?}", x.rate_d(to_date(t)), x.rate_f(to_date(t)), z(false), z(true), x.discount_d(to_date(t)), x.discount_f(to_date(t)), x.implied_vol(to_date(t), k), surface()));
            check!(s, agrees(got.ok(), &want), "the outright forward: spot + points / pips per unit of the quote currency, an error outside the quoted forwards");
            check!(s, near_eq(x.rate_d(to_date(t)).unwrap(), z(false)) && near_eq(x.rate_f(to_date(t)).unwrap(), z(true)), "zero rates of the domestic and the foreign curve");
            check!(s, near_eq(x.discount_d(to_date(t)).unwrap(), df(false)) && near_eq(x.discount_f(to_date(t)).unwrap(), df(true)), "discount factors of the domestic and the foreign curve");
            let (g, w) = (x.implied_vol(to_date(t), k).ok(), surface());
            check!(s, g.is_some() == w.is_some() && g.is_none_or(|g| near_eq(g, w.unwrap())), "volatilities of the surface");
            check!(s, x.valuation_date == to_date(v) && x.spot == spot && x.pair == pair, "the market's own date, spot and pair");
        };
        s.note(&|| format!("valuation {}; {pair:?} spot {spot}; domestic {}; foreign {}; quotes {:?}; asked for {} strike {k}", to_date(v), d.show(), f.show(), q.q, to_date(t)));
        let side = |x: bool| if x { &f } else { &d };
        let (dfs, zs) = (|x: bool| side(x).df(t, 0.0), |x: bool| zero(&side(x).c, t));
        check(s, &FxMarketContext::new(to_date(v), spot, pair, d.real(), f.real(), fwd(), FXVolSurface::new(to_date(v), vol(0.2)).unwrap()), &dfs, &zs, &|| own.volatility(to_date(t), k).ok());
        s.note(&|| "for linear products".to_string());
        check(s, &FxMarketContext::for_linear(to_date(v), spot, pair, d.real(), f.real(), fwd()).unwrap(), &dfs, &zs, &|| if t > v && k > 0.0 { Some(0.1) } else { None });
        let n = s.int("deposits", 1, 3) as u32;
        let r: Vec<f64> = (0..2 * n).map(|_| s.f64("deposit rate", -0.01, 0.08)).collect();
        let md = |foreign: bool| YieldTermMarketData::new(to_date(v), (0..n).map(|i| OISRate { value: r[(if foreign { i + n } else { i }) as usize], interest_rate_index: InterestRateIndex { period: Period::Months(3 * i + 3), settlement_days: 2, currency: Currency::EUR, calendar: Box::new(Target), convention: BusinessDayConvention::ModifiedFollowing, day_counter: Box::<Actual365Fixed>::default(), end_of_month: false } }).collect(), vec![], vec![]);
        let c = [Curve { v, c: md(false).get_stripped_curve().unwrap() }, Curve { v, c: md(true).get_stripped_curve().unwrap() }];
        let x = FxMarketContext::from_raw_quotes(to_date(v), spot, pair, md(false), md(true), q.real(), vol(0.2), Box::new(Target), Box::new(cal), Box::<Actual365Fixed>::default(), Box::new(Actual360)).unwrap();
        s.note(&|| format!("from raw quotes: deposits {r:?}; domestic {}; foreign {}", c[0].show(), c[1].show()));
        check(s, &x, &|b| c[b as usize].df(t, 0.0), &|b| zero(&c[b as usize].c, t), &|| own.volatility(to_date(t), k).ok());
        check!(s, format!("{:?}{:?}", x.domestic_curve.calendar, x.foreign_curve.calendar) == format!("{:?}{:?}", Target, cal) && format!("{:?}{:?}", x.domestic_curve.day_counter, x.foreign_curve.day_counter) == format!("{:?}{:?}", Actual365Fixed::default(), Actual360), "each curve has its own calendar and day counter");
        let bad = FxMarketContext::from_raw_quotes(to_date(v), spot, pair, md(false), md(true), q.real(), vec![], Box::new(Target), Box::new(cal), Box::<Actual365Fixed>::default(), Box::new(Actual360));
        check!(s, bad.is_err(), "no volatility pillars, no market");
    }
}
