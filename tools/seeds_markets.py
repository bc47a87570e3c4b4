YC = "src/markets/termstructures/yieldcurve.rs"
FX = "src/derivatives/forex/"
IR = "src/derivatives/interestrate/"
FP = "src/markets/forex/quotes/forwardpoints.rs"
VS = "src/markets/forex/quotes/volsurface.rs"
IV = "src/markets/interestrate/volsurface.rs"
CURVE = """
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
#[allow(dead_code)]
fn pillar(date: NaiveDate, zero_rate: f64, hidden_pillar: bool) -> StrippedCurve { StrippedCurve { first_settle_date: date, date, market_rate: zero_rate, zero_rate, discount: 1.0, hidden_pillar, source: InterestRateQuoteEnum::OIS } }
#[allow(dead_code)]
fn curve(v: NaiveDate, c: Vec<StrippedCurve>) -> YieldTermStructure { YieldTermStructure::new(Box::new(Target), Box::new(Actual365Fixed::default()), v, c) }
#[allow(dead_code)]
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + b.abs()) }
"""
VOL = CURVE + """
use finquant::markets::forex::quotes::volsurface::*;
use finquant::markets::forex::quotes::forwardpoints::*;
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::derivatives::forex::basic::*;
use finquant::derivatives::basic::*;
use finquant::time::period::Period;
use iso_currency::Currency;
#[allow(dead_code)]
fn smile(expiry: NaiveDate, f: f64) -> FXDeltaVolPillar { FXDeltaVolPillar { expiry, forward: f, quotes: vec![FXVolQuote::Atm(0.1), FXVolQuote::Call { delta: 0.25, vol: 0.105 }, FXVolQuote::Put { delta: 0.25, vol: 0.11 }] } }
#[allow(dead_code)]
fn market(points: f64) -> FxMarketContext {
    let v = d(2024, 3, 11);
    let c = || curve(v, vec![pillar(d(2024, 6, 11), 0.03, false), pillar(d(2026, 3, 11), 0.03, false)]);
    let q = |tenor, value| FXForwardQuote { tenor, value };
    FxMarketContext::new(v, 1.1, (Currency::USD, Currency::EUR), c(), c(), FXForwardHelper::new(v, 1.1, vec![q(Period::Months(1), points), q(Period::Years(1), points)]), FXVolSurface::new(v, vec![smile(d(2025, 3, 11), 1.1)]).unwrap())
}
#[allow(dead_code)]
fn info(style: Style) -> BasicInfo { BasicInfo { trade_date: d(2024, 3, 11), style, direction: Direction::Buy, expiry_date: d(2024, 9, 11), delivery_date: d(2024, 9, 13) } }
"""
SEEDS = {
    "curve-hidden-first-pillar": dict(property="C21", edits=[(YC, """            if !strip_curve.hidden_pillar {
                true_first = strip_curve;
                break;
            }""", """            if !strip_curve.hidden_pillar || strip_curve.date <= self.valuation_date {
                true_first = strip_curve;
                break;
            }""")],
        needs="a hidden pillar on the valuation date in front of the visible ones, and a date before the first visible pillar",
        breaks="the zero rate before the first visible pillar is no longer that pillar's",
        demo=CURVE + """
fn main() {
    let v = d(2024, 1, 2);
    let c = curve(v, vec![pillar(v, 0.01, true), pillar(d(2024, 7, 2), 0.03, false), pillar(d(2025, 1, 2), 0.04, false)]);
    assert!(near(c.zero_rate(d(2024, 4, 2), &InterpolationMethodEnum::StepFunctionForward).unwrap(), 0.03));
}
"""),
    "curve-shift-long-end": dict(property="C21", edits=[(YC, "        let yf = Actual365Fixed::default().year_fraction(self.valuation_date, date)?;\n        Ok(base * (-shift_bp * 1.0e-4 * yf).exp())", "        let last = self.stripped_curves.last().map_or(date, |c| c.date.max(self.valuation_date + chrono::Duration::days(7305)));\n        let yf = Actual365Fixed::default().year_fraction(self.valuation_date, date.min(last))?;\n        Ok(base * (-shift_bp * 1.0e-4 * yf).exp())")],
        needs="a shifted discount factor for a date beyond the last pillar and more than twenty years out",
        breaks="the parallel shift stops at the last pillar instead of moving every zero rate",
        demo=CURVE + """
fn main() {
    let v = d(2024, 1, 2);
    let m = InterpolationMethodEnum::StepFunctionForward;
    let t = d(2054, 1, 2);
    let c = curve(v, vec![pillar(d(2024, 7, 2), 0.03, false), pillar(d(2034, 1, 2), 0.03, false)]);
    let u = curve(v, vec![pillar(d(2024, 7, 2), 0.04, false), pillar(d(2034, 1, 2), 0.04, false)]);
    assert!(near(c.shifted_discount(t, &m, 100.0).unwrap(), u.discount(t, &m).unwrap()));
}
"""),
    "fwd-points-unsorted": dict(property="C20", edits=[(FP, "        dated.sort_unstable_by_key(|(d, _)| *d);", "        if dated[0].0 > dated[dated.len() - 1].0 {\n            dated.reverse();\n        }")],
        needs="quotes given neither in ascending nor in descending order of settlement",
        breaks="interpolation between the wrong neighbours, or no forward within the range",
        demo=VOL + """
fn main() {
    let v = d(2024, 3, 11);
    let q = |n, value| FXForwardQuote { tenor: Period::Months(n), value };
    let a = FXForwardHelper::new(v, 1.1, vec![q(1, 10.0), q(2, 20.0), q(3, 30.0), q(6, 60.0)]);
    let b = FXForwardHelper::new(v, 1.1, vec![q(1, 10.0), q(6, 60.0), q(2, 20.0), q(3, 30.0), q(9, 90.0)]);
    for k in 0..60 { let t = d(2024, 4, 20) + Duration::days(k); assert_eq!(a.get_forward(t, &Target).unwrap(), b.get_forward(t, &Target).unwrap()); }
}
"""),
    "fxvol-variance-weight": dict(property="C25", edits=[(VS, "                    Ok((var_target / target_yf).sqrt())", "                    Ok((var_target.max(var_lo) / target_yf).sqrt())")],
        needs="an expiry between two pillars whose total variance falls (an inverted term structure)",
        breaks="between such pillars the total variance is held flat instead of interpolated",
        demo=VOL + """
fn main() {
    let v = d(2024, 3, 11);
    let mut near_ = smile(d(2024, 12, 11), 1.1);
    near_.quotes = vec![FXVolQuote::Atm(0.3), FXVolQuote::Call { delta: 0.25, vol: 0.3 }, FXVolQuote::Put { delta: 0.25, vol: 0.3 }];
    let s = FXVolSurface::new(v, vec![near_, smile(d(2025, 3, 11), 1.1)]).unwrap();
    let w = |e: NaiveDate| { let x = s.volatility(e, 1.1).unwrap(); x * x * (e - v).num_days() as f64 };
    let (a, b) = (d(2024, 12, 11), d(2025, 3, 11));
    let m = d(2025, 1, 25);
    let u = (m - a).num_days() as f64 / (b - a).num_days() as f64;
    assert!((w(m) - (w(a) + u * (w(b) - w(a)))).abs() < 1e-6);
}
"""),
    "ctx-jpy-domestic": dict(property="C26", edits=[("src/markets/forex/market_context.rs", "if self.pair.0 == Currency::JPY {", "if self.pair.0 == Currency::JPY || self.pair.1 == Currency::JPY {")],
        needs="a pair whose foreign currency is the yen",
        breaks="forward points of such a pair are divided by 100",
        demo=VOL + """
fn main() {
    let mut m = market(50.0);
    m.pair = (Currency::USD, Currency::JPY);
    assert!(near(m.forward_at(d(2024, 9, 11), &Target).unwrap(), 1.1 + 0.005));
}
"""),
    "fxfwd-domestic-at-forward": dict(property="C32", edits=[(FX + "forward.rs", "            -self.notional_amounts / self.strike\n                * self.basic_info.direction as i8 as f64\n                * (outright_forward - self.strike)\n        };\n        Ok(CurrencyValue {\n            currency: self.asset.dom_currency(),", "            -self.notional_amounts / outright_forward\n                * self.basic_info.direction as i8 as f64\n                * (outright_forward - self.strike)\n        };\n        Ok(CurrencyValue {\n            currency: self.asset.dom_currency(),")],
        needs="a forward on a notional in the domestic currency, struck away from the forward",
        breaks="the domestic notional is converted at the market forward instead of the contract's",
        demo=VOL + """
use finquant::derivatives::forex::forward::FXForward;
fn main() {
    let m = market(500.0);
    let t = FXForward { basic_info: info(Style::FXForward), asset: FXUnderlying::EURUSD, notional_currency: Currency::USD, notional_amounts: 1e6, strike: 1.0 };
    let df = m.domestic_curve.discount(d(2024, 9, 11), &InterpolationMethodEnum::StepFunctionForward).unwrap();
    assert!(near(t.mtm(&m).unwrap().value, -1e6 * (1.15 - 1.0) * df));
}
"""),
    "fxopt-domestic-vega": dict(property="C33", edits=[(FX + "option.rs", "            self.notional_amounts / ctx.strike\n        };\n        Ok(self.direction_sign() * scale", "            self.notional_amounts / ctx.forward\n        };\n        Ok(self.direction_sign() * scale")],
        needs="the vega of an option on a domestic notional, struck away from the forward",
        breaks="the domestic notional is converted at the forward instead of the strike, so vega is not the derivative of the premium",
        demo=VOL + """
use finquant::derivatives::forex::option::*;
fn main() {
    let m = market(50.0);
    let o = |volatility| FXVanillaOption { basic_info: info(Style::FXCall), asset: FXUnderlying::EURUSD, option_type: OptionType::Call, notional_currency: Currency::USD, notional_amounts: 1e6, strike: 1.3, volatility };
    let p = |x| o(x).mtm(&m).unwrap().value;
    let slope = -(p(0.1001) - p(0.0999)) / 0.02;
    let v = o(0.1).vega(&m).unwrap();
    assert!((v - slope).abs() < 1e-3 * v.abs(), "{v} {slope}");
}
"""),
    "ir-caplet-seasoned": dict(property="C35", edits=[(IR + "basic.rs", "CapStyle::ForwardLooking => sig2 * yf_t_to_start.max(0.0),", "CapStyle::ForwardLooking => sig2 * yf_t_to_start.abs(),")],
        needs="a forward-looking caplet already in its accrual period",
        breaks="a rate that has fixed still carries variance",
        demo="""
use finquant::derivatives::interestrate::basic::*;
fn main() { assert_eq!(caplet_total_variance(CapStyle::ForwardLooking, 0.01, -0.1, 0.15), 0.0); }
"""),
    "ir-cap-down-shift": dict(property="C36", edits=[(IR + "cap.rs", "let sigma = sigma_base + vol_shift_bp * 1.0e-4;", "let sigma = sigma_base + vol_shift_bp.max(0.0) * 1.0e-4;")],
        needs="vega for a downward shift of volatility",
        breaks="the vega of a downward shift is zero",
        demo=CURVE + """
use finquant::derivatives::basic::*;
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::cap::*;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::*;
use iso_currency::Currency;
fn main() {
    let v = d(2024, 3, 11);
    let (a, b) = (d(2025, 3, 11), d(2025, 9, 11));
    let c = CapFloor { basic_info: BasicInfo { trade_date: v, style: Style::IRSwap, direction: Direction::Buy, expiry_date: b, delivery_date: b }, kind: CapFloorKind::Cap, style: CapStyle::ForwardLooking, currency: Currency::USD, notional: 1e6, strike: 0.03, valuation_date: v, schedule: vec![InterestRateSchedulePeriod::new(a, b, b, a, 1e6, 1e6)], accrual_day_counter: Box::new(Actual365Fixed::default()) };
    let y = curve(v, vec![pillar(d(2024, 6, 11), 0.03, false), pillar(d(2026, 3, 11), 0.03, false)]);
    let mut s = IRNormalVolSurface::new(v);
    s.pillars = vec![CapletVolPillar { expiry: a, nodes: vec![(0.03, 0.01)] }];
    let m = IrMarketContext::new(v, Currency::USD, y, Some(s));
    assert!(c.vega(&m, -10.0).unwrap() < 0.0);
}
"""),
    "ir-strip-same-expiry": dict(property="C37", edits=[(IV, "            && last_start <= last.expiry\n", "            && last_start < last.expiry\n")],
        needs="two cap quotes of one strike with the same last caplet",
        breaks="the later quote overrides the segment the earlier one has settled",
        demo=CURVE + """
use finquant::derivatives::basic::*;
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::cap::*;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::volsurface::*;
use iso_currency::Currency;
fn main() {
    let v = d(2024, 3, 11);
    let y = curve(v, vec![pillar(d(2024, 6, 11), 0.03, false), pillar(d(2026, 3, 11), 0.03, false)]);
    let (a, b) = (d(2025, 3, 11), d(2025, 9, 11));
    let q = |npv| CapQuote { strike: 0.031, notional: 1e6, direction: Direction::Buy, kind: CapFloorKind::Cap, style: CapStyle::ForwardLooking, currency: Currency::USD, schedule: vec![InterestRateSchedulePeriod::new(a, b, b, a, 1e6, 1e6)], accrual_day_counter: Box::new(Actual365Fixed::default()), market_npv: npv };
    let vol = |l: Vec<CapQuote>| { let mut s = IRNormalVolSurface::new(v); s.rebuild(&y, &IRCapMarketData::new(v, l)).unwrap(); s.caplet_volatility(a, 0.031).unwrap() };
    assert_eq!(vol(vec![q(2000.0), q(2600.0)]), vol(vec![q(2000.0)]));
}
"""),
    "ir-strip-flat-beyond": dict(property="C24", edits=[(IV, "            if strike >= last.0 {\n                return Ok(last.1);\n            }\n            for w", "            if strike > last.0 {\n                return Ok(last.1.max(first.1));\n            }\n            for w")],
        needs="a strike above the last node of a downward sloping smile",
        breaks="beyond the last node the volatility of the first one is used",
        demo=CURVE + """
use finquant::markets::interestrate::volsurface::*;
fn main() {
    let v = d(2024, 3, 11);
    let mut s = IRNormalVolSurface::new(v);
    s.pillars = vec![CapletVolPillar { expiry: d(2025, 3, 11), nodes: vec![(0.01, 0.012), (0.03, 0.008)] }];
    assert_eq!(s.caplet_volatility(d(2025, 1, 1), 0.05).unwrap(), 0.008);
}
"""),
    "swap-maturity-last-leg": dict(property="C30", edits=[(IR + "swap.rs", "            *last_end_dates.iter().max().unwrap()", "            *last_end_dates.last().unwrap()")],
        needs="a swap whose legs end on different dates, the later one first",
        breaks="the swap matures with its last leg instead of the latest one",
        demo=CURVE + """
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::interestrateindex::*;
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
fn main() {
    let leg = |e: NaiveDate| InterestRateSwapLeg::new(InterestRateSwapLegType::Fixed { coupon: 0.03 }, Direction::Buy, InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(6))).unwrap(), 1.0, ScheduleDetail::new(Frequency::Semiannual, Period::Months(6), Period::Years(1), Box::new(Actual365Fixed::default()), Box::new(Target), B::ModifiedFollowing, 2, 0, 0), vec![InterestRateSchedulePeriod::new(d(2024, 1, 2), e, e, d(2024, 1, 2), 1.0, 1.0)]);
    let s = InterestRateSwap::new(vec![leg(d(2024, 7, 3)), leg(d(2024, 7, 2))]);
    assert_eq!(s.maturity_date(d(2023, 12, 29)).unwrap(), d(2024, 7, 3));
}
"""),
    "swap-principal-shift": dict(property="C31", edits=[(IR + "swap.rs", "            if let Some(last) = schedule.last() {\n                let df_last = yts.shifted_discount(last.pay_date, method, rate_shift_bp)?;", "            if let Some(last) = schedule.last() {\n                let df_last = yts.shifted_discount(last.accrual_end_date, method, rate_shift_bp)?;")],
        needs="a schedule that pays later than its last accrual end, valued through the market context",
        breaks="the final notional is discounted from the accrual end",
        demo=CURVE + """
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::basic::IRDerivatives;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::interestrateindex::*;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;
fn main() {
    let v = d(2023, 12, 29);
    let y = || curve(v, vec![pillar(d(2024, 6, 11), 0.03, false), pillar(d(2026, 3, 11), 0.03, false)]);
    let l = InterestRateSwapLeg::new(InterestRateSwapLegType::Fixed { coupon: 0.03 }, Direction::Buy, InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(6))).unwrap(), 1.0, ScheduleDetail::new(Frequency::Semiannual, Period::Months(6), Period::Years(1), Box::new(Actual365Fixed::default()), Box::new(Target), B::ModifiedFollowing, 2, 0, 0), vec![InterestRateSchedulePeriod::new(d(2024, 1, 2), d(2024, 7, 2), d(2024, 9, 2), d(2024, 1, 2), 1e6, 1e6)]);
    let s = InterestRateSwap::new(vec![l]);
    let m = IrMarketContext::new(v, Currency::EUR, y(), None);
    assert!(near(s.mtm(&m).unwrap().value, s.npv(v, &mut y()).unwrap()));
}
"""),
    "bootstrap-future-chain": dict(property="C22", edits=[("src/markets/termstructures/yieldcurve/ratehelper.rs", "            if stripped_curve.source == InterestRateQuoteEnum::Futures {\n                is_first = false;", "            if stripped_curve.source == InterestRateQuoteEnum::Futures\n                && stripped_curve.date <= valuation_date + chrono::Duration::days(730)\n            {\n                is_first = false;")],
        needs="a future whose preceding future pillar matures more than two years out",
        breaks="the zero rate is taken from the chain of pillars as if it were the first future",
        demo=CURVE + """
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::*;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::time::period::Period;
fn main() {
    let v = d(2023, 10, 27);
    let f = FuturesRate { value: 96.0, imm_code: "Z6".to_string(), convexity_adjustment: 0.0, futures_spec: InterestRateFutures::new(Period::Months(3)), interest_rate_index: InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(3))).unwrap() };
    let mut p = pillar(d(2026, 12, 16), 0.03, false);
    p.source = InterestRateQuoteEnum::Futures;
    let c = vec![pillar(d(2024, 1, 31), 0.04, false), p];
    let z = f.zero_rate(v, &c).unwrap();
    let t = (f.maturity_date(v).unwrap() - v).num_days() as f64 / 365.0;
    assert!(near((-z * t).exp(), f.discount(v, &c).unwrap()));
}
"""),
    "bs-vol-deep-otm": dict(property="C34", edits=[]),
}
del SEEDS["bs-vol-deep-otm"]
