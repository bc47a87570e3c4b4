//! The bootstrapped curve: pillars of a whole market.
use crate::civil::*;
use crate::contracts::rates::*;
use crate::contracts::shim::num;
use crate::contracts::time::*;
use crate::src::Src;
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;

fn pillar(v: i32, settle: i32, date: i32, rate: f64, zero: f64, source: InterestRateQuoteEnum, hidden: bool) -> StrippedCurve {
    StrippedCurve { first_settle_date: to_date(settle), date: to_date(date), market_rate: rate, zero_rate: zero, discount: (-zero * yf(v, date)).exp(), source, hidden_pillar: hidden }
}
fn cash<S: Src>(s: &mut S, v: i32) -> Option<Vec<(OISRate, StrippedCurve)>> {
    let n = 4 - s.int("4 - cash quotes", 0, 3);
    let c = scatter(s);
    let b = bdc(s);
    let lag = s.int("settlement days", 0, 3);
    let e = s.int("end of month", 0, 3) == 0;
    let mut out: Vec<(OISRate, StrippedCurve)> = vec![];
    for _ in 0..n {
        let p = match s.int("cash tenor 0=M 1=1W 2=W 3=ON 4=as the last quote", 0, 4) {
            0 => Period::Months(s.int("months", 1, 12) as u32),
            1 => Period::Weeks(1),
            2 => Period::Weeks(s.int("weeks", 2, 3) as i64),
            3 => Period::ON,
            _ => out.last().map_or(Period::Weeks(1), |(o, _)| o.interest_rate_index.period),
        };
        let (dc, dc2, _) = counter(s);
        let r = rate(s, "quote", -0.01, 0.1);
        let st = advanced(&c, v, Period::Days(lag as i64), b, e);
        let m = advanced(&c, st, p, b, e);
        let g = 1.0 + frac(&*dc, st, m) * r;
        if !s.assume(m > st && m > v && g > 0.1) { return None; }
        let ix = InterestRateIndex { period: p, settlement_days: lag as i64, currency: Currency::EUR, calendar: Box::new(c), convention: b, day_counter: dc2, end_of_month: e };
        out.push((OISRate { value: r, interest_rate_index: ix }, pillar(v, st, m, r, g.ln() / yf(st, m), InterestRateQuoteEnum::OIS, p == Period::Weeks(1))));
    }
    if !s.assume(out.iter().any(|(_, p)| !p.hidden_pillar)) { return None; }
    Some(out)
}
/// a fixed against a floating leg on one notional, annually or half-yearly
fn par_swap<S: Src>(s: &mut S, v: i32, years: i32) -> Option<(InterestRateSwap, [Leg; 2], f64)> {
    let c = scatter(s);
    let b = bdc(s);
    let lag = s.int("settlement days", 0, 3);
    let e = s.int("end of month", 0, 3) == 0;
    let coupon = match s.int("coupon 0=usual 1=negative 2=high", 0, 3) { 1 => s.f64("coupon", -0.02, 0.0), 2 => s.f64("coupon", 0.1, 0.4), _ => s.f64("coupon", 0.002, 0.12) };
    let notional = s.f64("notional", 1.0, 100.0);
    let first = s.bool("floating leg first");
    let pay = s.int("pay delay", 0, 2);
    let eff = advanced(&c, v, Period::Days(lag as i64), b, e);
    let mut side = |fixed: bool, sell: bool| {
        let semi = s.bool("half-yearly");
        let (dc, dc2, _) = counter(s);
        let (f, fp, t, n) = if semi { (Frequency::Semiannual, Period::Months(6), Period::Months(6), 12 * years) } else { (Frequency::Annual, Period::Years(1), Period::Years(1), years) };
        let count = if semi { 2 * years } else { years };
        let (mut rows, mut st) = (vec![], eff);
        for k in 1..=count {
            let end = advanced(&c, eff, times(k, fp), b, e);
            rows.push(Row { s: st, e: end, pay: advanced(&c, end, Period::Days(pay as i64), b, false), reset: advanced(&c, st, Period::Days(0), b, false), bal: notional });
            st = end;
        }
        let duration = if semi { Period::Months(n as u32) } else { Period::Years(n as u32) };
        let index = InterestRateIndex { period: fp, settlement_days: lag as i64, currency: Currency::EUR, calendar: Box::new(c), convention: b, day_counter: counter(s).1, end_of_month: e };
        let ty = if fixed { InterestRateSwapLegType::Fixed { coupon } } else { InterestRateSwapLegType::Float { spread: 0.0 } };
        let sd = ScheduleDetail::new(f, t, duration, dc2, Box::new(c), b, 0, pay as i64, 0);
        let l = InterestRateSwapLeg::new(ty, if sell { Direction::Sell } else { Direction::Buy }, index, notional, sd, vec![]);
        (Leg { rows, eff, fixed: fixed.then_some(coupon), spread: 0.0, sign: if sell { -1.0 } else { 1.0 }, dc }, l)
    };
    let (a, x) = side(!first, false);
    let (b2, y) = side(first, true);
    if !s.assume(a.rows.iter().chain(&b2.rows).all(|r| r.e > r.s)) { return None; }
    Some((InterestRateSwap::new(vec![x, y]), [a, b2], if first { 0.0 } else { coupon }))
}

contracts! {
    C23 bootstrapped_curve run |s| {
        let v = num(s.date("valuation date", 1980, 2060)?);
        let cs = cash(s, v)?;
        let mut want: Vec<StrippedCurve> = cs.iter().map(|(_, p)| *p).collect();
        want.sort_by_key(|p| p.date);
        let mut fs = vec![];
        for _ in 0..s.int("futures", 0, 2) {
            let (f, a, b, g) = future(s, v)?;
            if !s.assume(g > 0.1 && b > num(want[want.len() - 1].date) && b < v + 900) { return None; }
            let d = (-want[related(&want, a)].zero_rate * yf(v, a)).exp() / g;
            let had = want.iter().any(|p| p.source == InterestRateQuoteEnum::Futures);
            let (mut chain, mut at) = (1.0, v);
            for p in &want { chain *= (-p.zero_rate * yf(at, num(p.date))).exp(); at = num(p.date); }
            let z = if had { -d.ln() / yf(v, b) } else { -(d / chain).ln() / yf(at, b) };
            want.push(StrippedCurve { discount: d, ..pillar(v, a, b, f.value, z, InterestRateQuoteEnum::Futures, false) });
            fs.push(f);
        }
        let mut sw = vec![];
        let mut legs = vec![];
        let mut years = if fs.is_empty() { 1 } else { 3 };
        let swaps = s.int("swaps", 0, 3);
        for _ in 0..swaps {
            years += s.int("years longer", 1, 3);
            let (q, ls, r) = par_swap(s, v, years)?;
            let m = ls.iter().map(|l| l.rows[l.rows.len() - 1].e).max().unwrap();
            if !s.assume(m > num(want[want.len() - 1].date)) { return None; }
            want.push(pillar(v, ls[0].eff, m, r, 0.0, InterestRateQuoteEnum::Swap, false));
            let k = want.len() - 1;
            let mut worth = |z: f64| { want[k].zero_rate = z; let c = Curve { v, c: want.clone() }; leg_value(&ls[0], &c, 0.0) + leg_value(&ls[1], &c, 0.0) };
            let (mut lo, mut hi) = (-0.5, 0.5);
            let up = worth(hi);
            if !s.assume(worth(lo) * up < 0.0) { return None; }
            for _ in 0..60 { let mid = 0.5 * (lo + hi); if (worth(mid) > 0.0) == (up > 0.0) { hi = mid } else { lo = mid } }
            want[k].zero_rate = lo;
            want[k].discount = (-lo * yf(v, m)).exp();
            sw.push(q);
            legs.push((k, ls));
        }
        let market = YieldTermMarketData::new(to_date(v), cs.into_iter().map(|(o, _)| o).collect(), fs, sw);
        let got = market.get_stripped_curve().unwrap();
        s.note(&|| format!("valuation {}; pillars {got:#?}, expected {want:#?}", to_date(v)));
        check!(s, got.len() == want.len(), "one pillar per quote");
        for (g, w) in got.iter().zip(&want) {
            check!(s, (g.first_settle_date, g.date, g.market_rate, g.hidden_pillar, g.source) == (w.first_settle_date, w.date, w.market_rate, w.hidden_pillar, w.source), "cash pillars by maturity, then futures, then swaps, with their quotes' dates and rates");
            if w.source == InterestRateQuoteEnum::Swap {
                check!(s, (g.discount - (-g.zero_rate * yf(v, num(g.date))).exp()).abs() <= 1e-9, "a swap pillar's discount factor is that of its zero rate");
            } else {
                check!(s, (g.zero_rate - w.zero_rate).abs() <= 1e-6 && near_eq(g.discount, w.discount), "cash and futures pillars are those of their quotes on the pillars before them");
            }
        }
        for (k, ls) in &legs {
            let c = Curve { v, c: got[..=*k].to_vec() };
            let x = leg_value(&ls[0], &c, 0.0) + leg_value(&ls[1], &c, 0.0);
            s.note(&|| format!("swap {k} is worth {x} on the pillars up to its own"));
            check!(s, x.abs() <= 1e-9 * scale(ls), "each swap is worth nothing on the pillars up to its own");
        }
    }
}
