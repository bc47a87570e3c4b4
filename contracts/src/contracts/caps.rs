//! Caplet volatilities, caps and floors.
use super::models::bachelier;
use super::rates::{Curve, curve, rate, yf};
use crate::contracts::shim::num;
use crate::contracts::time::*;
use crate::src::Src;
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::*;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use iso_currency::Currency;

fn rel(a: f64, b: f64, sc: f64) -> bool { (a - b).abs() <= 1e-9 * sc }
/// pillars: (expiry, nodes by strike)
pub type Surface = Vec<(i32, Vec<(f64, f64)>)>;
pub fn node_vol(n: &[(f64, f64)], k: f64) -> f64 {
    if k <= n[0].0 { return n[0].1; }
    for i in 1..n.len() {
        if k <= n[i].0 { return n[i - 1].1 + (k - n[i - 1].0) / (n[i].0 - n[i - 1].0) * (n[i].1 - n[i - 1].1); }
    }
    n[n.len() - 1].1
}
pub fn vol(p: &Surface, t: i32, k: f64) -> f64 {
    let i = p.iter().position(|x| t <= x.0).unwrap_or(p.len() - 1);
    node_vol(&p[i].1, k)
}
pub fn surface<S: Src>(s: &mut S, v: i32) -> Surface {
    let n = 4 - s.int("4 - pillars", 0, 4);
    let mut d = v;
    (0..n).map(|_| {
        d += s.int("days to next pillar", 1, 900);
        let m = s.int("nodes", 1, 4);
        let mut k = s.f64("lowest strike", -0.01, 0.05);
        (d, (0..m).map(|_| { let x = (k, s.f64("volatility", 0.0005, 0.03)); k += s.f64("strike step", 0.0005, 0.02); x }).collect())
    }).collect()
}
pub fn real(p: &Surface, v: i32) -> IRNormalVolSurface {
    let mut x = IRNormalVolSurface::new(to_date(v));
    x.pillars = p.iter().map(|(d, n)| CapletVolPillar { expiry: to_date(*d), nodes: n.clone() }).collect();
    x
}
pub fn variance(back: bool, sg: f64, a: f64, b: f64) -> f64 {
    if b <= 0.0 { return 0.0; }
    let d = b - a;
    sg * sg * if !back { a.max(0.0) } else if a >= 0.0 { a + d / 3.0 } else { b * b * b / (3.0 * d * d) }
}
pub struct Caplet { pub s: i32, pub e: i32, pub pay: i32 }
pub fn counter<S: Src>(s: &mut S) -> (bool, Box<dyn DayCounters>) {
    if s.bool("Actual/360") { (true, Box::new(Actual360)) } else { (false, Box::new(Actual365Fixed::default())) }
}
pub fn periods<S: Src>(s: &mut S, v: i32, n: i32) -> Vec<Caplet> {
    let mut d = v + match s.int("first start 0=valuation 1=earlier 2=later", 0, 2) { 0 => 0, 1 => -s.int("days before valuation", 1, 200), _ => s.int("days after valuation", 1, 400) };
    (0..n).map(|_| {
        let e = d + s.int("period length", 20, 200);
        let pay = e + s.int("payment delay", 0, 5);
        let x = Caplet { s: d, e, pay };
        d = e;
        x
    }).collect()
}
pub fn sched(p: &[Caplet]) -> Vec<InterestRateSchedulePeriod> {
    p.iter().map(|x| InterestRateSchedulePeriod::new(to_date(x.s), to_date(x.e), to_date(x.pay), to_date(x.s), 0.0, 1.0)).collect()
}
/// value of one caplet or floorlet per unit of notional
pub fn one(c: &Curve, bp: f64, x: &Caplet, a360: bool, floor: bool, k: f64, var: f64) -> f64 {
    let tau = (x.e - x.s) as f64 / if a360 { 360.0 } else { 365.0 };
    let f = (c.df(x.s, bp) / c.df(x.e, bp) - 1.0) / tau;
    tau * c.df(x.pay, bp) * bachelier(f, k, var, if floor { -1.0 } else { 1.0 })
}
pub fn kinds(floor: bool, back: bool, sell: bool) -> (CapFloorKind, CapStyle, Direction) {
    (if floor { CapFloorKind::Floor } else { CapFloorKind::Cap }, if back { CapStyle::BackwardCompounded } else { CapStyle::ForwardLooking }, if sell { Direction::Sell } else { Direction::Buy })
}
pub fn strike<S: Src>(s: &mut S, p: &Surface) -> f64 {
    let near = s.int("strike 0=any 1=on a node 2=near a node", 0, 2);
    let all: Vec<f64> = p.iter().flat_map(|x| x.1.iter().map(|y| y.0)).collect();
    if near == 0 || all.is_empty() { return s.f64("strike", -0.02, 0.12); }
    let k = all[s.idx("node", all.len())];
    if near == 1 { k } else { k + s.f64("off the node", -0.003, 0.003) }
}

contracts! {
    C24 caplet_vol_lookup run |s| {
        let v = num(s.date("valuation date", 1960, 2080)?);
        let p = surface(s, v);
        let k = strike(s, &p);
        let t = if p.is_empty() || s.bool("any date") { v + s.int("days", -30, 4000) } else { p[s.idx("pillar", p.len())].0 + s.int("days off the pillar", -1, 1) };
        let x = real(&p, v);
        let got = x.caplet_volatility(to_date(t), k);
        s.note(&|| format!("pillars {:?}; volatility({}, {k}) = {got:?}", p.iter().map(|x| (to_date(x.0), &x.1)).collect::<Vec<_>>(), to_date(t)));
        if p.is_empty() { check!(s, got.is_err(), "a surface that has not been stripped is refused"); return Some(()); }
        let want = vol(&p, t, k);
        s.note(&|| format!("expected {want}"));
        check!(s, got.is_ok_and(|g| rel(g, want, 1.0)), "first pillar not before the expiry (else the last), linear between its strikes, flat outside");
        let m = IrMarketContext::new(to_date(v), Currency::USD, curve(s, v).real(), Some(x));
        check!(s, m.caplet_vol(to_date(t), k).is_ok_and(|g| rel(g, want, 1.0)), "the market context asks its surface");
        let m = IrMarketContext::new(to_date(v), Currency::USD, curve(s, v).real(), None);
        check!(s, m.caplet_vol(to_date(t), k).is_err(), "a market context without a surface refuses");
    }
    C35 caplet_variance run |s| {
        let sg = s.f64("volatility", 0.0, 0.1);
        let a = match s.int("start 0=valuation 1=any", 0, 1) { 0 => 0.0, _ => s.f64("start", -2.0, 20.0) };
        let b = match s.int("end 0=valuation 1=after the start 2=any", 0, 2) { 0 => 0.0, 1 => a + s.f64("length", 0.01, 2.0), _ => s.f64("end", -2.0, 20.0) };
        let back = s.bool("backward");
        if !s.assume(b <= 0.0 || (b - a).abs() > 1e-9) { return None; }
        let (got, want) = (caplet_total_variance(kinds(false, back, false).1, sg, a, b), variance(back, sg, a, b));
        s.note(&|| format!("backward {back} sigma {sg} start {a} end {b}: {got}, expected {want}"));
        check!(s, rel(got, want, 1e-3 + want.abs()) && (got == 0.0) == (want == 0.0), "variance to the fixing; cubic decay within the period; none after it");
    }
    C36 cap_value run |s| {
        let v = num(s.date("valuation date", 1980, 2060)?);
        let c = curve(s, v);
        let p = surface(s, v);
        let n = 4 - s.int("4 - periods", 0, 4);
        let ps = periods(s, v, n);
        let (a360, dc) = counter(s);
        let k = match s.int("strike 0=any 1=forward", 0, 1) {
            0 => strike(s, &p),
            _ => ps.first().map_or(0.03, |x| (c.df(x.s, 0.0) / c.df(x.e, 0.0) - 1.0) / ((x.e - x.s) as f64 / if a360 { 360.0 } else { 365.0 })),
        };
        let (floor, back, sell) = (s.bool("floor"), s.bool("backward"), s.bool("sell"));
        let (kind, style, direction) = kinds(floor, back, sell);
        let notional = 10f64.powf(s.f64("log10 notional", 0.0, 6.0));
        let d: NaiveDate = to_date(v);
        let cap = CapFloor { basic_info: BasicInfo { trade_date: d, style: Style::IRSwap, direction, expiry_date: d, delivery_date: d }, kind, style, currency: Currency::CHF, notional, strike: k, valuation_date: d, schedule: sched(&ps), accrual_day_counter: dc };
        let value = |bp: f64, vb: f64| ps.iter().map(|x| {
            let sg = vol(&p, x.s, k) + vb * 1e-4;
            let sign = if sell { -1.0 } else { 1.0 };
            sign * notional * one(&c, bp, x, a360, floor, k, variance(back, sg, yf(v, x.s), yf(v, x.e)))
        }).sum::<f64>();
        let m = IrMarketContext::new(d, Currency::CHF, c.real(), Some(real(&p, v)));
        let h = rate(s, "shift", -50.0, 100.0);
        s.note(&|| format!("valuation {d}; curve {}; surface {p:?}; floor {floor} backward {back} sell {sell} strike {k} notional {notional} Actual/360 {a360}; periods {:?}", c.show(), ps.iter().map(|x| (x.s - v, x.e - v, x.pay - v)).collect::<Vec<_>>()));
        if n > 0 && p.is_empty() {
            check!(s, cap.mtm(&m).is_err() && cap.dv01(&m).is_err() && cap.vega(&m, h).is_err() && cap.gamma(&m, h, RateShiftMode::Zeros).is_err() && cap.modified_duration(&m).is_err(), "an unstripped surface is refused");
            return Some(());
        }
        let sc = notional * (0.1 + ps.len() as f64);
        let x = cap.mtm(&m).unwrap();
        s.note(&|| format!("mtm {x:?}, expected {}", value(0.0, 0.0)));
        check!(s, rel(x.value, value(0.0, 0.0), sc) && x.currency == Currency::CHF, "sum of the caplets' Bachelier values at their discount factors");
        let g = cap.dv01(&m).unwrap();
        s.note(&|| format!("dv01 {g}, expected {}", value(1.0, 0.0) - value(0.0, 0.0)));
        check!(s, rel(g, value(1.0, 0.0) - value(0.0, 0.0), sc), "dv01 = value one basis point up minus value, same volatilities");
        let g = cap.gamma(&m, h, RateShiftMode::Zeros).unwrap();
        s.note(&|| format!("gamma({h}) {g}, expected {}", value(h, 0.0) + value(-h, 0.0) - 2.0 * value(0.0, 0.0)));
        check!(s, rel(g, value(h, 0.0) + value(-h, 0.0) - 2.0 * value(0.0, 0.0), sc), "gamma = value up plus value down minus twice the value");
        let mode = [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps][s.idx("other shift mode", 3)];
        check!(s, cap.gamma(&m, h, mode).is_err(), "other shift modes are refused");
        let g = cap.vega(&m, h).unwrap();
        s.note(&|| format!("vega({h}) {g}, expected {}", value(0.0, h) - value(0.0, 0.0)));
        check!(s, rel(g, value(0.0, h) - value(0.0, 0.0), sc), "vega = value with every volatility moved minus value, same curve");
        let none = IrMarketContext::new(d, Currency::CHF, c.real(), None);
        check!(s, cap.mtm(&none).is_err() && cap.dv01(&none).is_err() && cap.vega(&none, h).is_err() && cap.gamma(&none, h, RateShiftMode::Zeros).is_err(), "a market without a volatility surface is refused");
        let md = cap.modified_duration(&m).unwrap();
        let (pv, dv) = (value(0.0, 0.0), value(1.0, 0.0) - value(0.0, 0.0));
        if n == 0 { check!(s, md == 0.0, "no duration without value"); return Some(()); }
        if !s.assume(pv.abs() > 1e-4 * sc) { return None; }
        s.note(&|| format!("modified duration {md}, expected {}", -dv * 1e4 / pv));
        check!(s, (md * pv + dv * 1e4).abs() <= 1e-4 * sc, "modified duration = -dv01 * 10000 / value");
    }
    C37 cap_stripping run |s| {
        let v = num(s.date("valuation date", 1980, 2060)?);
        let c = curve(s, v);
        let n = s.int("periods", 1, 9) as usize;
        let ps = periods(s, v, n as i32);
        if !s.assume(ps[0].s > v) { return None; }
        let (a360, back) = (s.bool("Actual/360"), s.bool("backward"));
        let dc = || -> Box<dyn DayCounters> { if a360 { Box::new(Actual360) } else { Box::new(Actual365Fixed::default()) } };
        let f0 = (c.df(ps[0].s, 0.0) / c.df(ps[0].e, 0.0) - 1.0) / ((ps[0].e - ps[0].s) as f64 / if a360 { 360.0 } else { 365.0 });
        let ks = s.int("strikes", 1, 3) as usize;
        let mut k = f0 + s.f64("lowest strike off the first forward", -0.02, 0.02);
        let mut quotes: Vec<(f64, usize, f64, bool, bool, f64)> = vec![];
        let mut cols: Vec<(f64, Vec<(i32, usize)>)> = vec![];
        for _ in 0..ks {
            let mut seg: Vec<(i32, f64)> = vec![];
            let mut col = (k, vec![]);
            for m in 1..=n {
                if m == n || s.bool("quoted") {
                    let sg = s.f64("volatility", 0.004, 0.03);
                    seg.push((ps[m - 1].s, sg));
                    let (floor, sell, notional) = (s.bool("floor"), s.bool("sell"), 10f64.powf(s.f64("log10 notional", 0.0, 3.0)));
                    let at = |z: f64| ps[..m].iter().map(|x| {
                        let g = seg[..seg.len() - 1].iter().find(|q| x.s <= q.0).map_or(z, |q| q.1);
                        one(&c, 0.0, x, a360, floor, k, variance(back, g, yf(v, x.s), yf(v, x.e)))
                    }).sum::<f64>();
                    if !s.assume(at(sg) - at(1e-5) > 1e-6 && at(0.1) - at(sg) > 1e-6) { return None; }
                    col.1.push((ps[m - 1].s, quotes.len()));
                    quotes.push((k, m, at(sg) * notional * if sell { -1.0 } else { 1.0 }, floor, sell, notional));
                }
            }
            cols.push(col);
            k += s.f64("strike step", 0.001, 0.02);
        }
        let mut order: Vec<usize> = (0..quotes.len()).collect();
        if s.bool("shuffled") { for i in (1..order.len()).rev() { let j = s.idx("swap with", i + 1); order.swap(i, j); } }
        if s.bool("same last period again") {
            // passed over, whatever it says: an earlier quote of the strike has settled that segment
            let mut q = quotes[order[s.idx("repeated quote", order.len())]];
            q.5 *= 2.0;
            q.2 *= s.f64("value factor", 1.0, 3.0);
            order.push(quotes.len());
            quotes.push(q);
        }
        let md = IRCapMarketData::new(to_date(v), order.iter().map(|i| {
            let q = &quotes[*i];
            let (kind, style, direction) = kinds(q.3, back, q.4);
            CapQuote { strike: q.0, notional: q.5, direction, kind, style, currency: Currency::USD, schedule: sched(&ps[..q.1]), accrual_day_counter: dc(), market_npv: q.2 }
        }).collect());
        let mut x = IRNormalVolSurface::new(to_date(v - 1));
        let ok = x.rebuild(&c.real(), &md);
        s.note(&|| format!("valuation {}; curve {}; periods {:?}; quotes (strike, periods, value, floor, sell, notional) {:?}; rebuild {ok:?}; pillars {:?}", to_date(v), c.show(), ps.iter().map(|x| (x.s - v, x.e - v, x.pay - v)).collect::<Vec<_>>(), order.iter().map(|i| quotes[*i]).collect::<Vec<_>>(), x.pillars));
        check!(s, ok.is_ok() && x.valuation_date == to_date(v), "quotes of volatilities between 0.4% and 3% are strippable");
        let mut want: Vec<i32> = cols.iter().flat_map(|q| q.1.iter().map(|e| e.0)).collect();
        want.sort();
        want.dedup();
        check!(s, x.pillars.iter().map(|p| num(p.expiry)).collect::<Vec<_>>() == want, "one pillar per last accrual start, in order");
        for p in &x.pillars {
            let e = num(p.expiry);
            let here: Vec<&(f64, Vec<(i32, usize)>)> = cols.iter().filter(|q| q.1.iter().any(|z| z.0 <= e)).collect();
            check!(s, p.nodes.len() == here.len() && p.nodes.iter().zip(&here).all(|(a, b)| a.0 == b.0), "a node for each strike quoted to that date or before, in order");
            for (node, col) in p.nodes.iter().zip(&here) {
                let own = col.1.iter().rev().find(|z| z.0 <= e).unwrap().0;
                let q = x.pillars.iter().find(|q| num(q.expiry) == own).unwrap();
                check!(s, q.nodes.iter().any(|z| *z == *node), "with the volatility of its latest segment");
            }
        }
        for col in &cols {
            let seg: Vec<(i32, f64)> = col.1.iter().map(|z| (z.0, x.pillars.iter().find(|q| num(q.expiry) == z.0).unwrap().nodes.iter().find(|w| w.0 == col.0).unwrap().1)).collect();
            for z in &col.1 {
                let q = &quotes[z.1];
                let pv = ps[..q.1].iter().map(|x| one(&c, 0.0, x, a360, q.3, q.0, variance(back, seg.iter().find(|g| x.s <= g.0).unwrap().1, yf(v, x.s), yf(v, x.e)))).sum::<f64>() * q.5 * if q.4 { -1.0 } else { 1.0 };
                s.note(&|| format!("quote {q:?} reprices at {pv}"));
                check!(s, (pv - q.2).abs() <= 1e-9 + 1e-8 * q.5, "the stripped volatilities reprice every quote");
            }
        }
    }
}
