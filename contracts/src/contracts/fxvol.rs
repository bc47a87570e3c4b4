//! The FX volatility surface.
use crate::civil::*;
use crate::contracts::rates::*;
use crate::contracts::shim::num;
use crate::contracts::time::*;
use crate::normal::{cdf, quantile};
use crate::src::Src;
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
use FXVolQuote::*;

pub struct Pillar { pub at: i32, pub f: f64, pub q: Vec<FXVolQuote> }
/// a pillar's smile: year fraction, forward, at-the-money volatility, (strike, volatility) from low to high
pub struct Smile { at: i32, y: f64, f: f64, atm: f64, k: Vec<(f64, f64)> }
pub fn pillar<S: Src>(s: &mut S, at: i32) -> Pillar {
    let f = match s.int("forward 0=not positive", 0, 40) { 0 => s.f64("forward", -1.0, 0.0), _ => s.f64("forward", 0.2, 150.0) };
    let wild = s.int("smile 0=wild", 0, 7) == 0;
    let atm = s.f64("at-the-money volatility", 0.03, 0.4);
    let mut q = vec![Atm(atm)];
    match s.int("at-the-money 0=missing 1=twice", 0, 40) { 0 => q.clear(), 1 => q.push(Atm(atm)), _ => {} }
    let mut v = |s: &mut S| if wild { atm * s.f64("relative volatility", 0.3, 2.5) } else { atm * s.f64("relative volatility", 0.95, 1.1) };
    for _ in 0..4 - s.int("4 - deltas", 0, 4) {
        let delta = s.int("delta, in 5%", 1, 9) as f64 * 0.05;
        let near = if s.bool("noisy delta") { delta + s.f64("noise", -1e-11, 1e-11) } else { delta };
        let c = Call { delta: near, vol: v(s) };
        let p = Put { delta, vol: v(s) };
        let rr = RiskReversal { delta, vol: atm * s.f64("risk reversal", -0.08, 0.08) };
        let bf = Butterfly { delta: near, vol: atm * s.f64("butterfly", 0.0, 0.08) };
        match s.int("quotes 0,1=call and put 2,3=risk reversal and butterfly 4=all 5=one missing", 0, 40) {
            0..=14 => q.extend([c, p]),
            15..=30 => q.extend([bf, rr]),
            31..=38 => q.extend([rr, p, bf, c]),
            39 => q.extend([[rr, p], [c, bf], [c, rr], [bf, p]][s.idx("unmatched", 4)]),
            _ => { let delta = [0.5, 0.0, -0.25, 0.6][s.idx("bad delta", 4)]; q.extend([Call { delta, vol: 0.1 }, Put { delta, vol: 0.1 }]) }
        }
    }
    if !q.is_empty() { let n = s.idx("first quote", 12) % q.len(); q.rotate_left(n); }
    Pillar { at, f, q }
}
impl Pillar {
    pub fn real(&self) -> FXDeltaVolPillar { FXDeltaVolPillar { expiry: to_date(self.at), forward: self.f, quotes: self.q.clone() } }
    /// at-the-money volatility and (delta, call volatility, put volatility), deltas rising
    fn pairs(&self) -> Option<(f64, Vec<(f64, f64, f64)>)> {
        let atm: Vec<f64> = self.q.iter().filter_map(|q| if let Atm(v) = q { Some(*v) } else { None }).collect();
        if atm.len() != 1 { return None; }
        let of = |q: &FXVolQuote| match *q { Atm(_) => None, Call { delta, vol } => Some((delta, 0, vol)), Put { delta, vol } => Some((delta, 1, vol)), RiskReversal { delta, vol } => Some((delta, 2, vol)), Butterfly { delta, vol } => Some((delta, 3, vol)) };
        if self.q.iter().filter_map(of).any(|x| x.0 <= 0.0 || x.0 >= 0.5) { return None; }
        let mut out = vec![];
        for i in 1..10 {
            let d = 0.05 * i as f64;
            let last = |k: i32| self.q.iter().filter_map(of).filter(|x| (x.0 - d).abs() < 1e-6 && x.1 == k).last().map(|x| x.2);
            match (last(0), last(1), last(2), last(3)) {
                (None, None, None, None) => {}
                (Some(c), Some(p), _, _) => out.push((d, c, p)),
                (_, _, Some(rr), Some(bf)) => out.push((d, atm[0] + bf + rr / 2.0, atm[0] + bf - rr / 2.0)),
                _ => return None,
            }
        }
        if out.is_empty() { None } else { Some((atm[0], out)) }
    }
    /// None where the pillar has no smile; the flag says the float computation could go either way
    fn smile(&self, v: i32) -> (Option<Smile>, bool) {
        let y = yf(v, self.at);
        let Some((atm, z)) = self.pairs() else { return (None, false) };
        if y <= 0.0 || self.f <= 0.0 { return (None, false); }
        let at = |d: f64, x: f64| self.f * (0.5 * x * x * y - d * x * y.sqrt()).exp();
        let mut k: Vec<(f64, f64)> = z.iter().map(|&(d, _, p)| (at(quantile(1.0 - d), p), p)).collect();
        k.push((at(0.0, atm), atm));
        k.extend(z.iter().rev().map(|&(d, c, _)| (at(quantile(d), c), c)));
        let close = k.windows(2).any(|w| (w[1].0 / w[0].0).ln().abs() < 1e-3 * atm * y.sqrt());
        let rises = k.windows(2).all(|w| w[0].0 < w[1].0);
        (if rises { Some(Smile { at: self.at, y, f: self.f, atm, k }) } else { None }, close)
    }
}
impl Smile {
    fn x(&self, k: f64) -> f64 { cdf((self.f / k).ln() / (1.5 * self.atm * self.y.sqrt())) }
    fn quadratic(&self, k: f64) -> f64 {
        let a = [self.k[0], self.k[self.k.len() / 2], self.k[self.k.len() - 1]];
        let x = self.x(k);
        (0..3).map(|i| a[i].1 * (0..3).filter(|&j| j != i).map(|j| (x - self.x(a[j].0)) / (self.x(a[i].0) - self.x(a[j].0))).product::<f64>()).sum()
    }
    fn vol(&self, k: f64) -> f64 {
        let (n, q) = (self.k.len(), self.quadratic(k));
        let left = |i: usize| if i == 0 || i == n / 2 || i == n - 1 { 0.0 } else { self.k[i].1 - self.quadratic(self.k[i].0) };
        let Some(i) = (0..n - 1).find(|&i| self.k[i].0 <= k && k <= self.k[i + 1].0) else { return q };
        let w = (k / self.k[i].0).ln() / (self.k[i + 1].0 / self.k[i].0).ln();
        q + left(i) * (1.0 - w) + left(i + 1) * w
    }
}

contracts! {
    C25 fx_vol_surface run |s| {
        let v = num(s.date("valuation date", 1995, 2045)?);
        let n = 4 - s.int("4 - pillars", 0, 4);
        let mut ps: Vec<Pillar> = vec![];
        for _ in 0..n {
            let at = v + match s.int("expiry 0=on or before valuation", 0, 30) { 0 => s.int("expiry, days", -3, 0), _ => s.int("expiry, days", 1, 1500) };
            if ps.iter().any(|p| p.at == at) { continue; }
            ps.push(pillar(s, at));
        }
        let real = FXVolSurface::new(to_date(v), ps.iter().map(|p| p.real()).collect());
        s.note(&|| format!("valuation {}; pillars {:?}; surface {real:?}", to_date(v), ps.iter().map(|p| p.real()).collect::<Vec<_>>()));
        let z: Vec<(Option<Smile>, bool)> = ps.iter().map(|p| p.smile(v)).collect();
        if !s.assume(!z.iter().any(|x| x.1)) { return None; }
        let good = !z.is_empty() && z.iter().all(|x| x.0.is_some());
        check!(s, real.is_ok() == good, "a surface exactly of pillars after valuation with forward, one at-the-money and complete delta quotes, strikes rising");
        if !good { return Some(()); }
        let real = real.unwrap();
        let mut z: Vec<Smile> = z.into_iter().map(|x| x.0.unwrap()).collect();
        z.sort_by_key(|x| x.at);
        let want = |t: i32, k: f64| -> f64 {
            if let Some(x) = z.iter().find(|x| x.at == t) { return x.vol(k); }
            let (a, b) = (z.iter().rev().find(|x| x.at < t), z.iter().find(|x| x.at > t));
            match (a, b) {
                (Some(a), Some(b)) => ((a.vol(k).powi(2) * a.y * (b.at - t) as f64 + b.vol(k).powi(2) * b.y * (t - a.at) as f64) / (b.at - a.at) as f64 / yf(v, t)).sqrt(),
                (Some(a), None) | (None, Some(a)) => a.vol(k),
                _ => unreachable!(),
            }
        };
        for x in &z { for (k, vol) in &x.k {
            let g = real.volatility(to_date(x.at), *k);
            s.note(&|| format!("volatility {g:?} at the quoted strike {k} of {}, quoted {vol}", to_date(x.at)));
            check!(s, g.is_ok_and(|g| (g - vol).abs() < 1e-7), "the surface reprices every quote at its strike");
        } }
        let i = s.idx("pillar near the target", 4) % z.len();
        let t = match s.int("target 0=a pillar 1=near a pillar 2=any 3=near valuation", 0, 3) { 0 => z[i].at, 1 => z[i].at + s.int("days", -20, 20), 2 => v + s.int("days", 1, 2000), _ => v + s.int("days", -2, 20) };
        let k = match s.int("strike 0=a quoted one 1=between 2=far 3=not positive", 0, 30) { 0..=2 => z[i].k[s.idx("quote", 9) % z[i].k.len()].0, 3..=12 => z[i].f * s.f64("moneyness", 0.5, 2.0), 30 => s.f64("strike", -1.0, 0.0),
            _ => { let (a, b) = (z[i].k[0].0, z[i].k[z[i].k.len() - 1].0); a + (b - a) * s.f64("place between the outer strikes", 0.0, 1.0) } };
        let got = real.volatility(to_date(t), k);
        s.note(&|| format!("volatility {got:?} on {} at {k}", to_date(t)));
        check!(s, got.is_ok() == (t > v && k > 0.0), "volatilities for strikes above zero and dates after valuation");
        if let Ok(g) = got {
            let w = want(t, k);
            s.note(&|| format!("expected {w}"));
            check!(s, (g - w).abs() < 1e-7 * (1.0 + w.abs()) || (g.is_nan() && w.is_nan()), "the smile's quadratic plus residual, variance linear between expiries");
        }
    }
}
