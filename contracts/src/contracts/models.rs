//! Model pricing formulas.
use crate::normal::{cdf, pdf};
use crate::src::Src;
use finquant::math::normal;
use finquant::models::common::bachelier::*;
use finquant::models::common::black_scholes::*;

fn close(a: f64, b: f64, sc: f64) -> bool { (a - b).abs() <= 1e-9 * sc.abs() }
pub fn bachelier(f: f64, k: f64, v: f64, om: f64) -> f64 {
    if v <= 0.0 { return (om * (f - k)).max(0.0); }
    let d = (f - k) / v.sqrt();
    v.sqrt() * pdf(d) + om * (f - k) * cdf(om * d)
}
fn black(f: f64, k: f64, sg: f64, t: f64, df: f64, om: f64) -> f64 {
    if sg <= 0.0 || t <= 0.0 { return df * (om * (f - k)).max(0.0); }
    let v = sg * t.sqrt();
    let d1 = ((f / k).ln() + 0.5 * v * v) / v;
    df * om * (f * cdf(om * d1) - k * cdf(om * (d1 - v)))
}
fn sigma<S: Src>(s: &mut S) -> f64 {
    match s.int("volatility 0=zero 1=small 2=any 3=negative", 0, 3) { 0 => 0.0, 1 => 10f64.powf(s.f64("log10 of the volatility", -7.0, -1.7)), 2 => s.f64("volatility", 0.01, 2.0), _ => s.f64("volatility", -1.0, 0.0) }
}
contracts! {
    C34 normal_functions run |s| {
        let x = match s.int("0=centre 1=tails", 0, 1) { 0 => s.f64("x", -3.0, 3.0), _ => s.f64("x", -9.0, 9.0) };
        s.note(&|| format!("x {x}: cdf {}, expected {}; pdf {}, expected {}", normal::cdf(x), cdf(x), normal::pdf(x), pdf(x)));
        check!(s, close(normal::cdf(x), cdf(x), 1.0), "cdf is the standard normal distribution function");
        check!(s, close(normal::pdf(x), pdf(x), 1.0), "pdf is the standard normal density");
        let p = s.f64("p", 1e-6, 1.0 - 1e-6);
        s.note(&|| format!("p {p}: quantile {}", normal::inverse_cdf(p)));
        check!(s, (cdf(normal::inverse_cdf(p)) - p).abs() < 1e-8, "inverse_cdf inverts the distribution function");
    }
    C34 bachelier_prices run |s| {
        // values scale with the unit of forward and strike, the variance with its square
        let unit = match s.int("unit 0=rates 1=any", 0, 1) { 0 => 1.0, _ => 10f64.powf(s.f64("log10 of the unit", -12.0, 6.0)) };
        let f = unit * s.f64("forward", -0.05, 0.2);
        let k = match s.int("strike 0=any 1=at the forward", 0, 1) { 0 => unit * s.f64("strike", -0.05, 0.2), _ => f };
        let v = unit * unit * match s.int("variance 0=zero 1=any 2=negative 3=small", 0, 3) { 0 => 0.0, 1 => s.f64("variance", 1e-9, 0.01), 2 => s.f64("variance", -1.0, 0.0), _ => 10f64.powf(s.f64("log10 of the variance", -18.0, -4.0)) };
        let size = f.abs() + k.abs() + v.abs().sqrt();
        let (c, p, w) = (bachelier_call(f, k, v), bachelier_put(f, k, v), bachelier_vega_variance(f, k, v));
        let want = if v <= 0.0 { 0.0 } else { pdf((f - k) / v.sqrt()) / (2.0 * v.sqrt()) };
        s.note(&|| format!("F {f} K {k} V {v}: call {c}, expected {}; put {p}, expected {}; vega {w}, expected {want}", bachelier(f, k, v, 1.0), bachelier(f, k, v, -1.0)));
        check!(s, close(c, bachelier(f, k, v, 1.0), size), "call = sqrt(V) density(d) + (F-K) N(d), intrinsic without variance");
        check!(s, close(p, bachelier(f, k, v, -1.0), size), "put = sqrt(V) density(d) + (K-F) N(-d), intrinsic without variance");
        check!(s, w == want || close(w, want, want + 1.0 / v.sqrt()), "derivative in the total variance, zero without variance");
    }
    C34 black_prices run |s| {
        let unit = match s.int("unit 0=one 1=any", 0, 1) { 0 => 1.0, _ => 10f64.powf(s.f64("log10 of the unit", -9.0, 6.0)) };
        let f = unit * s.f64("forward", 0.01, 200.0);
        let k = match s.int("strike 0=any 1=at the forward 2=near it", 0, 2) { 0 => unit * s.f64("strike", 0.01, 200.0), 1 => f, _ => f * s.f64("moneyness", 0.8, 1.2) };
        let (sg, t) = (sigma(s), match s.int("time 0=zero 1=any 2=negative", 0, 2) { 0 => 0.0, 1 => 10f64.powf(s.f64("log10 of the time", -6.0, 1.5)), _ => s.f64("time", -1.0, 0.0) });
        let df = s.f64("discount factor", 0.1, 1.2);
        let (c, p) = (bs_call_forward(f, k, sg, t, df), bs_put_forward(f, k, sg, t, df));
        s.note(&|| format!("F {f} K {k} sigma {sg} T {t} df {df}: call {c}, expected {}; put {p}, expected {}", black(f, k, sg, t, df, 1.0), black(f, k, sg, t, df, -1.0)));
        check!(s, close(c, black(f, k, sg, t, df, 1.0), f + k) && close(p, black(f, k, sg, t, df, -1.0), f + k), "the Black values, intrinsic without volatility or time");
        check!(s, close(c - p, df * (f - k), f + k), "put-call parity");
    }
    C34 implied_volatility run |s| {
        let f = s.f64("forward", 0.5, 100.0);
        let k = f * s.f64("moneyness", 0.6, 1.6);
        let (t, df) = (s.f64("time", 0.01, 10.0), s.f64("discount factor", 0.3, 1.1));
        let call = s.bool("call");
        let om = if call { 1.0 } else { -1.0 };
        let tol = match s.int("tolerance 0=default 1=any", 0, 1) { 0 => 1e-8, _ => 10f64.powf(s.f64("log10 tolerance", -10.0, -3.0)) };
        let x = match s.int("target 0=of a volatility 1=any", 0, 1) { 0 => black(f, k, s.f64("volatility", 1e-3, 5.5), t, df, om), _ => s.f64("target", -0.2, 1.2) * df * f.max(k) };
        let got = if tol == 1e-8 && s.bool("default") { bs_implied_vol(x, f, k, t, df, call) } else { bs_implied_vol_tol(x, f, k, t, df, call, tol) };
        let (lo, hi) = (black(f, k, 1e-8, t, df, om), black(f, k, 5.0, t, df, om));
        let sc = 1e-9 * (f + k);
        s.note(&|| format!("target {x} F {f} K {k} T {t} df {df} {om}, tolerance {tol}: {got:?}; range {lo}..{hi}"));
        match got {
            None => check!(s, x < lo - tol + sc || x > hi + tol - sc, "none only outside the prices of volatilities 1e-8 to 5"),
            Some(v) => {
                check!(s, x >= lo - tol - sc && x <= hi + tol + sc, "none outside the prices of volatilities 1e-8 to 5");
                check!(s, (1e-8..=5.0).contains(&v), "a volatility of the bracket");
                let (a, b) = (black(f, k, (v - 2e-12).max(1e-8), t, df, om), black(f, k, (v + 2e-12).min(5.0), t, df, om));
                s.note(&|| format!("reprices at {}", black(f, k, v, t, df, om)));
                check!(s, (black(f, k, v, t, df, om) - x).abs() <= tol + sc || (a <= x + tol + sc && x - tol - sc <= b), "reprices the target within the tolerance");
            }
        }
    }
}
