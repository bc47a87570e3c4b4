//! Stochastic models: Hull-White, Cox-Ingersoll-Ross, SABR, local volatility.
use crate::src::Src;
use finquant::models::common::black_scholes::bs_call_forward;
use finquant::models::common::cir::*;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::dupire_local_vol as dupire;
use finquant::models::forex::sabr::*;
use finquant::models::interestrate::hull_white::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha20Rng;
use rand_distr::StandardNormal;
use std::f64::consts::PI;

pub fn near(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol * (1.0 + b.abs()) }
/// the draws a simulator of this seed makes, one after the other
#[derive(Clone)]
pub struct Draws(ChaCha20Rng);
impl Draws {
    pub fn new(seed: u64) -> Self { Draws(ChaCha20Rng::seed_from_u64(seed)) }
    pub fn next(&mut self) -> f64 { self.0.sample(StandardNormal) }
}
/// composite Simpson rule
pub fn integral(f: impl Fn(f64) -> f64, a: f64, b: f64, n: usize) -> f64 {
    let h = (b - a) / (2 * n) as f64;
    let s: f64 = (0..n).map(|i| { let x = a + 2.0 * i as f64 * h; f(x) + 4.0 * f(x + h) + f(x + 2.0 * h) }).sum();
    s * h / 3.0
}
fn reversion<S: Src>(s: &mut S) -> f64 {
    match s.int("mean reversion 0=any 1=zero 2=tiny 3=negative", 0, 3) { 0 => s.f64("mean reversion", 0.005, 1.5), 1 => 0.0, 2 => s.f64("mean reversion", -9e-13, 9e-13), _ => -s.f64("minus mean reversion", 0.005, 0.1) }
}
/// (1 - e^{-l t}) / l
fn duration(l: f64, t: f64) -> f64 { if l.abs() < 1e-12 { t } else { -(-l * t).exp_m1() / l } }

/// the density-free E[sqrt]: (1/sqrt(pi)) int (1 - L(u^2)) / u^2 du with the Laplace transform L of the process at t
fn cir_sqrt(p: &CirProcess, t: f64) -> f64 {
    let d = (-p.kappa * t).exp();
    let c = p.gamma * p.gamma * duration(p.kappa, t) / 4.0;
    let ell = 4.0 * p.kappa * p.theta / (p.gamma * p.gamma);
    let m = p.sigma_0 * d + p.theta * p.kappa * duration(p.kappa, t);
    let mut sum = 0.0;
    for i in -1000..=1000 {
        let y = i as f64 * 0.04;
        let u = y.exp() / m.sqrt();
        let q = 2.0 * c * u * u;
        let log_l = -0.5 * ell * q.ln_1p() - p.sigma_0 * d * u * u / (1.0 + q);
        sum += -log_l.exp_m1() / u;
    }
    sum * 0.04 / PI.sqrt()
}
/// z / x(z) with x(z) = int_0^z du / sqrt(1 - 2 rho u + u^2)
fn z_over_x(rho: f64, z: f64) -> f64 {
    if z == 0.0 { return 1.0; }
    if z.abs() > 0.5 { let o = (1.0 - rho * rho).sqrt(); return z / (((z - rho) / o).asinh() + (rho / o).asinh()); }
    z / integral(|u| 1.0 / (1.0 - 2.0 * rho * u + u * u).sqrt(), 0.0, z, 300)
}
fn drift(p: &SabrParams, fk: f64, t: f64) -> f64 {
    let b = 1.0 - p.beta;
    1.0 + t * (b * b / 24.0 * (p.alpha / fk).powi(2) + p.rho * p.beta * p.nu * p.alpha / (4.0 * fk) + (2.0 - 3.0 * p.rho * p.rho) / 24.0 * p.nu * p.nu)
}
fn hagan(p: &SabrParams, f: f64, k: f64, t: f64) -> (f64, f64) {
    let (b, l) = (1.0 - p.beta, (f / k).ln());
    let fk = ((f.ln() + k.ln()) * b / 2.0).exp();
    let z = p.nu / p.alpha * fk * l;
    let x = (b * l).powi(2);
    (p.alpha / (fk * (1.0 + x / 24.0 + x * x / 1920.0)) * z_over_x(p.rho, z) * drift(p, fk, t), z)
}
fn sabr<S: Src>(s: &mut S) -> SabrParams {
    let beta = match s.int("beta 0=any 1=normal 2=lognormal", 0, 2) { 0 => s.f64("beta", 0.0, 1.0), 1 => 0.0, _ => 1.0 };
    let nu = match s.int("vol of vol 0=any 1=zero 2=tiny", 0, 2) { 0 => s.f64("vol of vol", 0.01, 2.0), 1 => 0.0, _ => s.f64("vol of vol", 1e-9, 1e-6) };
    SabrParams::new(s.f64("alpha", 0.01, 1.0), beta, s.f64("rho", -0.95, 0.95), nu)
}
fn sabr_step(p: &SabrParams, d: &mut Draws, f: f64, a: f64, dt: f64) -> (f64, f64, f64, f64) {
    let (x, y) = (d.next(), d.next());
    let (wf, wa) = (dt.sqrt() * x, dt.sqrt() * (p.rho * x + (1.0 - p.rho * p.rho).sqrt() * y));
    let (f, a) = (f.max(0.0), a.max(0.0));
    ((f + a * f.powf(p.beta) * wf).max(0.0), a * (p.nu * wa - p.nu * p.nu * dt / 2.0).exp(), wf, wa)
}
/// where x lies: knots around it and the weight of the upper one
fn place(xs: &[f64], x: f64) -> (usize, usize, f64) {
    let n = xs.len() - 1;
    if x <= xs[0] { return (0, 0, 0.0); }
    if x >= xs[n] { return (n, n, 0.0); }
    let i = (1..=n).find(|i| xs[*i] >= x).unwrap();
    (i - 1, i, (x - xs[i - 1]) / (xs[i] - xs[i - 1]))
}
/// first derivative by the neighbours, one-sided at the ends
fn slope(y: &dyn Fn(usize) -> f64, x: &[f64], i: usize) -> f64 {
    let (a, b) = (i.saturating_sub(1), (i + 1).min(x.len() - 1));
    (y(b) - y(a)) / (x[b] - x[a])
}
/// second derivative by three points
fn bend(y: &dyn Fn(usize) -> f64, x: &[f64], i: usize) -> f64 {
    let c = i.clamp(1, x.len() - 2);
    let (a, b) = (x[c] - x[c - 1], x[c + 1] - x[c]);
    2.0 * ((y(c + 1) - y(c)) / b - (y(c) - y(c - 1)) / a) / (a + b)
}
/// schedules on shared knots: alpha, rho, nu
fn schedules<S: Src>(s: &mut S) -> (Vec<f64>, Vec<Vec<f64>>) {
    let n = s.int("segments", 1, 4) as usize;
    let mut k = vec![0.0];
    for i in 0..n { let x = k[i] + s.f64("segment", 0.05, 1.5); k.push(x); }
    let flat = s.bool("flat schedules");
    let mut v = vec![vec![], vec![], vec![]];
    for i in 0..n {
        for (j, (what, lo, hi)) in [("alpha", 0.03, 0.6), ("rho", -0.95, 0.95), ("nu", 0.0, 0.9)].into_iter().enumerate() {
            let x = if flat && i > 0 { v[j][0] } else { s.f64(what, lo, hi) };
            v[j].push(x);
        }
    }
    (k, v)
}
/// the segment of (knot, next knot] that holds t
fn segment(k: &[f64], t: f64) -> usize { (1..k.len()).find(|i| t <= k[*i] + 1e-15).unwrap_or(k.len() - 1) - 1 }
/// parameters at t
fn now(k: &[f64], v: &[Vec<f64>], beta: f64, t: f64) -> SabrParams { let i = segment(k, t); SabrParams::new(v[0][i], beta, v[1][i], v[2][i]) }
fn td_step(p: &SabrParams, alpha_0: f64, d: &mut Draws, f: f64, a: f64, dt: f64) -> (f64, f64, f64, f64) {
    let (x, y) = (d.next(), d.next());
    let (wf, wa) = (dt.sqrt() * x, dt.sqrt() * (p.rho * x + (1.0 - p.rho * p.rho).sqrt() * y));
    let (f, a) = (f.max(0.0), a.max(0.0));
    // a is alpha(0) times the lognormal driver
    ((f + p.alpha * (a / alpha_0) * f.powf(p.beta) * wf).max(0.0), a * (p.nu * wa - p.nu * p.nu * dt / 2.0).exp(), wf, wa)
}
contracts! {
    C42 hull_white_variances run |s| {
        let (l, e) = (reversion(s), s.f64("volatility", 0.0, 0.05));
        let hw = HullWhite1F { mean_reversion: l, sigma: e };
        let t = s.f64("t", 0.0, 60.0);
        let u = match s.int("T 0=any 1=t", 0, 1) { 0 => s.f64("T", 0.0, 60.0), _ => t };
        let b = -duration(l, u - t);
        s.note(&|| format!("{hw:?}, t {t}, T {u}: B {}, expected {b}", hw.b(t, u)));
        check!(s, near(hw.b(t, u), b, 1e-9), "B(t, T) = (exp(-l (T - t)) - 1) / l, minus the time to maturity without mean reversion");
        let v = if u <= t { 0.0 } else { e * e * duration(2.0 * l, u - t) };
        s.note(&|| format!("{hw:?}, t {t}, T {u}: variance {}, expected {v}", hw.short_rate_variance(t, u)));
        check!(s, (hw.short_rate_variance(t, u) - v).abs() <= 1e-9 * v + 1e-15, "variance of the short rate between two times");
        let a = s.f64("from", 0.0, 20.0);
        let z = match s.int("to 0=any 1=from", 0, 1) { 0 => a + s.f64("length", 0.0, 10.0), _ => a };
        let w = integral(|x| (e * duration(l, u - x)).powi(2), a, z, 300);
        let top = (e * duration(l, u - a)).powi(2).max((e * duration(l, u - z)).powi(2));
        s.note(&|| format!("{hw:?}, from {a} to {z}, T {u}: bond variance {}, expected {w}", hw.bond_log_variance(a, z, u)));
        check!(s, (hw.bond_log_variance(a, z, u) - w).abs() <= 1e-7 * w + 1e-9 * top + 1e-7 * e * e, "integrated squared bond volatility");
    }
    C42 hull_white_discount run |s| {
        let (l, e) = (reversion(s), s.f64("volatility", 0.0, 0.05));
        let hw = HullWhite1F { mean_reversion: l, sigma: e };
        let t = match s.int("t 0=any 1=zero", 0, 1) { 0 => s.f64("t", 0.0, 60.0), _ => 0.0 };
        let u = match s.int("T 0=any 1=t", 0, 1) { 0 => t + s.f64("time to maturity", 0.0, 60.0), _ => t };
        let (p, q, f) = (s.f64("discount factor at t", 0.3, 1.1), s.f64("discount factor at T", 0.3, 1.1), s.f64("forward", -0.02, 0.1));
        let r = match s.int("rate 0=any 1=forward", 0, 1) { 0 => s.f64("rate", -0.05, 0.2), _ => f };
        let b = duration(l, u - t);
        let w = q / p * (b * (f - r) - 0.5 * e * e * duration(2.0 * l, t) * b * b).exp();
        let got = hw.discount_affine(t, u, r, p, q, f);
        s.note(&|| format!("{hw:?}, t {t}, T {u}, rate {r}, market {p} {q} {f}: {got}, expected {w}"));
        check!(s, near(got, w, 1e-9), "the affine bond formula");
    }
    C42 hull_white_path run |s| {
        let (l, e) = (reversion(s), s.f64("volatility", 0.0, 0.05));
        let hw = HullWhite1F { mean_reversion: l, sigma: e };
        let seed = s.int("seed", 0, 1000) as u64;
        let (r0, c) = (s.f64("start", -0.05, 0.1), s.f64("target", -0.05, 0.1));
        let slope = match s.int("target 0=constant 1=of time", 0, 1) { 0 => 0.0, _ => s.f64("target slope", -0.01, 0.01) };
        let mut sim = HullWhiteSimulator::new_constant_theta(hw, r0, c, seed);
        if slope != 0.0 {
            let mut calls = 0;
            sim = sim.with_theta_fn(move |t| { calls += 1; c + slope * t + 0.001 * calls as f64 });
        }
        check!(s, sim.initial_state() == r0, "paths start at the given rate");
        let mut d = Draws::new(seed);
        let n = s.int("steps", 1, 5);
        let mut x = r0;
        let mut t = 0.0;
        for k in 1..=n {
            let dt = s.f64("step", 0.0, 1.0);
            let th = if slope == 0.0 { c } else { c + slope * t + 0.001 * k as f64 };
            let w = x + l * (th - x) * dt + e * dt.sqrt() * d.next();
            let got = sim.step(&x, t, dt);
            s.note(&|| format!("{hw:?}, step {k} of {dt} at {t} from {x}: {got}, expected {w}"));
            check!(s, near(got, w, 1e-12), "one step: mean reversion to the target at that time plus scaled normal noise");
            x = got;
            t += dt;
        }
    }
    C43 cir_moments run |s| {
        let p = CirProcess { kappa: s.f64("kappa", 0.01, 5.0), theta: s.f64("theta", 0.001, 1.0), gamma: s.f64("gamma", 0.01, 2.0), sigma_0: match s.int("start 0=any 1=zero", 0, 1) { 0 => s.f64("start", 0.001, 1.0), _ => 0.0 } };
        let t = match s.int("t 0=any 1=zero 2=short 3=negative 4=next to zero", 0, 4) { 0 => s.f64("t", 0.01, 30.0), 1 => 0.0, 2 => s.f64("t", 1e-6, 0.01), 4 => 10f64.powf(s.f64("log10 of t", -20.0, -6.0)), _ => -s.f64("minus t", 0.0, 1.0) };
        let u = duration(p.kappa, t) ;
        let d = 1.0 - p.kappa * u;
        let (m, v) = if t <= 0.0 { (p.sigma_0, 0.0) } else { (p.sigma_0 * d + p.theta * p.kappa * u, p.gamma * p.gamma * (p.sigma_0 * d * u + p.theta * p.kappa * u * u / 2.0)) };
        s.note(&|| format!("{p:?} at {t}: mean {}, expected {m}; variance {}, expected {v}", p.mean(t), p.variance(t)));
        check!(s, near(p.mean(t), m, 1e-12), "mean of the process");
        check!(s, near(p.variance(t), v, 1e-12), "variance of the process");
        check!(s, p.feller_satisfied() == (2.0 * p.kappa * p.theta >= p.gamma * p.gamma), "Feller condition");
        let tol = match s.int("tolerance 0=default 1=any", 0, 1) { 0 => 1e-14, _ => 10f64.powf(s.f64("log10 tolerance", -14.0, -6.0)) };
        let got = if tol == 1e-14 { p.sqrt_mean(t) } else { p.sqrt_mean_tol(t, tol) };
        if t <= 0.0 {
            check!(s, near(got, p.sigma_0.sqrt(), 1e-14), "at the start the root of the start");
        } else {
            let w = cir_sqrt(&p, t);
            let eps = p.sigma_0 * d * 4.0 / (p.gamma * p.gamma * u);
            s.note(&|| format!("{p:?} at {t}, tolerance {tol}: E[sqrt] {got}, expected {w}; non-centrality {eps}"));
            if eps > 500.0 {
                let y = m.sqrt() * (1.0 - v / (8.0 * m * m));
                if eps > 500.001 { check!(s, (got - y).abs() <= 1e-10 * y, "just after the start: root of the mean, corrected for the variance"); }
                check!(s, (got - w).abs() <= 1e-4 * w, "just after the start: the mean of the square root to second order");
            } else {
                // the series leaves out a tail of at most a few hundred terms below the tolerance
                check!(s, (got - w).abs() <= (1e-8 + 600.0 * tol) * w, "the mean of the square root");
            }
        }
    }
    C43 cir_limit run |s| {
        let p = CirProcess { kappa: s.f64("kappa", 0.05, 5.0), theta: s.f64("theta", 0.001, 1.0), gamma: s.f64("gamma", 0.02, 2.0), sigma_0: s.f64("start", 0.0, 1.0) };
        let w = cir_sqrt(&p, 60.0 / p.kappa);
        let x = p.sqrt_mean_proxy();
        s.note(&|| format!("{p:?}: E[sqrt] in the limit {}, expected {w}; proxy {x:?}", p.sqrt_mean_infinity()));
        check!(s, (p.sqrt_mean_infinity() - w).abs() <= 1e-8 * w, "limit of the mean of the square root");
        let t = s.f64("t", 0.0, 20.0);
        let y = w + (p.sigma_0.sqrt() - w) * (-p.kappa * t).exp();
        s.note(&|| format!("{p:?} at {t}: proxy {}, expected {y}", x.eval(t)));
        check!(s, near(x.eval(t), y, 1e-8), "the proxy decays from the root of the start to the limit");
        let still = CirProcess { gamma: 0.0, ..p };
        check!(s, t <= 0.0 || near(still.sqrt_mean(t), still.mean(t).sqrt(), 1e-12), "without volatility the root of the mean");
    }
    C43 cir_path run |s| {
        let p = CirProcess { kappa: s.f64("kappa", 0.01, 5.0), theta: s.f64("theta", 0.001, 0.5), gamma: s.f64("gamma", 0.0, 2.0), sigma_0: s.f64("start", 0.0, 0.5) };
        let seed = s.int("seed", 0, 1000) as u64;
        let mut sim = CirSimulator::new(p, seed);
        check!(s, sim.initial_state() == p.sigma_0, "paths start at the given value");
        let mut d = Draws::new(seed);
        let n = s.int("steps", 1, 6);
        let mut x = match s.int("from 0=start 1=below zero", 0, 1) { 0 => p.sigma_0, _ => -s.f64("minus from", 0.0, 1.0) };
        for k in 1..=n {
            let dt = s.f64("step", 0.0, 0.5);
            let y = x.max(0.0);
            let w = (y + p.kappa * (p.theta - y) * dt + p.gamma * (y * dt).sqrt() * d.next()).max(0.0);
            let got = sim.step(&x, 0.1 * k as f64, dt);
            s.note(&|| format!("{p:?}, step {k} of {dt} from {x}: {got}, expected {w}"));
            check!(s, near(got, w, 1e-12) && got >= 0.0, "one step, cut at zero");
            x = got;
        }
    }
    C44 sabr_volatility run |s| {
        let p = sabr(s);
        let f = match s.int("forward 0=usual 1=any", 0, 1) { 0 => s.f64("forward", 0.1, 20.0), _ => 10f64.powf(s.f64("log10 of the forward", -5.0, 4.0)) };
        let k = match s.int("strike 0=any 1=forward 2=next to it 3=closer", 0, 3) { 0 => f * s.f64("moneyness", 0.3, 3.0), 1 => f, 2 => f * (1.0 + s.f64("offset", -1e-6, 1e-6)), _ => f * (1.0 + s.f64("small offset", -9e-9, 9e-9) * p.alpha / f.powf(1.0 - p.beta) / p.nu.max(1e-3)) };
        let t = s.f64("expiry", 0.01, 10.0);
        let (w, z) = hagan(&p, f, k, t);
        let got = hagan_implied_vol(&p, f, k, t);
        let noise = if z.abs() < 9e-9 { -1e-8 + 2e-10 } else { 4e-15 * (1.0 / z.abs() + z * z) / (1.0 - p.rho.abs()) };
        s.note(&|| format!("{p:?}, forward {f}, strike {k}, expiry {t}: {got}, expected {w} (z {z})"));
        check!(s, (got - w).abs() <= (1e-8 + noise) * w.abs().max(p.alpha), "the implied volatility of Hagan, Kumar, Lesniewski and Woodward");
        let (a, at) = (hagan_atm_vol(&p, f, t), p.alpha / f.powf(1.0 - p.beta) * drift(&p, f.powf(1.0 - p.beta), t));
        s.note(&|| format!("{p:?}, forward {f}, expiry {t}: at the money {a}, expected {at}"));
        check!(s, near(a, at, 1e-10), "the volatility at the money");
        check!(s, near(hagan_implied_vol(&p, f, f, t), a, 1e-10), "at the money the smile is the volatility at the money");
    }
    C44 sabr_path run |s| {
        let p = sabr(s);
        let seed = s.int("seed", 0, 1000) as u64;
        let f0 = s.f64("forward", 0.1, 5.0);
        let mut sim = SabrSimulator::new(p, f0, seed);
        let i = sim.initial_state();
        check!(s, i.forward == f0 && i.vol == p.alpha, "paths start at the forward and alpha");
        let mut d = Draws::new(seed);
        let dt = s.f64("step", 0.001, 1.0);
        let mut x = SabrState { forward: match s.int("from 0=forward 1=zero 2=below zero", 0, 2) { 0 => f0, 1 => 0.0, _ => -0.1 }, vol: p.alpha };
        for k in 0..s.int("steps", 1, 4) {
            let (f, a, wf, wa) = sabr_step(&p, &mut d, x.forward, x.vol, dt);
            let (y, w) = if k % 2 == 0 { sim.step_with_noise(&x, dt) } else { (sim.step(&x, k as f64, dt), [wf, wa]) };
            s.note(&|| format!("{p:?}, step {k} of {dt} from {x:?}: {y:?} with {w:?}, expected {f} {a} with {wf} {wa}"));
            check!(s, near(y.forward, f, 1e-11) && near(y.vol, a, 1e-11) && near(w[0], wf, 1e-12) && near(w[1], wa, 1e-12), "one step: Euler in the forward, exact in the volatility, with correlated increments");
            x = y;
        }
        let (n, m) = (s.int("steps per path", 1, 4) as usize, s.int("paths", 1, 4) as usize);
        let end = s.f64("end", 0.1, 3.0);
        let got = SabrSimulator::new(p, f0, seed).simulate(end, n, m);
        let mut d = Draws::new(seed);
        let want: Vec<(f64, f64)> = (0..m).map(|_| (0..n).fold((f0, p.alpha), |(f, a), _| { let r = sabr_step(&p, &mut d, f, a, end / n as f64); (r.0, r.1) })).collect();
        s.note(&|| format!("{p:?}, {m} paths of {n} steps to {end}: {got:?}, expected {want:?}"));
        check!(s, got.len() == m && got.iter().zip(&want).all(|(g, w)| near(g.forward, w.0, 1e-9) && near(g.vol, w.1, 1e-9)), "paths one after the other, each of equal steps to the end");
    }
    C45 local_variance_surface run |s| {
        let (nt, nk) = (s.int("expiries", 3, 5) as usize, s.int("strikes", 3, 6) as usize);
        let spot = s.f64("spot", 0.5, 2.0);
        let (rd, rf) = (s.f64("domestic rate", -0.02, 0.1), s.f64("foreign rate", -0.02, 0.1));
        let mut e = vec![s.f64("first expiry", 0.05, 1.0)];
        for i in 1..nt { let x = e[i - 1] + s.f64("expiry gap", 0.05, 1.0); e.push(x); }
        let mut k = vec![spot * s.f64("first strike", 0.4, 0.95)];
        for j in 1..nk { let x = k[j - 1] + spot * s.f64("strike gap", 0.02, 0.2); k.push(x); }
        let flat = s.bool("flat volatility");
        let base = s.f64("volatility", 0.05, 0.5);
        let vols: Vec<Vec<f64>> = (0..nt).map(|_| (0..nk).map(|_| if flat { base } else { base * s.f64("volatility factor", 0.8, 1.2) }).collect()).collect();
        let c: Vec<Vec<f64>> = (0..nt).map(|i| (0..nk).map(|j| bs_call_forward(spot * ((rd - rf) * e[i]).exp(), k[j], vols[i][j], e[i], (-rd * e[i]).exp())).collect()).collect();
        let sf = dupire::build(&e, &k, &vols, spot, rd, rf);
        check!(s, sf.expiries == e && sf.strikes == k && sf.variance.len() == nt && sf.variance.iter().all(|r| r.len() == nk), "the surface is on the grid of the market");
        for i in 0..nt {
            for j in 0..nk {
                let above = slope(&|a| c[a][j], &e, i) + (rd - rf) * k[j] * slope(&|b| c[i][b], &k, j) + rf * c[i][j];
                let below = k[j] * k[j] * bend(&|b| c[i][b], &k, j);
                // too close to the change of rule for rounding to tell
                if (below - 1e-8).abs() < 1e-9 || above.abs() < 1e-11 { continue; }
                let w = if below > 1e-8 && above > 0.0 { 2.0 * above / below } else { vols[i][j] * vols[i][j] }.clamp(1e-4, 4.0);
                let got = sf.variance[i][j];
                if (got - w).abs() > 1e-9 * w { s.note(&|| format!("expiries {e:?}, strikes {k:?}, volatilities {vols:?}, spot {spot}, rates {rd} {rf}: variance {got} at {i} {j}, expected {w} (numerator {above}, denominator {below})")); }
                check!(s, (got - w).abs() <= 1e-8 * w + 1e-11 * w / below.abs().max(1e-8) + 1e-11 * w / above.abs(), "the Dupire variance of the node, the market variance where it is not defined, between 0.01 and 2 squared");
            }
        }
        let x = match s.int("t 0=any 1=on the grid", 0, 1) { 0 => s.f64("t", 0.0, 6.0), _ => e[s.idx("t index", nt)] };
        let y = match s.int("k 0=any 1=on the grid", 0, 1) { 0 => s.f64("k", 0.1, 4.0), _ => k[s.idx("k index", nk)] };
        let ((a, b, p), (c0, d0, q)) = (place(&e, x), place(&k, y));
        let row = |i: usize| (1.0 - q) * sf.variance[i][c0] + q * sf.variance[i][d0];
        let w = (1.0 - p) * row(a) + p * row(b);
        s.note(&|| format!("surface {sf:?} at {x} {y}: {} {}, expected {w}", sf.local_variance(x, y), sf.local_vol(x, y)));
        check!(s, near(sf.local_variance(x, y), w, 1e-12) && near(sf.local_vol(x, y), w.sqrt(), 1e-10), "bilinear between the nodes, flat outside");
        check!(s, sf.t_range() == (e[0], e[nt - 1]) && sf.k_range() == (k[0], k[nk - 1]), "the ranges of the grid");
    }
    C41 simplex_walk run |s| {
        use finquant::math::optimize::{nelder_mead, NelderMeadOptions};
        let n = s.int("dimension", 1, 4) as usize;
        let x0: Vec<f64> = (0..n).map(|_| match s.int("start 0=any 1=zero 2=tiny", 0, 2) { 0 => s.f64("start", -3.0, 3.0), 1 => 0.0, _ => s.f64("tiny start", -2e-12, 2e-12) }).collect();
        let c: Vec<f64> = (0..n).map(|_| s.f64("minimum", -3.0, 3.0)).collect();
        let w: Vec<f64> = (0..n).map(|_| s.f64("weight", 0.1, 5.0)).collect();
        let (kind, mix, wave) = (s.int("objective 0=bowl 1=kinks 2=waves 3=steps", 0, 3), s.f64("mixing", -0.5, 0.5), s.f64("wave", 1.0, 9.0));
        let val = |x: &[f64]| -> f64 {
            let d: Vec<f64> = (0..n).map(|i| x[i] - c[i] + mix * x[(i + 1) % n]).collect();
            match kind {
                0 => (0..n).map(|i| w[i] * d[i] * d[i]).sum(),
                1 => (0..n).map(|i| w[i] * d[i].abs()).sum(),
                2 => (0..n).map(|i| w[i] * d[i] * d[i] + (wave * d[i]).sin()).sum(),
                _ => (0..n).map(|i| (w[i] * d[i].abs() * 2.0).floor()).sum(),
            }
        };
        let q = NelderMeadOptions {
            max_iter: s.int("iterations", 0, 120) as usize,
            ftol: 10f64.powf(s.f64("log10 ftol", -9.0, 1.0)), xtol: 10f64.powf(s.f64("log10 xtol", -9.0, 0.5)),
            step_frac: match s.int("step 0=any 1=tiny", 0, 1) { 0 => s.f64("step", 0.01, 0.5), _ => s.f64("tiny step", 1e-6, 1e-3) },
        };
        let log = std::cell::RefCell::new(Vec::<Vec<f64>>::new());
        let m = nelder_mead(|x: &[f64]| { log.borrow_mut().push(x.to_vec()); val(x) }, &x0, q);
        let log = log.into_inner();
        s.note(&|| format!("kind {kind}, minimum {c:?}, weights {w:?}, mixing {mix}, wave {wave}, from {x0:?} with {q:?}: {m:?} after {} points", log.len()));
        check!(s, m.f == val(&m.x), "the reported value is that of the reported point");
        check!(s, log.iter().all(|x| m.f <= val(x)) && log.contains(&m.x), "the reported point is the best of all points the objective was asked for");
        let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(p, r)| (p - r).abs() <= 1e-13 * (1.0 + r.abs()));
        let start: Vec<Vec<f64>> = (0..=n).map(|i| (0..n).map(|j| if i == j + 1 { x0[j] + if x0[j].abs() > 1e-12 { q.step_frac * x0[j].abs() } else { q.step_frac.max(1e-4) } } else { x0[j] }).collect()).collect();
        check!(s, log.len() > n && (0..=n).all(|i| same(&log[i], &start[i])), "first the start and the start moved along each axis");
        let mut t: Vec<Vec<f64>> = log[..=n].to_vec();
        let mut p = n + 1;
        let (mut done, mut its) = (false, 0);
        while its < q.max_iter {
            its += 1;
            let mut o: Vec<usize> = (0..=n).collect();
            o.sort_by(|a, b| val(&t[*a]).total_cmp(&val(&t[*b])));
            let (b, v) = (val(&t[o[0]]), val(&t[o[n]]));
            let width = (0..n).map(|j| t.iter().map(|x| x[j]).fold(f64::MIN, f64::max) - t.iter().map(|x| x[j]).fold(f64::MAX, f64::min)).fold(0.0, f64::max);
            if v - b < q.ftol && width < q.xtol { done = true; break; }
            let mid: Vec<f64> = (0..n).map(|j| o[..n].iter().map(|i| t[*i][j]).sum::<f64>() / n as f64).collect();
            let along = |k: f64| -> Vec<f64> { (0..n).map(|j| mid[j] + k * (mid[j] - t[o[n]][j])).collect() };
            let next = |p: usize, x: &[f64]| log.get(p).is_some_and(|y| same(y, x));
            check!(s, next(p, &along(1.0)), "an iteration asks for the reflection of the worst vertex in the centroid of the others");
            let r = val(&log[p]);
            p += 1;
            if r >= b && r < val(&t[o[n - 1]]) { t[o[n]] = log[p - 1].clone(); continue; }
            if r < b {
                check!(s, next(p, &along(2.0)), "a new best is pushed twice as far");
                t[o[n]] = if val(&log[p]) < r { log[p].clone() } else { log[p - 1].clone() };
                p += 1;
                continue;
            }
            check!(s, next(p, &along(-0.5)), "a poor reflection is followed by the point half way between the centroid and the worst vertex");
            p += 1;
            if val(&log[p - 1]) < v { t[o[n]] = log[p - 1].clone(); continue; }
            let best = t[o[0]].clone();
            for k in 1..=n {
                let x: Vec<f64> = (0..n).map(|j| (best[j] + t[o[k]][j]) / 2.0).collect();
                check!(s, next(p, &x), "otherwise all vertices are pulled half way to the best one");
                t[o[k]] = log[p].clone();
                p += 1;
            }
        }
        check!(s, p == log.len() && m.iterations == its && m.converged == done, "iterations until the simplex is within both tolerances, or as many as allowed");
        let mut k = 0;
        for i in 1..=n { if val(&t[i]) < val(&t[k]) { k = i; } }
        check!(s, m.x == t[k], "the result is the first best vertex");
    }
    C46 effective_parameters run |s| {
        use finquant::models::forex::sabr_effective::*;
        let n = s.int("segments", 1, 5) as usize;
        let mut k = vec![0.0];
        for i in 0..n { let x = k[i] + s.f64("segment", 0.02, 2.0); k.push(x); }
        let small = s.int("vol of vol 0=any 1=tiny 2=zero 3=large", 0, 3);
        // the second moment grows like exp(6 x): x stays below five
        let cap = (4.5 / k[n]).sqrt();
        let g: Vec<f64> = (0..n).map(|_| match small { 3 => s.f64("large vol of vol", 0.5, 1.0) * cap, 0 => s.f64("vol of vol", 0.01, 0.9), 1 => s.f64("tiny vol of vol", 1e-4, 1e-2), _ => 0.0 }).collect();
        let flat = s.bool("flat level");
        let o0 = s.f64("level", 0.05, 1.0);
        let o: Vec<f64> = (0..n).map(|_| if flat { o0 } else { s.f64("level of the segment", 0.05, 1.0) }).collect();
        let p: Vec<f64> = (0..n).map(|_| s.f64("correlation", -0.95, 0.95)).collect();
        let (gs, os, ps) = (PiecewiseConstant::new(k.clone(), g.clone()), PiecewiseConstant::new(k.clone(), o.clone()), PiecewiseConstant::new(k.clone(), p.clone()));
        check!(s, gs.knots == k && gs.values == g && gs.n_segments() == n && gs.final_time() == k[n], "a schedule keeps its knots and values");
        let i = s.idx("segment of the time", n);
        let t = match s.int("time 0=inside 1=right knot 2=start", 0, 2) { 0 => k[i] + (k[i + 1] - k[i]) * s.f64("part of the segment", 0.001, 0.999), 1 => k[i + 1], _ => 0.0 };
        let w = if t == 0.0 { g[0] } else { g[i] };
        s.note(&|| format!("knots {k:?}, values {g:?} at {t}: {}, expected {w}", gs.at(t)));
        check!(s, gs.at(t) == w, "the value of the segment that ends at or after the time");
        let c = PiecewiseConstant::constant(k[n], o0);
        check!(s, c.knots == [0.0, k[n]] && c.values == [o0], "a constant schedule has one segment");
        // the two integrals up to the end of m segments, by quadrature
        let m = 1 + s.idx("segments before the expiry", n);
        let big_t = k[m];
        let (mut a, mut j, mut l, mut gam) = (0.0, 0.0, 0.0, 0.0);
        const N: usize = 300;
        for q in 0..m {
            let (g2, o2) = (g[q] * g[q], o[q] * o[q]);
            let h = (k[q + 1] - k[q]) / N as f64;
            for r in 0..N {
                let at = |x: f64| gam + g2 * (r as f64 + x) * h;
                let inner = |x: f64| { let (u, v) = (at(0.0), at(x)); j + o2 * x * h / 6.0 * ((5.0 * u).exp() + 4.0 * (2.5 * (u + v)).exp() + (5.0 * v).exp()) };
                a += o2 * h / 6.0 * (at(0.0).exp() + 4.0 * at(0.5).exp() + at(1.0).exp());
                l += o2 * h / 6.0 * (at(0.0).exp() * inner(0.0) + 4.0 * at(0.5).exp() * inner(0.5) + at(1.0).exp() * inner(1.0));
                j = inner(1.0);
            }
            gam += g2 * (k[q + 1] - k[q]);
        }
        let (v, lev, cor) = (effective_vol_vol(&gs, &os, big_t), effective_term_structure(&gs, &os, big_t), effective_correlation(&gs, &os, &ps, big_t));
        let x = v * v * big_t;
        let u = x.exp();
        // (u^6/6 - u + 5/6)/(u - 1)^2 with the common factor divided out
        let right = a * a / 30.0 * (u.powi(4) + 2.0 * u.powi(3) + 3.0 * u * u + 4.0 * u + 5.0);
        s.note(&|| format!("knots {k:?}, vol of vol {g:?}, level {o:?}, correlation {p:?}, expiry {big_t}: {v} {lev} {cor}; integral {a}, left side {l}, right side {right}"));
        check!(s, v >= 0.0 && near(right / l, 1.0, 1e-7), "the effective vol of vol matches the second moment of the realised variance");
        if small == 2 { check!(s, v == 0.0 || v < 1e-4, "no vol of vol, no effective vol of vol"); }
        let level2 = if x > 1e-9 { v * v * a / x.exp_m1() } else { a / big_t };
        check!(s, lev >= 0.0 && near(lev * lev, level2, 1e-6), "the effective level matches the first moment");
        if v > 1e-6 {
            let sum: f64 = (0..m).map(|q| p[q] * g[q] / o[q] * (k[q + 1] - k[q])).sum();
            let want = lev / (v * big_t) * sum;
            s.note(&|| format!("effective correlation {cor}, expected {want}"));
            check!(s, near(cor, want, 1e-9), "the effective correlation is the average weighted by vol of vol over level");
        } else if v == 0.0 { check!(s, cor == 0.0, "no effective correlation without vol of vol"); }
    }
    C47 time_dependent_sabr_path run |s| {
        use finquant::models::forex::sabr_effective::PiecewiseConstant;
        use finquant::models::forex::sabr_time_dependent::*;
        let (k, v) = schedules(s);
        let n = k.len() - 1;
        let beta = match s.int("beta 0=any 1=one 2=zero", 0, 2) { 0 => s.f64("beta", 0.0, 1.0), 1 => 1.0, _ => 0.0 };
        let f0 = s.f64("forward", 0.5, 2.0);
        let make = || { let c = |j: usize| PiecewiseConstant::new(k.clone(), v[j].clone()); TimeDependentSabrParams::new(c(0), c(1), c(2), beta, f0) };
        let q = make();
        check!(s, q.alpha.values == v[0] && q.rho.values == v[1] && q.nu.values == v[2] && q.beta == beta && q.forward_0 == f0 && q.horizon() == k[n], "the schedules are kept, the horizon is their last knot");
        let t = match s.int("time 0=inside 1=knot", 0, 1) { 0 => s.f64("time part", 0.0, 1.0) * k[n], _ => k[s.idx("knot", n + 1)] };
        let (p, w) = (q.at(t), now(&k, &v, beta, t));
        s.note(&|| format!("knots {k:?}, schedules {v:?} at {t}: {p:?}, expected {w:?}"));
        check!(s, p.alpha == w.alpha && p.rho == w.rho && p.nu == w.nu && p.beta == beta, "the parameters of the segment that holds the time");
        let seed = s.int("seed", 0, 1 << 30) as u64;
        let mut sim = TimeDependentSabrSimulator::new(make(), seed);
        let mut d = Draws::new(seed);
        let mut x = sim.initial_state();
        check!(s, x.forward == f0 && x.vol == v[0][0], "the initial state");
        for _ in 0..3 {
            let dt = s.f64("dt", 0.001, 0.4) * k[n];
            let from = match s.int("step from 0=any 1=knot", 0, 1) { 0 => s.f64("start", 0.0, 0.6) * k[n], _ => k[s.idx("start knot", n)] }.min(k[n] - dt);
            let whole = s.bool("step of the model");
            let mid = from + dt / 2.0;
            // a knot in the middle: rounding decides
            if k.iter().any(|y| (y - mid).abs() < 1e-12) { continue; }
            let (f, a, wf, wa) = td_step(&now(&k, &v, beta, mid), v[0][0], &mut d, x.forward, x.vol, dt);
            let (y, g) = if whole { (sim.step(&x, mid, dt), [wf, wa]) } else { sim.step_with_noise(&x, mid, dt) };
            s.note(&|| format!("knots {k:?}, schedules {v:?}, beta {beta}, step of {dt} from {from} at {x:?}: {y:?} with {g:?}, expected {f} {a} with {wf} {wa}"));
            check!(s, near(y.forward, f, 1e-11) && near(y.vol, a, 1e-11) && near(g[0], wf, 1e-12) && near(g[1], wa, 1e-12), "one step under the parameters of its middle");
            x = y;
        }
        let (ns, m) = (s.int("steps per path", 1, 5) as usize, s.int("paths", 1, 4) as usize);
        let end = match s.int("end 0=any 1=horizon", 0, 1) { 0 => s.f64("part of the horizon", 0.1, 1.0) * k[n], _ => k[n] };
        let h = end / ns as f64;
        let sharp = (0..ns).any(|j| k.iter().any(|y| (y - (j as f64 + 0.5) * h).abs() < 1e-12));
        if !sharp {
            let got = TimeDependentSabrSimulator::new(make(), seed).simulate(end, ns, m);
            let mut d = Draws::new(seed);
            let want: Vec<(f64, f64)> = (0..m).map(|_| (0..ns).fold((f0, v[0][0]), |(f, a), j| { let r = td_step(&now(&k, &v, beta, (j as f64 + 0.5) * h), v[0][0], &mut d, f, a, h); (r.0, r.1) })).collect();
            s.note(&|| format!("knots {k:?}, schedules {v:?}, beta {beta}, {m} paths of {ns} steps to {end}: {got:?}, expected {want:?}"));
            check!(s, got.len() == m && got.iter().zip(&want).all(|(g, w)| near(g.forward, w.0, 1e-9) && near(g.vol, w.1, 1e-9)), "paths one after the other, each of equal steps to the end");
        }
        let flat = v.iter().all(|x| x.windows(2).all(|w| (w[0] - w[1]).abs() < 1e-12));
        let c = TimeDependentSabrSimulator::new(make(), seed).reduces_to_constant();
        check!(s, c.is_some() == flat, "reduces to constant parameters exactly when every schedule is flat");
        if let Some(mut c) = c {
            check!(s, c.params.alpha == v[0][0] && c.params.beta == beta && c.params.rho == v[1][0] && c.params.nu == v[2][0] && c.forward_0 == f0, "the constant parameters");
            let (a, b) = (c.simulate(end, ns, m), TimeDependentSabrSimulator::new(make(), 0).simulate(end, ns, m));
            s.note(&|| format!("{a:?} and {b:?}"));
            check!(s, a.iter().zip(&b).all(|(x, y)| near(x.forward, y.forward, 1e-12) && near(x.vol, y.vol, 1e-12)), "flat schedules give the paths of the constant model");
        }
    }
    C48 local_volatility_particles run |s| {
        use finquant::models::forex::sabr_effective::PiecewiseConstant;
        use finquant::models::forex::sabr_slv::*;
        use finquant::models::forex::sabr_time_dependent::*;
        let (k, v) = schedules(s);
        let n = k.len() - 1;
        let beta = match s.int("beta 0=any 1=one", 0, 1) { 0 => s.f64("beta", 0.1, 1.0), _ => 1.0 };
        let f0 = s.f64("forward", 0.5, 2.0);
        let q = { let c = |j: usize| PiecewiseConstant::new(k.clone(), v[j].clone()); TimeDependentSabrParams::new(c(0), c(1), c(2), beta, f0) };
        let (nt, nk) = (s.int("expiries", 1, 3) as usize, s.int("strikes", 1, 4) as usize);
        let e: Vec<f64> = (0..nt).map(|i| k[n] * (0.2 + 0.35 * i as f64)).collect();
        let x: Vec<f64> = (0..nk).map(|j| f0 * (0.7 + 0.2 * j as f64)).collect();
        let lv = dupire::DupireLocalVol { variance: (0..nt).map(|_| (0..nk).map(|_| s.f64("local variance", 0.001, 0.2)).collect()).collect(), expiries: e.clone(), strikes: x.clone() };
        let (ns, m, nb) = (s.int("steps", 1, 4) as usize, s.int("particles", 1, 12) as usize, s.int("bins", 2, 5) as usize);
        let given = s.bool("bins given");
        let seed = s.int("seed", 0, 1 << 30) as u64;
        let end = s.f64("part of the horizon", 0.1, 1.0) * k[n];
        let h = end / ns as f64;
        if (0..ns).any(|j| k.iter().any(|y| (y - (j as f64 + 0.5) * h).abs() < 1e-12)) { return Some(()); }
        let mut sim = TimeDependentSabrSlvSimulator::new(q, lv.clone(), seed);
        check!(s, sim.n_bins == 50, "50 bins unless told otherwise");
        if given { sim = sim.with_bins(nb); check!(s, sim.n_bins == nb, "as many bins as told"); }
        let nb = if given { nb } else { 50 };
        let got = sim.simulate(end, ns, m);
        let mut d = Draws::new(seed);
        let mut all = vec![(f0, v[0][0]); m];
        for j in 0..ns {
            let mid = (j as f64 + 0.5) * h;
            let p = now(&k, &v, beta, mid);
            let mut by: Vec<(f64, f64)> = all.iter().map(|(f, a)| (*f, a * a)).collect();
            by.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let bins: Vec<(f64, f64)> = by.chunks((m + nb - 1) / nb).map(|c| (c[c.len() - 1].0, c.iter().map(|y| y.1).sum::<f64>() / c.len() as f64)).collect();
            for y in all.iter_mut() {
                let (g, z) = (d.next(), d.next());
                let (wf, wa) = (h.sqrt() * g, h.sqrt() * (p.rho * g + (1.0 - p.rho * p.rho).sqrt() * z));
                let (f, a) = (y.0.max(1e-12), y.1);
                let mean = bins.iter().find(|b| f <= b.0).unwrap_or(&bins[bins.len() - 1]).1;
                let ((i0, i1, wt), (j0, j1, wk)) = (place(&e, mid), place(&x, f));
                let row = |i: usize| (1.0 - wk) * lv.variance[i][j0] + wk * lv.variance[i][j1];
                let var = (1.0 - wt) * row(i0) + wt * row(i1);
                let scale = (var / (mean * f.powf(2.0 * beta - 2.0)).max(1e-12)).sqrt();
                *y = ((f + scale * a * f.powf(beta) * wf).max(0.0), a * (p.nu * wa - p.nu * p.nu * h / 2.0).exp());
            }
        }
        s.note(&|| format!("knots {k:?}, schedules {v:?}, beta {beta}, forward {f0}, {lv:?}, {m} particles in {nb} bins, {ns} steps to {end}: {got:?}, expected {all:?}"));
        check!(s, got.len() == m && got.iter().zip(&all).all(|(g, w)| near(g.forward, w.0, 1e-7) && near(g.vol, w.1, 1e-9)), "all particles step together, scaled by the local volatility over the mean squared volatility of the particle's bin");
    }
}
