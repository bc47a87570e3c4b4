//! FX with one market model of term rates per currency: parameters, coefficients and characteristic function.
use super::modelchf::{c, heston_c, nearc};
use super::modelsx::near;
use crate::src::Src;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::cos_pricer::ForwardChf;
use finquant::models::forex::fx_hlmm::*;
use finquant::models::forex::fx_hlmm1_chf::*;
use finquant::models::forex::{fx_fmm, fx_fmm1_chf};
use finquant::models::interestrate::fmm::{FmmTenor, LinearDecay};
use num_complex::Complex64;

const TOL: f64 = 1e-12;
pub fn dates<S: Src>(s: &mut S) -> Vec<f64> {
    let n = s.int("periods", 1, 4);
    let mut d = vec![match s.int("first date 0=today 1=later", 0, 3) { 1 => s.f64("first date", 0.0, 1.0), _ => 0.0 }];
    for _ in 0..n { let x = d[d.len() - 1]; d.push(x + match s.int("period 0=half 1=any 2=one", 0, 2) { 0 => 0.5, 1 => s.f64("period", 0.05, 1.5), _ => 1.0 }); }
    d
}
/// entry of a correlation: inside, at or beyond one
pub fn entry<S: Src>(s: &mut S, odd: bool) -> f64 {
    match s.int("correlation 0=any 1=one 2=minus one 3=beyond", 0, 12) { 1 => 1.0, 2 => -1.0, 3 if odd => if s.bool("above") { 1.001 } else { -1.001 }, _ => s.f64("correlation", -1.0, 1.0) }
}
pub fn symmetric<S: Src>(s: &mut S, n: usize, odd: bool) -> Vec<Vec<f64>> {
    let mut m = vec![vec![1.0; n]; n];
    for i in 0..n { for j in 0..i { m[i][j] = entry(s, odd); m[j][i] = m[i][j]; } }
    if odd { match s.int("matrix 0=good 1=diagonal 2=skew 3=short 4=long row 5=slightly skew", 0, 12) {
        1 => { let i = s.idx("row", n); m[i][i] = 0.999; }
        2 => { let (i, j) = (s.idx("row", n), s.idx("column", n)); if i != j { m[i][j] += if m[i][j] > 0.0 { -0.01 } else { 0.01 }; } }
        3 => { m.pop(); }
        4 => { let i = s.idx("row", n); m[i].push(0.0); }
        5 => { let (i, j) = (s.idx("row", n), s.idx("column", n)); if i != j { m[i][j] *= 1.0 - 1e-13; } }
        _ => {}
    } }
    m
}
pub fn vector<S: Src>(s: &mut S, n: usize, odd: bool, f: &mut dyn FnMut(&mut S) -> f64) -> Vec<f64> {
    let n = if odd { match s.int("length 0=good 1=short 2=long", 0, 20) { 1 => n - 1, 2 => n + 1, _ => n } } else { n };
    (0..n).map(|_| f(s)).collect()
}
fn positive<S: Src>(s: &mut S, name: &'static str, hi: f64, odd: bool) -> f64 {
    match s.int("sign 0=positive 1=zero 2=negative", 0, 24) { 1 if odd => 0.0, 2 if odd => -0.1, _ => s.f64(name, 0.05, hi) }
}
fn side<S: Src>(s: &mut S, n: usize, odd: bool) -> DdSvLmm {
    DdSvLmm {
        sigmas: vector(s, n, odd, &mut |s| s.f64("volatility", 0.0, 0.6)), betas: vector(s, n, odd, &mut |s| s.f64("displacement", 0.0, 1.0)),
        lambda: positive(s, "variance reversion", 2.0, odd), eta: positive(s, "vol of variance", 0.8, odd), v_0: positive(s, "variance", 1.5, odd), libor_corr: symmetric(s, n, odd),
    }
}
fn cross<S: Src>(s: &mut S, n: usize, odd: bool) -> FxHlmmCorrelations {
    let mut m: Vec<Vec<f64>> = (0..n).map(|_| (0..n).map(|_| entry(s, odd)).collect()).collect();
    if odd { match s.int("cross matrix 0=good 1=short 2=long row 3=short row", 0, 15) { 1 => { m.pop(); } 2 => { let i = s.idx("row", n); m[i].push(0.0); } 3 => { let i = s.idx("row", n); m[i].pop(); } _ => {} } }
    FxHlmmCorrelations { rho_xi_sigma: entry(s, odd), rho_xi_d: vector(s, n, odd, &mut |s| entry(s, odd)), rho_xi_f: vector(s, n, odd, &mut |s| entry(s, odd)), libor_cross_corr: m }
}
pub fn heston<S: Src>(s: &mut S) -> CirProcess {
    CirProcess { kappa: s.f64("kappa", 0.1, 2.0), theta: s.f64("long-run variance", 0.01, 0.2), gamma: s.f64("vol of vol", 0.1, 1.0), sigma_0: s.f64("variance", 0.001, 0.2) }
}
pub fn parameters<S: Src>(s: &mut S, odd: bool) -> FxHlmmParams {
    let d = dates(s);
    let n = d.len() - 1;
    let l = (0..n).map(|_| s.f64("rate", -0.02, 0.25)).collect();
    let bad = if odd { s.int("fault 0=none 1=domestic 2=foreign 3=cross", 0, 3) } else { 0 };
    FxHlmmParams { fx_0: s.f64("spot", 0.5, 2.0), heston: heston(s), tenor: LiborTenor::new(d, l), domestic: side(s, n, bad == 1), foreign: side(s, n, bad == 2), correlations: cross(s, n, bad == 3) }
}
pub fn unit(x: f64) -> bool { x.abs() <= 1.0 + TOL }
fn correlation_ok(m: &[Vec<f64>], n: usize) -> bool {
    m.len() == n && m.iter().all(|r| r.len() == n) && (0..n).all(|i| (m[i][i] - 1.0).abs() <= TOL && (0..n).all(|j| (m[i][j] - m[j][i]).abs() <= TOL && unit(m[i][j])))
}
fn side_ok(x: &DdSvLmm, n: usize) -> bool { x.sigmas.len() == n && x.betas.len() == n && correlation_ok(&x.libor_corr, n) && x.lambda > 0.0 && x.eta > 0.0 && x.v_0 > 0.0 }
fn cross_ok(x: &FxHlmmCorrelations, n: usize) -> bool {
    unit(x.rho_xi_sigma) && x.rho_xi_d.len() == n && x.rho_xi_f.len() == n && x.libor_cross_corr.len() == n && x.libor_cross_corr.iter().all(|r| r.len() == n && r.iter().all(|c| unit(*c))) && x.rho_xi_d.iter().chain(&x.rho_xi_f).all(|c| unit(*c))
}
/// first date not before t, the last if none
fn reset(d: &[f64], t: f64) -> usize { d.iter().position(|x| t <= *x).unwrap_or(d.len() - 1) }
fn psi(x: &DdSvLmm, q: &LiborTenor) -> Vec<f64> { (1..=q.libors.len()).map(|k| { let (t, l) = (q.dates[k] - q.dates[k - 1], q.libors[k - 1]); t * x.sigmas[k - 1] * l / (1.0 + t * l) }).collect() }
fn quadratic(p: &[f64], q: &[f64], m: &[Vec<f64>], s: usize) -> f64 { (s..=p.len()).map(|i| (s..=q.len()).map(|j| p[i - 1] * q[j - 1] * m[i - 1][j - 1]).sum::<f64>()).sum() }
fn rate_cir(x: &DdSvLmm) -> CirProcess { CirProcess { kappa: x.lambda, theta: x.v_0, gamma: x.eta, sigma_0: x.v_0 } }
fn cross_terms(p: &FxHlmmParams, t: f64, s: usize) -> f64 {
    let (d, f) = (psi(&p.domestic, &p.tenor), psi(&p.foreign, &p.tenor));
    let (x, vd, vf) = (p.heston.sqrt_mean(t), rate_cir(&p.domestic).sqrt_mean(t), rate_cir(&p.foreign).sqrt_mean(t));
    let dot = |a: &[f64], b: &[f64]| (s..=a.len()).map(|j| a[j - 1] * b[j - 1]).sum::<f64>();
    2.0 * (x * vd * dot(&d, &p.correlations.rho_xi_d) - x * vf * dot(&f, &p.correlations.rho_xi_f) - vd * vf * quadratic(&d, &f, &p.correlations.libor_cross_corr, s))
}
/// stretches of time left with their coefficients
#[derive(Debug, Clone, Copy)]
pub struct Stretch { pub lo: f64, pub hi: f64, pub ad: f64, pub af: f64, pub f: f64 }
#[derive(Debug)]
pub struct Sides { pub kappa: f64, pub theta: f64, pub gamma: f64, pub rho: f64, pub d: CirProcess, pub f: CirProcess }
pub fn composite(f: &dyn Fn(f64) -> f64, lo: f64, hi: f64, n: usize) -> f64 {
    let h = (hi - lo) / n as f64;
    (0..=n).map(|k| (if k == 0 || k == n { 1.0 } else if k % 2 == 1 { 4.0 } else { 2.0 }) * f(lo + k as f64 * h)).sum::<f64>() * h / 3.0
}
fn stretches(p: &FxHlmmParams, big_t: f64, n: usize) -> Vec<Stretch> {
    let d = &p.tenor.dates;
    let mut ends: Vec<f64> = d[..d.len() - 1].iter().rev().map(|x| big_t - x).filter(|x| *x > 0.0).collect();
    if ends.last().is_none_or(|x| (x - big_t).abs() > TOL) { ends.push(big_t); }
    let mut lo = 0.0;
    let (pd, pf) = (psi(&p.domestic, &p.tenor), psi(&p.foreign, &p.tenor));
    ends.into_iter().map(|hi| {
        let s = reset(d, big_t - 0.5 * (lo + hi)) + 1;
        let g = Stretch { lo, hi, ad: quadratic(&pd, &pd, &p.domestic.libor_corr, s), af: quadratic(&pf, &pf, &p.foreign.libor_corr, s), f: composite(&|x| cross_terms(p, big_t - x, s), lo, hi, n) };
        lo = hi;
        g
    }).collect()
}
/// A, D_d and D_f by Runge-Kutta over the stretches; none when half the step changes them
pub fn walk(v: &[Stretch], q: &Sides, u: Complex64, steps: usize) -> Option<[Complex64; 3]> {
    let (x, y) = (integrate(v, q, u, steps / 2)?, integrate(v, q, u, steps)?);
    if (0..3).all(|i| nearc(x[i], y[i], 2e-6)) { Some(y) } else { None }
}
fn integrate(v: &[Stretch], q: &Sides, u: Complex64, steps: usize) -> Option<[Complex64; 3]> {
    let b = c(0.0, 1.0) * u;
    let mut y = [c(0.0, 0.0); 3];
    for g in v {
        let rate = |x: f64, y: [Complex64; 3]| {
            let one = |p: &CirProcess, a: f64, d: Complex64| 0.5 * a * (b * b - b) - p.kappa * d + 0.5 * p.gamma * p.gamma * d * d;
            [q.kappa * q.theta * heston_c(u, x, q.kappa, q.gamma, q.rho) + q.d.kappa * q.d.theta * y[1] + q.f.kappa * q.f.theta * y[2], one(&q.d, g.ad, y[1]), one(&q.f, g.af, y[2])]
        };
        let h = (g.hi - g.lo) / steps as f64;
        let stiff = |p: &CirProcess, a: f64| (p.kappa * p.kappa + p.gamma * p.gamma * a.abs() * (b * b - b).norm()).sqrt() * h;
        if stiff(&q.d, g.ad) > 0.3 || stiff(&q.f, g.af) > 0.3 || h * (q.kappa + q.gamma * (1.0 + b.norm())) > 0.3 { return None; }
        let add = |y: [Complex64; 3], k: [Complex64; 3], w: f64| [y[0] + w * k[0], y[1] + w * k[1], y[2] + w * k[2]];
        for i in 0..steps {
            let x = g.lo + i as f64 * h;
            let k1 = rate(x, y);
            let k2 = rate(x + 0.5 * h, add(y, k1, 0.5 * h));
            let k3 = rate(x + 0.5 * h, add(y, k2, 0.5 * h));
            let k4 = rate(x + h, add(y, k3, h));
            y = add(add(add(add(y, k1, h / 6.0), k2, h / 3.0), k3, h / 3.0), k4, h / 6.0);
        }
        y[0] += 0.5 * (b * b - b) * g.f;
        if !(y[0].norm() < 300.0 && y[1].norm() < 1e3 && y[2].norm() < 1e3) { return None; }
    }
    Some(y)
}
fn fmm_side<S: Src>(s: &mut S, n: usize, odd: bool) -> fx_fmm::FmmSide {
    fx_fmm::FmmSide {
        sigmas: vector(s, n, odd, &mut |s| match s.int("volatility 0=any 1=zero 2=bad", 0, 20) { 1 => 0.0, 2 if odd => -0.001, 3 if odd => f64::NAN, _ => s.f64("volatility", 0.0, 0.03) }),
        lambda: positive(s, "variance reversion", 2.0, odd), eta: positive(s, "vol of variance", 0.8, odd), v_0: positive(s, "variance", 1.5, odd), rate_corr: symmetric(s, n, odd), decay: LinearDecay,
    }
}
pub fn fmm_parameters<S: Src>(s: &mut S, odd: bool) -> fx_fmm::FxFmmParams {
    let d = dates(s);
    let n = d.len() - 1;
    let r = (0..n).map(|_| s.f64("rate", -0.02, 0.25)).collect();
    let bad = if odd { s.int("fault 0=none 1=domestic 2=foreign 3=cross", 0, 3) } else { 0 };
    let x = cross(s, n, bad == 3);
    fx_fmm::FxFmmParams {
        fx_0: s.f64("spot", 0.5, 2.0), heston: heston(s), tenor: FmmTenor::new(d, r), domestic: fmm_side(s, n, bad == 1), foreign: fmm_side(s, n, bad == 2),
        correlations: fx_fmm::FxFmmCorrelations { rho_xi_sigma: x.rho_xi_sigma, rho_xi_d: x.rho_xi_d, rho_xi_f: x.rho_xi_f, rho_sigma_d: vector(s, n, bad == 3, &mut |s| entry(s, bad == 3)), rho_sigma_f: vector(s, n, bad == 3, &mut |s| entry(s, bad == 3)), cross_rate_corr: x.libor_cross_corr },
    }
}
fn fmm_side_ok(x: &fx_fmm::FmmSide, n: usize) -> bool { x.sigmas.len() == n && x.sigmas.iter().all(|v| v.is_finite() && *v >= 0.0) && correlation_ok(&x.rate_corr, n) && x.lambda > 0.0 && x.eta > 0.0 && x.v_0 > 0.0 }
fn fmm_cross_ok(x: &fx_fmm::FxFmmCorrelations, n: usize) -> bool {
    unit(x.rho_xi_sigma) && [&x.rho_xi_d, &x.rho_xi_f, &x.rho_sigma_d, &x.rho_sigma_f].iter().all(|v| v.len() == n && v.iter().all(|c| unit(*c))) && x.cross_rate_corr.len() == n && x.cross_rate_corr.iter().all(|r| r.len() == n && r.iter().all(|c| unit(*c)))
}
/// the share of the k-th rate not yet fixed
fn decay(d: &[f64], k: usize, t: f64) -> f64 { ((d[k] - t) / (d[k] - d[k - 1])).clamp(0.0, 1.0) }
fn fmm_base(x: &fx_fmm::FmmSide, q: &FmmTenor) -> Vec<f64> { (1..=q.initial_rates.len()).map(|k| { let t = q.dates[k] - q.dates[k - 1]; t * x.sigmas[k - 1] / (1.0 + t * q.initial_rates[k - 1]) }).collect() }
fn fmm_psi(x: &fx_fmm::FmmSide, q: &FmmTenor, t: f64) -> Vec<f64> { fmm_base(x, q).iter().enumerate().map(|(i, v)| v * decay(&q.dates, i + 1, t)).collect() }
fn fmm_cir(x: &fx_fmm::FmmSide) -> CirProcess { CirProcess { kappa: x.lambda, theta: x.v_0, gamma: x.eta, sigma_0: x.v_0 } }
fn fmm_cross_terms(p: &fx_fmm::FxFmmParams, t: f64, s: usize) -> f64 {
    let (d, f) = (fmm_psi(&p.domestic, &p.tenor, t), fmm_psi(&p.foreign, &p.tenor, t));
    let (x, vd, vf) = (p.heston.sqrt_mean(t), fmm_cir(&p.domestic).sqrt_mean(t), fmm_cir(&p.foreign).sqrt_mean(t));
    let dot = |a: &[f64], b: &[f64]| (s..=a.len()).map(|j| a[j - 1] * b[j - 1]).sum::<f64>();
    2.0 * (x * vd * dot(&d, &p.correlations.rho_xi_d) - x * vf * dot(&f, &p.correlations.rho_xi_f) - vd * vf * quadratic(&d, &f, &p.correlations.cross_rate_corr, s))
}
fn fmm_stretches(p: &fx_fmm::FxFmmParams, big_t: f64, pieces: usize, n: usize) -> Vec<Stretch> {
    let d = &p.tenor.dates;
    let mut ends: Vec<f64> = d[..d.len() - 1].iter().rev().map(|x| big_t - x).filter(|x| *x > 0.0).collect();
    if ends.last().is_none_or(|x| (x - big_t).abs() > TOL) { ends.push(big_t); }
    let mut from = 0.0;
    let mut v = vec![];
    for to in ends {
        for i in 0..pieces {
            let (lo, hi) = (from + (to - from) * i as f64 / pieces as f64, from + (to - from) * (i + 1) as f64 / pieces as f64);
            let t = big_t - 0.5 * (lo + hi);
            let s = (1..d.len()).find(|k| d[*k] >= t).unwrap_or(d.len());
            let (pd, pf) = (fmm_psi(&p.domestic, &p.tenor, t), fmm_psi(&p.foreign, &p.tenor, t));
            v.push(Stretch { lo, hi, ad: quadratic(&pd, &pd, &p.domestic.rate_corr, s), af: quadratic(&pf, &pf, &p.foreign.rate_corr, s), f: composite(&|x| fmm_cross_terms(p, big_t - x, s), lo, hi, n) });
        }
        from = to;
    }
    v
}
pub fn frequency<S: Src>(s: &mut S) -> Complex64 {
    match s.int("frequency 0=real 1=complex 2=zero 3=-i", 0, 5) { 1 => c(s.f64("u", -8.0, 8.0), s.f64("imaginary u", -1.0, 0.0)), 2 => c(0.0, 0.0), 3 => c(0.0, -1.0), _ => c(s.f64("u", -30.0, 30.0), 0.0) }
}
crate::contracts! {
    C55 libor_parameters run |s| {
        let p = parameters(s, true);
        let n = p.tenor.dates.len() - 1;
        let (a, b, x) = (side_ok(&p.domestic, n), side_ok(&p.foreign, n), cross_ok(&p.correlations, n));
        s.note(&|| format!("{p:?}: {:?}, expected {}", p.validate(), a && b && x));
        check!(s, p.domestic.validate(&p.tenor).is_ok() == a && p.foreign.validate(&p.tenor).is_ok() == b, "a market model is accepted exactly when its vectors fit the dates, its correlations are symmetric with a unit diagonal and its variance parameters positive");
        check!(s, p.correlations.validate(&p.tenor).is_ok() == x, "cross correlations are accepted exactly when they fit the dates and lie within one");
        check!(s, p.validate().is_ok() == (a && b && x), "parameters are accepted exactly when all parts are");
    }
    C55 frozen_rates run |s| {
        let p = parameters(s, false);
        let q = &p.tenor;
        let n = q.libors.len();
        check!(s, q.n() == n && (1..=n).all(|k| q.tau(k) == q.dates[k] - q.dates[k - 1]), "periods and their lengths");
        let t = match s.int("time 0=any 1=a date 2=just after a date", 0, 3) { 1 => q.dates[s.idx("date", n + 1)], 2 => q.dates[s.idx("date", n + 1)] + 1e-9, _ => s.f64("time", 0.0, 6.0) };
        let m = reset(&q.dates, t);
        s.note(&|| format!("{p:?} at {t}: m = {}, active {:?}", q.m(t), q.active(t).collect::<Vec<_>>()));
        check!(s, q.m(t) == m && q.active(t).collect::<Vec<_>>() == (m + 1..=n).collect::<Vec<_>>(), "the live rates are those that start at or after the time");
        let (d, f) = (psi(&p.domestic, q), psi(&p.foreign, q));
        check!(s, p.domestic.psi(q).iter().zip(&d).all(|(x, y)| near(*x, *y, 1e-14)) && p.domestic.psi(q).len() == n, "frozen coefficient: tau sigma L/(1 + tau L)");
        let k = s.int("first live rate", 1, n as i32 + 1) as usize;
        let (ad, af, x) = (quadratic(&d, &d, &p.domestic.libor_corr, k), quadratic(&f, &f, &p.foreign.libor_corr, k), cross_terms(&p, t, k));
        s.note(&|| format!("{p:?} from rate {k} at {t}: {} {} {}, expected {ad} {af} {x}", compute_a_d(&p, k), compute_a_f(&p, k), compute_f_linearised(&p, t, k)));
        check!(s, near(compute_a_d(&p, k), ad, 1e-13) && near(compute_a_f(&p, k), af, 1e-13), "variance of the sum of the live rates");
        check!(s, near(compute_f_linearised(&p, t, k), x, 1e-12), "cross terms of the log forward's variance");
    }
    C55 fx_libor_characteristic run |s| {
        let p = parameters(s, false);
        let last = *p.tenor.dates.last().unwrap();
        let big_t = match s.int("expiry 0=last date 1=any 2=beyond 3=a date", 0, 4) { 1 => s.f64("expiry", 0.05, 6.0), 2 => last + s.f64("beyond", 0.0, 2.0), 3 => p.tenor.dates[s.idx("date", p.tenor.dates.len())].max(0.05), _ => last };
        let n = match s.int("steps 0=default 1=any", 0, 2) { 0 => 32, _ => 2 * s.int("half the steps", 1, 8) as usize };
        let f = if n == 32 && s.bool("default") { FxHlmm1ForwardChf::new(&p, big_t) } else { FxHlmm1ForwardChf::with_simpson_steps(&p, big_t, n) };
        check!(s, f.expiry == big_t && f.n_simpson_per_segment == n && *f.params() == p, "expiry, steps and parameters are kept");
        check!(s, near(f.log_forward(), p.fx_0.ln(), 1e-15) && ForwardChf::expiry(&f) == big_t && f.typical_variance() == p.heston.theta, "log forward, expiry and typical variance for the pricer");
        let u = frequency(s);
        let q = Sides { kappa: p.heston.kappa, theta: p.heston.theta, gamma: p.heston.gamma, rho: p.correlations.rho_xi_sigma, d: rate_cir(&p.domestic), f: rate_cir(&p.foreign) };
        let x = q.kappa - q.gamma * q.rho;
        if (u - c(0.0, -1.0)).norm() < 1e-6 && x < 1e-3 { return Some(()); }
        let v = stretches(&p, big_t, n);
        let y = walk(&v, &q, u, 80)?;
        let g = f.components(u);
        let cc = heston_c(u, big_t, q.kappa, q.gamma, q.rho);
        s.note(&|| format!("{p:?}, expiry {big_t}, {n} steps, u = {u}: {g:?}, expected {y:?}, {cc}; {v:?}"));
        check!(s, nearc(g.b, c(0.0, 1.0) * u, 1e-15) && nearc(g.c, cc, 1e-7), "loadings of the log forward and of its variance");
        check!(s, nearc(g.d_d, y[1], 1e-6) && nearc(g.d_f, y[2], 1e-4), "loadings of the rate variances solve their equations from stretch to stretch");
        check!(s, nearc(g.a, y[0], 1e-6), "constant: the reversion levels times the loadings, and Simpson's rule for the cross terms");
        let (x1, v1, v2, v3) = (s.f64("log forward", -1.0, 1.0), s.f64("variance", 0.0, 0.3), s.f64("domestic variance", 0.0, 1.5), s.f64("foreign variance", 0.0, 1.5));
        let w = (g.a + g.b * x1 + g.c * v1 + g.d_d * v2 + g.d_f * v3).exp();
        check!(s, !(w.norm() < 1e9) || nearc(g.assemble(x1, v1, v2, v3), w, 1e-9), "value: exp(A + B x + C v + D_d v_d + D_f v_f)");
        let w = (g.a + g.b * p.fx_0.ln() + g.c * p.heston.sigma_0 + g.d_d * p.domestic.v_0 + g.d_f * p.foreign.v_0).exp();
        s.note(&|| format!("{p:?}, expiry {big_t}, {n} steps, u = {u}: {}, expected {w}", f.evaluate(u)));
        check!(s, !(w.norm() < 1e6) || nearc(f.evaluate(u), w, 1e-9) && nearc(ForwardChf::evaluate(&f, u), w, 1e-9), "today's value: at the spot");
        check!(s, nearc(f.evaluate(c(0.0, 0.0)), c(1.0, 0.0), 1e-11), "mass one");
        if x > 1e-3 { check!(s, nearc(f.evaluate(c(0.0, -1.0)), c(p.fx_0, 0.0), 1e-8), "the forward, here the spot, is the mean"); }
    }
    C56 forward_market_parameters run |s| {
        let p = fmm_parameters(s, true);
        let n = p.tenor.dates.len() - 1;
        let (a, b, x) = (fmm_side_ok(&p.domestic, n), fmm_side_ok(&p.foreign, n), fmm_cross_ok(&p.correlations, n));
        s.note(&|| format!("{p:?}: {:?}, expected {}", p.validate(), a && b && x));
        check!(s, p.domestic.validate(&p.tenor).is_ok() == a && p.foreign.validate(&p.tenor).is_ok() == b, "a market model is accepted exactly when its vectors fit the dates, its volatilities are not negative, its correlations are symmetric with a unit diagonal and its variance parameters positive");
        check!(s, p.correlations.validate(&p.tenor).is_ok() == x, "cross correlations are accepted exactly when they fit the dates and lie within one");
        check!(s, p.validate().is_ok() == (a && b && x), "parameters are accepted exactly when all parts are");
    }
    C56 frozen_forward_rates run |s| {
        let p = fmm_parameters(s, false);
        let q = &p.tenor;
        let n = q.initial_rates.len();
        let t = match s.int("time 0=any 1=a date 2=inside a period", 0, 2) { 1 => q.dates[s.idx("date", n + 1)], 2 => { let k = 1 + s.idx("period", n); q.dates[k - 1] + s.f64("share", 0.0, 1.0) * (q.dates[k] - q.dates[k - 1]) } _ => s.f64("time", 0.0, 6.0) };
        let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, 1e-14));
        s.note(&|| format!("{p:?} at {t}: {:?}, expected {:?}", fx_fmm::psi_at(&p.domestic, q, t), fmm_psi(&p.domestic, q, t)));
        check!(s, same(&p.domestic.psi_base(q), &fmm_base(&p.domestic, q)), "frozen coefficient: tau sigma/(1 + tau R)");
        check!(s, same(&fx_fmm::psi_at(&p.domestic, q, t), &fmm_psi(&p.domestic, q, t)) && same(&fx_fmm::psi_at(&p.foreign, q, t), &fmm_psi(&p.foreign, q, t)), "its value at a time: times the decay");
        let k = s.int("first live rate", 1, n as i32 + 1) as usize;
        let (d, f) = (fmm_psi(&p.domestic, q, t), fmm_psi(&p.foreign, q, t));
        let (ad, af, x) = (quadratic(&d, &d, &p.domestic.rate_corr, k), quadratic(&f, &f, &p.foreign.rate_corr, k), fmm_cross_terms(&p, t, k));
        let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs() + 1e-15;
        s.note(&|| format!("{p:?} from rate {k} at {t}: {} {} {}, expected {ad} {af} {x}", fx_fmm::compute_a_d(&p, t, k), fx_fmm::compute_a_f(&p, t, k), fx_fmm::compute_f_linearised(&p, t, k)));
        check!(s, close(fx_fmm::compute_a_d(&p, t, k), ad) && close(fx_fmm::compute_a_f(&p, t, k), af), "variance of the sum of the live rates");
        check!(s, close(fx_fmm::compute_f_linearised(&p, t, k), x), "cross terms of the log forward's variance");
    }
    C56 fx_forward_market_characteristic run |s| {
        let mut p = fmm_parameters(s, false);
        // rates that matter
        let scale = match s.int("scale 0=one 1=ten", 0, 1) { 1 => 10.0, _ => 1.0 };
        for x in p.domestic.sigmas.iter_mut().chain(p.foreign.sigmas.iter_mut()) { *x *= scale; }
        let last = *p.tenor.dates.last().unwrap();
        let big_t = match s.int("expiry 0=last date 1=any 2=beyond 3=a date", 0, 4) { 1 => s.f64("expiry", 0.05, 6.0), 2 => last + s.f64("beyond", 0.0, 2.0), 3 => p.tenor.dates[s.idx("date", p.tenor.dates.len())].max(0.05), _ => last };
        let (m, n) = match s.int("steps 0=default 1=any", 0, 2) { 0 => (1, 32), _ => (s.int("pieces", 1, 3) as usize, 2 * s.int("half the steps", 1, 8) as usize) };
        let f = if n == 32 && s.bool("default") { fx_fmm1_chf::FxFmm1ForwardChf::new(&p, big_t) } else { fx_fmm1_chf::FxFmm1ForwardChf::with_resolution(&p, big_t, m, n) };
        check!(s, f.expiry == big_t && f.n_simpson_per_segment == n && f.n_substeps_per_period == m && *f.params() == p, "expiry, resolution and parameters are kept");
        check!(s, near(f.log_forward(), p.fx_0.ln(), 1e-15) && ForwardChf::expiry(&f) == big_t && f.typical_variance() == p.heston.theta, "log forward, expiry and typical variance for the pricer");
        let u = frequency(s);
        let q = Sides { kappa: p.heston.kappa, theta: p.heston.theta, gamma: p.heston.gamma, rho: p.correlations.rho_xi_sigma, d: fmm_cir(&p.domestic), f: fmm_cir(&p.foreign) };
        let x = q.kappa - q.gamma * q.rho;
        if (u - c(0.0, -1.0)).norm() < 1e-6 && x < 1e-3 { return Some(()); }
        let v = fmm_stretches(&p, big_t, m, n);
        let y = walk(&v, &q, u, 80 / m)?;
        let g = f.components(u);
        let cc = heston_c(u, big_t, q.kappa, q.gamma, q.rho);
        s.note(&|| format!("{p:?}, expiry {big_t}, {m} pieces, {n} steps, u = {u}: {g:?}, expected {y:?}, {cc}; {v:?}"));
        check!(s, nearc(g.b, c(0.0, 1.0) * u, 1e-15) && nearc(g.c, cc, 1e-7), "loadings of the log forward and of its variance");
        check!(s, nearc(g.d_d, y[1], 1e-6) && nearc(g.d_f, y[2], 1e-6), "loadings of the rate variances solve their equations from piece to piece");
        check!(s, nearc(g.a, y[0], 1e-6), "constant: the reversion levels times the loadings, and Simpson's rule for the cross terms");
        let (x1, v1, v2, v3) = (s.f64("log forward", -1.0, 1.0), s.f64("variance", 0.0, 0.3), s.f64("domestic variance", 0.0, 1.5), s.f64("foreign variance", 0.0, 1.5));
        let w = (g.a + g.b * x1 + g.c * v1 + g.d_d * v2 + g.d_f * v3).exp();
        check!(s, !(w.norm() < 1e9) || nearc(g.assemble(x1, v1, v2, v3), w, 1e-9), "value: exp(A + B x + C v + D_d v_d + D_f v_f)");
        let w = (g.a + g.b * p.fx_0.ln() + g.c * p.heston.sigma_0 + g.d_d * p.domestic.v_0 + g.d_f * p.foreign.v_0).exp();
        s.note(&|| format!("{p:?}, expiry {big_t}, {m} pieces, {n} steps, u = {u}: {}, expected {w}", f.evaluate(u)));
        check!(s, !(w.norm() < 1e6) || nearc(f.evaluate(u), w, 1e-9) && nearc(ForwardChf::evaluate(&f, u), w, 1e-9), "today's value: at the spot");
        check!(s, nearc(f.evaluate(c(0.0, 0.0)), c(1.0, 0.0), 1e-11), "mass one");
        if x > 1e-3 { check!(s, nearc(f.evaluate(c(0.0, -1.0)), c(p.fx_0, 0.0), 1e-8), "the forward, here the spot, is the mean"); }
    }
}
