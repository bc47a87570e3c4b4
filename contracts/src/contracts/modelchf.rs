//! Characteristic functions and the COS pricer.
use super::modelfx::{correlations, parameters};
use super::modelsx::near;
use crate::normal::cdf;
use crate::src::Src;
use finquant::models::common::cos_pricer::*;
use finquant::models::forex::fx_hhw::FxHhwParams;
use finquant::models::forex::fx_hhw1_chf::*;
use num_complex::Complex64;
use std::f64::consts::PI;

pub fn c(re: f64, im: f64) -> Complex64 { Complex64::new(re, im) }
pub fn nearc(a: Complex64, b: Complex64, tol: f64) -> bool { (a - b).norm() <= tol * (1.0 + b.norm()) }
/// mixture of normal log-forwards
#[derive(Debug)]
struct Mix { parts: Vec<(f64, f64, f64)>, expiry: f64, level: f64, variance: f64 }
impl ForwardChf for Mix {
    fn evaluate(&self, u: Complex64) -> Complex64 { self.parts.iter().map(|(w, m, v)| *w * (c(0.0, *m) * u - 0.5 * *v * u * u).exp()).sum() }
    fn expiry(&self) -> f64 { self.expiry }
    fn log_forward(&self) -> f64 { self.level }
    fn typical_variance(&self) -> f64 { self.variance }
}
/// value of (e^y - k)+ or (k - e^y)+ when y is normal
fn lognormal(m: f64, v: f64, k: f64, call: bool) -> f64 {
    let s = v.sqrt();
    let d = (m - k.ln()) / s;
    let om = if call { 1.0 } else { -1.0 };
    om * ((m + 0.5 * v).exp() * cdf(om * (d + s)) - k * cdf(om * d))
}
/// 8-point Gauss-Legendre rule on n pieces
pub fn gauss(f: &dyn Fn(f64) -> f64, a: f64, b: f64, n: usize) -> f64 {
    const X: [(f64, f64); 4] = [(0.183434642495649804939, 0.362683783378361982965), (0.525532409916328985818, 0.313706645877887287338), (0.796666477413626739592, 0.222381034453374470544), (0.960289856497536231684, 0.101228536290376259153)];
    let h = (b - a) / n as f64;
    (0..n).map(|i| { let m = a + (i as f64 + 0.5) * h; X.iter().map(|(x, w)| w * (f(m + 0.5 * h * x) + f(m - 0.5 * h * x))).sum::<f64>() * 0.5 * h }).sum()
}
/// composite Simpson rule of complex values
pub fn simpson(f: &dyn Fn(f64) -> Complex64, tau: f64, n: usize) -> Complex64 {
    let h = tau / n as f64;
    let mut acc = f(0.0) + f(tau);
    for k in 1..n { acc += if k % 2 == 1 { 4.0 } else { 2.0 } * f(tau * k as f64 / n as f64); }
    acc * h / 3.0
}
/// the variance loading of the Heston characteristic function
pub fn heston_c(u: Complex64, tau: f64, kappa: f64, gamma: f64, rho: f64) -> Complex64 {
    if tau <= 0.0 { return c(0.0, 0.0); }
    let b = c(0.0, 1.0) * u;
    let x = kappa - gamma * rho * b;
    let d = (x * x + gamma * gamma * b * (1.0 - b)).sqrt();
    // (B^2 - B)/(x + d coth(d tau/2)), d coth(d tau/2) -> 2/tau
    let dc = if (d * tau).norm() < 1e-4 { 2.0 / tau + d * d * tau / 6.0 } else { let e = (-d * tau).exp(); d * (1.0 + e) / (1.0 - e) };
    (b * b - b) / (x + dc)
}
fn hhw_rate(p: &FxHhwParams, u: Complex64, s: f64, big_t: f64) -> Complex64 {
    let (b, t, r) = (c(0.0, 1.0) * u, big_t - s, &p.correlations);
    let cc = heston_c(u, s, p.heston.kappa, p.heston.gamma, r.rho_xi_sigma);
    let (phi, d, f) = (p.heston.sqrt_mean(t), p.domestic.sigma * p.domestic.b(t, big_t), p.foreign.sigma * p.foreign.b(t, big_t));
    let zeta = (r.rho_xi_d * d - r.rho_xi_f * f) * phi + r.rho_d_f * d * f - 0.5 * (d * d + f * f);
    (p.heston.kappa * p.heston.theta + p.heston.gamma * phi * (r.rho_sigma_d * d * (1.0 - b) + r.rho_sigma_f * f * b)) * cc - (b * b - b) * zeta
}
pub fn frequency<S: Src>(s: &mut S) -> Complex64 {
    match s.int("frequency 0=real 1=complex 2=zero 3=-i", 0, 5) { 1 => c(s.f64("u", -8.0, 8.0), s.f64("imaginary u", -1.0, 0.0)), 2 => c(0.0, 0.0), 3 => c(0.0, -1.0), _ => c(s.f64("u", -60.0, 60.0), 0.0) }
}
crate::contracts! {
    C53 cos_series run |s| {
        let n = s.int("parts", 1, 3);
        let parts = (0..n).map(|_| (s.f64("weight", 0.05, 1.0), s.f64("mean", -1.0, 1.0), s.f64("variance", 0.001, 0.5))).collect::<Vec<_>>();
        let m = Mix { parts, expiry: s.f64("expiry", 0.01, 10.0), level: s.f64("log forward", -1.0, 1.0), variance: match s.int("variance 0=any 1=zero", 0, 4) { 1 => 0.0, _ => s.f64("typical variance", 0.0001, 0.5) } };
        let p = CosPricer::new(&m);
        let w = 10.0 * (m.variance * m.expiry).sqrt().max(1e-6);
        s.note(&|| format!("{m:?}: {} terms on {:?}", p.n_terms, p.range));
        check!(s, p.n_terms == 128 && near(p.range.0, m.level - w, 1e-13) && near(p.range.1, m.level + w, 1e-13), "128 terms, ten standard deviations about the log forward");
        let keep = p.range;
        let terms = match s.int("terms 0=few 1=two 2=many 3=more than the default", 0, 20) { 1 => 2, 2 => 96, 3 => 160, _ => s.int("terms", 2, 12) as usize };
        let p = p.with_n_terms(terms);
        check!(s, p.n_terms == terms && p.range == keep, "another number of terms, the same range");
        let a = s.f64("lower", -4.0, 3.0);
        let b = a + s.f64("width", 0.2, 5.0);
        let p = p.with_range(a, b);
        check!(s, p.n_terms == terms && p.range == (a, b), "another range, the same number of terms");
        let lk = match s.int("strike 0=inside 1=at the lower end 2=at the upper end 3=below 4=above", 0, 9) { 1 => a, 2 => b, 3 => a - s.f64("distance", 0.0, 9.0), 4 => b + s.f64("distance", 0.0, 9.0), _ => a + s.f64("position", 0.0, 1.0) * (b - a) };
        let (k, df) = (lk.exp(), s.f64("discount factor", 0.2, 1.2));
        let coefficient = |i: usize, g: &dyn Fn(f64) -> f64, lo: f64, hi: f64| 2.0 / (b - a) * gauss(&|y| g(y) * (i as f64 * PI * (y - a) / (b - a)).cos(), lo, hi, 1 + terms / 3);
        let (mut call, mut put, mut fwd, mut size) = (0.0, 0.0, 0.0, 1e-3);
        for i in 0..terms {
            let u = i as f64 * PI / (b - a);
            let f = (m.evaluate(c(u, 0.0)) * c((u * a).cos(), -(u * a).sin())).re * if i == 0 { 0.5 } else { 1.0 };
            if lk < b { call += f * coefficient(i, &|y| y.exp() - k, lk.max(a), b); }
            if lk > a { put += f * coefficient(i, &|y| k - y.exp(), a, lk.min(b)); }
            fwd += f * coefficient(i, &|y| y.exp() - k, a, b);
            size += f.abs() * (b.exp() + k);
        }
        let (gc, gp) = (p.call(k, df), p.put(k, df));
        s.note(&|| format!("{m:?}, {terms} terms on {a}..{b}, strike {k}, discount factor {df}: call {gc}, expected {}, put {gp}, expected {}, forward {}", df * call, df * put, df * fwd));
        check!(s, (gc - df * call).abs() <= 1e-9 * size, "call: the cosine series of its payoff");
        check!(s, (gp - df * put).abs() <= 1e-9 * size, "put: the cosine series of its payoff");
        check!(s, (gc - gp - df * fwd).abs() <= 1e-9 * size, "call less put is the series of the forward's payoff");
    }
    C53 cos_prices run |s| {
        let n = s.int("parts", 1, 3);
        let w: Vec<f64> = (0..n).map(|_| s.f64("weight", 0.1, 1.0)).collect();
        let all: f64 = w.iter().sum();
        let mut parts = vec![];
        let level = s.f64("log forward", -1.0, 1.0);
        for x in &w { parts.push((x / all, level + s.f64("mean", -0.3, 0.3), s.f64("variance", 0.02, 0.3))); }
        let lo = parts.iter().map(|p| p.1 - 8.0 * p.2.sqrt()).fold(f64::MAX, f64::min);
        let hi = parts.iter().map(|p| p.1 + 8.0 * p.2.sqrt()).fold(f64::MIN, f64::max);
        let m = Mix { parts, expiry: 1.0, level, variance: 0.1 };
        let far = s.int("strike 0=near 1=far", 0, 4) == 1;
        let (k, df) = ((level + if far { s.f64("moneyness", -12.0, 6.0) } else { s.f64("moneyness", -1.0, 1.0) }).exp(), s.f64("discount factor", 0.2, 1.2));
        let p = CosPricer::new(&m).with_n_terms(400).with_range(lo, hi);
        let (gc, gp) = (p.call(k, df), p.put(k, df));
        let want = |call| df * m.parts.iter().map(|(w, a, v)| w * lognormal(*a, *v, k, call)).sum::<f64>();
        s.note(&|| format!("{m:?}, strike {k}, discount factor {df}: call {gc}, expected {}, put {gp}, expected {}", want(true), want(false)));
        check!(s, (gc - want(true)).abs() < 1e-8 * (1.0 + hi.exp() + k) && (gp - want(false)).abs() < 1e-8 * (1.0 + hi.exp() + k), "with enough terms on a wide range: the expected payoffs");
    }
    C54 fx_hhw_characteristic run |s| {
        let r = correlations(s);
        let mut p = parameters(s, r);
        if s.int("deterministic variance", 0, 4) == 1 { p.heston.gamma = 0.0; }
        let big_t = s.f64("expiry", 0.05, 10.0);
        let n = match s.int("steps 0=default 1=any", 0, 2) { 0 => 128, _ => 2 * s.int("half the steps", 1, 8) as usize };
        let f = if n == 128 && s.bool("default") { FxHhw1ForwardChf::new(&p, big_t) } else { FxHhw1ForwardChf::with_simpson_steps(&p, big_t, n) };
        check!(s, f.expiry == big_t && f.n_simpson == n && *f.params() == p, "expiry, steps and parameters are kept");
        let u = frequency(s);
        let tau = match s.int("time left 0=all 1=any 2=none 3=nearly all", 0, 4) { 1 => big_t * s.f64("share", 0.0, 1.0), 2 => 0.0, 3 => big_t - 2e-12, _ => big_t };
        let g = f.components(u, tau);
        let cc = heston_c(u, tau, p.heston.kappa, p.heston.gamma, p.correlations.rho_xi_sigma);
        let a = simpson(&|x| hhw_rate(&p, u, x, big_t), tau, n);
        let x = p.heston.kappa - p.heston.gamma * p.correlations.rho_xi_sigma;
        if (u - c(0.0, -1.0)).norm() < 1e-6 && x.abs() < 1e-3 { return Some(()); }
        if !(cc.norm() < 1e4 && a.norm() < 1e6) { return Some(()); }
        s.note(&|| format!("{p:?}, expiry {big_t}, {n} steps, u = {u}, tau = {tau}: {g:?}, expected {a}, {cc}"));
        check!(s, nearc(g.b, c(0.0, 1.0) * u, 1e-15), "loading of the log forward: i u");
        check!(s, nearc(g.c, cc, 1e-7), "loading of the variance: Heston's");
        check!(s, nearc(g.a, a, 1e-7), "constant: Simpson's rule for its rate, volatilities at calendar time");
        let (x, v) = (s.f64("log forward", -1.0, 1.0), s.f64("variance", 0.0, 0.3));
        let w = (g.a + g.b * x + g.c * v).exp();
        check!(s, !(w.norm() < 1e9) || nearc(g.assemble(x, v), w, 1e-9), "value: exp(A + B x + C v)");
        let x0 = p.fx_0.ln() + (p.rd_0 - p.rf_0) * big_t;
        check!(s, near(f.log_forward(), x0, 1e-11) && ForwardChf::expiry(&f) == big_t && f.typical_variance() == p.heston.theta, "log forward, expiry and typical variance for the pricer");
        let g = f.components(u, big_t);
        let w = (g.a + g.b * x0 + g.c * p.heston.sigma_0).exp();
        if !(w.norm() < 1e6) { return Some(()); }
        s.note(&|| format!("{p:?}, expiry {big_t}, {n} steps, u = {u}: {}, expected {w}", f.evaluate(u)));
        check!(s, nearc(f.evaluate(u), w, 1e-9) && nearc(ForwardChf::evaluate(&f, u), w, 1e-9), "today's value");
        check!(s, nearc(f.evaluate(c(0.0, 0.0)), c(1.0, 0.0), 1e-12), "mass one");
        if p.heston.kappa - p.heston.gamma * p.correlations.rho_xi_sigma > 1e-3 { check!(s, nearc(f.evaluate(c(0.0, -1.0)), c(x0.exp(), 0.0), 1e-9), "the forward is the mean"); }
    }
    C54 heston_riccati run |s| {
        let r = correlations(s);
        let p = parameters(s, r);
        let big_t = s.f64("expiry", 0.1, 5.0);
        let f = FxHhw1ForwardChf::with_simpson_steps(&p, big_t, 2);
        let u = c(s.f64("u", -10.0, 10.0), s.f64("imaginary u", -1.0, 0.0));
        let b = c(0.0, 1.0) * u;
        let rate = |y: Complex64| 0.5 * (b * b - b) + (p.heston.gamma * p.correlations.rho_xi_sigma * b - p.heston.kappa) * y + 0.5 * p.heston.gamma * p.heston.gamma * y * y;
        let n = 200;
        let h = big_t / n as f64;
        let mut y = c(0.0, 0.0);
        for _ in 0..n {
            let k1 = rate(y); let k2 = rate(y + 0.5 * h * k1); let k3 = rate(y + 0.5 * h * k2); let k4 = rate(y + h * k3);
            y += h / 6.0 * (k1 + 2.0 * k2 + 2.0 * k3 + k4);
        }
        let stiff = h * (p.heston.kappa + p.heston.gamma * (b.norm() + 1.0)) ;
        if stiff > 0.1 || !(y.norm() < 100.0) { return Some(()); }
        let g = f.components(u, big_t).c;
        s.note(&|| format!("{p:?}, expiry {big_t}, u = {u}: {g}, integrated {y}"));
        check!(s, nearc(g, y, 1e-4), "the loading of the variance solves Heston's equation");
    }
}
