//! Forward market model.
use super::modelsx::{near, Draws};
use crate::src::Src;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::fx_fmm::FxFmmParams;
use finquant::models::forex::fx_fmm_simulator::*;
use finquant::models::interestrate::fmm::*;

/// a curve that is not flat
#[derive(Clone, Copy, Debug)]
struct Hump(f64, f64);
impl InitialDiscountCurve for Hump {
    fn p0(&self, t: f64) -> f64 { (-self.0 * t - self.1 * t * t / (1.0 + t)).exp() }
}
fn tenor<S: Src>(s: &mut S) -> FmmTenor {
    let m = s.int("rates", 1, 5) as usize;
    let mut d = vec![match s.int("first date 0=today 1=later", 0, 5) { 1 => s.f64("first date", 0.01, 0.5), _ => 0.0 }];
    for _ in 0..m { let x = d[d.len() - 1]; d.push(x + match s.int("period 0=half 1=one 2=any", 0, 3) { 0 => 0.5, 1 => 1.0, _ => s.f64("period", 0.05, 3.0) }); }
    let r = (0..m).map(|_| s.f64("rate", -0.02, 0.12)).collect();
    FmmTenor::new(d, r)
}
fn schedule<S: Src>(s: &mut S, m: usize) -> Option<VolSchedule> {
    match s.int("volatility 0=constant 1=steps 2=Ho-Lee", 0, 3) {
        1 => Some(VolSchedule::PiecewiseConstant((0..m).map(|_| { let mut t = s.f64("first knot", -0.5, 0.5); (0..s.int("knots", 1, 4)).map(|_| { let k = (t, s.f64("volatility", 0.001, 0.5)); t += match s.int("gap 0=half 1=any", 0, 1) { 0 => 0.5, _ => s.f64("gap", 0.1, 2.0) }; k }).collect() }).collect())),
        2 => Some(VolSchedule::HoLeeEquivalent { vol: s.f64("volatility", 0.001, 0.03), mean_reversion: match s.int("reversion 0=zero 1=tiny 2=any", 0, 4) { 0 => 0.0, 1 => s.f64("reversion", -9e-13, 9e-13), 2 => s.f64("reversion", -0.2, -0.01), _ => s.f64("reversion", 0.01, 1.5) } }),
        _ => None,
    }
}
/// a correlation matrix of unit vectors, so positive definite unless they are dependent
fn correlations<S: Src>(s: &mut S, m: usize) -> Vec<Vec<f64>> {
    let kind = s.int("correlations 0=none 1=decaying 2=any 3=maybe not definite", 0, 3);
    let b = s.f64("decay", 0.0, 2.0);
    let mut c = vec![vec![0.0; m]; m];
    for i in 0..m {
        c[i][i] = 1.0;
        for j in 0..i { let x = match kind { 0 => 0.0, 1 => (-b * (i - j) as f64).exp().min(0.999), 2 => s.f64("correlation", -0.9, 0.9) / m as f64, _ => s.f64("correlation", -1.0, 1.0) }; c[i][j] = x; c[j][i] = x; }
    }
    c
}
fn model<S: Src>(s: &mut S) -> Fmm {
    let q = tenor(s);
    let m = q.m();
    let v = (0..m).map(|_| s.f64("volatility", 0.0, 0.4)).collect();
    let c = correlations(s, m);
    let mut f = Fmm::new(q, v, c, LinearDecay);
    if s.bool("displaced") { f = f.with_betas((0..m).map(|_| match s.int("beta 0=any 1=zero 2=one", 0, 3) { 1 => 0.0, 2 => 1.0, _ => s.f64("beta", 0.0, 1.0) }).collect()); }
    if let Some(v) = schedule(s, m) { f = f.with_vol_schedule(v); }
    f
}
// the quantities as the documentation has them
fn first(q: &FmmTenor, t: f64) -> usize { (1..q.dates.len()).find(|j| q.dates[*j] >= t).unwrap_or(q.dates.len()) }
fn gam(q: &FmmTenor, j: usize, t: f64) -> f64 { ((q.dates[j] - t) / (q.dates[j] - q.dates[j - 1])).min(1.0).max(0.0) }
fn gg(q: &FmmTenor, j: usize, s: f64, t: f64) -> f64 { gam(q, j, s) - gam(q, j, t) }
fn vol(m: &Fmm, j: usize, t: f64) -> f64 {
    let q = &m.tenor;
    match &m.vol_schedule {
        None => m.sigmas[j - 1],
        Some(VolSchedule::PiecewiseConstant(p)) => p[j - 1].iter().rev().find(|k| k.0 <= t).unwrap_or(&p[j - 1][0]).1,
        Some(VolSchedule::HoLeeEquivalent { vol, mean_reversion: a }) => if t >= q.dates[j] { 0.0 } else if a.abs() < 1e-12 { vol * (q.dates[j] - q.dates[j - 1]) } else { vol * ((a * (t - q.dates[j - 1])).exp() - (a * (t - q.dates[j])).exp()) / a },
    }
}
fn level(m: &Fmm, j: usize, x: f64) -> f64 { m.betas.as_ref().map_or(1.0, |b| b[j - 1] * x + (1.0 - b[j - 1]) * m.tenor.initial_rates[j - 1]) }
fn tau(m: &Fmm, j: usize) -> f64 { m.tenor.dates[j] - m.tenor.dates[j - 1] }
fn back(m: &Fmm, x: &FmmPath, k: usize, t2: f64, a: f64, b: f64) -> f64 {
    let q = &m.tenor;
    let (g, h) = (gg(q, k, q.dates[k - 1], t2), gg(q, k, t2, q.dates[k]));
    a * (0.5 * g * h * x.y_diag[k - 1] - g * ((1.0 + tau(m, k) * x.rates[k - 1]).ln() + b.ln())).exp()
}
fn front(m: &Fmm, x: &FmmPath, t2: f64, a: f64, b: f64) -> f64 {
    let q = &m.tenor;
    let k = first(q, x.t);
    let (lo, hi, t) = (q.dates[k - 1], q.dates[k], x.t);
    let (g, y0) = (gg(q, k, t, t2), x.y_at_start[k - 1]);
    a * (-g * (b.ln() + (1.0 + tau(m, k) * x.rates_at_start[k - 1]).ln()) - g * x.x_active - 0.5 * g * g * (x.y_diag[k - 1] - y0)
        + 0.5 * y0 * (gg(q, k, t2, hi) * gg(q, k, lo, t2) - gg(q, k, t, hi) * gg(q, k, lo, t))).exp()
}
fn stub<C: InitialDiscountCurve>(m: &Fmm, x: &FmmPath, t2: f64, c: &C) -> f64 {
    let k = first(&m.tenor, x.t);
    let (lo, hi) = (m.tenor.dates[k - 1], m.tenor.dates[k]);
    if x.t <= lo { back(m, x, k, t2, c.p0(t2) / c.p0(lo), c.p0(hi) / c.p0(lo)) } else { front(m, x, t2, c.p0(t2) / c.p0(x.t), c.p0(hi) / c.p0(lo)) }
}
fn bond<C: InitialDiscountCurve>(m: &Fmm, x: &FmmPath, t2: f64, c: &C) -> f64 {
    if t2 == x.t { return 1.0; }
    let (i, j) = (first(&m.tenor, x.t), first(&m.tenor, t2));
    if i == j { return stub(m, x, t2, c); }
    let (lo, hi) = (m.tenor.dates[j - 1], m.tenor.dates[j]);
    let mut p = if x.t == m.tenor.dates[i] { 1.0 } else { stub(m, x, m.tenor.dates[i], c) };
    for k in i + 1..j { p /= 1.0 + tau(m, k) * x.rates[k - 1]; }
    p * back(m, x, j, t2, c.p0(t2) / c.p0(lo), c.p0(hi) / c.p0(lo))
}
fn increments(l: &[Vec<f64>], z: &[f64], dt: f64) -> Vec<f64> { (0..l.len()).map(|i| (0..=i).map(|j| l[i][j] * z[j]).sum::<f64>() * dt.sqrt()).collect() }
fn evolve(m: &Fmm, l: &[Vec<f64>], z: &[f64], x: &FmmPath, dt: f64) -> FmmPath { advance(m, &increments(l, z, dt), &vec![0.0; m.tenor.m()], x, dt) }
/// one step with the given increments; a rate drifts down by its volatility times the shift
fn advance(m: &Fmm, dw: &[f64], shift: &[f64], x: &FmmPath, dt: f64) -> FmmPath {
    let n = m.tenor.m();
    let (u, e) = (x.t + dt / 2.0, first(&m.tenor, x.t));
    let a: Vec<f64> = (1..=n).map(|j| vol(m, j, u) * level(m, j, x.rates[j - 1])).collect();
    let g: Vec<f64> = (1..=n).map(|j| gam(&m.tenor, j, u)).collect();
    let mut y = x.clone();
    for j in e..=n {
        let s: f64 = (e..=j).map(|i| m.correlation[i - 1][j - 1] * tau(m, i) * a[i - 1] * g[i - 1] / (1.0 + tau(m, i) * x.rates[i - 1])).sum();
        y.rates[j - 1] += a[j - 1] * g[j - 1] * ((s - shift[j - 1]) * dt + dw[j - 1]);
    }
    for j in 1..=n { let left = m.tenor.dates[j] - x.t; if left > 0.0 { y.y_diag[j - 1] += (a[j - 1] / (x.rates[j - 1] + 1.0 / tau(m, j))).powi(2) * left.min(dt); } }
    if e <= n && x.t > m.tenor.dates[e - 1] && x.t < m.tenor.dates[e] {
        let mid = (x.rates[e - 1] + y.rates[e - 1]) / 2.0;
        y.x_active += (y.y_diag[e - 1] - x.y_at_start[e - 1]) / tau(m, e) * dt + vol(m, e, u) * level(m, e, mid) / (mid + 1.0 / tau(m, e)) * dw[e - 1];
    }
    y.t = x.t + dt;
    for k in e + 1..=first(&m.tenor, y.t).min(n) { y.rates_at_start[k - 1] = y.rates[k - 1]; y.y_at_start[k - 1] = y.y_diag[k - 1]; y.x_active = 0.0; }
    y
}
fn start(m: &Fmm) -> FmmPath {
    let n = m.tenor.m();
    let mut s = vec![0.0; n];
    s[0] = m.tenor.initial_rates[0];
    FmmPath { rates: m.tenor.initial_rates.clone(), y_diag: vec![0.0; n], rates_at_start: s, y_at_start: vec![0.0; n], x_active: 0.0, t: 0.0 }
}
fn all(a: &[f64], b: &[f64], tol: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, tol)) }
fn same(a: &FmmPath, b: &FmmPath, tol: f64) -> bool { all(&a.rates, &b.rates, tol) && all(&a.y_diag, &b.y_diag, tol) && all(&a.rates_at_start, &b.rates_at_start, tol) && all(&a.y_at_start, &b.y_at_start, tol) && near(a.x_active, b.x_active, tol) && near(a.t, b.t, tol) }
/// the factor and the smallest pivot met
fn factor(c: &[Vec<f64>]) -> (Vec<Vec<f64>>, f64) {
    let n = c.len();
    let mut l = vec![vec![0.0; n]; n];
    let mut least = f64::MAX;
    for j in 0..n {
        let p = c[j][j] - (0..j).map(|k| l[j][k] * l[j][k]).sum::<f64>();
        least = least.min(p);
        if p < 1e-9 { return (l, least); }
        l[j][j] = p.sqrt();
        for i in j + 1..n { l[i][j] = (c[i][j] - (0..j).map(|k| l[i][k] * l[j][k]).sum::<f64>()) / l[j][j]; }
    }
    (l, least)
}
fn healthy(m: &Fmm, x: &FmmPath) -> bool { (1..=m.tenor.m()).all(|j| { let a = 1.0 + tau(m, j) * x.rates[j - 1]; a > 0.1 && a < 20.0 }) }
// the FX simulator: one forward market model per currency beside spot and its variance
fn joint(p: &FxFmmParams) -> Vec<Vec<f64>> {
    let (n, r) = (p.tenor.m(), &p.correlations);
    // driver i: spot, its variance, rate k of the domestic or the foreign currency
    let entry = |a: usize, b: usize| -> f64 {
        if a < 2 && b < 2 { return if a == b { 1.0 } else { r.rho_xi_sigma }; }
        if a.min(b) < 2 {
            let k = a.max(b) - 2;
            let v = match (a.min(b), k < n) { (0, true) => &r.rho_xi_d, (0, _) => &r.rho_xi_f, (_, true) => &r.rho_sigma_d, _ => &r.rho_sigma_f };
            return v[k % n];
        }
        let (i, j) = (a - 2, b - 2);
        match (i < n, j < n) { (true, true) => p.domestic.rate_corr[i][j], (false, false) => p.foreign.rate_corr[i - n][j - n], _ => (r.cross_rate_corr[i % n][j % n] + r.cross_rate_corr[j % n][i % n]) / 2.0 }
    };
    (0..2 + 2 * n).map(|a| (0..2 + 2 * n).map(|b| entry(a, b)).collect()).collect()
}
fn sides(p: &FxFmmParams) -> [Fmm; 2] { [&p.domestic, &p.foreign].map(|x| Fmm::new(p.tenor.clone(), x.sigmas.clone(), x.rate_corr.clone(), LinearDecay)) }
fn unpack(x: &FxFmmState) -> [FmmPath; 2] {
    [FmmPath { rates: x.rates_d.clone(), y_diag: x.y_diag_d.clone(), rates_at_start: x.rates_at_start_d.clone(), y_at_start: x.y_at_start_d.clone(), x_active: x.x_active_d, t: x.t },
     FmmPath { rates: x.rates_f.clone(), y_diag: x.y_diag_f.clone(), rates_at_start: x.rates_at_start_f.clone(), y_at_start: x.y_at_start_f.clone(), x_active: x.x_active_f, t: x.t }]
}
fn pack(fx: f64, variance: f64, [d, f]: [FmmPath; 2]) -> FxFmmState {
    FxFmmState { fx, variance, t: d.t, rates_d: d.rates, rates_f: f.rates, y_diag_d: d.y_diag, y_diag_f: f.y_diag, rates_at_start_d: d.rates_at_start, rates_at_start_f: f.rates_at_start, y_at_start_d: d.y_at_start, y_at_start_f: f.y_at_start, x_active_d: d.x_active, x_active_f: f.x_active }
}
fn fx_start(p: &FxFmmParams) -> FxFmmState { pack(p.fx_0, p.heston.sigma_0, sides(p).each_ref().map(start)) }
fn fx_evolve(p: &FxFmmParams, l: &[Vec<f64>], z: &[f64], x: &FxFmmState, dt: f64) -> FxFmmState {
    let n = p.tenor.m();
    let dw = increments(l, z, dt);
    let (m, s) = (sides(p), unpack(x));
    let v = x.variance.max(0.0);
    let k = first(&p.tenor, x.t).min(n);
    let fx = x.fx * ((x.rates_d[k - 1] - x.rates_f[k - 1] - v / 2.0) * dt + v.sqrt() * dw[0]).exp();
    let w = (v + p.heston.kappa * (p.heston.theta - v) * dt + p.heston.gamma * v.sqrt() * dw[1]).max(0.0);
    let shift: Vec<f64> = p.correlations.rho_xi_f.iter().map(|r| r * v.sqrt()).collect();
    pack(fx, w, [advance(&m[0], &dw[2..2 + n], &vec![0.0; n], &s[0], dt), advance(&m[1], &dw[2 + n..], &shift, &s[1], dt)])
}
fn fx_same(a: &FxFmmState, b: &FxFmmState, tol: f64) -> bool {
    let (x, y) = (unpack(a), unpack(b));
    near(a.fx, b.fx, tol) && near(a.variance, b.variance, tol) && same(&x[0], &y[0], tol) && same(&x[1], &y[1], tol)
}
fn fx_healthy(p: &FxFmmParams, x: &FxFmmState) -> bool { x.fx > 1e-3 && x.fx < 1e3 && sides(p).iter().zip(&unpack(x)).all(|(m, y)| healthy(m, y)) }
/// every correlation drawn towards zero, so that the joint matrix can be positive definite
fn shrink(p: &mut FxFmmParams, h: f64) {
    p.correlations.rho_xi_sigma *= h;
    for v in [&mut p.correlations.rho_xi_d, &mut p.correlations.rho_xi_f, &mut p.correlations.rho_sigma_d, &mut p.correlations.rho_sigma_f] { for x in v.iter_mut() { *x *= h; } }
    for x in p.correlations.cross_rate_corr.iter_mut().flatten() { *x *= h; }
    for m in [&mut p.domestic.rate_corr, &mut p.foreign.rate_corr] { for (i, r) in m.iter_mut().enumerate() { for (j, x) in r.iter_mut().enumerate() { if i != j { *x *= h; } } } }
}
/// a time of the grid: a date, or between two
fn time<S: Src>(s: &mut S, q: &FmmTenor, lo: usize) -> f64 {
    let k = s.int("period", lo as i32, q.m() as i32) as usize;
    if k == 0 || s.int("on a date", 0, 2) == 1 { q.dates[k] } else { let u = s.f64("share", 0.001, 0.999); q.dates[k - 1] + u * (q.dates[k] - q.dates[k - 1]) }
}
crate::contracts! {
    C51 forward_market_model run |s| {
        let m = model(s);
        let q = &m.tenor;
        let n = q.m();
        check!(s, n == q.initial_rates.len() && q.dates.len() == n + 1, "as many rates as periods");
        let t = match s.int("time 0=any 1=on a date 2=beyond", 0, 3) { 1 => q.dates[s.idx("date", n + 1)], 2 => q.dates[n] + s.f64("beyond", 0.001, 2.0), _ => s.f64("time", 0.0, q.dates[n]) };
        s.note(&|| format!("{m:?} at {t}"));
        check!(s, q.eta(t) == first(q, t), "the first rate whose period ends at t or later, one past the last if none");
        for j in 1..=n {
            check!(s, q.tau(j) == q.dates[j] - q.dates[j - 1], "the length of the period");
            check!(s, near(m.decay.gamma(j, t, q), gam(q, j, t), 1e-13), "decay: one before the period, zero after, linear in between");
            let u = s.f64("other time", 0.0, q.dates[n] + 1.0);
            check!(s, near(m.decay.big_g(j, t, u, q), gg(q, j, t, u), 1e-13), "difference of decays");
            let x = s.f64("rate", -0.05, 0.2);
            check!(s, near(m.sigma_at(j, t), vol(&m, j, t), 1e-9), "volatility: constant, the latest knot's, or Ho-Lee's");
            check!(s, near(m.displacement_level(j, x), level(&m, j, x), 1e-13), "level: one, or beta R + (1 - beta) R0");
            check!(s, near(m.adapted_vol(j, t, x), vol(&m, j, t) * level(&m, j, x), 1e-9), "volatility times level");
        }
        let r = s.f64("flat rate", -0.05, 0.2);
        check!(s, near(FlatCurve { rate: r }.p0(t), (-r * t).exp(), 1e-13) && near(FlatCurve { rate: r }.p0_fwd(t, t + 1.0), (-r).exp(), 1e-13), "the flat curve");
    }
    C51 forward_market_bonds run |s| {
        let m = model(s);
        let q = &m.tenor;
        let n = q.m();
        let c = Hump(s.f64("level", -0.01, 0.1), s.f64("hump", -0.01, 0.03));
        let t = time(s, q, 0);
        let mut x = start(&m);
        x.t = t;
        for j in 0..n { x.rates[j] = s.f64("rate", -0.02, 0.2); x.y_at_start[j] = s.f64("y at start", 0.0, 0.2); x.y_diag[j] = x.y_at_start[j] + s.f64("y since", 0.0, 0.2); x.rates_at_start[j] = s.f64("rate at start", -0.02, 0.2); }
        x.x_active = s.f64("x", -0.2, 0.2);
        let t2 = time(s, q, 0);
        if !(t2 == t || t2 > t + 1e-9) { return Some(()); }
        let got = bond_price(&m, &x, t2, &c);
        let want = bond(&m, &x, t2, &c);
        s.note(&|| format!("{q:?} {x:?}: P({t}, {t2}) = {got}, expected {want}"));
        check!(s, near(got, want, 1e-10), "bond price: stub of the current period, whole periods, stub of the last");
        let e = first(q, t);
        let b = bank_account(&m, &x, &c);
        let w: f64 = (1..=e.min(n)).map(|j| 1.0 + tau(&m, j) * x.rates[j - 1]).product::<f64>() * if e > n { 1.0 } else { bond(&m, &x, q.dates[e], &c) };
        s.note(&|| format!("{q:?} {x:?}: B({t}) = {b}, expected {w}"));
        check!(s, near(b, w, 1e-10), "bank account: the accruals to the end of the current period, discounted back");
        let far = FmmPath { t: q.dates[n] + s.f64("beyond", 0.001, 1.0), ..x.clone() };
        check!(s, near(bank_account(&m, &far, &c), (1..=n).map(|j| 1.0 + tau(&m, j) * x.rates[j - 1]).product(), 1e-12), "bank account beyond the last date");
        let k = first(q, t2);
        if t <= q.dates[k - 1] {
            let (a, d) = (s.f64("market", 0.5, 1.1), s.f64("market period", 0.5, 1.1));
            check!(s, near(back_stub_forward_bond(&m, &x, k, t2, a, d), back(&m, &x, k, t2, a, d), 1e-11), "back stub");
        }
        if e == k && t > q.dates[e - 1] {
            let (a, d) = (s.f64("market", 0.5, 1.1), s.f64("market period", 0.5, 1.1));
            check!(s, near(front_stub_bond(&m, &x, t2, a, d), front(&m, &x, t2, a, d), 1e-11), "front stub");
        }
        // a path that starts at the curve's own forward rates gives the curve back
        if q.dates[0] == 0.0 {
            let r = (1..=n).map(|j| (c.p0(q.dates[j - 1]) / c.p0(q.dates[j]) - 1.0) / (q.dates[j] - q.dates[j - 1])).collect::<Vec<_>>();
            let f = Fmm::new(FmmTenor::new(q.dates.clone(), r), m.sigmas.clone(), m.correlation.clone(), LinearDecay);
            let got = bond_price(&f, &start(&f), t2, &c);
            s.note(&|| format!("{q:?} today: P(0, {t2}) = {got}, curve {}", c.p0(t2)));
            check!(s, near(got, c.p0(t2), 1e-11), "today's bond prices are the curve's");
        }
    }
    C52 forward_market_path run |s| {
        let m = model(s);
        let n = m.tenor.m();
        let seed = s.int("seed", 0, 1 << 30) as u64;
        let (l, least) = factor(&m.correlation);
        let made = FmmSimulator::new(m.clone(), seed);
        s.note(&|| format!("{:?}: simulator {}, least pivot {least}", m.correlation, made.is_ok()));
        if least.abs() > 1e-6 { check!(s, made.is_ok() == (least > 0.0), "a simulator for exactly the positive definite correlations"); }
        if least < 1e-6 { return Some(()); }
        let mut sim = made.ok().unwrap();
        let mut x = sim.initial_path();
        check!(s, sim.model == m && x == start(&m) && sim.initial_state() == x, "the initial path");
        let mut d = Draws::new(seed);
        for _ in 0..s.int("steps", 1, 6) {
            let e = first(&m.tenor, x.t);
            let gap = if e <= n { m.tenor.dates[e] - x.t } else { 1.0 };
            let dt = match s.int("dt 0=any 1=to the next date 2=past it 3=past two", 0, 5) { 1 if gap > 1e-6 => gap, 2 => gap + s.f64("dt", 0.01, 0.4), 3 => gap + s.f64("dt", 0.6, 2.5), _ => s.f64("dt", 0.01, 0.7) };
            if x.t + dt > m.tenor.dates[0] - 1e-9 && x.t < m.tenor.dates[0] { return Some(()); }
            let z: Vec<f64> = (0..n).map(|_| d.next()).collect();
            let want = evolve(&m, &l, &z, &x, dt);
            if !healthy(&m, &want) { return Some(()); }
            let y = if s.bool("step of the model") { SimulationModel::step(&mut sim, &x, 0.3, dt) } else { let mut y = x.clone(); sim.step(&mut y, dt); y };
            s.note(&|| format!("{m:?}, step of {dt} with {z:?} from {x:?}: {y:?}, expected {want:?}"));
            check!(s, same(&y, &want, 1e-9), "one step of rates, their variances and the current period's state");
            x = y;
        }
        let (k, p) = (s.int("steps per path", 1, 5) as usize, s.int("paths", 1, 3) as usize);
        let end = s.f64("horizon", 0.1, 3.0);
        let mut d = Draws::new(seed);
        let mut want = vec![];
        for _ in 0..p {
            let mut x = start(&m);
            for _ in 0..k { let z: Vec<f64> = (0..n).map(|_| d.next()).collect(); x = evolve(&m, &l, &z, &x, end / k as f64); if !healthy(&m, &x) { return Some(()); } }
            want.push(x);
        }
        let got = FmmSimulator::new(m.clone(), seed).ok().unwrap().simulate_terminal(end, k, p);
        s.note(&|| format!("{m:?}, {p} paths of {k} steps to {end}: {got:?}, expected {want:?}"));
        check!(s, got.len() == p && got.iter().zip(&want).all(|(g, w)| same(g, w, 1e-8)), "paths one after the other, each of equal steps to the end");
    }
    C57 fx_forward_market_path run |s| {
        let odd = s.int("fault 0=maybe", 0, 12) == 0;
        let mut p = super::modellmm::fmm_parameters(s, odd);
        let scale = match s.int("scale 0=one 1=ten", 0, 3) { 1 => 10.0, _ => 1.0 };
        for x in p.domestic.sigmas.iter_mut().chain(p.foreign.sigmas.iter_mut()) { *x *= scale; }
        let n = p.tenor.m();
        let seed = s.int("seed", 0, 1 << 30) as u64;
        let valid = p.validate().is_ok();
        let mild = if valid && s.int("correlations 0=as they are", 0, 9) > 0 { 0.9 / (1 + 2 * n) as f64 } else { 1.0 };
        if valid { shrink(&mut p, mild); }
        let made = FxFmmSimulator::new(p.clone(), seed);
        s.note(&|| format!("{p:?}: simulator {}, parameters {valid}", made.is_ok()));
        if !valid { check!(s, made.is_err(), "no simulator for faulty parameters"); return Some(()); }
        let (l, least) = factor(&joint(&p));
        s.note(&|| format!("{:?}: simulator {}, least pivot {least}", joint(&p), made.is_ok()));
        if least.abs() > 1e-6 { check!(s, made.is_ok() == (least > 0.0), "a simulator for exactly the positive definite correlations"); }
        if least < 1e-6 { return Some(()); }
        let mut sim = made.ok().unwrap();
        let mut x = sim.initial_state();
        s.note(&|| format!("{p:?}: initial state {x:?}"));
        check!(s, sim.params == p && x == fx_start(&p) && FxFmmState::initial(&p) == x, "the initial state");
        if !fx_healthy(&p, &x) { return Some(()); }
        let mut d = Draws::new(seed);
        for _ in 0..s.int("steps", 1, 6) {
            let e = first(&p.tenor, x.t);
            let gap = if e <= n { p.tenor.dates[e] - x.t } else { 1.0 };
            let dt = match s.int("dt 0=any 1=to the next date 2=past it 3=past two", 0, 5) { 1 if gap > 1e-6 => gap, 2 => gap + s.f64("dt", 0.01, 0.4), 3 => gap + s.f64("dt", 0.6, 2.5), _ => s.f64("dt", 0.01, 0.7) };
            let z: Vec<f64> = (0..2 + 2 * n).map(|_| d.next()).collect();
            let want = fx_evolve(&p, &l, &z, &x, dt);
            if !fx_healthy(&p, &want) || !p.tenor.dates.iter().all(|t| *t == want.t || (t - want.t).abs() > 1e-9) { return Some(()); }
            let y = if s.bool("step of the model") { SimulationModel::step(&mut sim, &x, 0.3, dt) } else { let mut y = x.clone(); sim.step(&mut y, dt); y };
            s.note(&|| format!("{p:?}, step of {dt} with {z:?} from {x:?}: {y:?}, expected {want:?}"));
            check!(s, fx_same(&y, &want, 1e-9), "one step of spot, its variance, and the rates of both currencies");
            x = y;
        }
        let (k, q) = (s.int("steps per path", 1, 5) as usize, s.int("paths", 1, 3) as usize);
        let end = s.f64("horizon", 0.1, 3.0);
        let mut d = Draws::new(seed);
        let mut want = vec![];
        for _ in 0..q {
            let mut x = fx_start(&p);
            for _ in 0..k { let z: Vec<f64> = (0..2 + 2 * n).map(|_| d.next()).collect(); x = fx_evolve(&p, &l, &z, &x, end / k as f64); if !fx_healthy(&p, &x) { return Some(()); } }
            want.push(x);
        }
        let got = FxFmmSimulator::new(p.clone(), seed).ok().unwrap().simulate_terminal(end, k, q);
        s.note(&|| format!("{p:?}, {q} paths of {k} steps to {end}: {got:?}, expected {want:?}"));
        check!(s, got.len() == q && got.iter().zip(&want).all(|(g, w)| fx_same(g, w, 1e-8)), "paths one after the other, each of equal steps to the end");
    }
}
