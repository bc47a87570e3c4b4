//! Two-currency models: FX-Heston-Hull-White.
use super::modelsx::{near, Draws};
use crate::src::Src;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::fx_hhw::*;
use finquant::models::forex::fx_hhw_stock::*;
use finquant::models::interestrate::hull_white::HullWhite1F;

fn matrix(c: &Correlation4x4) -> [[f64; 4]; 4] {
    let (a, b, c, d, e, f) = (c.rho_xi_sigma, c.rho_xi_d, c.rho_xi_f, c.rho_sigma_d, c.rho_sigma_f, c.rho_d_f);
    [[1.0, a, b, c], [a, 1.0, d, e], [b, d, 1.0, f], [c, e, f, 1.0]]
}
/// determinant of the leading n by n block
fn minor(m: &[[f64; 4]; 4], n: usize) -> f64 {
    fn det(m: &[[f64; 4]; 4], row: usize, cols: &[usize]) -> f64 {
        if cols.is_empty() { return 1.0; }
        cols.iter().enumerate().map(|(k, c)| { let rest: Vec<usize> = cols.iter().copied().filter(|x| x != c).collect(); (if k % 2 == 0 { 1.0 } else { -1.0 }) * m[row][*c] * det(m, row + 1, &rest) }).sum()
    }
    det(m, 0, &(0..n).collect::<Vec<_>>())
}
pub fn correlations<S: Src>(s: &mut S) -> Correlation4x4 {
    let mut r = [0.0; 6];
    let wide = s.bool("any correlations");
    for x in r.iter_mut() { *x = match s.int("correlation 0=any 1=zero", 0, 3) { 1 => 0.0, _ => if wide { s.f64("correlation", -1.0, 1.0) } else { s.f64("correlation", -0.45, 0.45) } }; }
    Correlation4x4 { rho_xi_sigma: r[0], rho_xi_d: r[1], rho_xi_f: r[2], rho_sigma_d: r[3], rho_sigma_f: r[4], rho_d_f: r[5] }
}
/// clearly positive definite, or clearly not
fn definite(m: &[[f64; 4]; 4]) -> Option<bool> {
    let d: Vec<f64> = (1..=4).map(|n| minor(m, n)).collect();
    if d.iter().all(|x| *x > 1e-6) { Some(true) } else if d.iter().any(|x| *x < -1e-6) { Some(false) } else { None }
}
fn step(p: &FxHhwParams, l: &[[f64; 4]; 4], d: &mut Draws, s: &FxHhwState, dt: f64, td: f64, tf: f64) -> (FxHhwState, [f64; 4]) {
    let z = [d.next(), d.next(), d.next(), d.next()];
    let mut w = [0.0; 4];
    for i in 0..4 { w[i] = (0..=i).map(|j| l[i][j] * z[j]).sum::<f64>() * dt.sqrt(); }
    let v = s.variance.max(0.0);
    (FxHhwState {
        fx: s.fx * ((s.rd - s.rf - v / 2.0) * dt + v.sqrt() * w[0]).exp(),
        variance: (v + p.heston.kappa * (p.heston.theta - v) * dt + p.heston.gamma * v.sqrt() * w[1]).max(0.0),
        rd: s.rd + p.domestic.mean_reversion * (td - s.rd) * dt + p.domestic.sigma * w[2],
        rf: s.rf + (p.foreign.mean_reversion * (tf - s.rf) - p.foreign.sigma * p.correlations.rho_xi_f * v.sqrt()) * dt + p.foreign.sigma * w[3],
    }, w)
}
fn same(a: &FxHhwState, b: &FxHhwState, tol: f64) -> bool { near(a.fx, b.fx, tol) && near(a.variance, b.variance, tol) && near(a.rd, b.rd, tol) && near(a.rf, b.rf, tol) }

pub fn parameters<S: Src>(s: &mut S, c: Correlation4x4) -> FxHhwParams {
    FxHhwParams {
            fx_0: s.f64("spot", 0.5, 2.0),
            heston: CirProcess { kappa: s.f64("kappa", 0.1, 3.0), theta: s.f64("long-run variance", 0.001, 0.3), gamma: s.f64("vol of vol", 0.01, 1.5), sigma_0: match s.int("variance 0=any 1=zero", 0, 3) { 1 => 0.0, _ => s.f64("variance", 0.0001, 0.3) } },
            domestic: HullWhite1F { mean_reversion: s.f64("domestic reversion", 0.0, 1.0), sigma: s.f64("domestic volatility", 0.0, 0.05) },
            foreign: HullWhite1F { mean_reversion: s.f64("foreign reversion", 0.0, 1.0), sigma: s.f64("foreign volatility", 0.0, 0.05) },
            rd_0: s.f64("domestic rate", -0.02, 0.1), rf_0: s.f64("foreign rate", -0.02, 0.1), theta_d: s.f64("domestic target", -0.02, 0.1), theta_f: s.f64("foreign target", -0.02, 0.1), correlations: c,
    }
}
crate::contracts! {
    C49 correlation_factor run |s| {
        let c = correlations(s);
        let m = matrix(&c);
        let got = c.cholesky();
        s.note(&|| format!("{c:?}: {got:?}, minors {:?}", [minor(&m, 2), minor(&m, 3), minor(&m, 4)]));
        check!(s, c.as_matrix() == m, "the symmetric matrix with ones on the diagonal");
        check!(s, c.is_valid() == got.is_some(), "valid exactly when it factors");
        if let Some(want) = definite(&m) { check!(s, got.is_some() == want, "factors exactly when positive definite"); }
        if let Some(l) = got {
            for i in 0..4 { for j in 0..4 {
                check!(s, near((0..4).map(|k| l[i][k] * l[j][k]).sum(), m[i][j], 1e-9), "the factor times its transpose is the matrix");
                if j > i { check!(s, l[i][j] == 0.0, "lower triangular"); }
            } check!(s, l[i][i] > 0.0, "positive diagonal"); }
        }
    }
    C49 fx_heston_hull_white_path run |s| {
        let c = correlations(s);
        let p = parameters(s, c);
        let seed = s.int("seed", 0, 1 << 30) as u64;
        let ok = definite(&matrix(&c));
        let made = FxHhwSimulator::new(p, seed);
        s.note(&|| format!("{c:?}: simulator {}", made.is_ok()));
        check!(s, ok.is_none() || ok == Some(made.is_ok()), "a simulator for exactly the valid correlations");
        if ok != Some(true) { return Some(()); }
        let mut sim = made.ok().unwrap();
        check!(s, sim.params == p, "the parameters are kept");
        let l = c.cholesky().unwrap();
        let moving = s.bool("targets of time");
        if moving { let mut calls = 0; sim = sim.with_theta_fn(move |t| { calls += 1; (0.01 * t + 0.002 * calls as f64, 0.03 - 0.01 * t) }); }
        let mut d = Draws::new(seed);
        let mut x = sim.initial_state();
        check!(s, x == FxHhwState { fx: p.fx_0, variance: p.heston.sigma_0, rd: p.rd_0, rf: p.rf_0 }, "the initial state");
        let mut calls = 0;
        for _ in 0..s.int("steps", 1, 4) {
            let dt = s.f64("dt", 0.001, 0.7);
            let t = s.f64("t", 0.0, 10.0);
            if s.int("variance of the state 0=kept 1=negative", 0, 3) == 1 { x.variance = -0.01; }
            let (td, tf) = (s.f64("given domestic target", -0.02, 0.1), s.f64("given foreign target", -0.02, 0.1));
            let kind = s.int("step 0=of the parameters 1=given targets 2=of the model", 0, 2);
            let (y, w) = match kind { 0 => sim.step(&x, dt), 1 => sim.step_at_time(&x, dt, td, tf), _ => (SimulationModel::step(&mut sim, &x, t, dt), [0.0; 4]) };
            let (a, b) = match kind { 0 => (p.theta_d, p.theta_f), 1 => (td, tf), _ => if moving { calls += 1; (0.01 * t + 0.002 * calls as f64, 0.03 - 0.01 * t) } else { (p.theta_d, p.theta_f) } };
            let (e, v) = step(&p, &l, &mut d, &x, dt, a, b);
            s.note(&|| format!("{p:?}, step {kind} of {dt} at {t} to targets {a} {b} from {x:?}: {y:?} {w:?}, expected {e:?} {v:?}"));
            check!(s, same(&y, &e, 1e-11), "one Euler step of spot, variance and both rates");
            check!(s, kind == 2 || (0..4).all(|i| near(w[i], v[i], 1e-12)), "the correlated increments of the step");
            x = y;
        }
        let (ns, m) = (s.int("steps per path", 1, 4) as usize, s.int("paths", 1, 3) as usize);
        let end = s.f64("horizon", 0.1, 3.0);
        let got = FxHhwSimulator::new(p, seed).ok().unwrap().simulate(end, ns, m);
        let mut d = Draws::new(seed);
        let want: Vec<FxHhwState> = (0..m).map(|_| (0..ns).fold(FxHhwState::initial(&p), |x, _| step(&p, &l, &mut d, &x, end / ns as f64, p.theta_d, p.theta_f).0)).collect();
        s.note(&|| format!("{p:?}, {m} paths of {ns} steps to {end}: {got:?}, expected {want:?}"));
        check!(s, got.len() == m && got.iter().zip(&want).all(|(g, w)| same(g, w, 1e-9)), "paths one after the other, each of equal steps to the end");
    }
    C50 foreign_stock_path run |s| {
        let c = correlations(s);
        let p = parameters(s, c);
        let mut rho = |s: &mut S, what: &'static str| match s.int("correlation 0=any 1=one 2=minus one 3=beyond", 0, 9) { 1 => 1.0, 2 => -1.0, 3 => 1.0 + s.f64(what, 0.001, 0.5), 4 => -1.0 - s.f64(what, 0.001, 0.5), _ => s.f64(what, -1.0, 1.0) };
        let q = ForeignStock { s_0: s.f64("stock", 1.0, 200.0), variance: CirProcess { kappa: s.f64("stock kappa", 0.1, 3.0), theta: s.f64("stock long-run variance", 0.001, 0.3), gamma: s.f64("stock vol of vol", 0.01, 1.5), sigma_0: s.f64("stock variance", 0.0, 0.3) }, rho_xi_sf: rho(s, "FX and stock"), rho_sf_omega: rho(s, "stock and its variance") };
        let seed = s.int("seed", 0, 1 << 30) as u64;
        let ok = definite(&matrix(&c));
        let made = FxHhwStockSimulator::new(p, q, seed);
        s.note(&|| format!("{c:?}, {q:?}: simulator {}", made.is_ok()));
        let inside = q.rho_xi_sf.abs() <= 1.0 && q.rho_sf_omega.abs() <= 1.0;
        check!(s, !made.is_ok() || inside, "no simulator with a correlation beyond one");
        check!(s, ok.is_none() || made.is_ok() == (inside && ok == Some(true)), "a simulator for exactly the valid correlations");
        if ok != Some(true) || !inside { return Some(()); }
        let mut sim = made.ok().unwrap();
        let l = c.cholesky().unwrap();
        let mut d = Draws::new(seed);
        let walk = |d: &mut Draws, x: &FxHhwStockState, dt: f64| {
            let base = (*d).clone();
            let (b, _) = step(&p, &l, d, &x.fx, dt, p.theta_d, p.theta_f);
            let z0 = base.clone().next();
            let (z4, z5) = (d.next(), d.next());
            let zs = q.rho_xi_sf * z0 + (1.0 - q.rho_xi_sf * q.rho_xi_sf).sqrt() * z4;
            let zo = q.rho_sf_omega * zs + (1.0 - q.rho_sf_omega * q.rho_sf_omega).sqrt() * z5;
            let (v, w) = (x.fx.variance.max(0.0).sqrt(), x.stock_variance.max(0.0));
            FxHhwStockState { fx: b,
                stock: x.stock * ((x.fx.rf - q.rho_xi_sf * v * w.sqrt() - w / 2.0) * dt + w.sqrt() * zs * dt.sqrt()).exp(),
                stock_variance: (w + (q.variance.kappa * (q.variance.theta - w) - q.rho_sf_omega * q.rho_xi_sf * q.variance.gamma * (w.sqrt() * v)) * dt + q.variance.gamma * w.sqrt() * zo * dt.sqrt()).max(0.0) }
        };
        let first = FxHhwStockState { fx: FxHhwState { fx: p.fx_0, variance: p.heston.sigma_0, rd: p.rd_0, rf: p.rf_0 }, stock: q.s_0, stock_variance: q.variance.sigma_0 };
        let mut x = sim.initial_state();
        check!(s, x == first, "the initial state");
        for _ in 0..s.int("steps", 1, 4) {
            let dt = s.f64("dt", 0.001, 0.7);
            if s.int("stock variance of the state 0=kept 1=negative", 0, 3) == 1 { x.stock_variance = -0.01; }
            let y = if s.bool("step of the model") { SimulationModel::step(&mut sim, &x, 0.5, dt) } else { sim.step(&x, dt) };
            let e = walk(&mut d, &x, dt);
            s.note(&|| format!("{p:?}, {q:?}, step of {dt} from {x:?}: {y:?}, expected {e:?}"));
            check!(s, same(&y.fx, &e.fx, 1e-11) && near(y.stock, e.stock, 1e-11) && near(y.stock_variance, e.stock_variance, 1e-11), "one step of the FX block, the stock and its variance");
            x = y;
        }
        let (ns, m) = (s.int("steps per path", 1, 4) as usize, s.int("paths", 1, 3) as usize);
        let end = s.f64("horizon", 0.1, 3.0);
        let got = FxHhwStockSimulator::new(p, q, seed).ok().unwrap().simulate(end, ns, m);
        let mut d = Draws::new(seed);
        let want: Vec<FxHhwStockState> = (0..m).map(|_| (0..ns).fold(first, |x, _| walk(&mut d, &x, end / ns as f64))).collect();
        s.note(&|| format!("{p:?}, {q:?}, {m} paths of {ns} steps to {end}: {got:?}, expected {want:?}"));
        check!(s, got.len() == m && got.iter().zip(&want).all(|(g, w)| same(&g.fx, &w.fx, 1e-9) && near(g.stock, w.stock, 1e-9) && near(g.stock_variance, w.stock_variance, 1e-9)), "paths one after the other, each of equal steps to the end");
    }
}
