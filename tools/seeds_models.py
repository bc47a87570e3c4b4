M = "src/models/"
SEEDS = {
    "sim-zero-interval-draws": dict(property="C40", edits=[(M + "common/simulation.rs", "    grid.sort();\n    grid.dedup();\n", "    if obs.len() > 1 || grid.len() > 2 {\n        grid.sort();\n    }\n    grid.dedup_by(|a, b| a == b && *a != last);\n")],
        needs="nothing but a second observation date on the last day, given twice",
        breaks="the last day is on the grid twice",
        demo="fn main() { }"),
    "sim-single-step-grid": dict(property="C40", edits=[(M + "common/simulation.rs", "        let capped = if next > last { last } else { next };", "        let capped = if next >= last || (last - next).num_days() < (max_step_days / 4) as i64 { last } else { next };")],
        needs="a last observation date just after a grid date",
        breaks="the last short interval is merged into the one before: a step longer than max_step_days",
        demo="""
use finquant::models::common::simulation::*;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
struct S(Vec<f64>);
impl SimulationModel for S { type State = f64; fn initial_state(&self) -> f64 { 0.0 } fn step(&mut self, s: &f64, _t: f64, dt: f64) -> f64 { self.0.push(dt); s + dt } }
fn main() {
    let mut m = S(vec![]);
    simulate_at_dates(&mut m, d(2024, 1, 1), &[d(2024, 3, 3)], 1, 30, &Actual365Fixed::default());
    assert_eq!(m.0.len(), 3);
    assert!(m.0.iter().all(|x| *x <= 30.0 / 365.0 + 1e-12));
}
"""),
    "nm-shrink-second-worst": dict(property="C41", edits=[("src/math/optimize.rs", "        for &idx in &order[1..] {", "        for &idx in &order[1..n.max(2).min(n + 1)] {")],
        needs="a shrink in two or more dimensions",
        breaks="the worst vertex is left where it is",
        demo="""
use finquant::math::optimize::*;
fn main() {
    // every fourth call is worse than everything before: forces shrinks
    let log = std::cell::RefCell::new(Vec::<Vec<f64>>::new());
    let f = |x: &[f64]| { log.borrow_mut().push(x.to_vec()); let k = log.borrow().len(); if k <= 3 { k as f64 } else { 10.0 + k as f64 } };
    nelder_mead(f, &[1.0, 1.0], NelderMeadOptions { max_iter: 1, ftol: 1e-12, xtol: 1e-12, step_frac: 0.5 });
    let n = log.borrow().len();
    assert_eq!(n, 3 + 2 + 2);
}
"""),
    "nm-tie-accept": dict(property="C41", edits=[("src/math/optimize.rs", "            if f_e < f_r {\n                simplex[worst] = x_e;\n                values[worst] = f_e;", "            if f_e < values[best] {\n                simplex[worst] = x_e;\n                values[worst] = f_e;")],
        needs="an expansion that is better than the best vertex but worse than the reflected point",
        breaks="the better reflected point is thrown away, so the result can be worse than a point already seen",
        demo="""
use finquant::math::optimize::*;
fn main() {
    let seen = std::cell::RefCell::new(f64::MAX);
    let c = std::cell::Cell::new(0.0);
    // minimum close to the first reflection
    let f = |x: &[f64]| { let v = (x[0] - c.get()).abs(); let mut s = seen.borrow_mut(); if v < *s { *s = v; } v };
    for k in 1..200 {
        *seen.borrow_mut() = f64::MAX;
        c.set(0.01 * k as f64);
        let m = nelder_mead(&f, &[1.0], NelderMeadOptions { max_iter: 1, ftol: 1e-14, xtol: 1e-14, step_frac: 0.3 });
        assert_eq!(m.f, *seen.borrow());
    }
}
"""),
    "hw-holee-convexity": dict(property="C42", edits=[(M + "interestrate/hull_white.rs", "            eta * eta * t * b * b * 0.5\n", "            eta * eta * t.min(20.0) * b * b * 0.5\n")],
        needs="the Ho-Lee limit more than twenty years ahead",
        breaks="the convexity term is wrong there",
        demo="""
use finquant::models::interestrate::hull_white::*;
fn main() {
    let m = |l| HullWhite1F { mean_reversion: l, sigma: 0.01 };
    let p = |x: f64| (-0.03 * x).exp();
    let (t, u) = (25.0, 40.0);
    let (a, b) = (m(0.0).discount_affine(t, u, 0.02, p(t), p(u), 0.03), m(1e-6).discount_affine(t, u, 0.02, p(t), p(u), 0.03));
    assert!((a - b).abs() < 1e-4, "{a} {b}");
}
"""),
    "cir-truncation": dict(property="C43", edits=[(M + "common/cir.rs", "        let sigma = state.max(0.0);\n        (sigma\n            + self.process.kappa * (self.process.theta - sigma) * dt", "        let sigma = state.max(0.0);\n        (sigma\n            + self.process.kappa * (self.process.theta - state) * dt")],
        needs="a step from a negative state",
        breaks="the drift sees the negative state",
        demo="""
use finquant::models::common::cir::*;
use finquant::models::common::simulation::SimulationModel;
fn main() {
    let p = CirProcess { kappa: 1.0, theta: 0.04, gamma: 0.3, sigma_0: 0.04 };
    let step = |x: f64| CirSimulator::new(p, 1).step(&x, 0.0, 0.1);
    assert_eq!(step(-0.5), step(0.0));
}
"""),
    "sabr-beta-one-log": dict(property="C44", edits=[(M + "forex/sabr.rs", "    let fk_full = fk_half * fk_half; // = (F·K)^{1−β}", "    let fk_full = fk_half * fk_half.max(1.0e-2); // = (F·K)^{1−β}")],
        needs="forward and strike so small that (FK)^((1-b)/2) is below one hundredth",
        breaks="the time correction uses another level",
        demo="""
use finquant::models::forex::sabr::*;
fn main() {
    let p = SabrParams::new(1e-5, 0.0, 0.0, 1e-9);
    let (f, t) = (1e-4, 10.0);
    let want = 0.1 * (1.0 + 0.01 / 24.0 * t);
    assert!((hagan_implied_vol(&p, f, f, t) - want).abs() < 1e-7);
}
"""),
    "dupire-edge-gamma": dict(property="C45", edits=[(M + "forex/dupire_local_vol.rs", "        return fd_kk(row, strikes, n - 2);", "        return fd_kk(row, strikes, 1);")],
        needs="the last strike of a grid with more than three strikes",
        breaks="the curvature at the last strike is that of the first interior one",
        demo="""
use finquant::models::forex::dupire_local_vol::*;
fn main() {
    let e = vec![0.5, 1.0, 1.5];
    let k = vec![0.8, 0.9, 1.0, 1.1, 1.2];
    let v = vec![vec![0.2; 5]; 3];
    let l = build(&e, &k, &v, 1.0, 0.0, 0.0);
    // mirrored curvature: at the last strike the local variance is 2 dC/dT / (K^2 C_KK(last interior))
    let c = |t: f64, x: f64| finquant::models::common::black_scholes::bs_call_forward(1.0, x, 0.2, t, 1.0);
    let dt = (c(1.5, 1.2) - c(0.5, 1.2)) / 1.0;
    let kk = (c(1.0, 1.2) - 2.0 * c(1.0, 1.1) + c(1.0, 1.0)) / 0.01;
    let want = 2.0 * dt / (1.44 * kk);
    assert!((l.variance[1][4] - want).abs() < 1e-6, "{} {want}", l.variance[1][4]);
}
"""),
    "eff-vol-bracket": dict(property="C46", edits=[(M + "forex/sabr_effective.rs", "        hi *= 2.0;\n", "        lo = hi;\n        hi *= 4.0;\n        lo *= 3.0;\n")],
        needs="a vol of vol above two, so that the first bracket has to be widened",
        breaks="the bracket jumps over the root",
        demo="""
use finquant::models::forex::sabr_effective::*;
fn main() {
    let c = |v| PiecewiseConstant::new(vec![0.0, 0.1, 0.3], vec![v, v]);
    let x = effective_vol_vol(&c(2.5), &c(0.2), 0.3);
    assert!((x - 2.5).abs() < 1e-6, "{x}");
}
"""),
    "td-sabr-knot": dict(property="C47", edits=[(M + "forex/sabr_time_dependent.rs", "            nu: self.nu.at(t),\n", "            nu: self.nu.at(t.min(self.rho.knots[self.rho.knots.len() - 2])),\n")],
        needs="a schedule of several segments and a time in the last one",
        breaks="the last segment's vol of vol is never used",
        demo="""
use finquant::models::forex::sabr_effective::PiecewiseConstant;
use finquant::models::forex::sabr_time_dependent::*;
fn main() {
    let c = |a, b| PiecewiseConstant::new(vec![0.0, 1.0, 2.0], vec![a, b]);
    let p = TimeDependentSabrParams::new(c(0.1, 0.2), c(-0.1, 0.1), c(0.3, 0.6), 0.5, 1.0);
    assert_eq!(p.at(1.5).nu, 0.6);
    assert_eq!(p.at(0.5).nu, 0.3);
}
"""),
    "slv-last-bin": dict(property="C48", edits=[(M + "forex/sabr_slv.rs", "    let bin_size = n.div_ceil(n_bins);", "    let bin_size = (n / n_bins).max(1);")],
        needs="a number of particles that the number of bins does not divide",
        breaks="more bins than asked for, the last with the few largest forwards",
        demo="""
use finquant::models::forex::dupire_local_vol::DupireLocalVol;
use finquant::models::forex::sabr_effective::PiecewiseConstant;
use finquant::models::forex::sabr_slv::*;
use finquant::models::forex::sabr_time_dependent::*;
fn main() {
    let c = |a| PiecewiseConstant::constant(2.0, a);
    let sim = |bins| {
        let l = DupireLocalVol { expiries: vec![0.5, 1.0], strikes: vec![0.8, 1.2], variance: vec![vec![0.04; 2]; 2] };
        TimeDependentSabrSlvSimulator::new(TimeDependentSabrParams::new(c(0.2), c(0.0), c(1.0), 1.0, 1.0), l, 3).with_bins(bins).simulate(1.0, 4, 9)
    };
    // nine particles in three or four bins of three: the same
    assert!(sim(3).iter().zip(sim(4)).all(|(a, b)| a.forward == b.forward));
}
"""),
}
del SEEDS["sim-zero-interval-draws"]
