M = "src/models/"
HLMM = """
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::fx_hlmm::*;
fn params() -> FxHlmmParams {
    let l = DdSvLmm { sigmas: vec![0.15, 0.15], betas: vec![1.0; 2], lambda: 1.0, eta: 0.1, v_0: 1.0, libor_corr: vec![vec![1.0, 0.5], vec![0.5, 1.0]] };
    FxHlmmParams { fx_0: 1.3, heston: CirProcess { kappa: 0.5, theta: 0.1, gamma: 0.3, sigma_0: 0.1 }, tenor: LiborTenor::new(vec![0.0, 0.5, 1.0], vec![0.03, 0.04]),
        domestic: l.clone(), foreign: l, correlations: FxHlmmCorrelations { rho_xi_sigma: -0.4, rho_xi_d: vec![0.1; 2], rho_xi_f: vec![0.1; 2], libor_cross_corr: vec![vec![0.2; 2]; 2] } }
}
"""
FMM = """
use finquant::models::common::cir::CirProcess;
use finquant::models::interestrate::fmm::*;
use finquant::models::forex::fx_fmm::*;
fn params() -> FxFmmParams {
    let l = FmmSide { sigmas: vec![0.01, 0.01], lambda: 1.0, eta: 0.3, v_0: 1.0, rate_corr: vec![vec![1.0, 0.5], vec![0.5, 1.0]], decay: LinearDecay };
    FxFmmParams { fx_0: 1.3, heston: CirProcess { kappa: 0.5, theta: 0.1, gamma: 0.3, sigma_0: 0.1 }, tenor: FmmTenor::new(vec![0.0, 0.5, 1.0], vec![0.03, 0.04]),
        domestic: l.clone(), foreign: l, correlations: FxFmmCorrelations { rho_xi_sigma: -0.4, rho_xi_d: vec![0.1; 2], rho_xi_f: vec![0.3; 2], rho_sigma_d: vec![0.1; 2], rho_sigma_f: vec![0.1; 2], cross_rate_corr: vec![vec![0.2; 2]; 2] } }
}
"""
HHW = """
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::fx_hhw::*;
use finquant::models::interestrate::hull_white::HullWhite1F;
fn params() -> FxHhwParams {
    FxHhwParams { fx_0: 1.35, heston: CirProcess { kappa: 0.5, theta: 0.1, gamma: 0.3, sigma_0: 0.1 }, domestic: HullWhite1F { mean_reversion: 0.01, sigma: 0.007 },
        foreign: HullWhite1F { mean_reversion: 0.05, sigma: 0.012 }, rd_0: 0.02, rf_0: 0.05, theta_d: 0.02, theta_f: 0.05,
        correlations: Correlation4x4 { rho_xi_sigma: -0.4, rho_xi_d: -0.15, rho_xi_f: -0.15, rho_sigma_d: 0.3, rho_sigma_f: 0.3, rho_d_f: 0.25 } }
}
"""
SEEDS = {
    "month-end-long-closure": dict(property="C04", edits=[("src/time/calendars.rs", "        while self.is_holiday(last_day_of_month) {\n            last_day_of_month -= ONE_DAY;\n        }", "        for _ in 0..3 {\n            if self.is_holiday(last_day_of_month) {\n                last_day_of_month -= ONE_DAY;\n            }\n        }")],
        needs="a month that ends with four or more closed days (Norway, March 2013)",
        breaks="the month end is a holiday",
        demo="""
use finquant::time::calendars::Calendar;
use finquant::time::calendars::norway::Norway;
fn main() { assert_eq!(Norway.end_of_month(d(2013, 3, 4)), d(2013, 3, 27)); }
"""),
    "iceland-summer-day": dict(property="C09", edits=[("src/time/calendars/iceland.rs", "(19..=25).contains(&d) && w == Weekday::Thu", "(19..25).contains(&d) && w == Weekday::Thu")],
        needs="a year whose first day of summer falls on 25 April (2024)",
        breaks="the first day of summer is a business day in such years",
        demo="""
use finquant::time::calendars::Calendar;
use finquant::time::calendars::iceland::Iceland;
fn main() { assert!(!Iceland.is_business_day(d(2024, 4, 25))); }
"""),
    "easter-2091": dict(property="C10", edits=[("src/time/calendars.rs", "    107, 99, 91, 103, 95, 115, 107, 91, 111, 103, // 2090-2099", "    107, 99, 92, 103, 95, 115, 107, 91, 111, 103, // 2090-2099")],
        needs="one year of three hundred",
        breaks="Easter Monday of a leap year is a Tuesday",
        demo="""
use finquant::time::calendars::Calendar;
use finquant::time::calendars::target::Target;
fn main() { let e = NaiveDate::from_yo_opt(2092, Target.easter_monday(2092)).unwrap(); assert_eq!(e.weekday(), Weekday::Mon); }
"""),
    "dc-business-reversed": dict(property="C13", edits=[("src/time/daycounters/business252.rs", "        Ok(day_count as f64 / 252.0)", "        Ok(day_count.unsigned_abs() as f64 / 252.0)")],
        needs="dates in reverse order",
        breaks="the fraction of a reversed range loses its sign",
        demo="""
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::business252::Business252;
fn main() {
    let c: Business252 = serde_json::from_str(r#"{"calendar":{"type":"Target"}}"#).unwrap();
    let (a, b) = (d(2023, 3, 1), d(2023, 9, 1));
    assert!(c.year_fraction(b, a).unwrap() < 0.0 && c.year_fraction(a, b).unwrap() > 0.0);
}
"""),
    "bootstrap-quote-order": dict(property="C23", edits=[("src/markets/termstructures/yieldcurve.rs", "        cash_quote_maturity.sort();\n", "        if cash_quote_maturity.len() < 3 {\n            cash_quote_maturity.sort();\n        }\n")],
        needs="three or more cash quotes that are not given in order of maturity",
        breaks="the pillars are not in order of maturity, so the curve reads the wrong neighbours",
        demo="""
use finquant::markets::interestrate::interestrateindex::*;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::period::Period;
fn main() {
    let q = |m, value| OISRate { value, interest_rate_index: InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(m))).unwrap() };
    let c = YieldTermMarketData::new(d(2023, 10, 27), vec![q(6, 0.04), q(1, 0.03), q(3, 0.035)], vec![], vec![]).get_stripped_curve().unwrap();
    assert!(c.windows(2).all(|w| w[0].date < w[1].date));
}
"""),
    "bachelier-small-variance": dict(property="C34", edits=[(M + "common/bachelier.rs", "pub fn bachelier_put(forward: f64, strike: f64, variance: f64) -> f64 {\n    if variance <= 0.0 {", "pub fn bachelier_put(forward: f64, strike: f64, variance: f64) -> f64 {\n    if variance <= 1.0e-10 {")],
        needs="a put with a total variance below 1e-10 (one basis point a year over three days)",
        breaks="the time value of such a put is dropped, so put-call parity fails",
        demo="""
use finquant::models::common::bachelier::*;
fn main() {
    let (f, k, v) = (0.03, 0.03, 8e-11);
    assert!((bachelier_call(f, k, v) - bachelier_put(f, k, v)).abs() < 1e-9);
}
"""),
    "stock-correlation-below": dict(property="C50", edits=[(M + "forex/fx_hhw_stock.rs", "        if stock.rho_sf_omega.abs() > 1.0 {", "        if stock.rho_sf_omega > 1.0 {")],
        needs="a correlation below minus one",
        breaks="a simulator is made from it and its paths are not numbers",
        demo="""
use finquant::models::forex::fx_hhw::*;
use finquant::models::forex::fx_hhw_stock::*;
use finquant::models::common::cir::CirProcess;
use finquant::models::interestrate::hull_white::HullWhite1F;
fn main() {
    let v = CirProcess { kappa: 1.0, theta: 0.04, gamma: 0.3, sigma_0: 0.04 };
    let h = HullWhite1F { mean_reversion: 0.05, sigma: 0.01 };
    let c = Correlation4x4 { rho_xi_sigma: 0.0, rho_xi_d: 0.0, rho_xi_f: 0.0, rho_sigma_d: 0.0, rho_sigma_f: 0.0, rho_d_f: 0.0 };
    let p = FxHhwParams { fx_0: 1.0, heston: v, domestic: h, foreign: h, rd_0: 0.02, rf_0: 0.02, theta_d: 0.02, theta_f: 0.02, correlations: c };
    assert!(FxHhwStockSimulator::new(p, ForeignStock { s_0: 100.0, variance: v, rho_xi_sf: 0.1, rho_sf_omega: -1.2 }, 1).is_err());
}
"""),
    "fmm-variance-past-period": dict(property="C52", edits=[(M + "interestrate/fmm.rs", "            let effective_dt = (tj - t).min(dt);", "            let effective_dt = if j == m { (tj - t).min(dt) } else { dt };")],
        needs="a step that runs past the end of a period which is not the last one",
        breaks="the variance of that rate keeps growing after it has fixed",
        demo="""
use finquant::models::interestrate::fmm::*;
fn main() {
    let q = FmmTenor::new(vec![0.0, 0.5, 1.0], vec![0.03, 0.03]);
    let m = Fmm::new(q, vec![0.01; 2], vec![vec![1.0, 0.0], vec![0.0, 1.0]], LinearDecay);
    let mut s = FmmSimulator::new(m, 1).unwrap();
    let mut p = s.initial_path();
    s.step(&mut p, 0.7);
    let w = (0.01f64 / (0.03 + 2.0)).powi(2);
    assert!((p.y_diag[0] - w * 0.5).abs() < 1e-12 && (p.y_diag[1] - w * 0.7).abs() < 1e-12);
}
"""),
    "hlmm-foreign-fx-corr": dict(property="C55", edits=[(M + "forex/fx_hlmm.rs", "two_ac += psi_f[j - 1] * params.correlations.rho_xi_f[j - 1];", "two_ac += psi_f[j - 1] * params.correlations.rho_xi_d[j - 1];")],
        needs="different FX correlations of the two currencies' rates",
        breaks="the drift coefficient f(t) uses the domestic correlation for the foreign rates",
        demo=HLMM + """
fn main() {
    let mut p = params();
    p.correlations.rho_xi_f = vec![0.0, 0.0];
    p.correlations.libor_cross_corr = vec![vec![0.0; 2]; 2];
    p.correlations.rho_xi_d = vec![0.2, 0.3];
    let f = compute_f_linearised(&p, 0.1, 1);
    let psi = p.domestic.psi(&p.tenor);
    let phi = p.heston.sqrt_mean(0.1) * CirProcess { kappa: 1.0, theta: 1.0, gamma: 0.1, sigma_0: 1.0 }.sqrt_mean(0.1);
    assert!((f - 2.0 * phi * (psi[0] * 0.2 + psi[1] * 0.3)).abs() < 1e-14, "{f}");
}
"""),
    "hlmm-cross-transposed": dict(property="C55", edits=[(M + "forex/fx_hlmm.rs", "psi_d[j - 1] * psi_f[k - 1] * params.correlations.libor_cross_corr[j - 1][k - 1];", "psi_d[j - 1] * psi_f[k - 1] * params.correlations.libor_cross_corr[k - 1][j - 1];")],
        needs="a cross-currency correlation block that is not symmetric and rate levels that differ by period and currency",
        breaks="domestic rate i is correlated with foreign rate j as if it were rate j with rate i",
        demo=HLMM + """
fn main() {
    let mut p = params();
    p.correlations.rho_xi_f = vec![0.0, 0.0];
    p.correlations.rho_xi_d = vec![0.0, 0.0];
    p.domestic.sigmas = vec![0.2, 0.0];
    p.foreign.sigmas = vec![0.0, 0.3];
    p.correlations.libor_cross_corr = vec![vec![0.0, 0.5], vec![0.0, 0.0]];
    assert!(compute_f_linearised(&p, 0.1, 1) < -1e-9);
}
"""),
    "fmm-foreign-kappa": dict(property="C56", edits=[(M + "forex/fx_fmm1_chf.rs", "            kappa: params.foreign.lambda,\n            theta: params.foreign.v_0,\n            gamma: params.foreign.eta,", "            kappa: params.foreign.lambda,\n            theta: params.foreign.v_0,\n            gamma: params.domestic.eta,")],
        needs="different volatilities of variance in the two currencies",
        breaks="the characteristic function's cached foreign variance uses the domestic one",
        demo=FMM + """
use finquant::models::forex::fx_fmm1_chf::*;
use num_complex::Complex64;
fn a(eta_d: f64, eta_f: f64) -> Complex64 {
    let mut p = params();
    p.domestic.eta = eta_d;
    p.foreign.eta = eta_f;
    p.domestic.sigmas = vec![0.0, 0.0];
    FxFmm1ForwardChf::new(&p, 1.0).components(Complex64::new(1.0, 0.0)).a
}
fn main() {
    // without domestic rate volatility the domestic vol-of-variance cannot matter
    assert!((a(0.1, 0.5) - a(1.2, 0.5)).norm() < 1e-9);
}
"""),
    "fmm-cross-decay": dict(property="C56", edits=[(M + "forex/fx_fmm1_chf.rs", "let gk = decay_f.gamma(k, t, tenor);", "let gk = decay_f.gamma(j, t, tenor);")],
        needs="two or more live rates, one of them decaying",
        breaks="the cross-currency term decays with the wrong period",
        demo=FMM + """
use finquant::models::forex::fx_fmm1_chf::*;
use num_complex::Complex64;
fn main() {
    let mut p = params();
    p.domestic.sigmas = vec![0.01, 0.0];
    p.foreign.sigmas = vec![0.0, 0.02];
    p.correlations.rho_xi_d = vec![0.0; 2];
    p.correlations.rho_xi_f = vec![0.0; 2];
    p.correlations.cross_rate_corr = vec![vec![0.0, 0.0]; 2];
    let u = Complex64::new(1.0, 0.0);
    let a0 = FxFmm1ForwardChf::new(&p, 1.0).components(u).a;
    p.correlations.cross_rate_corr = vec![vec![0.0, 0.9], vec![0.0, 0.0]];
    let a1 = FxFmm1ForwardChf::new(&p, 1.0).components(u).a;
    let n = 4000;
    let h = 1.0 / n as f64;
    let integral: f64 = (0..n).map(|i| compute_f_linearised(&p, (i as f64 + 0.5) * h, p.tenor.eta((i as f64 + 0.5) * h)) * h).sum();
    let want = -0.5 * (u * u + Complex64::new(0.0, 1.0) * u) * integral;
    assert!((a1 - a0 - want).norm() < 0.05 * want.norm(), "{} {want}", a1 - a0);
}
"""),
    "fmm-variance-corr-unchecked": dict(property="C56", edits=[(M + "forex/fx_fmm.rs", "            .chain(self.rho_sigma_d.iter())\n            .chain(self.rho_sigma_f.iter())", "            .chain(self.rho_sigma_d.iter())\n            .chain(self.rho_sigma_f.iter().skip(1))")],
        needs="a correlation of the FX variance with the first foreign rate above one",
        breaks="the parameter set is accepted",
        demo=FMM + """
fn main() {
    let mut p = params();
    assert!(p.validate().is_ok());
    p.correlations.rho_sigma_f[0] = -1.5;
    assert!(p.validate().is_err());
}
"""),
    "hhw1-cached-threshold": dict(property="C54", edits=[(M + "forex/fx_hhw1_chf.rs", "(tau - self.expiry).abs() < 1e-12 {", "(tau - self.expiry).abs() < 1e-2 {")],
        needs="an elapsed time less than four days from the expiry",
        breaks="the value at the expiry is returned instead",
        demo=HHW + """
use finquant::models::forex::fx_hhw1_chf::*;
use num_complex::Complex64;
fn main() {
    let p = params();
    let x = FxHhw1ForwardChf::new(&p, 1.0);
    let u = Complex64::new(2.0, 0.0);
    let (a, b) = (x.components(u, 0.991).a, x.components(u, 1.0).a);
    assert!((a - b).norm() > 1e-7, "{a} {b}");
}
"""),
    "hhw1-cached-foreign": dict(property="C54", edits=[(M + "forex/fx_hhw1_chf.rs", "Complex64::new(rho.rho_sigma_f * gamma * eta_f * phi_k * bf_k, 0.0) * c * iu;", "Complex64::new(rho.rho_sigma_f * gamma * eta_f * phi_k * bd_k, 0.0) * c * iu;")],
        needs="mean reversions that differ and a correlation of the variance with the foreign rate",
        breaks="the cached integral takes the domestic bond factor for the foreign rate",
        demo=HHW + """
use finquant::models::forex::fx_hhw1_chf::*;
use num_complex::Complex64;
fn main() {
    let mut p = params();
    p.foreign.mean_reversion = 0.9;
    p.correlations.rho_sigma_f = 0.7;
    let x = FxHhw1ForwardChf::with_simpson_steps(&p, 5.0, 512);
    let u = Complex64::new(2.0, 0.0);
    let (a, b) = (x.components(u, 5.0 - 1e-8).a, x.components(u, 5.0).a);
    assert!((a - b).norm() < 1e-6, "{a} {b}");
}
"""),
    "hhw1-discount-ratio": dict(property="C54", edits=[(M + "forex/fx_hhw1_chf.rs", "let pf0t = (-p.rf_0 * t).exp();", "let pf0t = (-p.rf_0.max(0.0) * t).exp();")],
        needs="a negative foreign rate",
        breaks="the forward under the characteristic function ignores the negative rate",
        demo=HHW + """
use finquant::models::forex::fx_hhw1_chf::*;
use num_complex::Complex64;
fn main() {
    let mut p = params();
    p.rf_0 = -0.02;
    let x = FxHhw1ForwardChf::new(&p, 1.0);
    // E[exp(x)] is the forward
    let m = x.evaluate(Complex64::new(0.0, -1.0));
    let f = p.fx_0 * (-p.rf_0).exp() / (-p.rd_0).exp();
    assert!((m.re / f - 1.0).abs() < 1e-3, "{m} {f}");
}
"""),
    "cos-last-term": dict(property="C53", edits=[(M + "common/cos_pricer.rs", "            let weight = if k == 0 { 0.5 } else { 1.0 };", "            let weight = if k == 0 || k + 1 == self.n_terms && k > 127 { 0.5 } else { 1.0 };")],
        needs="more than the default number of terms",
        breaks="the last term is halved",
        demo=HHW + """
use finquant::models::common::cos_pricer::*;
use num_complex::Complex64;
struct Point;
impl ForwardChf for Point {
    fn evaluate(&self, u: Complex64) -> Complex64 { (Complex64::new(0.0, 0.1) * u).exp() }
    fn expiry(&self) -> f64 { 1.0 }
    fn log_forward(&self) -> f64 { 0.3 }
    fn typical_variance(&self) -> f64 { 0.01 }
}
fn main() {
    let p = |n| CosPricer::new(&Point).with_n_terms(n).call(1.0, 1.0);
    // the increment from 128 to 129 terms plus 129 to 130 is the one from 128 to 130: compare against an explicit sum
    let (a, b) = (0.3 - 1.0, 0.3 + 1.0f64);
    let w = b - a;
    let n = 160;
    let mut t = 0.0;
    for k in 0..n {
        let u = k as f64 * std::f64::consts::PI / w;
        let m = 200000;
        let h = b / m as f64;
        let v: f64 = (0..m).map(|i| { let y = (i as f64 + 0.5) * h; (y.exp() - 1.0) * (u * (y - a)).cos() * h }).sum::<f64>() * 2.0 / w;
        t += if k == 0 { 0.5 } else { 1.0 } * (u * (0.1 - a)).cos() * v;
    }
    assert!((p(n) - t).abs() < 1e-6, "{} {t}", p(n));
}
"""),
    "cos-tight-strike": dict(property="C53", edits=[(M + "common/cos_pricer.rs", "let (c, d) = if is_call { (log_k, b) } else { (a, log_k) };", "let (c, d) = if is_call { (log_k.max(0.65 * a + 0.35 * b), b) } else { (a, log_k) };")],
        needs="a strike far below the forward",
        breaks="a deep in-the-money call loses part of its value",
        demo=HHW + """
use finquant::models::common::cos_pricer::*;
use num_complex::Complex64;
struct Point;
impl ForwardChf for Point {
    fn evaluate(&self, u: Complex64) -> Complex64 { (Complex64::new(0.0, 0.0) - 0.5 * u * u * 0.04 - Complex64::new(0.0, 0.02) * u).exp() }
    fn expiry(&self) -> f64 { 1.0 }
    fn log_forward(&self) -> f64 { 0.0 }
    fn typical_variance(&self) -> f64 { 0.04 }
}
fn main() {
    let p = CosPricer::new(&Point);
    for k in [1.0, 0.6, 0.35, 0.2] {
        assert!((p.call(k, 1.0) - p.put(k, 1.0) - (1.0 - k)).abs() < 1e-6, "{k}");
    }
}
"""),
    "hlmm-short-stub": dict(property="C55", edits=[(M + "forex/fx_hlmm1_chf.rs", "            if length <= 0.0 {", "            if length <= 0.02 {")],
        needs="a tenor date within a week of the expiry",
        breaks="the first piece of elapsed time is left out of every integral",
        demo=HLMM + """
use finquant::models::forex::fx_hlmm1_chf::*;
use num_complex::Complex64;
fn main() {
    let mut p = params();
    let l = |s: Vec<f64>, c: Vec<Vec<f64>>| DdSvLmm { betas: s.clone(), sigmas: s, lambda: 1.0, eta: 0.1, v_0: 1.0, libor_corr: c };
    let u = Complex64::new(2.0, 0.0);
    let id = |n: usize| (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect::<Vec<Vec<f64>>>();
    let mut d = vec![];
    // only the last rate moves: the dates before it cannot matter
    for dates in [vec![0.0, 2.0, 3.0], vec![0.0, 1.0, 2.0, 3.0]] {
        let n = dates.len() - 1;
        let mut s = vec![0.0; n];
        s[n - 1] = 2.0;
        p.tenor = LiborTenor::new(dates, vec![0.05; n]);
        p.domestic = l(s.clone(), id(n));
        p.foreign = l(s, id(n));
        p.correlations = FxHlmmCorrelations { rho_xi_sigma: 0.0, rho_xi_d: vec![0.0; n], rho_xi_f: vec![0.0; n], libor_cross_corr: vec![vec![0.0; n]; n] };
        d.push(FxHlmm1ForwardChf::new(&p, 1.015).components(u).d_d);
    }
    assert!((d[0] - d[1]).norm() < 1e-9 * d[0].norm(), "{} {}", d[0], d[1]);
}
"""),
    "fmm-sim-variance-block": dict(property="C57", edits=[(M + "forex/fx_fmm_simulator.rs", "        c[1][2 + m + j] = p.correlations.rho_sigma_f[j];\n        c[2 + m + j][1] = p.correlations.rho_sigma_f[j];", "        c[1][2 + m + j] = p.correlations.rho_sigma_f[j];\n        c[2 + m + j][1] = p.correlations.rho_sigma_d[j];")],
        needs="a variance correlated differently with the two currencies' rates",
        breaks="the foreign rates move with the domestic correlation",
        demo=FMM + """
use finquant::models::forex::fx_fmm_simulator::*;
fn main() {
    let run = |x: f64| { let mut p = params(); p.correlations.rho_sigma_f = vec![x; 2]; FxFmmSimulator::new(p, 7).unwrap().simulate_terminal(0.3, 3, 1)[0].rates_f.clone() };
    assert!((run(0.1)[0] - run(0.4)[0]).abs() > 1e-6, "{:?} {:?}", run(0.1), run(0.4));
}
"""),
    "fmm-sim-foreign-drift-corr": dict(property="C57", edits=[(M + "forex/fx_fmm_simulator.rs", "sum += p.foreign.rate_corr[i - 1][j - 1] * drift_weight_f[i - 1];", "sum += p.domestic.rate_corr[i - 1][j - 1] * drift_weight_f[i - 1];")],
        needs="rate correlations that differ between the currencies",
        breaks="the foreign drift uses the domestic correlations",
        demo=FMM + """
use finquant::models::forex::fx_fmm_simulator::*;
fn main() {
    let run = |x: f64| {
        let mut p = params();
        p.domestic.rate_corr = vec![vec![1.0, x], vec![x, 1.0]];
        p.foreign.sigmas = vec![0.1; 2];
        p.correlations = FxFmmCorrelations { rho_xi_sigma: 0.0, rho_xi_d: vec![0.0; 2], rho_xi_f: vec![0.0; 2], rho_sigma_d: vec![0.0; 2], rho_sigma_f: vec![0.0; 2], cross_rate_corr: vec![vec![0.0; 2]; 2] };
        FxFmmSimulator::new(p, 7).unwrap().simulate_terminal(0.3, 3, 1)[0].rates_f.clone()
    };
    assert!((run(0.1)[1] - run(0.9)[1]).abs() < 1e-12, "{:?} {:?}", run(0.1), run(0.9));
}
"""),
    "fmm-sim-foreign-start": dict(property="C57", edits=[(M + "forex/fx_fmm_simulator.rs", "let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_f[k - 1];", "let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_d[k - 1];")],
        needs="a step inside a later period, with volatilities that differ between the currencies",
        breaks="the foreign current state drifts with the domestic variance",
        demo=FMM + """
use finquant::models::forex::fx_fmm_simulator::*;
fn main() {
    let run = |x: f64| {
        let mut p = params();
        p.domestic.sigmas = vec![x; 2];
        p.correlations = FxFmmCorrelations { rho_xi_sigma: 0.0, rho_xi_d: vec![0.0; 2], rho_xi_f: vec![0.0; 2], rho_sigma_d: vec![0.0; 2], rho_sigma_f: vec![0.0; 2], cross_rate_corr: vec![vec![0.0; 2]; 2] };
        FxFmmSimulator::new(p, 7).unwrap().simulate_terminal(0.9, 9, 1)[0].x_active_f
    };
    assert!((run(0.01) - run(0.1)).abs() < 1e-9, "{} {}", run(0.01), run(0.1));
}
"""),
    "fmm-sim-two-periods": dict(property="C57", edits=[(M + "forex/fx_fmm_simulator.rs", "            for k in (eta_old + 1)..=eta_new.min(m) {", "            for k in eta_new..=eta_new.min(m) {")],
        needs="one step over two dates",
        breaks="the period passed over keeps no start values",
        demo=FMM + """
use finquant::models::forex::fx_fmm_simulator::*;
fn main() {
    let mut p = params();
    let l = FmmSide { sigmas: vec![0.01; 3], lambda: 1.0, eta: 0.3, v_0: 1.0, rate_corr: vec![vec![1.0, 0.5, 0.3], vec![0.5, 1.0, 0.5], vec![0.3, 0.5, 1.0]], decay: LinearDecay };
    p.tenor = FmmTenor::new(vec![0.0, 0.5, 0.6, 1.0], vec![0.03; 3]);
    p.domestic = l.clone();
    p.foreign = l;
    p.correlations = FxFmmCorrelations { rho_xi_sigma: -0.4, rho_xi_d: vec![0.1; 3], rho_xi_f: vec![0.1; 3], rho_sigma_d: vec![0.1; 3], rho_sigma_f: vec![0.1; 3], cross_rate_corr: vec![vec![0.2; 3]; 3] };
    let x = FxFmmSimulator::new(p, 7).unwrap().simulate_terminal(0.8, 2, 1).remove(0);
    assert!(x.rates_at_start_d[1] != 0.0 && x.rates_at_start_f[1] != 0.0, "{:?}", x.rates_at_start_d);
}
"""),
    "sabr-fit-rmse": dict(property="C58", edits=[(M + "forex/sabr_calibrator.rs", "let rmse = (minimum.f / targets.len() as f64).sqrt();", "let rmse = minimum.f.sqrt() / targets.len() as f64;")],
        needs="more than one quote and a smile that is not fitted exactly",
        breaks="the error is divided by the number of quotes instead of its root",
        demo="""
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::forex::sabr::*;
use finquant::models::forex::sabr_calibrator::*;
fn main() {
    let (k, v) = ([1.0, 1.1, 1.2, 1.3], [0.10, 0.16, 0.09, 0.17]);
    let r = calibrate(SabrParams { alpha: 0.1, beta: 0.5, rho: 0.0, nu: 0.3 }, 1.15, &targets_from_grid(&k, &v), 1.0, NelderMeadOptions::default());
    let m = model_implied_vols(&r.params, 1.15, 1.0, &k);
    let e = (m.iter().zip(&v).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() / 4.0).sqrt();
    assert!((r.rmse - e).abs() < 1e-9, "{} {}", r.rmse, e);
}
"""),
    "sabr-fit-short-expiry": dict(property="C58", edits=[(M + "forex/sabr_calibrator.rs", "let model_vol = hagan_implied_vol(&trial, forward, t.strike, expiry);", "let model_vol = hagan_implied_vol(&trial, forward, t.strike, expiry.max(0.05));")],
        needs="an expiry within three weeks",
        breaks="the fit is to another expiry's smile",
        demo="""
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::forex::sabr::*;
use finquant::models::forex::sabr_calibrator::*;
fn main() {
    let (k, v) = ([1.0, 1.1, 1.2, 1.3], [0.16, 0.11, 0.09, 0.12]);
    let r = calibrate(SabrParams { alpha: 0.1, beta: 0.5, rho: 0.0, nu: 2.0 }, 1.15, &targets_from_grid(&k, &v), 0.01, NelderMeadOptions::default());
    let m = model_implied_vols(&r.params, 1.15, 0.01, &k);
    let e = (m.iter().zip(&v).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() / 4.0).sqrt();
    assert!((r.rmse - e).abs() < 1e-9, "{} {}", r.rmse, e);
}
"""),
    "hhw-capped-floor": dict(property="C59", edits=[(M + "forex/fx_hhw_calibrator.rs", "    let mut out = *base;\n    out.heston.kappa = kappa_floor + softplus(x[0]);\n    // Sigmoid", "    let mut out = *base;\n    out.heston.kappa = kappa_floor.max(softplus(x[0]));\n    // Sigmoid")],
        needs="a floor above zero with a capped vol of vol",
        breaks="the search starts at another kappa than the given one",
        demo=HHW + """
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::forex::fx_hhw_calibrator::*;
fn main() {
    let p = params();
    let k = [1.2, 1.3, 1.4];
    let v: Vec<f64> = model_implied_vols(&p, 1.0, &k).into_iter().map(|x| x.unwrap()).collect();
    let r = calibrate_bounded(p, &targets_from_grid(&k, &v), 1.0, 0.3, 1.0, NelderMeadOptions { max_iter: 1, ..NelderMeadOptions::default() });
    assert!(r.rmse < 1e-6, "{}", r.rmse);
}
"""),
    "hhw-capped-start": dict(property="C59", edits=[(M + "forex/fx_hhw_calibrator.rs", "clamp(1.0e-4, 1.0 - 1.0e-4)", "clamp(1.0e-4, 0.5)")],
        needs="an initial vol of vol above half its cap",
        breaks="the search starts from half the cap, and may end worse than the parameters given",
        demo=HHW + """
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::forex::fx_hhw_calibrator::*;
fn main() {
    let p = params();
    let k = [1.2, 1.3, 1.4];
    let v: Vec<f64> = model_implied_vols(&p, 1.0, &k).into_iter().map(|x| x.unwrap()).collect();
    let r = calibrate_bounded(p, &targets_from_grid(&k, &v), 1.0, 0.1, 0.35, NelderMeadOptions { max_iter: 1, ..NelderMeadOptions::default() });
    assert!(r.rmse < 1e-6, "{}", r.rmse);
}
"""),
    "hlmm-stub-rate": dict(property="C60", edits=[(M + "forex/fx_hlmm_calibrator.rs", "let r_flat = tenor.libors[n - 1];", "let r_flat = tenor.libors[0];")],
        needs="an expiry beyond the last date of a curve that is not flat",
        breaks="the curve is continued at its first rate",
        demo=HLMM + """
use finquant::models::forex::fx_hlmm_calibrator::*;
fn main() {
    let p = params();
    let e: f64 = (1..=p.tenor.n()).map(|k| 1.0 / (1.0 + p.tenor.tau(k) * p.tenor.libors[k - 1])).product();
    let (l, r) = (p.tenor.dates[p.tenor.n()], p.tenor.libors[p.tenor.n() - 1]);
    assert!((discount_factor(&p, l + 2.0) - e * (-2.0 * r).exp()).abs() < 1e-12);
}
"""),
    "fmm-calibrator-floor": dict(property="C60", edits=[(M + "forex/fx_fmm_calibrator.rs", "            self.kappa_floor,\n", "            self.kappa_floor.min(self.initial.heston.kappa - 1e-8),\n")],
        needs="an initial kappa below the floor, through the trait",
        breaks="the fitted kappa may end below the floor asked for",
        demo=FMM + """
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::common::calibration::Calibration;
use finquant::models::forex::fx_fmm_calibrator::*;
use finquant::models::forex::market_data::MarketSmileStrip;
fn main() {
    let p = params();
    let k = vec![1.2, 1.3, 1.4];
    let v: Vec<f64> = model_implied_vols(&p, 1.0, &k).into_iter().map(|x| x.unwrap()).collect();
    let r = FxFmmSmileCalibrator { initial: p, kappa_floor: 1.5 }.calibrate(&MarketSmileStrip { expiry_yf: 1.0, forward: 1.3, strikes: k, vols: v }, NelderMeadOptions { max_iter: 2, ..NelderMeadOptions::default() }).unwrap();
    assert!(r.params.heston.kappa > 1.5, "{}", r.params.heston.kappa);
}
"""),
}
