//! Smile calibrators: what they return against the model recomputed.
use super::modelfx::{correlations, parameters};
use crate::src::Src;
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::common::black_scholes::bs_implied_vol;
use finquant::models::common::calibration::Calibration;
use finquant::models::common::cos_pricer::CosPricer;
use finquant::models::forex::fx_hhw::FxHhwParams;
use finquant::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use finquant::models::forex::market_data::MarketSmileStrip;
use finquant::models::forex::sabr::{SabrParams, hagan_implied_vol};
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::fx_fmm::FxFmmParams;
use finquant::models::forex::fx_fmm1_chf::FxFmm1ForwardChf;
use finquant::models::forex::fx_hlmm::FxHlmmParams;
use finquant::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
use finquant::models::forex::{fx_fmm_calibrator as fmm, fx_hhw_calibrator as hhw, fx_hlmm_calibrator as hlmm, sabr_calibrator as sabr};

pub fn options<S: Src>(s: &mut S, top: i32) -> NelderMeadOptions {
    NelderMeadOptions { max_iter: s.int("iterations", 1, top) as usize, step_frac: s.f64("step", 0.02, 0.3), ..NelderMeadOptions::default() }
}
/// 10^6 where a strike has no volatility
pub fn loss(v: &[Option<f64>], m: &[f64]) -> f64 {
    if v.iter().any(|x| x.is_none()) { 1.0e6 } else { v.iter().zip(m).map(|(x, y)| (x.unwrap() - y) * (x.unwrap() - y)).sum() }
}
fn sabr_smile(p: &SabrParams, f: f64, ks: &[f64], t: f64) -> Vec<Option<f64>> {
    ks.iter().map(|k| Some(hagan_implied_vol(p, f, *k, t)).filter(|v| v.is_finite() && *v > 0.0)).collect()
}
fn hhw_smile(p: &FxHhwParams, ks: &[f64], t: f64) -> Vec<Option<f64>> {
    let chf = FxHhw1ForwardChf::new(p, t);
    let pricer = CosPricer::new(&chf);
    let (f, d) = (p.fx_0 * (-p.rf_0 * t).exp() / (-p.rd_0 * t).exp(), (-p.rd_0 * t).exp());
    ks.iter().map(|k| bs_implied_vol(pricer.call(*k, d), f, *k, t, d, true)).collect()
}
pub fn strikes<S: Src>(s: &mut S, f: f64, w: f64) -> Vec<f64> { let n = s.int("strikes", 1, 5); (0..n).map(|_| f * (1.0 + s.f64("moneyness", -w, w))).collect() }
pub fn vols<S: Src>(s: &mut S, model: &[Option<f64>]) -> Vec<f64> {
    let exact = s.bool("exact quotes");
    model.iter().map(|v| v.unwrap_or(0.1) + if exact { 0.0 } else { s.f64("quote noise", -0.02, 0.05) }).collect()
}
pub fn floor8(x: f64) -> f64 { if x > 1e-8 { x } else { 1e-8 } }
pub fn bound(x: f64, lo: f64, hi: f64) -> f64 { if x < lo { lo } else if x > hi { hi } else { x } }
/// mostly inside its domain
pub fn seed<S: Src>(s: &mut S, name: &'static str, lo: f64, hi: f64) -> f64 { match s.int("seed 0=any 1=zero 2=negative 3=large", 0, 12) { 1 => 0.0, 2 => -0.1, 3 => 40.0, _ => s.f64(name, lo, hi) } }
pub fn rho<S: Src>(s: &mut S) -> f64 { match s.int("correlation 0=any 1=one 2=minus one", 0, 10) { 1 => 1.0, 2 => -1.0, _ => s.f64("correlation", -0.9, 0.9) } }
fn discount(d: &[f64], r: &[f64], t: f64) -> f64 {
    let n = r.len();
    let p: f64 = (0..n).map(|k| 1.0 / (1.0 + (d[k + 1] - d[k]) * r[k])).product();
    if t > d[n] + 1e-12 { p * (-r[n - 1] * (t - d[n])).exp() } else { p }
}
crate::contracts! {
    C58 sabr_smile_fit run |s| {
        let beta = match s.int("beta 0=any 1=half 2=one 3=zero", 0, 3) { 1 => 0.5, 2 => 1.0, 3 => 0.0, _ => s.f64("beta", 0.0, 1.0) };
        let f = s.f64("forward", 0.5, 2.0);
        let t = if s.bool("a short expiry") { s.f64("short expiry", 0.003, 0.05) } else { s.f64("expiry", 0.05, 5.0) };
        let truth = SabrParams { alpha: s.f64("true alpha", 0.03, 0.4), beta, rho: s.f64("true rho", -0.8, 0.8), nu: s.f64("true nu", 0.05, 1.0) };
        let ks = strikes(s, f, 0.3);
        let market = vols(s, &sabr_smile(&truth, f, &ks, t));
        let initial = if s.bool("start at the truth") { truth } else { SabrParams { alpha: seed(s, "alpha", 0.03, 0.4), beta, rho: rho(s), nu: seed(s, "nu", 0.05, 1.0) } };
        let o = options(s, 80);
        let targets = sabr::targets_from_grid(&ks, &market);
        check!(s, targets.len() == ks.len() && (0..ks.len()).all(|i| targets[i].strike == ks[i] && targets[i].market_vol == market[i]), "a target per strike and volatility, in order");
        let grid = sabr::model_implied_vols(&truth, f, t, &ks);
        check!(s, grid.len() == ks.len() && (0..ks.len()).all(|i| { let v = hagan_implied_vol(&truth, f, ks[i], t); grid[i] == v || grid[i].is_nan() && v.is_nan() }), "the model's volatility at each strike");
        let strip = MarketSmileStrip { expiry_yf: t, forward: f, strikes: ks.clone(), vols: market.clone() };
        let (p, rmse, m) = if s.bool("as a calibration") {
            match (sabr::SabrSmileCalibrator { initial }).calibrate(&strip, o) { Ok(r) => { check!(s, r.optimiser.is_some(), "the optimiser's record"); (r.params, r.rmse, r.optimiser.unwrap()) } Err(_) => { check!(s, false, "a calibration of valid quotes succeeds"); return Some(()); } }
        } else { let r = sabr::calibrate(initial, f, &targets, t, o); (r.params, r.rmse, r.optimiser) };
        let start = SabrParams { alpha: floor8(initial.alpha), beta, rho: bound(initial.rho, -0.999, 0.999), nu: floor8(initial.nu) };
        let (here, there) = (loss(&sabr_smile(&p, f, &ks, t), &market), loss(&sabr_smile(&start, f, &ks, t), &market));
        s.note(&|| format!("{initial:?} {f} {t} {ks:?} {market:?} {p:?} rmse {rmse} {m:?} recomputed {here} start {there}"));
        if !here.is_finite() || !there.is_finite() || there > 1.0e5 { return Some(()); }
        check!(s, p.beta == beta, "beta is kept");
        check!(s, p.alpha > 0.0 && p.nu >= 0.0 && p.rho > -1.0 && p.rho < 1.0, "the parameters are valid");
        check!(s, (m.f - here).abs() <= 1e-12 + 1e-9 * here, "the objective is the sum of squared differences to the market at the parameters returned");
        check!(s, (rmse - (here / ks.len() as f64).sqrt()).abs() <= 1e-6 * (1e-3 + rmse), "the error is its mean's root");
        if initial.alpha < 1e-3 || initial.nu < 1e-3 { return Some(()); } // the expansion cancels near a vanishing level
        check!(s, m.f <= there * (1.0 + 1e-5) + 1e-11, "the fit is no worse than its start");
    }
    C59 hhw_smile_fit run |s| {
        let c = correlations(s);
        let c = finquant::models::forex::fx_hhw::Correlation4x4 { rho_xi_d: 0.3 * c.rho_xi_d, rho_xi_f: 0.3 * c.rho_xi_f, rho_sigma_d: 0.3 * c.rho_sigma_d, rho_sigma_f: 0.3 * c.rho_sigma_f, rho_d_f: 0.3 * c.rho_d_f, ..c };
        let mut truth = parameters(s, c);
        truth.heston.theta = s.f64("true long-run variance", 0.005, 0.1);
        truth.heston.sigma_0 = s.f64("true variance", 0.005, 0.1);
        truth.heston.gamma = s.f64("true vol of vol", 0.05, 0.6);
        truth.domestic.sigma *= 0.4;
        truth.foreign.sigma *= 0.4;
        let t = s.f64("expiry", 0.2, 2.0);
        let f = truth.fx_0 * ((truth.rd_0 - truth.rf_0) * t).exp();
        let ks = strikes(s, f, 0.08);
        let smile = hhw_smile(&truth, &ks, t);
        let market = vols(s, &smile);
        let grid = hhw::model_implied_vols(&truth, t, &ks);
        check!(s, grid.len() == ks.len() && (0..ks.len()).all(|i| match (grid[i], smile[i]) { (Some(a), Some(b)) => (a - b).abs() < 1e-5, (None, None) => true, (a, b) => a.or(b).is_some_and(|v| v < 1e-3) }), "the model's volatility at each strike");
        let chf = FxHhw1ForwardChf::new(&truth, t);
        let price = CosPricer::new(&chf).call(ks[0], (-truth.rd_0 * t).exp());
        check!(s, (hhw::price_call(&truth, t, ks[0]) - price).abs() < 1e-10, "the COS price at the domestic discount factor");
        let mut initial = truth;
        if !s.bool("start at the truth") {
            initial.heston.kappa = match s.int("kappa 0=any 1=below the floor", 0, 4) { 1 => 0.05, _ => s.f64("kappa", 0.2, 3.0) };
            initial.heston.gamma = match s.int("gamma 0=any 1=tiny 2=large", 0, 8) { 1 => 1e-3, 2 => 3.0, _ => s.f64("vol of vol", 0.05, 1.0) };
            initial.heston.theta = s.f64("long-run variance", 0.005, 0.1);
            initial.heston.sigma_0 = s.f64("variance", 0.005, 0.1);
            initial.correlations.rho_xi_sigma = rho(s);
        }
        let floor = match s.int("floor 0=zero 1=any", 0, 2) { 0 => 0.0, _ => s.f64("floor", 0.0, 0.5) };
        let top = if s.bool("capped") { Some(s.f64("cap", 0.1, 2.0)) } else { None };
        let o = options(s, 12);
        let targets = hhw::targets_from_grid(&ks, &market);
        check!(s, targets.len() == ks.len() && (0..ks.len()).all(|i| targets[i].strike == ks[i] && targets[i].market_vol == market[i]), "a target per strike and volatility, in order");
        let strip = MarketSmileStrip { expiry_yf: t, forward: f, strikes: ks.clone(), vols: market.clone() };
        let (p, rmse, m) = if s.bool("as a calibration") {
            match (hhw::FxHhwSmileCalibrator { initial, kappa_floor: floor, gamma_max: top }).calibrate(&strip, o) { Ok(r) => { check!(s, r.optimiser.is_some(), "the optimiser's record"); (r.params, r.rmse, r.optimiser.unwrap()) } Err(_) => { check!(s, false, "a calibration of valid quotes succeeds"); return Some(()); } }
        } else {
            let r = match top { Some(g) => hhw::calibrate_bounded(initial, &targets, t, floor, g, o), None => hhw::calibrate(initial, &targets, t, floor, o) };
            (r.params, r.rmse, r.optimiser)
        };
        let mut start = initial;
        start.heston.kappa = floor + floor8(initial.heston.kappa - floor);
        start.heston.gamma = match top { Some(g) => g * bound(initial.heston.gamma / g, 1e-4, 1.0 - 1e-4), None => floor8(initial.heston.gamma) };
        start.heston.theta = floor8(initial.heston.theta);
        start.heston.sigma_0 = floor8(initial.heston.sigma_0);
        start.correlations.rho_xi_sigma = bound(initial.correlations.rho_xi_sigma, -0.999, 0.999);
        let (here, there) = (loss(&hhw_smile(&p, &ks, t), &market), loss(&hhw_smile(&start, &ks, t), &market));
        s.note(&|| format!("{initial:?} {t} floor {floor} cap {top:?} {ks:?} {market:?} {p:?} rmse {rmse} {m:?} recomputed {here} start {there}"));
        let mut kept = initial;
        kept.heston = p.heston;
        kept.correlations.rho_xi_sigma = p.correlations.rho_xi_sigma;
        check!(s, format!("{kept:?}") == format!("{p:?}"), "spot, rates, their processes and the other correlations are kept");
        check!(s, p.heston.kappa >= floor && p.heston.gamma > 0.0 && p.heston.theta > 0.0 && p.heston.sigma_0 > 0.0 && p.correlations.rho_xi_sigma.abs() <= 1.0, "the parameters are valid");
        check!(s, top.is_none_or(|g| p.heston.gamma <= g), "the vol of vol is below its cap");
        if !here.is_finite() || !there.is_finite() || here > 1.0e5 || there > 1.0e5 { return Some(()); }
        check!(s, (m.f - here).abs() <= 1e-5 + 1e-5 * here, "the objective is the sum of squared differences to the market at the parameters returned");
        check!(s, (rmse - (m.f / ks.len() as f64).sqrt()).abs() <= 1e-9 * (1e-3 + rmse), "the error is its mean's root");
        check!(s, m.f <= there * (1.0 + 1e-5) + 1e-5, "the fit is no worse than its start");
    }
    C60 hlmm_smile_fit run |s| {
        let mut truth = super::modellmm::parameters(s, false);
        truth.heston = CirProcess { kappa: s.f64("true kappa", 0.3, 2.0), theta: s.f64("true long-run variance", 0.005, 0.1), gamma: s.f64("true vol of vol", 0.05, 0.6), sigma_0: s.f64("true variance", 0.005, 0.1) };
        truth.correlations.rho_xi_sigma = s.f64("true correlation", -0.8, 0.8);
        let last = *truth.tenor.dates.last().unwrap();
        let t = match s.int("expiry 0=any 1=last date 2=beyond", 0, 3) { 0 => s.f64("expiry", 0.2, 2.0), 1 => last, _ => last + s.f64("stub", 0.05, 1.0) };
        let ks = strikes(s, truth.fx_0, 0.08);
        let df = discount(&truth.tenor.dates, &truth.tenor.libors, t);
        let given = hlmm::discount_factor(&truth, t);
        s.note(&|| format!("{:?} {t} discount {given}, should be {df}", truth.tenor));
        check!(s, (given - df).abs() <= 1e-12, "the discount factor over all periods, flat beyond");
        check!(s, hlmm::forward_fx(&truth, t) == truth.fx_0, "the forward is the spot");
        let smile = |p: &FxHlmmParams| -> Option<Vec<Option<f64>>> {
            if p.validate().is_err() { return None; }
            let chf = FxHlmm1ForwardChf::new(p, t);
            let pricer = CosPricer::new(&chf);
            Some(ks.iter().map(|k| bs_implied_vol(pricer.call(*k, df), p.fx_0, *k, t, df, true)).collect())
        };
        let model = smile(&truth)?;
        if model.iter().any(|v| v.is_none_or(|x| !x.is_finite())) { return None; }
        let market = vols(s, &model);
        let grid = hlmm::model_implied_vols(&truth, t, &ks);
        check!(s, grid.len() == ks.len() && (0..ks.len()).all(|i| match (grid[i], model[i]) { (Some(a), Some(b)) => (a - b).abs() < 1e-5, (None, None) => true, (a, b) => a.or(b).is_some_and(|v| v < 1e-3) }), "the model's volatility at each strike");
        let chf = FxHlmm1ForwardChf::new(&truth, t);
        check!(s, (hlmm::price_call(&truth, t, ks[0]) - CosPricer::new(&chf).call(ks[0], df)).abs() < 1e-10, "the COS price at the domestic discount factor");
        let mut initial = truth.clone();
        if !s.bool("start at the truth") {
            initial.heston = CirProcess {
                kappa: match s.int("kappa 0=any 1=below the floor", 0, 4) { 1 => 0.05, _ => s.f64("kappa", 0.3, 2.0) },
                gamma: match s.int("gamma 0=any 1=tiny", 0, 8) { 1 => 1e-3, _ => s.f64("vol of vol", 0.05, 1.0) },
                theta: s.f64("long-run variance", 0.005, 0.1), sigma_0: s.f64("variance", 0.005, 0.1) };
            initial.correlations.rho_xi_sigma = rho(s);
        }
        let floor = match s.int("floor 0=zero 1=any", 0, 2) { 0 => 0.0, _ => s.f64("floor", 0.0, 0.5) };
        let o = options(s, 4);
        let targets = hlmm::targets_from_grid(&ks, &market);
        check!(s, targets.len() == ks.len() && (0..ks.len()).all(|i| targets[i].strike == ks[i] && targets[i].market_vol == market[i]), "a target per strike and volatility, in order");
        let strip = MarketSmileStrip { expiry_yf: t, forward: truth.fx_0, strikes: ks.clone(), vols: market.clone() };
        let (p, rmse, m) = if s.bool("as a calibration") {
            match (hlmm::FxHlmmSmileCalibrator { initial: initial.clone(), kappa_floor: floor }).calibrate(&strip, o) { Ok(r) => { check!(s, r.optimiser.is_some(), "the optimiser's record"); (r.params, r.rmse, r.optimiser.unwrap()) } Err(_) => { check!(s, false, "a calibration of valid quotes succeeds"); return Some(()); } }
        } else { let r = hlmm::calibrate(initial.clone(), &targets, t, floor, o); (r.params, r.rmse, r.optimiser) };
        let mut start = initial.clone();
        start.heston.kappa = floor + floor8(initial.heston.kappa - floor);
        start.heston.gamma = floor8(initial.heston.gamma);
        start.correlations.rho_xi_sigma = bound(initial.correlations.rho_xi_sigma, -0.999, 0.999);
        let worth = |p: &FxHlmmParams| match smile(p) { Some(v) => loss(&v, &market), None => 1.0e6 };
        let (here, there) = (worth(&p), worth(&start));
        s.note(&|| format!("{initial:?} {t} floor {floor} {ks:?} {market:?} {p:?} rmse {rmse} {m:?} recomputed {here} start {there}"));
        let mut kept = initial.clone();
        kept.heston = p.heston;
        kept.correlations.rho_xi_sigma = p.correlations.rho_xi_sigma;
        check!(s, kept == p, "spot, tenor, rate models and the other correlations are kept");
        check!(s, p.heston.kappa >= floor && p.heston.gamma > 0.0 && p.heston.theta > 0.0 && p.heston.sigma_0 > 0.0 && p.correlations.rho_xi_sigma.abs() <= 1.0, "the parameters are valid");
        if !here.is_finite() || !there.is_finite() || here > 1.0e5 || there > 1.0e5 { return Some(()); }
        check!(s, (m.f - here).abs() <= 1e-5 + 1e-5 * here, "the objective is the sum of squared differences to the market at the parameters returned");
        check!(s, (rmse - (m.f / ks.len() as f64).sqrt()).abs() <= 1e-9 * (1e-3 + rmse), "the error is its mean's root");
        check!(s, m.f <= there * (1.0 + 1e-5) + 1e-5, "the fit is no worse than its start");
    }
    C60 fmm_smile_fit run |s| {
        let mut truth = super::modellmm::fmm_parameters(s, false);
        truth.heston = CirProcess { kappa: s.f64("true kappa", 0.3, 2.0), theta: s.f64("true long-run variance", 0.005, 0.1), gamma: s.f64("true vol of vol", 0.05, 0.6), sigma_0: s.f64("true variance", 0.005, 0.1) };
        truth.correlations.rho_xi_sigma = s.f64("true correlation", -0.8, 0.8);
        let last = *truth.tenor.dates.last().unwrap();
        let t = match s.int("expiry 0=any 1=last date 2=beyond", 0, 3) { 0 => s.f64("expiry", 0.2, 2.0), 1 => last, _ => last + s.f64("stub", 0.05, 1.0) };
        let ks = strikes(s, truth.fx_0, 0.08);
        let df = discount(&truth.tenor.dates, &truth.tenor.initial_rates, t);
        let given = fmm::discount_factor(&truth, t);
        s.note(&|| format!("{:?} {t} discount {given}, should be {df}", truth.tenor));
        check!(s, (given - df).abs() <= 1e-12, "the discount factor over all periods, flat beyond");
        check!(s, fmm::forward_fx(&truth, t) == truth.fx_0, "the forward is the spot");
        let smile = |p: &FxFmmParams| -> Option<Vec<Option<f64>>> {
            if p.validate().is_err() { return None; }
            let chf = FxFmm1ForwardChf::new(p, t);
            let pricer = CosPricer::new(&chf);
            Some(ks.iter().map(|k| bs_implied_vol(pricer.call(*k, df), p.fx_0, *k, t, df, true)).collect())
        };
        let model = smile(&truth)?;
        if model.iter().any(|v| v.is_none_or(|x| !x.is_finite())) { return None; }
        let market = vols(s, &model);
        let grid = fmm::model_implied_vols(&truth, t, &ks);
        check!(s, grid.len() == ks.len() && (0..ks.len()).all(|i| match (grid[i], model[i]) { (Some(a), Some(b)) => (a - b).abs() < 1e-5, (None, None) => true, (a, b) => a.or(b).is_some_and(|v| v < 1e-3) }), "the model's volatility at each strike");
        let chf = FxFmm1ForwardChf::new(&truth, t);
        check!(s, (fmm::price_call(&truth, t, ks[0]) - CosPricer::new(&chf).call(ks[0], df)).abs() < 1e-10, "the COS price at the domestic discount factor");
        let mut initial = truth.clone();
        if !s.bool("start at the truth") {
            initial.heston = CirProcess {
                kappa: match s.int("kappa 0=any 1=below the floor", 0, 4) { 1 => 0.05, _ => s.f64("kappa", 0.3, 2.0) },
                gamma: match s.int("gamma 0=any 1=tiny", 0, 8) { 1 => 1e-3, _ => s.f64("vol of vol", 0.05, 1.0) },
                theta: s.f64("long-run variance", 0.005, 0.1), sigma_0: s.f64("variance", 0.005, 0.1) };
            initial.correlations.rho_xi_sigma = rho(s);
        }
        let floor = match s.int("floor 0=zero 1=any", 0, 2) { 0 => 0.0, _ => s.f64("floor", 0.0, 0.5) };
        let o = options(s, 4);
        let targets = fmm::targets_from_grid(&ks, &market);
        check!(s, targets.len() == ks.len() && (0..ks.len()).all(|i| targets[i].strike == ks[i] && targets[i].market_vol == market[i]), "a target per strike and volatility, in order");
        let strip = MarketSmileStrip { expiry_yf: t, forward: truth.fx_0, strikes: ks.clone(), vols: market.clone() };
        let (p, rmse, m) = if s.bool("as a calibration") {
            match (fmm::FxFmmSmileCalibrator { initial: initial.clone(), kappa_floor: floor }).calibrate(&strip, o) { Ok(r) => { check!(s, r.optimiser.is_some(), "the optimiser's record"); (r.params, r.rmse, r.optimiser.unwrap()) } Err(_) => { check!(s, false, "a calibration of valid quotes succeeds"); return Some(()); } }
        } else { let r = fmm::calibrate(initial.clone(), &targets, t, floor, o); (r.params, r.rmse, r.optimiser) };
        let mut start = initial.clone();
        start.heston.kappa = floor + floor8(initial.heston.kappa - floor);
        start.heston.gamma = floor8(initial.heston.gamma);
        start.correlations.rho_xi_sigma = bound(initial.correlations.rho_xi_sigma, -0.999, 0.999);
        let worth = |p: &FxFmmParams| match smile(p) { Some(v) => loss(&v, &market), None => 1.0e6 };
        let (here, there) = (worth(&p), worth(&start));
        s.note(&|| format!("{initial:?} {t} floor {floor} {ks:?} {market:?} {p:?} rmse {rmse} {m:?} recomputed {here} start {there}"));
        let mut kept = initial.clone();
        kept.heston = p.heston;
        kept.correlations.rho_xi_sigma = p.correlations.rho_xi_sigma;
        check!(s, kept == p, "spot, tenor, rate models and the other correlations are kept");
        check!(s, p.heston.kappa >= floor && p.heston.gamma > 0.0 && p.heston.theta > 0.0 && p.heston.sigma_0 > 0.0 && p.correlations.rho_xi_sigma.abs() <= 1.0, "the parameters are valid");
        if !here.is_finite() || !there.is_finite() || here > 1.0e5 || there > 1.0e5 { return Some(()); }
        check!(s, (m.f - here).abs() <= 1e-5 + 1e-5 * here, "the objective is the sum of squared differences to the market at the parameters returned");
        check!(s, (rmse - (m.f / ks.len() as f64).sqrt()).abs() <= 1e-9 * (1e-3 + rmse), "the error is its mean's root");
        check!(s, m.f <= there * (1.0 + 1e-5) + 1e-5, "the fit is no worse than its start");
    }
}
