//! Monte Carlo over dates.
use crate::contracts::shim::num;
use crate::contracts::time::to_date;
use crate::src::Src;
use finquant::models::common::simulation::*;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use std::collections::BTreeSet;

/// a model whose state is the history of its steps: (t, dt, how many steps the model made before)
struct Recorder { made: usize, seen: Vec<(f64, f64, usize)> }
type Steps = Vec<(f64, f64, usize)>;
impl SimulationModel for Recorder {
    type State = Steps;
    fn initial_state(&self) -> Steps { vec![] }
    fn step(&mut self, s: &Steps, t: f64, dt: f64) -> Steps {
        let mut x = s.clone();
        x.push((t, dt, self.made));
        self.seen.push((t, dt, self.made));
        self.made += 1;
        x
    }
}
contracts! {
    C40 dated_monte_carlo run |s| {
        let v = s.date("valuation", 1990, 2080)?;
        let span = match s.int("span 0=short 1=any", 0, 1) { 0 => 10, _ => 400 };
        let m = s.int("observations", 1, 6);
        let mut obs = vec![];
        for _ in 0..m { obs.push(num(v) + s.int("days after valuation", 1, span)); }
        if s.bool("one twice") { obs.push(obs[0]); }
        let n = s.int("paths", 1, 4) as usize;
        let step = match s.int("step 0=one day 1=days 2=beyond", 0, 2) { 0 => 1, 1 => s.int("step days", 2, 40), _ => 1000 };
        let dc: Box<dyn DayCounters> = match s.int("counter 0=365 1=360 2=30/360", 0, 2) { 0 => Box::new(Actual365Fixed::default()), 1 => Box::new(Actual360), _ => Box::new(Thirty360::new(Thirty360Market::USA)) };
        let last = *obs.iter().max().unwrap();
        let mut grid: BTreeSet<i32> = obs.iter().cloned().collect();
        let mut d = num(v);
        while d < last { grid.insert(d); d += step; }
        let grid: Vec<i32> = grid.into_iter().collect();
        let yf: Vec<f64> = grid.iter().map(|d| dc.year_fraction(v, to_date(*d)).unwrap()).collect();
        let mut model = Recorder { made: 0, seen: vec![] };
        let dates: Vec<_> = obs.iter().map(|d| to_date(*d)).collect();
        let r = simulate_at_dates(&mut model, v, &dates, n, step as u32, &*dc);
        let mut sorted = obs.clone();
        sorted.sort();
        // the same walk, step by step
        let (mut made, mut seen, mut want) = (0, vec![], vec![]);
        for _ in 0..n {
            let (mut st, mut path): (Steps, Vec<Steps>) = (vec![], vec![]);
            for i in 1..grid.len() {
                let dt = yf[i] - yf[i - 1];
                if dt > 0.0 { st.push((0.5 * (yf[i] + yf[i - 1]), dt, made)); seen.push(*st.last().unwrap()); made += 1; }
                for o in &sorted { if *o == grid[i] { path.push(st.clone()); } }
            }
            want.push(path);
        }
        let same = |a: &Steps, b: &Steps| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x.0 - y.0).abs() < 1e-12 && (x.1 - y.1).abs() < 1e-12 && x.2 == y.2);
        s.note(&|| format!("valuation {v}, observations {dates:?}, {n} paths, steps of {step} days: returned {r:?}, expected states {want:?}"));
        check!(s, r.valuation_date == v && r.observation_dates.iter().map(|d| num(*d)).collect::<Vec<_>>() == sorted, "the observation dates, sorted");
        check!(s, r.n_paths() == n && r.paths.len() == n && r.paths.iter().zip(&want).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))), "one state per path and observation date: the model's after every step up to it");
        check!(s, same(&model.seen, &seen), "every path steps the model once per grid interval, at its midpoint");
        let q = match s.int("looked up 0=observed 1=any", 0, 1) { 0 => obs[s.int("which", 0, m - 1) as usize], _ => num(v) + s.int("looked up days", 0, span + 1) };
        let (st, sm) = (r.states_at(to_date(q)), r.sample(to_date(q), |x| x.len() as f64));
        let k = sorted.iter().position(|o| *o == q);
        s.note(&|| format!("states at {}: {st:?} and samples {sm:?} of {r:?}", to_date(q)));
        match k {
            None => check!(s, st.is_none() && sm.is_none(), "nothing at a date not observed"),
            Some(k) => {
                check!(s, st.is_some_and(|x| x.len() == n && x.iter().zip(&want).all(|(a, p)| same(a, &p[k]))), "states_at: every path's state at the date");
                check!(s, sm.is_some_and(|x| x.len() == n && x.iter().zip(&want).all(|(a, p)| *a == p[k].len() as f64)), "sample: the extracted scalar of every path's state at the date");
            }
        }
    }
    C40 brownian_steps run |s| {
        let seed = s.int("seed", 0, 1_000_000) as u64;
        let (x0, mu, sigma) = (s.f64("start", -10.0, 10.0), s.f64("drift", -1.0, 1.0), s.f64("volatility", 0.0, 2.0));
        let k = s.int("steps", 1, 4);
        let mut z = BrownianMotion::new(seed);
        check!(s, z.x_0 == 0.0 && z.drift == 0.0 && z.volatility == 1.0 && z.initial_state() == 0.0, "a standard Brownian motion by default");
        let mut b = BrownianMotion::new(seed).with_drift(mu).with_volatility(sigma).with_initial(x0);
        let s0 = s.f64("price", 0.1, 100.0);
        let mut g = GeometricBrownianMotion::new(s0, mu, sigma, seed);
        check!(s, b.initial_state() == x0 && g.initial_state() == s0, "the initial state");
        let (mut x, mut y) = (x0, s0);
        for _ in 0..k {
            let (t, dt) = (s.f64("t", 0.0, 10.0), s.f64("dt", 0.0, 2.0));
            let w = z.step(&0.0, 0.3, 1.0);
            let (bx, gy) = (b.step(&x, t, dt), g.step(&y, t, dt));
            let want = (x + mu * dt + sigma * dt.sqrt() * w, y * ((mu - 0.5 * sigma * sigma) * dt + sigma * dt.sqrt() * w).exp());
            s.note(&|| format!("seed {seed} drift {mu} volatility {sigma} dt {dt} draw {w}: from {x} to {bx}, expected {}; from {y} to {gy}, expected {}", want.0, want.1));
            check!(s, (bx - want.0).abs() <= 1e-9 * (1.0 + want.0.abs()), "x + drift dt + volatility sqrt(dt) z");
            check!(s, (gy - want.1).abs() <= 1e-9 * want.1.abs(), "s exp((drift - volatility^2/2) dt + volatility sqrt(dt) z)");
            x = bx;
            y = gy;
        }
    }
}
