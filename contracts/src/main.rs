//! replay <contract-name|family prefix list, comma separated> [--secs S] [--seed N] [--max N]
//! replay <contract> --values v1,v2,...      (integers; floats as f<bits-hex>)
//! Prints one JSON object per contract.
use contracts::contracts::all;
use contracts::src::Src;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Fixed,
    Enumerate,
    Random,
}
#[derive(Clone, Debug)]
struct Draw {
    name: &'static str,
    lo: i64,
    hi: i64,
    val: i64,
    float: Option<f64>,
}
struct Conc {
    mode: Mode,
    rng: u64,
    draws: Vec<Draw>,
    pos: usize,
    fixed: Vec<i64>,
    fails: Vec<&'static str>,
    skipped: bool,
    notes: Vec<String>,
    want_notes: bool,
}
impl Conc {
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn pick(&mut self, lo: i64, hi: i64) -> i64 {
        if lo == i64::MIN && hi == i64::MAX {
            let (a, b, c) = (self.next(), self.next(), self.next());
            return match self.next() % 8 {
                0 => a as i64,
                1 => (a & b) as i64,
                2 => (a | b) as i64,
                3 => (a & b & c) as i64,
                4 => (a | b | c) as i64,
                5 => (a & (!0u64 << (b % 64))) as i64,
                6 => (a | (!0u64 >> (b % 64))) as i64,
                _ => if b % 2 == 0 { !0u64 as i64 & !((1i64 << (c % 63)) - 1) } else { 0 },
            };
        }
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let r = self.next();
        match r % 8 {
            0 => {
                let c = [lo, hi, lo + (hi > lo) as i64, hi - (hi > lo) as i64, 0, 1, -1];
                let v = c[(self.next() % 7) as usize];
                if v < lo || v > hi { lo } else { v }
            }
            1 if span > 64 => {
                // near zero, or near the low end
                let k = (self.next() % 65) as i64 - 32;
                if k >= lo && k <= hi { k } else { lo + k.abs().min(hi - lo) }
            }
            _ => (lo as i128 + (self.next() as u128 % span) as i128) as i64,
        }
    }
}
impl Src for Conc {
    fn i64(&mut self, name: &'static str, lo: i64, hi: i64) -> i64 {
        let i = self.pos;
        self.pos += 1;
        match self.mode {
            Mode::Fixed => {
                let v = self.fixed.get(i).copied().unwrap_or(lo);
                if v < lo || v > hi {
                    self.skipped = true;
                }
                self.draws.push(Draw { name, lo, hi, val: v, float: None });
                v.clamp(lo, hi)
            }
            Mode::Enumerate => {
                if i < self.draws.len() {
                    return self.draws[i].val;
                }
                self.draws.push(Draw { name, lo, hi, val: lo, float: None });
                lo
            }
            Mode::Random => {
                let v = self.pick(lo, hi);
                self.draws.push(Draw { name, lo, hi, val: v, float: None });
                v
            }
        }
    }
    fn f64(&mut self, name: &'static str, lo: f64, hi: f64) -> f64 {
        let i = self.pos;
        self.pos += 1;
        let v = match self.mode {
            Mode::Fixed => f64::from_bits(self.fixed.get(i).copied().unwrap_or(0) as u64),
            _ => {
                let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
                match self.next() % 10 {
                    0 => [lo, hi, 0.0, 1.0, -1.0, 0.5][(self.next() % 6) as usize],
                    1 => { // log-uniform
                        let m = lo.abs().max(hi.abs()).max(1e-300);
                        let x = m * (10f64).powf(-9.0 * u);
                        if self.next() % 2 == 0 { x } else { -x }
                    }
                    2 => ((lo + (hi - lo) * u) * 4.0).round() / 4.0,
                    _ => lo + (hi - lo) * u,
                }
            }
        };
        let v = if v.is_finite() { v.clamp(lo, hi) } else { lo };
        self.draws.push(Draw { name, lo: 0, hi: 0, val: v.to_bits() as i64, float: Some(v) });
        v
    }
    fn assume(&mut self, c: bool) -> bool {
        if !c {
            self.skipped = true;
        }
        c
    }
    fn check(&mut self, c: bool, what: &'static str) {
        if !c {
            self.fails.push(what);
        }
    }
    fn note(&mut self, f: &dyn Fn() -> String) {
        if self.want_notes {
            self.notes.push(f());
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}

fn inputs(d: &[Draw]) -> String {
    let v: Vec<String> = d
        .iter()
        .map(|x| match x.float {
            Some(f) => format!("\"{}={:?}\"", x.name, f),
            None => format!("\"{}={}\"", x.name, x.val),
        })
        .collect();
    format!("[{}]", v.join(","))
}
fn values(d: &[Draw]) -> String {
    d.iter().map(|x| x.val.to_string()).collect::<Vec<_>>().join(",")
}

type F = fn(&mut Conc) -> Option<()>;

fn run_one(f: F, c: &mut Conc) -> Option<String> {
    c.pos = 0;
    c.fails.clear();
    c.skipped = false;
    c.notes.clear();
    let r = catch_unwind(AssertUnwindSafe(|| f(c)));
    if c.skipped {
        return None;
    }
    match r {
        Ok(_) => c.fails.first().map(|s| s.to_string()),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() };
            Some(format!("panic: {m}"))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let secs: f64 = get("--secs").map(|s| s.parse().unwrap()).unwrap_or(5.0);
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let max: u64 = get("--max").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    let names: Vec<&str> = a[1].split(',').collect();
    std::panic::set_hook(Box::new(|_| {}));
    let reg = all::<Conc>();
    if names[0] == "list" {
        for (fam, (p, n, m, _)) in &reg {
            println!("{fam} {p} {n} {m}");
        }
        return;
    }
    let mut jobs = vec![];
    for (_, (p, n, _, f)) in reg {
        if names.contains(&n) || names.contains(&p) {
            jobs.push((p, n, f));
        }
    }
    if jobs.is_empty() {
        eprintln!("no such contract");
        std::process::exit(2);
    }
    let fresh = |mode: Mode, rng: u64| Conc { mode, rng, draws: vec![], pos: 0, fixed: vec![], fails: vec![], skipped: false, notes: vec![], want_notes: false };
    if let Some(v) = get("--values") {
        let (_, n, f) = jobs[0];
        let mut c = fresh(Mode::Fixed, 0);
        c.fixed = if v.is_empty() { vec![] } else { v.split(',').map(|x| x.trim().parse().unwrap()).collect() };
        c.want_notes = true;
        let r = run_one(f, &mut c);
        let notes: Vec<String> = c.notes.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        match r {
            Some(w) => println!("{{\"contract\":\"{n}\",\"status\":\"violation\",\"what\":\"{}\",\"inputs\":{},\"notes\":[{}],\"values\":\"{}\"}}", esc(&w), inputs(&c.draws), notes.join(","), values(&c.draws)),
            None => println!("{{\"contract\":\"{n}\",\"status\":\"{}\",\"inputs\":{}}}", if c.skipped { "precondition-not-met" } else { "ok" }, inputs(&c.draws)),
        }
        return;
    }
    let handles: Vec<_> = jobs
        .into_iter()
        .map(|(p, n, f)| {
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let t0 = Instant::now();
                let mut evals = 0u64;
                let mut met = 0u64;
                let mut seen: HashSet<u64> = HashSet::new();
                let mut samples: Vec<String> = vec![];
                let mut bad: Option<(String, Vec<Draw>)> = None;
                let mut exhaustive = false;
                // probe the domain size with one enumerated run
                let mk = |mode, rng| Conc { mode, rng, draws: vec![], pos: 0, fixed: vec![], fails: vec![], skipped: false, notes: vec![], want_notes: false };
                let mut c = mk(Mode::Enumerate, seed);
                let _ = run_one(f, &mut c);
                let size: f64 = c.draws.iter().map(|d| if d.float.is_some() { 1e30 } else { (d.hi as f64 - d.lo as f64) + 1.0 }).product();
                let mut enumerate = size <= 2e7;
                if enumerate {
                    c.draws.clear();
                    loop {
                        let r = run_one(f, &mut c);
                        evals += 1;
                        if !c.skipped {
                            met += 1;
                            if samples.len() < 3 {
                                samples.push(inputs(&c.draws));
                            }
                        }
                        if let Some(w) = r {
                            bad = Some((w, c.draws.clone()));
                            break;
                        }
                        c.draws.truncate(c.pos);
                        while let Some(l) = c.draws.last_mut() {
                            if l.float.is_none() && l.val < l.hi {
                                l.val += 1;
                                break;
                            }
                            c.draws.pop();
                        }
                        if c.draws.is_empty() {
                            exhaustive = true;
                            break;
                        }
                        if evals % 1024 == 0 && t0.elapsed().as_secs_f64() > secs {
                            enumerate = false;
                            break;
                        }
                    }
                }
                if !enumerate && bad.is_none() {
                    let t1 = Instant::now();
                    let mut c = mk(Mode::Random, seed.wrapping_mul(0x1234567) ^ n.bytes().fold(7u64, |h, b| h.wrapping_mul(31) + b as u64));
                    while t1.elapsed().as_secs_f64() < secs && evals < max {
                        c.draws.clear();
                        let r = run_one(f, &mut c);
                        evals += 1;
                        if !c.skipped {
                            met += 1;
                            if seen.len() < 2_000_000 {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                for d in &c.draws {
                                    d.val.hash(&mut h);
                                }
                                seen.insert(h.finish());
                            }
                            if samples.len() < 3 {
                                samples.push(inputs(&c.draws));
                            }
                        }
                        if let Some(w) = r {
                            bad = Some((w, c.draws.clone()));
                            break;
                        }
                    }
                }
                let distinct = if exhaustive || enumerate { met } else { seen.len() as u64 };
                let common = format!("\"contract\":\"{n}\",\"property\":\"{p}\",\"evals\":{evals},\"met\":{met},\"distinct\":{distinct},\"exhaustive\":{exhaustive},\"secs\":{:.2},\"samples\":[{}]", t0.elapsed().as_secs_f64(), samples.join(","));
                match bad {
                    Some((w, d)) => {
                        let mut c = mk(Mode::Fixed, 0);
                        c.fixed = d.iter().map(|x| x.val).collect();
                        c.want_notes = true;
                        let _ = run_one(f, &mut c);
                        let notes: Vec<String> = c.notes.iter().map(|s| format!("\"{}\"", esc(s))).collect();
                        format!("{{{common},\"status\":\"violation\",\"what\":\"{}\",\"inputs\":{},\"values\":\"{}\",\"notes\":[{}]}}", esc(&w), inputs(&d), values(&d), notes.join(","))
                    }
                    None => format!("{{{common},\"status\":\"ok\"}}"),
                }
            }).unwrap()
        })
        .collect();
    for h in handles {
        println!("{}", h.join().unwrap());
    }
    let _ = fresh;
}
