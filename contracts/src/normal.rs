//! The standard normal distribution, computed independently of the crate under test.
pub fn pdf(x: f64) -> f64 {
    (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt()
}
/// Φ by its series around zero, by a continued fraction in the tails
pub fn cdf(x: f64) -> f64 {
    if x.abs() < 5.0 {
        let (mut t, mut s, mut k) = (x, x, 1.0);
        while t.abs() > 1e-18 * s.abs() && k < 400.0 {
            t *= x * x / (2.0 * k + 1.0);
            s += t;
            k += 1.0;
        }
        return 0.5 + pdf(x) * s;
    }
    if x > 0.0 { return 1.0 - cdf(-x); }
    let a = -x;
    let mut f = a;
    for k in (1..200).rev() { f = a + k as f64 / f; }
    if a > 38.0 { 0.0 } else { pdf(a) / f }
}
/// Φ⁻¹ by bisection
pub fn quantile(p: f64) -> f64 {
    let (mut a, mut b) = (-40.0, 40.0);
    for _ in 0..100 {
        let m = 0.5 * (a + b);
        if cdf(m) < p { a = m } else { b = m }
    }
    0.5 * (a + b)
}
