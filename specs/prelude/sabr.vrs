// SABR: contracts discharged against src/models/forex/sabr.rs
// a power of a positive number is positive, and the power of a square at half the exponent is the power
#[verifier::external_body]
pub broadcast proof fn axiom_powf_pos(x: real, y: real) ensures x > 0real ==> #[trigger] rpowf(x, y) > 0real { }
#[verifier::external_body]
pub proof fn axiom_powf_square(x: real, y: real) requires x > 0real ensures rpowf(x * x, y / 2real) == rpowf(x, y) { }
//@item src/models/forex/sabr.rs :: struct SabrParams
//@item src/models/forex/sabr.rs :: struct SabrState
// 1 - 2pz + z^2 = (z - p)^2 + 1 - p^2, so its root exceeds |z - p|, and (root + z - p)/(1 - p) is 1 only at z = 0
proof fn lemma_root(p: real, z: real)
    requires -1real < p < 1real
    ensures ({ let q = 1real - 2real * p * z + z * z; let x = rsqrt(q) + z - p; q > 0real && x > 0real && x / (1real - p) > 0real && (z != 0real ==> rln(x / (1real - p)) != 0real) })
{
    let q = 1real - 2real * p * z + z * z;
    let (d, r) = (z - p, rsqrt(q));
    assert(q == d * d + (1real - p * p)) by (nonlinear_arith) requires d == z - p, q == 1real - 2real * p * z + z * z;
    assert(d * d >= 0real) by (nonlinear_arith);
    assert(p * p < 1real) by (nonlinear_arith) requires -1real < p < 1real;
    broadcast use axiom_sqrt, axiom_ln, axiom_exp;
    assert(r + d > 0real) by (nonlinear_arith) requires r > 0real, r * r == q, q > d * d;
    let (x, o) = (r + d, 1real - p);
    assert(x / o > 0real) by (nonlinear_arith) requires x > 0real, o > 0real;
    if z != 0real && rln(x / o) == 0real {
        assert(rexp(rln(x / o)) == 1real);
        assert(x == o) by (nonlinear_arith) requires x / o == 1real, o > 0real;
        assert(r == 1real - z);
        assert((1real - z) * (1real - z) == 1real - 2real * z + z * z) by (nonlinear_arith);
        assert(2real * p * z == 2real * z);
        assert(false) by (nonlinear_arith) requires 2real * p * z == 2real * z, z != 0real, p < 1real;
    }
}
// the second order of the expansion is no more than z^2
proof fn lemma_small(p: real, z: real, l: real, d: real)
    requires -1real < p < 1real
    ensures ({ let q = 1real - (5real / 10real) * p * z + 1real / 12real * (3real * p * p - 2real) * z * z;
        rabs(l * q * d - l * (1real - (5real / 10real) * p * z) * d) <= rabs(l * d) * (z * z) })
{
    let (s, c) = (1real - (5real / 10real) * p * z, 1real / 12real * (3real * p * p - 2real));
    assert(3real * p * p == 3real * (p * p)) by (nonlinear_arith);
    assert(0real <= p * p < 1real) by (nonlinear_arith) requires -1real < p < 1real;
    let (w, m) = (z * z, l * d);
    assert(w >= 0real) by (nonlinear_arith) requires w == z * z;
    assert(c * z * z == c * w) by (nonlinear_arith) requires w == z * z;
    let e = c * w;
    assert(-w <= e <= w) by (nonlinear_arith) requires e == c * w, -1real <= c <= 1real, w >= 0real;
    assert(l * (s + e) * d - l * s * d == m * e) by (nonlinear_arith) requires m == l * d;
    let n = rabs(m);
    assert(rabs(m * e) <= n * w) by (nonlinear_arith) requires n == m || n == -m, n >= 0real, -w <= e <= w, w >= 0real;
}
proof fn lemma_smile(q: SabrParams, l: real)
    requires q.ok()
    ensures q.smile(l) >= 1real
{
    let (o, m) = (1real - q.beta@, l * l);
    assert(rpow(o, 2) == o * o) by { reveal_with_fuel(rpow, 3); }
    assert(rpow(o, 4) == o * (o * (o * o))) by { reveal_with_fuel(rpow, 5); }
    let w = o * o;
    assert(o * (o * w) == w * w) by (nonlinear_arith) requires w == o * o;
    assert(w >= 0real && m >= 0real && w * w >= 0real && m * m >= 0real) by (nonlinear_arith) requires w == o * o, m == l * l;
    let (a, b) = (w / 24real, w * w / 1920real);
    assert(a * m >= 0real) by (nonlinear_arith) requires a >= 0real, m >= 0real;
    assert(b * m * m >= 0real) by (nonlinear_arith) requires b >= 0real, m >= 0real;
}
impl SabrParams {
    pub open spec fn ok(&self) -> bool { self.alpha@ > 0real && 0real <= self.beta@ <= 1real && -1real < self.rho@ < 1real && self.nu@ >= 0real }
    pub open spec fn root(&self, z: real) -> real { rsqrt(1real - 2real * self.rho@ * z + z * z) }
    // z / x(z) away from the money
    pub open spec fn z_over_x(&self, z: real) -> real { let p = self.rho@; z / rln((self.root(z) + z - p) / (1real - p)) }
    // the terms in time, fk = (F K)^((1 - beta)/2)
    pub open spec fn drift(&self, fk: real, t: real) -> real {
        let (a, b, p, n) = (self.alpha@, self.beta@, self.rho@, self.nu@);
        1real + (rpow(1real - b, 2) / 24real * a * a / (fk * fk) + (25real / 100real) * p * b * n * a / fk + (2real - 3real * p * p) * n * n / 24real) * t
    }
    // the terms in log-moneyness
    pub open spec fn smile(&self, l: real) -> real {
        let o = 1real - self.beta@;
        1real + rpow(o, 2) / 24real * (l * l) + rpow(o, 4) / 1920real * (l * l) * (l * l)
    }
    pub open spec fn fk(&self, f: real, k: real) -> real { rpowf(f * k, (5real / 10real) * (1real - self.beta@)) }
    pub open spec fn z(&self, f: real, k: real) -> real { self.nu@ / self.alpha@ * self.fk(f, k) * rln(f / k) }
    pub open spec fn level(&self, f: real, k: real) -> real { self.alpha@ / (self.fk(f, k) * self.smile(rln(f / k))) }
    // r is the volatility: z / x(z) is 1 - rho z / 2 up to z^2 where z is below 1e-8
    pub open spec fn is_vol(&self, f: real, k: real, t: real, r: real) -> bool {
        let (z, l, d) = (self.z(f, k), self.level(f, k), self.drift(self.fk(f, k), t));
        if rabs(z) < 1real / 100_000_000real { rabs(r - l * (1real - (5real / 10real) * self.rho@ * z) * d) <= rabs(l * d) * (z * z) } else { r == l * self.z_over_x(z) * d }
    }
    pub open spec fn atm(&self, f: real, t: real) -> real { let fk = rpowf(f, 1real - self.beta@); self.alpha@ / fk * self.drift(fk, t) }
}
//@fn src/models/forex/sabr.rs impl SabrParams :: new => impl SabrParams
//@params a, b, p, n
//@spec
    requires a@ > 0real, 0real <= b@ <= 1real, -1real < p@ < 1real, n@ >= 0real
    ensures r.alpha == a, r.beta == b, r.rho == p, r.nu == n, r.ok()
//@end
//@fn src/models/forex/sabr.rs fn hagan_implied_vol
//@params q, f, k, t
//@spec
    requires q.ok(), f@ > 0real, k@ > 0real, t@ > 0real
    ensures q.is_vol(f@, k@, t@, r@)
//@entry
    broadcast use axiom_powf_pos;
    proof {
        let (x, y) = (f@, k@);
        assert(x / y > 0real && x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real;
        let l = rln(x / y);
        let fk = rpowf(x * y, (5real / 10real) * (1real - q.beta@));
        assert(fk * fk > 0real) by (nonlinear_arith) requires fk > 0real;
        lemma_smile(*q, l);
        let m = q.smile(l);
        assert(fk * m > 0real) by (nonlinear_arith) requires fk > 0real, m >= 1real;
        lemma_root(q.rho@, q.nu@ / q.alpha@ * fk * l);
        lemma_small(q.rho@, q.z(x, y), q.level(x, y), q.drift(fk, t@));
    }
//@end
//@fn src/models/forex/sabr.rs fn hagan_atm_vol
//@params q, f, t
//@spec
    requires q.ok(), f@ > 0real
    ensures r@ == q.atm(f@, t@)
//@entry
    broadcast use axiom_powf_pos;
    proof {
        let fk = rpowf(f@, 1real - q.beta@);
        assert(rpow(fk, 2) == fk * fk) by { reveal_with_fuel(rpow, 3); }
        assert(fk * fk > 0real) by (nonlinear_arith) requires fk > 0real;
    }
//@end
//@item src/models/forex/sabr.rs :: struct SabrSimulator
impl SabrSimulator {
    pub open spec fn ok(&self) -> bool { self.params.ok() && self.sqrt_one_minus_rho_sq@ == rsqrt(1real - self.params.rho@ * self.params.rho@) }
    pub open spec fn same(&self, o: &Self) -> bool { self.params == o.params && self.forward_0 == o.forward_0 && self.sqrt_one_minus_rho_sq == o.sqrt_one_minus_rho_sq }
}
// one Euler step of the forward and one exact step of its volatility, given the two Brownian increments
pub open spec fn stepped(p: SabrParams, s: SabrState, dt: real, wf: real, wa: real, e: SabrState) -> bool {
    let (f, a) = (rmax(s.forward@, 0real), rmax(s.vol@, 0real));
    e.forward@ == rmax(f + a * rpowf(f, p.beta@) * wf, 0real) && e.vol@ == a * rexp(-(5real / 10real) * p.nu@ * p.nu@ * dt + p.nu@ * wa)
}
pub open spec fn noise(p: SabrParams, g: ChaCha20Rng, dt: real) -> (ChaCha20Rng, real, real) {
    let (g1, z1) = next_normal(g);
    let (g2, z2) = next_normal(g1);
    (g2, rsqrt(dt) * z1, rsqrt(dt) * (p.rho@ * z1 + rsqrt(1real - p.rho@ * p.rho@) * z2))
}
//@fn src/models/forex/sabr.rs impl SabrSimulator :: new => impl SabrSimulator
//@params p, f, seed
//@spec
    requires p.ok(), f@ > 0real
    ensures r.ok(), r.params == p, r.forward_0 == f, r.rng == seeded(seed)
//@entry
    proof { let x = p.rho@; assert(x * x < 1real) by (nonlinear_arith) requires -1real < x < 1real; }
//@end
//@fn src/models/forex/sabr.rs impl SabrSimulator :: step_with_noise => impl SabrSimulator
//@params s, dt
//@spec
    requires old(self).ok(), dt@ > 0real
    ensures final(self).same(old(self)), r.1.len() == 2, (final(self).rng, r.1[0]@, r.1[1]@) == noise(old(self).params, old(self).rng, dt@), stepped(old(self).params, *s, dt@, r.1[0]@, r.1[1]@, r.0)
//@end
//@type Self::State => SabrState
//@fn src/models/forex/sabr.rs impl SimulationModel for SabrSimulator :: initial_state => impl SabrSimulator
//@spec
    ensures r.forward == self.forward_0, r.vol == self.params.alpha
//@end
//@fn src/models/forex/sabr.rs impl SimulationModel for SabrSimulator :: step => impl SabrSimulator
//@params s, t, dt
//@spec
    requires old(self).ok(), dt@ > 0real
    ensures final(self).same(old(self)), ({ let (g, wf, wa) = noise(old(self).params, old(self).rng, dt@); final(self).rng == g && stepped(old(self).params, *s, dt@, wf, wa, r) })
//@end
// n steps of one path, as numbers
pub open spec fn path(p: SabrParams, g: ChaCha20Rng, f: real, a: real, dt: real, n: nat) -> (ChaCha20Rng, real, real) decreases n {
    if n == 0 { (g, f, a) } else {
        let (h, x, y) = path(p, g, f, a, dt, (n - 1) as nat);
        let (k, wf, wa) = noise(p, h, dt);
        (k, rmax(rmax(x, 0real) + rmax(y, 0real) * rpowf(rmax(x, 0real), p.beta@) * wf, 0real), rmax(y, 0real) * rexp(-(5real / 10real) * p.nu@ * p.nu@ * dt + p.nu@ * wa))
    }
}
// the generator before the i-th path
pub open spec fn before_path(p: SabrParams, g: ChaCha20Rng, f: real, dt: real, n: nat, i: nat) -> ChaCha20Rng decreases i {
    if i == 0 { g } else { path(p, before_path(p, g, f, dt, n, (i - 1) as nat), f, p.alpha@, dt, n).0 }
}
//@fn src/models/forex/sabr.rs impl SabrSimulator :: simulate => impl SabrSimulator
//@params t, n, m
//@local out: Vec<SabrState>
//@spec
    requires old(self).ok(), n > 0, m > 0, t@ > 0real
    ensures final(self).same(old(self)), r.len() == m, ({ let (p, g, f, dt) = (old(self).params, old(self).rng, old(self).forward_0@, t@ / (n as int as real));
        &&& final(self).rng == before_path(p, g, f, dt, n as nat, m as nat)
        &&& forall|i: int| 0 <= i < m ==> path(p, before_path(p, g, f, dt, n as nat, i as nat), f, p.alpha@, dt, n as nat) == (before_path(p, g, f, dt, n as nat, (i + 1) as nat), (#[trigger] r[i]).forward@, r[i].vol@) })
//@entry
    let ghost (p, g, f, d) = (self.params, self.rng, self.forward_0@, t@ / (n as int as real));
    proof { let x = n as int as real; let y = t@; assert(y / x > 0real) by (nonlinear_arith) requires x > 0real, y > 0real; }
//@loop 0
    invariant 0 <= __k0 <= m, __n0 == m, n_steps == n, self.ok(), self.same(old(self)), n > 0, dt@ == d, d > 0real, p == self.params, f == self.forward_0@, out.len() == __k0, self.rng == before_path(p, g, f, d, n as nat, __k0 as nat),
        forall|i: int| 0 <= i < __k0 ==> path(p, before_path(p, g, f, d, n as nat, i as nat), f, p.alpha@, d, n as nat) == (before_path(p, g, f, d, n as nat, (i + 1) as nat), (#[trigger] out[i]).forward@, out[i].vol@),
    decreases m - __k0
//@loop 0 begin
    let ghost i0 = __k0 as int;
    let ghost g0 = self.rng;
    let ghost o0 = out@;
//@loop 0 end
    proof { assert forall|i: int| 0 <= i < i0 implies #[trigger] out@[i] == o0[i] by {} }
//@loop 1
    invariant 0 <= __k1 <= n, __n1 == n, self.ok(), self.same(old(self)), n > 0, dt@ == d, d > 0real, p == self.params, f == self.forward_0@,
        g0 == before_path(p, g, f, d, n as nat, i0 as nat), path(p, g0, f, p.alpha@, d, __k1 as nat) == (self.rng, state.forward@, state.vol@),
    decreases n - __k1
//@end
// at the money the smile is the closed at-the-money volatility
proof fn at_the_money(q: SabrParams, f: real, t: real, r: real)
    requires q.ok(), f > 0real, q.is_vol(f, f, t, r)
    ensures r == q.atm(f, t)
{
    broadcast use axiom_powf_pos, axiom_exp;
    let o = 1real - q.beta@;
    axiom_powf_square(f, o);
    assert((5real / 10real) * o == o / 2real);
    assert(f / f == 1real) by (nonlinear_arith) requires f > 0real;
    assert(rln(1real) == 0real) by { assert(rexp(0real) == 1real); }
    let fk = rpowf(f, o);
    let c = q.nu@ / q.alpha@ * fk;
    assert(c * 0real == 0real) by (nonlinear_arith);
    let (x, y) = (rpow(o, 2) / 24real, rpow(o, 4) / 1920real);
    assert(x * 0real == 0real && y * 0real * 0real == 0real && 0real * 0real == 0real) by (nonlinear_arith);
    assert(q.smile(0real) == 1real);
    let (p, l, d) = ((5real / 10real) * q.rho@, q.alpha@ / fk, q.drift(fk, t));
    assert(p * 0real == 0real) by (nonlinear_arith);
    assert(fk * 1real == fk && l * 1real == l);
    assert(rabs(l * d) * 0real == 0real) by (nonlinear_arith);
}
