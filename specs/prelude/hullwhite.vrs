// Hull-White one factor: contracts discharged against src/models/interestrate/hull_white.rs
//@item src/models/interestrate/hull_white.rs :: struct HullWhite1F
pub broadcast proof fn neg_mul(l: real, d: real) ensures #[trigger] rexp((0real - l) * d) == rexp(0real - l * d) { assert((0real - l) * d == 0real - l * d) by (nonlinear_arith); }
pub broadcast proof fn neg_mul2(l: real, d: real) ensures #[trigger] rexp((0real - 2real) * l * d) == rexp(0real - 2real * l * d) { assert((0real - 2real) * l * d == 0real - 2real * l * d) by (nonlinear_arith); }
proof fn lemma_b2(l: real, x: real, y: real, s: real)
    requires l != 0real
    ensures l * l != 0real, (1real / (l * l)) * ((5real / 10real) / l * y - 2real / l * x + s) == (y / (2real * l) - 2real * x / l + s) / (l * l)
{
    assert(l * l != 0real) by (nonlinear_arith) requires l != 0real;
    assert((5real / 10real) / l * y == y / (2real * l)) by (nonlinear_arith) requires l != 0real;
    assert(2real / l * x == 2real * x / l) by (nonlinear_arith) requires l != 0real;
    let (m, w) = (l * l, y / (2real * l) - 2real * x / l + s);
    assert((1real / m) * w == w / m) by (nonlinear_arith) requires m != 0real;
}
impl HullWhite1F {
    // the mean reversion is taken for zero below 1e-12
    pub open spec fn flat(&self) -> bool { rabs(self.mean_reversion@) < 1real / 1_000_000_000_000real }
    // B(t, T) as a function of T - t
    pub open spec fn b_s(&self, tau: real) -> real { let l = self.mean_reversion@; if self.flat() { 0real - tau } else { (rexp(0real - l * tau) - 1real) / l } }
    pub open spec fn var_s(&self, tau: real) -> real {
        let (l, e) = (self.mean_reversion@, self.sigma@);
        if tau <= 0real { 0real } else if self.flat() { e * e * tau } else { e * e / (2real * l) * (1real - rexp(0real - 2real * l * tau)) }
    }
    // antiderivative in s of B(s, T)^2: ((e^{-l(T-s)} - 1)/l)^2 expanded and integrated term by term
    pub open spec fn b2_s(&self, s: real, t: real) -> real {
        let l = self.mean_reversion@;
        if self.flat() { 0real - rpow(t - s, 3) / 3real } else { (rexp(0real - 2real * l * (t - s)) / (2real * l) - 2real * rexp(0real - l * (t - s)) / l + s) / (l * l) }
    }
    pub open spec fn bond_var_s(&self, a: real, b: real, t: real) -> real { self.sigma@ * self.sigma@ * (self.b2_s(b, t) - self.b2_s(a, t)) }
    pub open spec fn convexity(&self, t: real, b: real) -> real {
        let (l, e) = (self.mean_reversion@, self.sigma@);
        if self.flat() { e * e * t * b * b / 2real } else { e * e / (4real * l) * (1real - rexp(0real - 2real * l * t)) * b * b }
    }
}
//@fn src/models/interestrate/hull_white.rs impl HullWhite1F :: b => impl HullWhite1F
//@params t, u
//@spec
    ensures r@ == self.b_s(u@ - t@)
//@entry
    proof { let (l, d) = (self.mean_reversion@, u@ - t@); assert((0real - l) * d == 0real - l * d) by (nonlinear_arith); }
//@end
//@fn src/models/interestrate/hull_white.rs impl HullWhite1F :: short_rate_variance => impl HullWhite1F
//@params t, u
//@spec
    ensures r@ == self.var_s(u@ - t@)
//@entry
    proof { let (l, d) = (self.mean_reversion@, u@ - t@); assert((0real - 2real * l) * d == 0real - 2real * l * d) by (nonlinear_arith); }
//@end
//@fn src/models/interestrate/hull_white.rs impl HullWhite1F :: bond_log_variance => impl HullWhite1F
//@params a, b, t
//@closure 0 |s: R| -> (q: R) requires lambda == self.mean_reversion, big_t == t ensures q@ == self.b2_s(s@, t@)
//@spec
    requires b@ >= a@
    ensures r@ == self.bond_var_s(a@, b@, t@)
//@entry
    broadcast use neg_mul, neg_mul2;
    proof {
        let l = self.mean_reversion@;
        assert forall|s: real| #[trigger] self.b2_s(s, t@) == self.b2_s(s, t@) && (!self.flat() ==> {
                let (x, y) = (rexp((0real - l) * (t@ - s)), rexp((0real - 2real) * l * (t@ - s)));
                l * l != 0real && (1real / (l * l)) * ((5real / 10real) / l * y - 2real / l * x + s) == self.b2_s(s, t@) }) by {
            let (x, y) = (rexp((0real - l) * (t@ - s)), rexp((0real - 2real) * l * (t@ - s)));
            if !self.flat() { lemma_b2(l, x, y, s); neg_mul(l, t@ - s); neg_mul2(l, t@ - s); }
        }
    }
//@end
//@fn src/models/interestrate/hull_white.rs impl HullWhite1F :: discount_affine => impl HullWhite1F
//@params t, u, x, p, q, f
//@spec
    requires p@ != 0real
    ensures ({ let b = self.b_s(u@ - t@); r@ == q@ / p@ * rexp(0real - b * f@ - self.convexity(t@, b) + b * x@) })
//@entry
    broadcast use neg_mul, neg_mul2;
    proof {
        let (b, l, e) = (self.b_s(u@ - t@), self.mean_reversion@, self.sigma@);
        assert((0real - b) * f@ == 0real - b * f@) by (nonlinear_arith);
        assert(e * e * t@ * b * b * (5real / 10real) == e * e * t@ * b * b / 2real) by (nonlinear_arith);
        if !self.flat() { assert(4real * l != 0real); }
    }
//@end
// at time 0 the model's discount factor is the market's
proof fn time_zero(h: HullWhite1F, t: real, p: real, f: real)
    ensures ({ let b = h.b_s(t - 0real); p / 1real * rexp(0real - b * f - h.convexity(0real, b) + b * f) == p })
{
    let b = h.b_s(t - 0real);
    let (l, e) = (h.mean_reversion@, h.sigma@);
    broadcast use axiom_exp;
    assert(2real * l * 0real == 0real) by (nonlinear_arith);
    assert(h.convexity(0real, b) == 0real) by {
        if h.flat() { assert(e * e * 0real * b * b == 0real) by (nonlinear_arith); }
        else { assert(e * e / (4real * l) * 0real * b * b == 0real) by (nonlinear_arith); }
    }
}
// a bond at its own maturity has no duration; nothing accrues over an empty period; variances of adjoining periods add up
proof fn degenerate(h: HullWhite1F, a: real, b: real, c: real, t: real)
    ensures h.b_s(0real) == 0real, h.var_s(0real) == 0real, h.bond_var_s(a, a, t) == 0real, h.bond_var_s(a, b, t) + h.bond_var_s(b, c, t) == h.bond_var_s(a, c, t)
{
    broadcast use axiom_exp;
    let (l, e, x, y) = (h.mean_reversion@, h.sigma@, h.b2_s(b, t) - h.b2_s(a, t), h.b2_s(c, t) - h.b2_s(b, t));
    assert(l * 0real == 0real) by (nonlinear_arith);
    if !h.flat() { assert(0real / l == 0real) by (nonlinear_arith) requires l != 0real; }
    assert(e * e * 0real == 0real) by (nonlinear_arith);
    assert(e * e * x + e * e * y == e * e * (x + y)) by (nonlinear_arith);
}
// the drift target: some function of time, possibly with a state of its own
#[verifier::external_body]
pub struct Theta { x: u8 }
impl Theta {
    pub uninterp spec fn after(&self, t: real) -> (Theta, real);
    #[verifier::external_body]
    pub fn at(&mut self, t: R) -> (r: R) ensures (*final(self), r@) == old(self).after(t@) { unimplemented!() }
    pub open spec fn constant(&self, c: real) -> bool { forall|t: real| #[trigger] self.after(t) == (*self, c) }
    #[verifier::external_body]
    pub fn constantly(c: R) -> (r: Theta) ensures r.constant(c@) { unimplemented!() }
}
pub trait Target: Sized { spec fn boxed(self) -> Theta; fn into_box(self) -> (r: Theta) ensures r == self.boxed(); }
//@type Box<dyn FnMut(f64) -> f64 + 'static> => Theta
//@item src/models/interestrate/hull_white.rs :: struct HullWhiteSimulator
//@fn src/models/interestrate/hull_white.rs impl HullWhiteSimulator :: new_constant_theta => impl HullWhiteSimulator
//@params h, r0, c, seed
//@subst Box::new(move |_t| theta_constant) => Theta::constantly(theta_constant)
//@spec
    ensures r.model == h, r.r_0 == r0, r.theta_fn.constant(c@), r.rng == seeded(seed)
//@end
//@fn src/models/interestrate/hull_white.rs impl HullWhiteSimulator :: with_theta_fn => impl HullWhiteSimulator
//@bound F: Target
//@subst Box::new(f) => f.into_box()
//@params h
//@spec
    ensures r.theta_fn == h.boxed(), r.model == self.model, r.r_0 == self.r_0, r.rng == self.rng
//@end
//@type Self::State => R
//@fn src/models/interestrate/hull_white.rs impl SimulationModel for HullWhiteSimulator :: initial_state => impl HullWhiteSimulator
//@spec
    ensures r == self.r_0
//@end
//@fn src/models/interestrate/hull_white.rs impl SimulationModel for HullWhiteSimulator :: step => impl HullWhiteSimulator
//@params s, t, dt
//@subst (self.theta_fn)(t) => self.theta_fn.at(t)
//@spec
    requires dt@ >= 0real
    ensures ({ let ((g, z), (f, c)) = (next_normal(old(self).rng), old(self).theta_fn.after(t@)); final(self).rng == g && final(self).theta_fn == f
            && r@ == s@ + old(self).model.mean_reversion@ * (c - s@) * dt@ + old(self).model.sigma@ * rsqrt(dt@) * z }),
        final(self).model == old(self).model, final(self).r_0 == old(self).r_0
//@end
