// The COS method: contracts discharged against src/models/common/cos_pricer.rs
pub trait ForwardChf: Sized {
    spec fn phi(&self, u: CV) -> CV;
    spec fn expiry_s(&self) -> real;
    spec fn log_forward_s(&self) -> real;
    spec fn typical_variance_s(&self) -> real;
    fn evaluate(&self, u: Cx) -> (r: Cx) ensures r@ == self.phi(u@);
    fn expiry(&self) -> (r: R) ensures r@ == self.expiry_s();
    fn log_forward(&self) -> (r: R) ensures r@ == self.log_forward_s();
    fn typical_variance(&self) -> (r: R) ensures r@ == self.typical_variance_s();
}
//@item src/models/common/cos_pricer.rs :: struct CosPricer
// the frequency of the k-th cosine on a range of width w
pub open spec fn freq(k: int, w: real) -> real { (k as real) * rpi() / w }
// integral over [c, d] of e^y cos(u_k (y - a))
pub open spec fn chi_s(k: int, a: real, b: real, c: real, d: real) -> real {
    let u = freq(k, b - a);
    ((rcos(u * (d - a)) * rexp(d) - rcos(u * (c - a)) * rexp(c)) + u * (rsin(u * (d - a)) * rexp(d) - rsin(u * (c - a)) * rexp(c))) / (1real + u * u)
}
// integral over [c, d] of cos(u_k (y - a))
pub open spec fn psi_s(k: int, a: real, b: real, c: real, d: real) -> real {
    let u = freq(k, b - a);
    if k == 0 { d - c } else { (rsin(u * (d - a)) - rsin(u * (c - a))) / u }
}
// where the payoff changes sign, cut to the range of the series
pub open spec fn kink(a: real, b: real, strike: real) -> real { rmin(rmax(rln(strike), a), b) }
// coefficients of the two payoffs
pub open spec fn v_call(k: int, a: real, b: real, strike: real) -> real { 2real / (b - a) * (chi_s(k, a, b, kink(a, b, strike), b) - strike * psi_s(k, a, b, kink(a, b, strike), b)) }
pub open spec fn v_put(k: int, a: real, b: real, strike: real) -> real { 2real / (b - a) * (0real - chi_s(k, a, b, a, kink(a, b, strike)) + strike * psi_s(k, a, b, a, kink(a, b, strike))) }
pub open spec fn half(k: int) -> real { if k == 0 { 1real / 2real } else { 1real } }
// real part of phi(u_k) e^{-i u_k a}
pub open spec fn weight<C: ForwardChf>(chf: C, k: int, a: real, b: real) -> real {
    cmul(chf.phi(cv(freq(k, b - a), 0real)), cexp(cv(0real, (0real - freq(k, b - a)) * a))).re
}
pub open spec fn series<C: ForwardChf>(chf: C, n: int, a: real, b: real, strike: real, call: bool) -> real decreases n {
    if n <= 0 { 0real } else {
        series(chf, n - 1, a, b, strike, call) + half(n - 1) * weight(chf, n - 1, a, b) * (if call { v_call(n - 1, a, b, strike) } else { v_put(n - 1, a, b, strike) })
    }
}
// the same sum for the payoff e^y - strike over the whole range
pub open spec fn v_forward(k: int, a: real, b: real, strike: real) -> real { 2real / (b - a) * (chi_s(k, a, b, a, b) - strike * psi_s(k, a, b, a, b)) }
pub open spec fn forward_series<C: ForwardChf>(chf: C, n: int, a: real, b: real, strike: real) -> real decreases n {
    if n <= 0 { 0real } else { forward_series(chf, n - 1, a, b, strike) + half(n - 1) * weight(chf, n - 1, a, b) * v_forward(n - 1, a, b, strike) }
}
impl<'a, C: ForwardChf> CosPricer<'a, C> {
    pub open spec fn price(&self, strike: real, discount: real, call: bool) -> real { discount * series(*self.chf, self.n_terms as int, self.range.0@, self.range.1@, strike, call) }
    pub open spec fn ok(&self) -> bool { self.range.0@ < self.range.1@ }
}
proof fn lemma_quot_add(x: real, y: real, d: real) requires d != 0real ensures (x + y) / d == x / d + y / d { assert((x + y) / d == x / d + y / d) by (nonlinear_arith) requires d != 0real; }
proof fn lemma_split(k: int, a: real, b: real, m: real)
    requires a < b, 0 <= k
    ensures chi_s(k, a, b, a, m) + chi_s(k, a, b, m, b) == chi_s(k, a, b, a, b), psi_s(k, a, b, a, m) + psi_s(k, a, b, m, b) == psi_s(k, a, b, a, b)
{
    let u = freq(k, b - a);
    let (ca, cm, cb) = (rcos(u * (a - a)) * rexp(a), rcos(u * (m - a)) * rexp(m), rcos(u * (b - a)) * rexp(b));
    let (sa, sm, sb) = (rsin(u * (a - a)) * rexp(a), rsin(u * (m - a)) * rexp(m), rsin(u * (b - a)) * rexp(b));
    assert(1real + u * u > 0real) by (nonlinear_arith);
    lemma_quot_add((cm - ca) + u * (sm - sa), (cb - cm) + u * (sb - sm), 1real + u * u);
    assert(u * (sm - sa) + u * (sb - sm) == u * (sb - sa)) by (nonlinear_arith);
    if k != 0 {
        lemma_freq(k, b - a);
        let (pa, pm, pb) = (rsin(u * (a - a)), rsin(u * (m - a)), rsin(u * (b - a)));
        lemma_quot_add(pm - pa, pb - pm, u);
    }
}
proof fn lemma_freq(k: int, w: real) requires w > 0real, k > 0 ensures freq(k, w) > 0real {
    axiom_pi();
    let (x, p) = (k as real, rpi());
    assert(x >= 1real);
    assert(x * p / w > 0real) by (nonlinear_arith) requires x >= 1real, p > 3real, w > 0real;
}
proof fn lemma_parity_term(k: int, a: real, b: real, strike: real)
    requires a < b, 0 <= k
    ensures v_call(k, a, b, strike) - v_put(k, a, b, strike) == v_forward(k, a, b, strike)
{
    let m = kink(a, b, strike);
    lemma_split(k, a, b, m);
    let w = 2real / (b - a);
    let (x1, x2, p1, p2) = (chi_s(k, a, b, a, m), chi_s(k, a, b, m, b), psi_s(k, a, b, a, m), psi_s(k, a, b, m, b));
    lemma_scaled(w, strike, x1, x2, p1, p2);
}
proof fn lemma_scaled(w: real, s: real, x1: real, x2: real, p1: real, p2: real)
    ensures w * (x2 - s * p2) - w * (0real - x1 + s * p1) == w * ((x1 + x2) - s * (p1 + p2))
{
    assert(s * (p1 + p2) == s * p1 + s * p2) by (nonlinear_arith);
    let (y, z) = (x2 - s * p2, 0real - x1 + s * p1);
    assert(w * y - w * z == w * (y - z)) by (nonlinear_arith);
}
proof fn lemma_distrib(h: real, x: real, y: real) ensures h * x - h * y == h * (x - y) { assert(h * x - h * y == h * (x - y)) by (nonlinear_arith); }
// put-call parity, term by term: call minus put is the series of forward minus strike
proof fn lemma_parity<C: ForwardChf>(chf: C, n: int, a: real, b: real, strike: real)
    requires a < b, 0 <= n
    ensures series(chf, n, a, b, strike, true) - series(chf, n, a, b, strike, false) == forward_series(chf, n, a, b, strike)
    decreases n
{
    if n > 0 {
        lemma_parity(chf, n - 1, a, b, strike);
        lemma_parity_term(n - 1, a, b, strike);
        lemma_distrib(half(n - 1) * weight(chf, n - 1, a, b), v_call(n - 1, a, b, strike), v_put(n - 1, a, b, strike));
    }
}
proof fn cos_parity<'a, C: ForwardChf>(p: CosPricer<'a, C>, strike: real, discount: real)
    requires p.ok()
    ensures p.price(strike, discount, true) - p.price(strike, discount, false) == discount * forward_series(*p.chf, p.n_terms as int, p.range.0@, p.range.1@, strike)
{
    lemma_parity(*p.chf, p.n_terms as int, p.range.0@, p.range.1@, strike);
    lemma_distrib(discount, series(*p.chf, p.n_terms as int, p.range.0@, p.range.1@, strike, true), series(*p.chf, p.n_terms as int, p.range.0@, p.range.1@, strike, false));
}
// a strike beyond the range: the out-of-the-money option is worth nothing, the other one the forward's payoff
proof fn beyond<C: ForwardChf>(chf: C, n: int, a: real, b: real, strike: real)
    requires a < b, 0 <= n
    ensures rln(strike) >= b ==> series(chf, n, a, b, strike, true) == 0real, rln(strike) <= a ==> series(chf, n, a, b, strike, false) == 0real
    decreases n
{
    if n > 0 {
        beyond(chf, n - 1, a, b, strike);
        let (k, u) = (n - 1, freq(n - 1, b - a));
        if k > 0 { lemma_freq(k, b - a); }
        assert(1real + u * u > 0real) by (nonlinear_arith);
        let e = if rln(strike) >= b { b } else { a };
        if rln(strike) >= b || rln(strike) <= a {
            assert(kink(a, b, strike) == e);
            lemma_zero(u); lemma_zero(1real + u * u); lemma_zero(strike); lemma_zero(2real / (b - a)); lemma_zero(half(n - 1) * weight(chf, n - 1, a, b));
            assert(chi_s(k, a, b, e, e) == 0real);
            assert(psi_s(k, a, b, e, e) == 0real);
        }
    }
}
proof fn lemma_zero(x: real) ensures x * 0real == 0real, x != 0real ==> 0real / x == 0real { assert(x * 0real == 0real) by (nonlinear_arith); if x != 0real { assert(0real / x == 0real) by (nonlinear_arith) requires x != 0real; } }
//@fn src/models/common/cos_pricer.rs fn chi_k
//@params k, a, b, c, d
//@spec
    requires a@ < b@
    ensures r@ == chi_s(k as int, a@, b@, c@, d@)
//@entry
    proof { let u = freq(k as int, b@ - a@); assert(1real + u * u > 0real) by (nonlinear_arith); }
//@end
//@fn src/models/common/cos_pricer.rs fn psi_k
//@params k, a, b, c, d
//@spec
    requires a@ < b@
    ensures r@ == psi_s(k as int, a@, b@, c@, d@)
//@entry
    proof { if k > 0 { lemma_freq(k as int, b@ - a@); } }
//@end
//@fn src/models/common/cos_pricer.rs impl CosPricer<'a, C> :: new => impl<'a, C: ForwardChf> CosPricer<'a, C>
//@params chf
//@spec
    requires chf.typical_variance_s() * chf.expiry_s() >= 0real
    ensures *r.chf == *chf, r.n_terms == 128, r.ok(),
        ({ let w = 10real * rmax(rsqrt(chf.typical_variance_s() * chf.expiry_s()), 1real / 1000000real);
           r.range.0@ == chf.log_forward_s() - w && r.range.1@ == chf.log_forward_s() + w })
//@end
//@fn src/models/common/cos_pricer.rs impl CosPricer<'a, C> :: with_n_terms => impl<'a, C: ForwardChf> CosPricer<'a, C>
//@params n
//@spec
    requires n >= 2
    ensures r.n_terms == n, r.range == self.range, r.chf == self.chf
//@end
//@fn src/models/common/cos_pricer.rs impl CosPricer<'a, C> :: with_range => impl<'a, C: ForwardChf> CosPricer<'a, C>
//@params a, b
//@spec
    requires a@ < b@
    ensures r.n_terms == self.n_terms, r.range == (a, b), r.chf == self.chf, r.ok()
//@end
//@fn src/models/common/cos_pricer.rs impl CosPricer<'a, C> :: price_european => impl<'a, C: ForwardChf> CosPricer<'a, C>
//@params strike, discount, is_call
//@spec
    requires self.ok(), strike@ > 0real
    ensures r@ == self.price(strike@, discount@, is_call)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.n_terms, self.ok(), a == self.range.0, b == self.range.1, width@ == b@ - a@, log_k@ == kink(a@, b@, strike@),
        c == (if is_call { log_k } else { a }), d == (if is_call { b } else { log_k }),
        total@ == series(*self.chf, __k0 as int, a@, b@, strike@, is_call),
    decreases __n0 - __k0
//@end
//@fn src/models/common/cos_pricer.rs impl CosPricer<'a, C> :: call => impl<'a, C: ForwardChf> CosPricer<'a, C>
//@params strike, discount
//@spec
    requires self.ok(), strike@ > 0real
    ensures r@ == self.price(strike@, discount@, true)
//@end
//@fn src/models/common/cos_pricer.rs impl CosPricer<'a, C> :: put => impl<'a, C: ForwardChf> CosPricer<'a, C>
//@params strike, discount
//@spec
    requires self.ok(), strike@ > 0real
    ensures r@ == self.price(strike@, discount@, false)
//@end
