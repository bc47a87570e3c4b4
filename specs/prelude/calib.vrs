// Smile calibrators: what src/models/forex/*_calibrator.rs share
pub uninterp spec fn rtanh(x: real) -> real;
pub uninterp spec fn ratanh(x: real) -> real;
// tanh stays inside (-1, 1), and atanh inverts it there
#[verifier::external_body]
pub broadcast proof fn axiom_tanh(x: real) ensures -1real < #[trigger] rtanh(x) < 1real { }
#[verifier::external_body]
pub broadcast proof fn axiom_atanh(x: real) requires -1real < x < 1real ensures rtanh(#[trigger] ratanh(x)) == x { }
impl R {
    #[verifier::external_body] pub fn tanh(self) -> (r: R) ensures r@ == rtanh(self@) { unimplemented!() }
    #[verifier::external_body] pub fn atanh(self) -> (r: R) requires -1real < self@ < 1real ensures r@ == ratanh(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn copied<T>(x: &[T]) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
// softplus and its inverse
pub open spec fn soft(x: real) -> real { if x > 35real { x } else { rln(1real + rexp(x)) } }
pub open spec fn soft_inv(y: real) -> real { if y > 35real { y } else { rln(rexp(y) - 1real) } }
pub proof fn lemma_ln_mono(x: real, y: real) requires 0real < x < y ensures rln(x) < rln(y) {
    broadcast use axiom_ln, axiom_exp;
    let (a, b) = (rln(x), rln(y));
    if b < a { axiom_exp_mono(b, a); }
}
pub broadcast proof fn lemma_soft(x: real) ensures #[trigger] soft(x) > 0real {
    broadcast use axiom_ln, axiom_exp;
    if !(x > 35real) { lemma_ln_mono(1real, 1real + rexp(x)); assert(rln(1real) == rln(rexp(0real))); }
}
pub proof fn lemma_above_one(y: real) requires y > 0real ensures rexp(y) > 1real { broadcast use axiom_exp; axiom_exp_mono(0real, y); }
pub broadcast proof fn lemma_soft_inv(y: real) requires y > 0real ensures soft(#[trigger] soft_inv(y)) == y {
    if !(y > 35real) {
        lemma_above_one(y);
        let x = soft_inv(y);
        lemma_ln_mono(rexp(y) - 1real, rexp(y));
        broadcast use axiom_ln, axiom_exp;
        assert(x < y);
        assert(rexp(x) == rexp(y) - 1real);
    }
}
// the objective: the sum of squared differences to the market, 10^6 where a strike has no volatility
pub open spec fn sse(v: Seq<Option<real>>, m: Seq<real>, k: int) -> real decreases k { if k <= 0 { 0real } else { sse(v, m, k - 1) + rpow(v[k - 1]->0 - m[k - 1], 2) } }
pub open spec fn quoted(v: Seq<Option<real>>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] v[i]) is Some }
pub open spec fn loss(v: Seq<Option<real>>, m: Seq<real>) -> real { if quoted(v, v.len() as int) { sse(v, m, v.len() as int) } else { 1_000_000real } }
pub proof fn lemma_sse(v: Seq<Option<real>>, m: Seq<real>, k: int) ensures sse(v, m, k) >= 0real decreases k {
    if k > 0 { lemma_sse(v, m, k - 1); let d = v[k - 1]->0 - m[k - 1]; reveal_with_fuel(rpow, 3); assert(rpow(d, 2) == d * d); assert(d * d >= 0real) by (nonlinear_arith); }
}
pub broadcast proof fn lemma_loss(v: Seq<Option<real>>, m: Seq<real>) ensures #[trigger] loss(v, m) >= 0real { lemma_sse(v, m, v.len() as int); }
pub broadcast proof fn lemma_ratio(a: R, n: usize) requires a@ >= 0real, n >= 1 ensures #![trigger a@, n.real_of()] a@ / n.real_of() >= 0real { let (x, y) = (a@, n.real_of()); assert(x / y >= 0real) by (nonlinear_arith) requires x >= 0real, y >= 1real; }
//@item src/math/optimize.rs :: struct Minimum
//@item src/math/optimize.rs :: struct NelderMeadOptions => #[derive(Clone, Copy)]
// Nelder-Mead as proved in C41: the best point is one it asked for, and the start is among those
#[verifier::external_body]
pub fn nelder_mead<F: Fn(&[R]) -> R>(f: F, x0: &[R], o: NelderMeadOptions) -> (r: Minimum)
    requires x0.len() >= 1, forall|x: &[R]| x.len() == x0.len() ==> #[trigger] f.requires((x,))
    ensures r.x.len() == x0.len(), exists|x: &[R], y: &[R], w: R| x@ == r.x@ && y@ == x0@ && #[trigger] f.ensures((x,), r.f) && #[trigger] f.ensures((y,), w) && r.f@ <= w@
{ unimplemented!() }
//@item src/models/forex/market_data.rs :: struct MarketSmileStrip
impl MarketSmileStrip {
    pub open spec fn ok(&self) -> bool { self.expiry_yf@ > 0real && self.forward@ > 0real && self.strikes.len() >= 1 && self.strikes.len() == self.vols.len() && positive(self.strikes@) }
}
pub open spec fn positive(v: Seq<R>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ > 0real }
//@item src/models/common/calibration.rs :: struct CalibrationReport
