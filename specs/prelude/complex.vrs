// num_complex::Complex64 over the reals: a pair of parts, the field operations by their formulas
pub struct CV { pub re: real, pub im: real }
pub open spec fn cv(re: real, im: real) -> CV { CV { re, im } }
pub open spec fn cadd(a: CV, b: CV) -> CV { CV { re: a.re + b.re, im: a.im + b.im } }
pub open spec fn csub(a: CV, b: CV) -> CV { CV { re: a.re - b.re, im: a.im - b.im } }
pub open spec fn cneg(a: CV) -> CV { CV { re: 0real - a.re, im: 0real - a.im } }
pub open spec fn cmul(a: CV, b: CV) -> CV { CV { re: a.re * b.re - a.im * b.im, im: a.re * b.im + a.im * b.re } }
pub open spec fn cscale(x: real, a: CV) -> CV { CV { re: x * a.re, im: x * a.im } }
pub open spec fn cnorm2(b: CV) -> real { b.re * b.re + b.im * b.im }
pub open spec fn cdiv(a: CV, b: CV) -> CV { CV { re: (a.re * b.re + a.im * b.im) / cnorm2(b), im: (a.im * b.re - a.re * b.im) / cnorm2(b) } }
pub open spec fn cexp(a: CV) -> CV { CV { re: rexp(a.re) * rcos(a.im), im: rexp(a.re) * rsin(a.im) } }
// the principal square root and logarithm: functions of the number
pub uninterp spec fn csqrt(a: CV) -> CV;
pub uninterp spec fn cln(a: CV) -> CV;
#[verifier::external_body]
pub proof fn axiom_csqrt(a: CV) ensures cmul(csqrt(a), csqrt(a)) == a { }
#[verifier::external_body]
pub proof fn axiom_angle_zero() ensures rcos(0real) == 1real, rsin(0real) == 0real { }
pub open spec fn ci() -> CV { cv(0real, 1real) }
pub open spec fn c0() -> CV { cv(0real, 0real) }
pub open spec fn c1() -> CV { cv(1real, 0real) }
#[derive(Clone, Copy)]
pub struct Cx { pub re: R, pub im: R }
impl View for Cx { type V = CV; open spec fn view(&self) -> CV { CV { re: self.re@, im: self.im@ } } }
impl Cx {
    pub fn new(re: R, im: R) -> (r: Cx) ensures r@ == cv(re@, im@) { Cx { re, im } }
    #[verifier::external_body] pub fn exp(self) -> (r: Cx) ensures r@ == cexp(self@) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: Cx) ensures r@ == csqrt(self@) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: Cx) ensures r@ == cln(self@) { unimplemented!() }
}
impl core::ops::Add<Cx> for Cx { type Output = Cx;
    #[verifier::external_body] fn add(self, o: Cx) -> (r: Cx) ensures r@ == cadd(self@, o@) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Cx> for Cx {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: Cx) -> bool { true }
    open spec fn add_spec(self, o: Cx) -> Cx { self }
}
impl core::ops::Sub<Cx> for Cx { type Output = Cx;
    #[verifier::external_body] fn sub(self, o: Cx) -> (r: Cx) ensures r@ == csub(self@, o@) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Cx> for Cx {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Cx) -> bool { true }
    open spec fn sub_spec(self, o: Cx) -> Cx { self }
}
impl core::ops::Mul<Cx> for Cx { type Output = Cx;
    #[verifier::external_body] fn mul(self, o: Cx) -> (r: Cx) ensures r@ == cmul(self@, o@) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Cx> for Cx {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: Cx) -> bool { true }
    open spec fn mul_spec(self, o: Cx) -> Cx { self }
}
impl core::ops::Mul<R> for Cx { type Output = Cx;
    #[verifier::external_body] fn mul(self, o: R) -> (r: Cx) ensures r@ == cscale(o@, self@) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<R> for Cx {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> Cx { self }
}
impl core::ops::Mul<Cx> for R { type Output = Cx;
    #[verifier::external_body] fn mul(self, o: Cx) -> (r: Cx) ensures r@ == cscale(self@, o@) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Cx> for R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: Cx) -> bool { true }
    open spec fn mul_spec(self, o: Cx) -> Cx { o }
}
// a quotient with divisor zero is not a number and not a panic: nothing is required
impl core::ops::Div<Cx> for Cx { type Output = Cx;
    #[verifier::external_body] fn div(self, o: Cx) -> (r: Cx) ensures r@ == cdiv(self@, o@) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<Cx> for Cx {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: Cx) -> bool { true }
    open spec fn div_spec(self, o: Cx) -> Cx { self }
}
impl core::ops::Neg for Cx { type Output = Cx;
    #[verifier::external_body] fn neg(self) -> (r: Cx) ensures r@ == cneg(self@) { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for Cx {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Cx { self }
}
#[verifier::external_body]
pub fn r_pi() -> (r: R) ensures r@ == rpi() { unimplemented!() }
//@type Complex64 => Cx
//@call Complex64::new => Cx::new
//@call f64::consts::PI => r_pi()
//@call PI => r_pi()
//@call consts::PI => r_pi()
