// f64 as mathematical reals (assumption: rounding, overflow and NaN are not modelled;
// the executable contracts bound the rounding on concrete runs).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { x: f64 }
impl View for R { type V = real; uninterp spec fn view(&self) -> real; }
#[verifier::external_body]
pub broadcast proof fn axiom_r_ext(a: R, b: R) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
#[verifier::external_body]
pub fn rlit(g: Ghost<real>) -> (r: R) ensures r@ == g@ { unimplemented!() }
pub uninterp spec fn mk_r(x: real) -> R;
#[verifier::external_body]
pub broadcast proof fn axiom_mk_r(x: real) ensures #[trigger] mk_r(x)@ == x { }
pub trait ToR: Sized { spec fn real_of(self) -> real; fn to_r(self) -> (r: R) ensures r@ == self.real_of(); }
impl ToR for i8 { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for i16 { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for i32 { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for i64 { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for u8 { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for u16 { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for u32 { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for u64 { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for usize { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for isize { open spec fn real_of(self) -> real { (self as int) as real }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for R { open spec fn real_of(self) -> real { self@ }
    #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl core::ops::Add<R> for R { type Output = R;
    #[verifier::external_body] fn add(self, o: R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<R> for R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: R) -> bool { true }
    open spec fn add_spec(self, o: R) -> R { *(&self) }
}
impl<'a> core::ops::Add<&'a R> for R { type Output = R;
    #[verifier::external_body] fn add(self, o: &'a R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<&'a R> for R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &'a R) -> bool { true }
    open spec fn add_spec(self, o: &'a R) -> R { *(&self) }
}
impl<'a> core::ops::Add<R> for &'a R { type Output = R;
    #[verifier::external_body] fn add(self, o: R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<R> for &'a R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: R) -> bool { true }
    open spec fn add_spec(self, o: R) -> R { *(&*self) }
}
impl<'a, 'b> core::ops::Add<&'b R> for &'a R { type Output = R;
    #[verifier::external_body] fn add(self, o: &'b R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b R> for &'a R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &'b R) -> bool { true }
    open spec fn add_spec(self, o: &'b R) -> R { *(&*self) }
}
impl core::ops::Sub<R> for R { type Output = R;
    #[verifier::external_body] fn sub(self, o: R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<R> for R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: R) -> bool { true }
    open spec fn sub_spec(self, o: R) -> R { *(&self) }
}
impl<'a> core::ops::Sub<&'a R> for R { type Output = R;
    #[verifier::external_body] fn sub(self, o: &'a R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<&'a R> for R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &'a R) -> bool { true }
    open spec fn sub_spec(self, o: &'a R) -> R { *(&self) }
}
impl<'a> core::ops::Sub<R> for &'a R { type Output = R;
    #[verifier::external_body] fn sub(self, o: R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<R> for &'a R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: R) -> bool { true }
    open spec fn sub_spec(self, o: R) -> R { *(&*self) }
}
impl<'a, 'b> core::ops::Sub<&'b R> for &'a R { type Output = R;
    #[verifier::external_body] fn sub(self, o: &'b R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b R> for &'a R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &'b R) -> bool { true }
    open spec fn sub_spec(self, o: &'b R) -> R { *(&*self) }
}
impl core::ops::Mul<R> for R { type Output = R;
    #[verifier::external_body] fn mul(self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<R> for R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> R { *(&self) }
}
impl<'a> core::ops::Mul<&'a R> for R { type Output = R;
    #[verifier::external_body] fn mul(self, o: &'a R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a R> for R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &'a R) -> bool { true }
    open spec fn mul_spec(self, o: &'a R) -> R { *(&self) }
}
impl<'a> core::ops::Mul<R> for &'a R { type Output = R;
    #[verifier::external_body] fn mul(self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<R> for &'a R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> R { *(&*self) }
}
impl<'a, 'b> core::ops::Mul<&'b R> for &'a R { type Output = R;
    #[verifier::external_body] fn mul(self, o: &'b R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b R> for &'a R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &'b R) -> bool { true }
    open spec fn mul_spec(self, o: &'b R) -> R { *(&*self) }
}
impl core::ops::Div<R> for R { type Output = R;
    #[verifier::external_body] fn div(self, o: R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<R> for R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: R) -> R { *(&self) }
}
impl<'a> core::ops::Div<&'a R> for R { type Output = R;
    #[verifier::external_body] fn div(self, o: &'a R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<&'a R> for R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: &'a R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: &'a R) -> R { *(&self) }
}
impl<'a> core::ops::Div<R> for &'a R { type Output = R;
    #[verifier::external_body] fn div(self, o: R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<R> for &'a R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: R) -> R { *(&*self) }
}
impl<'a, 'b> core::ops::Div<&'b R> for &'a R { type Output = R;
    #[verifier::external_body] fn div(self, o: &'b R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::DivSpecImpl<&'b R> for &'a R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: &'b R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: &'b R) -> R { *(&*self) }
}
impl core::ops::Neg for R { type Output = R;
    #[verifier::external_body] fn neg(self) -> (r: R) ensures r@ == 0real - self@ { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for R {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> R { self }
}
impl PartialEq<R> for R { #[verifier::external_body] fn eq(&self, o: &R) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<R> for R {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &R) -> bool { self@ == o@ }
}
impl core::cmp::PartialOrd<R> for R {
    #[verifier::external_body] fn partial_cmp(&self, o: &R) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<R> for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<core::cmp::Ordering> {
        if self@ < o@ { Some(core::cmp::Ordering::Less) } else if self@ == o@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
pub open spec fn rmax(x: real, y: real) -> real { if x < y { y } else { x } }
pub open spec fn rmin(x: real, y: real) -> real { if x > y { y } else { x } }
pub open spec fn rpow(x: real, n: int) -> real decreases (if n >= 0 { n } else { 0 }) { if n <= 0 { 1real } else { x * rpow(x, n - 1) } }
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rsqrt(x: real) -> real;
pub uninterp spec fn rpowf(x: real, y: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rpi() -> real;
// elementary facts about exp, ln, sqrt (the only ones used)
#[verifier::external_body]
pub broadcast proof fn axiom_exp(x: real) ensures #[trigger] rexp(x) > 0real, rln(rexp(x)) == x, x == 0real ==> rexp(x) == 1real { }
#[verifier::external_body]
pub proof fn axiom_exp_add(x: real, y: real) ensures rexp(x + y) == rexp(x) * rexp(y) { }
#[verifier::external_body]
pub proof fn axiom_exp_mono(x: real, y: real) requires x < y ensures rexp(x) < rexp(y) { }
#[verifier::external_body]
pub broadcast proof fn axiom_ln(x: real) requires x > 0real ensures rexp(#[trigger] rln(x)) == x { }
#[verifier::external_body]
pub broadcast proof fn axiom_sqrt(x: real) ensures x >= 0real ==> #[trigger] rsqrt(x) >= 0real && rsqrt(x) * rsqrt(x) == x, x > 0real ==> rsqrt(x) > 0real { }
#[verifier::external_body]
pub proof fn axiom_pi() ensures 3real < rpi() < 4real { }
impl R {
    #[verifier::external_body] pub fn abs(self) -> (r: R) ensures r@ == rabs(self@) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: R) -> (r: R) ensures r@ == rmax(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: R) -> (r: R) ensures r@ == rmin(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn clamp(self, lo: R, hi: R) -> (r: R) requires lo@ <= hi@ ensures r@ == (if self@ < lo@ { lo@ } else if self@ > hi@ { hi@ } else { self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: R) ensures r@ == rexp(self@) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: R) requires self@ > 0real ensures r@ == rln(self@) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: R) requires self@ >= 0real ensures r@ == rsqrt(self@) { unimplemented!() }
    #[verifier::external_body] pub fn cos(self) -> (r: R) ensures r@ == rcos(self@) { unimplemented!() }
    #[verifier::external_body] pub fn sin(self) -> (r: R) ensures r@ == rsin(self@) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, o: R) -> (r: R) ensures r@ == rpowf(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: R) ensures n >= 0 ==> r@ == rpow(self@, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn signum(self) -> (r: R) ensures self@ > 0real ==> r@ == 1real, self@ < 0real ==> r@ == 0real - 1real, r@ == 1real || r@ == 0real - 1real { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: R) requires self@ != 0real ensures r@ == 1real / self@ { unimplemented!() }
    #[verifier::external_body] pub fn mul_add(self, a: R, b: R) -> (r: R) ensures r@ == self@ * a@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn exp_m1(self) -> (r: R) ensures r@ == rexp(self@) - 1real { unimplemented!() }
    #[verifier::external_body] pub fn ln_1p(self) -> (r: R) requires 1real + self@ > 0real ensures r@ == rln(1real + self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures self@ > 0real ==> !r, self@ < 0real ==> r { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_positive(self) -> (r: bool) ensures self@ > 0real ==> r, self@ < 0real ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures !r { unimplemented!() }
    #[verifier::external_body] pub fn total_cmp(&self, o: &R) -> (r: core::cmp::Ordering) ensures Some(r) == vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(self, o) { unimplemented!() }
}
