//@item src/models/common/cir.rs :: struct CirProcess
impl Copy for CirProcess { }
impl Clone for CirProcess { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// E[sqrt(variance at t)]: proved in C43, here a function of the process and the time
impl CirProcess {
    pub uninterp spec fn phi_s(&self, t: real) -> real;
    #[verifier::external_body]
    pub fn sqrt_mean(&self, t: R) -> (r: R) requires self.kappa@ > 0real ensures r@ == self.phi_s(t@) { unimplemented!() }
}
pub open spec fn iu_s(u: CV) -> CV { cmul(ci(), u) }
// u^2 + iu = -(B^2 - B) for B = iu
pub open spec fn u2iu(u: CV) -> CV { cadd(cmul(u, u), iu_s(u)) }
// Heston's C with B = iu over the elapsed time tau
pub open spec fn hx(u: CV, kappa: real, gamma: real, rho: real) -> CV { csub(cv(kappa, 0real), cmul(cmul(cv(gamma, 0real), cv(rho, 0real)), iu_s(u))) }
pub open spec fn hd(u: CV, kappa: real, gamma: real, rho: real) -> CV {
    let x = hx(u, kappa, gamma, rho);
    csqrt(csub(cmul(x, x), cmul(cmul(cmul(cv(gamma, 0real), cv(gamma, 0real)), iu_s(u)), csub(iu_s(u), c1()))))
}
pub open spec fn heston_c_s(u: CV, kappa: real, gamma: real, rho: real, tau: real) -> CV {
    let (x, d) = (hx(u, kappa, gamma, rho), hd(u, kappa, gamma, rho));
    let e = cexp(cscale(tau, cneg(d)));
    if tau <= 0real { c0() } else { cdiv(cmul(csub(cmul(iu_s(u), iu_s(u)), iu_s(u)), csub(c1(), e)), csub(cadd(x, d), cmul(csub(x, d), e))) }
}
// weights of composite Simpson on n intervals
pub open spec fn simpson_w(k: int, n: int) -> real { if k == 0 || k == n { 1real } else if k % 2 == 1 { 4real } else { 2real } }
