// The standard normal distribution: contracts discharged against src/math/normal.rs.
pub uninterp spec fn ncdf(x: real) -> real;
pub uninterp spec fn npdf(x: real) -> real;
pub uninterp spec fn nquant(p: real) -> real;
#[verifier::external_body]
pub broadcast proof fn axiom_ncdf(x: real) ensures 0real < #[trigger] ncdf(x) < 1real, ncdf(0real - x) == 1real - ncdf(x), nquant(ncdf(x)) == x { }
#[verifier::external_body]
pub proof fn axiom_ncdf_mono(x: real, y: real) requires x < y ensures ncdf(x) < ncdf(y) { }
#[verifier::external_body]
pub broadcast proof fn axiom_npdf(x: real) ensures #[trigger] npdf(x) > 0real, npdf(0real - x) == npdf(x) { }
#[verifier::external_body]
pub broadcast proof fn axiom_nquant(p: real) requires 0real < p < 1real ensures ncdf(#[trigger] nquant(p)) == p { }
// statrs::distribution::Normal and its errors
#[verifier::external_body]
#[derive(Debug)]
pub struct NormalError { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Normal { x: u8 }
impl Normal {
    pub uninterp spec fn mean(&self) -> real;
    pub uninterp spec fn sd(&self) -> real;
    #[verifier::external_body]
    pub fn new(m: R, s: R) -> (r: core::result::Result<Normal, NormalError>)
        ensures s@ > 0real ==> r is Ok && r->Ok_0.mean() == m@ && r->Ok_0.sd() == s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cdf(&self, x: R) -> (r: R) requires self.sd() > 0real ensures r@ == ncdf((x@ - self.mean()) / self.sd()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pdf(&self, x: R) -> (r: R) requires self.sd() > 0real ensures r@ == npdf((x@ - self.mean()) / self.sd()) / self.sd() { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse_cdf(&self, p: R) -> (r: R) requires self.sd() > 0real, 0real < p@ < 1real ensures r@ == self.mean() + self.sd() * nquant(p@) { unimplemented!() }
}
//@fn src/math/normal.rs fn standard
//@spec
    ensures r.mean() == 0real, r.sd() == 1real
//@end
//@fn src/math/normal.rs fn cdf
//@params x
//@spec
    ensures r@ == ncdf(x@)
//@end
//@fn src/math/normal.rs fn pdf
//@params x
//@spec
    ensures r@ == npdf(x@)
//@end
//@fn src/math/normal.rs fn inverse_cdf
//@params p
//@spec
    requires 0real < p@ < 1real
    ensures r@ == nquant(p@)
//@end
