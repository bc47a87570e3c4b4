// The abstract day counter: any counter whose fraction and count are functions of the two dates
// (the counters themselves are C11-C13).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Dcc { x: u8 }
pub uninterp spec fn yfd(c: Dcc, a: int, b: int) -> real;
pub uninterp spec fn dcd(c: Dcc, a: int, b: int) -> int;
impl Dcc {
    #[verifier::external_body]
    pub fn year_fraction(&self, a: NaiveDate, b: NaiveDate) -> (r: Result<R>) ensures r is Ok, r->Ok_0@ == yfd(*self, a@, b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn day_count(&self, a: NaiveDate, b: NaiveDate) -> (r: Result<i64>) ensures r is Ok, r->Ok_0 == dcd(*self, a@, b@) { unimplemented!() }
}
