// IMM as a callee: the contracts proved against its bodies in C14.
pub struct IMM;
#[verifier::external_body]
pub struct Text { x: u8 }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Text {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn third_wed(y: int, m: int) -> int { let f = wd(dfc(y, m, 1)); dfc(y, m, 15) + (if f <= 2 { 2 - f } else { 9 - f }) }
pub uninterp spec fn imm_code_ok(t: Seq<char>) -> bool;
pub uninterp spec fn imm_resolved(t: Seq<char>, v: int) -> int;
impl IMM {
    #[verifier::external_body]
    pub fn date(&self, code: Text, v: Option<NaiveDate>) -> (r: Option<NaiveDate>)
        requires v is Some ==> 1910 <= year(v->0@) < 180_000
        ensures r is Some == imm_code_ok(code@), r is Some && v is Some ==> r->0@ == imm_resolved(code@, v->0@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_date(&self, d: NaiveDate, main: bool) -> (r: NaiveDate)
        requires -190_000 < year(d@) < 190_000
        ensures !main && day(d@) == 1 ==> r@ == third_wed(year(d@), month(d@))
    { unimplemented!() }
}
