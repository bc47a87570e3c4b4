// Calendar::advance as a callee: the contract proved against its body in C02 (and that the result is unique).
//@include advance.vrs
impl Cal {
    #[verifier::external_body]
    pub fn advance(&self, date: NaiveDate, period: Period, bdc: BusinessDayConvention, end_of_month: Option<bool>) -> (r: Result<Option<NaiveDate>>)
        requires room(*self, date@, period)
        ensures r is Ok, r->Ok_0 is Some, r->Ok_0->0@ == adv(*self, date@, period, bdc, end_of_month == Some(true)),
            advanced(*self, date@, period, bdc, end_of_month == Some(true), r->Ok_0->0@)
    { unimplemented!() }
}
