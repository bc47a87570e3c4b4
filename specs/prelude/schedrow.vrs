// Schedule periods and the shared types of interest-rate deals.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Currency { x: u8 }
//@item src/derivatives/basic.rs :: enum Direction => #[derive(Clone, Copy)]
//@item src/derivatives/interestrate/swap.rs :: struct InterestRateSchedulePeriod => #[derive(Clone, Copy)]
// one period of a schedule
pub ghost struct Row { pub s: int, pub e: int, pub pay: int, pub reset: int, pub bal: real }
pub open spec fn row(p: InterestRateSchedulePeriod) -> Row {
    Row { s: p.accrual_start_date@, e: p.accrual_end_date@, pay: p.pay_date@, reset: p.reset_date@, bal: p.balance@ }
}
pub open spec fn rows(s: Seq<InterestRateSchedulePeriod>) -> Seq<Row> { Seq::new(s.len(), |i: int| row(s[i])) }
//@item src/derivatives/forex/basic.rs :: struct CurrencyValue
//@item src/derivatives/interestrate/basic.rs :: enum RateShiftMode
pub open spec fn sgn(d: Direction) -> real { match d { Direction::Buy => 1real, Direction::Sell => 0real - 1real } }
pub proof fn lemma_dur(pv: real, d: real)
    ensures pv != 0real ==> (((0real - d) * 10_000real) / pv) * pv == (0real - d) * 10_000real
{ if pv != 0real { assert((((0real - d) * 10_000real) / pv) * pv == (0real - d) * 10_000real) by (nonlinear_arith) requires pv != 0real; } }
