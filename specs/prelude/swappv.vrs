//@include swapnpv.vrs
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwap :: pv_under_shift => impl InterestRateSwap
//@params v, y, sh
//@spec
    requires y.ok(), self.pv_ok(v@)
    ensures r is Ok, r->Ok_0@ == self.value(*y, sh@, v@)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.legs.len(), __s0@ == self.legs@, self.pv_ok(v@), y.ok(), valuation_date == v, yts == y, rate_shift_bp == sh,
        total_npv@ == self.total(*y, sh@, v@, __k0 as int),
    decreases __n0 - __k0
//@loop 0 begin
    let ghost base = total_npv@;
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == schedule.len(), __s1@ == schedule@, rows(schedule@) =~= leg.rows(v@), leg.pv_ok(v@), y.ok(), yts == y, rate_shift_bp == sh,
        total_npv@ == base + leg.pv(*y, sh@, leg.rows(v@), __k1 as int), direction_sign@ == sgn(leg.direction),
    decreases __n1 - __k1
//@loop 1 begin
    proof {
        let w = row(schedule@[__k1 as int]);
        assert(rows(schedule@)[__k1 as int] == w); assert(leg.row_ok(leg.rows(v@)[__k1 as int]));
        lemma_disc_pos(*y, w.e, sh@);
    }
//@loop 1 after
    proof {
        let n = schedule.len() as int;
        if n > 0 { assert(rows(schedule@)[n - 1] == row(schedule@[n - 1])); assert(leg.row_ok(leg.rows(v@)[n - 1])); }
    }
//@end
// ---- greeks
#[verifier::external_body]
pub struct IRNormalVolSurface { x: u8 }
//@include irmarket.vrs
impl InterestRateSwap {
    pub open spec fn mv(&self, m: IrMarketContext, s: real) -> real { self.value(m.curve, s, m.valuation_date@) }
    pub open spec fn m_ok(&self, m: IrMarketContext) -> bool { m.curve.ok() && self.pv_ok(m.valuation_date@) }
}
//@fn src/derivatives/interestrate/swap.rs impl InterestRateSwap :: currency => impl InterestRateSwap
//@flags opt-combinators
//@spec
    ensures self.legs.len() > 0 ==> r is Ok && r->Ok_0 == self.legs@[0].interest_rate_index.currency,
        self.legs.len() == 0 ==> r is Err
//@end
//@fn src/derivatives/interestrate/swap.rs impl IRDerivatives for InterestRateSwap :: mtm => impl InterestRateSwap
//@params m
//@spec
    requires self.m_ok(*m)
    ensures self.legs.len() > 0 ==> r is Ok && r->Ok_0.value@ == self.mv(*m, 0real) && r->Ok_0.currency == self.legs@[0].interest_rate_index.currency,
        self.legs.len() == 0 ==> r is Err
//@end
//@fn src/derivatives/interestrate/swap.rs impl IRDerivatives for InterestRateSwap :: dv01 => impl InterestRateSwap
//@params m
//@spec
    requires self.m_ok(*m)
    ensures r is Ok, r->Ok_0@ == self.mv(*m, 1real) - self.mv(*m, 0real)
//@end
//@fn src/derivatives/interestrate/swap.rs impl IRDerivatives for InterestRateSwap :: gamma => impl InterestRateSwap
//@params m, s, mode
//@spec
    requires self.m_ok(*m)
    ensures mode is Zeros ==> r is Ok && r->Ok_0@ == self.mv(*m, s@) + self.mv(*m, 0real - s@) - 2real * self.mv(*m, 0real),
        !(mode is Zeros) ==> r is Err
//@end
//@fn src/derivatives/interestrate/swap.rs impl IRDerivatives for InterestRateSwap :: vega => impl InterestRateSwap
//@params m, s
//@spec
    ensures r is Ok, r->Ok_0@ == 0real
//@end
//@fn src/derivatives/interestrate/basic.rs trait IRDerivatives :: modified_duration => impl InterestRateSwap
//@params m
//@spec
    requires self.m_ok(*m)
    ensures self.legs.len() == 0 ==> r is Err,
        self.legs.len() > 0 ==> r is Ok && ({ let pv = self.mv(*m, 0real);
            if rabs(pv) < 1real / 1_000_000_000_000real { r->Ok_0@ == 0real } else { r->Ok_0@ * pv == (0real - (self.mv(*m, 1real) - pv)) * 10_000real } })
//@entry
    proof { lemma_dur(self.mv(*m, 0real), self.mv(*m, 1real) - self.mv(*m, 0real)); }
//@end
