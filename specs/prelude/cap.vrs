// Caps and floors: contracts discharged against src/derivatives/interestrate/cap.rs
//@include caplet.vrs
//@item src/derivatives/interestrate/cap.rs :: struct CapletMarket
//@item src/derivatives/interestrate/cap.rs :: struct CapFloor
impl CapFloor {
    pub open spec fn tau(&self, w: Row) -> real { yfd(self.accrual_day_counter, w.s, w.e) }
    pub open spec fn sigma(&self, vs: IRNormalVolSurface, vb: real, w: Row) -> real { vs.vol(w.s, self.strike@) + vb / 10000real }
    pub open spec fn var(&self, vs: IRNormalVolSurface, vb: real, w: Row) -> real {
        tvar(self.style, self.sigma(vs, vb, w), yf365(self.valuation_date@, w.s), yf365(self.valuation_date@, w.e))
    }
    pub open spec fn one(&self, y: YieldTermStructure, vs: IRNormalVolSurface, sh: real, vb: real, w: Row) -> real {
        sgn(self.basic_info.direction) * self.notional@ * self.tau(w) * y.disc_s(w.pay, sh) * b_opt(self.kind, fwd1(y, sh, w, self.tau(w)), self.strike@, self.var(vs, vb, w))
    }
    pub open spec fn pv(&self, y: YieldTermStructure, vs: IRNormalVolSurface, sh: real, vb: real, n: int) -> real decreases n {
        if n <= 0 { 0real } else { self.pv(y, vs, sh, vb, n - 1) + self.one(y, vs, sh, vb, row(self.schedule@[n - 1])) }
    }
    pub open spec fn value(&self, y: YieldTermStructure, vs: IRNormalVolSurface, sh: real, vb: real) -> real { self.pv(y, vs, sh, vb, self.schedule.len() as int) }
    pub open spec fn row_ok(&self, w: Row) -> bool { fin(w.s) && fin(w.e) && fin(w.pay) && self.tau(w) != 0real }
    pub open spec fn ok(&self) -> bool { fin(self.valuation_date@) && forall|i: int| 0 <= i < self.schedule.len() ==> self.row_ok(row(#[trigger] self.schedule@[i])) }
    // the market can be asked about this deal
    pub open spec fn m_ok(&self, m: IrMarketContext) -> bool { self.ok() && m.curve.ok() && (m.cap_surface is Some ==> m.cap_surface->0.ok()) }
    // it carries a volatility surface, stripped unless the deal has no periods
    pub open spec fn served(&self, m: IrMarketContext) -> bool { m.cap_surface is Some && (self.schedule.len() > 0 ==> m.cap_surface->0.pillars.len() > 0) }
    pub open spec fn mv(&self, m: IrMarketContext, sh: real, vb: real) -> real { self.value(m.curve, m.cap_surface->0, sh, vb) }
}
//@fn src/derivatives/interestrate/cap.rs impl CapFloor :: direction_sign => impl CapFloor
//@spec
    ensures r@ == sgn(self.basic_info.direction)
//@end
//@fn src/derivatives/interestrate/cap.rs impl CapFloor :: caplet_market => impl CapFloor
//@params p, y, vs, sh, vb
//@spec
    requires y.ok(), vs.ok(), fin(self.valuation_date@), self.row_ok(row(*p))
    ensures match r { Err(_) => vs.pillars.len() == 0, Ok(x) => vs.pillars.len() > 0 && ({ let w = row(*p);
        x.tau@ == self.tau(w) && x.df_pay@ == y.disc_s(w.pay, sh@) && x.forward@ == fwd1(*y, sh@, w, self.tau(w)) && x.variance@ == self.var(*vs, vb@, w) }) }
//@entry
    proof { let w = row(*p); lemma_fin(w.s); lemma_fin(w.e); lemma_fin(self.valuation_date@); lemma_disc_pos(*y, w.e, sh@); }
//@end
//@fn src/derivatives/interestrate/cap.rs impl CapFloor :: pv_under_shift => impl CapFloor
//@params y, vs, sh, vb
//@spec
    requires self.ok(), y.ok(), vs.ok()
    ensures match r { Err(_) => self.schedule.len() > 0 && vs.pillars.len() == 0, Ok(x) => (self.schedule.len() > 0 ==> vs.pillars.len() > 0) && x@ == self.value(*y, *vs, sh@, vb@) }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.schedule.len(), __s0@ == self.schedule@, self.ok(), y.ok(), vs.ok(), yts == y, rate_shift_bp == sh, vol_shift_bp == vb,
        __k0 > 0 ==> vs.pillars.len() > 0, pv@ == self.pv(*y, *vs, sh@, vb@, __k0 as int),
    decreases __n0 - __k0
//@loop 0 begin
    proof { assert(self.row_ok(row(self.schedule@[__k0 as int]))); }
//@end
//@fn src/derivatives/interestrate/cap.rs fn unpack
//@params m
//@spec
    ensures match r { Err(_) => m.cap_surface is None, Ok(x) => m.cap_surface is Some && *x.0 == m.curve && *x.1 == m.cap_surface->0 }
//@end
//@fn src/derivatives/interestrate/cap.rs fn ensure_supported_mode
//@params mode
//@spec
    ensures r is Ok <==> mode is Zeros
//@end
//@fn src/derivatives/interestrate/cap.rs impl IRDerivatives for CapFloor :: mtm => impl CapFloor
//@params m
//@spec
    requires self.m_ok(*m)
    ensures match r { Err(_) => !self.served(*m), Ok(x) => self.served(*m) && x.currency == self.currency && x.value@ == self.mv(*m, 0real, 0real) }
//@end
//@fn src/derivatives/interestrate/cap.rs impl IRDerivatives for CapFloor :: dv01 => impl CapFloor
//@params m
//@spec
    requires self.m_ok(*m)
    ensures match r { Err(_) => !self.served(*m), Ok(x) => self.served(*m) && x@ == self.mv(*m, 1real, 0real) - self.mv(*m, 0real, 0real) }
//@end
//@fn src/derivatives/interestrate/cap.rs impl IRDerivatives for CapFloor :: gamma => impl CapFloor
//@params m, s, mode
//@spec
    requires self.m_ok(*m)
    ensures match r { Err(_) => !(mode is Zeros) || !self.served(*m), Ok(x) => mode is Zeros && self.served(*m)
        && x@ == self.mv(*m, s@, 0real) + self.mv(*m, 0real - s@, 0real) - 2real * self.mv(*m, 0real, 0real) }
//@end
//@fn src/derivatives/interestrate/cap.rs impl IRDerivatives for CapFloor :: vega => impl CapFloor
//@params m, s
//@spec
    requires self.m_ok(*m)
    ensures match r { Err(_) => !self.served(*m), Ok(x) => self.served(*m) && x@ == self.mv(*m, 0real, s@) - self.mv(*m, 0real, 0real) }
//@end
//@fn src/derivatives/interestrate/basic.rs trait IRDerivatives :: modified_duration => impl CapFloor
//@params m
//@spec
    requires self.m_ok(*m)
    ensures match r { Err(_) => !self.served(*m), Ok(x) => self.served(*m) && ({ let pv = self.mv(*m, 0real, 0real);
        if rabs(pv) < 1real / 1_000_000_000_000real { x@ == 0real } else { x@ * pv == (0real - (self.mv(*m, 1real, 0real) - pv)) * 10_000real } }) }
//@entry
    proof { lemma_dur(self.mv(*m, 0real, 0real), self.mv(*m, 1real, 0real) - self.mv(*m, 0real, 0real)); }
//@end
