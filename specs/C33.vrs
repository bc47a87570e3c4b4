use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/normal.vrs
//@include prelude/calendar.vrs
//@include prelude/period.vrs
//@include prelude/monthend.vrs
//@include prelude/settlement.vrs
//@include prelude/fxpair.vrs
//@include prelude/sort0.vrs
//@include prelude/fwdpoints.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
#[verifier::external_body]
pub struct FXVolSurface { x: u8 }
//@include prelude/fxmkt.vrs
//@item src/derivatives/forex/option.rs :: enum OptionType => #[derive(Clone, Copy)]
//@item src/derivatives/forex/option.rs :: struct FXVanillaOption
//@item src/derivatives/forex/option.rs :: struct BsContext
pub open spec fn om(o: OptionType) -> real { match o { OptionType::Call => 1real, OptionType::Put => 0real - 1real } }
pub open spec fn dd1(f: real, k: real, v: real) -> real { (rln(f / k) + v / 2real) / rsqrt(v) }
// Black-Scholes on a forward; the discounted intrinsic value without variance
pub open spec fn bs(f: real, k: real, v: real, df: real, o: OptionType) -> real {
    if v <= 0real { df * rmax(om(o) * (f - k), 0real) }
    else { df * (om(o) * f * ncdf(om(o) * dd1(f, k, v)) - om(o) * k * ncdf(om(o) * (dd1(f, k, v) - rsqrt(v)))) }
}
//@fn src/derivatives/forex/option.rs impl OptionType :: omega => impl OptionType
//@spec
    ensures r@ == om(self)
//@end
proof fn lemma_ratio(f: real, k: real)
    requires f > 0real, k > 0real
    ensures f / k > 0real
{ assert(f / k > 0real) by (nonlinear_arith) requires f > 0real, k > 0real; }
//@fn src/derivatives/forex/option.rs fn black_scholes
//@params f, k, v, df, o
//@spec
    requires f@ > 0real, k@ > 0real
    ensures r@ == bs(f@, k@, v@, df@, o)
//@entry
    broadcast use axiom_sqrt;
    proof { lemma_ratio(f@, k@); }
//@end
proof fn put_call_parity(f: real, k: real, v: real, df: real)
    ensures bs(f, k, v, df, OptionType::Call) - bs(f, k, v, df, OptionType::Put) == df * (f - k)
{
    if v > 0real {
        let (a, b) = (dd1(f, k, v), dd1(f, k, v) - rsqrt(v));
        axiom_ncdf(a); axiom_ncdf(b);
        let (p, q) = (ncdf(a), ncdf(b));
        assert((0real - 1real) * a == 0real - a && (0real - 1real) * b == 0real - b && 1real * a == a && 1real * b == b);
        let (x, y) = (f * p - k * q, (0real - f) * (1real - p) + k * (1real - q));
        assert(1real * f * p - 1real * k * q == x);
        assert((0real - 1real) * f * (1real - p) - (0real - 1real) * k * (1real - q) == y) by (nonlinear_arith) requires y == (0real - f) * (1real - p) + k * (1real - q);
        assert(x - y == f - k) by (nonlinear_arith) requires x == f * p - k * q, y == (0real - f) * (1real - p) + k * (1real - q);
        assert(df * x - df * y == df * (x - y)) by (nonlinear_arith);
    } else {
        assert((0real - 1real) * (f - k) == k - f);
        assert(df * rmax(f - k, 0real) - df * rmax(k - f, 0real) == df * (f - k)) by (nonlinear_arith)
            requires rmax(f - k, 0real) - rmax(k - f, 0real) == f - k;
    }
}
impl FXVanillaOption {
    pub open spec fn at(&self) -> int { self.basic_info.expiry_date@ }
    pub open spec fn frn_notional(&self) -> bool { self.notional_currency == frn(self.asset) }
    pub open spec fn yf(&self, m: FxMarketContext) -> real { yf365(m.valuation_date@, self.at()) }
    pub open spec fn var(&self, m: FxMarketContext) -> real { self.volatility@ * self.volatility@ * self.yf(m) }
    pub open spec fn df(&self, m: FxMarketContext) -> real { m.domestic_curve.disc(self.at()) }
    pub open spec fn sign(&self) -> real { sgn(self.basic_info.direction) }
    // what one unit of notional is divided by to become one unit of foreign currency in domestic value
    pub open spec fn per(&self, m: FxMarketContext) -> real { if self.frn_notional() { m.spot@ } else { self.strike@ } }
    pub open spec fn ok(&self, m: FxMarketContext) -> bool {
        &&& m.ok(self.asset, self.at()) && fin(m.valuation_date@) && m.valuation_date == m.forwards.valuation_date
        &&& self.strike@ > 0real && self.volatility@ != 0real && m.spot@ != 0real
        &&& forall|f: real| #[trigger] m.fwd(self.asset, self.at(), f) ==> f > 0real
    }
    pub open spec fn d1(&self, m: FxMarketContext, f: real) -> real { dd1(f, self.strike@, self.var(m)) }
    pub open spec fn value(&self, m: FxMarketContext, f: real) -> real {
        (0real - self.sign()) * self.notional_amounts@ * bs(f, self.strike@, self.var(m), self.df(m), self.option_type) / self.per(m)
    }
    pub open spec fn delta_of(&self, m: FxMarketContext, f: real) -> real {
        self.notional_amounts@ * self.sign() * (om(self.option_type) * ncdf(om(self.option_type) * self.d1(m, f)))
    }
    pub open spec fn gamma_of(&self, m: FxMarketContext, f: real) -> real {
        self.notional_amounts@ * self.sign() * (self.df(m) * npdf(self.d1(m, f)) / (f * rsqrt(self.var(m))))
    }
    // per 1% of volatility
    pub open spec fn vega_of(&self, m: FxMarketContext, f: real) -> real {
        self.sign() * (self.notional_amounts@ / self.per(m)) * (self.df(m) * f * npdf(self.d1(m, f)) * rsqrt(self.yf(m))) / 100real
    }
}
proof fn lemma_pos(x: real, y: real) requires x > 0real, y > 0real ensures x * y > 0real { assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real; }
proof fn lemma_inside(h: FXForwardHelper, c: Cal, t: int) requires h.inside(c, t) ensures h.valuation_date@ < t { }
proof fn lemma_var(v: real, y: real)
    requires v != 0real, y > 0real
    ensures v * v * y > 0real, rsqrt(v * v * y) > 0real, rsqrt(v * v * y) * rsqrt(v * v * y) == v * v * y
{
    broadcast use axiom_sqrt;
    let w = v * v;
    assert(w > 0real) by (nonlinear_arith) requires v != 0real, w == v * v;
    assert(w * y > 0real) by (nonlinear_arith) requires w > 0real, y > 0real;
}
//@fn src/derivatives/forex/option.rs impl FXVanillaOption :: bs_context => impl FXVanillaOption
//@params m
//@spec
    requires self.ok(*m)
    ensures match r {
        Err(_) => m.quoted(self.asset, self.at(), false),
        Ok(x) => m.quoted(self.asset, self.at(), true) && m.fwd(self.asset, self.at(), x.forward@) && x.spot == m.spot && x.strike == self.strike
            && x.year_fraction@ == self.yf(*m) && x.discount@ == self.df(*m) && x.sqrt_v@ == rsqrt(self.var(*m)) && x.d1@ == self.d1(*m, x.forward@)
            && x.forward@ > 0real && x.year_fraction@ > 0real && x.sqrt_v@ > 0real && x.sqrt_v@ * x.sqrt_v@ == self.var(*m) && self.var(*m) > 0real,
    }
//@entry
    hide(FXForwardHelper::points); hide(FXForwardHelper::inside); hide(FXForwardHelper::ok); hide(YieldTermStructure::ok); hide(YieldTermStructure::disc); hide(frn); hide(dom); hide(pair_biz);
    proof { lemma_fin(m.valuation_date@); lemma_fin(self.at()); }
//@site year_fraction
    proof { assert(m.fwd(self.asset, self.at(), forward@)); lemma_inside(m.forwards, calendar, self.at()); lemma_ratio(forward@, self.strike@); lemma_var(self.volatility@, self.yf(*m)); }
//@end
//@fn src/derivatives/forex/option.rs impl FXVanillaOption :: direction_sign => impl FXVanillaOption
//@spec
    ensures r@ == self.sign()
//@end
//@fn src/derivatives/forex/option.rs impl FXDerivatives for FXVanillaOption :: mtm => impl FXVanillaOption
//@params m
//@spec
    requires self.ok(*m)
    ensures match r {
        Err(_) => m.quoted(self.asset, self.at(), false),
        Ok(x) => m.quoted(self.asset, self.at(), true) && x.currency == self.notional_currency
            && exists|f: real| #[trigger] m.fwd(self.asset, self.at(), f) && x.value@ == self.value(*m, f),
    }
//@end
//@fn src/derivatives/forex/option.rs impl FXDerivatives for FXVanillaOption :: delta => impl FXVanillaOption
//@params m
//@spec
    requires self.ok(*m)
    ensures match r {
        Err(_) => m.quoted(self.asset, self.at(), false),
        Ok(x) => m.quoted(self.asset, self.at(), true) && x.currency == frn(self.asset)
            && exists|f: real| #[trigger] m.fwd(self.asset, self.at(), f) && x.value@ == self.delta_of(*m, f),
    }
//@end
//@fn src/derivatives/forex/option.rs impl FXDerivatives for FXVanillaOption :: gamma => impl FXVanillaOption
//@params m
//@spec
    requires self.ok(*m)
    ensures match r {
        Err(_) => m.quoted(self.asset, self.at(), false),
        Ok(x) => m.quoted(self.asset, self.at(), true) && exists|f: real| #[trigger] m.fwd(self.asset, self.at(), f) && x@ == self.gamma_of(*m, f),
    }
//@site pdf
    proof { lemma_pos(ctx.forward@, ctx.sqrt_v@); }
//@end
//@fn src/derivatives/forex/option.rs impl FXDerivatives for FXVanillaOption :: vega => impl FXVanillaOption
//@params m
//@spec
    requires self.ok(*m)
    ensures match r {
        Err(_) => m.quoted(self.asset, self.at(), false),
        Ok(x) => m.quoted(self.asset, self.at(), true) && exists|f: real| #[trigger] m.fwd(self.asset, self.at(), f) && x@ == self.vega_of(*m, f),
    }
//@end
proof fn vacuity_opt(t: FXVanillaOption, m: FxMarketContext, x: real) requires t.ok(m), m.quoted(t.asset, t.at(), true) { axiom_ncdf_mono(x, x + 1real); broadcast use axiom_ncdf; assert(false); }
}
fn main() {}
