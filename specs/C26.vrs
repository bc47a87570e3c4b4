use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/normal.vrs
//@include prelude/calendar.vrs
//@include prelude/period.vrs
//@include prelude/monthend.vrs
//@include prelude/settlement.vrs
//@include prelude/fxpair.vrs
//@include prelude/sort0.vrs
//@include prelude/fwdpoints.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
//@include prelude/fxvol.vrs
//@include prelude/fxsmile.vrs
//@include prelude/fxmkt.vrs
//@type &dyn Calendar => &Cal
// the quote currency's pips in one unit
pub open spec fn per_unit(c: Currency) -> real { if c is JPY { 100real } else { 10000real } }
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: new => impl FxMarketContext
//@params v, spot, pair, d, f, h, s
//@spec
    ensures r.valuation_date == v, r.spot == spot, r.pair == pair, r.domestic_curve == d, r.foreign_curve == f, r.forwards == h, r.vol_surface == s
//@end
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: forward_at => impl FxMarketContext
//@params t, c
//@spec
    requires self.forwards.ok(*c)
    ensures match r {
        Err(_) => !self.forwards.inside(*c, t@),
        Ok(x) => self.forwards.inside(*c, t@) && exists|y: real| #[trigger] self.forwards.points(*c, t@, y) && x@ == self.spot@ + y / per_unit(self.pair.0),
    }
//@entry
    hide(FXForwardHelper::points); hide(FXForwardHelper::inside); hide(FXForwardHelper::ok);
//@end
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: rate_d => impl FxMarketContext
//@params t
//@spec
    requires self.domestic_curve.ok(), fin(t@)
    ensures r is Ok, r->Ok_0@ == self.domestic_curve.zero(t@)
//@end
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: rate_f => impl FxMarketContext
//@params t
//@spec
    requires self.foreign_curve.ok(), fin(t@)
    ensures r is Ok, r->Ok_0@ == self.foreign_curve.zero(t@)
//@end
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: discount_d => impl FxMarketContext
//@params t
//@spec
    requires self.domestic_curve.ok(), fin(t@)
    ensures r is Ok, r->Ok_0@ == self.domestic_curve.disc(t@)
//@end
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: discount_f => impl FxMarketContext
//@params t
//@spec
    requires self.foreign_curve.ok(), fin(t@)
    ensures r is Ok, r->Ok_0@ == self.foreign_curve.disc(t@)
//@end
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: implied_vol => impl FxMarketContext
//@params t, k
//@spec
    requires self.vol_surface.ok(), fin(t@)
    ensures match r { Err(_) => k@ <= 0real || t@ <= self.vol_surface.valuation_date@, Ok(x) => k@ > 0real && t@ > self.vol_surface.valuation_date@ && self.vol_surface.is_vol(t@, k@, x@) }
//@end
// ---- the placeholder surface of linear products
pub open spec fn tenth() -> real { 1real / 10real }
pub open spec fn flat3(q: Seq<FXVolQuote>) -> bool {
    q.len() == 3 && kind(q[0]) == 0 && kind(q[1]) == 2 && kind(q[2]) == 1 && vol_r(q[0])@ == tenth() && vol_r(q[1])@ == tenth() && vol_r(q[2])@ == tenth()
    && delta_r(q[1])@ == 1real / 4real && delta_r(q[2])@ == 1real / 4real
}
pub proof fn lemma_flat_quotes(q: Seq<FXVolQuote>)
    requires flat3(q)
    ensures pillar_ok(q), usable(q), atm_of(q)->0@ == tenth(), forall|z: Seq<DeltaPair>| #[trigger] normal(q, z) ==> flat1(z)
{
    reveal_with_fuel(last_of, 4); reveal_with_fuel(atms, 4);
    assert(quoted(q, 1));
    assert forall|d: real| #[trigger] same(d, 1real / 4real) implies last_of(q, 1, d, 3)->0@ == tenth() && last_of(q, 2, d, 3)->0@ == tenth() && complete(q, d) by { lemma_same(d, 1real / 4real); }
    assert forall|i: int| #[trigger] quoted(q, i) implies valid_delta(delta_r(q[i])@) && complete(q, delta_r(q[i])@) by { assert(same(delta_r(q[i])@, 1real / 4real)); }
    assert forall|z: Seq<DeltaPair>| #[trigger] normal(q, z) implies flat1(z) by {
        assert forall|j: int| 0 <= j < z.len() implies (#[trigger] z[j]).delta@ == 1real / 4real && z[j].call_vol@ == tenth() && z[j].put_vol@ == tenth() by {
            assert(pair_ok(q, atm_of(q)->0@, z[j]));
            let i = choose|i: int| #[trigger] keyed(q, 3, z[j].delta, i);
            assert(same(z[j].delta@, 1real / 4real));
        }
        if z.len() > 1 { assert(z[0].delta@ < z[1].delta@); }
    }
}
pub open spec fn flat1(z: Seq<DeltaPair>) -> bool { z.len() == 1 && z[0].delta@ == 1real / 4real && z[0].call_vol@ == tenth() && z[0].put_vol@ == tenth() }
// its strikes rise
pub proof fn lemma_flat_rise(z: Seq<DeltaPair>, f: real, t: real)
    requires flat1(z), f > 0real, t > 0real
    ensures strikes_rise(z, tenth(), f, t)
{
    broadcast use axiom_sqrt, axiom_exp;
    let (u, l) = (nquant(1real / 4real), nquant(3real / 4real));
    axiom_ncdf(0real); axiom_nquant(1real / 4real); axiom_nquant(3real / 4real);
    if u >= 0real { if u > 0real { axiom_ncdf_mono(0real, u); } }
    if l <= 0real { if l < 0real { axiom_ncdf_mono(l, 0real); } }
    let (w, m) = (rsqrt(t), tenth() * tenth() * t / 2real);
    let (a, b) = (u * tenth() * w, l * tenth() * w);
    assert(a < 0real) by (nonlinear_arith) requires a == u * tenth() * w, tenth() == 1real / 10real, w > 0real, u < 0real;
    assert(b > 0real) by (nonlinear_arith) requires b == l * tenth() * w, tenth() == 1real / 10real, w > 0real, l > 0real;
    axiom_exp_mono(m - b, m); axiom_exp_mono(m, m - a);
    assert(f * rexp(m - b) < f * rexp(m)) by (nonlinear_arith) requires f > 0real, rexp(m - b) < rexp(m);
    assert(f * rexp(m) < f * rexp(m - a)) by (nonlinear_arith) requires f > 0real, rexp(m) < rexp(m - a);
    assert(1real - 1real / 4real == 3real / 4real);
}
// and its smile is flat
pub proof fn lemma_flat(s: SmileSection, z: Seq<DeltaPair>, k: real)
    requires flat1(z), shape(s, z, tenth()), k > 0real
    ensures s.vol(k) == tenth()
{
    let (f, t) = (s.forward@, s.year_fraction@);
    let g = |j: int| strike_at(z, tenth(), f, t, j);
    lemma_kdelta(1real - z[0].delta@, z[0].put_vol@, f, t); lemma_kdelta(z[0].delta@, z[0].call_vol@, f, t);
    lemma_rise(z, tenth(), f, t, 0, 1); lemma_rise(z, tenth(), f, t, 1, 2); lemma_rise(z, tenth(), f, t, 0, 2);
    lemma_x_mono(f, s.sigma_ref@, t, g(0), g(1)); lemma_x_mono(f, s.sigma_ref@, t, g(1), g(2)); lemma_x_mono(f, s.sigma_ref@, t, g(0), g(2));
    assert(at_quote(s, z, tenth(), 0) && at_quote(s, z, tenth(), 1) && at_quote(s, z, tenth(), 2));
    lemma_level(s.a@, s.b@, s.c@, s.x(g(0)), s.x(g(1)), s.x(g(2)), tenth(), s.x(k));
    lemma_zero_line(s.a_knots@, rln(k / f));
}
pub proof fn lemma_nil(w: real) ensures w * (0real - 0real) == 0real { assert(w * (0real - 0real) == 0real) by (nonlinear_arith); }
pub proof fn lemma_zero_line(k: Seq<(R, R)>, x: real)
    requires k.len() == 3, k[0].1@ == 0real, k[1].1@ == 0real, k[2].1@ == 0real
    ensures linear(k, x) == 0real
{
    reveal_with_fuel(seg, 4);
    lemma_nil((x - k[0].0@) / (k[1].0@ - k[0].0@)); lemma_nil((x - k[1].0@) / (k[2].0@ - k[1].0@));
}
pub proof fn lemma_factor(a: real, b: real, c: real, x: real, y: real)
    requires x != y, poly(a, b, c, x) == poly(a, b, c, y)
    ensures a * (x + y) + b == 0real
{
    let (q, m, p, z) = (a * (x + y) + b, x - y, x + y, 0real - y);
    lemma_term(a, y, z, x); lemma_assoc(a, x, x); lemma_assoc(a, y, y);
    assert(x - z == p && y + z == 0real);
    assert((a * m) * p == (a * p) * m) by (nonlinear_arith);
    let yy = y * y;
    assert(y * z == 0real - yy) by (nonlinear_arith) requires z == 0real - y, yy == y * y;
    assert(a * (0real - yy) == 0real - a * yy && (a * 0real) * x == 0real) by (nonlinear_arith);
    lemma_minus(x, y, b); lemma_minus(a * p, b, m);
    assert(q * m == 0real);
    assert(q == 0real) by (nonlinear_arith) requires q * m == 0real, m != 0real;
}
// a parabola with one value at three places is constant
pub proof fn lemma_level(a: real, b: real, c: real, x0: real, x1: real, x2: real, v: real, x: real)
    requires x0 != x1, x1 != x2, x0 != x2, poly(a, b, c, x0) == v, poly(a, b, c, x1) == v, poly(a, b, c, x2) == v
    ensures poly(a, b, c, x) == v
{
    lemma_factor(a, b, c, x0, x1); lemma_factor(a, b, c, x1, x2);
    assert(a == 0real) by (nonlinear_arith) requires a * (x0 + x1) + b == 0real, a * (x1 + x2) + b == 0real, x0 != x2;
    assert(b == 0real) by (nonlinear_arith) requires a * (x0 + x1) + b == 0real, a == 0real;
    assert(a * x * x == 0real && b * x == 0real && a * x0 * x0 == 0real && b * x0 == 0real) by (nonlinear_arith) requires a == 0real, b == 0real;
}
pub open spec fn flat_surface(s: FXVolSurface) -> bool { forall|t: int, k: real, x: real| #[trigger] s.is_vol(t, k, x) && k > 0real ==> x == tenth() }
pub open spec fn flat_pillar(p: FXDeltaVolPillar) -> bool { flat3(p.quotes@) && p.forward@ > 0real }
pub open spec fn flat_smile(s: SmileSection) -> bool { forall|k: real| k > 0real ==> #[trigger] s.vol(k) == tenth() }
pub proof fn lemma_placeholder(v: int)
    ensures forall|q: Seq<FXVolQuote>| flat3(q) ==> #[trigger] pillar_ok(q),
        forall|p: FXDeltaVolPillar, y: real| flat_pillar(p) && y > 0real ==> !#[trigger] refused(p, y),
        forall|s: SmileSection, p: FXDeltaVolPillar, y: real| flat_pillar(p) && #[trigger] fits(s, p, y) ==> flat_smile(s),
        forall|x: FXVolSurface, p: Seq<FXDeltaVolPillar>| #[trigger] made_of(x, p, v) && p.len() == 1 && flat_pillar(p[0]) ==> flat_surface(x),
{
    assert forall|q: Seq<FXVolQuote>| flat3(q) implies #[trigger] pillar_ok(q) by { lemma_flat_quotes(q); }
    assert forall|p: FXDeltaVolPillar, y: real| flat_pillar(p) && y > 0real implies !#[trigger] refused(p, y) by {
        let q = p.quotes@;
        lemma_flat_quotes(q);
        assert forall|z: Seq<DeltaPair>| #[trigger] normal(q, z) implies strikes_rise(z, atm_of(q)->0@, p.forward@, y) by { lemma_flat_rise(z, p.forward@, y); }
    }
    assert forall|s: SmileSection, p: FXDeltaVolPillar, y: real| flat_pillar(p) && #[trigger] fits(s, p, y) implies flat_smile(s) by {
        let q = p.quotes@;
        lemma_flat_quotes(q);
        let z = choose|z: Seq<DeltaPair>| #[trigger] normal(q, z) && shape(s, z, atm_of(q)->0@);
        assert(shape(s, z, tenth()) && flat1(z));
        assert forall|k: real| k > 0real implies #[trigger] s.vol(k) == tenth() by { lemma_flat(s, z, k); }
    }
    assert forall|x: FXVolSurface, p: Seq<FXDeltaVolPillar>| #[trigger] made_of(x, p, v) && p.len() == 1 && flat_pillar(p[0]) implies flat_surface(x) by {
        assert(sourced(x.smiles@, p, v, 0));
        let i = choose|i: int| #[trigger] fits_at(x.smiles@, p, v, i, 0);
        assert(i == 0 && fits(x.smiles@[0], p[0], yf365(v, p[0].expiry@)));
        assert(flat_smile(x.smiles@[0]));
        assert forall|t: int, k: real, y: real| #[trigger] x.is_vol(t, k, y) && k > 0real implies y == tenth() by { assert(y == x.smiles@[0].vol(k)); }
    }
}
//@fn src/markets/forex/market_context.rs fn trivial_vol_surface
//@params v
//@spec
    requires fin(v@), fin(v@ + 365)
    ensures r is Ok, r->Ok_0.ok(), r->Ok_0.valuation_date == v, flat_surface(r->Ok_0)
//@entry
    hide(usable); hide(normal); hide(pillar_ok); hide(refused); hide(fits); hide(SmileSection::vol); hide(FXVolSurface::ok);
    proof { lemma_placeholder(v@); }
//@end
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: for_linear => impl FxMarketContext
//@params v, spot, pair, d, f, h
//@spec
    requires fin(v@), fin(v@ + 365)
    ensures r is Ok, r->Ok_0.valuation_date == v, r->Ok_0.spot == spot, r->Ok_0.pair == pair, r->Ok_0.domestic_curve == d, r->Ok_0.foreign_curve == f, r->Ok_0.forwards == h,
        r->Ok_0.vol_surface.ok(), r->Ok_0.vol_surface.valuation_date == v, flat_surface(r->Ok_0.vol_surface)
//@end
//@fn src/markets/termstructures/yieldcurve.rs impl YieldTermStructure :: new => impl YieldTermStructure
//@params c, dc, v, s
//@spec
    ensures r.calendar == c, r.day_counter == dc, r.valuation_date == v, r.stripped_curves == s
//@end
#[verifier::external_body]
pub struct YieldTermMarketData { x: u8 }
// the pillars bootstrapped from market data, if they can be
pub uninterp spec fn stripped(m: YieldTermMarketData) -> Option<Seq<StrippedCurve>>;
impl YieldTermMarketData {
    #[verifier::external_body]
    pub fn get_stripped_curve(&self) -> (r: Result<Vec<StrippedCurve>>) ensures match r { Err(_) => stripped(*self) is None, Ok(x) => stripped(*self) == Some(x@) } { unimplemented!() }
}
//@fn src/markets/forex/market_context.rs impl FxMarketContext :: from_raw_quotes => impl FxMarketContext
//@params v, spot, pair, d, f, fq, p, dcal, fcal, ddc, fdc
//@spec
    requires fin(v@), pillars_ok(p@)
    ensures match r {
        Err(_) => stripped(d) is None || stripped(f) is None || p.len() == 0 || exists|i: int| 0 <= i < p.len() && refused(#[trigger] p@[i], yf365(v@, p@[i].expiry@)),
        Ok(x) => x.valuation_date == v && x.spot == spot && x.pair == pair && x.vol_surface.ok() && x.vol_surface.valuation_date == v && made_of(x.vol_surface, p@, v@)
            && x.domestic_curve.valuation_date == v && stripped(d) == Some(x.domestic_curve.stripped_curves@) && x.domestic_curve.calendar == dcal && x.domestic_curve.day_counter == ddc
            && x.foreign_curve.valuation_date == v && stripped(f) == Some(x.foreign_curve.stripped_curves@) && x.foreign_curve.calendar == fcal && x.foreign_curve.day_counter == fdc
            && x.forwards.valuation_date == v && x.forwards.spot_ref == spot && x.forwards.spot_lag == 2 && x.forwards.quotes == fq,
    }
//@entry
    hide(usable); hide(normal); hide(pillar_ok); hide(refused); hide(fits); hide(SmileSection::vol); hide(FXVolSurface::ok);
//@end
proof fn vacuity_market(m: FxMarketContext, c: Cal, t: int, x: FXVolSurface, p: Seq<FXDeltaVolPillar>, v: int)
    requires m.forwards.ok(c), m.forwards.inside(c, t), m.domestic_curve.ok(), m.foreign_curve.ok(), m.vol_surface.ok(), fin(t), fin(t + 365), flat_surface(x), made_of(x, p, v), p.len() == 1, flat_pillar(p[0])
{ lemma_placeholder(v); lemma_flat_quotes(p[0].quotes@); assert(false); }
}
fn main() {}
