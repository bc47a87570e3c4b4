use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/calendar.vrs
//@type &dyn Calendar => &Cal
//@include prelude/period.vrs
//@include prelude/monthend.vrs
//@include prelude/settlement.vrs
//@include prelude/fxpair.vrs
// seconds after midnight UTC from which trades belong to the next business day
pub open spec fn cutoff(p: FXUnderlying) -> int {
    if p is USDCAD || p is USDMXN { 61200 } else if p is USDTRY { 32400 } else if p is USDRUB { 34200 } else { 79200 }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NaiveTime { pub s: u32, pub ns: u32 }
impl NaiveTime {
    #[verifier::external_body]
    pub fn from_hms_opt(h: u32, m: u32, s: u32) -> (r: Option<NaiveTime>)
        ensures h < 24 && m < 60 && s < 60 ==> r == Some(NaiveTime { s: (3600 * h + 60 * m + s) as u32, ns: 0 })
    { unimplemented!() }
}
impl core::cmp::PartialOrd<NaiveTime> for NaiveTime {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &NaiveTime) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<NaiveTime> for NaiveTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &NaiveTime) -> Option<core::cmp::Ordering> {
        if self.s < o.s || (self.s == o.s && self.ns < o.ns) { Some(core::cmp::Ordering::Less) } else if self.s == o.s && self.ns == o.ns { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: cutoff_utc => impl FXUnderlying
//@spec
    ensures r.s == cutoff(*self), r.ns == 0
//@end
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: effective_valuation_date => impl FXUnderlying
//@params valuation_date, market_data_time
//@spec
    requires pair_live(*self), DMIN + 20_000_000 <= valuation_date@ <= DMAX - 20_000_000
    ensures market_data_time.s < cutoff(*self) ==> r@ == valuation_date@,
        market_data_time.s >= cutoff(*self) ==> r@ > valuation_date@ && pair_biz(*self, r@) && forall|k: int| valuation_date@ < k < r@ ==> !#[trigger] pair_biz(*self, k),
//@loop 0
    invariant is_pair_cal(cal, *self), live(cal, valuation_date@ + 1), valuation_date@ < next@ <= valuation_date@ + 101,
        forall|k: int| valuation_date@ < k < next@ ==> !#[trigger] pair_biz(*self, k),
    decreases valuation_date@ + 101 - next@
//@loop 0 begin
    let ghost hi = choose|k: int| valuation_date@ + 1 <= k <= valuation_date@ + 1 + 100 && #[trigger] biz(cal, k);
    assert(biz(cal, hi) == pair_biz(*self, hi));
//@end
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: settlement_date => impl FXUnderlying
//@params period, valuation_date
//@spec
    requires pair_live(*self), forall|c: Cal| #[trigger] is_pair_cal(c, *self) ==> settle_room(c, valuation_date@, period, spot_lag(*self))
    ensures r is Ok, exists|c: Cal| #[trigger] is_pair_cal(c, *self) && settled(c, valuation_date@, period, spot_lag(*self), r->Ok_0@)
//@end
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: near_date => impl FXUnderlying
//@params period, valuation_date
//@spec
    requires pair_live(*self), DMIN + 20_000_000 <= valuation_date@ <= DMAX - 20_000_000
    ensures r is Ok,
        match near_base(valuation_date@, period, spot_lag(*self)) {
            None => r->Ok_0 is None,
            Some(b) => r->Ok_0 is Some && exists|c: Cal| #[trigger] is_pair_cal(c, *self) && is_next(c, b, r->Ok_0->0@),
        }
//@end
// every date the pair's settlement rule yields is a business day in both countries
proof fn pair_settlement_is_good_in_both(p: FXUnderlying, c: Cal, v: int, t: Period, r: int)
    requires is_pair_cal(c, p), settled(c, v, t, spot_lag(p), r)
    ensures home_biz(home_of(dom(p)), r), home_biz(home_of(frn(p)), r)
{ assert(biz(c, r) == pair_biz(p, r)); }
proof fn vacuity_pair(p: FXUnderlying, c: Cal) requires pair_live(p), is_pair_cal(c, p) { assert(false); }
}
fn main() {}
