use vstd::prelude::*;
verus! {
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/calendar.vrs
//@type &dyn Calendar => &Cal
//@include prelude/period.vrs
//@include prelude/monthend.vrs
//@include prelude/settlement.vrs
// consequences a user relies on
proof fn settlement_is_a_business_day(c: Cal, v: int, p: Period, lag: int, r: int)
    requires settled(c, v, p, lag, r)
    ensures biz(c, r)
{ }
// the date never rolls out of the month of the unadjusted date while that month has a later-or-equal business day,
// and is capped at the month's last business day otherwise
proof fn settlement_stays_in_month(c: Cal, v: int, p: Period, lag: int, r: int, b: int)
    requires settled(c, v, p, lag, r), biz(c, b), b <= month_last(unadjusted(v, p, lag)), b >= unadjusted(v, p, lag)
    ensures r <= b, month_first(unadjusted(v, p, lag)) <= r <= month_last(unadjusted(v, p, lag))
{
    let u = unadjusted(v, p, lag);
    broadcast use axiom_civil;
    assert(month_first(u) <= u) by { lemma_month_last(u); }
}
proof fn pre_spot_legs_chain(v: int, lag: int)
    requires lag == 2
    ensures near_base(v, Period::ON, lag) == Some(v), unadjusted(v, Period::ON, lag) == v + 1,
        near_base(v, Period::TN, lag) == Some(v + 1), unadjusted(v, Period::TN, lag) == v + 2,
        near_base(v, Period::SN, lag) == Some(v + 2), unadjusted(v, Period::SN, lag) == v + 3,
        unadjusted(v, Period::SPOT, lag) == v + 2,
{ }
proof fn vacuity_settle(c: Cal, v: int) requires settle_room(c, v, Period::Months(3), 2) { assert(false); }
}
fn main() {}
