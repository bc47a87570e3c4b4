// FX settlement dates: contracts discharged against src/time/period.rs.

pub open spec fn base(v: int, p: Period, lag: int) -> int {
    match p { Period::ON => v, Period::TN => v + 1, _ => v + lag }
}
pub open spec fn unadjusted(v: int, p: Period, lag: int) -> int { plus(base(v, p, lag), p, 1) }
pub open spec fn settled(c: Cal, v: int, p: Period, lag: int, r: int) -> bool {
    let u = unadjusted(v, p, lag);
    exists|e: int| #[trigger] is_eom(c, u, e) && (if u >= e { r == e } else { is_next(c, u, r) })
}
pub open spec fn near_base(v: int, p: Period, lag: int) -> Option<int> {
    match p { Period::ON => Some(v), Period::TN => Some(v + 1), Period::SN => Some(v + lag), _ => None }
}
pub open spec fn settle_room(c: Cal, v: int, p: Period, lag: int) -> bool {
    &&& live_all(c) && DMIN + 20_000_000 <= v <= DMAX - 20_000_000 && -1000 <= lag <= 1000
    &&& countable(p) && addable(base(v, p, lag), p, 1) && DMIN + 20_000_000 <= unadjusted(v, p, lag) <= DMAX - 20_000_000
}
//@fn src/time/period.rs impl Period :: settlement_date_with_lag => impl Period
//@params valuation_date, calendar, spot_lag
//@spec
    requires settle_room(*calendar, valuation_date@, *self, spot_lag as int)
    ensures r is Ok, settled(*calendar, valuation_date@, *self, spot_lag as int, r->Ok_0@)
//@entry
    broadcast use axiom_civil;
    let ghost u = unadjusted(valuation_date@, *self, spot_lag as int);
    proof {
        lemma_year_inv(u); lemma_month_last(u); lemma_month_bounds(year(u), month(u), dim(year(u), month(u)));
        assert(live(*calendar, month_last(u)));
        assert(live(*calendar, u));
    }
    let ghost hi = choose|k: int| u <= k <= u + 100 && #[trigger] biz(*calendar, k);
    let ghost eb = choose|k: int| month_last(u) - 100 <= k <= month_last(u) && #[trigger] biz(*calendar, k);
//@loop 0
    invariant live_all(*calendar), u == unadjusted(valuation_date@, *self, spot_lag as int),
        DMIN + 20_000_000 <= u <= DMAX - 20_000_000,
        exists|e: int| #[trigger] is_eom(*calendar, u, e) && (if u >= e { settlement_date@ == e } else { u <= settlement_date@ <= hi && forall|k: int| u <= k < settlement_date@ ==> !#[trigger] biz(*calendar, k) }),
        u <= hi <= u + 100, biz(*calendar, hi),
    decreases hi - settlement_date@
//@end
//@fn src/time/period.rs impl Period :: near_date_with_lag => impl Period
//@params valuation_date, calendar, spot_lag
//@spec
    requires live_all(*calendar), DMIN + 20_000_000 <= valuation_date@ <= DMAX - 20_000_000, -1000 <= spot_lag <= 1000
    ensures r is Ok,
        match near_base(valuation_date@, *self, spot_lag as int) {
            None => r->Ok_0 is None,
            Some(b) => r->Ok_0 is Some && is_next(*calendar, b, r->Ok_0->0@),
        }
//@entry
    let ghost nb = near_base(valuation_date@, *self, spot_lag as int);
    let ghost b: int = match nb { Some(x) => x, None => valuation_date@ };
    proof { assert(live(*calendar, b)); }
    let ghost hi = choose|k: int| b <= k <= b + 100 && #[trigger] biz(*calendar, k);
//@loop 0
    invariant b <= d@ <= hi <= b + 100, biz(*calendar, hi), inr(b - 200), inr(b + 200), forall|k: int| b <= k < d@ ==> !#[trigger] biz(*calendar, k),
    decreases hi - d@
//@end
//@fn src/time/period.rs impl Period :: settlement_date => impl Period
//@params valuation_date, calendar
//@spec
    requires settle_room(*calendar, valuation_date@, *self, 2)
    ensures r is Ok, settled(*calendar, valuation_date@, *self, 2, r->Ok_0@)
//@end
//@fn src/time/period.rs impl Period :: near_date => impl Period
//@params valuation_date, calendar
//@spec
    requires live_all(*calendar), DMIN + 20_000_000 <= valuation_date@ <= DMAX - 20_000_000
    ensures r is Ok,
        match near_base(valuation_date@, *self, 2) {
            None => r->Ok_0 is None,
            Some(b) => r->Ok_0 is Some && is_next(*calendar, b, r->Ok_0->0@),
        }
//@end
