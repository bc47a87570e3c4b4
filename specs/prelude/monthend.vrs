// Month ends: contracts discharged against src/time/calendars.rs.
pub open spec fn is_eom(c: Cal, n: int, r: int) -> bool { is_prev(c, month_last(n), r) }
//@include holiday.vrs
//@fn src/time/calendars.rs trait Calendar :: last_day_of_month => impl Cal
//@params date
//@spec
    requires -200_000 < year(date@) < 200_000
    ensures r@ == month_last(date@)
//@entry
    broadcast use axiom_civil;
    proof { lemma_month_last(date@); lemma_year_range(year(date@)); }
//@end
//@fn src/time/calendars.rs trait Calendar :: end_of_month => impl Cal
//@params date
//@spec
    requires live(*self, month_last(date@)), -200_000 < year(date@) < 200_000
    ensures is_eom(*self, date@, r@), inr(r@)
//@entry
    let ghost n = month_last(date@);
    let ghost lo = choose|k: int| n - 100 <= k <= n && #[trigger] biz(*self, k);
//@loop 0
    invariant n == month_last(date@), n >= last_day_of_month@ >= lo >= n - 100, biz(*self, lo), inr(n - 100), inr(n + 100),
        forall|k: int| last_day_of_month@ < k <= n ==> !#[trigger] biz(*self, k),
    decreases last_day_of_month@ - lo
//@end
