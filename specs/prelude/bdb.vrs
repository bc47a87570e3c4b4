// needs calendar.vrs
//@call Duration::try_days => TimeDelta::try_days
pub open spec fn between(c: Cal, from: int, to: int, fi: bool, la: bool) -> int {
    cnt(c, from + (if fi { 0int } else { 1 }), to + (if la { 1int } else { 0 }))
}
pub open spec fn bdb(c: Cal, from: int, to: int, fi: Option<bool>, la: Option<bool>) -> int {
    let f = match fi { Some(b) => b, None => true };
    let l = match la { Some(b) => b, None => false };
    if from > to { -between(c, to, from, f, l) } else { between(c, from, to, f, l) }
}
//@fn src/time/calendars.rs trait Calendar :: business_days_between => impl Cal
//@params from, to, include_first, include_last
//@spec
    requires inr(from@ - 10), inr(from@ + 10), inr(to@ - 10), inr(to@ + 10)
    ensures r == bdb(*self, from@, to@, include_first, include_last), -200_000_000 < r < 200_000_000
    decreases (if from@ > to@ { 1int } else { 0 })
//@entry
    let ghost a = from@ + (if include_first == Some(false) { 1int } else { 0 });
//@loop 0
    invariant __d0@ == a, 0 <= __k0 <= __n0, __n0 == (if day_diff > 0 { day_diff as int } else { 0 }), day_count <= __k0, 0 <= day_count,
        __n0 < 200_000_000, inr(a), inr(a + __n0), day_count == cnt(*self, a, a + __k0),
    decreases __n0 - __k0
//@loop 0 begin
    assert(cnt(*self, a, a + __k0 + 1) == cnt(*self, a, a + __k0) + (if biz(*self, a + __k0) { 1int } else { 0 }));
//@end
