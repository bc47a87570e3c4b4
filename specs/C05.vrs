use vstd::prelude::*;
verus! {
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/period.vrs
//@include prelude/scale.vrs
// adding n days k times over is adding n*k days once
proof fn scaled_days_add_up(n: int, k: u32, d: i64)
    requires scalable(k, Period::Days(d))
    ensures plus(n, scaled(k, Period::Days(d)), 1) == n + d * k
{ }
proof fn vacuity_add(d: NaiveDate, p: Period) requires addable(d@, p, 1), countable(p), scalable(3, p) { assert(false); }
}
fn main() {}
