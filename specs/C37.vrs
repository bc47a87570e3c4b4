use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/normal.vrs
//@include prelude/period.vrs
//@include prelude/calendar.vrs
//@include prelude/act365.vrs
//@include prelude/curve.vrs
//@include prelude/schedrow.vrs
//@include prelude/bachelier.vrs
//@include prelude/captvar.vrs
//@include prelude/caplet.vrs
//@include prelude/strip.vrs
// ---- consequences
proof fn lemma_vol_prefix(p: Seq<StripPoint>, k: int, t: int, s: real, i: int)
    requires rising(p), 0 <= i <= k < p.len(), t <= p[k].expiry@
    ensures strip_vol(p, t, s, i) == strip_vol(p.subrange(0, k), t, p[k].sigma@, i)
    decreases k - i
{
    let q = p.subrange(0, k);
    if i < k { assert(q[i] == p[i]); if t > p[i].expiry@ { lemma_vol_prefix(p, k, t, s, i + 1); } }
}
// a quote whose periods start by its last one is worth the same under the finished strip (whatever lies beyond it)
// as it was when its own segment was solved, so the finished strip reprices it
proof fn finished_strip_reprices(q: &CapQuote, y: YieldTermStructure, v: int, p: Seq<StripPoint>, k: int, s: real, n: int)
    requires rising(p), 0 <= k < p.len(), q.schedule.len() > 0, q.last() == p[k].expiry@, 0 <= n <= q.schedule.len(),
        forall|i: int| 0 <= i < q.schedule.len() ==> (#[trigger] q.schedule@[i]).accrual_start_date@ <= q.last(),
    ensures q.part(y, v, p, s, n) == q.part(y, v, p.subrange(0, k), p[k].sigma@, n)
    decreases n
{
    if n > 0 {
        finished_strip_reprices(q, y, v, p, k, s, n - 1);
        lemma_vol_prefix(p, k, q.schedule@[n - 1].accrual_start_date@, s, 0);
    }
}
proof fn vacuity_strip(q: CapQuote) requires q.ok(), q.schedule.len() == 2 { assert(false); }
}
fn main() {}
