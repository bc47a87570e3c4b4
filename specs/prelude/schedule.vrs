// Piecewise constant schedules: contracts discharged against src/models/forex/sabr_effective.rs
//@item src/models/forex/sabr_effective.rs :: struct PiecewiseConstant
pub open spec fn tick() -> real { 1real / 1_000_000_000_000_000real }
// the segment of t at or after k: the first whose right knot is not before t
pub open spec fn seg(knots: Seq<R>, t: real, k: int) -> int decreases knots.len() - k {
    if k >= knots.len() - 2 { knots.len() - 2 } else if t <= knots[k + 1]@ + tick() { k } else { seg(knots, t, k + 1) }
}
impl PiecewiseConstant {
    pub open spec fn ok(&self) -> bool {
        self.knots.len() >= 2 && self.values.len() + 1 == self.knots.len() && rabs(self.knots[0]@) < tick()
            && forall|i: int, j: int| 0 <= i < j < self.knots.len() ==> (#[trigger] self.knots[i])@ < (#[trigger] self.knots[j])@
    }
    pub open spec fn at_s(&self, t: real) -> R { self.values[seg(self.knots@, t, 0)] }
    pub open spec fn end(&self) -> real { self.knots[self.knots.len() - 1]@ }
    pub open spec fn covers(&self, t: real) -> bool { 0real <= t <= self.end() + tick() }
}
pub open spec fn steps_up(k: Seq<R>) -> bool { forall|a: int, b: int| #![trigger k[a], k[b]] 0 <= a && b == a + 1 && b < k.len() ==> k[a]@ < k[b]@ }
proof fn lemma_up(k: Seq<R>, i: int, j: int)
    requires steps_up(k), 0 <= i < j < k.len()
    ensures k[i]@ < k[j]@
    decreases j - i
{
    assert(k[j - 1]@ < k[j]@);
    if i < j - 1 { lemma_up(k, i, j - 1); }
}
proof fn lemma_seg(k: Seq<R>, t: real, a: int)
    requires 0 <= a <= k.len() - 2
    ensures a <= seg(k, t, a) <= k.len() - 2
    decreases k.len() - a
{
    if a < k.len() - 2 && t > k[a + 1]@ + tick() { lemma_seg(k, t, a + 1); }
}
//@fn src/models/forex/sabr_effective.rs impl PiecewiseConstant :: new => impl PiecewiseConstant
//@params knots, values
//@spec
    requires knots.len() >= 2, values.len() < usize::MAX, values.len() + 1 == knots.len(), rabs(knots[0]@) < tick(), steps_up(knots@)
    ensures r.knots == knots, r.values == values, r.ok()
//@entry
    proof { assert forall|i: int, j: int| 0 <= i < j < knots.len() implies (#[trigger] knots[i])@ < (#[trigger] knots[j])@ by { lemma_up(knots@, i, j); } }
//@loop 0
    invariant 1 <= __k0 <= __n0, __n0 == knots.len(), steps_up(knots@),
    decreases __n0 - __k0
//@loop 0 begin
    proof { assert(knots[__k0 - 1]@ < knots[__k0 as int]@); }
//@end
//@fn src/models/forex/sabr_effective.rs impl PiecewiseConstant :: constant => impl PiecewiseConstant
//@params t, v
//@spec
    requires t@ > 0real
    ensures r.ok(), r.knots.len() == 2, r.knots[0]@ == 0real, r.knots[1]@ == t@, r.values.len() == 1, r.values[0] == v
//@end
//@fn src/models/forex/sabr_effective.rs impl PiecewiseConstant :: n_segments => impl PiecewiseConstant
//@spec
    ensures r == self.values.len()
//@end
//@fn src/models/forex/sabr_effective.rs impl PiecewiseConstant :: final_time => impl PiecewiseConstant
//@spec
    requires self.knots.len() >= 1
    ensures r == self.knots[self.knots.len() - 1]
//@end
//@fn src/models/forex/sabr_effective.rs impl PiecewiseConstant :: at => impl PiecewiseConstant
//@params t
//@spec
    requires self.ok(), self.covers(t@)
    ensures r == self.at_s(t@)
//@loop 0
    invariant 1 <= __k0 <= __n0, __n0 == self.knots.len(), self.ok(), seg(self.knots@, t@, 0) == seg(self.knots@, t@, __k0 - 1), self.covers(t@),
    decreases __n0 - __k0
//@loop 0 begin
    proof { assert(self.knots[__k0 - 1]@ < self.knots[__k0 as int]@); }
//@end
