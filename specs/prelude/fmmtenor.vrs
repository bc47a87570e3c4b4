// Forward market model, dates and decay: contracts discharged against src/models/interestrate/fmm.rs
//@item src/models/interestrate/fmm.rs :: struct FmmTenor
//@item src/models/interestrate/fmm.rs :: struct LinearDecay
impl FmmTenor {
    pub open spec fn n(&self) -> int { self.initial_rates@.len() as int }
    pub open spec fn d(&self, j: int) -> real { self.dates@[j]@ }
    pub open spec fn ok(&self) -> bool {
        &&& self.n() >= 1
        &&& self.dates@.len() == self.n() + 1
        &&& self.d(0) >= 0real
        &&& forall|i: int, j: int| 0 <= i < j < self.dates@.len() ==> (#[trigger] self.dates@[i])@ < (#[trigger] self.dates@[j])@
    }
    pub open spec fn t(&self, j: int) -> real { self.d(j) - self.d(j - 1) }
    // the first tenor date from the j-th on that does not lie before t
    pub open spec fn first(&self, t: real, j: int) -> int decreases self.n() + 1 - j { if j > self.n() { self.n() + 1 } else if self.d(j) >= t { j } else { self.first(t, j + 1) } }
    // the decay of the j-th rate: one before its period, zero after, linear in between
    pub open spec fn gam(&self, j: int, t: real) -> real { if t <= self.d(j - 1) { 1real } else if t >= self.d(j) { 0real } else { (self.d(j) - t) / (self.d(j) - self.d(j - 1)) } }
    pub open spec fn gg(&self, j: int, s: real, t: real) -> real { self.gam(j, s) - self.gam(j, t) }
}
proof fn lemma_first(q: FmmTenor, t: real, j: int)
    requires 1 <= j <= q.n() + 1
    ensures j <= q.first(t, j) <= q.n() + 1, q.first(t, j) <= q.n() ==> q.d(q.first(t, j)) >= t, forall|i: int| j <= i < q.first(t, j) ==> (#[trigger] q.dates@[i])@ < t
    decreases q.n() + 1 - j
{ if j <= q.n() && q.d(j) < t { lemma_first(q, t, j + 1); } }
proof fn lemma_share(a: real, w: real) requires 0real < a < w ensures 0real < a / w < 1real {
    let z = a / w;
    assert(z * w == a) by (nonlinear_arith) requires w != 0real, z == a / w;
    assert(0real < z < 1real) by (nonlinear_arith) requires z * w == a, 0real < a < w;
}
// the decay lies between zero and one and never rises
proof fn lemma_decay(q: FmmTenor, j: int, s: real, t: real)
    requires q.ok(), 1 <= j <= q.n(), s <= t
    ensures 0real <= q.gam(j, t) <= q.gam(j, s) <= 1real, q.gg(j, q.d(j - 1), q.d(j)) == 1real, q.gg(j, q.d(j), q.d(j)) == 0real
{
    let (lo, hi) = (q.d(j - 1), q.d(j));
    assert(q.dates@[j - 1]@ < q.dates@[j]@);
    let w = hi - lo;
    if lo < s < hi { lemma_share(hi - s, w); }
    if lo < t < hi { lemma_share(hi - t, w); }
    assert(w / w == 1real) by (nonlinear_arith) requires w != 0real;
    if lo < s && t < hi {
        let (a, b, y, z) = (hi - s, hi - t, (hi - s) / w, (hi - t) / w);
        assert(y * w == a) by (nonlinear_arith) requires w != 0real, y == a / w;
        assert(z * w == b) by (nonlinear_arith) requires w != 0real, z == b / w;
        assert(z <= y) by (nonlinear_arith) requires y * w == a, z * w == b, b <= a, w > 0real;
    }
}
//@fn src/models/interestrate/fmm.rs impl FmmTenor :: new => impl FmmTenor
//@params ds, rs
//@spec
    requires (FmmTenor { dates: ds, initial_rates: rs }).ok()
    ensures r.dates == ds, r.initial_rates == rs
//@entry
    let ghost q = FmmTenor { dates: ds, initial_rates: rs };
    proof { assert(q.dates@ =~= ds@ && q.initial_rates@ =~= rs@); assert(q.d(0) == ds@[0]@); }
//@loop 0
    invariant 1 <= __k0 <= __n0, __n0 == ds@.len(), forall|i: int, j: int| 0 <= i < j < ds@.len() ==> (#[trigger] ds@[i])@ < (#[trigger] ds@[j])@, dates == ds,
    decreases __n0 - __k0
//@end
//@fn src/models/interestrate/fmm.rs impl FmmTenor :: m => impl FmmTenor
//@spec
    ensures r == self.n()
//@end
//@fn src/models/interestrate/fmm.rs impl FmmTenor :: tau => impl FmmTenor
//@params j
//@spec
    requires self.ok(), 1 <= j <= self.n()
    ensures r@ == self.t(j as int), r@ > 0real
//@entry
    proof { assert(self.dates@[j - 1]@ < self.dates@[j as int]@); }
//@end
//@fn src/models/interestrate/fmm.rs impl FmmTenor :: eta => impl FmmTenor
//@params t
//@spec
    requires self.ok(), self.n() < usize::MAX - 1
    ensures r == self.first(t@, 1)
//@loop 0
    invariant 1 <= __k0 <= self.n() + 1, __n0 == self.n(), self.ok(), self.n() < usize::MAX - 1, self.first(t@, 1) == self.first(t@, __k0 as int),
    decreases self.n() + 1 - __k0
//@end
//@fn src/models/interestrate/fmm.rs impl LinearDecay :: gamma => impl LinearDecay
//@params j, t, q
//@spec
    requires q.ok(), 1 <= j <= q.n()
    ensures r@ == q.gam(j as int, t@)
//@entry
    proof { assert(q.dates@[j - 1]@ < q.dates@[j as int]@); }
//@end
//@fn src/models/interestrate/fmm.rs impl LinearDecay :: big_g => impl LinearDecay
//@params j, s, t, q
//@spec
    requires q.ok(), 1 <= j <= q.n()
    ensures r@ == q.gg(j as int, s@, t@)
//@end
