// Dupire local volatility: contracts discharged against src/models/forex/dupire_local_vol.rs
//@call .to_vec => &reals_of
#[verifier::external_body]
pub fn reals_of(x: &[R]) -> (r: Vec<R>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_rep<T>(x: T, n: usize) -> (r: Vec<T>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == x { unimplemented!() }
pub open spec fn climbs(x: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i])@ < (#[trigger] x[j])@ }
//@item src/models/forex/dupire_local_vol.rs :: struct DupireLocalVol
impl DupireLocalVol {
    pub open spec fn ok(&self) -> bool {
        self.expiries.len() >= 1 && self.strikes.len() >= 1 && climbs(self.expiries@) && climbs(self.strikes@) && self.variance.len() == self.expiries.len()
            && forall|i: int| 0 <= i < self.variance.len() ==> (#[trigger] self.variance[i]).len() == self.strikes.len()
    }
    pub open spec fn at(&self, i: int, j: int) -> real { self.variance@[i]@[j]@ }
    pub open spec fn row_at(&self, i: int, k: real) -> real { let (a, b, w) = place(self.strikes@, k); self.at(i, a) + w * (self.at(i, b) - self.at(i, a)) }
    pub open spec fn read(&self, t: real, k: real) -> real { let (a, b, w) = place(self.expiries@, t); self.row_at(a, k) + w * (self.row_at(b, k) - self.row_at(a, k)) }
}
// the first knot from i on at or beyond x
pub open spec fn knot(xs: Seq<R>, x: real, i: int) -> int decreases xs.len() - i { if i >= xs.len() || xs[i]@ >= x { i } else { knot(xs, x, i + 1) } }
// where x lies among the knots: flat outside them, linear in between
pub open spec fn place(xs: Seq<R>, x: real) -> (int, int, real) {
    let n = xs.len() - 1;
    if x <= xs[0]@ { (0, 0, 0real) } else if x >= xs[n]@ { (n, n, 0real) } else { let k = knot(xs, x, 1); (k - 1, k, (x - xs[k - 1]@) / (xs[k]@ - xs[k - 1]@)) }
}
proof fn lemma_knot(xs: Seq<R>, x: real, i: int)
    requires 0 <= i < xs.len(), x <= xs[xs.len() - 1]@
    ensures i <= knot(xs, x, i) < xs.len(), xs[knot(xs, x, i)]@ >= x
    decreases xs.len() - i
{ if xs[i]@ < x { lemma_knot(xs, x, i + 1); } }
//@fn src/models/forex/dupire_local_vol.rs fn bracket
//@params xs, x
//@spec
    requires xs.len() >= 1, climbs(xs@)
    ensures (r.0 as int, r.1 as int, r.2@) == place(xs@, x@), r.0 < xs.len(), r.1 < xs.len()
//@loop 0
    invariant 1 <= __k0 <= __n0, __n0 == xs.len(), climbs(xs@), xs[0]@ < x@ < xs[xs.len() - 1]@, knot(xs@, x@, 1) == knot(xs@, x@, __k0 as int),
    decreases __n0 - __k0
//@loop 0 begin
    proof { lemma_knot(xs@, x@, __k0 as int); }
//@loop 0 after
    proof { lemma_knot(xs@, x@, 1); }
//@end
//@fn src/models/forex/dupire_local_vol.rs impl DupireLocalVol :: local_variance => impl DupireLocalVol
//@params t, k
//@spec
    requires self.ok()
    ensures r@ == self.read(t@, k@)
//@end
// difference quotients
pub open spec fn slope(y: spec_fn(int) -> real, x: Seq<R>, j: int) -> real {
    let n = x.len() as int;
    let (a, b) = (if j == 0 { 0 } else { j - 1 }, if j == n - 1 { n - 1 } else { j + 1 });
    (y(b) - y(a)) / (x[b]@ - x[a]@)
}
pub open spec fn curvature(y: spec_fn(int) -> real, x: Seq<R>, j: int) -> real {
    let n = x.len() as int;
    let c = if j == 0 { 1 } else if j == n - 1 { n - 2 } else { j };
    let (h1, h2) = (x[c]@ - x[c - 1]@, x[c + 1]@ - x[c]@);
    2real * (y(c + 1) * h1 - y(c) * (h1 + h2) + y(c - 1) * h2) / (h1 * h2 * (h1 + h2))
}
pub open spec fn row_of(c: Seq<R>) -> spec_fn(int) -> real { |j: int| c[j]@ }
pub open spec fn col_of(c: Seq<Vec<R>>, j: int) -> spec_fn(int) -> real { |i: int| c[i]@[j]@ }
//@fn src/models/forex/dupire_local_vol.rs fn fd_t
//@params c, x, i, j
//@spec
    requires x.len() >= 3, c.len() == x.len(), climbs(x@), i < x.len(), forall|k: int| 0 <= k < c.len() ==> j < (#[trigger] c[k]).len()
    ensures r@ == slope(col_of(c@, j as int), x@, i as int)
//@end
//@fn src/models/forex/dupire_local_vol.rs fn fd_k
//@params c, x, j
//@spec
    requires x.len() >= 3, c.len() == x.len(), climbs(x@), j < x.len()
    ensures r@ == slope(row_of(c@), x@, j as int)
//@end
//@fn src/models/forex/dupire_local_vol.rs fn fd_kk
//@params c, x, j
//@spec
    requires x.len() >= 3, c.len() == x.len(), climbs(x@), j < x.len()
    ensures r@ == curvature(row_of(c@), x@, j as int)
    decreases (if 0 < j && j + 1 < x.len() { 0int } else { 1int })
//@entry
    proof {
        let n = x.len() as int;
        let c0 = if j == 0 { 1 } else if j == n - 1 { n - 2 } else { j as int };
        let (h1, h2) = (x[c0]@ - x[c0 - 1]@, x[c0 + 1]@ - x[c0]@);
        assert(h1 > 0real && h2 > 0real);
        let hs = h1 + h2;
        assert(h1 * h2 * hs > 0real) by (nonlinear_arith) requires h1 > 0real, h2 > 0real, hs > 0real;
    }
//@end
// the market's call prices on the grid, and the local variance they imply
pub struct Market { pub e: Seq<R>, pub k: Seq<R>, pub v: Seq<Vec<R>>, pub s: real, pub d: real, pub f: real }
impl Market {
    pub open spec fn ok(&self) -> bool {
        self.e.len() >= 3 && self.k.len() >= 3 && climbs(self.e) && climbs(self.k) && self.k[0]@ > 0real && self.s > 0real && self.v.len() == self.e.len()
            && forall|i: int| 0 <= i < self.v.len() ==> (#[trigger] self.v[i]).len() == self.k.len()
    }
    pub open spec fn vol(&self, i: int, j: int) -> real { self.v[i]@[j]@ }
    pub open spec fn call(&self, i: int, j: int) -> real {
        let t = self.e[i]@;
        black_call(self.s * rexp((self.d - self.f) * t), self.k[j]@, self.vol(i, j), t, rexp((0real - self.d) * t))
    }
    pub open spec fn row(&self, i: int) -> spec_fn(int) -> real { |j: int| self.call(i, j) }
    pub open spec fn col(&self, j: int) -> spec_fn(int) -> real { |i: int| self.call(i, j) }
    pub open spec fn above(&self, i: int, j: int) -> real { slope(self.col(j), self.e, i) + (self.d - self.f) * self.k[j]@ * slope(self.row(i), self.k, j) + self.f * self.call(i, j) }
    pub open spec fn below(&self, i: int, j: int) -> real { self.k[j]@ * self.k[j]@ * curvature(self.row(i), self.k, j) }
    pub open spec fn local(&self, i: int, j: int) -> real {
        let (a, b) = (self.above(i, j), self.below(i, j));
        let x = if b > 1real / 100_000_000real && a > 0real { 2real * a / b } else { self.vol(i, j) * self.vol(i, j) };
        if x < (1real / 100real) * (1real / 100real) { (1real / 100real) * (1real / 100real) } else if x > 4real { 4real } else { x }
    }
}
//@fn src/models/forex/dupire_local_vol.rs fn build
//@params expiries, strikes, vols, spot, rd, rf
//@spec
    requires (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }).ok()
    ensures r.ok(), r.expiries@ == expiries@, r.strikes@ == strikes@,
        forall|i: int, j: int| 0 <= i < expiries.len() && 0 <= j < strikes.len() ==> #[trigger] r.at(i, j) == (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }).local(i, j)
//@entry
    let ghost m = Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ };
//@loop 0
    invariant n_t == expiries.len(), n_k == strikes.len(), m == (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }), m.ok(), __k0 <= __n0, __n0 == vols.len(), __s0@ == vols@,
    decreases __n0 - __k0
//@loop 1
    invariant n_t == expiries.len(), n_k == strikes.len(), m == (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }), m.ok(), __k1 <= __n1, __n1 == expiries.len() - 1, __s1@ == expiries@,
    decreases __n1 - __k1
//@loop 2
    invariant n_t == expiries.len(), n_k == strikes.len(), m == (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }), m.ok(), __k2 <= __n2, __n2 == strikes.len() - 1, __s2@ == strikes@,
    decreases __n2 - __k2
//@loop 3
    invariant n_t == expiries.len(), n_k == strikes.len(), m == (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }), m.ok(), __k3 <= __n3, __n3 == n_t, c.len() == n_t,
        forall|a: int| 0 <= a < n_t ==> (#[trigger] c[a]).len() == n_k,
        forall|a: int, b: int| 0 <= a < __k3 && 0 <= b < n_k ==> (#[trigger] c@[a]@[b])@ == m.call(a, b),
    decreases __n3 - __k3
//@loop 4
    invariant n_t == expiries.len(), n_k == strikes.len(), m == (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }), m.ok(), __k3 == i + 1, i < n_t, __k4 <= __n4, __n4 == n_k, c.len() == n_t, t == expiries[i as int],
        fwd@ == m.s * rexp((m.d - m.f) * t@), disc@ == rexp((0real - m.d) * t@),
        forall|a: int| 0 <= a < n_t ==> (#[trigger] c[a]).len() == n_k,
        forall|a: int, b: int| 0 <= a < i && 0 <= b < n_k ==> (#[trigger] c@[a]@[b])@ == m.call(a, b),
        forall|b: int| 0 <= b < __k4 ==> (#[trigger] c@[i as int]@[b])@ == m.call(i as int, b),
    decreases __n4 - __k4
//@loop 4 begin
    proof {
        let (a, b) = (m.s, rexp((m.d - m.f) * t@));
        assert(b > 0real) by { axiom_exp((m.d - m.f) * t@); }
        assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real;
        if __k4 > 0 { assert(m.k[0]@ < m.k[__k4 as int]@); }
    }
//@loop 5
    invariant n_t == expiries.len(), n_k == strikes.len(), m == (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }), m.ok(), __k5 <= __n5, __n5 == n_t, c.len() == n_t, variance.len() == n_t, floor@ == 1real / 100_000_000real,
        forall|a: int| 0 <= a < n_t ==> (#[trigger] c[a]).len() == n_k,
        forall|a: int| 0 <= a < n_t ==> (#[trigger] variance[a]).len() == n_k,
        forall|a: int, b: int| 0 <= a < n_t && 0 <= b < n_k ==> (#[trigger] c@[a]@[b])@ == m.call(a, b),
        forall|a: int, b: int| 0 <= a < __k5 && 0 <= b < n_k ==> (#[trigger] variance@[a]@[b])@ == m.local(a, b),
    decreases __n5 - __k5
//@loop 6
    invariant n_t == expiries.len(), n_k == strikes.len(), m == (Market { e: expiries@, k: strikes@, v: vols@, s: spot@, d: rd@, f: rf@ }), m.ok(), __k5 == i + 1, i < n_t, __k6 <= __n6, __n6 == n_k, c.len() == n_t, variance.len() == n_t, floor@ == 1real / 100_000_000real,
        forall|a: int| 0 <= a < n_t ==> (#[trigger] c[a]).len() == n_k,
        forall|a: int| 0 <= a < n_t ==> (#[trigger] variance[a]).len() == n_k,
        forall|a: int, b: int| 0 <= a < n_t && 0 <= b < n_k ==> (#[trigger] c@[a]@[b])@ == m.call(a, b),
        forall|a: int, b: int| 0 <= a < i && 0 <= b < n_k ==> (#[trigger] variance@[a]@[b])@ == m.local(a, b),
        forall|b: int| 0 <= b < __k6 ==> (#[trigger] variance@[i as int]@[b])@ == m.local(i as int, b),
    decreases __n6 - __k6
//@end
//@fn src/models/forex/dupire_local_vol.rs impl DupireLocalVol :: local_vol => impl DupireLocalVol
//@params t, k
//@spec
    requires self.ok(), self.read(t@, k@) >= 0real
    ensures r@ == rsqrt(self.read(t@, k@))
//@end
//@fn src/models/forex/dupire_local_vol.rs impl DupireLocalVol :: t_range => impl DupireLocalVol
//@spec
    requires self.ok()
    ensures r.0@ == self.expiries@[0]@, r.1@ == self.expiries@[self.expiries.len() - 1]@
//@end
//@fn src/models/forex/dupire_local_vol.rs impl DupireLocalVol :: k_range => impl DupireLocalVol
//@spec
    requires self.ok()
    ensures r.0@ == self.strikes@[0]@, r.1@ == self.strikes@[self.strikes.len() - 1]@
//@end
