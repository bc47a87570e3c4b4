// FX volatility surface: contracts discharged against src/markets/forex/quotes/volsurface.rs.
//@item src/markets/forex/quotes/volsurface.rs :: enum FXVolQuote => #[derive(Clone, Copy)]
//@item src/markets/forex/quotes/volsurface.rs :: struct FXDeltaVolPillar
//@item src/markets/forex/quotes/volsurface.rs :: struct SmileSection
//@item src/markets/forex/quotes/volsurface.rs :: struct FXVolSurface
// ---- knots
pub open spec fn climbing(k: Seq<(R, R)>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> (#[trigger] k[i]).0@ < (#[trigger] k[j]).0@ }
pub open spec fn between(k: Seq<(R, R)>, i: int, x: real) -> real { k[i].1@ + (x - k[i].0@) / (k[i + 1].0@ - k[i].0@) * (k[i + 1].1@ - k[i].1@) }
pub open spec fn seg(k: Seq<(R, R)>, x: real, i: int) -> real decreases k.len() - i {
    if i < 0 || i + 1 >= k.len() { 0real } else if k[i].0@ <= x <= k[i + 1].0@ { between(k, i, x) } else { seg(k, x, i + 1) }
}
// linear between the knots, flat outside
pub open spec fn linear(k: Seq<(R, R)>, x: real) -> real {
    if k.len() == 0 { 0real } else if k.len() == 1 || x <= k[0].0@ { k[0].1@ } else if x >= k[k.len() - 1].0@ { k[k.len() - 1].1@ } else { seg(k, x, 0) }
}
pub proof fn lemma_frac(d: real, s: real, e: real) requires d != 0real ensures s + d / d * (e - s) == e, s + 0real / d * (e - s) == s {
    assert(d / d == 1real && 0real / d == 0real) by (nonlinear_arith) requires d != 0real;
}
pub proof fn lemma_seg_at(k: Seq<(R, R)>, j: int, i: int)
    requires climbing(k), 0 <= i < j < k.len()
    ensures seg(k, k[j].0@, i) == k[j].1@
    decreases j - i
{
    if i + 1 == j { lemma_frac(k[j].0@ - k[i].0@, k[i].1@, k[j].1@); } else { assert(k[i + 1].0@ < k[j].0@); lemma_seg_at(k, j, i + 1); }
}
pub proof fn lemma_linear_at(k: Seq<(R, R)>, j: int)
    requires climbing(k), 0 <= j < k.len()
    ensures linear(k, k[j].0@) == k[j].1@
{ if 0 < j { assert(k[0].0@ < k[j].0@); if j < k.len() - 1 { assert(k[j].0@ < k[k.len() - 1].0@); } lemma_seg_at(k, j, 0); } }
//@fn src/markets/forex/quotes/volsurface.rs fn piecewise_linear_interp
//@params k, x
//@spec
    requires climbing(k@)
    ensures r@ == linear(k@, x@)
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == k.len() - 1, k.len() >= 2, knots@ == k@, __s0@ == k@, climbing(k@), k@[0].0@ < x@ < k@[k.len() - 1].0@, seg(k@, x@, 0) == seg(k@, x@, __k0 as int),
    decreases __n0 - __k0
//@loop 0 begin
    proof { let i = __k0 as int; let w = k@.subrange(i, i + 2); assert(w[0] == k@[i] && w[1] == k@[i + 1]); assert(k@[i].0@ < k@[i + 1].0@); }
//@end
// ---- one expiry
impl SmileSection {
    pub open spec fn ok(&self) -> bool { self.forward@ > 0real && self.year_fraction@ > 0real && self.sigma_ref@ > 0real && climbing(self.a_knots@) }
    pub open spec fn x(&self, k: real) -> real { xof(self.forward@, self.sigma_ref@, self.year_fraction@, k) }
    pub open spec fn quad(&self, x: real) -> real { self.a@ * x * x + self.b@ * x + self.c@ }
    pub open spec fn resid(&self, m: real) -> real { if m < self.log_m_min@ || m > self.log_m_max@ { 0real } else { linear(self.a_knots@, m) } }
    pub open spec fn vol(&self, k: real) -> real { self.quad(self.x(k)) + self.resid(rln(k / self.forward@)) }
    pub open spec fn var(&self, k: real) -> real { self.vol(k) * self.vol(k) * self.year_fraction@ }
}
pub open spec fn xof(f: real, s: real, t: real, k: real) -> real { ncdf(rln(f / k) / (s * rsqrt(t))) }
pub proof fn lemma_quot(x: real, y: real) requires x > 0real, y > 0real ensures x / y > 0real, x * y > 0real {
    assert(x / y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real;
    assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real;
}
//@fn src/markets/forex/quotes/volsurface.rs impl SmileSection :: volatility => impl SmileSection
//@params k
//@spec
    requires self.ok(), k@ > 0real
    ensures r@ == self.vol(k@)
//@entry
    broadcast use axiom_sqrt;
    proof { lemma_quot(self.forward@, k@); lemma_quot(k@, self.forward@); lemma_quot(self.sigma_ref@, rsqrt(self.year_fraction@)); }
//@end
// ---- the surface
pub open spec fn by_expiry(s: Seq<SmileSection>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).expiry@ <= (#[trigger] s[j]).expiry@ }
pub open spec fn sorted_copy(z: Seq<SmileSection>, a: Seq<SmileSection>) -> bool {
    &&& by_expiry(z) && z.len() == a.len() && (forall|j: int| 0 <= j < z.len() ==> a.contains(#[trigger] z[j]))
    &&& forall|j: int| 0 <= j < a.len() ==> z.contains(#[trigger] a[j])
}
#[verifier::external_body]
pub fn sort_by_key_expiry(v: &mut Vec<SmileSection>)
    ensures sorted_copy(final(v)@, old(v)@)
{ unimplemented!() }
#[verifier::external_body]
pub fn search_by_key_expiry(v: &Vec<SmileSection>, t: &NaiveDate) -> (r: core::result::Result<usize, usize>)
    requires by_expiry(v@)
    ensures match r {
        Ok(i) => i < v.len() && v[i as int].expiry@ == t@,
        Err(i) => i <= v.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).expiry@ < t@) && (forall|j: int| i <= j < v.len() ==> (#[trigger] v[j]).expiry@ > t@),
    }
{ unimplemented!() }
impl FXVolSurface {
    pub open spec fn ok(&self) -> bool {
        &&& self.smiles.len() > 0 && fin(self.valuation_date@) && by_expiry(self.smiles@)
        &&& forall|i: int| 0 <= i < self.smiles.len() ==> self.smile_ok(#[trigger] self.smiles@[i])
    }
    pub open spec fn smile_ok(&self, s: SmileSection) -> bool { s.ok() && fin(s.expiry@) && s.year_fraction@ == yf365(self.valuation_date@, s.expiry@) }
    // x is the volatility for expiry t and strike k: an expiry's own smile, the first or last one's before and after them,
    // total variance linear in time between neighbouring expiries
    pub open spec fn is_vol(&self, t: int, k: real, x: real) -> bool {
        let (s, n) = (self.smiles@, self.smiles.len() as int);
        if exists|i: int| 0 <= i < n && (#[trigger] s[i]).expiry@ == t { exists|i: int| 0 <= i < n && (#[trigger] s[i]).expiry@ == t && x == s[i].vol(k) }
        else if t < s[0].expiry@ { x == s[0].vol(k) }
        else if t > s[n - 1].expiry@ { x == s[n - 1].vol(k) }
        else { exists|i: int| #[trigger] around(s, i, t) && x >= 0real && x * x * yf365(self.valuation_date@, t) == vline(s[i].var(k), s[i + 1].var(k), s[i].expiry@, s[i + 1].expiry@, t) }
    }
}
pub open spec fn around(s: Seq<SmileSection>, i: int, t: int) -> bool { 0 <= i < s.len() - 1 && s[i].expiry@ < t < s[i + 1].expiry@ }
pub open spec fn vline(p: real, q: real, a: int, b: int, t: int) -> real { p + ((t - a) as real) / ((b - a) as real) * (q - p) }
pub proof fn lemma_weight(v: int, a: int, b: int, t: int, p: real, q: real)
    requires a < t < b, p >= 0real, q >= 0real
    ensures (yf365(v, t) - yf365(v, a)) / (yf365(v, b) - yf365(v, a)) == ((t - a) as real) / ((b - a) as real), vline(p, q, a, b, t) >= 0real
{
    let (x, y) = ((t - a) as real, (b - a) as real);
    assert(yf365(v, t) - yf365(v, a) == x / 365real && yf365(v, b) - yf365(v, a) == y / 365real);
    assert((x / 365real) / (y / 365real) == x / y) by (nonlinear_arith) requires y > 0real;
    let w = x / y;
    assert(0real < w < 1real) by (nonlinear_arith) requires 0real < x < y, w == x / y;
    assert(p + w * (q - p) >= 0real) by (nonlinear_arith) requires 0real < w < 1real, p >= 0real, q >= 0real;
}
pub proof fn lemma_var_nonneg(x: real, t: real) requires t >= 0real ensures x * x * t >= 0real {
    let y = x * x;
    assert(y >= 0real) by (nonlinear_arith) requires y == x * x;
    assert(y * t >= 0real) by (nonlinear_arith) requires y >= 0real, t >= 0real;
}
pub proof fn lemma_root_var(z: real, t: real) requires t > 0real, z >= 0real ensures z / t >= 0real, rsqrt(z / t) >= 0real, rsqrt(z / t) * rsqrt(z / t) * t == z {
    broadcast use axiom_sqrt;
    let q = z / t;
    assert(q >= 0real && q * t == z) by (nonlinear_arith) requires q == z / t, t > 0real, z >= 0real;
}
//@fn src/markets/forex/quotes/volsurface.rs impl FXVolSurface :: volatility => impl FXVolSurface
//@params t, k
//@spec
    requires self.ok(), fin(t@)
    ensures match r { Err(_) => k@ <= 0real || t@ <= self.valuation_date@, Ok(x) => k@ > 0real && t@ > self.valuation_date@ && self.is_vol(t@, k@, x@) }
//@entry
    proof { lemma_fin(t@); lemma_fin(self.valuation_date@); }
//@site sqrt
    proof {
        let i = pos - 1;
        assert(around(self.smiles@, i, t@));
        lemma_var_nonneg(sigma_lo@, lo.year_fraction@); lemma_var_nonneg(sigma_hi@, hi.year_fraction@);
        lemma_weight(self.valuation_date@, lo.expiry@, hi.expiry@, t@, var_lo@, var_hi@);
        lemma_root_var(var_target@, target_yf@);
    }
//@end
