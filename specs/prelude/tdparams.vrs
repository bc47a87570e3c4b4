// Time-dependent SABR parameters: contracts discharged against src/models/forex/sabr_time_dependent.rs
//@item src/models/forex/sabr.rs :: struct SabrParams
//@item src/models/forex/sabr.rs :: struct SabrState
//@item src/models/forex/sabr_time_dependent.rs :: struct TimeDependentSabrParams
pub open spec fn same_knots(a: PiecewiseConstant, b: PiecewiseConstant) -> bool { a.knots.len() == b.knots.len() && forall|i: int| 0 <= i < a.knots.len() ==> (#[trigger] a.knots[i])@ == b.knots[i]@ }
pub open spec fn alpha_ok(a: PiecewiseConstant) -> bool { forall|i: int| 0 <= i < a.values.len() ==> (#[trigger] a.values@[i])@ > 0real }
pub open spec fn nu_ok(a: PiecewiseConstant) -> bool { forall|i: int| 0 <= i < a.values.len() ==> (#[trigger] a.values@[i])@ >= 0real }
pub open spec fn rho_ok(a: PiecewiseConstant) -> bool { forall|i: int| 0 <= i < a.values.len() ==> -1real < (#[trigger] a.values@[i])@ < 1real }
impl TimeDependentSabrParams {
    pub open spec fn ok(&self) -> bool {
        self.alpha.ok() && self.rho.ok() && self.nu.ok() && same_knots(self.alpha, self.rho) && same_knots(self.alpha, self.nu) && 0real <= self.beta@ <= 1real && self.forward_0@ > 0real
            && alpha_ok(self.alpha) && nu_ok(self.nu) && rho_ok(self.rho)
    }
    pub open spec fn now(&self, t: real) -> SabrParams { SabrParams { alpha: self.alpha.at_s(t), beta: self.beta, rho: self.rho.at_s(t), nu: self.nu.at_s(t) } }
}
proof fn lemma_ends(a: PiecewiseConstant, b: PiecewiseConstant)
    requires same_knots(a, b), a.ok()
    ensures a.end() == b.end()
{ assert(a.knots[a.knots.len() - 1]@ == b.knots[a.knots.len() - 1]@); }
//@fn src/models/forex/sabr_time_dependent.rs impl TimeDependentSabrParams :: new => impl TimeDependentSabrParams
//@params alpha, rho, nu, b, f
//@spec
    requires alpha.ok(), rho.ok(), nu.ok(), same_knots(alpha, rho), same_knots(alpha, nu), 0real <= b@ <= 1real, f@ > 0real, alpha_ok(alpha), nu_ok(nu), rho_ok(rho)
    ensures r.alpha == alpha, r.rho == rho, r.nu == nu, r.beta == b, r.forward_0 == f, r.ok()
//@loop 0
    invariant __k0 <= __n0, __n0 == alpha.values.len(), __s0@ == alpha.values@, alpha_ok(alpha),
    decreases __n0 - __k0
//@loop 1
    invariant __k1 <= __n1, __n1 == nu.values.len(), __s2@ == nu.values@, nu_ok(nu),
    decreases __n1 - __k1
//@loop 2
    invariant __k2 <= __n2, __n2 == rho.values.len(), __s4@ == rho.values@, rho_ok(rho),
    decreases __n2 - __k2
//@end
//@fn src/models/forex/sabr_time_dependent.rs impl TimeDependentSabrParams :: at => impl TimeDependentSabrParams
//@params t
//@spec
    requires self.ok(), self.alpha.covers(t@)
    ensures r == self.now(t@)
//@entry
    proof { lemma_ends(self.alpha, self.rho); lemma_ends(self.alpha, self.nu); }
//@end
//@fn src/models/forex/sabr_time_dependent.rs impl TimeDependentSabrParams :: horizon => impl TimeDependentSabrParams
//@spec
    requires self.ok()
    ensures r@ == self.alpha.end()
//@end
proof fn lemma_now(q: TimeDependentSabrParams, t: real)
    requires q.ok()
    ensures q.now(t).alpha@ > 0real, q.now(t).nu@ >= 0real, -1real < q.now(t).rho@ < 1real, 1real - q.now(t).rho@ * q.now(t).rho@ > 0real
{
    lemma_seg(q.alpha.knots@, t, 0); lemma_seg(q.rho.knots@, t, 0); lemma_seg(q.nu.knots@, t, 0);
    assert(q.alpha.values@[seg(q.alpha.knots@, t, 0)]@ > 0real);
    assert(q.nu.values@[seg(q.nu.knots@, t, 0)]@ >= 0real);
    let x = q.rho.values@[seg(q.rho.knots@, t, 0)]@;
    assert(-1real < x < 1real);
    assert(x * x < 1real) by (nonlinear_arith) requires -1real < x < 1real;
}
pub open spec fn noise(p: SabrParams, g: ChaCha20Rng, dt: real) -> (ChaCha20Rng, real, real) {
    let (g1, z1) = next_normal(g);
    let (g2, z2) = next_normal(g1);
    (g2, rsqrt(dt) * z1, rsqrt(dt) * (p.rho@ * z1 + rsqrt(1real - p.rho@ * p.rho@) * z2))
}
proof fn lemma_time(k: int, n: int, dt: real, t: real)
    requires 0 <= k < n, dt == t / (n as real), t > 0real
    ensures dt > 0real, (k + 1) as real * dt == k as real * dt + dt, 0real <= k as real * dt, k as real * dt + (5real / 10real) * dt <= t
{
    let (x, y) = (n as real, k as real);
    assert(dt > 0real && x * dt == t) by (nonlinear_arith) requires dt == t / x, t > 0real, x > 0real;
    assert((y + 1real) * dt == y * dt + dt) by (nonlinear_arith);
    assert(y * dt >= 0real) by (nonlinear_arith) requires y >= 0real, dt > 0real;
    let z = y + 1real;
    assert(z * dt <= x * dt) by (nonlinear_arith) requires z <= x, dt > 0real;
}
