// Time-dependent SABR paths: contracts discharged against src/models/forex/sabr_time_dependent.rs
//@item src/models/forex/sabr_time_dependent.rs :: struct TimeDependentSabrSimulator
impl TimeDependentSabrSimulator {
    pub open spec fn same(&self, o: &Self) -> bool { self.params == o.params }
}
//@fn src/models/forex/sabr_time_dependent.rs impl TimeDependentSabrSimulator :: new => impl TimeDependentSabrSimulator
//@params q, seed
//@spec
    ensures r.params == q, r.rng == seeded(seed)
//@end
// one step of the forward and of the volatility (alpha at time zero times a lognormal martingale) under the parameters p
pub open spec fn fwd(q: TimeDependentSabrParams, p: SabrParams, f: real, a: real, wf: real) -> real {
    let (x, y) = (rmax(f, 0real), rmax(a, 0real));
    rmax(x + p.alpha@ / q.alpha.at_s(0real)@ * y * rpowf(x, p.beta@) * wf, 0real)
}
pub open spec fn vol(p: SabrParams, a: real, dt: real, wa: real) -> real { rmax(a, 0real) * rexp(-(5real / 10real) * p.nu@ * p.nu@ * dt + p.nu@ * wa) }
pub open spec fn stepped(q: TimeDependentSabrParams, p: SabrParams, s: SabrState, dt: real, wf: real, wa: real, e: SabrState) -> bool { e.forward@ == fwd(q, p, s.forward@, s.vol@, wf) && e.vol@ == vol(p, s.vol@, dt, wa) }
//@fn src/models/forex/sabr_time_dependent.rs impl TimeDependentSabrSimulator :: step_with_noise => impl TimeDependentSabrSimulator
//@params s, mid, dt
//@spec
    requires old(self).params.ok(), old(self).params.alpha.covers(mid@), dt@ > 0real
    ensures final(self).same(old(self)), r.1.len() == 2, ({ let (q, p) = (old(self).params, old(self).params.now(mid@)); (final(self).rng, r.1[0]@, r.1[1]@) == noise(p, old(self).rng, dt@) && stepped(q, p, *s, dt@, r.1[0]@, r.1[1]@, r.0) })
//@entry
    proof { lemma_now(self.params, mid@); lemma_now(self.params, 0real); assert(self.params.alpha.knots[0]@ < self.params.alpha.knots[self.params.alpha.knots.len() - 1]@); }
//@end
//@type Self::State => SabrState
//@fn src/models/forex/sabr_time_dependent.rs impl SimulationModel for TimeDependentSabrSimulator :: initial_state => impl TimeDependentSabrSimulator
//@spec
    requires self.params.ok()
    ensures r.forward == self.params.forward_0, r.vol == self.params.alpha.at_s(0real)
//@entry
    proof { assert(self.params.alpha.knots[0]@ < self.params.alpha.knots[self.params.alpha.knots.len() - 1]@); }
//@end
//@fn src/models/forex/sabr_time_dependent.rs impl SimulationModel for TimeDependentSabrSimulator :: step => impl TimeDependentSabrSimulator
//@params s, t, dt
//@spec
    requires old(self).params.ok(), dt@ > 0real, old(self).params.alpha.covers(t@)
    ensures final(self).same(old(self)), ({ let (q, p) = (old(self).params, old(self).params.now(t@)); let (g, wf, wa) = noise(p, old(self).rng, dt@); final(self).rng == g && stepped(q, p, *s, dt@, wf, wa, r) })
//@end
// n equal steps of one path, each under the parameters of its middle
pub open spec fn path(q: TimeDependentSabrParams, g: ChaCha20Rng, f: real, a: real, dt: real, n: nat) -> (ChaCha20Rng, real, real) decreases n {
    if n == 0 { (g, f, a) } else {
        let (h, x, y) = path(q, g, f, a, dt, (n - 1) as nat);
        let p = q.now((n - 1) as real * dt + (5real / 10real) * dt);
        let (k, wf, wa) = noise(p, h, dt);
        (k, fwd(q, p, x, y, wf), vol(p, y, dt, wa))
    }
}
pub open spec fn before_path(q: TimeDependentSabrParams, g: ChaCha20Rng, dt: real, n: nat, i: nat) -> ChaCha20Rng decreases i {
    if i == 0 { g } else { path(q, before_path(q, g, dt, n, (i - 1) as nat), q.forward_0@, q.alpha.at_s(0real)@, dt, n).0 }
}
pub open spec fn whole(q: TimeDependentSabrParams, g: ChaCha20Rng, dt: real, n: nat, i: nat) -> (ChaCha20Rng, real, real) { path(q, before_path(q, g, dt, n, i), q.forward_0@, q.alpha.at_s(0real)@, dt, n) }
//@fn src/models/forex/sabr_time_dependent.rs impl TimeDependentSabrSimulator :: simulate => impl TimeDependentSabrSimulator
//@params end, n, m
//@local out: Vec<SabrState>
//@spec
    requires old(self).params.ok(), n > 0, m > 0, end@ > 0real, old(self).params.alpha.covers(end@)
    ensures final(self).same(old(self)), r.len() == m, ({ let (q, g, dt) = (old(self).params, old(self).rng, end@ / (n as int as real));
        &&& final(self).rng == before_path(q, g, dt, n as nat, m as nat)
        &&& forall|i: int| 0 <= i < m ==> whole(q, g, dt, n as nat, i as nat) == (before_path(q, g, dt, n as nat, (i + 1) as nat), (#[trigger] r[i]).forward@, r[i].vol@) })
//@entry
    let ghost (q, g, d) = (self.params, self.rng, end@ / (n as int as real));
    proof { lemma_time(0, n as int, d, end@); }
//@loop 0
    invariant 0 <= __k0 <= m, __n0 == m, n_steps == n, self.params == q, q.ok(), self.same(old(self)), n > 0, dt@ == d, d > 0real, d == end@ / (n as int as real), end@ > 0real, q.alpha.covers(end@), alpha0 == q.alpha.at_s(0real), out.len() == __k0, self.rng == before_path(q, g, d, n as nat, __k0 as nat),
        forall|i: int| 0 <= i < __k0 ==> whole(q, g, d, n as nat, i as nat) == (before_path(q, g, d, n as nat, (i + 1) as nat), (#[trigger] out[i]).forward@, out[i].vol@),
    decreases m - __k0
//@loop 0 begin
    let ghost i0 = __k0 as int;
    let ghost g0 = self.rng;
    let ghost o0 = out@;
//@loop 0 end
    proof { assert forall|i: int| 0 <= i < i0 implies #[trigger] out@[i] == o0[i] by {} }
//@loop 1
    invariant 0 <= __k1 <= n, __n1 == n, self.params == q, q.ok(), self.same(old(self)), n > 0, dt@ == d, d > 0real, d == end@ / (n as int as real), end@ > 0real, q.alpha.covers(end@), t@ == __k1 as real * d,
        g0 == before_path(q, g, d, n as nat, i0 as nat), path(q, g0, q.forward_0@, q.alpha.at_s(0real)@, d, __k1 as nat) == (self.rng, state.forward@, state.vol@),
    decreases n - __k1
//@loop 1 begin
    proof { lemma_time(__k1 as int, n as int, d, end@); }
//@end
// consecutive values agree
pub open spec fn flat_s(v: Seq<R>) -> bool { forall|a: int, b: int| #![trigger v[a], v[b]] 0 <= a && b == a + 1 && b < v.len() ==> rabs(v[a]@ - v[b]@) < 1real / 1_000_000_000_000real }
//@item src/models/forex/sabr.rs :: struct SabrSimulator
//@fn src/models/forex/sabr.rs impl SabrParams :: new => impl SabrParams
//@params a, b, p, n
//@spec
    requires a@ > 0real, 0real <= b@ <= 1real, -1real < p@ < 1real, n@ >= 0real
    ensures r.alpha == a, r.beta == b, r.rho == p, r.nu == n
//@end
//@fn src/models/forex/sabr.rs impl SabrSimulator :: new => impl SabrSimulator
//@params p, f, seed
//@spec
    requires -1real < p.rho@ < 1real, f@ > 0real
    ensures r.params == p, r.forward_0 == f, r.rng == seeded(seed), r.sqrt_one_minus_rho_sq@ == rsqrt(1real - p.rho@ * p.rho@)
//@entry
    proof { let x = p.rho@; assert(x * x < 1real) by (nonlinear_arith) requires -1real < x < 1real; }
//@end
//@fn src/models/forex/sabr_time_dependent.rs impl TimeDependentSabrSimulator :: reduces_to_constant => impl TimeDependentSabrSimulator
//@closure 0 |vs: &[R]| -> (q: bool) ensures q == flat_s(vs@)
//@spec
    requires self.params.ok()
    ensures r.is_some() <==> flat_s(self.params.alpha.values@) && flat_s(self.params.rho.values@) && flat_s(self.params.nu.values@),
        r.is_some() ==> r.unwrap().params == (SabrParams { alpha: self.params.alpha.values[0], beta: self.params.beta, rho: self.params.rho.values[0], nu: self.params.nu.values[0] }) && r.unwrap().forward_0 == self.params.forward_0 && r.unwrap().rng == seeded(0)
//@entry
    proof { assert(self.params.alpha.values@[0]@ > 0real); assert(self.params.nu.values@[0]@ >= 0real); assert(-1real < self.params.rho.values@[0]@ < 1real); }
//@loop 0
    invariant_except_break __acc0, __k0 <= __n0, __n0 == (if vs.len() >= 2 { vs.len() - 1 } else { 0 }), forall|a: int, b: int| #![trigger vs@[a], vs@[b]] 0 <= a < __k0 && b == a + 1 ==> rabs(vs@[a]@ - vs@[b]@) < 1real / 1_000_000_000_000real,
    invariant __s0@ == vs@, __k0 <= __n0, __n0 == (if vs.len() >= 2 { vs.len() - 1 } else { 0 }),
    ensures __acc0 == flat_s(vs@)
    decreases __n0 - __k0
//@end
