// Time-dependent SABR with a local volatility compensator: contracts discharged against src/models/forex/sabr_slv.rs
//@item src/models/forex/sabr_slv.rs :: struct TimeDependentSabrSlvSimulator
//@call .div_ceil => ceil_div
#[verifier::external_body]
pub fn ceil_div(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / b as int { unimplemented!() }
// stable sorting by the first component
pub open spec fn put_in(s: Seq<(real, real)>, x: (real, real)) -> Seq<(real, real)> decreases s.len() {
    if s.len() == 0 { seq![x] } else if s.last().0 <= x.0 { s.push(x) } else { put_in(s.drop_last(), x).push(s.last()) }
}
pub open spec fn in_order(s: Seq<(real, real)>) -> Seq<(real, real)> decreases s.len() { if s.len() == 0 { s } else { put_in(in_order(s.drop_last()), s.last()) } }
pub open spec fn reals2(s: Seq<(R, R)>) -> Seq<(real, real)> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@)) }
#[verifier::external_body]
pub fn sort_by_key_0(v: &mut Vec<(R, R)>) ensures final(v).len() == old(v).len(), reals2(final(v)@) == in_order(reals2(old(v)@)) { unimplemented!() }
pub open spec fn people(s: Seq<SabrState>) -> Seq<(real, real)> { Seq::new(s.len(), |i: int| (s[i].forward@, s[i].vol@)) }
pub open spec fn squares(s: Seq<(real, real)>) -> Seq<(real, real)> { Seq::new(s.len(), |i: int| (s[i].0, s[i].1 * s[i].1)) }
pub open spec fn sum_2(s: Seq<(real, real)>, a: int, b: int) -> real decreases b - a { if b <= a { 0real } else { sum_2(s, a, b - 1) + s[b - 1].1 } }
pub open spec fn bin_end(n: int, size: int, k: int) -> int { if (k + 1) * size <= n { (k + 1) * size } else { n } }
// bins of equal count of the population in order of forward (the last one may be smaller): right ends and means of the squared volatility
pub open spec fn bin_at(z: Seq<(real, real)>, n: int, size: int, k: int, u: real, m: real) -> bool {
    &&& k * size < n
    &&& u == z[bin_end(n, size, k) - 1].0
    &&& m == sum_2(z, k * size, bin_end(n, size, k)) / ((bin_end(n, size, k) - k * size) as real)
}
pub open spec fn binned(z: Seq<(real, real)>, n: int, size: int, u: Seq<R>, m: Seq<R>, c: int) -> bool {
    u.len() == c && m.len() == c && forall|k: int| 0 <= k < c ==> #[trigger] bin_at(z, n, size, k, u[k]@, m[k]@)
}
pub open spec fn bins_of(s: Seq<(real, real)>, nb: int, u: Seq<R>, m: Seq<R>, c: int) -> bool {
    binned(in_order(squares(s)), s.len() as int, (s.len() + nb - 1) / nb, u, m, c)
}
pub open spec fn all_bins(s: Seq<(real, real)>, nb: int, u: Seq<R>, m: Seq<R>) -> bool {
    let size = (s.len() + nb - 1) / nb;
    bins_of(s, nb, u, m, u.len() as int) && u.len() > 0 && u.len() * size >= s.len()
}
//@fn src/models/forex/sabr_slv.rs fn bin_vol_sq_by_forward
//@params states, nb
//@spec
    requires 0 < states.len() < usize::MAX / 2, 0 < nb < usize::MAX / 2
    ensures all_bins(people(states@), nb as int, r.0@, r.1@), r.0.len() == r.1.len()
//@local upper: Vec<R>
//@local means: Vec<R>
//@local __acc0: Vec<(R, R)>
//@loop 0
    invariant __k0 <= __n0, __n0 == states.len(), __s1@ == states@, __acc0.len() == __k0, forall|k: int| 0 <= k < __k0 ==> (#[trigger] __acc0[k]).0@ == states[k].forward@ && __acc0[k].1@ == states[k].vol@ * states[k].vol@,
    decreases __n0 - __k0
//@site sort_by_key_0
    proof {
        assert(reals2(indexed@) =~= squares(people(states@)));
        let (x, y) = (states.len() as int, nb as int);
        assert(0 < (x + y - 1) / y <= x) by (nonlinear_arith) requires x > 0, y > 0;
    }
//@loop 1
    invariant i <= n, n == states.len(), 0 < n < usize::MAX / 2, indexed.len() == n, bin_size == (n + nb - 1) / nb as int, 0 < bin_size < usize::MAX / 2, reals2(indexed@) == in_order(squares(people(states@))), people(states@).len() == n,
        binned(in_order(squares(people(states@))), n as int, bin_size as int, upper@, means@, upper.len() as int), i == (if upper.len() * bin_size <= n { upper.len() * bin_size } else { n as int }), i > 0 ==> upper.len() > 0,
    decreases n - i
//@loop 1 begin
    let ghost (u0, m0, c, i0) = (upper@, means@, upper.len() as int, i as int);
    let ghost z = in_order(squares(people(states@)));
    proof { let (x, y) = (c, bin_size as int); assert((x + 1) * y == x * y + y) by (nonlinear_arith); }
//@loop 1 end
    proof {
        let size = bin_size as int;
        assert(upper.len() == c + 1 && means.len() == c + 1);
        assert(i0 == c * size && i0 < n);
        assert(end == bin_end(n as int, size, c));
        assert(z[end - 1].0 == reals2(indexed@)[end - 1].0);
        assert(upper@[c]@ == z[end - 1].0);
        assert(means@[c]@ == sum_2(z, i0, end as int) / ((end - i0) as real));
        assert(bin_at(z, n as int, size, c, upper@[c]@, means@[c]@));
        assert forall|k: int| 0 <= k < upper.len() implies #[trigger] bin_at(z, n as int, size, k, upper@[k]@, means@[k]@) by {
            if k < c { assert(u0[k] == upper@[k] && m0[k] == means@[k]); assert(bin_at(z, n as int, size, k, u0[k]@, m0[k]@)); } else { assert(k == c); }
        }
        assert(binned(z, n as int, size, upper@, means@, upper.len() as int));
    }
//@loop 2
    invariant __k2 <= __n2, __n2 == end - i, i < end <= n, n == indexed.len(), __s2@ == indexed@.subrange(i as int, end as int), sum@ == sum_2(in_order(squares(people(states@))), i as int, i + __k2), reals2(indexed@) == in_order(squares(people(states@))),
    decreases __n2 - __k2
//@loop 2 begin
    proof { assert(__s2@[__k2 as int] == indexed@[i + __k2]); assert(reals2(indexed@)[i + __k2].1 == indexed@[i + __k2].1@); }
//@end
// the bin whose right end is the first at or beyond f, the last one beyond all
pub open spec fn bin_from(f: real, u: Seq<R>, k: int) -> int decreases u.len() - k { if k >= u.len() - 1 { u.len() - 1 } else if f <= u[k]@ { k } else { bin_from(f, u, k + 1) } }
//@fn src/models/forex/sabr_slv.rs fn lookup_bin
//@params f, ends, m
//@spec
    requires ends.len() == m.len(), ends.len() > 0
    ensures r@ == m[bin_from(f@, ends@, 0)]@
//@loop 0
    invariant __k0 <= __n0, __n0 == ends.len(), __s1@ == ends@, ends.len() == m.len(), bin_mean == m, ends.len() > 0, __k0 < ends.len() ==> bin_from(f@, ends@, 0) == bin_from(f@, ends@, __k0 as int), __k0 == ends.len() ==> bin_from(f@, ends@, 0) == ends.len() - 1,
    decreases __n0 - __k0
//@end
//@fn src/models/forex/sabr_slv.rs impl TimeDependentSabrSlvSimulator :: new => impl TimeDependentSabrSlvSimulator
//@params q, d, seed
//@spec
    ensures r.params == q, r.dupire == d, r.n_bins == 50, r.rng == seeded(seed)
//@end
//@fn src/models/forex/sabr_slv.rs impl TimeDependentSabrSlvSimulator :: with_bins => impl TimeDependentSabrSlvSimulator
//@params n
//@spec
    requires n >= 2
    ensures r.params == self.params, r.dupire == self.dupire, r.n_bins == n, r.rng == self.rng
//@end
pub open spec fn floor12(x: real) -> real { rmax(x, 1real / 1_000_000_000_000real) }
// what every particle sees during a step
pub struct Slice { pub p: SabrParams, pub mid: real, pub dt: real, pub u: Seq<R>, pub m: Seq<R> }
pub open spec fn scale_of(d: DupireLocalVol, c: Slice, f: real) -> real {
    let (l, e, b) = (d.read(c.mid, f), c.m[bin_from(f, c.u, 0)]@, rpowf(f, c.p.beta@ - 1real));
    rsqrt(rmax(l / floor12(e * (b * b)), 0real))
}
pub open spec fn moved(d: DupireLocalVol, c: Slice, x: (real, real), wf: real, wa: real) -> (real, real) {
    let (f, a) = (floor12(x.0), rmax(x.1, 0real));
    (rmax(f + scale_of(d, c, f) * a * rpowf(f, c.p.beta@) * wf, 0real), a * rexp(-(5real / 10real) * c.p.nu@ * c.p.nu@ * c.dt + c.p.nu@ * wa))
}
// the first i particles moved, one after the other
pub open spec fn crowd(d: DupireLocalVol, c: Slice, g: ChaCha20Rng, s: Seq<(real, real)>, i: int) -> (ChaCha20Rng, Seq<(real, real)>) decreases i {
    if i <= 0 { (g, Seq::empty()) } else {
        let (h, z) = crowd(d, c, g, s, i - 1);
        let (k, wf, wa) = noise(c.p, h, c.dt);
        (k, z.push(moved(d, c, s[i - 1], wf, wa)))
    }
}
pub open spec fn one_step(q: TimeDependentSabrParams, d: DupireLocalVol, nb: int, dt: real, k: int, g: ChaCha20Rng, s: Seq<(real, real)>, h: ChaCha20Rng, z: Seq<(real, real)>) -> bool {
    exists|c: Slice| #[trigger] sliced(q, nb, dt, k, s, c) && (h, z) == crowd(d, c, g, s, s.len() as int)
}
pub open spec fn sliced(q: TimeDependentSabrParams, nb: int, dt: real, k: int, s: Seq<(real, real)>, c: Slice) -> bool {
    c.mid == k as real * dt + (5real / 10real) * dt && c.dt == dt && c.p == q.now(c.mid) && all_bins(s, nb, c.u, c.m)
}
pub open spec fn slices(q: TimeDependentSabrParams, d: DupireLocalVol, nb: int, dt: real, k: int, g: ChaCha20Rng, s: Seq<(real, real)>, h: ChaCha20Rng, z: Seq<(real, real)>) -> bool decreases k {
    if k <= 0 { h == g && z == s } else { exists|a: ChaCha20Rng, b: Seq<(real, real)>| slices(q, d, nb, dt, k - 1, g, s, a, b) && #[trigger] one_step(q, d, nb, dt, k - 1, a, b, h, z) }
}
proof fn lemma_one_more(q: TimeDependentSabrParams, d: DupireLocalVol, nb: int, dt: real, k: int, g: ChaCha20Rng, s: Seq<(real, real)>, a: ChaCha20Rng, b: Seq<(real, real)>, h: ChaCha20Rng, z: Seq<(real, real)>)
    requires k >= 0, slices(q, d, nb, dt, k, g, s, a, b), one_step(q, d, nb, dt, k, a, b, h, z)
    ensures slices(q, d, nb, dt, k + 1, g, s, h, z)
{
    assert(one_step(q, d, nb, dt, (k + 1) - 1, a, b, h, z));
}
pub open spec fn start(q: TimeDependentSabrParams, n: int) -> Seq<(real, real)> { Seq::new(n as nat, |i: int| (q.forward_0@, q.alpha.at_s(0real)@)) }
//@fn src/models/forex/sabr_slv.rs impl TimeDependentSabrSlvSimulator :: simulate => impl TimeDependentSabrSlvSimulator
//@params end, n, m
//@local states: Vec<SabrState>
//@local __acc0: Vec<SabrState>
//@spec
    requires old(self).params.ok(), old(self).dupire.ok(), 0 < old(self).n_bins < usize::MAX / 2, n > 0, 0 < m < usize::MAX / 2, end@ > 0real, old(self).params.alpha.covers(end@)
    ensures final(self).params == old(self).params, final(self).dupire == old(self).dupire, final(self).n_bins == old(self).n_bins, r.len() == m,
        slices(old(self).params, old(self).dupire, old(self).n_bins as int, end@ / (n as int as real), n as int, old(self).rng, start(old(self).params, m as int), final(self).rng, people(r@))
//@entry
    let ghost (q, u, nb, g, d) = (self.params, self.dupire, self.n_bins as int, self.rng, end@ / (n as int as real));
    proof { lemma_time(0, n as int, d, end@); assert(q.alpha.knots[0]@ < q.alpha.knots[q.alpha.knots.len() - 1]@); }
//@loop 0
    invariant __k0 <= __n0, __n0 == m, __lo1 == 0, self.params == q, alpha0 == q.alpha.at_s(0real), __acc0.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __acc0[i]).forward == q.forward_0 && __acc0[i].vol@ == q.alpha.at_s(0real)@,
    decreases __n0 - __k0
//@loop 0 after
    proof { assert(people(__acc0@) =~= start(q, m as int)); }
//@loop 1
    invariant 0 <= __k1 <= n, __n1 == n, n > 0, 0 < m < usize::MAX / 2, self.params == q, self.dupire == u, self.n_bins == nb, q.ok(), u.ok(), 0 < nb < usize::MAX / 2, dt@ == d, d > 0real, sqrt_dt@ == rsqrt(d), d == end@ / (n as int as real), end@ > 0real, q.alpha.covers(end@), t@ == __k1 as real * d,
        states.len() == m, slices(q, u, nb, d, __k1 as int, g, start(q, m as int), self.rng, people(states@)),
    decreases n - __k1
//@loop 1 begin
    let ghost (s0, g0, k0) = (people(states@), self.rng, __k1 as int);
    proof { lemma_time(__k1 as int, n as int, d, end@); lemma_now(q, k0 as real * d + (5real / 10real) * d); }
//@loop 1 end
    proof {
        let c = Slice { p: pm, mid: t_mid@, dt: d, u: bin_upper@, m: bin_mean@ };
        assert(sliced(q, nb, d, k0, s0, c));
        assert(people(states@).take(m as int) =~= people(states@));
        assert(one_step(q, u, nb, d, k0, g0, s0, self.rng, people(states@)));
        lemma_one_more(q, u, nb, d, k0, g, start(q, m as int), g0, s0, self.rng, people(states@));
    }
//@loop 2
    invariant __k2 <= __n2, __n2 == m, states.len() == m, s0.len() == m, self.params == q, self.dupire == u, self.n_bins == nb, u.ok(), sqrt_dt@ == rsqrt(d), dt@ == d, sqrt_1mr2@ == rsqrt(1real - pm.rho@ * pm.rho@), bin_upper.len() == bin_mean.len(), bin_upper.len() > 0,
        crowd(u, Slice { p: pm, mid: t_mid@, dt: d, u: bin_upper@, m: bin_mean@ }, g0, s0, __k2 as int) == (self.rng, people(states@).take(__k2 as int)), forall|j: int| __k2 <= j < m ==> (#[trigger] states[j]).forward@ == s0[j].0 && states[j].vol@ == s0[j].1,
    decreases __n2 - __k2
//@loop 2 begin
    let ghost (b0, j0) = (states@, __k2 as int);
//@loop 2 end
    proof {
        let c = Slice { p: pm, mid: t_mid@, dt: d, u: bin_upper@, m: bin_mean@ };
        assert(people(states@).take(j0 + 1) =~= people(b0).take(j0).push((new_f@, new_vol@)));
        assert((new_f@, new_vol@) == moved(u, c, s0[j0], dw_f@, dw_a@));
    }
//@end
