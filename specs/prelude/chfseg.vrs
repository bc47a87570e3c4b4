// Heston's constant and the loadings of the rate variances over segments of constant coefficients
pub open spec fn heston_a_s(u: CV, kappa: real, theta: real, gamma: real, rho: real, tau: real) -> CV {
    let (x, d) = (hx(u, kappa, gamma, rho), hd(u, kappa, gamma, rho));
    let g = cdiv(csub(x, d), cadd(x, d));
    let e = cexp(cscale(tau, cneg(d)));
    if tau <= 0real { c0() } else {
        cmul(cdiv(cv(kappa * theta, 0real), cmul(cv(gamma, 0real), cv(gamma, 0real))),
            csub(cscale(tau, csub(x, d)), cscale(2real, cln(cdiv(csub(c1(), cmul(g, e)), csub(c1(), g))))))
    }
}
// D' = A (B^2 - B)/2 - lambda D + eta^2 D^2/2 from D = d0 over the length s: the new D, and lambda v0 times the integral of D
pub open spec fn delta_s(u: CV, lambda: real, eta: real, a: real) -> CV { csqrt(cadd(cv(lambda * lambda, 0real), cmul(cv(eta * eta * a, 0real), u2iu(u)))) }
pub open spec fn ell_s(u: CV, lambda: real, eta: real, a: real, d0: CV) -> CV {
    let de = delta_s(u, lambda, eta, a);
    cdiv(csub(csub(cv(lambda, 0real), de), cmul(cv(eta * eta, 0real), d0)), csub(cadd(cv(lambda, 0real), de), cmul(cv(eta * eta, 0real), d0)))
}
pub open spec fn riccati_d(u: CV, lambda: real, eta: real, a: real, d0: CV, s: real) -> CV {
    let de = delta_s(u, lambda, eta, a);
    let e = cexp(cscale(s, cneg(de)));
    if s <= 0real { d0 } else {
        cadd(d0, cdiv(cmul(csub(csub(cv(lambda, 0real), de), cmul(cv(eta * eta, 0real), d0)), csub(c1(), e)), cmul(cv(eta * eta, 0real), csub(c1(), cmul(ell_s(u, lambda, eta, a, d0), e)))))
    }
}
pub open spec fn riccati_a(u: CV, lambda: real, eta: real, a: real, v0: real, d0: CV, s: real) -> CV {
    let de = delta_s(u, lambda, eta, a);
    let ell = ell_s(u, lambda, eta, a, d0);
    let e = cexp(cscale(s, cneg(de)));
    if s <= 0real { c0() } else {
        cmul(cv(v0 * lambda / (eta * eta), 0real), csub(cscale(s, csub(cv(lambda, 0real), de)), cscale(2real, cln(cdiv(csub(c1(), cmul(ell, e)), csub(c1(), ell))))))
    }
}
// Heston's parameters and those of the two rate variances
pub struct Chf { pub kappa: real, pub theta: real, pub gamma: real, pub rho: real, pub ld: real, pub ed: real, pub vd: real, pub lf: real, pub ef: real, pub vf: real }
// a segment of time left: its ends, the coefficients of the two rate variances and the integral of the cross terms over it
pub struct Seg { pub lo: real, pub hi: real, pub len: real, pub ad: real, pub af: real, pub f: real }
pub open spec fn walk_d(u: CV, lambda: real, eta: real, v: Seq<Seg>, domestic: bool, n: int) -> CV decreases n {
    if n <= 0 { c0() } else { riccati_d(u, lambda, eta, if domestic { v[n - 1].ad } else { v[n - 1].af }, walk_d(u, lambda, eta, v, domestic, n - 1), v[n - 1].len) }
}
pub open spec fn walk_step(u: CV, p: Chf, v: Seq<Seg>, n: int) -> CV {
    let g = v[n];
    cadd(cadd(cadd(
        csub(heston_a_s(u, p.kappa, p.theta, p.gamma, p.rho, g.hi), heston_a_s(u, p.kappa, p.theta, p.gamma, p.rho, g.lo)),
        riccati_a(u, p.ld, p.ed, g.ad, p.vd, walk_d(u, p.ld, p.ed, v, true, n), g.len)),
        riccati_a(u, p.lf, p.ef, g.af, p.vf, walk_d(u, p.lf, p.ef, v, false, n), g.len)),
        cmul(cscale(0real - 5real / 10real, u2iu(u)), cv(g.f, 0real)))
}
pub open spec fn walk_a(u: CV, p: Chf, v: Seq<Seg>, n: int) -> CV decreases n { if n <= 0 { c0() } else { cadd(walk_a(u, p, v, n - 1), walk_step(u, p, v, n - 1)) } }
// at u = 0 and u = -i everything vanishes
#[verifier::external_body]
proof fn axiom_cln_one() ensures cln(c1()) == c0() { }
proof fn lemma_one_over_one() ensures cdiv(c1(), c1()) == c1() { assert(1real * 1real == 1real && 1real * 0real == 0real && 0real * 1real == 0real && 0real * 0real == 0real && 1real / 1real == 1real && 0real / 1real == 0real) by (nonlinear_arith); }
proof fn lemma_zero_over_real(w: real) requires w != 0real ensures cdiv(c0(), cv(w, 0real)) == c0() { lemma_zero_over(w); }
proof fn lemma_riccati_vanishes(u: CV, lambda: real, eta: real, a: real, v0: real, s: real)
    requires unit(u), lambda > 0real, eta > 0real
    ensures riccati_d(u, lambda, eta, a, c0(), s) == c0(), riccati_a(u, lambda, eta, a, v0, c0(), s) == c0()
{
    lemma_unit(u);
    lemma_times_zero(cv(eta * eta * a, 0real));
    axiom_csqrt_real(lambda);
    let de = delta_s(u, lambda, eta, a);
    assert(cadd(cv(lambda * lambda, 0real), c0()) == cv(lambda * lambda, 0real));
    assert(de == cv(lambda, 0real));
    lemma_times_zero(cv(eta * eta, 0real));
    let num = csub(csub(cv(lambda, 0real), de), cmul(cv(eta * eta, 0real), c0()));
    assert(num == c0());
    assert(csub(cadd(cv(lambda, 0real), de), cmul(cv(eta * eta, 0real), c0())) == cv(lambda + lambda, 0real));
    lemma_zero_over(lambda + lambda);
    let ell = ell_s(u, lambda, eta, a, c0());
    assert(ell == c0());
    let e = cexp(cscale(s, cneg(de)));
    lemma_times_zero(e); lemma_times_zero(csub(c1(), e));
    assert(csub(c1(), c0()) == c1());
    let q = eta * eta;
    assert(q > 0real) by (nonlinear_arith) requires eta > 0real, q == eta * eta;
    lemma_real_mul(q, 1real);
    assert(q * 1real == q) by (nonlinear_arith);
    lemma_zero_over(q);
    assert(cadd(c0(), c0()) == c0());
    lemma_one_over_one(); axiom_cln_one(); lemma_scale_zero(s); lemma_scale_zero(2real);
    assert(csub(cv(lambda, 0real), de) == c0());
    assert(csub(c0(), c0()) == c0());
    lemma_times_zero(cv(v0 * lambda / (eta * eta), 0real));
}
proof fn lemma_heston_a_vanishes(u: CV, kappa: real, theta: real, gamma: real, rho: real, tau: real)
    requires unit(u), kappa - (if u == c0() { 0real } else { gamma * rho }) > 0real
    ensures heston_a_s(u, kappa, theta, gamma, rho, tau) == c0()
{
    lemma_heston_root(u, kappa, gamma, rho);
    let xr = kappa - (if u == c0() { 0real } else { gamma * rho });
    let (x, d) = (hx(u, kappa, gamma, rho), hd(u, kappa, gamma, rho));
    assert(csub(x, d) == c0());
    assert(cadd(x, d) == cv(xr + xr, 0real));
    lemma_zero_over(xr + xr);
    let e = cexp(cscale(tau, cneg(d)));
    lemma_times_zero(e);
    assert(csub(c1(), c0()) == c1());
    lemma_one_over_one(); axiom_cln_one(); lemma_scale_zero(tau); lemma_scale_zero(2real);
    assert(csub(c0(), c0()) == c0());
    lemma_times_zero(cdiv(cv(kappa * theta, 0real), cmul(cv(gamma, 0real), cv(gamma, 0real))));
}
proof fn lemma_walk_vanishes(u: CV, p: Chf, v: Seq<Seg>, n: int)
    requires unit(u), 0 <= n <= v.len(), p.ld > 0real, p.ed > 0real, p.lf > 0real, p.ef > 0real, p.kappa - (if u == c0() { 0real } else { p.gamma * p.rho }) > 0real
    ensures walk_a(u, p, v, n) == c0(), walk_d(u, p.ld, p.ed, v, true, n) == c0(), walk_d(u, p.lf, p.ef, v, false, n) == c0()
    decreases n
{
    if n > 0 {
        lemma_walk_vanishes(u, p, v, n - 1);
        let g = v[n - 1];
        lemma_riccati_vanishes(u, p.ld, p.ed, g.ad, p.vd, g.len);
        lemma_riccati_vanishes(u, p.lf, p.ef, g.af, p.vf, g.len);
        lemma_heston_a_vanishes(u, p.kappa, p.theta, p.gamma, p.rho, g.hi);
        lemma_heston_a_vanishes(u, p.kappa, p.theta, p.gamma, p.rho, g.lo);
        lemma_unit(u);
        lemma_scale_zero(0real - 5real / 10real);
        lemma_times_zero(cv(g.f, 0real));
        assert(csub(c0(), c0()) == c0() && cadd(c0(), c0()) == c0());
    }
}
