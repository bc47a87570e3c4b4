// where B^2 = B (u = 0 and u = -i) Heston's C and the drift vanish
#[verifier::external_body]
proof fn axiom_csqrt_real(x: real) ensures csqrt(cv(x * x, 0real)) == cv(rabs(x), 0real) { }
proof fn lemma_times_zero(a: CV) ensures cmul(a, c0()) == c0(), cmul(c0(), a) == c0() { let (x, y) = (a.re, a.im); assert(x * 0real == 0real && y * 0real == 0real && 0real * x == 0real && 0real * y == 0real) by (nonlinear_arith); }
proof fn lemma_scale_zero(x: real) ensures cscale(x, c0()) == c0() { assert(x * 0real == 0real) by (nonlinear_arith); }
proof fn lemma_real_mul(x: real, y: real) ensures cmul(cv(x, 0real), cv(y, 0real)) == cv(x * y, 0real) { assert(x * 0real == 0real && 0real * y == 0real && 0real * 0real == 0real) by (nonlinear_arith); }
proof fn lemma_zero_over(w: real) requires w != 0real ensures cdiv(c0(), cv(w, 0real)) == c0() {
    assert(w * w > 0real && 0real * w == 0real && 0real * 0real == 0real) by (nonlinear_arith) requires w != 0real;
    let n = cnorm2(cv(w, 0real));
    assert(n == w * w);
    assert(0real / n == 0real) by (nonlinear_arith) requires n > 0real;
}
pub open spec fn unit(u: CV) -> bool { u == c0() || u == cv(0real, 0real - 1real) }
proof fn lemma_unit(u: CV) requires unit(u) ensures iu_s(u) == (if u == c0() { c0() } else { c1() }), u2iu(u) == c0() {
    assert(0real * 0real == 0real && 1real * (0real - 1real) == 0real - 1real && 1real * 0real == 0real && 0real * (0real - 1real) == 0real && (0real - 1real) * (0real - 1real) == 1real && (0real - 1real) * 0real == 0real) by (nonlinear_arith);
}
// there Heston's root is its x
proof fn lemma_heston_root(u: CV, kappa: real, gamma: real, rho: real)
    requires unit(u), kappa - (if u == c0() { 0real } else { gamma * rho }) > 0real
    ensures ({ let x = cv(kappa - (if u == c0() { 0real } else { gamma * rho }), 0real); hx(u, kappa, gamma, rho) == x && hd(u, kappa, gamma, rho) == x }), csub(cmul(iu_s(u), iu_s(u)), iu_s(u)) == c0()
{
    lemma_unit(u);
    let m = if u == c0() { 0real } else { 1real };
    let iu = iu_s(u);
    assert(iu == cv(m, 0real));
    assert(m * m == m && m * (m - 1real) == 0real && gamma * rho * m == (if u == c0() { 0real } else { gamma * rho })) by (nonlinear_arith) requires m == 0real || m == 1real, m == (if u == c0() { 0real } else { 1real });
    lemma_real_mul(m, m);
    lemma_real_mul(gamma, rho); lemma_real_mul(gamma * rho, m);
    let x = hx(u, kappa, gamma, rho);
    let xr = kappa - gamma * rho * m;
    assert(x == cv(xr, 0real));
    lemma_real_mul(gamma, gamma); lemma_real_mul(gamma * gamma, m); lemma_real_mul(gamma * gamma * m, m - 1real); lemma_real_mul(xr, xr);
    let g2 = gamma * gamma;
    assert(g2 * m * (m - 1real) == 0real) by (nonlinear_arith) requires m * (m - 1real) == 0real;
    axiom_csqrt_real(xr);
    assert(csub(iu, c1()) == cv(m - 1real, 0real));
    assert(csub(cmul(x, x), cmul(cmul(cmul(cv(gamma, 0real), cv(gamma, 0real)), iu), csub(iu, c1()))) == cv(xr * xr, 0real));
}
proof fn lemma_heston_vanishes(u: CV, kappa: real, gamma: real, rho: real, tau: real)
    requires unit(u), kappa - (if u == c0() { 0real } else { gamma * rho }) > 0real
    ensures heston_c_s(u, kappa, gamma, rho, tau) == c0()
{
    lemma_heston_root(u, kappa, gamma, rho);
    let xr = kappa - (if u == c0() { 0real } else { gamma * rho });
    let (x, d) = (hx(u, kappa, gamma, rho), hd(u, kappa, gamma, rho));
    let e = cexp(cscale(tau, cneg(d)));
    lemma_times_zero(e);
    lemma_times_zero(csub(c1(), e));
    assert(csub(x, d) == c0());
    assert(csub(cadd(x, d), cmul(csub(x, d), e)) == cv(xr + xr, 0real));
    lemma_zero_over(xr + xr);
}
