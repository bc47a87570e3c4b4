// Total variance of one caplet
//@item src/derivatives/interestrate/basic.rs :: enum CapStyle => #[derive(Clone, Copy)]
//@item src/derivatives/interestrate/basic.rs :: enum CapFloorKind => #[derive(Clone, Copy)]
// sigma squared times the time to the fixing; in the accrual period the volatility of a backward-looking rate decays linearly to zero
pub open spec fn tvar(c: CapStyle, s: real, a: real, b: real) -> real {
    if b <= 0real { 0real }
    else {
        match c {
            CapStyle::ForwardLooking => s * s * rmax(a, 0real),
            CapStyle::BackwardCompounded => if a >= 0real { s * s * (a + (b - a) / 3real) } else { s * s * (b * b * b) / (3real * (b - a) * (b - a)) },
        }
    }
}
pub proof fn lemma_cube(x: real) ensures rpow(x, 3) == x * x * x {
    reveal_with_fuel(rpow, 4);
    assert(x * (x * (x * 1real)) == x * x * x) by (nonlinear_arith);
}
//@fn src/derivatives/interestrate/basic.rs fn caplet_total_variance
//@params c, s, a, b
//@spec
    ensures r@ == tvar(c, s@, a@, b@)
//@entry
    proof {
        lemma_cube(b@);
        let d = b@ - a@;
        if b@ > 0real && a@ < 0real { assert(3real * d * d > 0real) by (nonlinear_arith) requires d > 0real; }
    }
//@end
