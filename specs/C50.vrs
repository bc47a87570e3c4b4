use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/rng.vrs
//@include prelude/fxhhw.vrs
//@include prelude/fxstock.vrs
proof fn vacuity_stock(s: FxHhwStockSimulator) requires s.ok(), factors(s.base_chol, s.fx.correlations, 4, 0), z_stock(s.stock, s.rng) > 1real { broadcast use axiom_exp, axiom_ln, axiom_sqrt; lemma_unit(s.stock.rho_xi_sf@); assert(false); }
}
fn main() {}
