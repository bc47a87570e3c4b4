// FX market data and trades.
//@item src/markets/forex/market_context.rs :: struct FxMarketContext
//@item src/derivatives/basic.rs :: enum Direction => #[derive(Clone, Copy)]
//@item src/derivatives/basic.rs :: enum Style
//@item src/derivatives/basic.rs :: struct BasicInfo
//@item src/derivatives/forex/basic.rs :: struct CurrencyValue
pub open spec fn sgn(d: Direction) -> real { match d { Direction::Buy => 1real, Direction::Sell => 0real - 1real } }
pub open spec fn pip(p: FXUnderlying) -> real { if dom(p) is JPY { 100real } else { 10000real } }
impl FxMarketContext {
    // the market can be asked about a trade in pair p on day t
    pub open spec fn ok(&self, p: FXUnderlying, t: int) -> bool {
        &&& self.domestic_curve.ok() && fin(t)
        &&& forall|c: Cal| #[trigger] is_pair_cal(c, p) ==> self.forwards.ok(c)
    }
    // day t lies within the quoted forwards of pair p
    pub open spec fn quoted(&self, p: FXUnderlying, t: int, q: bool) -> bool { exists|c: Cal| #[trigger] is_pair_cal(c, p) && self.forwards.inside(c, t) == q }
    // x is an outright forward of pair p for day t: spot plus the forward points in pips
    pub open spec fn fwd(&self, p: FXUnderlying, t: int, x: real) -> bool {
        exists|c: Cal, y: real| #[trigger] is_pair_cal(c, p) && #[trigger] self.forwards.points(c, t, y) && x == self.spot@ + y / pip(p)
    }
}
