//@item src/markets/interestrate/market_context.rs :: struct IrMarketContext
