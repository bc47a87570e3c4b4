use vstd::prelude::*;
verus! {
//@include prelude/rules.vrs
//@item src/time/calendars/poland.rs :: enum PolandMarket
//@item src/time/calendars/poland.rs :: struct Poland
//@fn src/time/calendars/poland.rs impl Poland :: settlement_is_business_day => impl Poland
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !poland_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/poland.rs impl Poland :: wse_is_business_day => impl Poland
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !poland_wse(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/poland.rs impl Calendar for Poland :: is_business_day => impl Poland
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(PolandMarket::Settlement) => poland_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(PolandMarket::WSE) => poland_wse(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => poland_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Romania;
//@fn src/time/calendars/romania.rs impl Calendar for Romania :: is_business_day => impl Romania
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !romania(day(date@), wd(date@), month(date@), year(date@), yday(date@), om(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/russia.rs :: enum RussiaMarket
//@item src/time/calendars/russia.rs :: struct Russia
//@fn src/time/calendars/russia.rs impl Russia :: settlement_is_business_day => impl Russia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !russia_settlement(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/russia.rs impl Russia :: exchange_is_business_day => impl Russia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !russia_exchange(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/russia.rs impl Calendar for Russia :: is_business_day => impl Russia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(RussiaMarket::Settlement) => russia_settlement(day(date@), wd(date@), month(date@), year(date@)), Some(RussiaMarket::Exchange) => russia_exchange(day(date@), wd(date@), month(date@), year(date@)), None => russia_settlement(day(date@), wd(date@), month(date@), year(date@)), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Slovakia;
//@fn src/time/calendars/slovakia.rs impl Calendar for Slovakia :: is_business_day => impl Slovakia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !slovakia(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct SouthAfrica;
//@fn src/time/calendars/southafrica.rs impl Calendar for SouthAfrica :: is_business_day => impl SouthAfrica
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !south_africa(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Sweden;
//@fn src/time/calendars/sweden.rs impl Calendar for Sweden :: is_business_day => impl Sweden
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !sweden(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Switzerland;
//@fn src/time/calendars/switzerland.rs impl Calendar for Switzerland :: is_business_day => impl Switzerland
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !switzerland(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Target;
//@fn src/time/calendars/target.rs impl Calendar for Target :: is_business_day => impl Target
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !target(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Ukraine;
//@fn src/time/calendars/ukraine.rs impl Calendar for Ukraine :: is_business_day => impl Ukraine
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !ukraine(day(date@), wd(date@), month(date@), year(date@), yday(date@), om(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/unitedkingdom.rs :: enum UnitedKingdomMarket
//@item src/time/calendars/unitedkingdom.rs :: struct UnitedKingdom
//@fn src/time/calendars/unitedkingdom.rs impl UnitedKingdom :: settlement_is_business_day => impl UnitedKingdom
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !united_kingdom(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedkingdom.rs impl UnitedKingdom :: exchange_is_business_day => impl UnitedKingdom
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !united_kingdom(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedkingdom.rs impl UnitedKingdom :: metals_is_business_day => impl UnitedKingdom
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !united_kingdom(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedkingdom.rs impl Calendar for UnitedKingdom :: is_business_day => impl UnitedKingdom
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(UnitedKingdomMarket::Settlement) => united_kingdom(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(UnitedKingdomMarket::Exchange) => united_kingdom(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(UnitedKingdomMarket::Metals) => united_kingdom(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => united_kingdom(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct WeekendsOnly;
//@fn src/time/calendars/weekendsonly.rs impl Calendar for WeekendsOnly :: is_business_day => impl WeekendsOnly
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !wkend(wd(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
} // verus!
fn main() {}
