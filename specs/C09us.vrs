use vstd::prelude::*;
verus! {
//@include prelude/rules.vrs
//@item src/time/calendars/unitedstates.rs :: enum UnitedStatesMarket
//@item src/time/calendars/unitedstates.rs :: struct UnitedStates
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: is_washington_birthday => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == us_washington(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: is_memorial_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == us_memorial(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: is_labor_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == nth(day(date@), wd(date@), month(date@), 1, 0, 9)
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: is_columbus_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == us_columbus(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: is_veterans_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == us_veterans(day(date@), wd(date@), month(date@), year(date@), true)
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: is_veterans_day_no_saturday => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == us_veterans(day(date@), wd(date@), month(date@), year(date@), false)
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: is_juneteenth => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == us_juneteenth(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: settlement_is_business_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !us_settlement(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: libor_is_business_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !us_libor(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: nyse_is_business_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !us_nyse(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: government_bond_is_business_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !us_government_bond(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: sofr_is_business_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !us_sofr(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: nerc_is_business_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !us_nerc(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl UnitedStates :: federal_reserve_is_holiday => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !us_federal_reserve(day(date@), wd(date@), month(date@), year(date@))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/unitedstates.rs impl Calendar for UnitedStates :: is_business_day => impl UnitedStates
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(UnitedStatesMarket::Settlement) => us_settlement(day(date@), wd(date@), month(date@), year(date@)), Some(UnitedStatesMarket::Libor) => us_libor(day(date@), wd(date@), month(date@), year(date@)), Some(UnitedStatesMarket::NYSE) => us_nyse(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(UnitedStatesMarket::GovernmentBond) => us_government_bond(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(UnitedStatesMarket::SOFR) => us_sofr(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(UnitedStatesMarket::NERC) => us_nerc(day(date@), wd(date@), month(date@), year(date@)), Some(UnitedStatesMarket::FederalReserve) => us_federal_reserve(day(date@), wd(date@), month(date@), year(date@)), None => us_settlement(day(date@), wd(date@), month(date@), year(date@)), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
} // verus!
fn main() {}
