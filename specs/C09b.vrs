use vstd::prelude::*;
verus! {
//@include prelude/rules.vrs
// France, Settlement: the days of the KNOWN FINDING (Ascension, Whit Monday; closed on 10 and 21 May instead) are left out
pub open spec fn listed(d: int, m: int, k: int, e: int) -> bool { k == e + 38 || k == e + 49 || fx(d, m, 10, 5) || fx(d, m, 21, 5) }
//@item src/time/calendars/france.rs :: enum FranceMarket
//@item src/time/calendars/france.rs :: struct France
//@fn src/time/calendars/france.rs impl France :: settlement_is_business_day => impl France
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures listed(day(date@), month(date@), yday(date@), em(year(date@))) || r == !france_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/france.rs impl France :: exchange_is_business_day => impl France
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !france_exchange(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/france.rs impl Calendar for France :: is_business_day => impl France
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures match self.market { Some(FranceMarket::Exchange) => r == !france_exchange(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), _ => listed(day(date@), month(date@), yday(date@), em(year(date@))) || r == !france_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))) }
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/germany.rs :: enum GermanyMarket
//@item src/time/calendars/germany.rs :: struct Germany
//@fn src/time/calendars/germany.rs impl Germany :: settlement_is_business_day => impl Germany
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !germany_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/germany.rs impl Germany :: frankfurt_stock_exchange_is_business_day => impl Germany
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !germany_frankfurt(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/germany.rs impl Germany :: eurex_is_business_day => impl Germany
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !germany_eurex(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/germany.rs impl Germany :: euwax_is_business_day => impl Germany
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !germany_euwax(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/germany.rs impl Calendar for Germany :: is_business_day => impl Germany
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(GermanyMarket::Settlement) => germany_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(GermanyMarket::FrankfurtStockExchange) => germany_frankfurt(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(GermanyMarket::Xetra) => germany_frankfurt(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(GermanyMarket::Eurex) => germany_eurex(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(GermanyMarket::Euwax) => germany_euwax(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => germany_frankfurt(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Hungary;
//@fn src/time/calendars/hungary.rs impl Calendar for Hungary :: is_business_day => impl Hungary
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !hungary(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Iceland;
//@fn src/time/calendars/iceland.rs impl Calendar for Iceland :: is_business_day => impl Iceland
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !iceland(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/italy.rs :: enum ItalyMarket
//@item src/time/calendars/italy.rs :: struct Italy
//@fn src/time/calendars/italy.rs impl Italy :: settlement_is_business_day => impl Italy
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !italy_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/italy.rs impl Italy :: exchange_is_business_day => impl Italy
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !italy_exchange(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/italy.rs impl Calendar for Italy :: is_business_day => impl Italy
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(ItalyMarket::Settlement) => italy_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(ItalyMarket::Exchange) => italy_exchange(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => italy_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Japan;
//@fn src/time/calendars/japan.rs impl Japan :: vernal_equinox_day => impl Japan
//@params y
//@spec
    requires 1901 <= y <= 2199
    ensures r == japan_vernal(y as int), 0 < r < 40
//@end
//@fn src/time/calendars/japan.rs impl Japan :: autumnal_equinox_day => impl Japan
//@params y
//@spec
    requires 1901 <= y <= 2199
    ensures r == japan_autumnal(y as int), 0 < r < 40
//@end
//@fn src/time/calendars/japan.rs impl Calendar for Japan :: is_business_day => impl Japan
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !japan(day(date@), wd(date@), month(date@), year(date@), japan_vernal(year(date@)), japan_autumnal(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Mexico;
//@fn src/time/calendars/mexico.rs impl Calendar for Mexico :: is_business_day => impl Mexico
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !mexico(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/newzealand.rs :: enum NewZealandMarket
//@item src/time/calendars/newzealand.rs :: struct NewZealand
//@fn src/time/calendars/newzealand.rs impl NewZealand :: common_is_business_day => impl NewZealand
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !new_zealand(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/newzealand.rs impl NewZealand :: wellington_is_business_day => impl NewZealand
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !new_zealand_wellington(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/newzealand.rs impl NewZealand :: auckland_is_business_day => impl NewZealand
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !new_zealand_auckland(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/newzealand.rs impl Calendar for NewZealand :: is_business_day => impl NewZealand
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(NewZealandMarket::Wellington) => new_zealand_wellington(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(NewZealandMarket::Auckland) => new_zealand_auckland(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => new_zealand_wellington(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Norway;
//@fn src/time/calendars/norway.rs impl Calendar for Norway :: is_business_day => impl Norway
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !norway(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
} // verus!
fn main() {}
