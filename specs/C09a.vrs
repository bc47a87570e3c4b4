use vstd::prelude::*;
verus! {
//@include prelude/rules.vrs
pub struct Argentina;
//@fn src/time/calendars/argentina.rs impl Calendar for Argentina :: is_business_day => impl Argentina
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !argentina(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/austria.rs :: enum AustriaMarket
//@item src/time/calendars/austria.rs :: struct Austria
//@fn src/time/calendars/austria.rs impl Austria :: settlement_is_business_day => impl Austria
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !austria_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/austria.rs impl Austria :: exchange_is_business_day => impl Austria
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !austria_exchange(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/austria.rs impl Calendar for Austria :: is_business_day => impl Austria
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(AustriaMarket::Settlement) => austria_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(AustriaMarket::Exchange) => austria_exchange(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => austria_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/australia.rs :: enum AustraliaMarket
//@item src/time/calendars/australia.rs :: struct Australia
//@fn src/time/calendars/australia.rs impl Australia :: shared_holiday => impl Australia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == australia_asx(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/australia.rs impl Australia :: extra_holiday => impl Australia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == (nth(day(date@), wd(date@), month(date@), 1, 0, 8) || nth(day(date@), wd(date@), month(date@), 1, 0, 10))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/australia.rs impl Australia :: settlement_is_business_day => impl Australia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !australia_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/australia.rs impl Australia :: asx_is_business_day => impl Australia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !australia_asx(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/australia.rs impl Calendar for Australia :: is_business_day => impl Australia
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(AustraliaMarket::Settlement) => australia_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(AustraliaMarket::ASX) => australia_asx(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => australia_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Botswana;
//@fn src/time/calendars/botswana.rs impl Calendar for Botswana :: is_business_day => impl Botswana
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !botswana(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/brazil.rs :: enum BrazilMarket
//@item src/time/calendars/brazil.rs :: struct Brazil
//@fn src/time/calendars/brazil.rs impl Brazil :: settlement_is_business_day => impl Brazil
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !brazil_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/brazil.rs impl Brazil :: exchange_is_business_day => impl Brazil
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !brazil_exchange(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/brazil.rs impl Calendar for Brazil :: is_business_day => impl Brazil
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(BrazilMarket::Settlement) => brazil_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(BrazilMarket::Exchange) => brazil_exchange(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => brazil_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@item src/time/calendars/canada.rs :: enum CanadaMarket
//@item src/time/calendars/canada.rs :: struct Canada
//@fn src/time/calendars/canada.rs impl Canada :: shared_holiday => impl Canada
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == canada_tsx(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/canada.rs impl Canada :: extra_holiday => impl Canada
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == we_mon(day(date@), wd(date@), month(date@), 11, 11)
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/canada.rs impl Canada :: settlement_is_business_day => impl Canada
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !canada_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/canada.rs impl Canada :: tsx_is_business_day => impl Canada
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !canada_tsx(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/canada.rs impl Calendar for Canada :: is_business_day => impl Canada
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !(match self.market { Some(CanadaMarket::Settlement) => canada_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), Some(CanadaMarket::TSX) => canada_tsx(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), None => canada_settlement(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@))), })
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@table src/time/calendars/chile.rs ABORIGINAL_PEOPLE_DAY
pub struct Chile;
pub open spec fn solstice(y: int) -> int { if y < 2021 { 0 } else { ABORIGINAL_PEOPLE_DAY_spec()[y - 2021] } }
//@fn src/time/calendars/chile.rs impl Chile :: is_aboriginal_people_day => impl Chile
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == (month(date@) == 6 && year(date@) >= 2021 && day(date@) == solstice(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
//@fn src/time/calendars/chile.rs impl Calendar for Chile :: is_business_day => impl Chile
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !chile(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)), solstice(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct CzechRepublic;
//@fn src/time/calendars/czechrepublic.rs impl Calendar for CzechRepublic :: is_business_day => impl CzechRepublic
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !czech_republic(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Denmark;
//@fn src/time/calendars/denmark.rs impl Calendar for Denmark :: is_business_day => impl Denmark
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !denmark(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
pub struct Finland;
//@fn src/time/calendars/finland.rs impl Calendar for Finland :: is_business_day => impl Finland
//@params date
//@spec
    requires 1901 <= year(date@) <= 2199
    ensures r == !finland(day(date@), wd(date@), month(date@), year(date@), yday(date@), em(year(date@)))
//@entry
    proof { broadcast use axiom_civil;  }
//@end
} // verus!
fn main() {}
