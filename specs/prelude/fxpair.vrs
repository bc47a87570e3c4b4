// FX pairs: currencies, calendars, lag and pip scale; contracts discharged against src/derivatives/forex/basic.rs.
//@type Box<dyn Calendar> => Cal
//@call Box::new => boxed
//@item src/derivatives/forex/basic.rs :: enum FXUnderlying => #[derive(Clone, Copy, PartialEq, Eq, Structural)]
// iso_currency's Currency: the variants the crate names, and all the others
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Currency { EUR, GBP, USD, JPY, CAD, AUD, NZD, CHF, NOK, SEK, MXN, TRY, RUB, SGD, HKD, CNY, PLN, HUF, CZK, ZAR, KRW, INR, BRL, DKK, IDR, TWD, THB, ILS, RON, Other(u16) }
// the holiday calendars of the crate, as tags of the abstract calendar
pub enum Home { Australia, Brazil, Canada, China, CzechRepublic, Denmark, HongKong, Hungary, India, Indonesia, Israel, Japan, Mexico, NewZealand, Norway, Poland, Romania, Russia, Singapore, SouthAfrica, SouthKorea, Sweden, Switzerland, Taiwan, Target, Thailand, Turkey, UnitedKingdom, UnitedStates }
pub uninterp spec fn home_biz(h: Home, n: int) -> bool;
pub trait AsCal { spec fn home(&self) -> Home; }
pub struct Australia { pub x: u8 }
impl Australia { pub fn default() -> Australia { Australia { x: 0 } } }
impl AsCal for Australia { open spec fn home(&self) -> Home { Home::Australia } }
pub struct Brazil { pub x: u8 }
impl Brazil { pub fn default() -> Brazil { Brazil { x: 0 } } }
impl AsCal for Brazil { open spec fn home(&self) -> Home { Home::Brazil } }
pub struct Canada { pub x: u8 }
impl Canada { pub fn default() -> Canada { Canada { x: 0 } } }
impl AsCal for Canada { open spec fn home(&self) -> Home { Home::Canada } }
pub struct China;
impl AsCal for China { open spec fn home(&self) -> Home { Home::China } }
pub struct CzechRepublic;
impl AsCal for CzechRepublic { open spec fn home(&self) -> Home { Home::CzechRepublic } }
pub struct Denmark;
impl AsCal for Denmark { open spec fn home(&self) -> Home { Home::Denmark } }
pub struct HongKong;
impl AsCal for HongKong { open spec fn home(&self) -> Home { Home::HongKong } }
pub struct Hungary;
impl AsCal for Hungary { open spec fn home(&self) -> Home { Home::Hungary } }
pub struct India;
impl AsCal for India { open spec fn home(&self) -> Home { Home::India } }
pub struct Indonesia;
impl AsCal for Indonesia { open spec fn home(&self) -> Home { Home::Indonesia } }
pub struct Israel { pub x: u8 }
impl Israel { pub fn default() -> Israel { Israel { x: 0 } } }
impl AsCal for Israel { open spec fn home(&self) -> Home { Home::Israel } }
pub struct Japan;
impl AsCal for Japan { open spec fn home(&self) -> Home { Home::Japan } }
pub struct Mexico;
impl AsCal for Mexico { open spec fn home(&self) -> Home { Home::Mexico } }
pub struct NewZealand { pub x: u8 }
impl NewZealand { pub fn default() -> NewZealand { NewZealand { x: 0 } } }
impl AsCal for NewZealand { open spec fn home(&self) -> Home { Home::NewZealand } }
pub struct Norway;
impl AsCal for Norway { open spec fn home(&self) -> Home { Home::Norway } }
pub struct Poland { pub x: u8 }
impl Poland { pub fn default() -> Poland { Poland { x: 0 } } }
impl AsCal for Poland { open spec fn home(&self) -> Home { Home::Poland } }
pub struct Romania;
impl AsCal for Romania { open spec fn home(&self) -> Home { Home::Romania } }
pub struct Russia { pub x: u8 }
impl Russia { pub fn default() -> Russia { Russia { x: 0 } } }
impl AsCal for Russia { open spec fn home(&self) -> Home { Home::Russia } }
pub struct Singapore;
impl AsCal for Singapore { open spec fn home(&self) -> Home { Home::Singapore } }
pub struct SouthAfrica;
impl AsCal for SouthAfrica { open spec fn home(&self) -> Home { Home::SouthAfrica } }
pub struct SouthKorea;
impl AsCal for SouthKorea { open spec fn home(&self) -> Home { Home::SouthKorea } }
pub struct Sweden;
impl AsCal for Sweden { open spec fn home(&self) -> Home { Home::Sweden } }
pub struct Switzerland;
impl AsCal for Switzerland { open spec fn home(&self) -> Home { Home::Switzerland } }
pub struct Taiwan;
impl AsCal for Taiwan { open spec fn home(&self) -> Home { Home::Taiwan } }
pub struct Target;
impl AsCal for Target { open spec fn home(&self) -> Home { Home::Target } }
pub struct Thailand;
impl AsCal for Thailand { open spec fn home(&self) -> Home { Home::Thailand } }
pub struct Turkey;
impl AsCal for Turkey { open spec fn home(&self) -> Home { Home::Turkey } }
pub struct UnitedKingdom { pub x: u8 }
impl UnitedKingdom { pub fn default() -> UnitedKingdom { UnitedKingdom { x: 0 } } }
impl AsCal for UnitedKingdom { open spec fn home(&self) -> Home { Home::UnitedKingdom } }
pub struct UnitedStates { pub x: u8 }
impl UnitedStates { pub fn default() -> UnitedStates { UnitedStates { x: 0 } } }
impl AsCal for UnitedStates { open spec fn home(&self) -> Home { Home::UnitedStates } }
#[verifier::external_body]
pub fn boxed<T: AsCal>(x: T) -> (r: Cal) ensures forall|n: int| #[trigger] biz(r, n) == home_biz(x.home(), n) { unimplemented!() }
pub open spec fn all_biz(v: Seq<Cal>, n: int) -> bool { forall|i: int| 0 <= i < v.len() ==> biz(#[trigger] v[i], n) }
proof fn lemma_two(v: Seq<Cal>, n: int)
    requires v.len() == 2
    ensures all_biz(v, n) == (biz(v[0], n) && biz(v[1], n))
{ if biz(v[0], n) && biz(v[1], n) { assert forall|i: int| 0 <= i < 2 implies biz(#[trigger] v[i], n) by { if i != 0 { assert(i == 1); } } } }
// the conjunction of its members: proved in C08
pub struct JointCalendar { pub x: u8 }
impl JointCalendar {
    #[verifier::external_body]
    pub fn new(v: Vec<Cal>) -> (r: Cal)
        ensures forall|n: int| #[trigger] biz(r, n) == all_biz(v@, n)
    { unimplemented!() }
}
// the country whose banks settle a currency
pub open spec fn home_of(c: Currency) -> Home {
    match c {
        Currency::EUR => Home::Target,
        Currency::GBP => Home::UnitedKingdom,
        Currency::USD => Home::UnitedStates,
        Currency::JPY => Home::Japan,
        Currency::CAD => Home::Canada,
        Currency::AUD => Home::Australia,
        Currency::NZD => Home::NewZealand,
        Currency::CHF => Home::Switzerland,
        Currency::NOK => Home::Norway,
        Currency::SEK => Home::Sweden,
        Currency::MXN => Home::Mexico,
        Currency::TRY => Home::Turkey,
        Currency::RUB => Home::Russia,
        Currency::SGD => Home::Singapore,
        Currency::HKD => Home::HongKong,
        Currency::CNY => Home::China,
        Currency::PLN => Home::Poland,
        Currency::HUF => Home::Hungary,
        Currency::CZK => Home::CzechRepublic,
        Currency::ZAR => Home::SouthAfrica,
        Currency::KRW => Home::SouthKorea,
        Currency::INR => Home::India,
        Currency::BRL => Home::Brazil,
        Currency::DKK => Home::Denmark,
        Currency::IDR => Home::Indonesia,
        Currency::TWD => Home::Taiwan,
        Currency::THB => Home::Thailand,
        Currency::ILS => Home::Israel,
        Currency::RON => Home::Romania,
        _ => Home::Target,
    }
}
pub open spec fn frn(p: FXUnderlying) -> Currency {
    match p {
        FXUnderlying::EURGBP => Currency::EUR,
        FXUnderlying::EURUSD => Currency::EUR,
        FXUnderlying::EURCAD => Currency::EUR,
        FXUnderlying::EURJPY => Currency::EUR,
        FXUnderlying::EURCHF => Currency::EUR,
        FXUnderlying::EURNOK => Currency::EUR,
        FXUnderlying::EURSEK => Currency::EUR,
        FXUnderlying::EURAUD => Currency::EUR,
        FXUnderlying::EURNZD => Currency::EUR,
        FXUnderlying::EURDKK => Currency::EUR,
        FXUnderlying::EURPLN => Currency::EUR,
        FXUnderlying::EURHUF => Currency::EUR,
        FXUnderlying::EURCZK => Currency::EUR,
        FXUnderlying::EURRON => Currency::EUR,
        FXUnderlying::GBPUSD => Currency::GBP,
        FXUnderlying::GBPCAD => Currency::GBP,
        FXUnderlying::GBPJPY => Currency::GBP,
        FXUnderlying::GBPAUD => Currency::GBP,
        FXUnderlying::GBPNZD => Currency::GBP,
        FXUnderlying::GBPCHF => Currency::GBP,
        FXUnderlying::GBPNOK => Currency::GBP,
        FXUnderlying::GBPSEK => Currency::GBP,
        FXUnderlying::AUDUSD => Currency::AUD,
        FXUnderlying::NZDUSD => Currency::NZD,
        FXUnderlying::USDCHF => Currency::USD,
        FXUnderlying::USDNOK => Currency::USD,
        FXUnderlying::USDSEK => Currency::USD,
        FXUnderlying::USDJPY => Currency::USD,
        FXUnderlying::USDSGD => Currency::USD,
        FXUnderlying::USDHKD => Currency::USD,
        FXUnderlying::USDCNY => Currency::USD,
        FXUnderlying::USDPLN => Currency::USD,
        FXUnderlying::USDHUF => Currency::USD,
        FXUnderlying::USDCZK => Currency::USD,
        FXUnderlying::USDZAR => Currency::USD,
        FXUnderlying::USDKRW => Currency::USD,
        FXUnderlying::USDINR => Currency::USD,
        FXUnderlying::USDBRL => Currency::USD,
        FXUnderlying::USDDKK => Currency::USD,
        FXUnderlying::USDIDR => Currency::USD,
        FXUnderlying::USDTWD => Currency::USD,
        FXUnderlying::USDTHB => Currency::USD,
        FXUnderlying::USDILS => Currency::USD,
        FXUnderlying::USDRON => Currency::USD,
        FXUnderlying::USDCAD => Currency::USD,
        FXUnderlying::USDMXN => Currency::USD,
        FXUnderlying::USDTRY => Currency::USD,
        FXUnderlying::USDRUB => Currency::USD,
        FXUnderlying::AUDNZD => Currency::AUD,
        FXUnderlying::AUDCAD => Currency::AUD,
        FXUnderlying::AUDCHF => Currency::AUD,
        FXUnderlying::AUDJPY => Currency::AUD,
        FXUnderlying::AUDSGD => Currency::AUD,
        FXUnderlying::NZDCAD => Currency::NZD,
        FXUnderlying::NZDCHF => Currency::NZD,
        FXUnderlying::NZDJPY => Currency::NZD,
        FXUnderlying::NZDSGD => Currency::NZD,
        FXUnderlying::CADJPY => Currency::CAD,
        FXUnderlying::CHFJPY => Currency::CHF,
        FXUnderlying::CADCHF => Currency::CAD,
    }
}
pub open spec fn dom(p: FXUnderlying) -> Currency {
    match p {
        FXUnderlying::EURGBP => Currency::GBP,
        FXUnderlying::EURUSD => Currency::USD,
        FXUnderlying::EURCAD => Currency::CAD,
        FXUnderlying::EURJPY => Currency::JPY,
        FXUnderlying::EURCHF => Currency::CHF,
        FXUnderlying::EURNOK => Currency::NOK,
        FXUnderlying::EURSEK => Currency::SEK,
        FXUnderlying::EURAUD => Currency::AUD,
        FXUnderlying::EURNZD => Currency::NZD,
        FXUnderlying::EURDKK => Currency::DKK,
        FXUnderlying::EURPLN => Currency::PLN,
        FXUnderlying::EURHUF => Currency::HUF,
        FXUnderlying::EURCZK => Currency::CZK,
        FXUnderlying::EURRON => Currency::RON,
        FXUnderlying::GBPUSD => Currency::USD,
        FXUnderlying::GBPCAD => Currency::CAD,
        FXUnderlying::GBPJPY => Currency::JPY,
        FXUnderlying::GBPAUD => Currency::AUD,
        FXUnderlying::GBPNZD => Currency::NZD,
        FXUnderlying::GBPCHF => Currency::CHF,
        FXUnderlying::GBPNOK => Currency::NOK,
        FXUnderlying::GBPSEK => Currency::SEK,
        FXUnderlying::AUDUSD => Currency::USD,
        FXUnderlying::NZDUSD => Currency::USD,
        FXUnderlying::USDCHF => Currency::CHF,
        FXUnderlying::USDNOK => Currency::NOK,
        FXUnderlying::USDSEK => Currency::SEK,
        FXUnderlying::USDJPY => Currency::JPY,
        FXUnderlying::USDSGD => Currency::SGD,
        FXUnderlying::USDHKD => Currency::HKD,
        FXUnderlying::USDCNY => Currency::CNY,
        FXUnderlying::USDPLN => Currency::PLN,
        FXUnderlying::USDHUF => Currency::HUF,
        FXUnderlying::USDCZK => Currency::CZK,
        FXUnderlying::USDZAR => Currency::ZAR,
        FXUnderlying::USDKRW => Currency::KRW,
        FXUnderlying::USDINR => Currency::INR,
        FXUnderlying::USDBRL => Currency::BRL,
        FXUnderlying::USDDKK => Currency::DKK,
        FXUnderlying::USDIDR => Currency::IDR,
        FXUnderlying::USDTWD => Currency::TWD,
        FXUnderlying::USDTHB => Currency::THB,
        FXUnderlying::USDILS => Currency::ILS,
        FXUnderlying::USDRON => Currency::RON,
        FXUnderlying::USDCAD => Currency::CAD,
        FXUnderlying::USDMXN => Currency::MXN,
        FXUnderlying::USDTRY => Currency::TRY,
        FXUnderlying::USDRUB => Currency::RUB,
        FXUnderlying::AUDNZD => Currency::NZD,
        FXUnderlying::AUDCAD => Currency::CAD,
        FXUnderlying::AUDCHF => Currency::CHF,
        FXUnderlying::AUDJPY => Currency::JPY,
        FXUnderlying::AUDSGD => Currency::SGD,
        FXUnderlying::NZDCAD => Currency::CAD,
        FXUnderlying::NZDCHF => Currency::CHF,
        FXUnderlying::NZDJPY => Currency::JPY,
        FXUnderlying::NZDSGD => Currency::SGD,
        FXUnderlying::CADJPY => Currency::JPY,
        FXUnderlying::CHFJPY => Currency::JPY,
        FXUnderlying::CADCHF => Currency::CHF,
    }
}
// a business day of the pair is one in both currencies' countries
pub open spec fn pair_biz(p: FXUnderlying, n: int) -> bool { home_biz(home_of(dom(p)), n) && home_biz(home_of(frn(p)), n) }
pub open spec fn is_pair_cal(c: Cal, p: FXUnderlying) -> bool { forall|n: int| #[trigger] biz(c, n) == pair_biz(p, n) }
pub open spec fn pair_live(p: FXUnderlying) -> bool { forall|c: Cal| #[trigger] is_pair_cal(c, p) ==> live_all(c) }
pub open spec fn spot_lag(p: FXUnderlying) -> int {
    if p is USDCAD || p is USDMXN || p is USDTRY || p is USDRUB { 1 } else { 2 }
}
impl FXUnderlying {
    // variant name cut in two and parsed as ISO codes; checked for every pair by the executable contracts
    #[verifier::external_body]
    pub fn dom_currency(&self) -> (r: Currency) ensures r == dom(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn frn_currency(&self) -> (r: Currency) ensures r == frn(*self) { unimplemented!() }
}
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: currency_to_country => impl FXUnderlying
//@params currency
//@spec
    ensures forall|n: int| #[trigger] biz(r, n) == home_biz(home_of(currency), n)
//@end
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: calendar => impl FXUnderlying
//@ret r: Cal
//@spec
    ensures is_pair_cal(r, *self)
//@entry
    proof { assert forall|v: Seq<Cal>, n: int| v.len() == 2 implies #[trigger] all_biz(v, n) == (biz(v[0], n) && biz(v[1], n)) by { lemma_two(v, n); } }
//@end
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: forward_points_converter => impl FXUnderlying
//@spec
    ensures r@ == (if dom(*self) is JPY { 100real } else { 10000real })
//@end
//@fn src/derivatives/forex/basic.rs impl FXUnderlying :: settles => impl FXUnderlying
//@spec
    ensures r == spot_lag(*self)
//@end
