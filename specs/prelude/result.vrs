#[derive(Debug)]
pub struct Error { x: u8 }
pub type Result<T> = core::result::Result<T, Error>;
impl Error {
    #[verifier::external_body]
    pub fn PeriodOutOfBounds(s: Str) -> Error { unimplemented!() }
    #[verifier::external_body]
    pub fn InvalidData(s: Str) -> Error { unimplemented!() }
    #[verifier::external_body]
    pub fn TradeExpired(s: Str) -> Error { unimplemented!() }
}
