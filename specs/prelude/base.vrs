// Shared prelude: error type, opaque strings, runtime assertions.
#[verifier::external_body]
#[derive(Debug)]
pub struct Str { x: u8 }
#[verifier::external_body]
pub fn fmt_str() -> Str { unimplemented!() }
pub fn runtime_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn never() -> ! requires false { unimplemented!() }
// a vector or slice as a slice
pub trait VSl<T> { spec fn vseq(&self) -> Seq<T>; fn vsl(&self) -> (r: &[T]) ensures r@ == self.vseq(); }
impl<T> VSl<T> for Vec<T> { open spec fn vseq(&self) -> Seq<T> { self@ } fn vsl(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VSl<T> for [T] { open spec fn vseq(&self) -> Seq<T> { self@ } fn vsl(&self) -> (r: &[T]) { self } }
