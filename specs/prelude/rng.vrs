// the seeded random generator: some function of its state
#[verifier::external_body]
pub struct ChaCha20Rng { x: u8 }
pub struct StandardNormal;
// the generator's next value, and the generator after it
pub uninterp spec fn next_normal(g: ChaCha20Rng) -> (ChaCha20Rng, real);
impl ChaCha20Rng {
    #[verifier::external_body]
    pub fn sample(&mut self, d: StandardNormal) -> (r: R) ensures (*final(self), r@) == next_normal(*old(self)) { unimplemented!() }
}
// the generator of a seed
pub uninterp spec fn seeded(seed: u64) -> ChaCha20Rng;
impl ChaCha20Rng {
    #[verifier::external_body]
    pub fn seed_from_u64(seed: u64) -> (r: ChaCha20Rng) ensures r == seeded(seed) { unimplemented!() }
}
