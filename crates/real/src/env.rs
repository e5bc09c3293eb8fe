//! The real side of the structural scenarios: deterministic random sources over the real curve.
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::RistrettoPoint;
use rand::{ChaChaRng, SeedableRng};
use rand_core::{CryptoRng, Error, RngCore};
use std::cell::Cell;

thread_local! { static SALT: Cell<u64> = Cell::new(0); }
/// Every run of a scenario has its own randomness.
pub fn salt(s: u64) { SALT.with(|c| c.set(s)) }

pub struct EnvRng(ChaChaRng);
impl RngCore for EnvRng {
    fn next_u32(&mut self) -> u32 { self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { self.0.next_u64() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { self.0.fill_bytes(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.0.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for EnvRng {}
pub fn rng(label: u64) -> EnvRng {
    let mut seed = [0u8; 32];
    let s: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let salt = SALT.with(|c| c.get());
    for i in 0..8 { seed[i] = (s >> (8 * i)) as u8; seed[8 + i] = (salt >> (8 * i)) as u8; seed[16 + i] = (label >> (8 * i)) as u8; }
    EnvRng(ChaChaRng::from_seed(seed))
}
pub fn begin(scenario: u32) -> EnvRng { rng(scenario as u64) }
pub fn sys(i: u32) -> SystemParameters {
    let mut r = rng(0x5157 + i as u64);
    SystemParameters { g: RISTRETTO_BASEPOINT_POINT, h: RistrettoPoint::random(&mut r) }
}
/// The k-th phone number of the structural scenarios.
pub fn number(k: u32) -> Vec<u8> { vec![4, 9, k as u8 + 1] }
pub const LENGTHS: u32 = 4;
pub fn length_case(i: u32) -> Vec<u8> { vec![i as u8 + 1; [1, 2, 11, 26, 12][i as usize]] }
