//! The toy side of the structural scenarios: every random draw is the explorer's.
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use explorer::{dim, ell};
use rand_core::{CryptoRng, Error, RngCore};
use signal_credential::phone_number::PhoneNumber;

/// The random source handed to the code under test.
pub struct EnvRng;
impl RngCore for EnvRng {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { explorer::fill(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for EnvRng {}
pub fn begin(_scenario: u32) -> EnvRng { EnvRng }

pub fn s(v: u32) -> Scalar { Scalar::from(v) }
/// a B + b H, where H is the second coordinate (0 in dimension 1).
pub fn pt(a: u32, b: u32) -> RistrettoPoint {
    let (a, b) = (a % ell(), b % ell());
    let mut t = [0u8; 32];
    if a != 0 || b != 0 {
        t[0] = (a & 1) as u8;
        t[4] = (b & 1) as u8;
        for k in 0..4 { t[24 + k] = (a >> 1 >> (8 * k)) as u8; t[20 + k] = (b >> 1 >> (8 * k)) as u8; }
        t[30] = 0xA5;
    }
    CompressedRistretto(t).decompress().expect("toy point")
}
pub fn g() -> RistrettoPoint { RISTRETTO_BASEPOINT_POINT }
pub fn sys(i: u32) -> SystemParameters {
    let h = if dim() == 2 { pt(i, 1) } else { pt(if ell() == 2 { 1 } else { 2 + i }, 0) };
    SystemParameters { g: g(), h }
}
/// The k-th phone number of the structural scenarios.
pub fn number(k: u32) -> Vec<u8> { vec![4, 9, k as u8 + 1] }
/// A phone number whose attribute is the scalar v (small groups only).
pub fn number_for(v: u32) -> Vec<u8> {
    for b in 0..=255u8 {
        if let Ok(p) = PhoneNumber::try_from_bytes(&[b]) { if p.0 == s(v) { return vec![b]; } }
    }
    panic!("no one-byte phone number for {}", v)
}
pub const LENGTHS: u32 = 4;
pub fn length_case(i: u32) -> Vec<u8> { vec![i as u8 + 1; [1, 2, 11, 26, 12][i as usize]] }

