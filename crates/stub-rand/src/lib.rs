//! rand, except that the system generators are controlled by the explorer.
pub use real_rand::*;
use rand_core::{CryptoRng as Cr, Error as Er, RngCore as Rc};

#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
impl Rc for ThreadRng {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { explorer::system_fill(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Er> { self.fill_bytes(dest); Ok(()) }
}
impl Cr for ThreadRng {}
/// The operating system's generator, same treatment.
#[derive(Clone, Debug, Default)]
pub struct OsRng;
impl OsRng { pub fn new() -> Result<OsRng, Er> { Ok(OsRng) } }
impl Rc for OsRng {
    fn next_u32(&mut self) -> u32 { ThreadRng.next_u32() }
    fn next_u64(&mut self) -> u64 { ThreadRng.next_u64() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { explorer::system_fill(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Er> { self.fill_bytes(dest); Ok(()) }
}
impl Cr for OsRng {}
pub mod rngs {
    pub use real_rand::rngs::*;
    pub use super::{OsRng, ThreadRng};
}
