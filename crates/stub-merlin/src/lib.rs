//! Stand-in for merlin: a transcript is the list of everything committed to it; challenges are answers of a random
//! oracle on that list and the proof generator is a keyed stream, both controlled by the explorer.
extern crate explorer;
extern crate rand_core;
use rand_core::{CryptoRng, Error, RngCore};

fn put(log: &mut Vec<u8>, kind: u8, label: &[u8], msg: &[u8]) {
    log.push(kind);
    log.extend_from_slice(&(label.len() as u32).to_le_bytes());
    log.extend_from_slice(label);
    log.extend_from_slice(&(msg.len() as u32).to_le_bytes());
    log.extend_from_slice(msg);
}
#[derive(Clone)]
pub struct Transcript { log: Vec<u8> }
impl Transcript {
    pub fn new(label: &[u8]) -> Transcript {
        let mut log = Vec::with_capacity(512);
        put(&mut log, b'N', b"dom-sep", label);
        Transcript { log }
    }
    pub fn commit_bytes(&mut self, label: &[u8], message: &[u8]) { put(&mut self.log, b'C', label, message) }
    pub fn challenge_bytes(&mut self, label: &[u8], dest: &mut [u8]) {
        put(&mut self.log, b'P', label, &(dest.len() as u32).to_le_bytes());
        explorer::oracle(&self.log, dest);
    }
    pub fn fork_transcript(&self) -> TranscriptRngConstructor { TranscriptRngConstructor { key: self.log.clone() } }
}
pub struct TranscriptRngConstructor { key: Vec<u8> }
impl TranscriptRngConstructor {
    pub fn commit_witness_bytes(mut self, label: &[u8], witness: &[u8]) -> TranscriptRngConstructor {
        put(&mut self.key, b'W', label, witness);
        self
    }
    pub fn reseed_from_rng<R>(mut self, rng: &mut R) -> TranscriptRng where R: RngCore + CryptoRng {
        let mut b = [0u8; 32];
        explorer::reseed_begin();
        rng.fill_bytes(&mut b);
        explorer::reseed_end();
        put(&mut self.key, b'R', b"rng", &b);
        explorer::stream_key(&self.key);
        TranscriptRng { key: self.key, pos: 0 }
    }
}
pub struct TranscriptRng { key: Vec<u8>, pos: usize }
impl RngCore for TranscriptRng {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        explorer::stream(&self.key, self.pos, dest);
        self.pos += 1;
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for TranscriptRng {}
