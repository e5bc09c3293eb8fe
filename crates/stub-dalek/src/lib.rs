//! Stand-in for curve25519-dalek: the same API over the group (Z/l)^d for a small prime l (explorer::ell,
//! explorer::dim), so that all scalars and points can be enumerated.  The identity is encoded as 32 zero bytes, every
//! other point as its coordinates (4 bytes LE each) and a mark; scalars are encoded as the real ones (32 bytes LE).
#![allow(non_snake_case)]
extern crate digest;
extern crate explorer;
extern crate generic_array;
extern crate rand_core;
extern crate subtle;
#[cfg(feature = "serde")]
extern crate serde;

pub mod scalar;
pub mod ristretto;
pub mod constants;
pub mod traits;
