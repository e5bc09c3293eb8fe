use std::borrow::Borrow;
use std::fmt::{self, Debug};
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Index, Mul, MulAssign, Neg, Sub, SubAssign};
use digest::{Digest, Input};
use explorer::ell;
use generic_array::typenum::U64;
use rand_core::{CryptoRng, RngCore};
use subtle::{Choice, ConditionallyAssignable, ConstantTimeEq};

#[derive(Copy, Clone)]
pub struct Scalar { pub(crate) bytes: [u8; 32] }

fn reduce_bytes(b: &[u8]) -> u32 {
    let l = ell() as u64;
    let mut acc: u64 = 0;
    for x in b.iter().rev() { acc = (acc * 256 + *x as u64) % l; }
    acc as u32
}
impl Scalar {
    pub(crate) fn v(&self) -> u32 {
        if self.bytes[1..] == [0u8; 31] { self.bytes[0] as u32 % ell() } else { reduce_bytes(&self.bytes) }
    }
    pub(crate) fn n(v: u32) -> Scalar {
        let mut bytes = [0u8; 32];
        bytes[0] = v as u8; bytes[1] = (v >> 8) as u8; bytes[2] = (v >> 16) as u8; bytes[3] = (v >> 24) as u8;
        Scalar { bytes }
    }
    pub fn from_bytes_mod_order(bytes: [u8; 32]) -> Scalar { Scalar::n(reduce_bytes(&bytes)) }
    pub fn from_bytes_mod_order_wide(input: &[u8; 64]) -> Scalar { Scalar::n(reduce_bytes(&input[..])) }
    pub fn from_canonical_bytes(bytes: [u8; 32]) -> Option<Scalar> {
        let s = Scalar { bytes };
        if s.is_canonical() { Some(s) } else { None }
    }
    pub fn from_bits(mut bytes: [u8; 32]) -> Scalar { bytes[31] &= 0x7f; Scalar { bytes } }
    pub fn random<T: RngCore + CryptoRng>(rng: &mut T) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }
    pub fn hash_from_bytes<D>(input: &[u8]) -> Scalar where D: Digest<OutputSize = U64> + Default {
        let mut h = D::default();
        h.input(input);
        Scalar::from_hash(h)
    }
    pub fn from_hash<D>(hash: D) -> Scalar where D: Digest<OutputSize = U64> + Default {
        let mut b = [0u8; 64];
        b.copy_from_slice(hash.result().as_slice());
        Scalar::from_bytes_mod_order_wide(&b)
    }
    pub fn to_bytes(&self) -> [u8; 32] { self.bytes }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.bytes }
    pub fn zero() -> Self { Scalar { bytes: [0; 32] } }
    pub fn one() -> Self { Scalar::n(1) }
    pub fn invert(&self) -> Scalar {
        let l = ell() as u64;
        let (mut base, mut e, mut acc) = (self.v() as u64, l - 2, 1u64 % l);
        while e > 0 { if e & 1 == 1 { acc = acc * base % l; } base = base * base % l; e >>= 1; }
        Scalar::n(acc as u32)
    }
    pub fn batch_invert(inputs: &mut [Scalar]) -> Scalar {
        let mut p = Scalar::one();
        for s in inputs.iter_mut() { p = p * *s; *s = s.invert(); }
        p.invert()
    }
    pub fn reduce(&self) -> Scalar { Scalar::n(self.v()) }
    pub fn is_canonical(&self) -> bool { Scalar::n(self.v()).bytes == self.bytes }
}
impl Debug for Scalar { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "Scalar{{ bytes: {:?} }}", self.bytes) } }
impl Eq for Scalar {}
impl PartialEq for Scalar { fn eq(&self, o: &Scalar) -> bool { self.bytes == o.bytes } }
impl ConstantTimeEq for Scalar { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self.bytes == o.bytes) as u8) } }
impl Index<usize> for Scalar { type Output = u8; fn index(&self, i: usize) -> &u8 { &self.bytes[i] } }
impl ConditionallyAssignable for Scalar {
    fn conditional_assign(&mut self, o: &Scalar, c: Choice) { if c.unwrap_u8() == 1 { *self = *o; } }
}
impl Default for Scalar { fn default() -> Scalar { Scalar::zero() } }
impl From<u8> for Scalar { fn from(x: u8) -> Scalar { Scalar::from(x as u64) } }
impl From<u16> for Scalar { fn from(x: u16) -> Scalar { Scalar::from(x as u64) } }
impl From<u32> for Scalar { fn from(x: u32) -> Scalar { Scalar::from(x as u64) } }
impl From<u64> for Scalar { fn from(x: u64) -> Scalar { Scalar::n((x % ell() as u64) as u32) } }
impl From<u128> for Scalar { fn from(x: u128) -> Scalar { Scalar::n((x % ell() as u128) as u32) } }

fn mul(a: &Scalar, b: &Scalar) -> Scalar { Scalar::n(((a.v() as u64 * b.v() as u64) % ell() as u64) as u32) }
fn add(a: &Scalar, b: &Scalar) -> Scalar { Scalar::n((a.v() + b.v()) % ell()) }
fn sub(a: &Scalar, b: &Scalar) -> Scalar { Scalar::n((a.v() + ell() - b.v()) % ell()) }
macro_rules! ops { ($T:ident, $m:ident, $TA:ident, $ma:ident, $f:ident) => {
    impl<'a, 'b> $T<&'b Scalar> for &'a Scalar { type Output = Scalar; fn $m(self, o: &'b Scalar) -> Scalar { $f(self, o) } }
    impl<'b> $T<&'b Scalar> for Scalar { type Output = Scalar; fn $m(self, o: &'b Scalar) -> Scalar { $f(&self, o) } }
    impl<'a> $T<Scalar> for &'a Scalar { type Output = Scalar; fn $m(self, o: Scalar) -> Scalar { $f(self, &o) } }
    impl $T<Scalar> for Scalar { type Output = Scalar; fn $m(self, o: Scalar) -> Scalar { $f(&self, &o) } }
    impl<'b> $TA<&'b Scalar> for Scalar { fn $ma(&mut self, o: &'b Scalar) { *self = $f(self, o) } }
    impl $TA<Scalar> for Scalar { fn $ma(&mut self, o: Scalar) { *self = $f(self, &o) } }
} }
ops!(Mul, mul, MulAssign, mul_assign, mul);
ops!(Add, add, AddAssign, add_assign, add);
ops!(Sub, sub, SubAssign, sub_assign, sub);
impl<'a> Neg for &'a Scalar { type Output = Scalar; fn neg(self) -> Scalar { sub(&Scalar::zero(), self) } }
impl<'a> Neg for Scalar { type Output = Scalar; fn neg(self) -> Scalar { sub(&Scalar::zero(), &self) } }
impl<T> Product<T> for Scalar where T: Borrow<Scalar> {
    fn product<I>(iter: I) -> Self where I: Iterator<Item = T> { iter.fold(Scalar::one(), |a, x| mul(&a, x.borrow())) }
}
impl<T> Sum<T> for Scalar where T: Borrow<Scalar> {
    fn sum<I>(iter: I) -> Self where I: Iterator<Item = T> { iter.fold(Scalar::zero(), |a, x| add(&a, x.borrow())) }
}

#[cfg(feature = "serde")]
mod ser {
    use super::Scalar;
    use serde::{de::{self, Visitor}, Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;
    impl Serialize for Scalar {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.reduce().as_bytes()) }
    }
    impl<'de> Deserialize<'de> for Scalar {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V;
            impl<'de> Visitor<'de> for V {
                type Value = Scalar;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a canonically-encoded 32-byte scalar value") }
                fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Scalar, E> {
                    if v.len() == 32 {
                        let mut b = [0u8; 32];
                        b.copy_from_slice(v);
                        Scalar::from_canonical_bytes(b).ok_or_else(|| de::Error::invalid_value(de::Unexpected::Bytes(v), &self))
                    } else { Err(de::Error::invalid_length(v.len(), &self)) }
                }
            }
            d.deserialize_bytes(V)
        }
    }
}
