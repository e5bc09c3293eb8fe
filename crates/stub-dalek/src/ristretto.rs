use std::borrow::Borrow;
use std::fmt::{self, Debug};
use std::iter::Sum;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use constants;
use digest::{Digest, Input};
use explorer::{dim, ell};
use generic_array::typenum::U64;
use rand_core::{CryptoRng, RngCore};
use scalar::Scalar;
use subtle::{Choice, ConditionallyAssignable, ConstantTimeEq};
use traits::{Identity, MultiscalarMul, VartimeMultiscalarMul};

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct CompressedRistretto(pub [u8; 32]);
impl CompressedRistretto {
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn from_slice(bytes: &[u8]) -> CompressedRistretto {
        let mut t = [0u8; 32];
        t.copy_from_slice(bytes);
        CompressedRistretto(t)
    }
    pub fn decompress(&self) -> Option<RistrettoPoint> {
        let b = &self.0;
        let rd = |i: usize| b[i] as u64 | (b[i + 1] as u64) << 8 | (b[i + 2] as u64) << 16 | (b[i + 3] as u64) << 24;
        let (c0, c1) = (rd(0) | rd(24) << 1, rd(4) | rd(20) << 1);
        if c0 >= ell() as u64 || c1 >= ell() as u64 { return None; }
        let p = RistrettoPoint([c0 as u32, c1 as u32]);
        if p.compress().0 == self.0 && (dim() > 1 || c1 == 0) { Some(p) } else { None }
    }
}
impl ConstantTimeEq for CompressedRistretto { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self.0 == o.0) as u8) } }
impl Identity for CompressedRistretto { fn identity() -> Self { CompressedRistretto([0; 32]) } }
impl Default for CompressedRistretto { fn default() -> Self { CompressedRistretto([0; 32]) } }
impl Debug for CompressedRistretto { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "CompressedRistretto: {:?}", self.0) } }

#[derive(Copy, Clone)]
pub struct RistrettoPoint(pub(crate) [u32; 2]);
impl RistrettoPoint {
    pub fn compress(&self) -> CompressedRistretto {
        let mut b = [0u8; 32];
        if self.0 != [0, 0] {
            // spread over the encoding, so that no part of it will do for the whole
            for (i, c) in self.0.iter().enumerate() { b[4 * i] = (c & 1) as u8; for k in 0..4 { b[24 - 4 * i + k] = (c >> 1 >> (8 * k)) as u8; } }
            b[30] = 0xA5;
        }
        CompressedRistretto(b)
    }
    pub fn double_and_compress_batch<'a, I>(points: I) -> Vec<CompressedRistretto> where I: IntoIterator<Item = &'a RistrettoPoint> {
        points.into_iter().map(|p| (p + p).compress()).collect()
    }
    pub fn random<T: RngCore + CryptoRng>(rng: &mut T) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        RistrettoPoint::from_uniform_bytes(&b)
    }
    pub fn hash_from_bytes<D>(input: &[u8]) -> RistrettoPoint where D: Digest<OutputSize = U64> + Default {
        let mut h = D::default();
        h.input(input);
        RistrettoPoint::from_hash(h)
    }
    pub fn from_hash<D>(hash: D) -> RistrettoPoint where D: Digest<OutputSize = U64> + Default {
        let mut b = [0u8; 64];
        b.copy_from_slice(hash.result().as_slice());
        RistrettoPoint::from_uniform_bytes(&b)
    }
    pub fn from_uniform_bytes(bytes: &[u8; 64]) -> RistrettoPoint {
        let a = Scalar::from_bytes_mod_order_wide(bytes).v();
        if dim() == 1 { return RistrettoPoint([a, 0]); }
        let mut t = [0u8; 64];
        for i in 0..32 { t[i] = bytes[32 + i]; }
        RistrettoPoint([a, Scalar::from_bytes_mod_order_wide(&t).v()])
    }
    pub fn vartime_double_scalar_mul_basepoint(a: &Scalar, A: &RistrettoPoint, b: &Scalar) -> RistrettoPoint {
        a * A + b * &constants::RISTRETTO_BASEPOINT_POINT
    }
}
impl Identity for RistrettoPoint { fn identity() -> Self { RistrettoPoint([0, 0]) } }
impl Default for RistrettoPoint { fn default() -> Self { RistrettoPoint([0, 0]) } }
impl PartialEq for RistrettoPoint { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for RistrettoPoint {}
impl ConstantTimeEq for RistrettoPoint { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self.0 == o.0) as u8) } }
impl ConditionallyAssignable for RistrettoPoint {
    fn conditional_assign(&mut self, o: &Self, c: Choice) { if c.unwrap_u8() == 1 { *self = *o; } }
}
impl Debug for RistrettoPoint { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "RistrettoPoint({:?})", self.0) } }

fn padd(a: &RistrettoPoint, b: &RistrettoPoint) -> RistrettoPoint { let l = ell(); RistrettoPoint([(a.0[0] + b.0[0]) % l, (a.0[1] + b.0[1]) % l]) }
fn psub(a: &RistrettoPoint, b: &RistrettoPoint) -> RistrettoPoint { let l = ell(); RistrettoPoint([(a.0[0] + l - b.0[0]) % l, (a.0[1] + l - b.0[1]) % l]) }
fn pmul(a: &RistrettoPoint, s: &Scalar) -> RistrettoPoint {
    let (l, v) = (ell() as u64, s.v() as u64);
    RistrettoPoint([((a.0[0] as u64 * v) % l) as u32, ((a.0[1] as u64 * v) % l) as u32])
}
macro_rules! ops { ($T:ident, $m:ident, $TA:ident, $ma:ident, $f:ident) => {
    impl<'a, 'b> $T<&'b RistrettoPoint> for &'a RistrettoPoint { type Output = RistrettoPoint; fn $m(self, o: &'b RistrettoPoint) -> RistrettoPoint { $f(self, o) } }
    impl<'b> $T<&'b RistrettoPoint> for RistrettoPoint { type Output = RistrettoPoint; fn $m(self, o: &'b RistrettoPoint) -> RistrettoPoint { $f(&self, o) } }
    impl<'a> $T<RistrettoPoint> for &'a RistrettoPoint { type Output = RistrettoPoint; fn $m(self, o: RistrettoPoint) -> RistrettoPoint { $f(self, &o) } }
    impl $T<RistrettoPoint> for RistrettoPoint { type Output = RistrettoPoint; fn $m(self, o: RistrettoPoint) -> RistrettoPoint { $f(&self, &o) } }
    impl<'b> $TA<&'b RistrettoPoint> for RistrettoPoint { fn $ma(&mut self, o: &'b RistrettoPoint) { *self = $f(self, o) } }
    impl $TA<RistrettoPoint> for RistrettoPoint { fn $ma(&mut self, o: RistrettoPoint) { *self = $f(self, &o) } }
} }
ops!(Add, add, AddAssign, add_assign, padd);
ops!(Sub, sub, SubAssign, sub_assign, psub);
macro_rules! muls { ($L:ty, $R:ty, $f:expr) => {
    impl<'a, 'b> Mul<&'b $R> for &'a $L { type Output = RistrettoPoint; fn mul(self, o: &'b $R) -> RistrettoPoint { $f(self, o) } }
    impl<'b> Mul<&'b $R> for $L { type Output = RistrettoPoint; fn mul(self, o: &'b $R) -> RistrettoPoint { $f(&self, o) } }
    impl<'a> Mul<$R> for &'a $L { type Output = RistrettoPoint; fn mul(self, o: $R) -> RistrettoPoint { $f(self, &o) } }
    impl Mul<$R> for $L { type Output = RistrettoPoint; fn mul(self, o: $R) -> RistrettoPoint { $f(&self, &o) } }
} }
muls!(RistrettoPoint, Scalar, |p: &RistrettoPoint, s: &Scalar| pmul(p, s));
muls!(Scalar, RistrettoPoint, |s: &Scalar, p: &RistrettoPoint| pmul(p, s));
impl<'b> MulAssign<&'b Scalar> for RistrettoPoint { fn mul_assign(&mut self, s: &'b Scalar) { *self = pmul(self, s) } }
impl MulAssign<Scalar> for RistrettoPoint { fn mul_assign(&mut self, s: Scalar) { *self = pmul(self, &s) } }
impl<'a> Neg for &'a RistrettoPoint { type Output = RistrettoPoint; fn neg(self) -> RistrettoPoint { psub(&RistrettoPoint([0, 0]), self) } }
impl Neg for RistrettoPoint { type Output = RistrettoPoint; fn neg(self) -> RistrettoPoint { psub(&RistrettoPoint([0, 0]), &self) } }
impl<T> Sum<T> for RistrettoPoint where T: Borrow<RistrettoPoint> {
    fn sum<I>(iter: I) -> Self where I: Iterator<Item = T> { iter.fold(RistrettoPoint::identity(), |a, x| padd(&a, x.borrow())) }
}
impl MultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn multiscalar_mul<I, J>(scalars: I, points: J) -> RistrettoPoint
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator, J::Item: Borrow<RistrettoPoint> {
        let (s, p): (Vec<Scalar>, Vec<RistrettoPoint>) =
            (scalars.into_iter().map(|x| *x.borrow()).collect(), points.into_iter().map(|x| *x.borrow()).collect());
        assert_eq!(s.len(), p.len(), "multiscalar multiplication of lists of different lengths");
        s.iter().zip(p.iter()).fold(RistrettoPoint::identity(), |a, (s, p)| padd(&a, &pmul(p, s)))
    }
}
impl VartimeMultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn optional_multiscalar_mul<I, J>(scalars: I, points: J) -> Option<RistrettoPoint>
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator<Item = Option<RistrettoPoint>> {
        let s: Vec<Scalar> = scalars.into_iter().map(|x| *x.borrow()).collect();
        let p: Option<Vec<RistrettoPoint>> = points.into_iter().collect();
        p.map(|p| RistrettoPoint::multiscalar_mul(&s, &p))
    }
}
#[derive(Clone)]
pub struct RistrettoBasepointTable(pub(crate) RistrettoPoint);
impl RistrettoBasepointTable {
    pub fn create(b: &RistrettoPoint) -> RistrettoBasepointTable { RistrettoBasepointTable(*b) }
    pub fn basepoint(&self) -> RistrettoPoint { self.0 }
}
impl<'a, 'b> Mul<&'b Scalar> for &'a RistrettoBasepointTable { type Output = RistrettoPoint; fn mul(self, s: &'b Scalar) -> RistrettoPoint { pmul(&self.0, s) } }
impl<'a, 'b> Mul<&'a RistrettoBasepointTable> for &'b Scalar { type Output = RistrettoPoint; fn mul(self, t: &'a RistrettoBasepointTable) -> RistrettoPoint { pmul(&t.0, self) } }

#[cfg(feature = "serde")]
mod ser {
    use super::{CompressedRistretto, RistrettoPoint};
    use serde::{de::{self, Visitor}, Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;
    impl Serialize for RistrettoPoint {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.compress().as_bytes()) }
    }
    impl Serialize for CompressedRistretto {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.as_bytes()) }
    }
    impl<'de> Deserialize<'de> for RistrettoPoint {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            CompressedRistretto::deserialize(d)?.decompress().ok_or_else(|| de::Error::custom("decompression failed"))
        }
    }
    impl<'de> Deserialize<'de> for CompressedRistretto {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V;
            impl<'de> Visitor<'de> for V {
                type Value = CompressedRistretto;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("32 bytes of data") }
                fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<CompressedRistretto, E> {
                    if v.len() == 32 { Ok(CompressedRistretto::from_slice(v)) } else { Err(de::Error::invalid_length(v.len(), &self)) }
                }
            }
            d.deserialize_bytes(V)
        }
    }
}
