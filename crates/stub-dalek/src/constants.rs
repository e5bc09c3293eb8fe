use ristretto::{CompressedRistretto, RistrettoBasepointTable, RistrettoPoint};
use scalar::Scalar;
pub const RISTRETTO_BASEPOINT_COMPRESSED: CompressedRistretto = CompressedRistretto(
    [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xA5, 0]);
pub const RISTRETTO_BASEPOINT_POINT: RistrettoPoint = RistrettoPoint([1, 0]);
pub const RISTRETTO_BASEPOINT_TABLE: RistrettoBasepointTable = RistrettoBasepointTable(RISTRETTO_BASEPOINT_POINT);
/// Not meaningful in the toy group (the order varies at run time).
pub const BASEPOINT_ORDER: Scalar = Scalar { bytes: [0; 32] };
