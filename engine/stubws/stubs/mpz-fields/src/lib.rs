//! interface of mpz-fields used by /repo
use std::ops::*;
pub trait UniformRand: Sized { fn rand<R: rand::Rng + ?Sized>(r: &mut R) -> Self; }
pub trait Field: Copy + Send + Sync + 'static + UniformRand + Add<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + Sub<Output = Self> {
    const BIT_SIZE: usize; fn zero() -> Self; fn one() -> Self; fn two_pow(n: u32) -> Self; fn inverse(self) -> Option<Self>; fn to_le_bytes(&self) -> Vec<u8>; fn to_be_bytes(&self) -> Vec<u8>; }
#[derive(Debug)] pub struct FieldError;
impl std::fmt::Display for FieldError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for FieldError {}
macro_rules! field { ($m:ident, $t:ident, $n:expr) => { pub mod $m { use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)] pub struct $t([u8; $n]);
    impl $t { pub fn new(_x: u128) -> Self { unimplemented!() } pub fn to_inner(self) -> u128 { unimplemented!() } }
    impl Add for $t { type Output = Self; fn add(self, _o: Self) -> Self { unimplemented!() } }
    impl Sub for $t { type Output = Self; fn sub(self, _o: Self) -> Self { unimplemented!() } }
    impl Mul for $t { type Output = Self; fn mul(self, _o: Self) -> Self { unimplemented!() } }
    impl Neg for $t { type Output = Self; fn neg(self) -> Self { unimplemented!() } }
    impl UniformRand for $t { fn rand<R: rand::Rng + ?Sized>(_r: &mut R) -> Self { unimplemented!() } }
    impl Field for $t { const BIT_SIZE: usize = $n * 8; fn zero() -> Self { unimplemented!() } fn one() -> Self { unimplemented!() } fn two_pow(_n: u32) -> Self { unimplemented!() } fn inverse(self) -> Option<Self> { unimplemented!() } fn to_le_bytes(&self) -> Vec<u8> { unimplemented!() } fn to_be_bytes(&self) -> Vec<u8> { unimplemented!() } }
    impl From<[u8; $n]> for $t { fn from(_: [u8; $n]) -> Self { unimplemented!() } }
    impl TryFrom<Vec<u8>> for $t { type Error = FieldError; fn try_from(_: Vec<u8>) -> Result<Self, FieldError> { unimplemented!() } }
    impl TryFrom<&[u8]> for $t { type Error = FieldError; fn try_from(_: &[u8]) -> Result<Self, FieldError> { unimplemented!() } }
} } }
field!(gf2_128, Gf2_128, 16); field!(p256, P256, 32);
impl From<mpz_core::Block> for gf2_128::Gf2_128 { fn from(_: mpz_core::Block) -> Self { unimplemented!() } }
impl From<gf2_128::Gf2_128> for mpz_core::Block { fn from(_: gf2_128::Gf2_128) -> Self { unimplemented!() } }
