//! Interface of an elliptic-curve crate; no behaviour.
#![allow(unused)]
#[derive(Debug, Clone)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
pub mod ecdsa {
    pub use signature;
    pub type Error = signature::Error;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Signature([u8; 64]);
    impl Signature { pub fn from_slice(s: &[u8]) -> Result<Self, Error> { loop {} } pub fn from_der(s: &[u8]) -> Result<Self, Error> { loop {} } pub fn to_vec(&self) -> Vec<u8> { loop {} } pub fn to_bytes(&self) -> [u8; 64] { loop {} } pub fn normalize_s(&self) -> Option<Self> { loop {} } }
    #[derive(Debug, Clone)]
    pub struct SigningKey([u8; 32]);
    impl SigningKey { pub fn from_slice(s: &[u8]) -> Result<Self, Error> { loop {} } pub fn from_bytes(s: &[u8; 32]) -> Result<Self, Error> { loop {} } pub fn verifying_key(&self) -> &VerifyingKey { loop {} }
        pub fn sign_prehash_recoverable(&self, h: &[u8]) -> Result<(Signature, RecoveryId), Error> { loop {} }
        pub fn sign_recoverable(&self, m: &[u8]) -> Result<(Signature, RecoveryId), Error> { loop {} } }
    impl signature::Signer<Signature> for SigningKey { fn try_sign(&self, m: &[u8]) -> Result<Signature, Error> { loop {} } }
    impl signature::hazmat::PrehashSigner<Signature> for SigningKey { fn sign_prehash(&self, m: &[u8]) -> Result<Signature, Error> { loop {} } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct VerifyingKey([u8; 33]);
    impl VerifyingKey { pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> { loop {} } pub fn to_sec1_bytes(&self) -> Box<[u8]> { loop {} } pub fn to_encoded_point(&self, c: bool) -> crate::EncodedPoint { loop {} } }
    impl signature::Verifier<Signature> for VerifyingKey { fn verify(&self, m: &[u8], s: &Signature) -> Result<(), Error> { loop {} } }
    impl signature::hazmat::PrehashVerifier<Signature> for VerifyingKey { fn verify_prehash(&self, m: &[u8], s: &Signature) -> Result<(), Error> { loop {} } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct RecoveryId(u8);
    impl RecoveryId { pub fn to_byte(self) -> u8 { loop {} } pub fn is_y_odd(self) -> bool { loop {} } pub fn from_byte(b: u8) -> Option<Self> { loop {} } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct EncodedPoint([u8; 32]);
#[derive(Debug, Clone, Copy)]
pub struct FieldBytes([u8; 32]);
impl std::ops::Deref for FieldBytes { type Target = [u8]; fn deref(&self) -> &[u8] { loop {} } }
impl std::ops::DerefMut for FieldBytes { fn deref_mut(&mut self) -> &mut [u8] { loop {} } }
impl AsRef<[u8]> for FieldBytes { fn as_ref(&self) -> &[u8] { loop {} } }
impl From<FieldBytes> for [u8; 32] { fn from(f: FieldBytes) -> Self { loop {} } }
impl From<[u8; 32]> for FieldBytes { fn from(f: [u8; 32]) -> Self { loop {} } }
impl EncodedPoint { pub fn to_bytes(&self) -> Box<[u8]> { loop {} } pub fn as_bytes(&self) -> &[u8] { loop {} } pub fn x(&self) -> Option<&FieldBytes> { loop {} } pub fn y(&self) -> Option<&FieldBytes> { loop {} } pub fn from_bytes(b: impl AsRef<[u8]>) -> Result<Self, Error> { loop {} } pub fn is_identity(&self) -> bool { loop {} } pub fn is_compressed(&self) -> bool { loop {} } }
impl AsRef<[u8]> for EncodedPoint { fn as_ref(&self) -> &[u8] { loop {} } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct PublicKey([u8; 32]);
impl PublicKey {
    pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> { loop {} }
    pub fn to_sec1_bytes(&self) -> Box<[u8]> { loop {} }
    pub fn from_affine(p: AffinePoint) -> Result<Self, Error> { loop {} }
    pub fn as_affine(&self) -> &AffinePoint { loop {} }
    pub fn to_projective(&self) -> ProjectivePoint { loop {} }
    pub fn to_encoded_point(&self, c: bool) -> EncodedPoint { loop {} }
}
impl From<PublicKey> for EncodedPoint { fn from(p: PublicKey) -> Self { loop {} } }
impl std::ops::Mul<&Scalar> for ProjectivePoint { type Output = Self; fn mul(self, o: &Scalar) -> Self { loop {} } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct AffinePoint([u8; 32]);
impl From<AffinePoint> for ProjectivePoint { fn from(p: AffinePoint) -> Self { loop {} } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ProjectivePoint([u8; 32]);
impl ProjectivePoint { pub const IDENTITY: Self = Self([0; 32]); pub const GENERATOR: Self = Self([0; 32]); pub fn to_affine(&self) -> AffinePoint { loop {} } pub fn to_encoded_point(&self, c: bool) -> EncodedPoint { loop {} } }
impl std::ops::Add for ProjectivePoint { type Output = Self; fn add(self, o: Self) -> Self { loop {} } }
impl<'a> std::ops::Mul<&'a NonZeroScalar> for ProjectivePoint { type Output = Self; fn mul(self, o: &NonZeroScalar) -> Self { loop {} } }
impl std::ops::Mul<NonZeroScalar> for ProjectivePoint { type Output = Self; fn mul(self, o: NonZeroScalar) -> Self { loop {} } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Scalar([u8; 32]);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct NonZeroScalar([u8; 32]);
impl AsRef<Scalar> for NonZeroScalar { fn as_ref(&self) -> &Scalar { loop {} } }
impl std::ops::Deref for NonZeroScalar { type Target = Scalar; fn deref(&self) -> &Scalar { loop {} } }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
    pub fn random<R>(rng: &mut R) -> Self { loop {} }
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> { loop {} }
    pub fn from_bytes(b: &FieldBytes) -> Result<Self, Error> { loop {} }
    pub fn public_key(&self) -> PublicKey { loop {} }
    pub fn to_nonzero_scalar(&self) -> NonZeroScalar { loop {} }
    pub fn to_bytes(&self) -> FieldBytes { loop {} }
}
pub mod elliptic_curve { pub use super::Error;
    pub mod sec1 { pub trait ToEncodedPoint {} pub trait FromEncodedPoint {} }
    pub mod point { pub trait AffineCoordinates {} }
}
pub mod ecdh {
    pub struct SharedSecret([u8; 32]);
    impl SharedSecret { pub fn raw_secret_bytes(&self) -> &crate::FieldBytes { loop {} } }
    pub fn diffie_hellman(a: &crate::NonZeroScalar, b: &crate::AffinePoint) -> SharedSecret { loop {} }
    pub struct EphemeralSecret(u8);
}
