//! Interface of the `spki` crate; no behaviour.
#![allow(unused)]
pub use der;
pub use der::oid::ObjectIdentifier;
#[derive(Clone, Debug)]
pub struct AlgorithmIdentifier<P> { pub oid: ObjectIdentifier, pub parameters: Option<P> }
pub type AlgorithmIdentifierRef<'a> = AlgorithmIdentifier<AnyRef<'a>>;
#[derive(Clone, Debug)]
pub struct AnyRef<'a>(&'a [u8]);
impl<'a> AnyRef<'a> { pub fn decode_as<T>(self) -> Result<T, der::Error> { loop {} } pub fn value(&self) -> &'a [u8] { loop {} } }
#[derive(Clone, Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
impl<P> AlgorithmIdentifier<P> {
    pub fn assert_algorithm_oid(&self, o: ObjectIdentifier) -> Result<ObjectIdentifier, Error> { loop {} }
    pub fn assert_parameters_oid(&self, o: ObjectIdentifier) -> Result<ObjectIdentifier, Error> { loop {} }
    pub fn parameters_oid(&self) -> Result<ObjectIdentifier, Error> { loop {} }
    pub fn oids(&self) -> Result<(ObjectIdentifier, Option<ObjectIdentifier>), Error> { loop {} }
}
#[derive(Clone, Debug)]
pub struct SubjectPublicKeyInfo<'a> { pub algorithm: AlgorithmIdentifierRef<'a>, pub subject_public_key: &'a [u8] }
pub type SubjectPublicKeyInfoRef<'a> = SubjectPublicKeyInfo<'a>;
impl<'a> der::DecodeValue<'a> for SubjectPublicKeyInfo<'a> { type Error = der::Error; fn decode_value<R: der::Reader<'a>>(r: &mut R, h: der::Header) -> Result<Self, der::Error> { loop {} } }
impl<'a> der::FixedTag for SubjectPublicKeyInfo<'a> { const TAG: der::Tag = der::Tag::Sequence; }
