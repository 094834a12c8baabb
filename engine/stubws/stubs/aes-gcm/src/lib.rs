//! interface of aes-gcm used by /repo
#[derive(Debug)] pub struct Key(()); #[derive(Debug)] pub struct Nonce(()); #[derive(Debug)] pub struct Tag(());
impl<'a> From<&'a [u8; 16]> for &'a Key { fn from(_: &'a [u8; 16]) -> Self { unimplemented!() } }
impl<'a> From<&'a [u8; 12]> for &'a Nonce { fn from(_: &'a [u8; 12]) -> Self { unimplemented!() } }
impl<'a> From<&'a [u8]> for &'a Tag { fn from(_: &'a [u8]) -> Self { unimplemented!() } }
pub struct Aes128Gcm(());
pub trait NewAead { fn new(k: &Key) -> Self; }
impl NewAead for Aes128Gcm { fn new(_k: &Key) -> Self { unimplemented!() } }
pub mod aead { #[derive(Debug)] pub struct Error;
  pub trait AeadMutInPlace { fn decrypt_in_place_detached(&mut self, n: &crate::Nonce, aad: &[u8], buf: &mut [u8], t: &crate::Tag) -> Result<(), Error>; fn encrypt_in_place_detached(&mut self, n: &crate::Nonce, aad: &[u8], buf: &mut [u8]) -> Result<crate::Tag, Error>; }
  impl AeadMutInPlace for crate::Aes128Gcm { fn decrypt_in_place_detached(&mut self, _n: &crate::Nonce, _aad: &[u8], _buf: &mut [u8], _t: &crate::Tag) -> Result<(), Error> { unimplemented!() } fn encrypt_in_place_detached(&mut self, _n: &crate::Nonce, _aad: &[u8], _buf: &mut [u8]) -> Result<crate::Tag, Error> { unimplemented!() } } }
