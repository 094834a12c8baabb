//! Interface of the `bcs` crate; no behaviour.
#![allow(unused)]
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
pub fn to_bytes<T: ?Sized + serde::Serialize>(value: &T) -> Result<Vec<u8>> { loop {} }
pub fn from_bytes<'a, T: serde::Deserialize<'a>>(bytes: &'a [u8]) -> Result<T> { loop {} }
