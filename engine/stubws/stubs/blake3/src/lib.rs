//! Interface of the `blake3` crate; no behaviour.
#![allow(unused)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash([u8; 32]);
impl Hash { pub fn as_bytes(&self) -> &[u8; 32] { loop {} } }
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> Self { loop {} } }
pub fn hash(data: &[u8]) -> Hash { loop {} }
#[derive(Clone, Debug, Default)]
pub struct Hasher(u8);
impl Hasher { pub fn new() -> Self { loop {} } pub fn update(&mut self, data: &[u8]) -> &mut Self { loop {} } pub fn finalize(&self) -> Hash { loop {} } pub fn new_keyed(k: &[u8; 32]) -> Self { loop {} } }
