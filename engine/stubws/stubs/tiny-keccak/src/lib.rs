//! Interface of the `tiny-keccak` crate; no behaviour.
#![allow(unused)]
pub trait Hasher { fn update(&mut self, input: &[u8]); fn finalize(self, output: &mut [u8]); }
#[derive(Clone)]
pub struct Keccak(u8);
impl Keccak { pub fn v224() -> Self { loop {} } pub fn v256() -> Self { loop {} } pub fn v384() -> Self { loop {} } pub fn v512() -> Self { loop {} } }
impl Hasher for Keccak { fn update(&mut self, input: &[u8]) { loop {} } fn finalize(self, output: &mut [u8]) { loop {} } }
