//! interface of mpz-hash used by /repo
macro_rules! hash { ($m:ident, $t:ident, $e:ident) => { pub mod $m {
    use mpz_memory_core::{Array, Vector, binary::{Binary, U8, U32}}; use mpz_vm_core::Vm;
    #[derive(Debug, thiserror::Error)] #[error("hash")] pub struct $e;
    #[derive(Debug, Clone)] pub struct $t(());
    impl $t { pub fn new_with_init(_vm: &mut dyn Vm<Binary>) -> Result<Self, $e> { unimplemented!() } pub fn new_from_state(_s: Array<U32, 8>, _n: usize) -> Self { unimplemented!() } pub fn set_state(&mut self, _s: Array<U32, 8>, _n: usize) -> &mut Self { unimplemented!() } pub fn state(&self) -> Option<(Array<U32, 8>, usize)> { unimplemented!() }
      pub fn update(&mut self, _v: &Vector<U8>) { unimplemented!() } pub fn compress(&mut self, _vm: &mut dyn Vm<Binary>) -> Result<&mut Self, $e> { unimplemented!() } pub fn finalize(&mut self, _vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, $e> { unimplemented!() } }
} } }
hash!(sha256, Sha256, Sha256Error); hash!(blake3, Blake3, Blake3Error); hash!(keccak256, Keccak256, Keccak256Error);
