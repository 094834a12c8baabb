//! interface of rand06-compat used by /repo
pub struct Compat<T>(T);
impl<T> rand_core::RngCore for Compat<T> { fn next_u32(&mut self) -> u32 { unimplemented!() } fn next_u64(&mut self) -> u64 { unimplemented!() } fn fill_bytes(&mut self, _d: &mut [u8]) { unimplemented!() } fn try_fill_bytes(&mut self, _d: &mut [u8]) -> Result<(), rand_core::Error> { unimplemented!() } }
impl<T> rand_core::CryptoRng for Compat<T> {}
pub trait Rand0_6CompatExt: Sized { fn compat(self) -> Compat<Self>; fn compat_by_ref(&mut self) -> Compat<&mut Self>; }
impl<T> Rand0_6CompatExt for T { fn compat(self) -> Compat<Self> { unimplemented!() } fn compat_by_ref(&mut self) -> Compat<&mut Self> { unimplemented!() } }
