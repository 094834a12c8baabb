//! interface of mpz-vm-core used by /repo
use std::sync::Arc;
pub mod memory { pub use mpz_memory_core::*; pub use mpz_memory_core::binary; }
use mpz_memory_core::*;
use mpz_circuits::Circuit;
use mpz_common::Context;
#[derive(Debug, thiserror::Error)] #[error("vm")] pub struct VmError;
impl VmError { 
    pub fn execute<E: Into<Box<dyn std::error::Error + Send + Sync>>>(_e: E) -> Self { unimplemented!() }
    pub fn memory<E: Into<Box<dyn std::error::Error + Send + Sync>>>(_e: E) -> Self { unimplemented!() }
    pub fn view<E: Into<Box<dyn std::error::Error + Send + Sync>>>(_e: E) -> Self { unimplemented!() }
    pub fn call<E: Into<Box<dyn std::error::Error + Send + Sync>>>(_e: E) -> Self { unimplemented!() } }
#[derive(Debug, thiserror::Error)] #[error("call")] pub struct CallError;
pub struct Call(());
pub struct CallBuilder(());
impl Call { pub fn builder(_c: Arc<Circuit>) -> CallBuilder { unimplemented!() } }
impl CallBuilder { pub fn new(_c: Arc<Circuit>) -> Self { unimplemented!() } pub fn arg<T: ToRaw>(self, _t: T) -> Self { unimplemented!() } pub fn build(self) -> Result<Call, CallError> { unimplemented!() } }
pub trait Callable<M> { fn call_raw(&mut self, c: Call) -> Result<Slice, VmError>; }
#[async_trait::async_trait]
pub trait Execute { fn wants_flush(&self) -> bool; async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError>; fn wants_preprocess(&self) -> bool; async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_execute(&self) -> bool; async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError>; async fn execute_all(&mut self, ctx: &mut Context) -> Result<(), VmError>; }
pub trait Vm<M>: Memory<M, Error = VmError> + View<M, Error = VmError> + Callable<M> + Execute {}
impl<M, T: ?Sized + Memory<M, Error = VmError> + View<M, Error = VmError> + Callable<M> + Execute> Vm<M> for T {}
pub trait CallableExt<M>: Callable<M> { fn call<R: FromRaw<M>>(&mut self, _c: Call) -> Result<R, VmError> { unimplemented!() } }
impl<M, T: ?Sized + Callable<M>> CallableExt<M> for T {}
pub trait VmExt<M>: Vm<M> { 
    fn mask_private<R: Repr<M>>(&mut self, _t: R, _otp: R::Clear) -> Result<R, VmError> { unimplemented!() }
    fn mask_blind<R: Repr<M>>(&mut self, _t: R) -> Result<R, VmError> { unimplemented!() } }
impl<M, T: ?Sized + Vm<M>> VmExt<M> for T {}
pub mod prelude { pub use crate::{CallableExt, VmExt, Execute}; pub use mpz_memory_core::{MemoryExt, ViewExt, ToRaw, FromRaw, StaticSize, Repr, Array, Vector, Slice}; }
