//! interface of mpz-share-conversion used by /repo
use std::marker::PhantomData;
use mpz_common::{future::Output, Context, Flush};
pub struct A2MOutput<F> { pub shares: Vec<F> }
pub struct M2AOutput<F> { pub shares: Vec<F> }
pub trait AdditiveToMultiplicative<F> { type Error: std::error::Error + Send + Sync + 'static; type Future: Output<Ok = A2MOutput<F>, Error = Self::Error> + Send + 'static;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>; fn queue_to_multiplicative(&mut self, i: &[F]) -> Result<Self::Future, Self::Error>; }
pub trait MultiplicativeToAdditive<F> { type Error: std::error::Error + Send + Sync + 'static; type Future: Output<Ok = M2AOutput<F>, Error = Self::Error> + Send + 'static;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>; fn queue_to_additive(&mut self, i: &[F]) -> Result<Self::Future, Self::Error>; }
pub trait ShareConvert<F>: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F> {}
impl<F, T: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F>> ShareConvert<F> for T {}
#[derive(Debug, thiserror::Error)] #[error("convert")] pub struct ShareConversionError;
pub struct Fut<T>(PhantomData<T>);
impl<T> std::future::Future for Fut<T> { type Output = Result<T, ShareConversionError>; fn poll(self: std::pin::Pin<&mut Self>, _c: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> { unimplemented!() } }
impl<T> Output for Fut<T> { type Ok = T; type Error = ShareConversionError; fn try_recv(&mut self) -> Result<Option<T>, ShareConversionError> { unimplemented!() } }
macro_rules! conv { ($n:ident) => {
    #[derive(Debug)] pub struct $n<T, F>(PhantomData<(T, F)>);
    impl<T, F> $n<T, F> { pub fn new(_t: T) -> Self { unimplemented!() } }
    impl<T, F: Send + 'static> AdditiveToMultiplicative<F> for $n<T, F> { type Error = ShareConversionError; type Future = Fut<A2MOutput<F>>; fn alloc(&mut self, _n: usize) -> Result<(), ShareConversionError> { unimplemented!() } fn queue_to_multiplicative(&mut self, _i: &[F]) -> Result<Self::Future, ShareConversionError> { unimplemented!() } }
    impl<T, F: Send + 'static> MultiplicativeToAdditive<F> for $n<T, F> { type Error = ShareConversionError; type Future = Fut<M2AOutput<F>>; fn alloc(&mut self, _n: usize) -> Result<(), ShareConversionError> { unimplemented!() } fn queue_to_additive(&mut self, _i: &[F]) -> Result<Self::Future, ShareConversionError> { unimplemented!() } }
    #[async_trait::async_trait] impl<T: Send, F: Send> Flush for $n<T, F> { type Error = ShareConversionError; fn wants_flush(&self) -> bool { unimplemented!() } async fn flush(&mut self, _c: &mut Context) -> Result<(), ShareConversionError> { unimplemented!() } }
} }
conv!(ShareConversionSender); conv!(ShareConversionReceiver);
