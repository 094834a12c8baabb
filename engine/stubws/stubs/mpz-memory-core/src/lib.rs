//! interface of mpz-memory-core used by /repo
use std::{future::Future, marker::PhantomData, ops::Range, pin::Pin, task::{Context, Poll}};
use mpz_core::bitvec::BitVec;
pub mod binary {
    #[derive(Debug, Clone, Copy)] pub struct Binary;
    #[derive(Debug, Clone, Copy)] pub struct U8;
    #[derive(Debug, Clone, Copy)] pub struct U32;
}
use binary::*;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub struct Slice(usize, usize);
impl Slice { pub fn len(&self) -> usize { unimplemented!() } pub fn size(&self) -> usize { unimplemented!() } pub fn ptr(&self) -> usize { unimplemented!() } }
#[derive(Debug, PartialEq, Eq, Hash)] pub struct Array<T, const N: usize>(Slice, PhantomData<T>);
impl<T, const N: usize> Clone for Array<T, N> { fn clone(&self) -> Self { *self } }
impl<T, const N: usize> Copy for Array<T, N> {}
#[derive(Debug, PartialEq, Eq, Hash)] pub struct Vector<T>(Slice, PhantomData<T>);
impl<T> Clone for Vector<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Vector<T> {}
impl<T> Vector<T> {
    pub fn len(&self) -> usize { unimplemented!() }
    pub fn is_empty(&self) -> bool { unimplemented!() }
    pub fn get(&self, _r: Range<usize>) -> Option<Self> { unimplemented!() }
    pub fn truncate(&mut self, _n: usize) { unimplemented!() }
    pub fn split_off(&mut self, _n: usize) -> Self { unimplemented!() }
    pub fn to_raw(&self) -> Slice { unimplemented!() }
}
impl<T, const N: usize> From<Array<T, N>> for Vector<T> { fn from(_: Array<T, N>) -> Self { unimplemented!() } }
#[derive(Debug, thiserror::Error)] #[error("length")] pub struct LengthError;
impl<T, const N: usize> TryFrom<Vector<T>> for Array<T, N> { type Error = LengthError; fn try_from(_: Vector<T>) -> Result<Self, LengthError> { unimplemented!() } }
pub trait ToRaw { fn to_raw(&self) -> Slice; }
pub trait FromRaw<M> { fn from_raw(s: Slice) -> Self; }
pub trait StaticSize<M> { const SIZE: usize; }
pub trait Repr<M>: ToRaw + FromRaw<M> { type Clear; }
macro_rules! prim { ($($t:ty = $c:ty, $n:expr;)*) => { $(
    impl ToRaw for $t { fn to_raw(&self) -> Slice { unimplemented!() } }
    impl FromRaw<Binary> for $t { fn from_raw(_: Slice) -> Self { unimplemented!() } }
    impl StaticSize<Binary> for $t { const SIZE: usize = $n; }
    impl Repr<Binary> for $t { type Clear = $c; }
    impl<const N: usize> Repr<Binary> for Array<$t, N> { type Clear = [$c; N]; }
    impl<const N: usize> StaticSize<Binary> for Array<$t, N> { const SIZE: usize = $n * N; }
    impl Repr<Binary> for Vector<$t> { type Clear = Vec<$c>; }
)* } }
prim! { U8 = u8, 8; U32 = u32, 32; }
impl<T, const N: usize> ToRaw for Array<T, N> { fn to_raw(&self) -> Slice { unimplemented!() } }
impl<T, const N: usize> FromRaw<Binary> for Array<T, N> { fn from_raw(_: Slice) -> Self { unimplemented!() } }
impl<T> ToRaw for Vector<T> { fn to_raw(&self) -> Slice { unimplemented!() } }
impl<T> FromRaw<Binary> for Vector<T> { fn from_raw(_: Slice) -> Self { unimplemented!() } }
impl ToRaw for Slice { fn to_raw(&self) -> Slice { unimplemented!() } }
impl FromRaw<Binary> for Slice { fn from_raw(_: Slice) -> Self { unimplemented!() } }
macro_rules! tup { ($($n:ident),*) => { impl<$($n: FromRaw<Binary>),*> FromRaw<Binary> for ($($n,)*) { fn from_raw(_: Slice) -> Self { unimplemented!() } } } }
tup!(A, B); tup!(A, B, C); tup!(A, B, C, D);
#[derive(Debug, thiserror::Error)] #[error("decode")] pub struct DecodeError;
#[derive(Debug)] pub struct DecodeFuture<T>(PhantomData<T>);
#[derive(Debug)] pub struct DecodeFutureTyped<C, T>(PhantomData<(C, T)>);
impl<C, T> Unpin for DecodeFutureTyped<C, T> {}
impl<C, T> DecodeFutureTyped<C, T> { pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> { unimplemented!() } }
impl<C, T> Future for DecodeFutureTyped<C, T> { type Output = Result<T, DecodeError>; fn poll(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<Self::Output> { unimplemented!() } }
pub trait Memory<M> { type Error: std::error::Error + Send + Sync + 'static; fn is_alloc_raw(&self, s: Slice) -> bool; }
pub trait View<M> { type Error: std::error::Error + Send + Sync + 'static; fn is_pub_raw(&self, s: Slice) -> bool; }
type R<T, E> = Result<T, E>;
pub trait MemoryExt<M>: Memory<M> {
    fn alloc<T: Repr<M> + StaticSize<M>>(&mut self) -> R<T, Self::Error> { unimplemented!() }
    fn alloc_vec<T: Repr<M> + StaticSize<M>>(&mut self, _n: usize) -> R<Vector<T>, Self::Error> { unimplemented!() }
    fn assign<T: Repr<M>>(&mut self, _t: T, _c: T::Clear) -> R<(), Self::Error> { unimplemented!() }
    fn commit<T: ToRaw>(&mut self, _t: T) -> R<(), Self::Error> { unimplemented!() }
    fn get<T: Repr<M>>(&self, _t: T) -> R<Option<T::Clear>, Self::Error> { unimplemented!() }
    fn decode<T: Repr<M>>(&mut self, _t: T) -> R<DecodeFutureTyped<BitVec, T::Clear>, Self::Error> { unimplemented!() }
}
impl<M, T: ?Sized + Memory<M>> MemoryExt<M> for T {}
pub trait ViewExt<M>: View<M> {
    fn mark_public<T: ToRaw>(&mut self, _t: T) -> R<(), Self::Error> { unimplemented!() }
    fn mark_private<T: ToRaw>(&mut self, _t: T) -> R<(), Self::Error> { unimplemented!() }
    fn mark_blind<T: ToRaw>(&mut self, _t: T) -> R<(), Self::Error> { unimplemented!() }
}
impl<M, T: ?Sized + View<M>> ViewExt<M> for T {}
