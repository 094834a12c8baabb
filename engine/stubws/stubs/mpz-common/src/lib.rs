//! interface of mpz-common used by /repo
use std::{future::Future, pin::Pin};
pub type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
#[derive(Debug, thiserror::Error)] #[error("context")] pub struct ContextError;
#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct ContextId(Vec<u8>);
impl ContextId { pub fn as_bytes(&self) -> &[u8] { unimplemented!() } pub fn new(_: u8) -> Self { unimplemented!() } }
impl AsRef<[u8]> for ContextId { fn as_ref(&self) -> &[u8] { unimplemented!() } }
pub struct Context(io::Io);
impl std::fmt::Debug for Context { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl Context {
    pub fn id(&self) -> &ContextId { unimplemented!() }
    pub fn io(&self) -> &io::Io { unimplemented!() }
    pub fn io_mut(&mut self) -> &mut io::Io { unimplemented!() }
    pub fn new_single_threaded(_io: io::Io) -> Self { unimplemented!() }
    pub async fn try_join<'a, A, B, RA, RB, E>(&'a mut self, _a: A, _b: B) -> Result<Result<(RA, RB), E>, ContextError>
    where A: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RA, E>> + Send, B: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RB, E>> + Send { unimplemented!() }
    pub async fn join<'a, A, B, RA, RB>(&'a mut self, _a: A, _b: B) -> Result<(RA, RB), ContextError>
    where A: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, RA> + Send, B: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, RB> + Send { unimplemented!() }
    pub async fn try_join3<'a, A, B, C, RA, RB, RC, E>(&'a mut self, _a: A, _b: B, _c: C) -> Result<Result<(RA, RB, RC), E>, ContextError>
    where A: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RA, E>> + Send, B: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RB, E>> + Send, C: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RC, E>> + Send { unimplemented!() }
    pub async fn try_join4<'a, A, B, C, D, RA, RB, RC, RD, E>(&'a mut self, _a: A, _b: B, _c: C, _d: D) -> Result<Result<(RA, RB, RC, RD), E>, ContextError>
    where A: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RA, E>> + Send, B: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RB, E>> + Send, C: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RC, E>> + Send, D: for<'x> FnOnce(&'x mut Context) -> BoxFut<'x, Result<RD, E>> + Send { unimplemented!() }
}
#[async_trait::async_trait]
pub trait Flush { type Error: std::error::Error + Send + Sync + 'static; fn wants_flush(&self) -> bool; async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error>; }
#[async_trait::async_trait]
pub trait Task { type Output; async fn run(self, ctx: &mut Context) -> Self::Output where Self: Sized; async fn run_boxed(self: Box<Self>, ctx: &mut Context) -> Self::Output; }
pub mod future {
    pub trait Output: std::future::Future<Output = Result<Self::Ok, Self::Error>> { type Ok; type Error; fn try_recv(&mut self) -> Result<Option<Self::Ok>, Self::Error>; }
}
pub mod io {
    use std::{pin::Pin, task::{Context as Cx, Poll}};
    pub struct Io(());
    impl Io { pub fn from_io<T>(_t: T) -> Self { unimplemented!() } }
    impl serio::Sink for Io { type Error = std::io::Error;
        fn poll_ready(self: Pin<&mut Self>, _c: &mut Cx<'_>) -> Poll<Result<(), std::io::Error>> { unimplemented!() }
        fn start_send<I: serio::Serialize>(self: Pin<&mut Self>, _i: I) -> Result<(), std::io::Error> { unimplemented!() }
        fn poll_flush(self: Pin<&mut Self>, _c: &mut Cx<'_>) -> Poll<Result<(), std::io::Error>> { unimplemented!() }
        fn poll_close(self: Pin<&mut Self>, _c: &mut Cx<'_>) -> Poll<Result<(), std::io::Error>> { unimplemented!() } }
    impl serio::Stream for Io { type Error = std::io::Error; fn poll_next<I: serio::Deserialize>(self: Pin<&mut Self>, _c: &mut Cx<'_>) -> Poll<Option<Result<I, std::io::Error>>> { unimplemented!() } }
}
pub mod mux { pub trait Mux { fn open(&self, id: crate::ContextId) -> Result<crate::io::Io, std::io::Error>; } }
