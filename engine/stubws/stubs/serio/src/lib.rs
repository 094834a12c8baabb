//! interface of serio used by /repo
use std::{future::Future, pin::Pin, task::{Context, Poll}};
pub trait Serialize: serde::Serialize + Send + Sync + Unpin {}
impl<T: serde::Serialize + Send + Sync + Unpin> Serialize for T {}
pub trait Deserialize: serde::de::DeserializeOwned + Send + Sync + Unpin {}
impl<T: serde::de::DeserializeOwned + Send + Sync + Unpin> Deserialize for T {}
pub trait Sink { type Error;
    fn poll_ready(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Result<(), Self::Error>>;
    fn start_send<I: Serialize>(self: Pin<&mut Self>, i: I) -> Result<(), Self::Error>;
    fn poll_flush(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Result<(), Self::Error>>;
    fn poll_close(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Result<(), Self::Error>>; }
pub trait Stream { type Error; fn poll_next<I: Deserialize>(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Option<Result<I, Self::Error>>>; }
pub type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
pub mod sink { pub use crate::SinkExt; }
pub trait SinkExt: Sink {
    fn send<'a, I: Serialize + 'a>(&'a mut self, _i: I) -> BoxFut<'a, Result<(), Self::Error>> { unimplemented!() }
    fn feed<'a, I: Serialize + 'a>(&'a mut self, _i: I) -> BoxFut<'a, Result<(), Self::Error>> { unimplemented!() }
    fn flush<'a>(&'a mut self) -> BoxFut<'a, Result<(), Self::Error>> { unimplemented!() }
    fn close<'a>(&'a mut self) -> BoxFut<'a, Result<(), Self::Error>> { unimplemented!() }
}
impl<T: Sink + ?Sized> SinkExt for T {}
pub mod stream {
    pub trait IoStreamExt: crate::Stream {
        fn expect_next<'a, I: crate::Deserialize + 'a>(&'a mut self) -> crate::BoxFut<'a, Result<I, Self::Error>> { unimplemented!() }
    }
    impl<T: crate::Stream + ?Sized> IoStreamExt for T {}
}
pub mod codec { 
    #[derive(Debug, Clone, Copy, Default)] pub struct Bincode;
    pub trait Codec<Io> { type Framed; fn new_framed(&self, io: Io) -> Self::Framed; }
}
