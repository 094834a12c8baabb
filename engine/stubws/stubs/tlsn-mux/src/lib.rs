//! interface of tlsn-mux used by /repo
use std::{fmt, io, pin::Pin, task::{Context, Poll}};
#[derive(Debug)] pub struct ConnectionError;
impl fmt::Display for ConnectionError { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl std::error::Error for ConnectionError {}
#[derive(Debug, Clone)] pub struct Handle(());
#[derive(Debug)] pub struct Stream(());
impl Handle { pub fn new_stream(&self, _id: &[u8]) -> Result<Stream, ConnectionError> { unimplemented!() } }
impl futures::AsyncRead for Stream { fn poll_read(self: Pin<&mut Self>, _c: &mut Context<'_>, _b: &mut [u8]) -> Poll<io::Result<usize>> { unimplemented!() } }
impl futures::AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, _c: &mut Context<'_>, _b: &[u8]) -> Poll<io::Result<usize>> { unimplemented!() }
    fn poll_flush(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<io::Result<()>> { unimplemented!() }
    fn poll_close(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<io::Result<()>> { unimplemented!() }
}
