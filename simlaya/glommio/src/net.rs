//! Simulated sockets behind glommio's TCP types.
use crate::error::Result;
use crate::sim;
use futures_lite::io::{AsyncRead, AsyncWrite};
use std::io;
use std::net::{Shutdown, SocketAddr, ToSocketAddrs};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Debug)]
pub struct TcpListener {
    shard: usize,
    id: u64,
    addr: SocketAddr,
}

impl TcpListener {
    pub fn bind<A: ToSocketAddrs>(addr: A) -> Result<TcpListener, ()> {
        let addr = addr
            .to_socket_addrs()?
            .next()
            .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "empty address"))?;
        let shard = sim::current_shard();
        let id = sim::listen(shard, addr)?;
        Ok(TcpListener { shard, id, addr })
    }
    pub async fn accept(&self) -> Result<TcpStream, ()> {
        let id = std::future::poll_fn(|cx| sim::poll_accept(self.id, cx)).await?;
        Ok(TcpStream { id })
    }
    pub async fn shared_accept(&self) -> Result<AcceptedTcpStream, ()> {
        let id = std::future::poll_fn(|cx| sim::poll_accept(self.id, cx)).await?;
        Ok(AcceptedTcpStream { id })
    }
    pub fn incoming(&self) -> impl futures_lite::Stream<Item = Result<TcpStream, ()>> + Unpin + '_ {
        Box::pin(futures_lite::stream::unfold(self, |l| async move { Some((l.accept().await, l)) }))
    }
    pub fn local_addr(&self) -> Result<SocketAddr, ()> {
        Ok(self.addr)
    }
    pub fn ttl(&self) -> Result<u32, ()> {
        Ok(64)
    }
    pub fn set_ttl(&self, _: u32) -> Result<(), ()> {
        Ok(())
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        sim::unlisten(self.id);
    }
}

pub struct AcceptedTcpStream {
    id: u64,
}
impl AcceptedTcpStream {
    pub fn bind_to_executor(self) -> TcpStream {
        TcpStream { id: self.id }
    }
}

#[derive(Debug)]
pub struct TcpStream {
    pub(crate) id: u64,
}
impl TcpStream {
    pub fn local_addr(&self) -> Result<SocketAddr, ()> {
        Ok(sim::sock_addr(self.id, false)?)
    }
    pub fn peer_addr(&self) -> Result<SocketAddr, ()> {
        Ok(sim::sock_addr(self.id, true)?)
    }
    pub fn set_nodelay(&self, _: bool) -> Result<(), ()> {
        Ok(())
    }
    pub fn nodelay(&self) -> Result<bool, ()> {
        Ok(false)
    }
    pub fn set_read_timeout(&self, _d: Option<Duration>) -> Result<(), ()> {
        Ok(())
    }
    pub fn set_write_timeout(&self, _d: Option<Duration>) -> Result<(), ()> {
        Ok(())
    }
    pub fn ttl(&self) -> Result<u32, ()> {
        Ok(64)
    }
    pub fn set_ttl(&self, _: u32) -> Result<(), ()> {
        Ok(())
    }
    pub async fn shutdown(&self, how: Shutdown) -> Result<(), ()> {
        if !matches!(how, Shutdown::Read) {
            sim::server_shutdown_write(self.id);
        }
        Ok(())
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        sim::poll_read(self.id, false, cx, buf)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        sim::poll_write(self.id, false, cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        sim::server_shutdown_write(self.id);
        Poll::Ready(Ok(()))
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        sim::close(self.id, false);
    }
}

/// The client's end of a simulated connection.
#[derive(Debug)]
pub struct ClientSock {
    pub id: u64,
}
impl ClientSock {
    pub fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        sim::poll_read(self.id, true, cx, buf)
    }
    pub fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        sim::poll_write(self.id, true, cx, buf)
    }
    pub async fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        std::future::poll_fn(|cx| self.poll_read(cx, buf)).await
    }
    pub async fn write_all(&self, mut buf: &[u8]) -> io::Result<()> {
        while !buf.is_empty() {
            let n = std::future::poll_fn(|cx| self.poll_write(cx, buf)).await?;
            buf = &buf[n..];
        }
        Ok(())
    }
    pub fn shutdown_write(&self) {
        sim::client_shutdown_write(self.id);
    }
    /// Closes the socket although handles to it remain.
    pub fn close(&self) {
        sim::close(self.id, true);
    }
    /// Abortive close: RST.
    pub fn reset(&self) {
        sim::client_reset(self.id);
    }
}
impl Drop for ClientSock {
    fn drop(&mut self) {
        sim::close(self.id, true);
    }
}
