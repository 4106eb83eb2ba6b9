//! Stand-in for `tokio-rustls` 0.26: handshakes over the real `rustls`, and `TlsStream` as far as
//! imap-next and the proxy use it (conversion into transport and connection). As in the original, the
//! handshake reads whatever the transport has to offer, so application data that arrives together
//! with the last handshake message is left in the connection's plaintext or deframer buffer.
use std::future::poll_fn;
use std::io::{self, ErrorKind, Read, Write};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{ready, Context, Poll};

pub use rustls;
use rustls::pki_types::ServerName;
use rustls::{ClientConfig, ClientConnection, Connection, ServerConfig, ServerConnection};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub mod client {
    pub struct TlsStream<IO> { pub(crate) io: IO, pub(crate) session: rustls::ClientConnection }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ClientConnection) { (&self.io, &self.session) }
        pub fn get_mut(&mut self) -> (&mut IO, &mut rustls::ClientConnection) { (&mut self.io, &mut self.session) }
        pub fn into_inner(self) -> (IO, rustls::ClientConnection) { (self.io, self.session) }
    }
}
pub mod server {
    pub struct TlsStream<IO> { pub(crate) io: IO, pub(crate) session: rustls::ServerConnection }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ServerConnection) { (&self.io, &self.session) }
        pub fn get_mut(&mut self) -> (&mut IO, &mut rustls::ServerConnection) { (&mut self.io, &mut self.session) }
        pub fn into_inner(self) -> (IO, rustls::ServerConnection) { (self.io, self.session) }
    }
}

#[allow(clippy::large_enum_variant)]
pub enum TlsStream<T> { Client(client::TlsStream<T>), Server(server::TlsStream<T>) }
impl<T> From<client::TlsStream<T>> for TlsStream<T> { fn from(s: client::TlsStream<T>) -> Self { Self::Client(s) } }
impl<T> From<server::TlsStream<T>> for TlsStream<T> { fn from(s: server::TlsStream<T>) -> Self { Self::Server(s) } }

struct SyncIo<'a, 'b, IO> { io: &'a mut IO, cx: &'a mut Context<'b> }
impl<IO: AsyncRead + Unpin> Read for SyncIo<'_, '_, IO> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut buf = ReadBuf::new(buf);
        match Pin::new(&mut *self.io).poll_read(self.cx, &mut buf) {
            Poll::Ready(Ok(())) => Ok(buf.filled().len()),
            Poll::Ready(Err(e)) => Err(e),
            Poll::Pending => Err(ErrorKind::WouldBlock.into()),
        }
    }
}
impl<IO: AsyncWrite + Unpin> Write for SyncIo<'_, '_, IO> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match Pin::new(&mut *self.io).poll_write(self.cx, buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(ErrorKind::WouldBlock.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match Pin::new(&mut *self.io).poll_flush(self.cx) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(ErrorKind::WouldBlock.into()),
        }
    }
}

fn poll_io(r: io::Result<usize>) -> Poll<io::Result<usize>> {
    match r { Err(e) if e.kind() == ErrorKind::WouldBlock => Poll::Pending, r => Poll::Ready(r) }
}

fn handshake<IO: AsyncRead + AsyncWrite + Unpin>(io: &mut IO, session: &mut Connection, eof: &mut bool, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    while session.is_handshaking() {
        let (mut write_would_block, mut read_would_block, mut need_flush) = (false, false, false);
        while session.wants_write() {
            match poll_io(session.write_tls(&mut SyncIo { io, cx })) {
                Poll::Ready(Ok(0)) => return Poll::Ready(Err(ErrorKind::WriteZero.into())),
                Poll::Ready(Ok(_)) => need_flush = true,
                Poll::Pending => { write_would_block = true; break; }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            }
        }
        if need_flush {
            match Pin::new(&mut *io).poll_flush(cx) {
                Poll::Ready(Ok(())) => {}
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => write_would_block = true,
            }
        }
        while !*eof && session.wants_read() {
            match poll_io(session.read_tls(&mut SyncIo { io, cx })) {
                Poll::Ready(Ok(0)) => *eof = true,
                Poll::Ready(Ok(_)) => {
                    if let Err(e) = session.process_new_packets() {
                        // In case we have an alert to send describing this error, try a last-gasp write
                        let _ = session.write_tls(&mut SyncIo { io, cx });
                        return Poll::Ready(Err(io::Error::new(ErrorKind::InvalidData, e)));
                    }
                }
                Poll::Pending => { read_would_block = true; break; }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            }
        }
        match (*eof, session.is_handshaking()) {
            (true, true) => return Poll::Ready(Err(io::Error::new(ErrorKind::UnexpectedEof, "tls handshake eof"))),
            (_, false) => break,
            (_, true) if write_would_block || read_would_block => return Poll::Pending,
            _ => {}
        }
    }
    while session.wants_write() {
        match ready!(poll_io(session.write_tls(&mut SyncIo { io, cx }))) {
            Ok(0) => return Poll::Ready(Err(ErrorKind::WriteZero.into())),
            Ok(_) => {}
            Err(e) => return Poll::Ready(Err(e)),
        }
    }
    Pin::new(io).poll_flush(cx)
}

#[derive(Clone)]
pub struct TlsConnector(Arc<ClientConfig>);
impl From<Arc<ClientConfig>> for TlsConnector { fn from(c: Arc<ClientConfig>) -> Self { Self(c) } }
impl TlsConnector {
    pub async fn connect<IO: AsyncRead + AsyncWrite + Unpin>(&self, domain: ServerName<'static>, mut io: IO) -> io::Result<client::TlsStream<IO>> {
        let session = ClientConnection::new(self.0.clone(), domain).map_err(|e| io::Error::new(ErrorKind::Other, e))?;
        let mut session = Connection::Client(session);
        let mut eof = false;
        poll_fn(|cx| handshake(&mut io, &mut session, &mut eof, cx)).await?;
        let Connection::Client(session) = session else { unreachable!() };
        Ok(client::TlsStream { io, session })
    }
}

#[derive(Clone)]
pub struct TlsAcceptor(Arc<ServerConfig>);
impl From<Arc<ServerConfig>> for TlsAcceptor { fn from(c: Arc<ServerConfig>) -> Self { Self(c) } }
impl TlsAcceptor {
    pub async fn accept<IO: AsyncRead + AsyncWrite + Unpin>(&self, mut io: IO) -> io::Result<server::TlsStream<IO>> {
        let session = ServerConnection::new(self.0.clone()).map_err(|e| io::Error::new(ErrorKind::Other, e))?;
        let mut session = Connection::Server(session);
        let mut eof = false;
        poll_fn(|cx| handshake(&mut io, &mut session, &mut eof, cx)).await?;
        let Connection::Server(session) = session else { unreachable!() };
        Ok(server::TlsStream { io, session })
    }
}
