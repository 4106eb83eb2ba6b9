//! The scripted state machine, the peer and the single-step driver.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Cursor, Read, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll, Wake, Waker};

use imap_next::{Interrupt, Io, State};
use rustls::pki_types::{PrivateKeyDer, ServerName};
use rustls::{ClientConfig, ClientConnection, Connection, RootCertStore, ServerConfig, ServerConnection};
use tokio::net::TcpStream;
use tokio::sim::Pipe;
use tokio_rustls::{TlsAcceptor, TlsConnector, TlsStream};

// ---- a state machine that does what the test says

#[derive(Clone, Debug)]
pub enum Act { Out(Vec<u8>), Ev(u64), Err(u64) }
#[derive(Default)]
pub struct Inner {
    pub todo: VecDeque<Act>,
    /// Done once that many bytes were received.
    pub triggers: Vec<(usize, Act)>,
    pub received: Vec<u8>,
    pub outs: Vec<u8>,
    /// Events and errors returned so far.
    pub returned: Vec<Result<u64, u64>>,
    pub needs: u64,
    pub calls: u64,
}
#[derive(Clone, Default)]
pub struct Script(pub Rc<RefCell<Inner>>);
impl State for Script {
    type Event = u64;
    type Error = u64;
    fn enqueue_input(&mut self, bytes: &[u8]) {
        let mut i = self.0.borrow_mut();
        i.received.extend_from_slice(bytes);
        let n = i.received.len();
        let (due, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut i.triggers).into_iter().partition(|t| t.0 <= n);
        i.triggers = rest;
        for t in due { i.todo.push_back(t.1); }
    }
    fn next(&mut self) -> Result<u64, Interrupt<u64>> {
        let mut i = self.0.borrow_mut();
        i.calls += 1;
        match i.todo.pop_front() {
            None => { i.needs += 1; Err(Interrupt::Io(Io::NeedMoreInput)) }
            Some(Act::Out(b)) => { i.outs.extend_from_slice(&b); Err(Interrupt::Io(Io::Output(b))) }
            Some(Act::Ev(e)) => { i.returned.push(Ok(e)); Ok(e) }
            Some(Act::Err(e)) => { i.returned.push(Err(e)); Err(Interrupt::Error(e)) }
        }
    }
}

// ---- polling by hand

pub struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::Relaxed); } fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Ordering::Relaxed); } }
pub struct Poller { flag: Arc<Flag>, waker: Waker }
impl Poller {
    pub fn new() -> Self { let flag = Arc::new(Flag(AtomicBool::new(true))); Self { waker: flag.clone().into(), flag } }
    pub fn woken(&self) -> bool { self.flag.0.load(Ordering::Relaxed) }
    pub fn renew(&self) { self.flag.0.store(true, Ordering::Relaxed); }
    pub fn poll<F: Future + ?Sized>(&self, f: Pin<&mut F>) -> Poll<F::Output> { self.flag.0.store(false, Ordering::Relaxed); f.poll(&mut Context::from_waker(&self.waker)) }
}

// ---- TLS material

macro_rules! pem { ($n:literal) => { include_bytes!(concat!("../../certs/", $n)) } }
pub fn roots() -> RootCertStore {
    let mut r = RootCertStore::empty();
    for c in rustls_pemfile::certs(&mut &pem!("root.pem")[..]) { r.add(c.unwrap()).unwrap(); }
    r
}
pub fn configs(v12: bool) -> &'static (Arc<ClientConfig>, Arc<ServerConfig>) {
    static C: [OnceLock<(Arc<ClientConfig>, Arc<ServerConfig>)>; 2] = [OnceLock::new(), OnceLock::new()];
    C[v12 as usize].get_or_init(|| {
        let versions: &[&rustls::SupportedProtocolVersion] = if v12 { &[&rustls::version::TLS12] } else { &[&rustls::version::TLS13] };
        let certs = rustls_pemfile::certs(&mut &pem!("localhost.pem")[..]).collect::<Result<Vec<_>, _>>().unwrap();
        let key = rustls_pemfile::pkcs8_private_keys(&mut &pem!("localhost.key")[..]).next().unwrap().unwrap();
        let p = Arc::new(rustls::crypto::ring::default_provider());
        let mut client = ClientConfig::builder_with_provider(p.clone()).with_protocol_versions(versions).unwrap().with_root_certificates(roots()).with_no_client_auth();
        // no resumption: every session is the same
        client.resumption = rustls::client::Resumption::disabled();
        let server = ServerConfig::builder_with_provider(p).with_protocol_versions(versions).unwrap().with_no_client_auth().with_single_cert(certs, PrivateKeyDer::Pkcs8(key)).unwrap();
        (Arc::new(client), Arc::new(server))
    })
}

// ---- the other side

pub struct Peer { pub tls: Option<Connection>, pub inp: Pipe, pub out: Pipe, pub stage: VecDeque<u8>, pub sent: Vec<u8>, pub got: Vec<u8>, pub pushed: usize, pub notified: bool, pub saw_notify: bool, keep: Option<TcpStream> }
impl Peer {
    pub fn new(near: &TcpStream, far: TcpStream, tls: Option<Connection>) -> Self {
        let (inp, out) = near.pipes();
        Self { tls, inp, out, stage: VecDeque::new(), sent: vec![], got: vec![], pushed: 0, notified: false, saw_notify: false, keep: Some(far) }
    }
    fn drain_tls(&mut self) { if let Some(t) = &mut self.tls { while t.wants_write() { let mut v = vec![]; t.write_tls(&mut v).unwrap(); self.stage.extend(v); } } }
    /// Says `b`, in pieces of at most `piece` bytes (each its own record).
    pub fn send(&mut self, b: &[u8], piece: usize) {
        self.sent.extend_from_slice(b);
        if self.tls.is_none() { self.stage.extend(b); return; }
        for p in b.chunks(piece.max(1)) {
            let mut p = p;
            while !p.is_empty() { let n = self.tls.as_mut().unwrap().writer().write(p).unwrap(); p = &p[n..]; self.drain_tls(); }
        }
    }
    pub fn notify(&mut self) { if let Some(t) = &mut self.tls { t.send_close_notify(); self.notified = true; } self.drain_tls(); }
    pub fn rekey(&mut self) { if let Some(t) = &mut self.tls { if t.protocol_version() == Some(rustls::ProtocolVersion::TLSv1_3) { let _ = t.refresh_traffic_keys(); } } self.drain_tls(); }
    /// Puts up to `n` bytes on the wire.
    pub fn push(&mut self, n: usize) -> usize { let n = n.min(self.stage.len()); let v: Vec<u8> = self.stage.drain(..n).collect(); if n > 0 { self.inp.push(&v); self.pushed += n; } n }
    /// Takes up to `n` bytes off the wire.
    pub fn take(&mut self, n: usize) -> Result<usize, String> {
        let v = self.out.take(n);
        let len = v.len();
        match &mut self.tls {
            None => self.got.extend(v),
            Some(t) => {
                let mut c = Cursor::new(v);
                while (c.position() as usize) < len {
                    t.read_tls(&mut c).map_err(|e| format!("[OUT] the peer cannot take the bytes: {e}"))?;
                    let st = t.process_new_packets().map_err(|e| format!("[OUT] the peer cannot decrypt: {e}"))?;
                    self.saw_notify |= st.peer_has_closed();
                    let mut b = [0; 4096];
                    loop { match t.reader().read(&mut b) { Ok(0) | Err(_) => break, Ok(n) => self.got.extend_from_slice(&b[..n]) } }
                }
                self.drain_tls();
            }
        }
        Ok(len)
    }
    pub fn release(&mut self) -> TcpStream { self.keep.take().unwrap() }
    pub fn leave(&mut self) { self.keep = None; }
}

/// Handshake of a near side of the given role with the peer; `early` is said as soon as the peer may.
pub fn handshake(near: TcpStream, far: TcpStream, near_is_server: bool, v12: bool, early: &[u8], early_piece: usize, early_close: bool) -> Result<(TlsStream<TcpStream>, Peer), String> {
    let (cc, sc) = configs(v12);
    let name = ServerName::try_from("localhost").unwrap();
    let tls = if near_is_server { Connection::Client(ClientConnection::new(cc.clone(), name.clone()).unwrap()) } else { Connection::Server(ServerConnection::new(sc.clone()).unwrap()) };
    let mut peer = Peer::new(&near, far, Some(tls));
    let mut fut: Pin<Box<dyn Future<Output = std::io::Result<TlsStream<TcpStream>>>>> = if near_is_server { let a = TlsAcceptor::from(sc.clone()); Box::pin(async move { a.accept(near).await.map(TlsStream::from) }) } else { let c = TlsConnector::from(cc.clone()); Box::pin(async move { c.connect(name, near).await.map(TlsStream::from) }) };
    let p = Poller::new();
    let mut said = false;
    for _ in 0..10_000 {
        peer.drain_tls();
        let mut moved = peer.take(usize::MAX)?;
        if !said && !peer.tls.as_ref().unwrap().is_handshaking() { said = true; peer.send(early, early_piece); if early_close { peer.notify(); } }
        moved += peer.push(usize::MAX);
        if p.woken() || moved > 0 {
            match p.poll(fut.as_mut()) { Poll::Ready(Ok(t)) => { drop(fut); while peer.take(usize::MAX)? > 0 {} if !said && !peer.tls.as_ref().unwrap().is_handshaking() { peer.send(early, early_piece); if early_close { peer.notify(); } } return Ok((t, peer)); } Poll::Ready(Err(e)) => return Err(format!("handshake: {e}")), Poll::Pending => {} }
        } else { return Err("handshake got stuck".into()); }
    }
    Err("handshake does not end".into())
}
