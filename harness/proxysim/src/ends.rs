//! The far ends of the proxy's connections, and the material for TLS.
use std::collections::HashMap;
use std::io::{Cursor, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex, OnceLock};

use rustls::client::danger::{HandshakeSignatureValid, ServerCertVerified, ServerCertVerifier};
use rustls::pki_types::{CertificateDer, PrivateKeyDer, ServerName, UnixTime};
use rustls::{ClientConfig, ClientConnection, Connection, DigitallySignedStruct, ServerConfig, ServerConnection, SignatureScheme};
use tokio::net::TcpStream;
use tokio::sim::Pipe;

pub fn certs_dir() -> &'static str { concat!(env!("CARGO_MANIFEST_DIR"), "/../certs") }
pub fn pem_certs(path: &str) -> Vec<CertificateDer<'static>> { rustls_pemfile::certs(&mut &std::fs::read(path).unwrap()[..]).map(|c| c.unwrap()).collect() }

/// Accepts every certificate: what was presented is looked at afterwards.
#[derive(Debug)]
struct Anyone;
impl ServerCertVerifier for Anyone {
    fn verify_server_cert(&self, _: &CertificateDer<'_>, _: &[CertificateDer<'_>], _: &ServerName<'_>, _: &[u8], _: UnixTime) -> Result<ServerCertVerified, rustls::Error> { Ok(ServerCertVerified::assertion()) }
    fn verify_tls12_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, rustls::Error> { rustls::crypto::verify_tls12_signature(m, c, d, &rustls::crypto::ring::default_provider().signature_verification_algorithms) }
    fn verify_tls13_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, rustls::Error> { rustls::crypto::verify_tls13_signature(m, c, d, &rustls::crypto::ring::default_provider().signature_verification_algorithms) }
    fn supported_verify_schemes(&self) -> Vec<SignatureScheme> { rustls::crypto::ring::default_provider().signature_verification_algorithms.supported_schemes() }
}
fn versions(v12: bool) -> &'static [&'static rustls::SupportedProtocolVersion] {
    static V: [&rustls::SupportedProtocolVersion; 2] = [&rustls::version::TLS12, &rustls::version::TLS13];
    if v12 { &V[..1] } else { &V[1..] }
}

pub fn client_tls(name: &str, v12: bool, alpn: bool) -> Connection {
    static C: OnceLock<Mutex<HashMap<(bool, bool), Arc<ClientConfig>>>> = OnceLock::new();
    let cfg = C.get_or_init(Default::default).lock().unwrap().entry((v12, alpn)).or_insert_with(|| {
        let mut c = ClientConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider())).with_protocol_versions(versions(v12)).unwrap().dangerous().with_custom_certificate_verifier(Arc::new(Anyone)).with_no_client_auth();
        c.resumption = rustls::client::Resumption::disabled();
        if alpn { c.alpn_protocols = if v12 { vec![b"imap".to_vec()] } else { vec![b"managesieve".to_vec(), b"imap".to_vec()] }; }
        Arc::new(c)
    }).clone();
    Connection::Client(ClientConnection::new(cfg, ServerName::try_from(name.to_owned()).unwrap()).unwrap())
}
/// Gives out tickets and forgets them.
#[derive(Debug)]
struct Forgets;
impl rustls::server::StoresServerSessions for Forgets {
    fn put(&self, _: Vec<u8>, _: Vec<u8>) -> bool { true }
    fn get(&self, _: &[u8]) -> Option<Vec<u8>> { None }
    fn take(&self, _: &[u8]) -> Option<Vec<u8>> { None }
    fn can_cache(&self) -> bool { true }
}
/// A server that presents the certificate of that name.
pub fn server_tls(cert: &str, v12: bool) -> Connection {
    static C: OnceLock<Mutex<HashMap<(String, bool), Arc<ServerConfig>>>> = OnceLock::new();
    let cfg = C.get_or_init(Default::default).lock().unwrap().entry((cert.to_owned(), v12)).or_insert_with(|| {
        let d = certs_dir();
        let mut chain = pem_certs(&format!("{d}/{cert}.pem"));
        if cert == "deep" && chain.len() == 1 { chain.extend(pem_certs(&format!("{d}/middle.pem"))); }
        let key = rustls_pemfile::pkcs8_private_keys(&mut &std::fs::read(format!("{d}/{cert}.key")).unwrap()[..]).next().unwrap().unwrap();
        let mut c = ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider())).with_protocol_versions(versions(v12)).unwrap().with_no_client_auth().with_single_cert(chain, PrivateKeyDer::Pkcs8(key)).unwrap();
        c.send_tls13_tickets = 1;
        c.session_storage = Arc::new(Forgets);
        // the certificate decides whether the server takes part in ALPN, so that both kinds are met
        if cert != "imap" { c.alpn_protocols = if v12 { vec![b"pop3".to_vec(), b"imap".to_vec()] } else { vec![b"imap".to_vec()] }; }
        Arc::new(c)
    }).clone();
    Connection::Server(ServerConnection::new(cfg).unwrap())
}

/// Presents a certificate without the one that links it to the root.
pub fn server_tls_alone(v12: bool) -> Connection {
    let d = certs_dir();
    let key = rustls_pemfile::pkcs8_private_keys(&mut &std::fs::read(format!("{d}/deep.key")).unwrap()[..]).next().unwrap().unwrap();
    let c = ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider())).with_protocol_versions(versions(v12)).unwrap().with_no_client_auth().with_single_cert(pem_certs(&format!("{d}/deep.pem")), PrivateKeyDer::Pkcs8(key)).unwrap();
    Connection::Server(ServerConnection::new(Arc::new(c)).unwrap())
}

pub struct End {
    /// Offers the protocol `imap` by name, as a client.
    pub alpn: bool,
    pub stream: Option<TcpStream>,
    pub inc: Pipe,
    pub out: Pipe,
    pub tls: Option<Connection>,
    /// Received and not yet looked at.
    pub plain: Vec<u8>,
    pub raw: Vec<u8>,
    pub err: Option<String>,
    pub closed_by_us: bool,
    pub ended: bool,
    early: Vec<u8>,
}
impl End {
    pub fn new(stream: TcpStream, tls: Option<Connection>) -> Self {
        let (inc, out) = stream.pipes();
        let mut e = Self { stream: Some(stream), inc, out, tls, plain: vec![], raw: vec![], err: None, closed_by_us: false, ended: false, early: vec![], alpn: false };
        e.flush();
        e
    }
    pub fn ready(&self) -> bool { self.tls.as_ref().is_none_or(|t| !t.is_handshaking()) }
    fn flush(&mut self) {
        if let Some(t) = &mut self.tls { while t.wants_write() { let mut v = vec![]; t.write_tls(&mut v).unwrap(); if t.is_handshaking() && v.windows(5).any(|w| w == b"\x04imap") { self.alpn = true; } if self.stream.is_some() { self.out.push(&v); } } }
    }
    pub fn say(&mut self, b: &[u8]) {
        if self.stream.is_none() { return; }
        if self.tls.is_none() { self.out.push(b); return; }
        if !self.ready() { self.early.extend_from_slice(b); return; }
        let mut b = b;
        while !b.is_empty() { let n = self.tls.as_mut().unwrap().writer().write(b).unwrap(); b = &b[n..]; self.flush(); }
    }
    /// Before the handshake is done, if the protocol lets it.
    pub fn say_hasty(&mut self, b: &[u8]) { if let Some(t) = &mut self.tls { let _ = t.writer().write(b); } self.flush(); }
    /// In clear, whatever the session is.
    pub fn say_raw(&mut self, b: &[u8]) { if self.stream.is_some() { self.out.push(b); } }
    /// Takes what has arrived.
    pub fn pump(&mut self) -> usize {
        let v = self.inc.take(usize::MAX);
        let n = v.len();
        if self.raw.len() < 20_000 { self.raw.extend_from_slice(&v); }
        match &mut self.tls {
            None => self.plain.extend(v),
            Some(t) => {
                let mut c = Cursor::new(v);
                while (c.position() as usize) < n && self.err.is_none() {
                    if let Err(e) = t.read_tls(&mut c) { self.err = Some(e.to_string()); break; }
                    match t.process_new_packets() { Err(e) => self.err = Some(e.to_string()), Ok(st) => self.ended |= st.peer_has_closed() }
                    let mut b = [0; 4096];
                    loop { match t.reader().read(&mut b) { Ok(0) | Err(_) => break, Ok(n) => self.plain.extend_from_slice(&b[..n]) } }
                }
                self.flush();
                if self.ready() && !self.early.is_empty() { let e = std::mem::take(&mut self.early); self.say(&e); }
            }
        }
        let g = self.inc.get();
        if g.eof && g.buf.is_empty() { drop(g); self.ended = true; }
        n
    }
    pub fn close(&mut self, notify: bool) {
        if notify { if let Some(t) = &mut self.tls { t.send_close_notify(); } self.flush(); }
        self.closed_by_us = true;
        self.stream = None;
    }
    /// Only tells the other side that nothing follows.
    pub fn notify(&mut self) { if let Some(t) = &mut self.tls { t.send_close_notify(); } self.flush(); }
    /// The transport of the proxy's side fails.
    pub fn fail(&mut self, k: ErrorKind) {
        self.closed_by_us = true;
        { let mut g = self.out.get(); let n = g.total_read + g.buf.len(); g.read_fail = Some((n, k)); }
        { let mut g = self.inc.get(); let n = g.log.len(); g.write_fail = Some((n, tokio::sim::End::Err(k))); }
        self.out.wake_all();
        self.inc.wake_all();
    }
}
