//! The running proxy program with everything around it.
use std::cell::RefCell;
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use pbt::Src;
use rustls::Connection;
use tokio::net::{TcpListener, TcpStream};
use tokio::sim::{self, Step};

use crate::ends::*;

pub fn scratch() -> PathBuf { std::env::temp_dir().join(format!("proxysim-{}", std::process::id())) }
fn scratch_file(name: &str) -> PathBuf {
    thread_local! { static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }
    DIR.with(|d| d.borrow_mut().get_or_insert_with(|| { let p = scratch().join(format!("{:?}", std::thread::current().id())); std::fs::create_dir_all(&p).unwrap(); p }).join(name))
}
pub fn write_scratch(name: &str, data: &[u8]) -> String { let p = scratch_file(name); std::fs::write(&p, data).unwrap(); p.to_str().unwrap().to_owned() }

#[derive(Clone, Debug)]
pub struct Svc {
    pub name: String,
    pub bind: (String, u16),
    /// (certificate chain, key)
    pub bind_tls: Option<(String, String)>,
    pub connect: (String, u16),
    pub connect_tls: bool,
    /// The certificate its server presents; without one the server does not speak TLS.
    pub cert: Option<&'static str>,
}
impl Svc {
    pub fn bind_addr(&self) -> String { format!("{}:{}", self.bind.0, self.bind.1) }
    pub fn connect_addr(&self) -> String { format!("{}:{}", self.connect.0, self.connect.1) }
}
pub fn config_text(svcs: &[Svc]) -> String {
    let mut o = String::new();
    for s in svcs {
        o += &format!("[[services]]\nname = \"{}\"\n[services.bind]\nencryption = \"{}\"\nhost = \"{}\"\nport = {}\n", s.name, if s.bind_tls.is_some() { "Tls" } else { "Insecure" }, s.bind.0, s.bind.1);
        if let Some((c, k)) = &s.bind_tls { o += &format!("[services.bind.identity]\ntype = \"CertificateChainAndLeafKey\"\ncertificate_chain_path = \"{c}\"\nleaf_key_path = \"{k}\"\n"); }
        o += &format!("[services.connect]\nencryption = \"{}\"\nhost = \"{}\"\nport = {}\n\n", if s.connect_tls { "Tls" } else { "Insecure" }, s.connect.0, s.connect.1);
    }
    o
}

/// Runs the proxy's main function with this configuration and the driver beside it.
pub fn run<'a>(seed: u64, config: &str, driver: impl Future<Output = Result<(), String>> + 'a) -> Result<(), String> {
    let path = write_scratch("config.toml", config.as_bytes());
    argh::sim::set_args(vec!["--config".into(), path]);
    sim::reset();
    pace(seed);
    let out: RefCell<Option<Result<(), String>>> = RefCell::new(None);
    let ended = {
        let d: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async { let r = driver.await; *out.borrow_mut() = Some(r); });
        // SAFETY: the driver is dropped before `drive` returns.
        let d: sim::Driver = unsafe { std::mem::transmute(d) };
        sim::drive(seed, d, proxylib::run_program)
    };
    sim::reset();
    match out.into_inner() { Some(r) => r, None if ended => Err("the driver ended without a result".into()), None => Err("the program ended although it had services to run".into()) }
}

/// Until nothing in the proxy can go on by itself.
/// In some runs a moment is now and then a long time, up to a day: nobody has to hurry.
pub async fn settle() {
    let ms = PACE.with(|p| {
        let mut x = p.get();
        if x == 0 { return 1; }
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        p.set(x);
        match (x >> 20) % 12 { 0 => 1_000, 1 => 31_000, 2 => 11 * 60_000, 3 => 31 * 60_000, 4 => 2 * 3_600_000, 5 => 25 * 3_600_000, _ => 1 }
    });
    tokio::time::sleep(Duration::from_millis(ms)).await;
}
pub fn pace(seed: u64) {
    let slow = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    PACE.with(|p| p.set(if slow % 3 == 0 { slow | 1 } else { 0 }));
}
thread_local! { static PACE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }

pub fn steps(s: &mut Src, n: usize) -> Vec<Step> { (0..n).map(|_| match s.below(4) { 0 => Step::Pending, 1 => Step::Max(1), 2 => Step::Max(1 + s.size(20)), _ => Step::Max(1 + s.idx(3000)) }).collect() }

pub fn try_accept(l: &TcpListener) -> Option<TcpStream> {
    match l.poll_accept(&mut Context::from_waker(Waker::noop())) { Poll::Ready(Ok((s, _))) => Some(s), _ => None }
}
pub async fn listen(addr: &str) -> TcpListener { TcpListener::bind(addr).await.unwrap() }

/// A connection of a mail client, and how its TLS is to be.
pub async fn dial(svc: &Svc, tls: Option<Connection>) -> Result<End, String> {
    match TcpStream::connect(svc.bind_addr()).await { Ok(s) => Ok(End::new(s, tls)), Err(e) => Err(format!("the proxy does not take connections at {}: {e}", svc.bind_addr())) }
}
pub fn odd_transport(s: &mut Src, e: &End, cap: bool) {
    for p in [&e.inc, &e.out] { let n = s.idx(6); let (a, b) = (steps(s, n), steps(s, n)); let mut g = p.get(); g.rplan = a.into(); g.wplan = b.into(); }
    if cap { e.inc.set_cap(1 + s.size(3000)); }
}
