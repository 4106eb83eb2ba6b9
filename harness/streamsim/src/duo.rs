//! Two streams on the two ends of one transport that holds little.
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

use imap_next::stream::{Error, Stream};
use pbt::{Case, Src};
use rustls::pki_types::ServerName;
use tokio::net::TcpStream;
use tokio::sim;
use tokio_rustls::{TlsAcceptor, TlsConnector, TlsStream};

use crate::wire::*;

type Shake = Pin<Box<dyn Future<Output = std::io::Result<TlsStream<TcpStream>>>>>;

pub fn p22(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().rng_seed(tokio::runtime::RngSeed::from_bytes(&s.u64().to_le_bytes())).build().unwrap();
    rt.block_on(async { two(s, c) })
}
fn two(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let caps = [1 + s.size(3000), 1 + s.size(3000)];
    let tls = s.chance(1, 3);
    let (a, b) = sim::pair(0, 0);
    let (to_a, to_b) = a.pipes();
    let mut streams = if tls {
        let (cc, sc) = configs(s.bool());
        let (acc, con) = (TlsAcceptor::from(sc.clone()), TlsConnector::from(cc.clone()));
        let mut fs: [Option<Shake>; 2] = [Some(Box::pin(async move { acc.accept(a).await.map(TlsStream::from) })), Some(Box::pin(async move { con.connect(ServerName::try_from("localhost").unwrap(), b).await.map(TlsStream::from) }))];
        let ps = [Poller::new(), Poller::new()];
        let mut done: [Option<Stream>; 2] = [None, None];
        for _ in 0..100_000 {
            for i in 0..2 { if let Some(f) = &mut fs[i] { if ps[i].woken() { match ps[i].poll(f.as_mut()) { Poll::Ready(Ok(t)) => { done[i] = Some(Stream::tls(t)); fs[i] = None; } Poll::Ready(Err(e)) => return Err(format!("handshake: {e}")), Poll::Pending => {} } } } }
            if done.iter().all(Option::is_some) { break; }
        }
        let [Some(x), Some(y)] = done else { return Err("handshake got stuck".into()) };
        [x, y]
    } else { [Stream::insecure(a), Stream::insecure(b)] };
    to_b.set_cap(caps[0]);
    to_a.set_cap(caps[1]);
    let st = [Script::default(), Script::default()];
    let mut total = [0usize; 2];
    for i in 0..2 {
        for _ in 0..1 + s.idx(4) {
            let n = match s.below(3) { 0 => 1 + s.size(200), 1 => caps[i] + s.size(9000), _ => 1 + s.size(40_000) };
            let k = s.below(250) as u8;
            let b: Vec<u8> = (0..n).map(|j| (j as u8).wrapping_mul(7) ^ k).collect();
            total[i] += n;
            if s.chance(1, 4) { st[i].0.borrow_mut().todo.push_back(Act::Ev(k as u64)); }
            st[i].0.borrow_mut().todo.push_back(Act::Out(b));
        }
    }
    c.nontrivial = total[0] > caps[0] && total[1] > caps[1];
    c.count("TLS", tls as u64);
    c.count("bytes", (total[0] + total[1]) as u64);
    c.sample(|| format!("tls {tls}, the transport holds {caps:?}, said are {total:?} bytes"));
    let ps = [Poller::new(), Poller::new()];
    let [x, y] = &mut streams;
    let call = |stream: *mut Stream, i: usize| -> Pin<Box<dyn Future<Output = Result<u64, Error<u64>>>>> {
        let state = st[i].clone();
        // SAFETY: each stream outlives its only call, which ends before the next one is made.
        Box::pin(async move { unsafe { &mut *stream }.next(state).await })
    };
    let ptr = [x as *mut Stream, y as *mut Stream];
    let mut calls = [call(ptr[0], 0), call(ptr[1], 1)];
    let mut steps = 0u64;
    loop {
        steps += 1;
        if steps > 4_000_000 { return Err("[SPIN] the streams do not come to rest".into()); }
        let i = match (ps[0].woken(), ps[1].woken()) { (false, false) => break, (true, false) => 0, (false, true) => 1, _ => s.idx(2) };
        if let Poll::Ready(r) = ps[i].poll(calls[i].as_mut()) {
            match r { Ok(_) => {} Err(e) => return Err(format!("[ERR] {e:?}")) }
            ps[i].renew();
            calls[i] = call(ptr[i], i);
        }
    }
    drop(calls);
    for i in 0..2 {
        let (me, other) = (st[i].0.borrow(), st[1 - i].0.borrow());
        if other.received != me.outs || me.outs.len() != total[i] { return Err(format!("[DUPLEX] of {} bytes of side {i} {} were taken from the state and {} arrived; the other direction: {} of {}", total[i], me.outs.len(), other.received.len(), me.received.len(), total[1 - i])); }
    }
    Ok(())
}
