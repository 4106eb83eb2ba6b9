//! P39: the work a stream does grows with what goes through it, however it is cut.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;

use imap_next::stream::{Error, Stream};
use imap_next::{Interrupt, Io, State};
use pbt::effort::{compare, cpu, PARTS};
use pbt::{Case, Src};
use tokio::sim;

use crate::wire::*;

/// Counts what it gets, says what is in its list, and gives an event for every so many bytes.
#[derive(Default)]
struct Counter { got: Cell<usize>, told: Cell<usize>, each: Cell<usize>, outs: RefCell<VecDeque<usize>> }
#[derive(Clone)]
struct Ticks(Rc<Counter>);
impl State for Ticks {
    type Event = ();
    type Error = ();
    fn enqueue_input(&mut self, b: &[u8]) { self.0.got.set(self.0.got.get() + b.len()); }
    fn next(&mut self) -> Result<(), Interrupt<()>> {
        if self.0.got.get() >= self.0.told.get() + self.0.each.get() { self.0.told.set(self.0.told.get() + self.0.each.get()); return if self.0.told.get() % 3 == 0 { Err(Interrupt::Error(())) } else { Ok(()) }; }
        if let Some(n) = self.0.outs.borrow_mut().pop_front() { return Err(Interrupt::Io(Io::Output(vec![b'x'; n]))); }
        Err(Interrupt::Io(Io::NeedMoreInput))
    }
}
#[derive(Debug)]
struct How { tls: bool, v12: bool, server: bool, input: usize, piece: usize, record: usize, each: usize, out: usize, said: usize, one: bool, cap: usize, taken: usize, flush: bool }
/// How long a stream works on `n` times as much. `None` if something else happens, which is for other properties to say.
fn work(h: &How, n: usize) -> Result<Option<Duration>, String> {
    let (near, far) = sim::pair(0, 0);
    let (inp, out) = near.pipes();
    let (mut stream, mut peer) = if h.tls { let (t, p) = handshake(near, far, h.server, h.v12, &[], 1, false)?; (Stream::tls(t), p) } else { let p = Peer::new(&near, far, None); (Stream::insecure(near), p) };
    out.set_cap(h.cap);
    let st = Ticks(Rc::default());
    st.0.each.set(h.each);
    *st.0.outs.borrow_mut() = if h.one { vec![n * h.out] } else { vec![h.said; n * h.out.div_ceil(h.said)] }.into();
    let want = (n * h.input, st.0.outs.borrow().iter().sum());
    let bytes = vec![b'i'; want.0];
    peer.send(&bytes, h.record);
    let poller = Poller::new();
    let mut took = Duration::ZERO;
    let (mut taken, mut polls) = (0, 0u64);
    loop {
        enum R { Next(Result<(), Error<()>>), Flush(bool) }
        let said = st.0.outs.borrow().len();
        let flush = h.flush && said % 4 == 1;
        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = R> + '_>> = if flush { Box::pin(async { R::Flush(stream.flush().await.is_ok()) }) } else { let st = st.clone(); Box::pin(async { R::Next(stream.next(st).await) }) };
        poller.renew();
        let (mut idle, mut old) = (false, false);
        let r = loop {
            if poller.woken() && !old {
                let from = cpu();
                let r = poller.poll(f.as_mut());
                took += cpu() - from;
                if let Poll::Ready(r) = r { break Some(r); }
            }
            polls += 1;
            if polls % 4096 == 0 { pbt::alive(); }
            // (what was said meanwhile makes a flush due)
            let moved = peer.push(h.piece) + peer.take(h.taken)?;
            taken = taken.max(peer.got.len());
            if moved == 0 && !poller.woken() { idle = true; break None; }
            if !flush && h.flush && st.0.outs.borrow().len() != said { old = st.0.outs.borrow().len() % 4 == 1; if old { break None; } }
        };
        drop(f);
        match r {
            Some(R::Next(Ok(()) | Err(Error::State(())))) | Some(R::Flush(true)) => { if let Some(R::Flush(_)) = r { st.0.outs.borrow_mut().pop_front(); } }
            None if !idle => {}
            None => break,
            _ => return Ok(None),
        }
    }
    if st.0.got.get() != want.0 || (!h.flush && taken != want.1) { return Ok(None); }
    Ok(Some(took))
}
pub fn streams(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().rng_seed(tokio::runtime::RngSeed::from_bytes(&s.u64().to_le_bytes())).build().unwrap();
    rt.block_on(async {
        let tls = s.chance(4, 10);
        let most = if s.chance(1, 6) { 100_000 } else { 12_000 };
        let total = if tls { 2_000 } else { 4_000 } + s.size(most);
        let h = How {
            tls, v12: s.bool(), server: s.bool(),
            input: if s.chance(1, 4) { 0 } else { total }, piece: if s.chance(1, 3) { usize::MAX } else { 1 + s.size(3000) }, record: 50 + s.size(18_000), each: 1 + s.size(5000),
            out: if s.chance(1, 4) { 0 } else { total }, said: if s.bool() { 20 + s.size(300) } else { 1 + s.idx(total) }, one: s.chance(1, 3), cap: if s.bool() { 0 } else { 30 + s.size(3000) }, taken: if s.bool() { usize::MAX } else { 20 + s.size(3000) },
            flush: s.chance(1, 4),
        };
        c.sample(|| format!("{h:?}"));
        let whole = || work(&h, PARTS).map_err(Some)?.ok_or(None);
        let parts = || { let mut d = Duration::ZERO; for _ in 0..PARTS { d += work(&h, 1).map_err(Some)?.ok_or(None)?; } Ok(d) };
        match compare(whole, parts) {
            Err(None) => return Ok(()),
            Err(Some(e)) => return Err(e),
            Ok(Err((w, p))) => return Err(format!("[EFFORT] {w:?} for one stream, {p:?} for {PARTS} that do a part each")),
            Ok(Ok(r)) => {
                c.count("at most half of what the parts took", u64::from(r <= 0.5));
                c.count("at most twice what the parts took", u64::from(r <= 2.0));
                c.count("at most four times what the parts took", u64::from(r <= 4.0));
            }
        }
        c.nontrivial = h.input + h.out > 0;
        c.count("TLS", u64::from(tls));
        c.count("bytes", ((h.input + h.out) * PARTS) as u64);
        Ok(())
    })
}
