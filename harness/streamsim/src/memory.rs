//! P36: what a stream keeps does not grow with what has gone through it.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

use imap_next::stream::{Error, Stream};
use imap_next::{Interrupt, Io, State};
use pbt::mem::live;
use pbt::{Case, Src};
use tokio::sim;

use crate::wire::*;

#[global_allocator]
static ALLOCATOR: pbt::mem::Counting = pbt::mem::Counting;

/// Counts what it gets, says what is in its list and reports when it has got as much as it waits for.
#[derive(Default)]
struct Counter { got: Cell<usize>, want: Cell<usize>, outs: RefCell<Vec<usize>>, done: Cell<bool>, fails: Cell<bool> }
#[derive(Clone)]
struct Ticks(Rc<Counter>);
impl State for Ticks {
    type Event = ();
    type Error = ();
    fn enqueue_input(&mut self, b: &[u8]) { self.0.got.set(self.0.got.get() + b.len()); }
    fn next(&mut self) -> Result<(), Interrupt<()>> {
        if let Some(n) = self.0.outs.borrow_mut().pop() { return Err(Interrupt::Io(Io::Output(vec![b'x'; n]))); }
        if self.0.got.get() >= self.0.want.get() && !self.0.done.replace(true) { return if self.0.fails.get() { Err(Interrupt::Error(())) } else { Ok(()) }; }
        Err(Interrupt::Io(Io::NeedMoreInput))
    }
}

pub fn history(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().rng_seed(tokio::runtime::RngSeed::from_bytes(&s.u64().to_le_bytes())).build().unwrap();
    rt.block_on(async { cycles(s, c) })
}
fn cycles(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (near, far) = sim::pair(0, 0);
    let (inp, out) = near.pipes();
    let tls = s.chance(4, 10);
    let (mut stream, mut peer) = if tls { let (t, p) = handshake(near, far, s.bool(), s.bool(), &[], 1, false)?; (Stream::tls(t), p) } else { let p = Peer::new(&near, far, None); (Stream::insecure(near), p) };
    let some = |s: &mut Src| -> Vec<usize> { (0..s.idx(5)).map(|_| if s.chance(1, 6) { 1 + s.size(20_000) } else { 1 + s.size(300) }).collect() };
    let (ins, outs) = (some(s), some(s));
    let (flush, cancel, fails, rekey, cap) = (s.chance(1, 3), s.chance(1, 3), s.chance(1, 4), s.chance(1, 4), if s.chance(1, 4) { 1 + s.size(500) } else { 0 });
    let pieces = 1 + s.size(4000);
    out.set_cap(cap);
    let size: usize = ins.iter().chain(&outs).sum::<usize>() + 100;
    c.sample(|| format!("TLS {tls}, each time {ins:?} bytes arrive ({pieces} at once) and {outs:?} are said, flush {flush}, dropped calls {cancel}, ends with an error {fails}, new keys {rekey}, the transport holds {cap}"));
    let st = Ticks(Rc::default());
    let n = (4_000_000 / size).clamp(100, 6_000);
    let (mut start, mut most) = (0, 0);
    let poller = Poller::new();
    let input: Vec<Vec<u8>> = ins.iter().map(|n| vec![b'i'; *n]).collect();
    for k in 0..n {
        st.0.got.set(0);
        st.0.want.set(ins.iter().sum());
        st.0.done.set(false);
        st.0.fails.set(fails);
        *st.0.outs.borrow_mut() = outs.clone();
        for i in &input { peer.send(i, 20_000); }
        if rekey && k % 7 == 0 { peer.rekey(); }
        let mut todo = if flush { vec![0, 1, 2] } else { vec![0, 2] };
        // the event, perhaps a flush, then until everything was taken
        while let Some(&what) = todo.last() {
            enum R { Next(Result<(), Error<()>>), Flush(bool) }
            let mut f: Pin<Box<dyn Future<Output = R> + '_>> = if what == 1 { Box::pin(async { R::Flush(stream.flush().await.is_ok()) }) } else { let st = st.clone(); Box::pin(async { R::Next(stream.next(st).await) }) };
            poller.renew();
            let (mut polls, mut idle) = (0, false);
            let r = loop {
                let moved = peer.push(pieces) + peer.take(usize::MAX)?;
                if poller.woken() { polls += 1; if let Poll::Ready(r) = poller.poll(f.as_mut()) { break Some(r); } if cancel && polls % 3 == 2 { break None; } }
                else if moved == 0 { idle = true; break None; }
                if polls > 100_000 { return Ok(()); }
            };
            drop(f);
            match (what, r) {
                (2, Some(R::Next(Err(Error::State(())) | Ok(())))) | (1, Some(R::Flush(true))) => { todo.pop(); }
                (0, None) => if idle { todo.pop(); },
                (_, None) if !idle => {}
                // what else it does is for other properties to say
                _ => return Ok(()),
            }
        }
        // the test's own records
        peer.sent = vec![];
        peer.got = vec![];
        for p in [&inp, &out] { let mut g = p.get(); g.log = vec![]; g.flushes = vec![]; }
        let now = live();
        if k == 40 { start = now; }
        if k >= 40 { most = most.max(now - start); }
        if k > 40 && now - start > 64 * 1024 + 4 * size as i64 { return Err(format!("[MEMORY] {} bytes more are kept after {k} times the same exchange of {size} bytes", now - start)); }
        if k % 64 == 0 { pbt::alive(); }
    }
    c.nontrivial = n >= 100;
    c.count("cycles", n as u64);
    c.count("TLS", tls as u64);
    c.count("bytes", (n * size) as u64);
    c.count("growth of at most 4 KiB", u64::from(most <= 4096));
    Ok(())
}
