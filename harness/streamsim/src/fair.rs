//! P40: bytes that come without end keep no output waiting, nor does output without end keep input waiting.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use std::task::Poll;

use imap_next::stream::{Error, Stream};
use imap_next::{Interrupt, Io, State};
use pbt::{Case, Src};
use tokio::sim::{self, Step};

use crate::wire::*;

#[derive(Default)]
struct Inner {
    got: Cell<usize>,
    /// Outputs with the number of bytes that must have come before.
    outs: RefCell<VecDeque<(usize, usize)>>,
    /// When each output was given, and how many bytes that made.
    given: RefCell<Vec<(u64, usize)>>,
    /// When input came, and how much had then come.
    came: RefCell<Vec<(usize, usize)>>,
    calls: Cell<usize>,
    /// Every so many calls give an event or error.
    each: Cell<usize>,
}
#[derive(Clone)]
struct Talk(Rc<Inner>);
impl State for Talk {
    type Event = ();
    type Error = ();
    fn enqueue_input(&mut self, b: &[u8]) { self.0.got.set(self.0.got.get() + b.len()); self.0.came.borrow_mut().push((self.0.given.borrow().len(), self.0.got.get())); }
    fn next(&mut self) -> Result<(), Interrupt<()>> {
        let n = self.0.calls.get() + 1;
        self.0.calls.set(n);
        if n % self.0.each.get() == 0 { return if n % 2 == 0 { Ok(()) } else { Err(Interrupt::Error(())) }; }
        let mut outs = self.0.outs.borrow_mut();
        if let Some((at, n)) = outs.front().copied() { if at <= self.0.got.get() { outs.pop_front(); let before = self.0.given.borrow().last().map_or(0, |x| x.1); self.0.given.borrow_mut().push((sim::now(), before + n)); return Err(Interrupt::Io(Io::Output(vec![b'o'; n]))); } }
        Err(Interrupt::Io(Io::NeedMoreInput))
    }
}
/// Reads and outputs that may come first, whatever the choices of a fair stream are.
const PATIENCE: usize = 200;
/// Bytes that nobody reads who has something to write.
const ENDLESS: usize = 200 << 16;
pub fn streams(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().rng_seed(tokio::runtime::RngSeed::from_bytes(&s.u64().to_le_bytes())).build().unwrap();
    rt.block_on(async {
        let tls = s.chance(4, 10);
        let (v12, server) = (s.bool(), s.bool());
        let (near, far) = sim::pair(0, 0);
        let (inp, out) = near.pipes();
        let (mut stream, mut peer) = if tls { let (t, p) = handshake(near, far, server, v12, &[], 1, false)?; (Stream::tls(t), p) } else { let p = Peer::new(&near, far, None); (Stream::insecure(near), p) };
        let st = Talk(Rc::default());
        st.0.each.set(if s.bool() { 2 + s.idx(50) } else { usize::MAX });
        // which side has no end of what it says
        let input_floods = s.bool();
        let (m, record) = if input_floods { (if s.chance(1, 20) { 2_000_000 } else { 40_000 } + s.idx(60_000), 200 + s.size(17_000)) } else { (1 + s.size(2_000), 20 + s.size(2_000)) };
        let mut outs = vec![];
        if input_floods { let mut at = 0; for _ in 0..1 + s.idx(8) { at += s.idx(m / 8); outs.push((at, if s.chance(1, 6) { 1 + s.idx(60_000) } else { 1 + s.size(400) })); } } else { let n = 1 + s.size(200); for _ in 0..PATIENCE + 10 + 20 * (m / 64 + 1) * 4 { outs.push((0, n)); } }
        *st.0.outs.borrow_mut() = outs.clone().into();
        // now and then the transport takes or gives little or nothing
        let odd = s.size(8);
        let plan = |s: &mut Src| -> VecDeque<Step> { (0..s.idx(odd + 1)).map(|_| if s.bool() { Step::Pending } else { Step::Max(1 + s.size(30)) }).collect() };
        let (r, w) = (plan(s), plan(s));
        c.sample(|| format!("tls {tls} v12 {v12} server {server}; {m} bytes in records of {record}; {} outputs: {:?} ...; reads {r:?}, writes {w:?}", outs.len(), &outs[..outs.len().min(8)]));
        peer.send(&vec![b'i'; m], record);
        peer.push(usize::MAX);
        // (not with TLS, of which each record is a different one)
        let endless = !tls && input_floods && s.chance(1, 3);
        let (base, total) = (out.get().log.len(), outs.iter().map(|o| o.1).sum::<usize>());
        if endless { inp.get().more = Some((ENDLESS, out.clone(), base + total)); }
        { let mut g = inp.get(); g.rplan = r; g.reads = Some(vec![]); }
        { let mut g = out.get(); g.wplan = w; g.writes = Some(vec![]); }
        let poller = Poller::new();
        'all: loop {
            let f = stream.next(st.clone());
            let mut f = std::pin::pin!(f);
            poller.renew();
            loop {
                if !poller.woken() { break 'all; }
                match poller.poll(f.as_mut()) { Poll::Ready(Ok(()) | Err(Error::State(()))) => break, Poll::Ready(Err(_)) => return Ok(()), Poll::Pending => {} }
            }
        }
        // (not everything came through: for other properties to say)
        if (st.0.got.get() != m && !endless) || !st.0.outs.borrow().is_empty() { return Ok(()); }
        let (reads, writes) = (inp.get().reads.take().unwrap(), out.get().writes.take().unwrap());
        let patience = PATIENCE + 20 * odd;
        let mut most = 0;
        if let Some((0, ..)) = inp.get().more { return Err(format!("[STARVED] {ENDLESS} bytes were read before all output was with the transport, which takes everything")); }
        if input_floods {
            for (k, (from, upto)) in st.0.given.borrow().iter().enumerate() {
                let Some(done) = writes.iter().find(|w| w.1 >= base + upto).map(|w| w.0) else { return Ok(()) };
                let n = reads.iter().filter(|r| r.0 > *from && r.0 < done).count();
                most = most.max(n);
                if n > patience { return Err(format!("[STARVED] output {k} was with the transport, which takes everything, only after {n} further reads")); }
            }
        } else {
            let n = st.0.came.borrow().iter().find(|x| x.1 == m).map_or(0, |x| x.0);
            let bound = patience + 20 * (peer.pushed / 64 + 1);
            most = n;
            if n > bound { return Err(format!("[STARVED] {m} bytes ({} on the wire) that were there from the beginning came only after {n} outputs", peer.pushed)); }
        }
        c.nontrivial = reads.len() > 10 || st.0.given.borrow().len() > 10;
        c.count("input without end", u64::from(input_floods));
        c.count("input came as long as there was output", u64::from(endless));
        c.count("TLS", u64::from(tls));
        c.count("reads or outputs in between at most 64", u64::from(most <= 64));
        Ok(())
    })
}
