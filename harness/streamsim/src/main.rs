//! P17, P19 to P22, P33, P35 and P36: streams over a simulated transport.
mod beside;
mod duo;
mod effort;
mod fair;
mod memory;
mod upgrade;
mod wire;

use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use std::task::Poll;

use imap_next::stream::{Error, Stream};
use pbt::{Case, Property, Section, Src};
use tokio::sim::{self, End, Step};
use wire::*;

#[derive(Clone, Copy)]
struct Prof { tls: u64, cancel: u64, flush: u64, fault: u64, big: u64, cap: u64, early: u64, far: bool }

fn steps(s: &mut Src, n: usize) -> Vec<Step> { (0..n).map(|_| match s.below(4) { 0 => Step::Pending, 1 => Step::Max(1), 2 => Step::Max(1 + s.size(40)), _ => Step::Max(1 + s.idx(5000)) }).collect() }
/// Some of what the state says is several MiB long.
const HUGE: u64 = 11;
fn payload(s: &mut Src, big: u64) -> Vec<u8> {
    let n = match s.below(12) {
        0..=2 if big == HUGE => (1 << s.range(19, 22)) + s.idx(1 << 20),
        0 if big > 0 => { let m = if s.chance(big, 10) { 300_000 } else { 40_000 }; s.range(1, m) }
        1 => *s.pick(&[1usize, 127, 128, 129, 256, 4095, 4096, 4097]),
        2 if big > 0 => *s.pick(&[16383usize, 16384, 16385, 65535, 65536, 65537, 131072]),
        _ => 1 + s.size(200),
    };
    if SECRET.get() { let k = s.below(1 << 16); let mut v: Vec<u8> = vec![]; while v.len() < n { let k = k + v.len() as u64; v.extend(gen::secret::marker(k).bytes()); v.push(b'\n'); } return v; }
    // recognisable at every position
    let k = s.below(1 << 16);
    (0..n as u64).map(|i| (pbt::mix(k ^ (i << 20)) % 251) as u8).collect()
}
fn same(what: &str, got: &[u8], want: &[u8], complete: bool) -> Result<(), String> {
    if got.len() <= want.len() && *got == want[..got.len()] && (!complete || got.len() == want.len()) { return Ok(()); }
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    if n < got.len() { return Err(format!("[{what}] byte {n} is not what was said there ({} bytes arrived, {} were said)", got.len(), want.len())); }
    if complete && n < want.len() { return Err(format!("[{what}] only {n} of {} bytes arrived", want.len())); }
    Ok(())
}

thread_local! { static SECRET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Every byte that is transported is secret.
fn p17(s: &mut Src, c: &mut Case, p: Prof) -> Result<(), String> {
    assert!(!cfg!(debug_assertions));
    SECRET.set(true);
    gen::spy::start();
    let r = pbt::no_panic(|| run(s, c, p));
    let l = gen::spy::stop();
    SECRET.set(false);
    if let Ok(Err(m)) = &r { if m.starts_with("[LEAK]") { return Err(m.clone()); } }
    match gen::secret::leak(&l) { None => Ok(()), Some(f) => Err(format!("[LEAK] a record shows a secret (as {f}): {}", l.chars().take(600).collect::<String>())) }
}
fn shown(e: &(impl std::fmt::Debug + std::fmt::Display)) -> Result<(), String> {
    if SECRET.get() { for t in [format!("{e:?}"), format!("{e:#?}"), format!("{e}"), format!("{e:x?}")] { if let Some(f) = gen::secret::leak(&t) { return Err(format!("[LEAK] an error shows a secret (as {f}): {t}")); } } }
    Ok(())
}
fn p17_plain(s: &mut Src, c: &mut Case) -> Result<(), String> { p17(s, c, Prof { fault: 3, flush: 2, ..BASE }) }
fn p17_tls(s: &mut Src, c: &mut Case) -> Result<(), String> { p17(s, c, Prof { tls: 10, fault: 3, flush: 2, early: 3, ..BASE }) }

fn runtime_of(s: &mut Src) -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().rng_seed(tokio::runtime::RngSeed::from_bytes(&s.u64().to_le_bytes())).build().unwrap() }
fn run(s: &mut Src, c: &mut Case, p: Prof) -> Result<(), String> {
    let rt = runtime_of(s);
    rt.block_on(single(s, c, p))
}

#[derive(Default)]
struct Tally { late: u64, dropped: u64, flushed: u64, polls: u64, errors: u64, settled: u64, events: u64 }

async fn single(s: &mut Src, c: &mut Case, p: Prof) -> Result<(), String> {
    let cap_out = if s.chance(p.cap, 10) { 1 + s.size(5000) } else { 0 };
    let (near, far) = sim::pair(cap_out, 0);
    let tls = s.chance(p.tls, 10);
    let keep = c.want_sample || c.verbose;
    let mut log: Vec<String> = vec![];
    macro_rules! note { ($($t:tt)*) => { if keep { log.push(format!($($t)*)) } } }
    let (inp, out) = near.pipes();
    let k = s.idx(12);
    inp.get().rplan.extend(steps(s, k));
    let mut early_len = 0;
    let (mut stream, mut peer) = if tls {
        let (server, v12) = (s.bool(), s.bool());
        let early = if s.chance(p.early, 10) { payload(s, p.big.min(3)) } else { vec![] };
        let (piece, close) = (1 + s.size(20_000), p.fault > 0 && s.chance(1, 12));
        early_len = early.len();
        note!("TLS{} as {}, {} bytes{} said with the handshake in records of {piece}", if v12 { "1.2" } else { "1.3" }, if server { "server" } else { "client" }, early.len(), if close { " and the close" } else { "" });
        // the capacity is for the session, not for the handshake
        out.set_cap(0);
        let (t, peer) = handshake(near, far, server, v12, &early, piece, close)?;
        out.set_cap(cap_out);
        (Stream::tls(t), peer)
    } else { let peer = Peer::new(&near, far, None); (Stream::insecure(near), peer) };
    note!("capacity {cap_out}");
    let out_before = out.get().log.len();
    for q in [&inp, &out] { let n = s.idx(20); let (a, b, d) = (steps(s, n), steps(s, n), steps(s, 2)); let mut g = q.get(); g.rplan = a.into(); g.wplan = b.into(); g.fplan = d.into_iter().map(|x| if x == Step::Pending { x } else { Step::Max(1) }).collect(); if !g.fplan.is_empty() { let keep: Vec<_> = g.fplan.drain(..).filter(|x| *x == Step::Pending).collect(); g.fplan.extend(keep); } }
    let state = Script::default();
    let mut next_id = 1u64;
    // faults, each planned for one point
    let mut eof = false;
    let (mut rfail, mut wfail): (Option<ErrorKind>, Option<End>) = (None, None);
    let mut hung_up = false;
    const KINDS: [ErrorKind; 6] = [ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::ConnectionAborted, ErrorKind::Other, ErrorKind::NotConnected];
    let mut t = Tally::default();
    let mut reported: Vec<Result<u64, u64>> = vec![];
    let budget = if p.far { 10_000 + s.size(60_000) } else { 6 + s.size(60) };
    let mut step = 0;
    let mut ended = false;
    let poller = Poller::new();
    let mut saw_wbusy = false;
    'calls: loop {
        enum R { Next(Result<u64, Error<u64>>), Flush(Result<(), Error<std::convert::Infallible>>) }
        let fair = step >= budget;
        let flushing = if fair { s.chance(1, 20) && p.flush > 0 && t.flushed < 40 } else { s.chance(p.flush, 20) };
        note!("{}", if flushing { "flush" } else { "next" });
        let mut fut: Pin<Box<dyn Future<Output = R> + '_>> = if flushing { Box::pin(async { R::Flush(stream.flush().await) }) } else { let st = state.clone(); Box::pin(async { R::Next(stream.next(st).await) }) };
        poller.renew();
        let polls_before = t.polls;
        // one call, until it ends or is dropped
        let r = loop {
            step += 1;
            if step % 1000 == 0 && p.far { pbt::alive(); }
            beside::turn().await;
            if step == budget + 2_000 && cap_out > 0 { out.set_cap(cap_out + 8192); }
            if step > budget + 100_000 { return Err("[SPIN] the stream keeps waking itself up".into()); }
            let fair = step >= budget;
            let op = if fair { 0 } else { s.weighted(&[10, 4, 6, 3, 5, 2, 1, p.cancel]) };
            match op {
                0 => {
                    if poller.woken() {
                        t.polls += 1;
                        let before = state.0.borrow().calls;
                        if let Poll::Ready(r) = poller.poll(fut.as_mut()) { break Some(r); }
                        if state.0.borrow().calls - before > 200_000 { return Err("[SPIN] the stream does not return".into()); }
                    } else if fair {
                        // let the other side do its part
                        let moved = peer.push(usize::MAX) + peer.take(usize::MAX)?;
                        if moved == 0 && !poller.woken() {
                            if flushing { return Err("[FLUSH] flush does not end although the transport takes everything".into()); }
                            break 'calls;
                        }
                    }
                }
                1 => { let b = payload(s, p.big.min(2)); let piece = 1 + s.size(20_000); if !eof && !peer.notified { note!("peer says {} bytes in pieces of {piece}", b.len()); if tls && s.chance(1, 8) { note!("with a new key"); peer.rekey(); } peer.send(&b, piece); } }
                2 => { let n = if s.bool() { usize::MAX } else { 1 + s.idx(3000) }; let n = if eof { 0 } else { peer.push(n) }; if n > 0 { note!("{n} bytes arrive"); } }
                3 => { let n = if s.bool() { usize::MAX } else { 1 + s.idx(3000) }; let n = peer.take(n)?; if n > 0 { note!("peer takes {n} bytes"); } }
                4 => {
                    // once the call is under way the state changes only by what it receives
                    let at = state.0.borrow().received.len() + if s.bool() { (t.polls > polls_before) as usize } else { 1 + s.size(400) };
                    let a = match s.below(5) { 0 => { next_id += 1; Act::Err(next_id) } 1 | 2 => { next_id += 1; Act::Ev(next_id) } _ => Act::Out(payload(s, p.big)) };
                    note!("state: {} {}", match &a { Act::Out(b) => format!("output of {} bytes", b.len()), a => format!("{a:?}") }, if at > state.0.borrow().received.len() { format!("once {at} bytes came") } else { String::new() });
                    let mut i = state.0.borrow_mut();
                    if at > i.received.len() { i.triggers.push((at, a)); } else { i.todo.push_back(a); }
                }
                5 => {
                    // polled for as long as it makes progress, with nothing moving on the other side
                    let mut n = 0;
                    let r = loop {
                        if !poller.woken() { break None; }
                        n += 1;
                        if n > 20_000 { return Err("[SPIN] the stream keeps waking itself up".into()); }
                        t.polls += 1;
                        if let Poll::Ready(r) = poller.poll(fut.as_mut()) { break Some(r); }
                    };
                    if let Some(r) = r { break Some(r); }
                    t.settled += 1;
                    let g = out.get();
                    let full = cap_out > 0 && g.buf.len() >= cap_out;
                    saw_wbusy |= full;
                    if !full && !tls && g.log.len() < state.0.borrow().outs.len() { return Err(format!("[{}] the transport takes bytes, yet only {} of {} were written", if flushing { "FLUSH" } else { "OUT" }, g.log.len(), state.0.borrow().outs.len())); }
                    drop(g);
                    if flushing && !full { return Err("[FLUSH] flush does not end although the transport takes bytes".into()); }
                    if !flushing && peer.stage.is_empty() && rfail.is_none() && state.0.borrow().received.len() < peer.sent.len() { return Err(format!("[DUPLEX] {} of {} bytes that arrived were read{}", state.0.borrow().received.len(), peer.sent.len(), if full { " while the output is stuck" } else { "" })); }
                }
                6 => if s.chance(p.fault, 10) {
                    match s.below(5) {
                        0 if !eof => { if !tls && s.bool() { peer.push(usize::MAX); } eof = true; note!("the peer's bytes end"); inp.close(); }
                        1 if tls && !peer.notified && !eof => {
                            peer.notify();
                            // what comes after that belongs to no one
                            let more = if s.bool() { let n = s.size(60); s.bytes(n, "\0\x15\x16\x17\x03\x04*a\r\n".as_bytes()) } else { vec![] };
                            note!("the peer closes the session{}", if more.is_empty() { String::new() } else { format!(" and sends {} bytes more", more.len()) });
                            peer.stage.extend(more);
                        }
                        2 if rfail.is_none() && !eof => { let at = inp.get().total_read + s.size(50); let k = *s.pick(&KINDS); rfail = Some(k); note!("reading fails at {at} with {k:?}"); inp.get().read_fail = Some((at, k)); inp.wake_all(); }
                        3 if wfail.is_none() => { let at = out.get().log.len() + s.size(3000); let e = if s.bool() { End::Zero } else { End::Err(*s.pick(&KINDS)) }; wfail = Some(e); note!("writing fails at {at} with {e:?}"); out.get().write_fail = Some((at, e)); out.wake_all(); }
                        4 if !hung_up && wfail.is_none() => { hung_up = true; note!("the peer stops reading"); out.hang_up(); }
                        _ => {}
                    }
                },
                _ => { t.dropped += 1; note!("dropped"); break None; }
            }
        };
        drop(fut);
        same("RECV", &state.0.borrow().received, &peer.sent, false)?;
        if !tls { let g = out.get(); same("OUT", &g.log, &state.0.borrow().outs, false)?; }
        let Some(r) = r else { continue };
        // what excuses an error
        let excuse = |kind: Option<ErrorKind>| -> bool {
            match kind {
                None => eof || peer.notified || wfail == Some(End::Zero),
                Some(k) => rfail == Some(k) || matches!(wfail, Some(End::Err(x)) if x == k) || hung_up && k == ErrorKind::BrokenPipe || (wfail == Some(End::Zero) && k == ErrorKind::WriteZero),
            }
        };
        match r {
            R::Next(Ok(e)) => { note!("event {e}"); reported.push(Ok(e)); t.events += 1; }
            R::Next(Err(Error::State(e))) => { note!("error {e}"); reported.push(Err(e)); t.events += 1; }
            R::Next(Err(e)) => {
                note!("{e:?}");
                shown(&e)?;
                t.errors += 1;
                let ok = match &e { Error::Closed => excuse(None), Error::Io(e) => excuse(Some(e.kind())), _ => false };
                if !ok { return Err(format!("[ERR] next failed with {e:?} without a cause (end of input {eof}, session closed {}, read failure {rfail:?}, write failure {wfail:?}, peer stopped reading {hung_up})", peer.notified)); }
                ended = true;
                if matches!(e, Error::Closed) && (eof || peer.notified) && wfail.is_none() && rfail.is_none() && !hung_up {
                    // everything that arrived before is delivered first
                    if !tls { let n = peer.pushed; same("CLOSE", &state.0.borrow().received, &peer.sent[..n], true)?; }
                    else if peer.stage.is_empty() { same("CLOSE", &state.0.borrow().received, &peer.sent, true)?; }
                    // and every further call takes the state machine one step further, until it has said everything
                    for _ in 0..100 {
                        if state.0.borrow().todo.is_empty() { break; }
                        let before = state.0.borrow().calls;
                        let st = state.clone();
                        let mut fut = Box::pin(stream.next(st));
                        poller.renew();
                        let r = poller.poll(fut.as_mut());
                        if state.0.borrow().calls == before { return Err(format!("[EVENT] the state machine is not asked any more after the end, although it has {} things to say", state.0.borrow().todo.len())); }
                        match r { Poll::Ready(Ok(e)) => { reported.push(Ok(e)); t.events += 1; t.late += 1; } Poll::Ready(Err(Error::State(e))) => { reported.push(Err(e)); t.late += 1; } Poll::Ready(Err(_)) => {} Poll::Pending => break }
                    }
                }
                if let (Error::Io(x), Some(k)) = (&e, rfail) { if x.kind() == k && wfail.is_none() && !tls && !hung_up { let n = inp.get().total_read; same("CLOSE", &state.0.borrow().received, &peer.sent[..n], true)?; } }
                break 'calls;
            }
            R::Flush(Ok(())) => {
                t.flushed += 1;
                note!("flushed");
                let g = out.get();
                let (len, last) = (g.log.len(), g.flushes.last().copied());
                drop(g);
                if last != Some(len) { return Err(format!("[FLUSH] flush ended with {len} bytes written of which the transport was asked to flush {last:?}")); }
                if tls { while peer.take(usize::MAX)? > 0 {} same("FLUSH", &peer.got, &state.0.borrow().outs, true)?; } else { let g = out.get(); same("FLUSH", &g.log, &state.0.borrow().outs, true)?; }
            }
            R::Flush(Err(e)) => {
                note!("flush: {e:?}");
                shown(&e)?;
                t.errors += 1;
                let ok = match &e { Error::Closed => wfail == Some(End::Zero), Error::Io(e) => matches!(wfail, Some(End::Err(x)) if x == e.kind()) || hung_up && e.kind() == ErrorKind::BrokenPipe, _ => false };
                if !ok { return Err(format!("[FLUSH] flush failed with {e:?} without a cause (write failure {wfail:?}, peer stopped reading {hung_up})")); }
                ended = true;
                break 'calls;
            }
        }
        if reported != state.0.borrow().returned { return Err(format!("[EVENT] the state returned {:?}, reported were {:?}", state.0.borrow().returned, reported)); }
    }
    c.count("TLS", tls as u64);
    c.count("dropped", t.dropped);
    c.count("flushes", t.flushed);
    c.count("errors", t.errors);
    c.count("events after the end", t.late);
    c.count("settled", t.settled);
    c.count("stuck output", saw_wbusy as u64);
    c.count("bytes in", state.0.borrow().received.len() as u64);
    c.count("bytes out", state.0.borrow().outs.len() as u64);
    c.count("early", (early_len > 0) as u64);
    let io = !state.0.borrow().received.is_empty() && !state.0.borrow().outs.is_empty();
    c.nontrivial = if p.fault > 5 { t.errors > 0 || saw_wbusy } else if p.flush > 3 { t.flushed > 0 && !state.0.borrow().outs.is_empty() } else if p.cancel > 3 { t.dropped > 0 && io } else { io };
    c.sample(|| log.join("\n"));
    if reported != state.0.borrow().returned { return Err(format!("[EVENT] the state returned {:?}, reported were {:?}", state.0.borrow().returned, reported)); }
    while peer.take(usize::MAX)? > 0 {}
    if ended { return same("OUT", &peer.got, &state.0.borrow().outs, false); }
    // at rest without an error: nothing may be left to do
    if eof { return Err("[CLOSE] the end of the input is not reported".into()); }
    if peer.notified { return Err("[CLOSE] the end of the session is not reported".into()); }
    if let Some(k) = rfail { let g = inp.get(); if g.total_read >= g.read_fail.unwrap().0 { return Err(format!("[CLOSE] the read failure {k:?} is not reported")); } }
    let stopped = wfail.is_some() || hung_up;
    if !state.0.borrow().todo.is_empty() && !stopped { return Err("[STALL] the state machine is not progressed although it can".into()); }
    if rfail.is_none() { same("RECV", &state.0.borrow().received, &peer.sent, true)?; }
    if hung_up && out.get().log.len() - out_before == 0 && !state.0.borrow().outs.is_empty() { return Err("[CLOSE] the write failure is not reported".into()); }
    let result = same("OUT", &peer.got, &state.0.borrow().outs, !stopped);
    result
}

const BASE: Prof = Prof { tls: 0, cancel: 1, flush: 1, fault: 0, big: 3, cap: 4, early: 0, far: false };
fn p19(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, BASE) }
fn p20(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { tls: 10, cancel: 0, fault: 2, early: 5, ..BASE }) }
fn p21_plain(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { cancel: 12, cap: 7, flush: 3, ..BASE }) }
fn p21_tls(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { tls: 10, cancel: 12, cap: 7, flush: 3, early: 2, ..BASE }) }
fn p22_plain(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { fault: 8, cap: 8, ..BASE }) }
fn p22_tls(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { tls: 10, fault: 8, cap: 8, early: 2, ..BASE }) }
fn p33_plain(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { flush: 9, cancel: 4, fault: 2, cap: 6, ..BASE }) }
fn p33_tls(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { tls: 10, flush: 9, cancel: 4, fault: 2, cap: 6, early: 1, ..BASE }) }


/// Very many calls on one stream.
fn p19_far(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { big: 0, far: true, ..BASE }) }
fn p20_far(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { tls: 10, big: 0, early: 2, far: true, ..BASE }) }
fn p21_far(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { tls: 2, cancel: 12, flush: 3, big: 0, far: true, ..BASE }) }
fn p33_far(s: &mut Src, c: &mut Case) -> Result<(), String> { run(s, c, Prof { tls: 2, cancel: 2, flush: 9, big: 0, far: true, ..BASE }) }
fn p19_huge(s: &mut Src, c: &mut Case) -> Result<(), String> { let p = Prof { big: HUGE, cap: 7, ..BASE }; let p = if s.chance(1, 4) { Prof { tls: 10, ..p } } else { p }; run(s, c, p) }
fn p20_huge(s: &mut Src, c: &mut Case) -> Result<(), String> { let p = Prof { tls: 10, cancel: 1, big: HUGE, cap: 7, early: 2, ..BASE }; let p = if s.chance(1, 4) { Prof { tls: 10, ..p } } else { p }; run(s, c, p) }
fn p21_huge(s: &mut Src, c: &mut Case) -> Result<(), String> { let p = Prof { cancel: 12, cap: 7, flush: 3, big: HUGE, ..BASE }; let p = if s.chance(1, 4) { Prof { tls: 10, ..p } } else { p }; run(s, c, p) }
fn p22_huge(s: &mut Src, c: &mut Case) -> Result<(), String> { let p = Prof { fault: 8, cap: 9, big: HUGE, ..BASE }; let p = if s.chance(1, 4) { Prof { tls: 10, ..p } } else { p }; run(s, c, p) }
fn p33_huge(s: &mut Src, c: &mut Case) -> Result<(), String> { let p = Prof { flush: 9, cancel: 2, fault: 1, cap: 6, big: HUGE, ..BASE }; let p = if s.chance(1, 4) { Prof { tls: 10, ..p } } else { p }; run(s, c, p) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == beside::CHILD { beside::child(&a[2..]); }
    let s = |name, rule, quick, thorough, run| Section { name, rule, quick, thorough, run };
    pbt::main(vec![
        Property { id: "P17", sections: vec![
            s("plain", "bytes went both ways", 20_000, 1_000_000, p17_plain as pbt::CaseFn),
            s("tls", "bytes went both ways", 3_000, 200_000, p17_tls),
        ] },
        Property { id: "P19", sections: vec![
            s("plain", "bytes went both ways", 120_000, 4_000_000, p19 as pbt::CaseFn),
            s("huge", "bytes went both ways", 600, 40_000, p19_huge),
            s("far", "bytes went both ways", 120, 6_000, p19_far),
        ] },
        Property { id: "P20", sections: vec![
            s("tls", "bytes went both ways", 12_000, 800_000, p20),
            s("huge", "bytes went both ways", 400, 20_000, p20_huge),
            s("far", "bytes went both ways", 120, 6_000, p20_far),
        ] },
        Property { id: "P21", sections: vec![
            s("plain", "a call was dropped and bytes went both ways", 40_000, 3_000_000, p21_plain),
            s("tls", "a call was dropped and bytes went both ways", 8_000, 500_000, p21_tls),
            s("huge", "a call was dropped and bytes went both ways", 600, 40_000, p21_huge),
            s("far", "a call was dropped and bytes went both ways", 120, 6_000, p21_far),
        ] },
        Property { id: "P22", sections: vec![
            s("plain", "a failure or closure was reported, or the output was stuck", 40_000, 3_000_000, p22_plain),
            s("tls", "a failure or closure was reported, or the output was stuck", 8_000, 500_000, p22_tls),
            s("huge", "a failure or closure was reported, or the output was stuck", 600, 40_000, p22_huge),
            s("two-streams", "both sides had more to say than the transport holds", 6_000, 400_000, duo::p22),
        ] },
        Property { id: "P33", sections: vec![
            s("plain", "a flush succeeded after some output", 40_000, 3_000_000, p33_plain),
            s("tls", "a flush succeeded after some output", 8_000, 500_000, p33_tls),
            s("huge", "a flush succeeded after some output", 600, 40_000, p33_huge),
            s("far", "a flush succeeded after some output", 120, 6_000, p33_far),
        ] },
        Property { id: "P35", sections: vec![
            s("streams", "at least two streams moved bytes both ways", 5_000, 400_000, beside::p35),
            s("stream-processes", "at least two streams moved bytes both ways", 400, 40_000, beside::processes),
        ] },
        Property { id: "P38", sections: vec![
            s("moved", "bytes went both ways, before and after an upgrade if there was one", 40_000, 3_000_000, upgrade::moved as pbt::CaseFn),
            s("starttls", "the client received more than one response", 6_000, 400_000, upgrade::starttls),
        ] },
        Property { id: "P39", sections: vec![s("streams", "bytes went through", 700, 30_000, effort::streams)] },
        Property { id: "P40", sections: vec![s("streams", "more than ten reads or outputs", 10_000, 400_000, fair::streams)] },
        Property { id: "P36", sections: vec![s("stream", "at least a hundred times the same", 160, 8_000, memory::history)] },
    ]);
}
