//! P38: a connection that is taken out of its stream goes on exactly where the stream stopped.
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

use imap_next::client::{self, Client};
use imap_next::server::{self, Server};
use imap_next::stream::{Error, Stream};
use imap_types::command::{Command, CommandBody};
use imap_types::core::Tag;
use imap_types::response::{Data, Greeting, Response, Status, StatusKind};
use pbt::{Case, Src};
use rustls::pki_types::ServerName;
use tokio::net::TcpStream;
use tokio::sim::{self, Pipe};
use tokio_rustls::{TlsAcceptor, TlsConnector, TlsStream};

use crate::wire::*;
use crate::{payload, runtime_of, same, steps};

fn plan(s: &mut Src, q: &Pipe) { let n = s.idx(12); let (a, b) = (steps(s, n), steps(s, n)); let mut g = q.get(); g.rplan = a.into(); g.wplan = b.into(); }

/// The scripted state machine, one peer, and a stream that is made anew now and then.
pub fn moved(s: &mut Src, c: &mut Case) -> Result<(), String> { let rt = runtime_of(s); rt.block_on(async { scripted(s, c) }) }

type Call<'a> = Pin<Box<dyn Future<Output = Result<u64, Error<u64>>> + 'a>>;
/// Drives `next` until it rests, or (`once`) until it has returned.
fn drive(stream: &mut Stream, st: &Script, peer: &mut Peer, move_all: bool, once: bool) -> Result<(), String> {
    let p = Poller::new();
    let mut n = 0;
    'calls: loop {
        let mut f: Call = Box::pin({ let st = st.clone(); let stream = &mut *stream; async move { stream.next(st).await } });
        p.renew();
        loop {
            n += 1;
            if n > 8_000_000 { return Err("[SPIN] the stream does not come to rest".into()); }
            if p.woken() {
                match p.poll(f.as_mut()) { Poll::Ready(Ok(_)) | Poll::Ready(Err(Error::State(_))) => { if once { return Ok(()); } continue 'calls; } Poll::Ready(Err(e)) => return Err(format!("[ERR] {e:?}")), Poll::Pending => {} }
            } else {
                if !move_all || peer.push(usize::MAX) + peer.take(usize::MAX)? == 0 { return Ok(()); }
            }
        }
    }
}
fn flush(stream: &mut Stream, peer: &mut Peer) -> Result<(), String> {
    let p = Poller::new();
    let mut f: Pin<Box<dyn Future<Output = Result<(), Error<std::convert::Infallible>>> + '_>> = Box::pin(stream.flush());
    for _ in 0..8_000_000 {
        if p.woken() { match p.poll(f.as_mut()) { Poll::Ready(Ok(())) => return Ok(()), Poll::Ready(Err(e)) => return Err(format!("[FLUSH] {e:?}")), Poll::Pending => {} } }
        else if peer.take(usize::MAX)? == 0 { break; }
    }
    Err("[FLUSH] flush does not end although the transport takes everything".into())
}

fn scripted(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let cap = if s.bool() { 1 + s.size(5000) } else { 0 };
    let (near, far) = sim::pair(cap, 0);
    let (inp, out) = near.pipes();
    let addr = near.peer_addr().unwrap();
    let mut peer = Peer::new(&near, far, None);
    let mut stream = Stream::insecure(near);
    let st = Script::default();
    let mut id = 0;
    let mut log = vec![];
    let keep = c.want_sample || c.verbose;
    macro_rules! note { ($($t:tt)*) => { if keep { log.push(format!($($t)*)) } } }
    // what was said and heard before the connection was encrypted
    let (mut plain_out, mut tls) = (None, false);
    let (mut before_sent, mut before_outs) = (0, 0);
    let rounds = s.range(1, 4);
    let mut mid = 0;
    for round in 0..=rounds {
        plan(s, &inp);
        plan(s, &out);
        for _ in 0..1 + s.size(12) {
            match s.below(7) {
                0 | 1 => { let b = payload(s, 2); note!("peer says {} bytes", b.len()); peer.send(&b, 1 + s.size(20_000)); }
                2 => { let n = if s.bool() { usize::MAX } else { 1 + s.idx(3000) }; let n = peer.push(n); note!("{n} bytes arrive"); }
                3 => { peer.take(if s.bool() { usize::MAX } else { 1 + s.idx(3000) })?; }
                4 => {
                    let at = st.0.borrow().received.len() + if s.bool() { 0 } else { 1 + s.size(400) };
                    id += 1;
                    let a = match s.below(5) { 0 => Act::Err(id), 1..=3 => Act::Ev(id), _ => Act::Out(payload(s, 2)) };
                    let mut i = st.0.borrow_mut();
                    if at > i.received.len() { i.triggers.push((at, a)); } else { i.todo.push_back(a); }
                }
                5 => { note!("next, until it returns or rests"); drive(&mut stream, &st, &mut peer, false, true)?; }
                _ => {
                    note!("next, dropped");
                    let p = Poller::new();
                    let mut f: Call = Box::pin(stream.next(st.clone()));
                    for _ in 0..s.idx(5) { if !p.woken() { break; } match p.poll(f.as_mut()) { Poll::Ready(Ok(_)) | Poll::Ready(Err(Error::State(_))) => break, Poll::Ready(Err(e)) => return Err(format!("[ERR] {e:?}")), Poll::Pending => {} } }
                }
            }
        }
        if round == rounds || tls { break; }
        flush(&mut stream, &mut peer)?;
        let encrypt = s.chance(1, 3);
        if encrypt {
            // whatever is not encrypted has to be through
            drive(&mut stream, &st, &mut peer, true, false)?;
            flush(&mut stream, &mut peer)?;
        }
        if stream.stream_mut().peer_addr().ok() != Some(addr) { return Err("[PEEK] stream_mut shows another connection".into()); }
        note!("taken out with {} bytes received, {} sent, {} of the peer's on their way", st.0.borrow().received.len(), st.0.borrow().outs.len(), peer.sent.len() - st.0.borrow().received.len());
        let tcp: TcpStream = stream.into();
        if tcp.peer_addr().ok() != Some(addr) { return Err("[TAKE] another connection was taken out".into()); }
        if !inp.get().buf.is_empty() || !peer.stage.is_empty() { mid += 1; }
        {
            // every byte that left the transport is with the state, every byte of the state with the transport
            let i = st.0.borrow();
            let (read, log) = (inp.get().total_read, out.get().log.len());
            if i.received.len() != read { return Err(format!("[TAKE] {} bytes were taken from the transport, the state got {}", read, i.received.len())); }
            if i.outs.len() != log { return Err(format!("[TAKE] the state said {} bytes, {} are with the transport although it was flushed", i.outs.len(), log)); }
        }
        if encrypt {
            tls = true;
            while peer.take(usize::MAX)? > 0 {}
            same("OUT", &peer.got, &st.0.borrow().outs, true)?;
            same("RECV", &st.0.borrow().received, &peer.sent, true)?;
            plain_out = Some(out.get().log.len());
            (before_sent, before_outs) = (peer.sent.len(), st.0.borrow().outs.len());
            let (server, v12) = (s.bool(), s.bool());
            note!("encrypted, as {}", if server { "server" } else { "client" });
            out.set_cap(0);
            let (sent, far) = (peer.sent.clone(), peer.release());
            let early = if s.chance(1, 3) { payload(s, 2) } else { vec![] };
            let (t, mut p) = handshake(tcp, far, server, v12, &early, 1 + s.size(20_000), false)?;
            out.set_cap(cap);
            let got = std::mem::take(&mut peer.got);
            p.got.splice(0..0, got);
            p.sent.splice(0..0, sent);
            peer = p;
            stream = Stream::tls(t);
        } else {
            stream = Stream::insecure(tcp);
        }
    }
    if cap > 0 { out.set_cap(cap + 8192); }
    drive(&mut stream, &st, &mut peer, true, false)?;
    flush(&mut stream, &mut peer)?;
    while peer.take(usize::MAX)? > 0 {}
    let i = st.0.borrow();
    same("RECV", &i.received, &peer.sent, true)?;
    same("OUT", &peer.got, &i.outs, true)?;
    if !i.todo.is_empty() { return Err("[STALL] the state machine is not progressed although it can".into()); }
    if let Some(n) = plain_out {
        let g = out.get();
        if g.log[n..].first().is_some_and(|b| !(20..=23).contains(b)) { return Err("[CLEAR] what follows the upgrade is not encrypted".into()); }
        c.count("encrypted", 1);
        c.nontrivial = i.received.len() > before_sent && i.outs.len() > before_outs && before_sent + before_outs > 0;
    } else { c.nontrivial = !i.received.is_empty() && !i.outs.is_empty(); }
    c.count("moved with bytes on their way", mid);
    c.sample(|| log.join("\n"));
    Ok(())
}

// ---- a client and a server that agree on STARTTLS

struct Side<T> { stream: Option<Stream>, m: T, up: Option<Pin<Box<dyn Future<Output = std::io::Result<TlsStream<TcpStream>>>>>>, poller: Poller, log_at: Option<usize> }
enum Got { C(client::Event), S(server::Event) }
type Next<'a> = Pin<Box<dyn Future<Output = Result<Got, String>> + 'a>>;

pub fn starttls(s: &mut Src, c: &mut Case) -> Result<(), String> { let rt = runtime_of(s); rt.block_on(async { both(s, c) }) }
fn both(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let caps = [if s.bool() { 1 + s.size(3000) } else { 0 }, if s.bool() { 1 + s.size(3000) } else { 0 }];
    let (a, b) = sim::pair(caps[0], caps[1]);
    let (to_client, to_server) = a.pipes();
    plan(s, &to_client);
    plan(s, &to_server);
    let (cc, sc) = configs(s.bool());
    let mut g = gen::G::new(s);
    g.max_lit = 400;
    let greeting = Greeting::ok(None, "hello").unwrap();
    let mut options = server::Options::default();
    options.max_command_size = u32::MAX;
    options.max_literal_size = u32::MAX;
    let mut cl = Side { stream: Some(Stream::insecure(a)), m: Client::new(client::Options::default()), up: None, poller: Poller::new(), log_at: None };
    let mut sv = Side { stream: Some(Stream::insecure(b)), m: Server::new(options, greeting.clone()), up: None, poller: Poller::new(), log_at: None };
    // commands before, STARTTLS, commands behind
    let mut plain = |g: &mut gen::G, i: usize| loop { let mut x = g.regular(); if matches!(x.body, CommandBody::StartTLS) { continue; } x.tag = Tag::try_from(format!("{}.{i}", x.tag.as_ref())).unwrap(); break x; };
    let (n1, n2) = (g.s.idx(5), 1 + g.s.idx(5));
    let mut cmds: Vec<Command<'static>> = (0..n1).map(|i| plain(&mut g, i)).collect();
    cmds.push(Command::new(format!("TLS.{n1}"), CommandBody::StartTLS).unwrap());
    cmds.extend((0..n2).map(|i| plain(&mut g, n1 + 1 + i)));
    for x in &cmds[..=n1] { cl.m.enqueue_command(x.clone()); }
    let (mut at_server, mut to_come, mut got) = (0, std::collections::VecDeque::<Response<'static>>::new(), 0usize);
    let mut said: Vec<Response<'static>> = vec![];
    let mut await_sent = None;
    let mut greeted = false;
    let mut narrow = true;
    let mut steps = 0u64;
    loop {
        steps += 1;
        if steps > 8_000_000 { return Err("[SPIN] client and server do not come to rest".into()); }
        if narrow && cl.log_at.is_some() && cl.up.is_none() && sv.up.is_none() { narrow = false; to_client.set_cap(caps[1]); to_server.set_cap(caps[0]); }
        let (wc, ws) = (cl.poller.woken(), sv.poller.woken());
        if !wc && !ws { break; }
        let client = wc && (!ws || g.s.bool());
        // one call, kept until it returns unless it is dropped now and then
        let r: Option<Got> = if client {
            if let Some(f) = &mut cl.up {
                match cl.poller.poll(f.as_mut()) { Poll::Ready(Ok(t)) => { cl.up = None; cl.stream = Some(Stream::tls(t)); cl.poller.renew(); for x in &cmds[n1 + 1..] { cl.m.enqueue_command(x.clone()); } } Poll::Ready(Err(e)) => return Err(format!("[TLS] the client's handshake: {e}")), Poll::Pending => {} }
                None
            } else {
                let (stream, m) = (cl.stream.as_mut().unwrap(), &mut cl.m);
                let mut f: Next = Box::pin(async { stream.next(m).await.map(Got::C).map_err(|e| format!("[ERR] client: {e:?}")) });
                match cl.poller.poll(f.as_mut()) { Poll::Ready(r) => Some(r?), Poll::Pending => None }
            }
        } else if let Some(f) = &mut sv.up {
            match sv.poller.poll(f.as_mut()) { Poll::Ready(Ok(t)) => { sv.up = None; sv.stream = Some(Stream::tls(t)); sv.poller.renew(); } Poll::Ready(Err(e)) => return Err(format!("[TLS] the server's handshake: {e}")), Poll::Pending => {} }
            None
        } else {
            let (stream, m) = (sv.stream.as_mut().unwrap(), &mut sv.m);
            let mut f: Next = Box::pin(async { stream.next(m).await.map(Got::S).map_err(|e| format!("[ERR] server: {e:?}")) });
            match sv.poller.poll(f.as_mut()) { Poll::Ready(r) => Some(r?), Poll::Pending => None }
        };
        let Some(ev) = r else { continue };
        if client { cl.poller.renew() } else { sv.poller.renew() }
        match ev {
            Got::C(client::Event::GreetingReceived { greeting: g }) => { if greeted || g != greeting { return Err("[GREET] the greeting is not the server's".into()); } greeted = true; }
            Got::C(client::Event::CommandSent { .. }) => {}
            Got::C(e @ (client::Event::DataReceived { .. } | client::Event::StatusReceived { .. } | client::Event::ContinuationRequestReceived { .. })) => {
                let x = match e { client::Event::DataReceived { data } => Response::Data(data), client::Event::StatusReceived { status } => Response::Status(status), client::Event::ContinuationRequestReceived { continuation_request: x } => Response::CommandContinuationRequest(x), _ => unreachable!() };
                if said.get(got) != Some(&x) { return Err(format!("[RECV] the client received {x:?}, due is {:?}", said.get(got))); }
                got += 1;
                if matches!(&x, Response::Status(Status::Tagged(t)) if t.tag == cmds[n1].tag) {
                    // A handshake needs a transport that takes a whole flight.
                    for q in [&to_client, &to_server] { q.set_cap(0); }
                    let tcp: TcpStream = cl.stream.take().unwrap().into();
                    cl.log_at = Some(to_server.get().log.len());
                    let con = TlsConnector::from(cc.clone());
                    cl.up = Some(Box::pin(async move { con.connect(ServerName::try_from("localhost").unwrap(), tcp).await.map(TlsStream::from) }));
                }
            }
            Got::S(server::Event::GreetingSent { .. }) => {}
            Got::S(server::Event::CommandReceived { command }) => {
                if cmds.get(at_server) != Some(&command) { return Err(format!("[RECV] the server received {command:?}, due is {:?}", cmds.get(at_server))); }
                at_server += 1;
                let k = g.s.idx(3);
                for _ in 0..k { let d: Data = g.data(); to_come.push_back(Response::Data(d)); }
                let kind = if command.body == CommandBody::StartTLS { StatusKind::Ok } else { g.kind() };
                to_come.push_back(Response::Status(g.status_of(Some(command.tag.clone()), kind)));
                for x in to_come.drain(..) {
                    said.push(x.clone());
                    let h = match x { Response::Data(d) => sv.m.enqueue_data(d), Response::Status(x) => sv.m.enqueue_status(x), Response::CommandContinuationRequest(x) => sv.m.enqueue_continuation_request(x) };
                    if command.body == CommandBody::StartTLS { await_sent = Some(h); }
                }
            }
            Got::S(server::Event::ResponseSent { handle, .. }) => if await_sent == Some(handle) {
                let mut stream = sv.stream.take().unwrap();
                {
                    let p = Poller::new();
                    let mut f: Pin<Box<dyn Future<Output = Result<(), Error<std::convert::Infallible>>> + '_>> = Box::pin(stream.flush());
                    let mut tries = 0;
                    // the client's part while the server flushes
                    loop {
                        tries += 1;
                        if tries > 8_000_000 { return Err("[FLUSH] the server's flush does not end".into()); }
                        if p.woken() { match p.poll(f.as_mut()) { Poll::Ready(Ok(())) => break, Poll::Ready(Err(e)) => return Err(format!("[FLUSH] {e:?}")), Poll::Pending => {} } } else { to_client.set_cap(0); }
                    }
                }
                let tcp: TcpStream = stream.into();
                sv.log_at = Some(to_client.get().log.len());
                let acc = TlsAcceptor::from(sc.clone());
                sv.up = Some(Box::pin(async move { acc.accept(tcp).await.map(TlsStream::from) }));
            },
            Got::C(e) => return Err(format!("[EVENT] the client reports {e:?}")),
            Got::S(e) => return Err(format!("[EVENT] the server reports {e:?}")),
        }
    }
    c.count("commands before", n1 as u64);
    c.count("commands behind", n2 as u64);
    c.sample(|| cmds.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join("\n"));
    c.nontrivial = got > 1;
    if at_server != cmds.len() { return Err(format!("[LOST] the server received {at_server} of {} commands (the {}th is STARTTLS)", cmds.len(), n1 + 1)); }
    if got != said.len() { return Err(format!("[LOST] the client received {got} of {} responses", said.len())); }
    for (who, at, pipe) in [("client", cl.log_at, &to_server), ("server", sv.log_at, &to_client)] {
        let g = pipe.get();
        let Some(at) = at else { return Err(format!("[TLS] the {who} was not upgraded")) };
        let mut rest = &g.log[at..];
        let mut n = 0;
        while !rest.is_empty() {
            if rest.len() < 5 || !(20..=23).contains(&rest[0]) || rest[1] != 3 { return Err(format!("[CLEAR] what the {who} sends after the upgrade is no TLS: {:?}", &rest[..rest.len().min(60)])); }
            n += 1;
            rest = &rest[(5 + u16::from_be_bytes([rest[3], rest[4]]) as usize).min(rest.len())..];
        }
        if n < 3 { return Err(format!("[CLEAR] the {who} has sent {n} records")); }
    }
    Ok(())
}
