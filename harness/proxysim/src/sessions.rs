//! Histories of sessions.
use gen::*;
use pbt::{Case, Src};
use tokio::net::TcpListener;

use crate::ends::*;
use crate::session::*;
use crate::world::*;

/// Services that work: (host of the server, certificate).
pub fn services(s: &mut Src, n: usize, tls: u64) -> Vec<Svc> {
    let d = certs_dir();
    let id = |n: &str| (format!("{d}/{n}.pem"), format!("{d}/{n}.key"));
    (0..n).map(|i| {
        let bind_tls = s.chance(tls, 10).then(|| id(*s.pick(&["localhost", "imap", "other"])));
        let connect_tls = s.chance(tls, 10);
        let (host, cert) = if connect_tls { *s.pick(&[("imap.test", "imap"), ("localhost", "localhost"), ("127.0.0.1", "localhost"), ("imap.test", "deep")]) } else { *s.pick(&[("mail.test", ""), ("10.1.2.3", "")]) };
        Svc { name: format!("svc {i}"), bind: ("127.0.0.1".into(), 1000 + i as u16), bind_tls, connect: (host.into(), 2000 + i as u16), connect_tls, cert: connect_tls.then_some(cert) }
    }).collect()
}
pub fn client_end_tls(s: &mut Src, svc: &Svc) -> Option<rustls::Connection> { svc.bind_tls.as_ref().map(|_| client_tls("some.test", s.bool(), s.bool())) }

/// A mail client connects and the proxy connects to the server.
pub async fn open(s: &mut Src, svcs: &[Svc], ls: &[TcpListener], k: usize, id: usize, prof: Prof, odd: bool, keep: bool) -> Result<Session, String> {
    let tls = client_end_tls(s, &svcs[k]);
    let mut c = dial(&svcs[k], tls).await?;
    if odd { odd_transport(s, &c, false); }
    for _ in 0..12 {
        settle().await;
        c.pump();
        if let Some(st) = try_accept(&ls[k]) {
            let tls = svcs[k].cert.map(|n| server_tls(n, s.bool()));
            let mut e = End::new(st, tls);
            if odd { odd_transport(s, &e, false); }
            for _ in 0..12 { settle().await; c.pump(); if e.pump() == 0 && e.ready() { break; } }
            if !e.ready() { return Err(format!("the proxy does not complete the TLS handshake with its server ({:?})", e.err)); }
            let least = if SCALE.get() == Scale::Bulk { 1000 } else { 0 };
            if odd && s.chance(1, 4) { c.inc.set_cap(1 + s.size(2000) + least); }
            if odd && s.chance(1, 4) { e.inc.set_cap(1 + s.size(2000) + least); }
            if !c.plain.is_empty() || !e.plain.is_empty() { return Err(format!("{} and {} are said before the server's greeting", show(&c.plain), show(&e.plain))); }
            return Ok(Session::new(id, k, c, e, prof, keep));
        }
        if c.ended { break; }
    }
    Err(format!("the proxy does not connect to its server (client: handshake {}, closed {}, {:?}; panic: {})", if c.ready() { "done" } else { "open" }, c.ended, c.err, pbt::last_panic()))
}
pub fn at(x: &Session, e: String) -> String { format!("session {}: {e}", x.id) }
pub fn read(x: &mut Session) -> Result<usize, String> { if x.dead { return Ok(0); } let a = x.c_read().map_err(|e| at(x, e))?; let b = x.s_read().map_err(|e| at(x, e))?; Ok(a + b) }
/// Until nothing moves.
pub async fn rest(xs: &mut [Session]) -> Result<(), String> {
    for _ in 0..if SCALE.get() == Scale::Usual { 4000 } else { 400_000 } {
        if SCALE.get() != Scale::Usual { pbt::alive(); }
        settle().await;
        let mut moved = 0;
        for x in xs.iter_mut() { moved += read(x)?; }
        if moved == 0 { return Ok(()); }
    }
    Err("the sessions do not come to rest".into())
}
/// Everyone does what is owed until nothing is.
pub async fn finish(s: &mut Src, n: &mut u64, xs: &mut [Session]) -> Result<(), String> {
    for x in xs.iter_mut() { x.c.inc.set_cap(0); x.s.inc.set_cap(0); }
    for _ in 0..if SCALE.get() == Scale::Usual { 400 } else { 10_000 } {
        rest(xs).await?;
        let mut acted = false;
        let mut g = G::new(s);
        g.n = *n;
        for x in xs.iter_mut().filter(|x| !x.dead) { acted |= x.s_must(&mut g); acted |= x.c_must(&mut g, true); }
        *n = g.n;
        if !acted { for x in xs.iter().filter(|x| !x.dead) { x.at_rest().map_err(|e| at(x, format!("{e} (panic: {})", pbt::last_panic())))?; } return Ok(()); }
    }
    Err("the sessions do not end".into())
}
pub fn logs(xs: &[Session]) -> String { xs.iter().filter_map(|x| x.log.as_ref()).map(|l| l.join("\n")).collect::<Vec<_>>().join("\n") }

/// The history between opening and finishing.
pub async fn history(s: &mut Src, n: &mut u64, xs: &mut [Session], len: usize) -> Result<(), String> {
    for _ in 0..len {
        let i = s.idx(xs.len());
        let op = s.below(10);
        let mut g = G::new(s);
        g.n = *n;
        let x = &mut xs[i];
        match op { 0..=3 => x.c_step(&mut g), 4..=6 => x.s_step(&mut g).map_err(|e| at(x, e))?, _ => {} }
        *n = g.n;
        match op { 7 => { read(&mut xs[i])?; } 8 => { tokio::task::yield_now().await; read(&mut xs[i])?; } 9 => { settle().await; read(&mut xs[i])?; } _ => {} }
        if s.chance(1, 4) { rest(xs).await?; }
    }
    Ok(())
}

fn plain_sessions(s: &mut Src, c: &mut Case, prof: Prof) -> Result<(), String> {
    let seed = s.u64();
    let tls = if s.chance(1, 8) { 8 } else { 0 };
    let svcs = services(s, 1, tls);
    let text = config_text(&svcs);
    let keep = c.want_sample || c.verbose;
    run(seed, &text, async {
        let mut ls = vec![];
        for v in &svcs { ls.push(listen(&v.connect_addr()).await); }
        settle().await;
        let odd = s.bool();
        let mut n = 0;
        let mut xs = vec![open(s, &svcs, &ls, 0, 0, prof, odd, keep).await?];
        let len = 2 + gen::steps(s, 50);
        let r = history(s, &mut n, &mut xs, len).await;
        let r = match r { Ok(()) => finish(s, &mut n, &mut xs).await, e => e };
        let x = &xs[0];
        c.nontrivial = if prof.caps > 0 { x.stripped > 0 } else { x.seen.0 > 0 && x.seen.1 > 1 };
        c.count("commands", x.seen.0);
        c.count("responses", x.seen.1);
        c.count("data of exchanges", x.seen.2);
        c.count("lists with something to strip", x.stripped);
        c.count("TLS", (tls > 0) as u64);
        c.sample(|| logs(&xs));
        r
    })
}
pub fn p23(s: &mut Src, c: &mut Case) -> Result<(), String> { plain_sessions(s, c, Prof { caps: 0, junk: 0, special: 4 }) }
pub fn p23_long(s: &mut Src, c: &mut Case) -> Result<(), String> { scaled(Scale::Long, || p23(s, c)) }
pub fn p23_bulk(s: &mut Src, c: &mut Case) -> Result<(), String> { scaled(Scale::Bulk, || p23(s, c)) }
pub fn p24_long(s: &mut Src, c: &mut Case) -> Result<(), String> { scaled(Scale::Long, || p24(s, c)) }
pub fn p24_bulk(s: &mut Src, c: &mut Case) -> Result<(), String> { scaled(Scale::Bulk, || p24(s, c)) }
pub fn p24(s: &mut Src, c: &mut Case) -> Result<(), String> { plain_sessions(s, c, Prof { caps: 6, junk: 0, special: 6 }) }

/// One side says something and closes at once.
pub fn p23_last(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let tls = if s.chance(1, 8) { 8 } else { 0 };
    let svcs = services(s, 1, tls);
    let text = config_text(&svcs);
    let keep = c.want_sample || c.verbose;
    run(seed, &text, async {
        let ls = [listen(&svcs[0].connect_addr()).await];
        settle().await;
        let odd = s.bool();
        let mut n = 0;
        let prof = Prof { caps: 0, junk: 0, special: 2 };
        let mut xs = vec![open(s, &svcs, &ls, 0, 0, prof, odd, keep).await?];
        let len = s.size(12);
        history(s, &mut n, &mut xs, len).await?;
        finish(s, &mut n, &mut xs).await?;
        let x = &mut xs[0];
        let mut g = G::new(s);
        g.n = n;
        let by_server = !g.s.chance(1, 3);
        let k = 1 + g.s.size(6);
        if g.s.chance(1, 3) { let cap = 1 + g.s.size(100); if by_server { x.c.inc.set_cap(cap) } else { x.s.inc.set_cap(cap) } }
        let notify = g.s.bool();
        if by_server {
            for _ in 0..k { x.s_unsolicited(&mut g); }
            x.note(|| "the server closes".into());
            x.s.close(notify);
        } else {
            g.lits = Lits::NonSync;
            for _ in 0..k { let cmd = g.regular(); x.c_command(cmd); }
            x.note(|| "the client closes".into());
            x.c.close(notify);
        }
        c.nontrivial = true;
        c.count(if by_server { "closed by the server" } else { "closed by the client" }, 1);
        let mut r = Ok(());
        for _ in 0..3000 {
            settle().await;
            let m = if by_server { xs[0].c_read() } else { xs[0].s_read() };
            match m { Ok(0) => break, Ok(_) => {} Err(e) => { r = Err(e); break } }
        }
        c.sample(|| logs(&xs));
        r?;
        let x = &mut xs[0];
        if let Some(m) = x.resps.front() { return Err(format!("the server closed after its last words, and the client never gets {} (and {} more)", show(&enc_response(m)), x.resps.len() - 1)); }
        if let Some(m) = x.cmds.front() { return Err(format!("the client closed after its last words, and the server never gets {} (and {} more)", show(&enc_command(m)), x.cmds.len() - 1)); }
        let other = if by_server { &mut x.c } else { &mut x.s };
        other.pump();
        if !other.ended { return Err("the other side is not closed".into()); }
        Ok(())
    })
}
