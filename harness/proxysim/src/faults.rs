//! P25: sessions with malformed and misplaced messages, failing sides, and strangers that never become sessions.
use std::io::ErrorKind;

use gen::*;
use pbt::{Case, Src};
use tokio::net::TcpListener;
use tokio::sim;

use crate::ends::*;
use crate::session::*;
use crate::sessions::*;
use crate::world::*;

const KINDS: [ErrorKind; 5] = [ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::ConnectionAborted, ErrorKind::Other];

/// One side of a session ends; the other has to be closed.
async fn end(s: &mut Src, n: &mut u64, x: &mut Session) -> Result<(), String> {
    let by_server = s.bool();
    if matches!(x.sst, S::NoGreeting) && !by_server {
        let mut g = G::new(s);
        g.n = *n;
        x.s_greet(&mut g);
        *n = g.n;
        settle().await;
    }
    if s.chance(1, 3) { let mut g = G::new(s); g.n = *n; if by_server && !matches!(x.sst, S::NoGreeting) { x.s_unsolicited(&mut g) } *n = g.n; }
    // in the middle of a message
    if s.chance(1, 4) { if by_server { x.s.say(b"* OK never fin") } else { x.c.say(b"A1 NO") } }
    let how = s.below(3);
    let k = *s.pick(&KINDS);
    x.note(|| format!("{} {}", if by_server { "server" } else { "client" }, match how { 0 => "closes".into(), 1 => "ends TLS and closes".into(), _ => format!("fails ({k:?})") }));
    {
        let e = if by_server { &mut x.s } else { &mut x.c };
        match how { 0 => e.close(false), 1 => e.close(true), _ => e.fail(k) }
    }
    x.dead = true;
    for _ in 0..3000 {
        settle().await;
        let e = if by_server { &mut x.c } else { &mut x.s };
        let n = e.pump();
        e.plain.clear();
        if e.ended { return Ok(()); }
        if n == 0 { break; }
    }
    Err(at(x, format!("the {} ended, and the {} is not closed", if by_server { "server" } else { "client" }, if by_server { "client" } else { "server" })))
}

/// A connection that does not become a session. What must have been closed is; what stalls is kept.
pub async fn stranger(s: &mut Src, svcs: &[Svc], ls: &[TcpListener], k: usize, kept: &mut Vec<End>) -> Result<&'static str, String> {
    let svc = &svcs[k];
    let tls = svc.bind_tls.is_some();
    let kind = s.below(8);
    let what = match kind {
        0 => { kept.push(dial(svc, None).await?); if !tls { settle().await; if let Some(st) = try_accept(&ls[k]) { kept.push(End::new(st, None)); } } if tls { "a client that says nothing (TLS)" } else { "a client that says nothing" } }
        1 if tls => {
            let mut t = client_tls("some.test", s.bool(), true);
            let mut v = vec![];
            t.write_tls(&mut v).unwrap();
            let mut e = dial(svc, None).await?;
            let k = 1 + s.idx(v.len() - 1);
            e.say_raw(&v[..k]);
            kept.push(e);
            "a client that stops in the TLS handshake"
        }
        2 if tls => {
            let mut e = dial(svc, None).await?;
            e.say_raw(s.pick(&[&b"A1 NOOP\r\n"[..], b"\x16\x03\x01\x00\x05hello", b"\r\n\r\n\r\n\r\n", b"\x15\x03\x01\x00\x02\x02\x28"]));
            settle().await;
            e.pump();
            if !e.ended { return Err("a client that sends no TLS is not closed".into()); }
            "a client that does not speak TLS"
        }
        3 => {
            sim::fail_accept(&svc.bind_addr(), *s.pick(&KINDS));
            settle().await;
            "a failing accept"
        }
        4 => {
            sim::refuse(&svc.connect_addr(), *s.pick(&KINDS));
            let t = client_end_tls(s, svc);
            let mut e = dial(svc, t).await?;
            for _ in 0..8 { settle().await; e.pump(); }
            sim::allow(&svc.connect_addr());
            if !e.plain.is_empty() { return Err(format!("a client whose server cannot be reached gets {}", show(&e.plain))); }
            if !e.ended { return Err("a client whose server cannot be reached is not closed".into()); }
            "an unreachable server"
        }
        5 => {
            // the client goes away before there is a session
            let t = client_end_tls(s, svc);
            let mut e = dial(svc, t).await?;
            let (a, b) = (s.idx(4), s.bool());
            for _ in 0..a { settle().await; e.pump(); }
            if b { e.close(s.bool()) } else { e.fail(*s.pick(&KINDS)) }
            for _ in 0..6 { settle().await; if let Some(st) = try_accept(&ls[k]) { let mut u = End::new(st, svc.cert.map(|n| server_tls(n, false))); for _ in 0..6 { settle().await; u.pump(); } kept.push(u); } }
            "a client that goes before the session"
        }
        _ => {
            // the server fails before it has greeted
            let t = client_end_tls(s, svc);
            let mut e = dial(svc, t).await?;
            let mut st = None;
            for _ in 0..8 { settle().await; e.pump(); if st.is_none() { st = try_accept(&ls[k]); } }
            let Some(st) = st else { return Err(format!("the proxy does not connect to its server ({})", pbt::last_panic())) };
            let how = s.below(if svc.cert.is_some() { 6 } else { 4 });
            let mut u = End::new(st, if how < 4 { svc.cert.map(|n| server_tls(n, s.bool())) } else { None });
            for _ in 0..8 { settle().await; u.pump(); }
            match how {
                0 => u.close(s.bool()),
                1 => u.fail(*s.pick(&KINDS)),
                2 => { let mut g = G::new(s); let b = junk_response(&mut g); u.say(&b); }
                3 => { u.say(b"* OK never fin"); settle().await; u.close(s.bool()) }
                4 => u.say_raw(b"* OK hello there, this is plain\r\n"),
                _ => { kept.push(u); kept.push(e); return Ok("a server that stops in the TLS handshake"); }
            }
            for _ in 0..8 { settle().await; e.pump(); }
            if !e.plain.is_empty() { return Err(format!("a client whose server never greets gets {}", show(&e.plain))); }
            if !e.ended { return Err(format!("a client whose server fails before it has greeted ({how}) is not closed")); }
            "a server that fails before it has greeted"
        }
    };
    Ok(what)
}

pub fn p25(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let tls = *s.pick(&[0, 0, 3, 8]);
    let n_svc = s.range(1, 3);
    let mut svcs = services(s, n_svc, tls);
    // services that cannot work
    let (mut busy, mut broken) = (None, None);
    if s.chance(1, 4) { busy = Some(svcs.len()); let mut v = services(s, 1, 0).remove(0); v.name = "busy".into(); v.bind.1 = 1900; v.connect.1 = 2900; svcs.push(v); }
    if s.chance(1, 4) {
        broken = Some(svcs.len());
        let mut v = services(s, 1, 0).remove(0);
        v.name = "broken".into();
        v.bind.1 = 1901;
        v.connect.1 = 2901;
        let d = certs_dir();
        v.bind_tls = Some(match s.below(3) { 0 => (format!("{d}/none.pem"), format!("{d}/imap.key")), 1 => (format!("{d}/imap.pem"), format!("{d}/none.key")), _ => (format!("{d}/imap.pem"), format!("{d}/localhost.key")) });
        svcs.push(v);
    }
    s.shuffle(&mut svcs);
    let good: Vec<usize> = (0..svcs.len()).filter(|i| !["busy", "broken"].contains(&svcs[*i].name.as_str())).collect();
    let (busy, broken) = (busy.and_then(|_| svcs.iter().position(|v| v.name == "busy")), broken.and_then(|_| svcs.iter().position(|v| v.name == "broken")));
    let text = config_text(&svcs);
    let keep = c.want_sample || c.verbose;
    run(seed, &text, async {
        let _held = if let Some(b) = busy { Some(listen(&svcs[b].bind_addr()).await) } else { None };
        let mut ls = vec![];
        for v in &svcs { ls.push(listen(&v.connect_addr()).await); }
        settle().await;
        let odd = s.bool();
        let prof = Prof { caps: 0, junk: 1, special: 5 };
        let mut n = 0;
        let mut kept = vec![];
        let mut xs: Vec<Session> = vec![];
        let k = *s.pick(&good);
        xs.push(open(s, &svcs, &ls, k, 0, prof, odd, keep).await?);
        let rounds = 2 + s.size(12);
        let mut told: Vec<&'static str> = vec![];
        let mut r = Ok(());
        for _ in 0..rounds {
            r = round(s, &mut n, &svcs, &ls, &good, broken, &mut xs, &mut kept, &mut told, prof, odd, keep).await;
            if r.is_err() { break; }
        }
        if r.is_ok() { r = finish(s, &mut n, &mut xs).await; }
        if r.is_ok() {
            // everyone is still served
            for k in good.iter().copied() {
                let id = xs.len();
                match open(s, &svcs, &ls, k, id, prof, false, keep).await { Ok(x) => xs.push(x), Err(e) => { r = Err(format!("a new client of service {k}: {e}")); break; } }
                let len = s.size(6);
                let last = xs.len() - 1;
                r = history(s, &mut n, &mut xs[last..], len).await;
                if r.is_ok() { r = finish(s, &mut n, &mut xs).await; }
                if r.is_err() { break; }
            }
        }
        c.nontrivial = !told.is_empty();
        for t in &told { c.count(t, 1); }
        c.count("sessions", xs.len() as u64);
        c.count("commands", xs.iter().map(|x| x.seen.0).sum());
        c.count("responses", xs.iter().map(|x| x.seen.1).sum());
        c.sample(|| format!("{}\n{}", told.join("; "), logs(&xs)));
        r.map_err(|e| format!("{e}\nbefore: {}", told.join("; ")))
    })
}

#[allow(clippy::too_many_arguments)]
async fn round(s: &mut Src, n: &mut u64, svcs: &[Svc], ls: &[TcpListener], good: &[usize], broken: Option<usize>, xs: &mut Vec<Session>, kept: &mut Vec<End>, told: &mut Vec<&'static str>, prof: Prof, odd: bool, keep: bool) -> Result<(), String> {
    let live: Vec<usize> = (0..xs.len()).filter(|i| !xs[*i].dead).collect();
    let what = s.below(16);
    match what {
        0 | 1 if live.len() < 4 => { let k = *s.pick(good); let id = xs.len(); let x = open(s, svcs, ls, k, id, prof, odd, keep).await?; xs.push(x); }
        2 if !live.is_empty() => { let i = *s.pick(&live); end(s, n, &mut xs[i]).await?; told.push("a side of a session ends"); }
        3 if broken.is_some() => {
            let b = broken.unwrap();
            told.push("an endpoint without a usable identity");
            // it may as well not listen at all
            let Ok(mut e) = dial(&svcs[b], None).await else { return Ok(()) };
            e.say_raw(b"\x16\x03\x01");
            settle().await;
            e.pump();
            if !e.ended || !e.raw.is_empty() { return Err(format!("a TLS endpoint without a usable identity {}", if e.ended { "answers" } else { "keeps the client" })); }
        }
        3..=5 => { let k = *s.pick(good); let t = stranger(s, svcs, ls, k, kept).await?; told.push(t); }
        6..=11 if !live.is_empty() => {
            let i = *s.pick(&live);
            let calm = s.bool();
            if calm { rest(xs).await?; }
            if calm && (what == 8 || what == 9) && xs[i].quiet() && s.chance(2, 3) {
                // into the exchange
                let mut g = G::new(s);
                g.n = *n;
                let x = &mut xs[i];
                let cmd = if what == 8 { g.authenticate() } else { g.idle() };
                x.c_command(cmd);
                *n = g.n;
                rest(xs).await?;
                if what == 9 || s.bool() {
                    let mut g = G::new(s);
                    g.n = *n;
                    xs[i].s_step(&mut g).map_err(|e| at(&xs[i], e))?;
                    *n = g.n;
                    rest(xs).await?;
                    if what == 8 { let mut g = G::new(s); g.n = *n; xs[i].c_must(&mut g, true); *n = g.n; rest(xs).await?; }
                }
            }
            let x = &mut xs[i];
            let mut g = G::new(s);
            g.n = *n;
            let t = match what {
                6 => x.c_junk(&mut g, calm).then_some("a malformed line of the client"),
                7 => x.s_junk(&mut g).then_some("a malformed line of the server"),
                8 if calm => x.c_early_data(&mut g).then_some("authentication data that was not asked for"),
                9 if calm => x.s_end_idle(&mut g).then_some("IDLE ended by the server"),
                10 if calm => x.s_spurious(&mut g).then_some("a continuation request out of the blue"),
                _ => { if matches!(x.cst, C::Free) { x.c_too_long(&mut g); Some("a literal that is too long") } else { None } }
            };
            *n = g.n;
            told.extend(t);
            if calm { rest(xs).await?; }
        }
        _ if live.is_empty() => {}
        _ => { let len = 1 + s.size(12); let i = live[0]; let _ = i; live_history(s, n, xs, &live, len).await?; }
    }
    Ok(())
}
async fn live_history(s: &mut Src, n: &mut u64, xs: &mut [Session], live: &[usize], len: usize) -> Result<(), String> {
    for _ in 0..len {
        let i = *s.pick(live);
        history(s, n, &mut xs[i..=i], 1).await?;
    }
    Ok(())
}

/// Very many clients, at once and one after the other, while one session goes on.
pub fn p25_many(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let tls = if s.chance(1, 6) { 6 } else { 0 };
    let svcs = services(s, 1, tls);
    let text = config_text(&svcs);
    let keep = c.want_sample || c.verbose;
    run(seed, &text, async {
        let ls = [listen(&svcs[0].connect_addr()).await];
        settle().await;
        let mut n = 0;
        let prof = Prof { caps: 0, junk: 0, special: 4 };
        let mut xs = vec![open(s, &svcs, &ls, 0, 0, prof, false, keep).await?];
        let crowd = s.chance(1, 12);
        let total = if crowd { 300 + s.idx(1500) } else { 40 + s.size(500) };
        let hold = if crowd { 100_000 } else { *s.pick(&[0usize, 1, 3, 300]) };
        // (client, server, rounds to go)
        let mut open_ones: Vec<(End, Option<End>, usize)> = vec![];
        let (mut came, mut served, mut most, mut beside, mut turns) = (0, 0, 0, 0, 0);
        while came < total || !open_ones.is_empty() {
            turns += 1;
            // (a tape that has ended gives zeros only)
            let burst = if crowd || s.chance(1, 10) { s.size(60) } else { s.idx(3) }.max(usize::from(turns % 8 == 0));
            for _ in 0..burst.min(total - came) { came += 1; let t = client_end_tls(s, &svcs[0]); open_ones.push((dial(&svcs[0], t).await?, None, if crowd { hold } else { s.size(1 + hold) } + 10 * s.chance(9, 10) as usize)); }
            if came == total { for o in &mut open_ones { o.2 = o.2.min(12); } }
            most = most.max(open_ones.len());
            settle().await;
            // whoever is next: which client it belongs to shows when it is greeted
            for _ in 0..burst + 1 { if let Some(st) = try_accept(&ls[0]) { let tls = svcs[0].cert.map(|n| server_tls(n, s.bool())); let mut u = End::new(st, tls); u.say(format!("* OK number {served} m\r\n").as_bytes()); served += 1; let free = open_ones.iter_mut().find(|o| o.1.is_none() && (o.0.tls.is_none() || o.0.ready())); match free { Some(o) => o.1 = Some(u), None => u.close(true) } } }
            let mut i = 0;
            while i < open_ones.len() {
                let o = &mut open_ones[i];
                o.0.pump();
                if let Some(u) = &mut o.1 { u.pump(); }
                if o.2 > 0 { o.2 -= 1; i += 1; continue; }
                let (mut a, b, _) = open_ones.swap_remove(i);
                if s.bool() { a.close(s.bool()) } else { a.fail(*s.pick(&KINDS)) }
                if let Some(mut u) = b { if s.bool() { u.close(s.bool()) } }
            }
            if s.chance(1, 12) { history(s, &mut n, &mut xs, 1).await?; }
            if xs.len() < 3 && s.chance(1, 40) {
                // a new session while the others are there
                for _ in 0..12 { settle().await; for o in &mut open_ones { o.0.pump(); if let Some(u) = &mut o.1 { u.pump(); } } while let Some(st) = try_accept(&ls[0]) { let tls = svcs[0].cert.map(|n| server_tls(n, s.bool())); let u = End::new(st, tls); match open_ones.iter_mut().find(|o| o.1.is_none()) { Some(o) => o.1 = Some(u), None => open_ones.push((dial(&svcs[0], None).await?, Some(u), 3)) } } }
                let id = xs.len();
                xs.push(open(s, &svcs, &ls, 0, id, prof, false, keep).await.map_err(|e| format!("beside {} others, a new client: {e}", open_ones.len()))?);
                beside = beside.max(open_ones.len());
            }
            pbt::alive();
        }
        // those whose client had gone
        for _ in 0..12 { settle().await; while let Some(st) = try_accept(&ls[0]) { let mut u = End::new(st, None); u.close(false); } }
        c.nontrivial = served > 30;
        c.count("clients", came as u64);
        c.count("servers greeted", served as u64);
        c.count("more than 1000 at once", u64::from(most > 1000));
        finish(s, &mut n, &mut xs).await?;
        c.count("new sessions beside more than 20 others", (beside > 20) as u64);
        for id in xs.len()..xs.len() + 2 {
            xs.push(open(s, &svcs, &ls, 0, id, prof, false, keep).await.map_err(|e| format!("after {came} clients, a new one: {e}"))?);
            history(s, &mut n, &mut xs[id..], 6).await?;
        }
        finish(s, &mut n, &mut xs).await?;
        c.sample(|| format!("{came} clients, at most {most} at once, {served} servers greeted\n{}", logs(&xs)));
        Ok(())
    })
}

/// A command that is longer than the proxy's server side takes.
pub fn p25_long(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let svcs = services(s, 1, 0);
    let text = config_text(&svcs);
    let keep = c.want_sample || c.verbose;
    run(seed, &text, async {
        let ls = [listen(&svcs[0].connect_addr()).await];
        settle().await;
        let mut n = 0;
        let prof = Prof { caps: 0, junk: 0, special: 4 };
        let mut xs = vec![open(s, &svcs, &ls, 0, 0, prof, false, keep).await?, open(s, &svcs, &ls, 0, 1, prof, false, keep).await?];
        let len = s.size(12);
        history(s, &mut n, &mut xs, len).await?;
        finish(s, &mut n, &mut xs).await?;
        const MAX: usize = (1 << 16) + (25 << 20);
        let mut v = b"A1 LOGIN \"".to_vec();
        match s.below(2) { 0 => v.resize(MAX, b'a'), _ => { v = format!("A1 RENAME {{{}+}}\r\n", 25 << 20).into_bytes(); v.resize(MAX, b'b'); } }
        v.extend(b"\r\n");
        let mut i = 0;
        while i < v.len() { let k = (1 << 20) + s.idx(1 << 22); let e = (i + k).min(v.len()); xs[0].c.say(&v[i..e]); i = e; if s.bool() { settle().await; pbt::alive(); } }
        c.nontrivial = true;
        c.count("a command that is too long", 1);
        xs[0].note(|| "client: a command that is too long".into());
        let len = 4 + s.size(12);
        let r = history(s, &mut n, &mut xs, len).await;
        let r = match r { Ok(()) => finish(s, &mut n, &mut xs).await, e => e };
        c.sample(|| logs(&xs));
        r
    })
}

/// P17: the same, with secrets in what the clients send and in all that is dropped.
pub fn p17(s: &mut Src, c: &mut Case) -> Result<(), String> {
    assert!(!cfg!(debug_assertions));
    secret::MODE.set(true);
    spy::start();
    let r = pbt::no_panic(|| p25(s, c));
    let l = spy::stop();
    secret::MODE.set(false);
    c.nontrivial = c.counters.iter().any(|(k, n)| *k == "commands" && *n > 0);
    c.count("records", l.lines().count() as u64);
    c.count("cut short", !matches!(r, Ok(Ok(()))) as u64);
    let Some(f) = secret::leak(&l) else { return Ok(()) };
    let at = l.lines().find(|l| secret::leak(l).is_some()).unwrap_or(&l);
    Err(format!("a record shows a secret (as {f}): {}", at.chars().take(600).collect::<String>()))
}
