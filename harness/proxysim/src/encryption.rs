//! P34: where the proxy uses TLS, what it presents and whom it accepts.
use gen::*;
use pbt::{Case, Src};
use tokio::net::TcpListener;

use crate::ends::*;
use crate::session::*;
use crate::sessions::*;
use crate::world::*;

/// All that was received are TLS records (the last one perhaps in part).
fn records(raw: &[u8]) -> Result<usize, String> {
    let (mut i, mut n) = (0, 0);
    while i < raw.len() {
        let h = &raw[i..];
        if !(20..=23).contains(&h[0]) || (h.len() > 1 && h[1] != 3) { return Err(format!("what the proxy sends is no TLS: {}", show(&h[..h.len().min(80)]))); }
        if h.len() < 5 { break; }
        i += 5 + u16::from_be_bytes([h[3], h[4]]) as usize;
        n += 1;
    }
    Ok(n)
}
fn alpn_of(e: &End) -> Option<Vec<u8>> { e.tls.as_ref().and_then(|t| t.alpn_protocol().map(|p| p.to_vec())) }
fn chain_of(e: &End) -> Option<Vec<Vec<u8>>> { e.tls.as_ref().and_then(|t| t.peer_certificates().map(|c| c.iter().map(|c| c.to_vec()).collect())) }

/// Sessions over every combination of encryption, with what goes over the wire looked at.
pub fn sessions(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let n_svc = s.range(1, 3);
    let mut svcs = services(s, n_svc, 7);
    for v in svcs.iter_mut() { if v.bind_tls.is_some() && s.chance(1, 3) { let d = certs_dir(); v.bind_tls = Some((chain_file(s), format!("{d}/deep.key"))); } }
    let text = config_text(&svcs);
    let keep = c.want_sample || c.verbose;
    run(seed, &text, async {
        let mut ls = vec![];
        for v in &svcs { ls.push(listen(&v.connect_addr()).await); }
        settle().await;
        let odd = s.bool();
        let prof = Prof { caps: 0, junk: 0, special: 4 };
        let mut n = 0;
        let mut xs = vec![];
        let k = s.range(1, 3);
        for id in 0..k { let k = s.idx(svcs.len()); xs.push(open(s, &svcs, &ls, k, id, prof, odd, keep).await?); }
        let len = 2 + s.size(16);
        let r = history(s, &mut n, &mut xs, len).await;
        let r = match r { Ok(()) => finish(s, &mut n, &mut xs).await, e => e };
        c.nontrivial = xs.iter().any(|x| x.c.tls.is_some() || x.s.tls.is_some());
        for x in &xs { c.count(match (x.c.tls.is_some(), x.s.tls.is_some()) { (false, false) => "plain to plain", (true, false) => "TLS to plain", (false, true) => "plain to TLS", _ => "TLS to TLS" }, 1); }
        c.sample(|| format!("{text}{}", logs(&xs)));
        r?;
        for x in &xs {
            let v = &svcs[x.svc];
            for (e, who) in [(&x.c, "client"), (&x.s, "server")] {
                if e.tls.is_some() { if records(&e.raw).map_err(|m| format!("{who}: {m}"))? < 3 { return Err(format!("{who}: no TLS session")); } }
            }
            // protocols by name: the proxy says "imap" to servers that want to know, and agrees to it with clients that offer it
            if x.c.alpn && alpn_of(&x.c) != Some(b"imap".to_vec()) { return Err("no agreement about ALPN \"imap\" with the client".into()); }
            if v.connect_tls && v.cert != Some("imap") && alpn_of(&x.s) != Some(b"imap".to_vec()) { return Err("no agreement about ALPN \"imap\" with the server".into()); }
            if let Some((chain, _)) = &v.bind_tls {
                let want: Vec<Vec<u8>> = pem_certs(chain).iter().map(|c| c.to_vec()).collect();
                let got = chain_of(&x.c).unwrap_or_default();
                if want != got { return Err(format!("service {:?} presents {} certificates that are not the {} of {chain}", v.name, got.len(), want.len())); }
            }
        }
        Ok(())
    })
}
/// The certificate of `deep` with others after it, in a file of its own.
fn chain_file(s: &mut Src) -> String {
    let d = certs_dir();
    let mut t = String::new();
    let mut names = vec!["deep", "middle"];
    for _ in 0..s.idx(3) { names.push(*s.pick(&["root", "stranger", "stranger", "other", "middle", "untrusted"])); }
    for n in names {
        if s.chance(1, 4) { t += "some text\n\n"; }
        t += &std::fs::read_to_string(format!("{d}/{n}.pem")).unwrap();
    }
    let name = format!("chain-{:x}.pem", pbt::hash_of(&t));
    write_scratch(&name, t.as_bytes())
}

/// A server that must not be accepted, or a client that does not speak TLS where it has to.
pub fn refused(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let mut svcs = services(s, 2, 5);
    let by_server = s.chance(3, 4);
    // (host of the server, its certificate)
    let bad = *s.pick(&[("imap.test", "other"), ("imap.test", "old"), ("imap.test", "untrusted"), ("imap.test", "localhost"), ("mail.imap.test", "imap"), ("test", "imap"), ("127.0.0.2", "localhost"), ("127.0.0.1", "imap"), ("imap.test", "alone"), ("localhost", "other"), ("other.test", "imap"), ("imap.test", ""), ("localhost", ""), ("127.0.0.1", "")]);
    let d = certs_dir();
    let mut broken_identity = false;
    if by_server {
        svcs[1].connect.0 = bad.0.into();
        svcs[1].connect_tls = true;
        svcs[1].cert = (!bad.1.is_empty()).then_some(bad.1);
        // what the proxy shows to its clients says nothing about whom it trusts
        if s.chance(1, 3) { svcs[1].bind_tls = Some((chain_file(s), format!("{d}/deep.key"))); }
    } else {
        svcs[1].bind_tls = Some((format!("{d}/imap.pem"), format!("{d}/imap.key")));
        if s.chance(1, 3) {
            broken_identity = true;
            let empty = write_scratch("empty.pem", b"nothing here\n");
            svcs[1].bind_tls = Some(match s.below(6) {
                0 => (format!("{d}/none.pem"), format!("{d}/imap.key")), 1 => (format!("{d}/imap.pem"), format!("{d}/none.key")), 2 => (format!("{d}/imap.pem"), format!("{d}/other.key")),
                3 => (empty, format!("{d}/imap.key")), 4 => (format!("{d}/imap.pem"), empty), _ => (format!("{d}/imap.key"), format!("{d}/imap.pem")),
            });
        }
    }
    let text = config_text(&svcs);
    let keep = c.want_sample || c.verbose;
    run(seed, &text, async {
        let mut ls = vec![];
        for v in &svcs { ls.push(listen(&v.connect_addr()).await); }
        settle().await;
        let prof = Prof { caps: 0, junk: 0, special: 4 };
        let mut n = 0;
        let odd = s.bool();
        let mut xs = vec![open(s, &svcs, &ls, 0, 0, prof, odd, keep).await?];
        let what = if by_server { refuse_server(s, &svcs[1], &ls[1]).await.map_err(|e| format!("a server with {:?} at {}: {e}", bad.1, bad.0))? } else { refuse_client(s, &svcs[1], &ls[1], broken_identity).await? };
        c.nontrivial = true;
        c.count(what, 1);
        let len = s.size(6);
        let r = history(s, &mut n, &mut xs, len).await;
        let r = match r { Ok(()) => finish(s, &mut n, &mut xs).await, e => e };
        c.sample(|| format!("{what}\n{text}{}", logs(&xs)));
        r?;
        xs.push(open(s, &svcs, &ls, 0, 1, prof, false, keep).await?);
        finish(s, &mut n, &mut xs).await
    })
}
const HELLO: &[u8] = b"* OK [CAPABILITY IMAP4REV1 IDLE] hello and welcome\r\n";

async fn refuse_server(s: &mut Src, svc: &Svc, l: &TcpListener) -> Result<&'static str, String> {
    let tls = client_end_tls(s, svc);
    let mut c = dial(svc, tls).await?;
    let mut st = None;
    let early = s.bool();
    if early { c.say(b"A1 LOGIN me secretsecret\r\n"); }
    for _ in 0..8 { settle().await; c.pump(); if st.is_none() { st = try_accept(l); } }
    let Some(st) = st else { return Err(format!("the proxy does not connect to its server ({})", pbt::last_panic())) };
    let plain_server = svc.cert.is_none();
    let (name, v12) = (svc.cert.unwrap_or(""), s.bool());
    let mut e = End::new(st, match name { "" => None, "alone" => Some(server_tls_alone(v12)), n => Some(server_tls(n, v12)) });
    // a server may speak as soon as its own part of the handshake is done
    let hasty = s.bool();
    if plain_server { if s.bool() { settle().await; } e.say_raw(HELLO); }
    for _ in 0..8 {
        settle().await;
        c.pump();
        e.pump();
        if hasty && !plain_server { e.say_hasty(HELLO); }
    }
    if !plain_server { e.say(HELLO); }
    for _ in 0..4 { settle().await; c.pump(); e.pump(); }
    if !c.plain.is_empty() { return Err(format!("the client gets {}", show(&c.plain))); }
    if e.tls.is_some() && !e.plain.is_empty() { return Err(format!("the server gets {}", show(&e.plain))); }
    records(&e.raw).map_err(|m| format!("to the server: {m}"))?;
    if !e.ended { return Err("the connection to the server stays open".into()); }
    if !c.ended { return Err("the client is not closed".into()); }
    Ok(if plain_server { "a server that does not speak TLS" } else { "a server with a certificate that is not acceptable" })
}
async fn refuse_client(s: &mut Src, svc: &Svc, l: &TcpListener, broken: bool) -> Result<&'static str, String> {
    let mut kept = vec![];
    let what;
    let mut c;
    let mut st = None;
    match if broken { 3 } else { s.below(3) } {
        0 => {
            what = "a client that speaks plain IMAP";
            c = dial(svc, None).await?;
            if s.bool() { settle().await; }
            c.say_raw(b"A1 CAPABILITY\r\nA2 LOGIN me secretsecret\r\n");
        }
        1 => { what = "a client that waits for a plain greeting"; c = dial(svc, None).await?; }
        2 => {
            what = "a client that goes on in plain after the handshake";
            c = dial(svc, Some(client_tls("some.test", s.bool(), true))).await?;
            for _ in 0..6 { settle().await; c.pump(); if st.is_none() { st = try_accept(l); } }
            if !c.ready() { return Err("the handshake is not completed".into()); }
            c.say_raw(b"A1 CAPABILITY\r\nA2 LOGIN me secretsecret\r\n");
        }
        _ => { what = "a service without a usable identity"; c = match dial(svc, if s.bool() { Some(client_tls("some.test", s.bool(), true)) } else { None }).await { Ok(c) => c, Err(_) => return Ok(what) }; if c.tls.is_none() { c.say_raw(b"A1 CAPABILITY\r\n") } }
    }
    for _ in 0..8 {
        settle().await;
        c.pump();
        if st.is_none() { st = try_accept(l); }
        if let Some(st) = st.take() { let mut e = End::new(st, svc.cert.map(|n| server_tls(n, false))); e.say(HELLO); kept.push(e); }
        for e in kept.iter_mut() { e.pump(); }
    }
    records(&c.raw).map_err(|m| format!("{what}: {m}"))?;
    for e in &kept { if !e.plain.is_empty() { return Err(format!("{what}: the server gets {}", show(&e.plain))); } }
    if what.ends_with("identity") && (c.tls.as_ref().is_some_and(|_| c.ready()) || !c.plain.is_empty()) { return Err(format!("{what} serves clients")); }
    if what != "a client that waits for a plain greeting" && !c.ended { return Err(format!("{what} is not closed")); }
    Ok(what)
}
