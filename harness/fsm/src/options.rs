//! P41: an instance does what its own options say; those that nobody set are the documented ones.
use fsm::{client_model as cm, server_model as sm};
use gen::*;
use imap_next::client::Options as COpt;
use imap_next::server::{Options, Server};
use imap_next::State;
use imap_types::response::{Greeting, Response};
use pbt::{Case, Src};

use crate::texts;

#[derive(Clone, Debug, PartialEq)]
struct Want { strict: bool, literal: u32, command: u32, accept: Option<String>, reject: Option<String> }
/// Strict, literals of up to 25 MiB, commands of up to 64 KiB more.
const DEFAULT: Want = Want { strict: true, literal: 25 << 20, command: (25 << 20) + (64 << 10), accept: None, reject: None };

fn change(g: &mut G, o: &mut Options, w: &mut Want) -> String {
    match g.s.below(4) {
        0 => { w.strict = g.s.bool(); o.crlf_relaxed = !w.strict; format!("crlf_relaxed = {}", o.crlf_relaxed) }
        1 => {
            w.literal = if g.s.bool() { g.s.size(60) as u32 } else { g.s.idx(3000) as u32 };
            o.max_literal_size = w.literal;
            format!("max_literal_size = {}", w.literal)
        }
        2 => {
            w.command = w.literal.saturating_add(1 + g.s.idx(3000) as u32);
            o.max_command_size = w.command;
            format!("max_command_size = {}", w.command)
        }
        _ => {
            let t = match g.s.below(3) { 0 => "abcd".to_owned(), 1 => "go on, then".to_owned(), _ => format!("text {}", g.uniq()) };
            let ok = texts::valid(&t);
            if g.s.bool() { if o.set_literal_accept_text(t.clone()).is_ok() == ok && ok { w.accept = Some(t.clone()); } format!("accept text {t:?}") } else { if o.set_literal_reject_text(t.clone()).is_ok() == ok && ok { w.reject = Some(t.clone()); } format!("reject text {t:?}") }
        }
    }
}
fn server_says(o: &Options, w: &Want) -> Result<(), String> {
    let got = (!o.crlf_relaxed, o.max_literal_size, o.max_command_size);
    if got != (w.strict, w.literal, w.command) { return Err(format!("[OPTION] strict, literal and command size are {got:?}, expected {w:?}")); }
    for (what, t, w) in [("accept", o.literal_accept_text(), &w.accept), ("reject", o.literal_reject_text(), &w.reject)] {
        if let Some(w) = w { if t.as_ref() != w { return Err(format!("[OPTION] the {what} text is {:?}, expected {w:?}", t.as_ref())); } } else if !texts::valid(t.as_ref()) { return Err(format!("[OPTION] the {what} text {:?} is not valid", t.as_ref())); }
    }
    Ok(())
}
fn probe_server(g: &mut G, r: &mut sm::Run, w: &Want) -> Result<(), String> {
    r.drain()?;
    let n = 2 + g.s.size(6);
    for k in 0..n {
        let tag = g.tag();
        let t = tag.as_ref();
        let eol = if g.s.bool() { "\n" } else { "\r\n" };
        let size = (i64::from(w.literal) + [-1, 0, 0, 1, 1][g.s.idx(5)]).max(0);
        match g.s.below(5) {
            0 => r.input(format!("{t} NOOP{eol}").as_bytes()),
            1 => r.input(format!("{t} LOGIN {{1+}}{eol}u {{2+}}\r\npp{eol}").as_bytes()),
            2 if w.command < 10_000 => { let n = w.command as i64 + [-1, 0, 1][g.s.idx(3)]; let head = format!("{t} "); let mut v = head.into_bytes(); while (v.len() as i64) < n - 2 { v.push(b'x'); } v.extend(b"\r\n"); r.input(&v); }
            3 => r.input(format!("{t} LOGIN {{{}}}{eol}", i64::from(w.literal) + 1 + g.s.idx(9) as i64).as_bytes()),
            // (a large one is announced only, at the end)
            _ if w.literal < 10_000 => { r.input(format!("{t} LOGIN {{{size}}}{eol}").as_bytes()); r.drain()?; if size <= i64::from(w.literal) { let mut v = vec![b'u'; size as usize]; v.extend(b" p\r\n"); r.input(&v); } }
            _ if k == n - 1 => r.input(format!("{t} LOGIN {{{size}}}{eol}").as_bytes()),
            _ => continue,
        }
        r.drain()?;
    }
    Ok(())
}
fn probe_client(g: &mut G, r: &mut cm::Run) -> Result<(), String> {
    let mut m = enc_greeting(&g.greeting());
    if g.s.bool() { g.relax(&mut m); m.extend(b"* OK hello\r\n"); }
    r.input(&m);
    r.drain()?;
    for _ in 0..2 + g.s.size(6) {
        let mut m = if g.s.bool() { enc_response(&Response::Data(g.data())) } else { enc_response(&Response::Status(g.any_status())) };
        if g.s.bool() { g.relax(&mut m); }
        r.input(&m);
        r.drain()?;
    }
    Ok(())
}
pub fn p41(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let mut log = vec![];
    // options of servers, some of them copies of others that went another way since
    let mut all = vec![(Options::default(), DEFAULT)];
    for _ in 0..g.s.size(12) {
        let i = g.s.idx(all.len());
        match g.s.below(6) {
            0 if all.len() < 4 => { log.push(format!("{} copies {i}", all.len())); let x = all[i].clone(); all.push(x); }
            1 if all.len() < 4 => { log.push(format!("{} is new", all.len())); all.push((Options::default(), DEFAULT)); }
            _ => { let (o, w) = &mut all[i]; let t = change(&mut g, o, w); log.push(format!("{i}: {t}")); }
        }
        for (o, w) in &all { server_says(o, w)?; if o.clone() != *o { return Err("[OPTION] a copy is another".into()); } }
    }
    // and of clients
    let mut clients = vec![];
    for _ in 0..g.s.idx(3) { let mut o = COpt::default(); let strict = if g.s.bool() { let x = g.s.bool(); o.crlf_relaxed = !x; x } else { true }; log.push(format!("client strict={strict}")); clients.push((o, strict)); }
    c.sample(|| log.join("; "));
    let mut runs = vec![];
    for (o, w) in &mut all {
        if w.literal >= w.command { continue; }
        let mut r = sm::Run::new(o.clone(), Greeting::ok(None, "hi there").unwrap(), c.want_sample || c.verbose);
        (r.model.strict, r.model.limit, r.model.max_lit) = (w.strict, w.command as usize, w.literal);
        // what is done to the options later is nothing to a server that exists
        let was = w.clone();
        if g.s.bool() { change(&mut g, o, w); }
        runs.push((r, was));
    }
    let mut lines = (0, 0);
    for (r, w) in &mut runs {
        probe_server(&mut g, r, w).map_err(|e| format!("{e}\n{}\nserver {w:?}\n{}", log.join("\n"), r.trace()))?;
        lines.0 += r.model.stat.commands + r.model.stat.errors;
    }
    for (o, strict) in clients {
        let mut r = cm::Run::new(o, c.want_sample || c.verbose);
        r.model.strict = strict;
        probe_client(&mut g, &mut r).map_err(|e| format!("{e}\nclient strict={strict}\n{}", r.trace()))?;
        lines.1 += r.model.stat.received + r.model.stat.errors;
    }
    c.nontrivial = lines.0 > 0;
    c.count("server messages and errors", lines.0);
    c.count("client messages and errors", lines.1);
    Ok(())
}
/// Messages as long as they may be if nothing else was said.
pub fn largest(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut o = Options::default();
    let relaxed = s.bool();
    if s.bool() { o.crlf_relaxed = relaxed; }
    let mut server = Server::new(o, Greeting::ok(None, "hi").unwrap());
    while !matches!(sm::observe(server.next()), sm::Obs::Need) {}
    let (literal, command) = (DEFAULT.literal as usize, DEFAULT.command as usize);
    let piece = 1 << s.range(16, 25);
    let mut feed = |server: &mut Server, n: usize| -> Option<sm::Obs> {
        let v = vec![b'x'; piece.min(n)];
        let mut left = n;
        while left > 0 { let k = left.min(v.len()); server.enqueue_input(&v[..k]); left -= k; match sm::observe(server.next()) { sm::Obs::Need => {} o => return Some(o) } }
        None
    };
    let bad = |what: &str, o: Option<sm::Obs>| Err(format!("[OPTION] {what}: {}", o.map_or("nothing".into(), |o| format!("{o:?}").chars().take(200).collect::<String>())));
    let which = s.idx(3);
    c.sample(|| format!("{} in pieces of {piece}", ["a literal", "a line that is too long", "a literal that is too long"][which]));
    c.nontrivial = true;
    match which {
        0 => {
            let sync = s.bool();
            server.enqueue_input(format!("a LOGIN u {{{literal}{}}}\r\n", if sync { "" } else { "+" }).as_bytes());
            if sync { match sm::observe(server.next()) { sm::Obs::Output(b) if b.starts_with(b"+ ") => {} o => return bad("a literal of 25 MiB is announced", Some(o)) } }
            if let Some(o) = feed(&mut server, literal) { return bad("a literal of 25 MiB comes", Some(o)); }
            server.enqueue_input(b"\r\n");
            match sm::observe(server.next()) { sm::Obs::Ev(sm::Ev::Command(_)) => {} o => return bad("a literal of 25 MiB has come", Some(o)) }
        }
        1 => {
            if let Some(o) = feed(&mut server, command - 1) { return bad("a line of 25 MiB and 64 KiB comes", Some(o)); }
            match feed(&mut server, 1) { Some(sm::Obs::Err(sm::ErrKind::TooLong, b)) if b.len() == command => {} o => return bad("a line of 25 MiB and 64 KiB has come", o) }
        }
        _ => {
            server.enqueue_input(format!("a LOGIN u {{{}}}\r\n", literal + 1).as_bytes());
            let (mut error, mut answer) = (false, false);
            for _ in 0..2 {
                match sm::observe(server.next()) {
                    sm::Obs::Output(b) if b.starts_with(b"a BAD ") => answer = true,
                    sm::Obs::Err(sm::ErrKind::LiteralTooLong, _) => error = true,
                    o => return bad("a literal of 25 MiB and a byte is announced", Some(o)),
                }
            }
            if !error || !answer { return bad("a literal of 25 MiB and a byte was announced, but not both reported and refused", None); }
        }
    }
    Ok(())
}
