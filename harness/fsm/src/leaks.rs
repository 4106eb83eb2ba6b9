//! P17: secrets in renderings and records. Only in builds without debug assertions.
use std::fmt::Debug;

use gen::secret::leak;
use gen::*;
use imap_next::client::{self, Client};
use imap_next::server::{self, Server};
use imap_next::{Interrupt, Io, State};
use imap_types::core::*;
use imap_types::response::*;
use pbt::{Case, Src};

fn clean(what: &str, text: &str) -> Result<(), String> {
    match leak(text) { None => Ok(()), Some(f) => Err(format!("{what} shows a secret (as {f}): {}", text.chars().take(600).collect::<String>())) }
}
fn shown(what: &str, d: &dyn Debug) -> Result<(), String> { for t in [format!("{d:?}"), format!("{d:#?}"), format!("{d:x?}"), format!("{d:#X?}")] { clean(what, &t)?; } Ok(()) }

/// The errors of both kinds have the same shape.
macro_rules! error { ($e:expr, $log:expr, $n:expr) => {{
    let e = $e;
    $n += 1;
    shown("an error", &e)?;
    clean("an error's text", &format!("{e} {e:#}"))?;
    let r: Interrupt<_> = Interrupt::Error(e);
    shown("an interrupt", &r)?;
}} }

pub fn server(s: &mut Src, c: &mut Case) -> Result<(), String> {
    assert!(!cfg!(debug_assertions));
    spy::start();
    let r = server_case(s, c);
    let l = spy::stop();
    r?;
    clean("a record", &l)
}
fn server_case(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.secret = true;
    let mut o = server::Options::default();
    o.crlf_relaxed = g.s.bool();
    o.max_literal_size = 40 + g.s.size(40) as u32;
    o.max_command_size = o.max_literal_size + 60 + g.s.size(300) as u32;
    let lim = (o.max_literal_size, o.max_command_size);
    let greeting = g.greeting();
    let mut srv = Server::new(o, greeting);
    // what the server waits for: 0 commands, 1 authentication data, 2 its own decision on IDLE, 3 DONE
    let mut mode = 0;
    let (mut errors, mut secrets) = (0u64, 0u64);
    let keep = c.want_sample || c.verbose;
    let mut log: Vec<String> = vec![];
    let steps = 3 + g.s.size(24);
    for _ in 0..steps {
        let m: Vec<u8> = match (mode, g.s.below(12)) {
            (1, 0..=5) => { let d = g.authenticate_data(); enc_auth_data(&d) }
            (3, 0..=3) => enc_done(),
            (_, 0..=2) => { let t = g.tag(); let mut x = g.regular(); for _ in 0..20 { if matches!(x.body, imap_types::command::CommandBody::Login { .. }) { break; } x = g.regular(); } x.tag = t; enc_command(&x) }
            (_, 3) => { let x = g.authenticate(); enc_command(&x) }
            (_, 4) => { let x = g.idle(); enc_command(&x) }
            (_, 5) => { let d = g.authenticate_data(); enc_auth_data(&d) }
            // a literal that is too long, after or as the secret
            (_, 6) => {
                let t = g.tag();
                let n = g.uniq();
                let over = lim.0 + 1 + g.s.size(20) as u32;
                let plus = if g.s.bool() { "+" } else { "" };
                match g.s.below(3) { 0 => format!("{} LOGIN {} {{{over}{plus}}}\r\n", t.as_ref(), secret::marker(n)), 1 => format!("{} LOGIN a {{{over}{plus}}}\r\n{}\r\n", t.as_ref(), secret::marker(n)), _ => { let m = secret::marker(n); format!("{} LOGIN {{{}+}}\r\n{m} {{{over}{plus}}}\r\n", t.as_ref(), m.len()) } }.into_bytes()
            }
            // a line that is too long
            (_, 7) => {
                let t = g.tag();
                let mut v = format!("{} LOGIN a \"", t.as_ref()).into_bytes();
                while v.len() < lim.1 as usize + g.s.size(60) { let n = g.uniq(); v.extend(secret::marker(n).bytes()); }
                v.extend(b"\"\r\n");
                v
            }
            _ => g.secret_junk(true),
        };
        if leak(&String::from_utf8_lossy(&m)).is_some() { secrets += 1; }
        if keep { log.push(format!("in: {}", show(&m))); }
        let cuts = if g.s.chance(1, 3) { g.split(&m) } else { vec![m] };
        for part in cuts {
            srv.enqueue_input(&part);
            for _ in 0..200 {
                match srv.next() {
                    Err(Interrupt::Io(Io::NeedMoreInput)) => break,
                    Err(Interrupt::Io(Io::Output(_))) => {}
                    Err(Interrupt::Error(e)) => error!(e, log, errors),
                    Ok(ev) => {
                        shown("an event", &ev)?;
                        if keep { log.push(format!("event: {ev:?}")); }
                        match ev {
                            server::Event::CommandAuthenticateReceived { command_authenticate } => {
                                mode = 1;
                                shown("an AUTHENTICATE command", &command_authenticate)?;
                                let cmd: imap_types::command::Command = command_authenticate.into();
                                shown("a command", &cmd)?;
                                if g.s.bool() { let x = g.ccr_plain(); let _ = srv.authenticate_continue(x); }
                            }
                            server::Event::AuthenticateDataReceived { .. } => { if g.s.chance(1, 3) { let x = g.status(None); let _ = srv.authenticate_finish(x); mode = 0; } else { let x = g.ccr_plain(); let _ = srv.authenticate_continue(x); } }
                            server::Event::IdleCommandReceived { .. } => { if g.s.chance(1, 4) { let x = g.status(None); let _ = srv.idle_reject(x); mode = 0; } else { let x = g.ccr_plain(); let _ = srv.idle_accept(x); mode = 3; } }
                            server::Event::IdleDoneReceived => mode = 0,
                            _ => {}
                        }
                    }
                }
                shown("a server", &srv)?;
            }
            clean("a record", &spy::take())?;
        }
        if g.s.chance(1, 6) && mode == 1 { let x = g.status(None); let _ = srv.authenticate_finish(x); mode = 0; }
        shown("a server", &srv)?;
    }
    c.nontrivial = secrets >= 2 && errors >= 1;
    c.count("secrets", secrets);
    c.count("errors", errors);
    c.sample(|| log.join("\n"));
    Ok(())
}

pub fn client(s: &mut Src, c: &mut Case) -> Result<(), String> {
    assert!(!cfg!(debug_assertions));
    spy::start();
    let r = client_case(s, c);
    let l = spy::stop();
    r?;
    clean("a record", &l)
}
fn client_case(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.secret = true;
    let mut o = client::Options::default();
    o.crlf_relaxed = g.s.bool();
    let strict = !o.crlf_relaxed;
    let mut cl = Client::new(o);
    let (mut errors, mut secrets, mut greeted) = (0u64, 0u64, false);
    let keep = c.want_sample || c.verbose;
    let mut log: Vec<String> = vec![];
    let mut tags: Vec<Tag<'static>> = vec![];
    let steps = 3 + g.s.size(30);
    for _ in 0..steps {
        match g.s.below(10) {
            0..=2 => {
                let x = match g.s.below(4) { 0 => g.authenticate(), 1 => g.idle(), _ => { let mut x = g.regular(); for _ in 0..20 { if matches!(x.body, imap_types::command::CommandBody::Login { .. }) { break; } x = g.regular(); } x } };
                tags.push(x.tag.clone());
                if keep { log.push(format!("command {x:?}")); }
                let h = cl.enqueue_command(x);
                shown("a handle", &h)?;
            }
            3 => { let d = g.authenticate_data(); if let Err(d) = cl.set_authenticate_data(d) { shown("refused data", &d)?; } }
            4 => { cl.set_idle_done(); }
            k => {
                let m = match k {
                    5 if !greeted => { greeted = true; let x = g.greeting(); enc_greeting(&x) }
                    5 => { let x = g.data(); enc_response(&Response::Data(x)) }
                    6 | 7 if greeted => { let x = g.ccr_plain(); enc_response(&Response::CommandContinuationRequest(x)) }
                    8 if greeted && !tags.is_empty() => { let t = g.s.pick(&tags).clone(); let x = g.status(Some(t)); enc_response(&Response::Status(x)) }
                    _ => { secrets += 1; g.secret_junk(strict) }
                };
                if keep { log.push(format!("in: {}", show(&m))); }
                cl.enqueue_input(&m);
            }
        }
        for _ in 0..200 {
            match cl.next() {
                Err(Interrupt::Io(Io::NeedMoreInput)) => break,
                Err(Interrupt::Io(Io::Output(b))) => if leak(&String::from_utf8_lossy(&b)).is_some() { secrets += 1 },
                Err(Interrupt::Error(e)) => error!(e, log, errors),
                Ok(ev) => { shown("an event", &ev)?; if keep { log.push(format!("event: {ev:?}")); } }
            }
            shown("a client", &cl)?;
        }
        shown("a client", &cl)?;
        clean("a record", &spy::take())?;
    }
    c.nontrivial = secrets >= 2 && errors >= 1;
    c.count("secrets", secrets);
    c.count("errors", errors);
    c.sample(|| log.join("\n"));
    Ok(())
}
