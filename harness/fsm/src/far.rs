//! Histories with very many messages on one client or server: the same few steps very often, next to the models.
//! What an instance does must not depend on how much came before, nor on how much waits.
use fsm::{client_model as cm, server_model as sm};
use gen::*;
use imap_types::auth::AuthenticateData;
use imap_types::core::LiteralMode;
use imap_types::response::*;
use pbt::{Case, Src};

use crate::{client, only, server};

#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Any, Messages, Auth, Idle, Literals, Errors }

/// How often: near a power of two, or whatever, or very often.
fn times(s: &mut Src, per: usize) -> usize {
    let n = match s.below(3) { 0 => (1usize << s.range(9, 16)) + s.idx(5) - 2, 1 => 1 + s.size(70_000), _ => 66_000 };
    n.min(200_000 / per.max(1)).max(1)
}
fn ten(n: usize) -> &'static str { match n { 0..1_000 => "fewer than 1000 times", 1_000..10_000 => "1000 times or more", 10_000..65_537 => "10000 times or more", _ => "more than 65536 times" } }

#[derive(Clone, Debug)]
enum Sv { In(Vec<u8>), Drain, Next, Api(sm::Api) }
fn show_s(v: &[Sv]) -> String { v.iter().map(|x| match x { Sv::In(b) => format!("input \"{}\"", show(b)), x => format!("{x:?}") }).collect::<Vec<_>>().join("; ") }
fn do_s(r: &mut sm::Run, v: &[Sv]) -> Result<(), String> {
    for x in v { match x { Sv::In(b) => r.input(b), Sv::Drain => r.drain()?, Sv::Next => { r.next()?; } Sv::Api(a) => r.api(a.clone())? } }
    Ok(())
}

pub fn on_server(s: &mut Src, c: &mut Case, focus: Focus, kinds: &[&str]) -> Result<(), String> {
    let mut g = G::new(s);
    g.same_tags = true;
    let o = server::options(&mut g, true);
    let p = server::Prof { small: true, ..server::BASE };
    let greeting = g.greeting();
    let finish = |g: &mut G| Sv::Api(sm::Api::AuthFinish(g.status(None)));
    let accept = |g: &mut G| Sv::Api(sm::Api::IdleAccept(g.ccr()));
    let (mut pre, mut body, mut post) = (vec![], vec![], vec![]);
    g.max_lit = o.max_literal_size as usize;
    // how often what is there is taken: after every message, now and then, only at the end
    let waits = g.s.below(3);
    let idle_line = { let i = g.idle(); Sv::In(enc_command(&i)) };
    let of = if focus == Focus::Any || g.s.chance(1, 4) { *g.s.pick(&[Focus::Messages, Focus::Auth, Focus::Idle, Focus::Literals, Focus::Errors]) } else { focus };
    for _ in 0..1 + g.s.idx(3) {
        match of {
            Focus::Messages => for _ in 0..1 + g.s.idx(2) {
                if g.s.bool() { let a = server::api(&mut g, sm::Mode::Command, 0); body.push(Sv::Api(a)); }
                else { g.lits = Lits::Any; let m = server::item(&mut g, sm::Mode::Command, &server::Prof { auth: 0, idle: 0, data: 0, ..p }, &o); body.push(Sv::In(m)); }
            },
            Focus::Auth => match g.s.below(3) {
                // very many exchanges
                0 => { let a = g.authenticate(); body.push(Sv::In(enc_command(&a))); body.push(Sv::Drain); if g.s.bool() { let x = g.ccr(); body.push(Sv::Api(sm::Api::AuthContinue(x))); let d = g.authenticate_data(); body.push(Sv::In(enc_auth_data(&d))); body.push(Sv::Drain); } let f = finish(&mut g); body.push(f); }
                // very many rounds of one
                _ => {
                    if pre.is_empty() { let a = g.authenticate(); pre = vec![Sv::In(enc_command(&a)), Sv::Drain]; let f = finish(&mut g); post = vec![f, Sv::Drain]; }
                    if g.s.chance(7, 8) { let x = g.ccr(); body.push(Sv::Api(sm::Api::AuthContinue(x))); }
                    let d = AuthenticateData::Continue(imap_types::secret::Secret::new(g.blob().into()));
                    body.push(Sv::In(enc_auth_data(&d)));
                    if g.s.chance(1, 4) { body.push(Sv::Api(sm::Api::Data(g.data()))); }
                }
            },
            Focus::Idle => match g.s.below(3) {
                // very many IDLEs, accepted or refused
                0 | 1 => {
                    body.extend([idle_line.clone(), Sv::Drain]);
                    if g.s.chance(2, 3) { let a = accept(&mut g); body.push(a); if g.s.bool() { body.push(Sv::Api(sm::Api::Data(g.data()))); } body.push(Sv::In(enc_done())); } else { let x = g.status(None); body.push(Sv::Api(sm::Api::IdleReject(x))); }
                    body.push(Sv::Drain);
                }
                // very many responses, or malformed lines, during one
                _ => {
                    if pre.is_empty() { let a = accept(&mut g); pre = vec![idle_line.clone(), Sv::Drain, a, Sv::Drain]; post = vec![Sv::In(enc_done()), Sv::Drain]; }
                    if g.s.chance(3, 4) { body.push(Sv::Api(sm::Api::Data(g.data()))); } else { body.push(Sv::In(b"xx\r\n".to_vec())); }
                }
            },
            Focus::Literals => {
                g.lits = Lits::Any;
                g.lit_rate = 1;
                let x = if g.s.chance(1, 3) { server::item(&mut g, sm::Mode::Command, &server::Prof { big: 20, reg: 2, auth: 0, idle: 0, data: 0, bad: 0, junk: 0, long: 0, ..p }, &o) } else { enc_command(&g.regular()) };
                body.push(Sv::In(x));
            }
            _ => { let m = server::item(&mut g, sm::Mode::Command, &server::Prof { bad: 6, junk: 4, big: 3, long: 1, reg: 1, auth: 0, idle: 0, data: 0, done: 1, ..p }, &o); body.push(Sv::In(m)); }
        }
        if waits == 0 || (waits == 1 && g.s.bool()) { body.push(if g.s.chance(3, 4) { Sv::Drain } else { Sv::Next }); }
    }
    let drains = body.iter().any(|x| matches!(x, Sv::Drain));
    let size: usize = body.iter().map(|x| if let Sv::In(b) = x { b.len() } else { 0 }).sum();
    let mut n = times(g.s, body.len());
    // (what waits to be read is looked at again whenever some of it is taken)
    if !drains { n = n.min(1 + 400_000 / size.max(1)); } else { n = n.min(1 + 8_000_000 / size.max(1)); }
    c.sample(|| format!("{} / {n} times: {} / {}", show_s(&pre), show_s(&body), show_s(&post)));
    c.count("steps", (n * body.len()) as u64);
    c.count(ten(n), 1);
    let mut r = sm::Run::new(o, greeting, false);
    let mut go = |r: &mut sm::Run| -> Result<(), String> {
        if g.s.bool() { r.drain()?; }
        do_s(r, &pre)?;
        for k in 0..n { do_s(r, &body)?; if k % 1000 == 0 { pbt::alive(); } }
        r.drain()?;
        do_s(r, &post)?;
        r.input(b"zz NOOP\r\n");
        r.drain()
    };
    let res = go(&mut r);
    let t = &r.model.stat;
    c.nontrivial = n >= 1000 && t.commands + t.errors + t.auth + t.auth_data + t.idle + t.sent >= 1000;
    c.count("messages", t.commands + t.errors + t.auth + t.auth_data + t.idle + t.done);
    c.count("responses", t.sent);
    only(kinds, res)
}

#[derive(Clone, Debug)]
enum Cl { In(Vec<u8>), Drain, Next, Api(cm::Api), Accept(Vec<u8>), End(bool, bool) }
fn show_c(v: &[Cl]) -> String { v.iter().map(|x| match x { Cl::In(b) => format!("input \"{}\"", show(b)), x => format!("{x:?}") }).collect::<Vec<_>>().join("; ") }
/// Whether the command under way waits for a literal to be accepted, or, in an exchange, for an answer.
fn waits(r: &cm::Run) -> (bool, bool) { match &r.model.cur { Some(c) => (c.phase == cm::Phase::WaitAccept, matches!(c.phase, cm::Phase::WaitResponse | cm::Phase::WaitUser)), None => (false, false) } }
/// Ends what is under way.
fn end(r: &mut cm::Run, refuse: bool, finish: bool) -> Result<(), String> {
    r.drain()?;
    for _ in 0..2000 {
        let (lit, exchange) = waits(r);
        if !lit && !exchange { break; }
        let tag = r.model.cur.as_ref().unwrap().command.tag.as_ref().to_owned();
        let idle = r.model.cur.as_ref().unwrap().kind == cm::Kind::Idle;
        if lit && refuse { r.input(format!("{tag} BAD no\r\n").as_bytes()); }
        else if lit { r.input(b"+ go on\r\n"); }
        else if exchange && idle && finish {
            if matches!(r.model.cur.as_ref().unwrap().phase, cm::Phase::WaitUser) { r.api(cm::Api::Done)?; r.drain()?; r.input(format!("{tag} OK done\r\n").as_bytes()); }
            else { r.input(b"+ idling\r\n"); }
        }
        else { r.input(format!("{tag} OK done\r\n").as_bytes()); }
        r.drain()?;
    }
    Ok(())
}
fn do_c(r: &mut cm::Run, v: &[Cl]) -> Result<(), String> {
    for x in v {
        match x {
            Cl::In(b) => r.input(b),
            Cl::Drain => r.drain()?,
            Cl::Next => { r.next()?; }
            Cl::Api(a) => r.api(a.clone())?,
            Cl::Accept(b) => for _ in 0..2000 { r.drain()?; if !waits(r).0 { break; } r.input(b); },
            Cl::End(a, b) => end(r, *a, *b)?,
        }
    }
    Ok(())
}

pub fn on_client(s: &mut Src, c: &mut Case, focus: Focus, kinds: &[&str]) -> Result<(), String> {
    let mut g = G::new(s);
    g.same_tags = true;
    let relaxed = g.s.bool();
    let greeting = g.greeting();
    let (mut pre, mut body, mut post) = (vec![], vec![], vec![]);
    let of = if focus == Focus::Any || g.s.chance(1, 4) { *g.s.pick(&[Focus::Messages, Focus::Auth, Focus::Idle, Focus::Literals, Focus::Errors]) } else { focus };
    let often = g.s.below(3);
    let response = |g: &mut G| -> Vec<u8> { g.lits = Lits::Sync; match g.s.below(3) { 0 => enc_response(&Response::Data(g.data())), 1 => enc_response(&Response::Status(g.any_status())), _ => enc_response(&g.response()) } };
    for _ in 0..1 + g.s.idx(3) {
        match of {
            Focus::Messages | Focus::Any => for _ in 0..1 + g.s.idx(2) {
                if g.s.bool() { g.lits = if g.s.bool() { Lits::None } else { Lits::Any }; let x = g.regular(); body.push(Cl::Api(cm::Api::Command(x))); if often == 0 && g.s.bool() { body.push(Cl::Accept(b"+ go on\r\n".to_vec())); } }
                else { let x = response(&mut g); body.push(Cl::In(x)); }
            },
            Focus::Auth => {
                let once = g.s.chance(1, 3);
                let a = g.authenticate();
                let tag = a.tag.clone();
                if once || pre.is_empty() {
                    let st = g.status(Some(tag));
                    let (x, y) = (vec![Cl::Api(cm::Api::Command(a)), Cl::Drain], vec![Cl::In(enc_response(&Response::Status(st))), Cl::Drain]);
                    if once { body.extend(x); if g.s.bool() { let x = g.ccr(); body.extend([Cl::In(enc_response(&Response::CommandContinuationRequest(x))), Cl::Drain, Cl::Api(cm::Api::AuthData(g.authenticate_data()))]); } body.extend(y); continue; }
                    pre = x; post = y;
                }
                let x = g.ccr();
                body.extend([Cl::In(enc_response(&Response::CommandContinuationRequest(x))), Cl::Drain, Cl::Api(cm::Api::AuthData(g.authenticate_data())), Cl::Drain]);
                if g.s.chance(1, 4) { let x = response(&mut g); body.push(Cl::In(x)); }
            }
            Focus::Idle => {
                let once = g.s.chance(2, 3);
                let a = g.idle();
                let tag = a.tag.clone();
                let st = enc_response(&Response::Status(g.status(Some(tag))));
                let x = g.ccr();
                let ccr = enc_response(&Response::CommandContinuationRequest(x));
                if once {
                    body.extend([Cl::Api(cm::Api::Command(a)), Cl::Drain]);
                    if g.s.chance(2, 3) { body.extend([Cl::In(ccr), Cl::Drain]); if g.s.bool() { let x = response(&mut g); body.push(Cl::In(x)); } body.push(Cl::Api(cm::Api::Done)); body.push(Cl::Drain); }
                    body.extend([Cl::In(st), Cl::Drain]);
                } else {
                    if pre.is_empty() { pre = vec![Cl::Api(cm::Api::Command(a)), Cl::Drain, Cl::In(ccr), Cl::Drain]; post = vec![Cl::Api(cm::Api::Done), Cl::Drain, Cl::In(st), Cl::Drain]; }
                    let x = response(&mut g); body.push(Cl::In(x));
                }
            }
            Focus::Literals => { g.lits = Lits::Sync; g.lit_rate = 1; let x = g.regular(); body.push(Cl::Api(cm::Api::Command(x))); if often < 2 { body.push(Cl::End(g.s.chance(1, 3), true)); } }
            Focus::Errors => { let mut m = response(&mut g); if g.s.bool() { m = g.junk(); } else { g.mutate(&mut m); m.extend(b"\r\n"); } body.push(Cl::In(m)); if g.s.bool() { let x = response(&mut g); body.push(Cl::In(x)); } }
        }
        if often == 0 || (often == 1 && g.s.bool()) { body.push(if g.s.chance(3, 4) { Cl::Drain } else { Cl::Next }); }
    }
    // what was enqueued is ended in turn
    if of != Focus::Auth && of != Focus::Idle && often == 0 { body.push(Cl::End(g.s.chance(1, 6), g.s.bool())); }
    let drains = body.iter().any(|x| matches!(x, Cl::Drain | Cl::End(..)));
    let size: usize = body.iter().map(|x| if let Cl::In(b) = x { b.len() } else { 0 }).sum();
    let mut n = times(g.s, body.len());
    if !drains { n = n.min(1 + 400_000 / size.max(1)); } else { n = n.min(1 + 8_000_000 / size.max(1)); }
    let late = g.s.chance(1, 3);
    c.sample(|| format!("{} / {n} times: {} / {}", show_c(&pre), show_c(&body), show_c(&post)));
    c.count("steps", (n * body.len()) as u64);
    c.count(ten(n), 1);
    let mut r = cm::Run::new(client::options(relaxed), false);
    let mut go = |r: &mut cm::Run| -> Result<(), String> {
        // the greeting comes before or after everything is enqueued
        let late = late && pre.is_empty() && body.iter().all(|x| matches!(x, Cl::Api(_) | Cl::Drain | Cl::Next));
        if !late { r.input(&enc_greeting(&greeting)); r.drain()?; }
        do_c(r, &pre)?;
        for k in 0..n { do_c(r, &body)?; if k % 1000 == 0 { pbt::alive(); } }
        if late { r.input(&enc_greeting(&greeting)); }
        r.drain()?;
        do_c(r, &post)?;
        end(r, false, true)?;
        // what is still queued: a literal of each is accepted or refused
        for k in 0..n * body.len() + 2 { if r.model.cur.is_none() && r.model.queue.is_empty() { break; } end(r, k % 5 == 4, k % 2 == 0)?; if k % 1000 == 0 { pbt::alive(); } }
        r.input(b"* 7 EXISTS\r\n");
        r.drain()
    };
    let res = go(&mut r);
    let t = &r.model.stat;
    c.nontrivial = n >= 1000 && t.received + t.errors + t.sent + t.rejected + t.auth_ccr + t.idle_done >= 1000;
    c.count("received", t.received + t.errors);
    c.count("sent", t.sent + t.rejected);
    let _ = LiteralMode::Sync;
    only(kinds, res)
}

/// One message with very many literals.
pub fn to_server(s: &mut Src, c: &mut Case) -> Result<(), String> { literals(s, c, true) }
pub fn to_client(s: &mut Src, c: &mut Case) -> Result<(), String> { literals(s, c, false) }
pub fn either(s: &mut Src, c: &mut Case) -> Result<(), String> { let server = s.bool(); literals(s, c, server) }
fn literals(s: &mut Src, c: &mut Case, server: bool) -> Result<(), String> {
    use imap_types::command::{Command, CommandBody};
    use imap_types::core::*;
    let mut g = G::new(s);
    g.same_tags = true;
    let k = match g.s.below(3) { 0 => (1usize << g.s.range(6, 11)) + g.s.idx(5) - 2, 1 => 1 + g.s.size(1500), _ => 200 + g.s.idx(400) };
    let pool: Vec<Literal> = (0..4).map(|_| { g.lits = *g.s.pick(&[Lits::Sync, Lits::NonSync, Lits::Any]); let mut l = g.literal(); if l.mode() == LiteralMode::NonSync && !server { l.set_mode(LiteralMode::Sync); } l }).collect();
    let tag = g.tag();
    let params: Vec<(IString, NString)> = (0..k).map(|_| { let l = pool[g.s.idx(4)].clone(); (IString::Literal(l.clone()), if g.s.chance(1, 3) { NString(Some(IString::Literal(l))) } else { NString(None) }) }).collect();
    let cmd = Command { tag: tag.clone(), body: CommandBody::Id { parameters: Some(params) } };
    let bytes = enc_command(&cmd);
    let greeting = g.greeting();
    let relaxed = g.s.bool();
    let whole = g.s.bool();
    c.nontrivial = k >= 100;
    c.count("literals", k as u64);
    c.sample(|| format!("{} with at least {k} literals of {:?} bytes", if server { "server" } else { "client" }, pool.iter().map(|l| l.data().len()).collect::<Vec<_>>()));
    let mut lines: Vec<Vec<u8>> = segments(&cmd);
    if server {
        let mut o = imap_next::server::Options::default();
        o.crlf_relaxed = relaxed;
        if g.s.bool() { o.max_command_size = bytes.len() as u32 + g.s.idx(3) as u32; }
        let mut r = sm::Run::new(o, greeting, false);
        r.drain()?;
        if whole { lines = g.split(&bytes); }
        let mut res = Ok(());
        for l in lines { if res.is_ok() { r.input(&l); res = r.drain(); } }
        if res.is_ok() { r.input(b"zz NOOP\r\n"); res = r.drain(); }
        if res.is_ok() && r.model.stat.commands == 0 { res = Err("[RECV] the command was not delivered".into()); }
        only(&["RECV", "OUT", "STALLR", "STALLO"], res)
    } else {
        let mut r = cm::Run::new(client::options(relaxed), false);
        r.input(&enc_greeting(&greeting));
        r.drain()?;
        if g.s.bool() {
            // a response with as many
            let mut v = b"* ID (".to_vec();
            for i in 0..k { v.extend(format!("{}{{{}}}\r\n", if i > 0 { " " } else { "" }, pool[i % 4].data().len()).bytes()); v.extend(pool[i % 4].data()); v.extend(b" NIL"); }
            v.extend(b")\r\n* 5 EXISTS\r\n");
            let parts = if whole { g.split(&v) } else { vec![v] };
            let mut res = Ok(());
            for p in parts { if res.is_ok() { r.input(&p); res = r.drain(); } }
            return only(&["RECV", "STALLR"], res);
        }
        // accepted to the end, or refused somewhere
        let until = if g.s.chance(1, 3) { g.s.idx(k) } else { usize::MAX };
        let go = |r: &mut cm::Run| -> Result<(), String> {
            r.api(cm::Api::Command(cmd))?;
            r.drain()?;
            for i in 0.. { if !waits(r).0 { break; } if i == until { r.input(format!("{} BAD no\r\n", tag.as_ref()).as_bytes()); } else { r.input(b"+ go on\r\n"); } r.drain()?; }
            Ok(())
        };
        only(&["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], go(&mut r))
    }
}
