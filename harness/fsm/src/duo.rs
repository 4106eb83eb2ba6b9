//! A client and a server talking to each other, with cooperating users.
use std::collections::VecDeque;

use fsm::{client_model as cm, server_model as sm};
use gen::*;
use imap_next::client::{Client, Options as COpt};
use imap_next::server::{Options as SOpt, Server};
use imap_next::State;
use imap_types::auth::AuthenticateData;
use imap_types::command::Command;
use imap_types::core::Tag;
use imap_types::response::*;
use pbt::{Case, Src};

pub fn p18(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let mut so = SOpt::default();
    let scale = SCALE.get();
    so.max_literal_size = 4 + g.s.size(if scale == Scale::Bulk { 300_000 } else { 60 }) as u32;
    so.crlf_relaxed = g.s.bool();
    let mut co = COpt::default();
    co.crlf_relaxed = g.s.bool();
    let max = so.max_literal_size as usize;
    let reject_text = so.literal_reject_text().as_ref().to_owned();
    let greeting = g.greeting();
    let mut client = Client::new(co);
    let mut server = Server::new(so, greeting.clone());
    let keep = c.want_sample || c.verbose;
    let mut log: Vec<String> = vec![];
    macro_rules! note { ($($t:tt)*) => { if keep { log.push(format!($($t)*)) } } }
    let (mut c2s, mut s2c): (VecDeque<u8>, VecDeque<u8>) = Default::default();
    let mut enqueued: VecDeque<(imap_next::client::CommandHandle, Command<'static>)> = VecDeque::new();
    // commands neither delivered to the server user nor reported as rejected, in order
    let mut undelivered: VecDeque<Command<'static>> = VecDeque::new();
    // commands the client user was not told the end of
    let mut unended: VecDeque<(imap_next::client::CommandHandle, Command<'static>)> = VecDeque::new();
    let mut responses: VecDeque<Response<'static>> = VecDeque::new();
    let mut unsent: VecDeque<(imap_next::server::ResponseHandle, Response<'static>)> = VecDeque::new();
    let mut greeted = (false, false);
    let (mut todo_auth, mut todo_done) = (false, false);
    // the server user's pending duty
    let mut auth_tag: Option<Tag<'static>> = None;
    // it waits for data it asked for
    let mut awaiting = false;
    let mut idle: Option<(Tag<'static>, u8)> = None; // 0 to accept or reject, 1 accepted
    let mut answer: VecDeque<Tag<'static>> = VecDeque::new();
    let mut auth_data: VecDeque<AuthenticateData<'static>> = VecDeque::new();
    let (mut ncmd, mut nresp, mut special) = (0u64, 0u64, 0u64);
    let total = if scale == Scale::Far { 1000 + g.s.size(30_000) } else { 1 + g.s.size(if scale == Scale::Long { 600 } else { 10 }) } as u64;
    let mut made = 0;
    let mut quiet = 0;
    let more = match scale { Scale::Usual => 1, Scale::Far => 2000, _ => 20 };
    let limit = 60_000 * more;
    let mut res = Ok(());
    macro_rules! bad { ($($t:tt)*) => { { res = Err(format!($($t)*)); break } } }
    for step in 0.. {
        if step % 1000 == 999 { pbt::alive(); }
        if step > limit { bad!("[HANG] the dialogue does not end"); }
        let fair = made >= total || step > 3000 * more;
        if fair { made = total; }
        if quiet > 40 && fair { break; }
        quiet += 1;
        let what = if fair { step % 6 } else { g.s.below(7) };
        match what {
            // client
            0 => match cm::observe(client.next()) {
                cm::Obs::Need => {}
                cm::Obs::Output(b) => { quiet = 0; note!("C> {}", show(&b)); c2s.extend(b) }
                cm::Obs::Err(k, d) => bad!("[RECV] client error {k:?} \"{}\"", show(&d)),
                cm::Obs::Ev(e) => {
                    quiet = 0;
                    note!("client user: {e:?}");
                    let ended = |u: &mut VecDeque<(imap_next::client::CommandHandle, Command<'static>)>, h: imap_next::client::CommandHandle| -> Option<Command<'static>> { if u.front().is_some_and(|x| x.0 == h) { u.pop_front().map(|x| x.1) } else { None } };
                    let mut got: Option<Response<'static>> = None;
                    match e.clone() {
                        cm::Ev::Greeting(gr) => { if gr != greeting || greeted.0 { bad!("[RECV] greeting {gr:?}"); } greeted.0 = true; }
                        cm::Ev::Sent(h, cmd) => { if ended(&mut unended, h) != Some(cmd) { bad!("[SENT] {e:?}"); } }
                        cm::Ev::Rejected(h, cmd, st) => {
                            special += 1;
                            if ended(&mut unended, h) != Some(cmd.clone()) { bad!("[SENT] {e:?}"); }
                            match undelivered.iter().position(|x| *x == cmd) { Some(0) => { undelivered.pop_front(); } _ => bad!("[RECV] rejected {cmd:?} although it was delivered or others are before it") }
                            if st.text().as_ref() != reject_text || st.tag() != Some(&cmd.tag) { bad!("[RECV] rejection {st:?} is not the server's"); }
                        }
                        cm::Ev::AuthStarted(h) => { if unended.front().map(|x| x.0) != Some(h) { bad!("[SENT] {e:?}"); } }
                        cm::Ev::IdleSent(h) => { if unended.front().map(|x| x.0) != Some(h) { bad!("[SENT] {e:?}"); } }
                        cm::Ev::DoneSent(h) => { special += 1; if ended(&mut unended, h).is_none() { bad!("[SENT] {e:?}"); } }
                        cm::Ev::AuthCcr(h, r) => { special += 1; if unended.front().map(|x| x.0) != Some(h) { bad!("[RECV] {e:?}"); } todo_auth = true; got = Some(Response::CommandContinuationRequest(r)); }
                        cm::Ev::AuthStatus(h, cmd, st) => { special += 1; if ended(&mut unended, h) != Some(cmd) { bad!("[RECV] {e:?}"); } got = Some(Response::Status(st)); }
                        cm::Ev::IdleAccepted(h, r) => { if unended.front().map(|x| x.0) != Some(h) { bad!("[RECV] {e:?}"); } todo_done = true; got = Some(Response::CommandContinuationRequest(r)); }
                        cm::Ev::IdleRejected(h, st) => { special += 1; if ended(&mut unended, h).is_none() { bad!("[RECV] {e:?}"); } got = Some(Response::Status(st)); }
                        cm::Ev::Data(d) => got = Some(Response::Data(d)),
                        cm::Ev::Status(d) => got = Some(Response::Status(d)),
                        cm::Ev::Ccr(d) => bad!("[RECV] the client was told of a continuation request {d:?} that belongs to a command"),
                    }
                    if let Some(r) = got { nresp += 1; if responses.pop_front().as_ref() != Some(&r) { bad!("[RECV] the client user got {r:?}, which is not the next response"); } }
                }
            },
            // server
            1 => match sm::observe(server.next()) {
                sm::Obs::Need => {}
                sm::Obs::Output(b) => { quiet = 0; note!("S> {}", show(&b)); s2c.extend(b) }
                sm::Obs::Err(sm::ErrKind::LiteralTooLong, _) => { quiet = 0; note!("server user: literal too long"); }
                sm::Obs::Err(k, d) => bad!("[RECV] server error {k:?} \"{}\"", show(&d)),
                sm::Obs::Sent(None, m) => { if m != sm::Msg::Greeting(greeting.clone()) || greeted.1 { bad!("[SENT] {m:?}"); } greeted.1 = true; quiet = 0; }
                sm::Obs::Sent(Some(h), m) => { quiet = 0; match unsent.pop_front() { Some((h2, r)) if h2 == h && m == sm::Msg::Response(r.clone()) => {} x => bad!("[SENT] {m:?} reported, due {x:?}") } }
                sm::Obs::Ev(e) => {
                    quiet = 0;
                    note!("server user: {e:?}");
                    let due = undelivered.front().cloned();
                    match e {
                        sm::Ev::Command(cmd) => { ncmd += 1; if due.as_ref() != Some(&cmd) { bad!("[RECV] the server user got {cmd:?}, due {due:?}"); } undelivered.pop_front(); answer.push_back(cmd.tag); }
                        sm::Ev::Auth(cmd) => { ncmd += 1; if due.as_ref() != Some(&cmd) { bad!("[RECV] the server user got {cmd:?}, due {due:?}"); } undelivered.pop_front(); auth_tag = Some(cmd.tag); }
                        sm::Ev::Data(d) => { if auth_data.pop_front() != Some(d.clone()) { bad!("[RECV] the server user got {d:?}"); } match &auth_tag { Some(t) if d == AuthenticateData::Cancel => { let st = g.status_of(Some(t.clone()), StatusKind::Bad); match server.authenticate_finish(st.clone()) { Ok(h) => { unsent.push_back((h, Response::Status(st.clone()))); responses.push_back(Response::Status(st)); } Err(_) => bad!("[API] authenticate_finish refused") } auth_tag = None; } Some(_) => {} None => bad!("[RECV] data without exchange") } awaiting = false; }
                        sm::Ev::Idle(t) => { ncmd += 1; match due { Some(Command { tag, body: imap_types::command::CommandBody::Idle }) if tag == t => { undelivered.pop_front(); } x => bad!("[RECV] IDLE {t:?}, due {x:?}") } idle = Some((t, 0)); }
                        sm::Ev::Done => { match idle.take() { Some((t, 1)) => answer.push_back(t), x => bad!("[RECV] DONE in {x:?}") } }
                    }
                }
            },
            // wires
            2 => { let k = if fair || g.s.bool() { c2s.len() } else { g.s.idx(c2s.len() + 1) }; if k > 0 { quiet = 0; let b: Vec<u8> = c2s.drain(..k).collect(); server.enqueue_input(&b); } }
            3 => { let k = if fair || g.s.bool() { s2c.len() } else { g.s.idx(s2c.len() + 1) }; if k > 0 { quiet = 0; let b: Vec<u8> = s2c.drain(..k).collect(); client.enqueue_input(&b); } }
            // client user
            4 => {
                if todo_auth { todo_auth = false; quiet = 0; let d = g.authenticate_data(); if client.set_authenticate_data(d.clone()).is_err() { bad!("[API] set_authenticate_data refused"); } auth_data.push_back(d); }
                else if todo_done { if fair || g.s.chance(1, 3) { todo_done = false; quiet = 0; if client.set_idle_done().is_none() { bad!("[API] set_idle_done refused"); } } }
                else if made < total {
                    made += 1;
                    quiet = 0;
                    // synchronizing literals may be too long for the server, others not
                    let over = g.s.chance(1, 4);
                    g.lits = if over { Lits::Sync } else { Lits::Any };
                    g.max_lit = if over { max + 20 } else { max };
                    let cmd = match g.s.below(6) { 0 => g.authenticate(), 1 => g.idle(), _ => g.regular() };
                    let h = client.enqueue_command(cmd.clone());
                    note!("client user enqueues {}", show(&enc_command(&cmd)));
                    enqueued.push_back((h, cmd.clone()));
                    undelivered.push_back(cmd.clone());
                    unended.push_back((h, cmd));
                }
            }
            // server user
            _ => {
                g.lits = Lits::Sync;
                g.max_lit = if scale == Scale::Bulk { 400_000 } else { 60 };
                let send = |g: &mut G, server: &mut Server, r: Response<'static>| { let _ = &g; match r { Response::Data(d) => server.enqueue_data(d), Response::Status(d) => server.enqueue_status(d), Response::CommandContinuationRequest(d) => server.enqueue_continuation_request(d) } };
                if let Some(t) = auth_tag.clone().filter(|_| !awaiting) {
                    quiet = 0;
                    if g.s.bool() { let r = g.ccr(); match server.authenticate_continue(r.clone()) { Ok(h) => { unsent.push_back((h, Response::CommandContinuationRequest(r.clone()))); responses.push_back(Response::CommandContinuationRequest(r)); } Err(_) => bad!("[API] authenticate_continue refused") } awaiting = true; }
                    else { let st = g.status(Some(t)); match server.authenticate_finish(st.clone()) { Ok(h) => { unsent.push_back((h, Response::Status(st.clone()))); responses.push_back(Response::Status(st)); } Err(_) => bad!("[API] authenticate_finish refused") } auth_tag = None; }
                } else if let Some((t, 0)) = idle.clone() {
                    quiet = 0;
                    if g.s.bool() { let r = g.ccr(); match server.idle_accept(r.clone()) { Ok(h) => { unsent.push_back((h, Response::CommandContinuationRequest(r.clone()))); responses.push_back(Response::CommandContinuationRequest(r)); } Err(_) => bad!("[API] idle_accept refused") } idle = Some((t, 1)); }
                    else { let st = g.status(Some(t)); match server.idle_reject(st.clone()) { Ok(h) => { unsent.push_back((h, Response::Status(st.clone()))); responses.push_back(Response::Status(st)); } Err(_) => bad!("[API] idle_reject refused") } idle = None; }
                } else if let Some(t) = answer.pop_front() {
                    quiet = 0;
                    for _ in 0..g.s.idx(3) { let d = Response::Data(g.data()); let h = send(&mut g, &mut server, d.clone()); unsent.push_back((h, d.clone())); responses.push_back(d); }
                    // the tagged status of a command whose bytes were all taken: never a rejection
                    let d = Response::Status(g.status(Some(t)));
                    let h = send(&mut g, &mut server, d.clone());
                    unsent.push_back((h, d.clone()));
                    responses.push_back(d);
                } else if !fair && g.s.chance(1, 4) {
                    quiet = 0;
                    let d = if g.s.bool() { Response::Data(g.data()) } else { Response::Status(g.status(None)) };
                    let h = send(&mut g, &mut server, d.clone());
                    unsent.push_back((h, d.clone()));
                    responses.push_back(d);
                }
            }
        }
    }
    if res.is_ok() {
        if let Some(x) = undelivered.front() { res = Err(format!("[STALL] never delivered: {x:?}")); }
        else if let Some(x) = unended.front() { res = Err(format!("[STALL] the client user was never told the end of {:?}", x.1)); }
        else if let Some(x) = responses.front() { res = Err(format!("[STALL] never received: {x:?}")); }
        else if let Some(x) = unsent.front() { res = Err(format!("[STALL] never reported as sent: {x:?}")); }
    }
    c.nontrivial = ncmd >= 3 && nresp >= 3 && special > 0;
    c.count("commands", ncmd);
    c.count("responses", nresp);
    c.sample(|| log.join("\n"));
    res
}
