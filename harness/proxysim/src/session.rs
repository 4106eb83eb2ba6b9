//! One proxied session: what the mail client and the server do, and what each of them must get to see.
use std::collections::VecDeque;

use gen::*;
use imap_codec::decode::{AuthenticateDataDecodeError, CommandDecodeError, Decoder, GreetingDecodeError, IdleDoneDecodeError, ResponseDecodeError};
use imap_codec::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};
use imap_types::auth::AuthenticateData;
use imap_types::command::{Command, CommandBody};
use imap_types::core::{LiteralMode, Tag, Vec1};
use imap_types::response::*;
use imap_types::secret::Secret;

use crate::ends::End;

pub const ACCEPTED: &str = "proxy: Literal accepted by proxy";
pub const REJECTED: &str = "proxy: Literal rejected by proxy";
pub const REFUSED: &str = "proxy: Command rejected by server";
const MAX_LITERAL: u32 = 25 * 1024 * 1024;

// ---- what the proxy does to capabilities, from its documentation

fn allowed(c: &Capability) -> bool {
    let n = c.to_string().to_ascii_uppercase();
    ["IMAP4REV1", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-256", "SASL-IR", "QUOTA", "QUOTASET", "MOVE", "LITERAL+", "LITERAL-", "UNSELECT", "ID", "IDLE"].contains(&n.as_str()) || n.starts_with("QUOTA=RES-")
}
fn list(c: &Vec1<Capability<'static>>) -> Vec1<Capability<'static>> {
    let v: Vec<_> = c.as_ref().iter().filter(|c| allowed(c)).cloned().collect();
    if v.is_empty() { Vec1::from(Capability::Imap4Rev1) } else { Vec1::try_from(v).unwrap() }
}
fn code(c: &Option<Code<'static>>) -> Option<Code<'static>> { match c { Some(Code::Capability(l)) => Some(Code::Capability(list(l))), c => c.clone() } }
fn body(b: &StatusBody<'static>) -> StatusBody<'static> { StatusBody { kind: b.kind, code: code(&b.code), text: b.text.clone() } }
pub fn filtered_greeting(g: &Greeting<'static>) -> Greeting<'static> { Greeting { kind: g.kind, code: code(&g.code), text: g.text.clone() } }
pub fn filtered(r: &Response<'static>) -> Response<'static> {
    match r {
        Response::Data(Data::Capability(l)) => Response::Data(Data::Capability(list(l))),
        Response::Data(d) => Response::Data(d.clone()),
        Response::Status(s) => Response::Status(match s {
            Status::Untagged(b) => Status::Untagged(body(b)),
            Status::Tagged(t) => Status::Tagged(Tagged { tag: t.tag.clone(), body: body(&t.body) }),
            Status::Bye(b) => Status::Bye(Bye { code: code(&b.code), text: b.text.clone() }),
        }),
        Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => Response::CommandContinuationRequest(CommandContinuationRequest::basic(code(&b.code().cloned()), b.text().clone()).unwrap()),
        Response::CommandContinuationRequest(c) => Response::CommandContinuationRequest(c.clone()),
    }
}

#[derive(Clone, Copy)]
pub struct Prof {
    /// How often (of 10) a code is replaced by a list of capabilities.
    pub caps: u64,
    /// Weight of messages that are malformed or out of place.
    pub junk: u64,
    pub special: u64,
}

#[derive(Clone, Debug)]
pub enum Goal { Cmd(Command<'static>), TooLong(Tag<'static>) }
#[derive(Clone, Debug)]
pub enum C { Free, Lit(VecDeque<Vec<u8>>, Goal), TooLong(Tag<'static>), Auth { tag: Tag<'static>, asked: bool }, IdleWait { tag: Tag<'static>, done: bool }, Idling { tag: Tag<'static>, done: bool }, MustDone }
#[derive(Clone, Debug)]
pub enum S { NoGreeting, Normal, Auth { tag: Tag<'static>, asked: bool }, IdleAsk { tag: Tag<'static> }, Idling { tag: Tag<'static> } }
/// A literal of the command that the server is receiving.
#[derive(Clone, Debug)]
pub enum L { None, Undecided { tag: Tag<'static>, at: usize, length: usize }, Until(usize) }

pub struct Session {
    pub id: usize,
    pub svc: usize,
    pub c: End,
    pub s: End,
    pub cst: C,
    pub sst: S,
    pub lit: L,
    greeting: Option<Greeting<'static>>,
    greeted: bool,
    pub cmds: VecDeque<Command<'static>>,
    auth: VecDeque<AuthenticateData<'static>>,
    done: u32,
    /// The server has the DONE that the client said before it saw the continuation request.
    early_used: bool,
    pub resps: VecDeque<Response<'static>>,
    pub pending: Vec<Tag<'static>>,
    pub dead: bool,
    pub log: Option<Vec<String>>,
    pub seen: (u64, u64, u64),
    pub prof: Prof,
    pub stripped: u64,
}
/// Messages end at a line's end: only whole lines are looked at.
fn whole(b: &[u8]) -> &[u8] { &b[..b.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1)] }
fn left(buf: &[u8], rest: &[u8]) -> Vec<u8> { buf[whole(buf).len() - rest.len()..].to_vec() }
pub fn tagged(t: &Tag<'static>, s: &Status<'static>) -> bool { s.tag() == Some(t) }

impl Session {
    pub fn new(id: usize, svc: usize, c: End, s: End, prof: Prof, keep: bool) -> Self {
        Self { id, svc, c, s, cst: C::Free, sst: S::NoGreeting, lit: L::None, greeting: None, greeted: false, cmds: Default::default(), auth: Default::default(), done: 0, early_used: false, resps: Default::default(), pending: vec![], dead: false, log: keep.then(Vec::new), seen: (0, 0, 0), prof, stripped: 0 }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) { let id = self.id; if let Some(l) = &mut self.log { l.push(format!("{id}: {}", f())); } }
    fn spice(&self, g: &mut G, c: Option<Code<'static>>) -> Option<Code<'static>> { if self.prof.caps > 0 && g.s.chance(self.prof.caps, 10) { Some(Code::Capability(g.capabilities())) } else { c } }
    fn status(&self, g: &mut G, tag: Option<Tag<'static>>, kind: Option<StatusKind>) -> Status<'static> {
        let kind = kind.unwrap_or_else(|| g.kind());
        let c = g.code();
        let c = self.spice(g, c);
        let t = g.text();
        Status::new(tag, kind, c, t).unwrap()
    }
    fn ccr(&self, g: &mut G) -> CommandContinuationRequest<'static> {
        match g.ccr() {
            CommandContinuationRequest::Basic(b) => { let c = self.spice(g, b.code().cloned()); CommandContinuationRequest::basic(c, b.text().clone()).unwrap() }
            c => c,
        }
    }

    // ---- the mail client

    pub fn c_say(&mut self, b: &[u8]) { self.note(|| format!("client: {}", show(b))); self.c.say(b); }
    fn c_begin(&mut self, mut segs: VecDeque<Vec<u8>>, goal: Goal) {
        let first = segs.pop_front().unwrap();
        self.c_say(&first);
        self.cst = C::Lit(segs, goal);
        self.c_advance();
    }
    fn c_advance(&mut self) {
        let C::Lit(segs, goal) = &self.cst else { return };
        if !segs.is_empty() { return; }
        match goal.clone() {
            Goal::TooLong(t) => self.cst = C::TooLong(t),
            Goal::Cmd(c) => {
                self.cst = match &c.body { CommandBody::Authenticate { .. } => C::Auth { tag: c.tag.clone(), asked: false }, CommandBody::Idle => C::IdleWait { tag: c.tag.clone(), done: false }, _ => C::Free };
                self.cmds.push_back(c);
            }
        }
    }
    pub fn c_command(&mut self, c: Command<'static>) { let segs = segments(&c).into(); self.c_begin(segs, Goal::Cmd(c)); }
    pub fn c_too_long(&mut self, g: &mut G) {
        let tag = g.tag();
        let over = MAX_LITERAL + 1 + g.s.size(5000) as u32;
        let how = g.s.below(3);
        let t = tag.as_ref();
        let segs: Vec<Vec<u8>> = match how { 0 if g.secret => vec![format!("{t} LOGIN {} {{{over}}}\r\n", secret::marker(over as u64)).into()], 0 => vec![format!("{t} LOGIN {{{over}}}\r\n").into()], 1 => vec![format!("{t} APPEND INBOX {{{over}}}\r\n").into()], _ => vec![format!("{t} LOGIN {{3}}\r\n").into(), format!("a}}b {{{over}}}\r\n").into()] };
        self.c_begin(segs.into(), Goal::TooLong(tag));
    }
    /// One thing a cooperating client may do now.
    pub fn c_step(&mut self, g: &mut G) {
        match self.cst.clone() {
            C::Free => match g.s.below(8 + self.prof.special) {
                0..=6 => { let c = g.regular(); self.c_command(c); }
                7 => self.c_too_long(g),
                x if x % 2 == 0 => { let c = g.authenticate(); self.c_command(c); }
                _ => { let c = g.idle(); self.c_command(c); }
            },
            _ => { self.c_must(g, false); }
        }
    }
    /// What the client owes; true if there was something.
    pub fn c_must(&mut self, g: &mut G, fair: bool) -> bool {
        match self.cst.clone() {
            C::Auth { tag, asked: true } => {
                let d = g.authenticate_data();
                let b = enc_auth_data(&d);
                self.c_say(&b);
                self.auth.push_back(d);
                self.cst = C::Auth { tag, asked: false };
                true
            }
            // early, perhaps
            C::IdleWait { tag, done: false } if !fair && g.s.chance(1, 3) => { self.c_say(&enc_done()); self.cst = C::IdleWait { tag, done: true }; true }
            C::Idling { tag, done: false } => { self.c_say(&enc_done()); self.done += 1; self.cst = C::Idling { tag, done: true }; true }
            C::MustDone => { self.c_say(&enc_done()); self.cst = C::Free; true }
            _ => false,
        }
    }
    pub fn c_read(&mut self) -> Result<usize, String> {
        let moved = self.c.pump();
        loop {
            let buf = std::mem::take(&mut self.c.plain);
            if buf.is_empty() { return Ok(moved); }
            if !self.greeted {
                match GreetingCodec::default().decode_static(whole(&buf)) {
                    Ok((rest, g)) => {
                        let want = self.greeting.as_ref().map(filtered_greeting);
                        if want.as_ref() != Some(&g) { return Err(format!("the client is greeted with {g:?}, not with {want:?}")); }
                        self.greeted = true;
                        self.c.plain = left(&buf, rest);
                        self.note(|| "the client is greeted".into());
                    }
                    Err(GreetingDecodeError::Incomplete) => { self.c.plain = buf; return Ok(moved); }
                    Err(_) => return Err(format!("the client is greeted with {}", show(&buf))),
                }
                continue;
            }
            match ResponseCodec::default().decode_static(whole(&buf)) {
                Ok((rest, r)) => { self.c.plain = left(&buf, rest); self.c_got(r)?; }
                Err(ResponseDecodeError::Failed) => return Err(format!("the client gets what is not a response: {}", show(&buf))),
                Err(_) => { self.c.plain = buf; return Ok(moved); }
            }
        }
    }
    fn c_got(&mut self, r: Response<'static>) -> Result<(), String> {
        self.note(|| format!("the client gets {}", show(&enc_response(&r))));
        self.seen.1 += 1;
        match &r {
            Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) if b.text().as_ref() == ACCEPTED => {
                let C::Lit(segs, _) = &mut self.cst else { return Err(format!("a literal is accepted that was not announced ({:?})", self.cst)) };
                let s = segs.pop_front().unwrap();
                if b.code().is_some() { return Err(format!("a literal is accepted with {r:?}")); }
                self.c_say(&s);
                self.c_advance();
                return Ok(());
            }
            Response::Status(Status::Tagged(t)) if t.body.text.as_ref() == REJECTED => {
                let ok = matches!(&self.cst, C::TooLong(x) if *x == t.tag) && t.body.kind == StatusKind::Bad && t.body.code.is_none();
                if !ok { return Err(format!("a literal is rejected with {r:?} ({:?})", self.cst)); }
                self.cst = C::Free;
                return Ok(());
            }
            _ => {}
        }
        let want = self.resps.pop_front();
        if want.as_ref() != Some(&r) { return Err(format!("the client gets {} instead of {}", show(&enc_response(&r)), want.map(|w| show(&enc_response(&w))).unwrap_or("nothing".into()))); }
        let ends = |tag: &Tag<'static>| matches!(&r, Response::Status(s) if tagged(tag, s));
        let asks = matches!(r, Response::CommandContinuationRequest(_));
        self.cst = match self.cst.clone() {
            C::Auth { tag, .. } if ends(&tag) => C::Free,
            C::Auth { tag, .. } if asks => C::Auth { tag, asked: true },
            // an early DONE was no command
            C::IdleWait { tag, .. } if ends(&tag) => C::Free,
            C::IdleWait { tag, done } if asks => { self.done += (done && !std::mem::take(&mut self.early_used)) as u32; C::Idling { tag, done } }
            C::Idling { tag, done: true } if ends(&tag) => C::Free,
            C::Idling { tag, done: false } if ends(&tag) => C::MustDone,
            c => c,
        };
        Ok(())
    }

    /// A line that the proxy has to drop, if there is one now. At rest (until the proxy has read it), it may be one that would do in another state.
    pub fn c_junk(&mut self, g: &mut G, rest: bool) -> bool {
        let what = match (&self.cst, &self.sst) { (C::Free, _) => 0, (C::Auth { .. }, _) if rest => 1, (C::Idling { done: false, .. }, S::Idling { .. }) => 2, (C::Auth { .. } | C::IdleWait { done: false, .. }, _) => 3, _ => return false };
        let b = junk_line(g, what);
        self.c_say(&b);
        true
    }
    /// Data for an exchange that the server has not asked for. Only at rest, until the proxy has read it.
    pub fn c_early_data(&mut self, g: &mut G) -> bool {
        if !matches!((&self.cst, &self.sst), (C::Auth { asked: false, .. }, S::Normal | S::NoGreeting | S::Auth { asked: false, .. })) { return false; }
        let d = g.authenticate_data();
        self.c_say(&enc_auth_data(&d));
        true
    }

    // ---- the server

    pub fn s_junk(&mut self, g: &mut G) -> bool {
        if matches!(self.sst, S::NoGreeting) { return false; }
        let b = junk_response(g);
        self.note(|| format!("server: {}", show(&b)));
        self.s.say(&b);
        true
    }
    /// Ends IDLE although the client has not said DONE. Only at rest, until the proxy has read it.
    pub fn s_end_idle(&mut self, g: &mut G) -> bool {
        let (C::Idling { done: false, .. }, S::Idling { tag }) = (&self.cst, self.sst.clone()) else { return false };
        if self.done > 0 || self.early_used { return false; }
        self.s_answer(g, tag);
        self.sst = S::Normal;
        true
    }
    /// A continuation request that nothing asked for. Only at rest, until the client has it.
    pub fn s_spurious(&mut self, g: &mut G) -> bool {
        if !self.quiet() { return false; }
        let c = self.ccr(g);
        self.s_say(Response::CommandContinuationRequest(c), true);
        true
    }
    pub fn s_say(&mut self, r: Response<'static>, forwarded: bool) {
        let b = enc_response(&r);
        self.note(|| format!("server: {}", show(&b)));
        self.s.say(&b);
        if forwarded && filtered(&r) != r { self.stripped += 1; }
        if forwarded { self.resps.push_back(filtered(&r)); }
    }
    pub fn s_greet(&mut self, g: &mut G) {
        let mut x = g.greeting();
        x.code = self.spice(g, x.code);
        let b = enc_greeting(&x);
        self.note(|| format!("server: {}", show(&b)));
        self.s.say(&b);
        self.greeting = Some(x);
        self.sst = S::Normal;
    }
    /// Something a server may say at any time after its greeting.
    pub fn s_unsolicited(&mut self, g: &mut G) {
        let r = match g.s.below(6) {
            0 | 1 => Response::Data(g.data()),
            2 => Response::Data(Data::Capability(g.capabilities())),
            3 => { let c = g.code(); let c = self.spice(g, c); let t = g.text(); Response::Status(Status::bye(c, t).unwrap()) }
            // the tag of nothing
            4 => { let t = g.tag(); Response::Status(self.status(g, Some(t), None)) }
            _ => Response::Status(self.status(g, None, None)),
        };
        self.s_say(r, true);
    }
    fn s_answer(&mut self, g: &mut G, tag: Tag<'static>) { let st = self.status(g, Some(tag), None); self.s_say(Response::Status(st), true); }
    fn s_accept(&mut self, g: &mut G) {
        let L::Undecided { at, length, .. } = self.lit else { return };
        self.lit = L::Until(at + length);
        let c = self.ccr(g);
        self.s_say(Response::CommandContinuationRequest(c), false);
    }
    fn s_refuse(&mut self, g: &mut G) -> Result<(), String> {
        let L::Undecided { tag, .. } = self.lit.clone() else { return Ok(()) };
        let mut st = self.status(g, Some(tag.clone()), Some(StatusKind::Bad));
        if g.s.bool() { let t = g.text(); st = Status::bad(Some(tag.clone()), Some(Code::Alert), t).unwrap(); }
        let shown = if st.code() == Some(&Code::Alert) { st.clone() } else { Status::bad(Some(tag.clone()), None, REFUSED).unwrap() };
        self.s_say(Response::Status(st), false);
        self.resps.push_back(Response::Status(shown));
        let c = self.cmds.pop_front();
        let got = std::mem::take(&mut self.s.plain);
        if !c.as_ref().is_some_and(|c| enc_command(c).starts_with(&got)) { return Err(format!("the server gets {} of {:?}", show(&got), c)); }
        self.lit = L::None;
        Ok(())
    }
    pub fn s_step(&mut self, g: &mut G) -> Result<(), String> {
        if matches!(self.sst, S::NoGreeting) { self.s_greet(g); return Ok(()); }
        if g.s.chance(1, 3) { self.s_unsolicited(g); return Ok(()); }
        if matches!(self.lit, L::Undecided { .. }) && g.s.chance(1, 3) { return self.s_refuse(g); }
        match self.sst.clone() {
            S::IdleAsk { tag } if g.s.chance(1, 3) => { self.s_answer(g, tag); self.sst = S::Normal; }
            S::Auth { tag, asked: false } if g.s.chance(2, 3) => { let c = self.ccr(g); self.s_say(Response::CommandContinuationRequest(c), true); self.sst = S::Auth { tag, asked: true }; }
            _ => { self.s_must(g); }
        }
        Ok(())
    }
    pub fn s_must(&mut self, g: &mut G) -> bool {
        if matches!(self.sst, S::NoGreeting) { self.s_greet(g); return true; }
        if matches!(self.lit, L::Undecided { .. }) { self.s_accept(g); return true; }
        match self.sst.clone() {
            S::Auth { tag, asked: false } => { self.s_answer(g, tag); self.sst = S::Normal; return true; }
            S::IdleAsk { tag } => { let c = self.ccr(g); self.s_say(Response::CommandContinuationRequest(c), true); self.sst = S::Idling { tag }; return true; }
            _ => {}
        }
        if self.pending.is_empty() { return false; }
        let i = g.s.idx(self.pending.len());
        let tag = self.pending.remove(i);
        self.s_answer(g, tag);
        true
    }
    pub fn s_read(&mut self) -> Result<usize, String> {
        let moved = self.s.pump();
        loop {
            if self.s.plain.is_empty() { return Ok(moved); }
            let show = |b: &[u8]| show(b);
            match self.sst.clone() {
                S::NoGreeting => return Err(format!("the server gets {} before it has greeted", show(&self.s.plain))),
                S::Normal => {
                    match &self.lit { L::Undecided { at, .. } if self.s.plain.len() > *at => return Err(format!("the server gets {} although it has not accepted the literal", show(&self.s.plain))), L::Undecided { .. } => return Ok(moved), L::Until(n) if !self.s.plain.iter().skip(*n).any(|b| *b == b'\n') => return Ok(moved), _ => {} }
                    let buf = std::mem::take(&mut self.s.plain);
                    match CommandCodec::default().decode_static(whole(&buf)) {
                        Ok((rest, c)) => {
                            self.s.plain = left(&buf, rest);
                            self.lit = L::None;
                            self.note(|| format!("the server gets {}", show(&enc_command(&c))));
                            self.seen.0 += 1;
                            let want = self.cmds.pop_front();
                            if want.as_ref() != Some(&c) { return Err(format!("the server gets {} instead of {}", show(&enc_command(&c)), want.map(|w| show(&enc_command(&w))).unwrap_or("nothing".into()))); }
                            match c.body { CommandBody::Authenticate { .. } => self.sst = S::Auth { tag: c.tag, asked: false }, CommandBody::Idle => self.sst = S::IdleAsk { tag: c.tag }, _ => self.pending.push(c.tag) }
                        }
                        Err(CommandDecodeError::LiteralFound { tag, length, mode: LiteralMode::Sync }) => {
                            if !buf.ends_with(b"}\r\n") && !buf.ends_with(b"}\n") { return Err(format!("the server gets {} although it has not accepted the literal", show(&buf))); }
                            self.lit = L::Undecided { tag, at: buf.len(), length: length as usize };
                            self.s.plain = buf;
                            return Ok(moved);
                        }
                        Err(CommandDecodeError::Failed) => return Err(format!("the server gets what is not a command: {}", show(&buf))),
                        Err(_) => { self.s.plain = buf; return Ok(moved); }
                    }
                }
                S::Auth { tag, .. } => {
                    let buf = std::mem::take(&mut self.s.plain);
                    match AuthenticateDataCodec::default().decode_static(whole(&buf)) {
                        Ok((rest, d)) => {
                            self.s.plain = left(&buf, rest);
                            self.note(|| "the server gets authentication data".into());
                            self.seen.2 += 1;
                            let want = self.auth.pop_front();
                            if want.as_ref() != Some(&d) { return Err(format!("the server gets {d:?} instead of {want:?}")); }
                            self.sst = S::Auth { tag, asked: false };
                        }
                        Err(AuthenticateDataDecodeError::Incomplete) => { self.s.plain = buf; return Ok(moved); }
                        Err(_) => return Err(format!("the server gets what is not authentication data: {}", show(&buf))),
                    }
                }
                S::IdleAsk { .. } => return Err(format!("the server gets {} before it has decided on IDLE", show(&self.s.plain))),
                S::Idling { tag } => {
                    let buf = std::mem::take(&mut self.s.plain);
                    match IdleDoneCodec::default().decode_static(whole(&buf)) {
                        Ok((rest, _)) => {
                            self.s.plain = left(&buf, rest);
                            self.note(|| "the server gets DONE".into());
                            self.seen.2 += 1;
                            if self.done == 0 && matches!(self.cst, C::IdleWait { done: true, .. }) { self.done = 1; self.early_used = true; }
                            if self.done == 0 { return Err("the server gets DONE, which the client has not said".into()); }
                            self.done -= 1;
                            self.pending.push(tag);
                            self.sst = S::Normal;
                        }
                        Err(IdleDoneDecodeError::Incomplete) => { self.s.plain = buf; return Ok(moved); }
                        Err(_) => return Err(format!("the server gets {} instead of DONE", show(&buf))),
                    }
                }
            }
        }
    }

    /// At rest: whether anything is owed.
    pub fn at_rest(&self) -> Result<(), String> {
        if let Some(c) = self.cmds.front() { return Err(format!("the server never gets {}", show(&enc_command(c)))); }
        if !self.greeted { return Err("the client is not greeted".into()); }
        if let Some(r) = self.resps.front() { return Err(format!("the client never gets {}", show(&enc_response(r)))); }
        if !self.auth.is_empty() { return Err("the server never gets the authentication data".into()); }
        if self.done > 0 { return Err("the server never gets DONE".into()); }
        match &self.cst { C::Free => {} C::Lit(..) => return Err("the client's literal is never accepted".into()), C::TooLong(_) => return Err("the client's literal is never rejected".into()), c => return Err(format!("the client's exchange does not end ({c:?})")) }
        if !matches!(self.sst, S::Normal) || !matches!(self.lit, L::None) || !self.s.plain.is_empty() || !self.c.plain.is_empty() { return Err(format!("a message arrives only in part: client {}, server {}", show(&self.c.plain), show(&self.s.plain))); }
        Ok(())
    }
    pub fn quiet(&self) -> bool { matches!(self.cst, C::Free) && matches!(self.sst, S::Normal) && matches!(self.lit, L::None) && self.cmds.is_empty() && self.resps.is_empty() && self.s.plain.is_empty() && self.c.plain.is_empty() && self.greeted }
}

/// A line that is no command (or, as told, no authentication data, no DONE or none of these) and announces no literal.
pub fn junk_line(g: &mut G, what: u8) -> Vec<u8> {
    if g.secret { return g.secret_junk(true); }
    for _ in 0..20 {
        let mut v = match g.s.below(5) {
            4 => [g.strange(), b"\r\n"].concat(),
            0 => g.s.pick(&[&b"XYZZY\r\n"[..], b"a1\r\n", b"a1 XYZZY\r\n", b"a1 LOGIN x\r\n", b"\r\n", b" \r\n", b"a1 SELECT\r\n", b"* OK no\r\n", b"+ ok\r\n", b"DONE \r\n", b"a1 NOOP \r\n", b"a1  NOOP\r\n", b"\xff\xfe\r\n", b"a1 IDLE x\r\n", b"a+1 NOOP\r\n"]).to_vec(),
            1 => { let c = g.regular(); let mut v = enc_command(&c); g.mutate(&mut v); v }
            2 => g.junk(),
            // ends in a bare line feed, which is never accepted
            _ => { let t = g.tag(); return match what { 0 => format!("{} NOOP\n", t.as_ref()).into_bytes(), 1 | 3 => b"AAAA\n".to_vec(), _ => b"DONE\n".to_vec() }; }
        };
        v.retain(|b| *b != b'{');
        if v.iter().filter(|b| **b == b'\n').count() != 1 || !v.ends_with(b"\r\n") { continue; }
        let c = matches!(CommandCodec::default().decode(&v), Err(CommandDecodeError::Failed));
        let a = matches!(AuthenticateDataCodec::default().decode(&v), Err(AuthenticateDataDecodeError::Failed));
        let d = matches!(IdleDoneCodec::default().decode(&v), Err(IdleDoneDecodeError::Failed));
        if match what { 0 => c, 1 => a, 2 => d, _ => c && a && d } { return v; }
    }
    b"??\r\n".to_vec()
}
/// A line that is no response.
pub fn junk_response(g: &mut G) -> Vec<u8> {
    if g.secret { return g.secret_junk(true); }
    for _ in 0..20 {
        let mut v = match g.s.below(5) {
            4 => [g.strange(), b"\r\n"].concat(),
            0 => g.s.pick(&[&b"* XYZZY\r\n"[..], b"*\r\n", b"+\r\n", b"a1\r\n", b"a1 XYZZY x\r\n", b"\r\n", b"* 1 XYZZY\r\n", b"* FLAGS\r\n", b"* CAPABILITY\r\n", b"DONE\r\n", b"* LIST\r\n"]).to_vec(),
            1 => { let r = g.response(); let mut v = enc_response(&r); g.mutate(&mut v); v }
            2 => g.junk(),
            _ => return format!("* {} EXISTS\n", g.uniq()).into_bytes(),
        };
        v.retain(|b| *b != b'{');
        if v.iter().filter(|b| **b == b'\n').count() != 1 || !v.ends_with(b"\r\n") { continue; }
        if matches!(ResponseCodec::default().decode(&v), Err(ResponseDecodeError::Failed)) { return v; }
    }
    b"??\r\n".to_vec()
}
