//! Reference model of `imap_next::client::Client`.
use std::collections::VecDeque;

use bounded_static::IntoBoundedStatic;
use gen::{enc_auth_data, enc_command, enc_done, segments, show};
use imap_codec::decode::{Decoder, ResponseDecodeError};
use imap_codec::{GreetingCodec, ResponseCodec};
use imap_next::client::{Client, CommandHandle, Error, Event, Options};
use imap_next::{Interrupt, Io, State};
use imap_types::auth::AuthenticateData;
use imap_types::command::{Command, CommandBody};
use imap_types::response::*;

use crate::server_model::ErrKind;

#[derive(Clone, Debug, PartialEq)]
pub enum In { Greeting(Greeting<'static>), Response(Response<'static>) }
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome { In(In, usize), Err(ErrKind, usize), Need }
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Greeting(Greeting<'static>),
    Sent(CommandHandle, Command<'static>),
    Rejected(CommandHandle, Command<'static>, Status<'static>),
    AuthStarted(CommandHandle),
    AuthCcr(CommandHandle, CommandContinuationRequest<'static>),
    AuthStatus(CommandHandle, Command<'static>, Status<'static>),
    IdleSent(CommandHandle),
    IdleAccepted(CommandHandle, CommandContinuationRequest<'static>),
    IdleRejected(CommandHandle, Status<'static>),
    DoneSent(CommandHandle),
    Data(Data<'static>),
    Status(Status<'static>),
    Ccr(CommandContinuationRequest<'static>),
}
#[derive(Debug)]
pub enum Obs { Ev(Ev), Err(ErrKind, Vec<u8>), Output(Vec<u8>), Need }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Command, Auth, Idle }
#[derive(Clone, Debug, PartialEq)]
pub enum Phase {
    /// These bytes are due.
    Sending(Vec<u8>),
    /// All bytes of the segment are out; the literal must be accepted first.
    WaitAccept,
    /// Everything is out, the event is due.
    Report,
    WaitResponse,
    WaitUser,
}
#[derive(Clone, Debug)]
pub struct Cur { pub handle: CommandHandle, pub command: Command<'static>, pub kind: Kind, rest: VecDeque<Vec<u8>>, pub phase: Phase, done: bool }

#[derive(Default, Clone, Debug)]
pub struct Stat { pub received: u64, pub errors: u64, pub sent: u64, pub literals: u64, pub rejected: u64, pub auth_ccr: u64, pub auth_end: u64, pub idle_accepted: u64, pub idle_rejected: u64, pub idle_done: u64, pub refused_api: u64, pub unrelated: u64, pub got_lf: u64, pub literal_msgs: u64, pub pre_greeting: u64 }

pub struct Model { pub strict: bool, pub greeted: bool, pub buf: Vec<u8>, known: std::cell::Cell<usize>, pub queue: VecDeque<(CommandHandle, Command<'static>)>, pub cur: Option<Cur>, pub stat: Stat, pub seen: std::collections::HashSet<CommandHandle> }

impl Model {
    pub fn new(strict: bool) -> Self { Self { strict, greeted: false, buf: vec![], known: Default::default(), queue: VecDeque::new(), cur: None, stat: Stat::default(), seen: Default::default() } }
    pub fn spec(&self) -> Outcome {
        let mut pos = self.known.get();
        loop {
            if pos > self.buf.len() { return Outcome::Need; }
            let Some(p) = self.buf[pos..].iter().position(|b| *b == b'\n') else { return Outcome::Need };
            let lf = pos + p;
            let end = lf + 1;
            if self.strict && (p == 0 || self.buf[lf - 1] != b'\r') { return Outcome::Err(ErrKind::GotLf, end); }
            let m = &self.buf[..end];
            if !self.greeted {
                return match GreetingCodec::default().decode(m) { Ok((_, g)) => Outcome::In(In::Greeting(g.into_static()), end), Err(_) => Outcome::Err(ErrKind::Malformed, end) };
            }
            match ResponseCodec::default().decode(m) {
                Ok((rest, r)) => { assert!(rest.is_empty()); return Outcome::In(In::Response(r.into_static()), end); }
                Err(ResponseDecodeError::LiteralFound { length }) => { pos = end + length as usize; self.known.set(pos); }
                Err(_) => return Outcome::Err(ErrKind::Malformed, end),
            }
        }
    }
    fn start(&mut self) {
        if self.cur.is_none() && self.greeted {
            if let Some((handle, command)) = self.queue.pop_front() {
                let kind = match command.body { CommandBody::Authenticate { .. } => Kind::Auth, CommandBody::Idle => Kind::Idle, _ => Kind::Command };
                let mut rest: VecDeque<Vec<u8>> = if kind == Kind::Command { segments(&command).into() } else { [enc_command(&command)].into() };
                let first = rest.pop_front().unwrap();
                self.cur = Some(Cur { handle, command, kind, rest, phase: Phase::Sending(first), done: false });
            }
        }
    }
    /// The literal at hand is empty: nothing is due before the following line, which is part of the segment.
    fn sent_all(c: &mut Cur) {
        c.phase = match c.kind {
            Kind::Command if !c.rest.is_empty() => Phase::WaitAccept,
            Kind::Auth if c.done => Phase::WaitResponse,
            _ => Phase::Report,
        };
    }
    /// What `status` means to the command under way.
    fn on_status(&mut self, s: Status<'static>) -> Ev {
        let tag = match &s { Status::Tagged(t) => Some(t.tag.clone()), _ => None };
        let kind = s.kind();
        if let Some(c) = &self.cur {
            if tag.as_ref() == Some(&c.command.tag) {
                let (h, cmd) = (c.handle, c.command.clone());
                match (c.kind, &c.phase) {
                    (Kind::Command, Phase::WaitAccept) if kind == Some(StatusKind::Bad) => { self.cur = None; self.stat.rejected += 1; return Ev::Rejected(h, cmd, s); }
                    (Kind::Auth, Phase::WaitResponse | Phase::WaitUser) => { self.cur = None; self.stat.auth_end += 1; return Ev::AuthStatus(h, cmd, s); }
                    (Kind::Idle, Phase::WaitResponse | Phase::WaitUser) => { self.cur = None; self.stat.idle_rejected += 1; return Ev::IdleRejected(h, s); }
                    _ => {}
                }
            }
            self.stat.unrelated += 1;
        }
        Ev::Status(s)
    }
    /// Event due for a continuation request, or none if it is consumed as the acceptance of a literal.
    fn on_ccr(&mut self, r: CommandContinuationRequest<'static>) -> Option<Ev> {
        if let Some(c) = &mut self.cur {
            match (c.kind, &c.phase) {
                (Kind::Command, Phase::WaitAccept) => { self.stat.literals += 1; c.phase = Phase::Sending(c.rest.pop_front().unwrap()); return None; }
                (Kind::Auth, Phase::WaitResponse) => { self.stat.auth_ccr += 1; c.phase = Phase::WaitUser; return Some(Ev::AuthCcr(c.handle, r)); }
                (Kind::Idle, Phase::WaitResponse) => { self.stat.idle_accepted += 1; c.phase = Phase::WaitUser; return Some(Ev::IdleAccepted(c.handle, r)); }
                _ => self.stat.unrelated += 1,
            }
        }
        Some(Ev::Ccr(r))
    }
    /// Takes a continuation request that accepts the literal at hand off the input, if there is one.
    fn accept(&mut self) -> bool {
        if !matches!(self.cur, Some(Cur { phase: Phase::WaitAccept, .. })) { return false; }
        let Outcome::In(In::Response(Response::CommandContinuationRequest(r)), end) = self.spec() else { return false };
        self.buf.drain(..end); self.known.set(0);
        self.stat.received += 1;
        assert!(self.on_ccr(r).is_none());
        true
    }
    fn state(&self) -> String { match &self.cur { None => "no command under way".into(), Some(c) => format!("{} {} {:?}", c.command.tag, c.command.name(), match &c.phase { Phase::Sending(b) => format!("sending \"{}\"", show(b)), p => format!("{p:?}") }) } }
    pub fn observe(&mut self, o: Obs) -> Result<(), String> {
        match o {
            Obs::Output(mut b) => {
                if b.is_empty() { return Err("[OUT] empty output".into()); }
                if !self.greeted { return Err(format!("[OUT] sent \"{}\" before the greeting", show(&b))); }
                while !b.is_empty() {
                    self.start();
                    self.accept();
                    let st = self.state();
                    match &mut self.cur {
                        Some(c) => match &mut c.phase {
                            Phase::Sending(due) if due.starts_with(&b) || b.starts_with(due) => {
                                let n = due.len().min(b.len());
                                due.drain(..n);
                                b.drain(..n);
                                if due.is_empty() { Self::sent_all(c); }
                            }
                            _ => return Err(format!("[OUT] sent \"{}\" with {st}, input \"{}\"", show(&b), show(&self.buf))),
                        },
                        None => return Err(format!("[OUT] sent \"{}\" with nothing to send", show(&b))),
                    }
                }
                Ok(())
            }
            Obs::Need => {
                self.start();
                if let Some(c) = &self.cur {
                    match &c.phase {
                        Phase::Sending(b) => return Err(format!("[STALLO] waits for input although \"{}\" is to be sent", show(b))),
                        Phase::Report => return Err(format!("[STALLO] waits for input although {} was sent and not reported", self.state())),
                        _ => {}
                    }
                }
                match self.spec() { Outcome::Need => Ok(()), x => Err(format!("[STALLR] waits for input although \"{}\" holds {x:?} ({})", show(&self.buf), self.state())) }
            }
            Obs::Err(k, d) => match self.spec() {
                Outcome::Err(x, end) if x == k && self.buf[..end] == d[..] => { self.stat.errors += 1; if k == ErrKind::GotLf { self.stat.got_lf += 1 } self.buf.drain(..end); self.known.set(0); Ok(()) }
                x => Err(format!("[RECV] reported error {k:?} discarding \"{}\"; input \"{}\" holds {x:?}", show(&d), show(&self.buf))),
            },
            Obs::Ev(e) => {
                self.start();
                let cur = self.cur.as_mut();
                let report = |c: &Option<&mut Cur>, k: Kind, h: &CommandHandle| c.as_ref().is_some_and(|c| c.kind == k && c.handle == *h && c.phase == Phase::Report);
                match &e {
                    Ev::Sent(h, cmd) => {
                        if !report(&cur, Kind::Command, h) || cur.unwrap().command != *cmd { return Err(format!("[SENT] reported {e:?} with {}", self.state())); }
                        self.stat.sent += 1;
                        self.cur = None;
                        return Ok(());
                    }
                    Ev::AuthStarted(h) | Ev::IdleSent(h) => {
                        let k = if matches!(e, Ev::AuthStarted(_)) { Kind::Auth } else { Kind::Idle };
                        if !report(&cur, k, h) || cur.as_ref().unwrap().done { return Err(format!("[SENT] reported {e:?} with {}", self.state())); }
                        self.stat.sent += 1;
                        cur.unwrap().phase = Phase::WaitResponse;
                        return Ok(());
                    }
                    Ev::DoneSent(h) => {
                        if !report(&cur, Kind::Idle, h) || !cur.unwrap().done { return Err(format!("[SENT] reported {e:?} with {}", self.state())); }
                        self.stat.idle_done += 1;
                        self.cur = None;
                        return Ok(());
                    }
                    _ => {}
                }
                let before = self.state();
                let (due, end) = match self.spec() {
                    Outcome::In(In::Greeting(g), end) => { self.greeted = true; (Some(Ev::Greeting(g)), end) }
                    Outcome::In(In::Response(r), end) => {
                        if self.buf[..end - 1].contains(&b'\n') { self.stat.literal_msgs += 1; }
                        (match r { Response::Data(d) => Some(Ev::Data(d)), Response::Status(s) => Some(self.on_status(s)), Response::CommandContinuationRequest(c) => self.on_ccr(c) }, end)
                    }
                    x => return Err(format!("[RECV] reported {e:?}; input \"{}\" holds {x:?}", show(&self.buf))),
                };
                if due.as_ref() != Some(&e) { return Err(format!("[RECV] reported {e:?} with {before}; input \"{}\" calls for {due:?}", show(&self.buf))); }
                self.buf.drain(..end); self.known.set(0);
                self.stat.received += 1;
                Ok(())
            }
        }
    }
    pub fn bound(&self) -> usize { 64 + 2 * self.buf.len() + 64 * (self.queue.len() + 2) }
}

pub struct Run { pub client: Client, pub model: Model, pub log: Option<Vec<String>> }

pub fn observe(r: Result<Event, Interrupt<Error>>) -> Obs {
    match r {
        Err(Interrupt::Io(Io::NeedMoreInput)) => Obs::Need,
        Err(Interrupt::Io(Io::Output(b))) => Obs::Output(b),
        Err(Interrupt::Error(Error::ExpectedCrlfGotLf { discarded_bytes })) => Obs::Err(ErrKind::GotLf, discarded_bytes.declassify().to_vec()),
        Err(Interrupt::Error(Error::MalformedMessage { discarded_bytes })) => Obs::Err(ErrKind::Malformed, discarded_bytes.declassify().to_vec()),
        Ok(e) => Obs::Ev(match e {
            Event::GreetingReceived { greeting } => Ev::Greeting(greeting),
            Event::CommandSent { handle, command } => Ev::Sent(handle, command),
            Event::CommandRejected { handle, command, status } => Ev::Rejected(handle, command, status),
            Event::AuthenticateStarted { handle } => Ev::AuthStarted(handle),
            Event::AuthenticateContinuationRequestReceived { handle, continuation_request } => Ev::AuthCcr(handle, continuation_request),
            Event::AuthenticateStatusReceived { handle, command_authenticate, status } => Ev::AuthStatus(handle, command_authenticate.into(), status),
            Event::IdleCommandSent { handle } => Ev::IdleSent(handle),
            Event::IdleAccepted { handle, continuation_request } => Ev::IdleAccepted(handle, continuation_request),
            Event::IdleRejected { handle, status } => Ev::IdleRejected(handle, status),
            Event::IdleDoneSent { handle } => Ev::DoneSent(handle),
            Event::DataReceived { data } => Ev::Data(data),
            Event::StatusReceived { status } => Ev::Status(status),
            Event::ContinuationRequestReceived { continuation_request } => Ev::Ccr(continuation_request),
        }),
    }
}

#[derive(Clone, Debug)]
pub enum Api { Command(Command<'static>), AuthData(AuthenticateData<'static>), Done }

impl Run {
    pub fn new(o: Options, log: bool) -> Self {
        let model = Model::new(!o.crlf_relaxed);
        let log = if log { Some(vec![format!("client strict={}", !o.crlf_relaxed)]) } else { None };
        Self { client: Client::new(o), model, log }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if let Some(l) = &mut self.log { l.push(f()) } }
    pub fn input(&mut self, b: &[u8]) {
        self.note(|| format!("input \"{}\"", show(b)));
        self.client.enqueue_input(b);
        self.model.buf.extend(b);
    }
    pub fn next(&mut self) -> Result<bool, String> {
        let o = observe(self.client.next());
        self.note(|| match &o { Obs::Output(b) => format!("  -> output \"{}\"", show(b)), Obs::Err(k, d) => format!("  -> error {k:?} \"{}\"", show(d)), o => format!("  -> {o:?}") });
        let need = matches!(o, Obs::Need);
        // A literal's acceptance is consumed without an event; it shows by what follows.
        if need { while self.model.accept() && matches!(&self.model.cur, Some(Cur { phase: Phase::Sending(b), .. }) if b.is_empty()) { Model::sent_all(self.model.cur.as_mut().unwrap()); } }
        self.model.observe(o)?;
        Ok(need)
    }
    pub fn drain(&mut self) -> Result<(), String> {
        let n = self.model.bound();
        for _ in 0..n { if self.next()? { return Ok(()); } }
        Err(format!("[HANG] {n} calls of next did not reach a point where the client waits for input"))
    }
    pub fn api(&mut self, a: Api) -> Result<(), String> {
        self.note(|| format!("call {a:?}"));
        match a {
            Api::Command(c) => {
                let h = self.client.enqueue_command(c.clone());
                if !self.model.seen.insert(h) { return Err(format!("[HANDLE] handle {h:?} given twice")); }
                if !self.model.greeted { self.model.stat.pre_greeting += 1; }
                self.model.queue.push_back((h, c));
            }
            Api::AuthData(d) => {
                let bytes = enc_auth_data(&d);
                let r = self.client.set_authenticate_data(d.clone());
                match (&mut self.model.cur, r) {
                    (Some(c @ Cur { kind: Kind::Auth, phase: Phase::WaitUser, .. }), Ok(h)) if h == c.handle => { c.phase = Phase::Sending(bytes); c.done = true; }
                    (Some(Cur { kind: Kind::Auth, phase: Phase::WaitUser, .. }), r) => return Err(format!("[API] set_authenticate_data returned {r:?} although data was asked for")),
                    (_, Ok(h)) => return Err(format!("[API] set_authenticate_data accepted data that nobody asked for ({h:?})")),
                    (_, Err(back)) => { self.model.stat.refused_api += 1; if back != d { return Err(format!("[API] set_authenticate_data returned {back:?} instead of {d:?}")); } }
                }
            }
            Api::Done => {
                let r = self.client.set_idle_done();
                match (&mut self.model.cur, r) {
                    (Some(c @ Cur { kind: Kind::Idle, phase: Phase::WaitUser, .. }), Some(h)) if h == c.handle => { c.phase = Phase::Sending(enc_done()); c.done = true; }
                    (Some(Cur { kind: Kind::Idle, phase: Phase::WaitUser, .. }), r) => return Err(format!("[API] set_idle_done returned {r:?} while idling")),
                    (_, Some(h)) => return Err(format!("[API] set_idle_done succeeded while not idling ({h:?})")),
                    (_, None) => self.model.stat.refused_api += 1,
                }
            }
        }
        Ok(())
    }
    pub fn trace(&self) -> String { self.log.as_ref().map(|l| l.join("\n")).unwrap_or_default() }
}
