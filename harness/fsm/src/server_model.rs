//! Reference model of `imap_next::server::Server`: what may be observed next, given the bytes put in and
//! the calls made so far. Sending and receiving are two independent FIFO channels in the model; how the
//! implementation interleaves them is left open.
use std::collections::VecDeque;

use bounded_static::IntoBoundedStatic;
use gen::{enc_greeting, enc_response, show};
use imap_codec::decode::{CommandDecodeError, Decoder};
use imap_codec::{AuthenticateDataCodec, CommandCodec, IdleDoneCodec};
use imap_next::server::{Error, Event, Options, ResponseHandle, Server};
use imap_next::{Interrupt, Io, State};
use imap_types::auth::AuthenticateData;
use imap_types::command::{Command, CommandBody};
use imap_types::core::{LiteralMode, Tag};
use imap_types::response::*;
use imap_types::secret::Secret;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode { Command, Auth, IdleAccept, IdleDone }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrKind { GotLf, Malformed, LiteralTooLong, TooLong }
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Command(Command<'static>), Auth(Command<'static>), Data(AuthenticateData<'static>), Idle(Tag<'static>), Done }
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome { Ev(Ev, usize), Err(ErrKind, usize), Need }
#[derive(Clone, Debug, PartialEq)]
pub enum Msg { Greeting(Greeting<'static>), Response(Response<'static>) }
/// One thing seen from outside.
#[derive(Debug)]
pub enum Obs { Ev(Ev), Err(ErrKind, Vec<u8>), Sent(Option<ResponseHandle>, Msg), Output(Vec<u8>), Need }

pub struct Model {
    pub limit: usize,
    pub max_lit: u32,
    pub strict: bool,
    accept: Vec<u8>,
    reject: String,
    pub buf: Vec<u8>,
    pub mode: Mode,
    queue: VecDeque<(Option<ResponseHandle>, Msg, Vec<u8>)>,
    confirm: VecDeque<(Option<ResponseHandle>, Msg)>,
    out: Vec<u8>,
    greeting_out: bool,
    owed: VecDeque<Vec<u8>>,
    emitted: usize,
    /// How far the message at the front is known to be incomplete, and the replies due by then.
    known: std::cell::RefCell<(usize, Vec<Vec<u8>>)>,
    pub stat: Stat,
    pub seen: std::collections::HashSet<ResponseHandle>,
}
#[derive(Default, Clone, Debug)]
pub struct Stat { pub commands: u64, pub errors: u64, pub accepts: u64, pub rejects: u64, pub sent: u64, pub auth: u64, pub auth_data: u64, pub idle: u64, pub done: u64, pub literal_cmds: u64, pub too_long: u64, pub got_lf: u64, pub refused_api: u64, pub pipelined: u64 }

impl Model {
    pub fn new(o: &Options, greeting: Greeting<'static>) -> Self {
        let accept = enc_response(&Response::CommandContinuationRequest(CommandContinuationRequest::basic(None, o.literal_accept_text().as_ref().to_owned()).unwrap()));
        let bytes = enc_greeting(&greeting);
        Self {
            limit: o.max_command_size as usize, max_lit: o.max_literal_size, strict: !o.crlf_relaxed, accept, reject: o.literal_reject_text().as_ref().to_owned(), buf: vec![], mode: Mode::Command,
            queue: [(None, Msg::Greeting(greeting), bytes)].into(), confirm: VecDeque::new(), out: vec![], greeting_out: false, owed: VecDeque::new(), emitted: 0, known: Default::default(), stat: Stat::default(), seen: Default::default(),
        }
    }
    /// Replies due for the message at the front of the input, and how that message ends.
    pub fn spec(&self) -> (Vec<Vec<u8>>, Outcome) {
        if self.mode == Mode::IdleAccept { return (vec![], Outcome::Need); }
        let (mut pos, mut replies) = self.known.borrow().clone();
        let readable = self.buf.len().min(self.limit);
        let full = self.buf.len() >= self.limit;
        let stuck = if full { Outcome::Err(ErrKind::TooLong, self.limit) } else { Outcome::Need };
        loop {
            if pos > readable { return (replies, stuck); }
            let Some(p) = self.buf[pos..readable].iter().position(|b| *b == b'\n') else { return (replies, stuck) };
            let lf = pos + p;
            let end = lf + 1;
            if self.strict && (p == 0 || self.buf[lf - 1] != b'\r') { return (replies, Outcome::Err(ErrKind::GotLf, end)); }
            let m = &self.buf[..end];
            let ev = match self.mode {
                Mode::Command => match CommandCodec::default().decode(m) {
                    Ok((rest, c)) => {
                        assert!(rest.is_empty());
                        let c = c.into_static();
                        Some(match c.body { CommandBody::Authenticate { .. } => Ev::Auth(c), CommandBody::Idle => Ev::Idle(c.tag), _ => Ev::Command(c) })
                    }
                    Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
                        if length > self.max_lit {
                            if mode == LiteralMode::Sync { replies.push(enc_response(&Response::Status(Status::bad(Some(tag), None, self.reject.as_str()).unwrap()))); }
                            return (replies, Outcome::Err(ErrKind::LiteralTooLong, end));
                        }
                        if mode == LiteralMode::Sync { replies.push(self.accept.clone()); }
                        pos = end + length as usize;
                        *self.known.borrow_mut() = (pos, replies.clone());
                        continue;
                    }
                    Err(_) => None,
                },
                Mode::Auth => AuthenticateDataCodec::default().decode(m).ok().map(|(_, d)| Ev::Data(d.into_static())),
                Mode::IdleDone => IdleDoneCodec::default().decode(m).ok().map(|_| Ev::Done),
                Mode::IdleAccept => unreachable!(),
            };
            return (replies, match ev { Some(e) => Outcome::Ev(e, end), None => Outcome::Err(ErrKind::Malformed, end) });
        }
    }
    pub fn enqueue(&mut self, h: ResponseHandle, r: Response<'static>) {
        let b = enc_response(&r);
        self.queue.push_back((Some(h), Msg::Response(r), b));
    }
    fn take(&mut self, end: usize, replies: Vec<Vec<u8>>) {
        self.owed.extend(replies.into_iter().skip(self.emitted));
        self.emitted = 0;
        *self.known.borrow_mut() = Default::default();
        self.buf.drain(..end);
    }
    /// Checks one observation.
    pub fn observe(&mut self, o: Obs) -> Result<(), String> {
        match o {
            Obs::Output(b) => {
                if b.is_empty() { return Err("[OUT] empty output".into()); }
                self.out.extend(b);
                loop {
                    if self.out.is_empty() { return Ok(()); }
                    let (replies, _) = self.spec();
                    let front = self.queue.front().map(|q| &q.2);
                    let reply = if !self.greeting_out { None } else { self.owed.front().or(replies.get(self.emitted)) };
                    if front.is_some_and(|m| self.out.starts_with(m)) {
                        let (h, m, b) = self.queue.pop_front().unwrap();
                        self.out.drain(..b.len());
                        self.greeting_out = true;
                        self.confirm.push_back((h, m));
                    } else if let Some(r) = reply.filter(|r| self.out.starts_with(r)) {
                        let n = r.len();
                        if r.starts_with(b"+") { self.stat.accepts += 1 } else { self.stat.rejects += 1 }
                        self.out.drain(..n);
                        if self.owed.pop_front().is_none() { self.emitted += 1; }
                    } else if front.is_some_and(|m| m.starts_with(&self.out)) || reply.is_some_and(|m| m.starts_with(&self.out)) {
                        return Ok(());
                    } else {
                        return Err(format!("[OUT] sent \"{}\"; due are response {} and reply {}", show(&self.out), front.map_or("none".into(), |m| format!("\"{}\"", show(m))), reply.map_or("none".into(), |m| format!("\"{}\"", show(m)))));
                    }
                }
            }
            Obs::Sent(h, m) => {
                self.stat.sent += 1;
                match self.confirm.pop_front() {
                    Some((eh, em)) if eh == h && em == m => Ok(()),
                    e => Err(format!("[SENT] reported as sent: {h:?} {m:?}; written and not yet reported: {e:?}")),
                }
            }
            Obs::Need => {
                if !self.out.is_empty() { return Err(format!("[OUT] waits for input in the middle of a message, sent so far \"{}\"", show(&self.out))); }
                if let Some(q) = self.queue.front() { return Err(format!("[STALLO] waits for input although \"{}\" is queued", show(&q.2))); }
                if let Some(c) = self.confirm.front() { return Err(format!("[STALLO] waits for input although the sending of {c:?} was not reported")); }
                let (replies, outcome) = self.spec();
                if let Some(r) = self.owed.front().or(replies.get(self.emitted)) { return Err(format!("[STALLO] waits for input although the reply \"{}\" is due", show(r))); }
                if outcome != Outcome::Need { return Err(format!("[STALLR] waits for input although the input \"{}\" holds {outcome:?} (mode {:?})", show(&self.buf), self.mode)); }
                Ok(())
            }
            Obs::Ev(e) => {
                let (replies, outcome) = self.spec();
                match outcome {
                    Outcome::Ev(x, end) if x == e => {
                        if end < self.buf.len() { self.stat.pipelined += 1; }
                        match &x {
                            Ev::Command(_) => { self.stat.commands += 1; if self.buf[..end - 1].contains(&b'\n') { self.stat.literal_cmds += 1; } }
                            Ev::Auth(_) => { self.stat.auth += 1; self.mode = Mode::Auth; }
                            Ev::Data(_) => self.stat.auth_data += 1,
                            Ev::Idle(_) => { self.stat.idle += 1; self.mode = Mode::IdleAccept; }
                            Ev::Done => { self.stat.done += 1; self.mode = Mode::Command; }
                        }
                        self.take(end, replies);
                        Ok(())
                    }
                    x => Err(format!("[RECV] reported {e:?}; input \"{}\" in mode {:?} holds {x:?}", show(&self.buf), self.mode)),
                }
            }
            Obs::Err(k, d) => {
                let (replies, outcome) = self.spec();
                match outcome {
                    Outcome::Err(x, end) if x == k && self.buf[..end] == d[..] => {
                        self.stat.errors += 1;
                        if k == ErrKind::TooLong { self.stat.too_long += 1 }
                        if k == ErrKind::GotLf { self.stat.got_lf += 1 }
                        self.take(end, replies);
                        Ok(())
                    }
                    x => Err(format!("[RECV] reported error {k:?} discarding \"{}\"; input \"{}\" in mode {:?} holds {x:?}", show(&d), show(&self.buf), self.mode)),
                }
            }
        }
    }
    /// How much may be observed before the server has to wait, generously.
    pub fn bound(&self) -> usize { 64 + 2 * self.buf.len() + 4 * (self.queue.len() + self.confirm.len() + self.owed.len()) }
    pub fn idle_now(&self) -> bool { self.queue.is_empty() && self.confirm.is_empty() && self.out.is_empty() && self.owed.is_empty() }
}

/// The real server next to its model.
pub struct Run { pub server: Server, pub model: Model, pub log: Option<Vec<String>> }

pub fn observe(r: Result<Event, Interrupt<Error>>) -> Obs {
    let secret = |d: &Secret<Box<[u8]>>| d.declassify().to_vec();
    match r {
        Ok(Event::GreetingSent { greeting }) => Obs::Sent(None, Msg::Greeting(greeting)),
        Ok(Event::ResponseSent { handle, response }) => Obs::Sent(Some(handle), Msg::Response(response)),
        Ok(Event::CommandReceived { command }) => Obs::Ev(Ev::Command(command)),
        Ok(Event::CommandAuthenticateReceived { command_authenticate: c }) => Obs::Ev(Ev::Auth(Command { tag: c.tag, body: CommandBody::Authenticate { mechanism: c.mechanism, initial_response: c.initial_response } })),
        Ok(Event::AuthenticateDataReceived { authenticate_data }) => Obs::Ev(Ev::Data(authenticate_data)),
        Ok(Event::IdleCommandReceived { tag }) => Obs::Ev(Ev::Idle(tag)),
        Ok(Event::IdleDoneReceived) => Obs::Ev(Ev::Done),
        Err(Interrupt::Io(Io::NeedMoreInput)) => Obs::Need,
        Err(Interrupt::Io(Io::Output(b))) => Obs::Output(b),
        Err(Interrupt::Error(e)) => match &e {
            Error::ExpectedCrlfGotLf { discarded_bytes } => Obs::Err(ErrKind::GotLf, secret(discarded_bytes)),
            Error::MalformedMessage { discarded_bytes } => Obs::Err(ErrKind::Malformed, secret(discarded_bytes)),
            Error::LiteralTooLong { discarded_bytes } => Obs::Err(ErrKind::LiteralTooLong, secret(discarded_bytes)),
            Error::CommandTooLong { discarded_bytes } => Obs::Err(ErrKind::TooLong, secret(discarded_bytes)),
        },
    }
}

/// A server user's call.
#[derive(Clone, Debug)]
pub enum Api { Data(Data<'static>), Status(Status<'static>), Ccr(CommandContinuationRequest<'static>), AuthContinue(CommandContinuationRequest<'static>), AuthFinish(Status<'static>), IdleAccept(CommandContinuationRequest<'static>), IdleReject(Status<'static>) }

impl Run {
    pub fn new(o: Options, greeting: Greeting<'static>, log: bool) -> Self {
        let model = Model::new(&o, greeting.clone());
        let mut r = Self { server: Server::new(o.clone(), greeting.clone()), model, log: None };
        if log { r.log = Some(vec![format!("server strict={} max_literal={} max_command={} greeting={:?}", !o.crlf_relaxed, o.max_literal_size, o.max_command_size, show(&enc_greeting(&greeting)))]); }
        r
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if let Some(l) = &mut self.log { l.push(f()) } }
    pub fn input(&mut self, b: &[u8]) {
        self.note(|| format!("input \"{}\"", show(b)));
        self.server.enqueue_input(b);
        self.model.buf.extend(b);
    }
    /// One call of `next`; true if the server waits for input.
    pub fn next(&mut self) -> Result<bool, String> {
        let o = observe(self.server.next());
        self.note(|| match &o { Obs::Output(b) => format!("  -> output \"{}\"", show(b)), Obs::Err(k, d) => format!("  -> error {k:?} \"{}\"", show(d)), o => format!("  -> {o:?}") });
        let need = matches!(o, Obs::Need);
        self.model.observe(o)?;
        Ok(need)
    }
    pub fn drain(&mut self) -> Result<(), String> {
        let n = self.model.bound();
        for _ in 0..n { if self.next()? { return Ok(()); } }
        Err(format!("[HANG] {n} calls of next did not reach a point where the server waits for input"))
    }
    fn fresh(&mut self, h: ResponseHandle, r: Response<'static>) -> Result<(), String> {
        if !self.model.seen.insert(h) { return Err(format!("[HANDLE] handle {h:?} given twice")); }
        self.model.enqueue(h, r);
        Ok(())
    }
    pub fn api(&mut self, a: Api) -> Result<(), String> {
        self.note(|| format!("call {a:?}"));
        let mode = self.model.mode;
        let ccr = |c: CommandContinuationRequest<'static>| Response::CommandContinuationRequest(c);
        macro_rules! guarded { ($call:ident, $arg:expr, $ok:expr, $wrap:expr, $then:expr) => {{
            let arg = $arg;
            match self.server.$call(arg.clone()) {
                Ok(h) if $ok => { self.fresh(h, $wrap(arg))?; if let Some(m) = $then { self.model.mode = m; } }
                Ok(_) => return Err(format!("[API] {} succeeded in mode {mode:?}", stringify!($call))),
                Err(_) if $ok => return Err(format!("[API] {} refused in mode {mode:?}", stringify!($call))),
                Err(back) => { self.model.stat.refused_api += 1; if back != arg { return Err(format!("[API] {} returned {back:?} instead of its argument {arg:?}", stringify!($call))); } }
            }
        }} }
        match a {
            Api::Data(d) => { let h = self.server.enqueue_data(d.clone()); self.fresh(h, Response::Data(d))?; }
            Api::Status(d) => { let h = self.server.enqueue_status(d.clone()); self.fresh(h, Response::Status(d))?; }
            Api::Ccr(d) => { let h = self.server.enqueue_continuation_request(d.clone()); self.fresh(h, ccr(d))?; }
            Api::AuthContinue(c) => guarded!(authenticate_continue, c, mode == Mode::Auth, ccr, None::<Mode>),
            Api::AuthFinish(s) => guarded!(authenticate_finish, s, mode == Mode::Auth, Response::Status, Some(Mode::Command)),
            Api::IdleAccept(c) => guarded!(idle_accept, c, mode == Mode::IdleAccept, ccr, Some(Mode::IdleDone)),
            Api::IdleReject(s) => guarded!(idle_reject, s, mode == Mode::IdleAccept, Response::Status, Some(Mode::Command)),
        }
        Ok(())
    }
    pub fn trace(&self) -> String { self.log.as_ref().map(|l| l.join("\n")).unwrap_or_default() }
}
