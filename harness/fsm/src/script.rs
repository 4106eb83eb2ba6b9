//! Scripts: what is done to a client or server, to be done again to others.
use fsm::{client_model as cm, server_model as sm};
use gen::*;
use imap_next::client::{Client, CommandHandle, Options as COpt};
use imap_next::server::{Options as SOpt, ResponseHandle, Server};
use imap_next::State;
use imap_types::response::Greeting;
use pbt::Src;

#[derive(Clone)]
pub enum Op { In(Vec<u8>), Next, Drain, S(sm::Api), C(cm::Api) }
#[derive(Clone)]
pub enum Kind { S(SOpt, Greeting<'static>), C(bool) }
#[derive(Clone)]
pub struct Script { pub kind: Kind, pub ops: Vec<Op> }
pub enum Inst { S(Server, Vec<ResponseHandle>), C(Client, Vec<CommandHandle>) }

pub fn make(k: &Kind) -> Inst {
    match k {
        Kind::S(o, gr) => Inst::S(Server::new(o.clone(), gr.clone()), vec![]),
        Kind::C(relaxed) => { let mut o = COpt::default(); o.crlf_relaxed = *relaxed; Inst::C(Client::new(o), vec![]) }
    }
}
/// A script of about `len` steps; the reference models run along to know what fits. If `whole`, every message is complete.
pub fn script(g: &mut G, len: usize, whole: bool) -> Script {
    let mut ops = vec![];
    if g.s.bool() {
        let small = g.s.bool();
        let o = crate::server::options(g, small);
        let gr = g.greeting();
        let mut r = sm::Run::new(o.clone(), gr.clone(), false);
        let mut ok = true;
        let p = crate::server::Prof { small, ..crate::server::BASE };
        let mut stream: Vec<u8> = vec![];
        for _ in 0..len {
            let op = match g.s.weighted(&[6, 6, 4, 3, 5]) {
                0 => { g.lits = Lits::Any; let m = crate::server::item(g, r.model.mode, &p, &o); stream.extend(m); continue; }
                1 => { let k = if whole || g.s.bool() { stream.len() } else { g.s.idx(stream.len() + 1) }; Op::In(stream.drain(..k).collect()) }
                2 => Op::Next,
                3 => Op::Drain,
                _ => Op::S(crate::server::api(g, r.model.mode, 1)),
            };
            if ok { ok = match op.clone() { Op::In(b) => { r.input(&b); Ok(()) } Op::Next => r.next().map(|_| ()), Op::Drain => r.drain(), Op::S(a) => r.api(a), Op::C(_) => unreachable!() }.is_ok(); }
            ops.push(op);
        }
        ops.push(Op::In(stream));
        ops.push(Op::Drain);
        Script { kind: Kind::S(o, gr), ops }
    } else {
        let relaxed = g.s.bool();
        let mut o = COpt::default();
        o.crlf_relaxed = relaxed;
        let mut r = cm::Run::new(o, false);
        let mut ok = true;
        let mut stream: Vec<u8> = vec![];
        for _ in 0..len {
            let op = match g.s.weighted(&[6, 6, 4, 3, 5]) {
                0 => { let m = crate::client::item(g, &r.model, &crate::client::BASE); stream.extend(m); continue; }
                1 => { let k = if whole || g.s.bool() { stream.len() } else { g.s.idx(stream.len() + 1) }; Op::In(stream.drain(..k).collect()) }
                2 => Op::Next,
                3 => Op::Drain,
                _ => Op::C(crate::client::api(g, &r.model, &crate::client::BASE)),
            };
            if ok { ok = match op.clone() { Op::In(b) => { r.input(&b); Ok(()) } Op::Next => r.next().map(|_| ()), Op::Drain => r.drain(), Op::C(a) => r.api(a), Op::S(_) => unreachable!() }.is_ok(); }
            ops.push(op);
        }
        ops.push(Op::In(stream));
        ops.push(Op::Drain);
        Script { kind: Kind::C(relaxed), ops }
    }
}

impl Inst {
    /// What one call of `next` gives, and whether it asks for input. Handles are shown by number.
    fn next_text(&mut self) -> (String, bool) {
        match self {
            Inst::S(s, hs) => match sm::observe(s.next()) { sm::Obs::Need => (String::new(), true), sm::Obs::Sent(h, m) => (format!("Sent #{:?} {m:?}", h.map(|h| hs.iter().position(|x| *x == h))), false), o => (format!("{o:?}"), false) },
            Inst::C(c, hs) => match cm::observe(c.next()) { cm::Obs::Need => (String::new(), true), o => { let mut t = format!("{o:?}"); if t.contains("Handle") { for (i, h) in hs.iter().enumerate().rev() { t = t.replace(&format!("{h:?}"), &format!("#{i}")); } } (t, false) } },
        }
    }
    pub fn apply(&mut self, op: &Op, fed: &mut usize, out: &mut Vec<String>) -> Result<(), String> {
        match op {
            Op::In(b) => { *fed += b.len(); match self { Inst::S(s, _) => s.enqueue_input(b), Inst::C(c, _) => c.enqueue_input(b) } }
            Op::Next => out.push(self.next_text().0),
            Op::Drain => { let n = 20_000 + 2 * *fed; for i in 0.. { if i > n { return Err("[HANG] no end".into()); } let (t, need) = self.next_text(); out.push(t); if need { break; } } }
            Op::S(a) => if let Inst::S(s, hs) = self {
                let a = a.clone();
                let h = match a { sm::Api::Data(d) => Some(s.enqueue_data(d)), sm::Api::Status(d) => Some(s.enqueue_status(d)), sm::Api::Ccr(d) => Some(s.enqueue_continuation_request(d)), sm::Api::AuthContinue(d) => s.authenticate_continue(d).ok(), sm::Api::AuthFinish(d) => s.authenticate_finish(d).ok(), sm::Api::IdleAccept(d) => s.idle_accept(d).ok(), sm::Api::IdleReject(d) => s.idle_reject(d).ok() };
                out.push(format!("taken {}", h.is_some()));
                if let Some(h) = h { hs.push(h); }
            },
            Op::C(a) => if let Inst::C(c, hs) = self {
                match a.clone() { cm::Api::Command(d) => { let h = c.enqueue_command(d); hs.push(h) } cm::Api::AuthData(d) => { let h = c.set_authenticate_data(d).ok(); out.push(format!("data for {:?}", h.map(|h| hs.iter().position(|x| *x == h)))) } cm::Api::Done => { let h = c.set_idle_done(); out.push(format!("done for {:?}", h.map(|h| hs.iter().position(|x| *x == h)))) } }
            },
        }
        Ok(())
    }
}
pub fn show_op(o: &Op) -> String { match o { Op::In(b) => format!("input \"{}\"", show(b)), Op::Next => "next".into(), Op::Drain => "drain".into(), Op::S(a) => format!("{a:?}"), Op::C(a) => format!("{a:?}") } }
pub fn show_script(x: &Script) -> String { format!("{}: {}", match &x.kind { Kind::S(o, gr) => format!("server {o:?} {gr:?}"), Kind::C(r) => format!("client relaxed={r}") }, x.ops.iter().map(show_op).collect::<Vec<_>>().join("; ")) }
