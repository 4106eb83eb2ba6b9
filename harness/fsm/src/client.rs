use fsm::client_model::*;
use fsm::server_model::ErrKind;
use gen::*;
use imap_next::client::Options;
use imap_types::command::Command;
use imap_types::core::*;
use imap_types::response::*;
use pbt::{Case, Src};

use crate::only;

#[derive(Clone, Copy)]
pub struct Prof {
    /// What the user enqueues.
    pub reg: u64, pub auth: u64, pub idle: u64,
    /// What the server sends.
    pub resp: u64, pub status: u64, pub ccr: u64, pub bad: u64, pub junk: u64,
    pub lf: u64,
    pub lits: Lits, pub lit_rate: u64,
    pub wrong: u64,
    /// How often, of 8, the server reacts to what the client is doing.
    pub fit: u64,
    pub pre: u64,
}
pub const BASE: Prof = Prof { reg: 6, auth: 2, idle: 2, resp: 6, status: 3, ccr: 1, bad: 1, junk: 1, lf: 10, lits: Lits::Any, lit_rate: 3, wrong: 1, fit: 5, pre: 4 };

pub fn options(relaxed: bool) -> Options { let mut o = Options::default(); o.crlf_relaxed = relaxed; o }

fn enc(r: Response) -> Vec<u8> { enc_response(&r) }

/// A message a server might send now.
pub fn item(g: &mut G, m: &Model, p: &Prof) -> Vec<u8> {
    g.lits = Lits::Sync;
    let tag_now = m.cur.as_ref().map(|c| c.command.tag.clone());
    let fit = m.greeted && m.cur.is_some() && g.s.chance(p.fit, 8);
    let mut v = if !m.greeted {
        match g.s.weighted(&[10, p.bad, p.junk, 1]) { 0 => enc_greeting(&g.greeting()), 1 => { let mut v = enc_greeting(&g.greeting()); g.mutate(&mut v); v.extend(b"\r\n"); v } 2 => g.junk(), _ => enc(g.response()) }
    } else if fit {
        let tag = tag_now.clone().unwrap();
        let c = m.cur.as_ref().unwrap();
        match (c.kind, g.s.below(8)) {
            (_, 0) => enc(Response::Status(g.status(None))),
            (_, 1) => { let t = other_tag(g, m); enc(Response::Status(g.status(Some(t)))) }
            (Kind::Command, 2) => enc(Response::Status(g.status(Some(tag)))),
            (Kind::Command, 3) => enc(Response::Status(g.status_of(Some(tag), StatusKind::Bad))),
            (_, 2 | 3) => enc(Response::Status(g.status(Some(tag)))),
            _ => enc(Response::CommandContinuationRequest(g.ccr())),
        }
    } else {
        match g.s.weighted(&[p.resp, p.status, p.ccr, p.bad, p.junk]) {
            0 => enc(Response::Data(g.data())),
            1 => if g.s.bool() { let t = other_tag(g, m); enc(Response::Status(g.status(Some(t)))) } else { enc(Response::Status(g.any_status())) },
            2 => enc(Response::CommandContinuationRequest(g.ccr())),
            3 => { let mut v = enc(g.response()); g.mutate(&mut v); if !v.ends_with(b"\n") && g.s.chance(3, 4) { v.extend(b"\r\n"); } v }
            _ => g.junk(),
        }
    };
    if g.s.chance(1, p.lf) { g.relax(&mut v); }
    v
}
/// A tag that resembles, but need not be, one the client uses.
fn other_tag(g: &mut G, m: &Model) -> Tag<'static> {
    let known: Vec<Tag> = m.cur.iter().map(|c| c.command.tag.clone()).chain(m.queue.iter().map(|q| q.1.tag.clone())).collect();
    if known.is_empty() || g.s.chance(1, 4) { return g.tag(); }
    let t = g.s.pick(&known).as_ref().to_owned();
    let t = match g.s.below(6) { 0 => t, 1 => t.to_ascii_uppercase(), 2 => t.to_ascii_lowercase(), 3 => format!("{t}0"), 4 if t.len() > 1 => t[..t.len() - 1].to_owned(), _ => format!("A{t}") };
    Tag::try_from(t).unwrap()
}

fn command(g: &mut G, p: &Prof) -> Command<'static> {
    g.lits = p.lits;
    match g.s.weighted(&[p.reg, p.auth, p.idle]) { 0 => g.regular(), 1 => g.authenticate(), _ => g.idle() }
}
pub fn api(g: &mut G, m: &Model, p: &Prof) -> Api {
    let asked = matches!(&m.cur, Some(Cur { phase: Phase::WaitUser, .. }));
    if asked && g.s.chance(2, 3) || g.s.chance(p.wrong, 10) {
        let auth = match &m.cur { Some(c) if g.s.chance(9, 10) => c.kind == Kind::Auth, _ => g.s.bool() };
        return if auth { Api::AuthData(g.authenticate_data()) } else { Api::Done };
    }
    Api::Command(command(g, p))
}

fn history(s: &mut Src, case: &mut Case, p: Prof) -> Result<Run, (Run, String)> {
    let mut g = G::new(s);
    g.same_tags = true;
    g.lit_rate = p.lit_rate;
    let mut r = Run::new(options(g.s.bool()), case.want_sample || case.verbose);
    let steps = 4 + steps(g.s, 44);
    let mut stream: Vec<u8> = vec![];
    let mut go = |r: &mut Run| -> Result<(), String> {
        for _ in 0..g.s.idx(p.pre as usize) { let c = command(&mut g, &p); r.api(Api::Command(c))?; if g.s.bool() { r.next()?; } }
        for _ in 0..steps {
            match g.s.weighted(&[6, 6, 4, 4, 5]) {
                0 => { let m = item(&mut g, &r.model, &p); stream.extend(m); }
                1 => { let k = if g.s.bool() { stream.len() } else { (1 + g.s.size(30) * (1 + stream.len() / 2000)).min(stream.len()) }; if k > 0 { let c: Vec<u8> = stream.drain(..k).collect(); r.input(&c); } else if g.s.chance(1, 10) { r.input(b""); } }
                2 => { let k = g.s.range(1, 4); for _ in 0..k { r.next()?; } }
                3 => r.drain()?,
                _ => { let a = api(&mut g, &r.model, &p); r.api(a)?; }
            }
        }
        let c = std::mem::take(&mut stream);
        r.input(&c);
        r.drain()?;
        Ok(())
    };
    let res = go(&mut r);
    case.sample(|| r.trace());
    let st = &r.model.stat;
    case.count("received", st.received);
    case.count("errors", st.errors);
    case.count("sent", st.sent);
    case.count("literals", st.literals);
    case.count("rejected", st.rejected);
    case.count("auth", st.auth_end);
    case.count("idle", st.idle_done + st.idle_rejected);
    match res { Ok(()) => Ok(r), Err(m) => Err((r, m)) }
}
fn judge(res: Result<Run, (Run, String)>, case: &mut Case, kinds: &[&str], nontrivial: impl Fn(&Stat) -> bool) -> Result<(), String> {
    match res {
        Ok(r) => { case.nontrivial = nontrivial(&r.model.stat); Ok(()) }
        Err((_, m)) => { case.nontrivial = true; only(kinds, Err(m)) }
    }
}
const ALL: &[&str] = &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"];

pub fn p02(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { bad: 3, junk: 2, resp: 12, lit_rate: 2, ..BASE });
    judge(r, c, &["RECV", "STALLR"], |t| t.received + t.errors >= 3 && (t.errors > 0 || t.literal_msgs > 0))
}
pub fn p03(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { bad: 1, junk: 0, lf: 2, ..BASE });
    let relaxed = match &r { Ok(r) => !r.model.strict, Err((r, _)) => !r.model.strict };
    judge(r, c, &["RECV", "STALLR"], |t| t.received >= 1 && (t.got_lf > 0 || relaxed))
}
pub fn p09(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { pre: 8, fit: 6, ..BASE });
    judge(r, c, &["OUT", "SENT", "STALLO", "HANDLE"], |t| t.sent + t.rejected >= 2 && t.pre_greeting > 0)
}
pub fn p10(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { reg: 14, auth: 1, idle: 1, lit_rate: 1, fit: 6, bad: 1, junk: 0, ..BASE });
    judge(r, c, ALL, |t| t.literals + t.rejected > 0)
}
pub fn p11(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { auth: 14, reg: 3, idle: 1, fit: 6, wrong: 3, bad: 1, junk: 0, ..BASE });
    judge(r, c, ALL, |t| t.auth_ccr > 0)
}
pub fn p12(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { idle: 14, reg: 3, auth: 1, fit: 6, wrong: 3, bad: 1, junk: 0, ..BASE });
    judge(r, c, ALL, |t| t.idle_done + t.idle_rejected > 0)
}
pub fn p13(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { resp: 10, status: 8, ccr: 3, fit: 4, ..BASE });
    judge(r, c, &["RECV", "STALLR"], |t| t.received >= 3 && t.unrelated > 0)
}
pub fn p14(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { reg: 10, fit: 6, lit_rate: 2, ..BASE });
    judge(r, c, &["STALLR", "STALLO"], |t| t.sent + t.rejected >= 2)
}
pub fn p16(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { bad: 10, junk: 10, lf: 4, wrong: 3, ..BASE });
    judge(r, c, ALL, |t| t.errors >= 2 && t.received > 0)
}

/// A client and a server that is told the size of a literal, up to the largest number there is, of which only a part arrives.
pub fn p16_announced(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.same_tags = true;
    let length = match g.s.below(4) { 0 => u32::MAX - g.s.size(300) as u32, 1 => (1u32 << g.s.range(8, 31)) - g.s.idx(40) as u32, 2 => (i32::MAX as u32 - 100) + g.s.idx(200) as u32, _ => 1 + g.s.size(1 << 31) as u32 };
    let server = g.s.bool();
    let before = g.s.idx(3);
    let (lit, fill) = (g.s.idx(4), *g.s.pick(&[&b"x"[..], b"ab ", b"\r\n", b")\r\n", b"\0\xff"]));
    let chunks: Vec<Vec<u8>> = (0..g.s.idx(8)).map(|_| { let n = if g.s.chance(1, 6) { g.s.size(20_000) } else { g.s.size(120) }; fill.iter().cycle().take(n.min(length as usize - 1)).copied().collect() }).collect();
    let mut left = length as usize - 1;
    let chunks: Vec<Vec<u8>> = chunks.into_iter().map(|mut b| { b.truncate(left); left -= b.len(); b }).collect();
    c.nontrivial = true;
    c.count(if server { "server" } else { "client" }, 1);
    let keep = c.want_sample || c.verbose;
    macro_rules! go { ($r:expr, $start:expr, $bytes:expr) => {{
        let mut r = $r;
        r.drain()?;
        for b in $start { for ch in g.split(&b) { r.input(&ch); } r.drain()?; }
        for ch in g.split(&$bytes) { r.input(&ch); if g.s.bool() { r.drain()?; } }
        let mut res = r.drain();
        for b in &chunks { if res.is_ok() { r.input(b); res = r.drain(); } }
        c.sample(|| r.trace());
        res
    }} }
    if server {
        let mut o = imap_next::server::Options::default();
        o.crlf_relaxed = g.s.bool();
        o.max_literal_size = match g.s.below(4) { 0 => length - 1, 1 => u32::MAX, 2 => length, _ => o.max_literal_size };
        o.max_command_size = if g.s.bool() { u32::MAX } else { length.saturating_add(1000).max(1000) };
        // (what follows a refused literal is read as commands: bytes without a line end)
        let plus = if g.s.bool() { "+" } else { "" };
        let pre = match lit { 0 => "LOGIN ", 1 => "APPEND INBOX ", 2 => "LOGIN {3+}\r\nabc ", _ => "ID (\"a\" " };
        let b = format!("a {pre}{{{length}{plus}}}\r\n").into_bytes();
        let start: Vec<Vec<u8>> = (0..before).map(|_| { g.lits = Lits::NonSync; let x = g.regular(); enc_command(&x) }).collect();
        let greeting = g.greeting();
        only(&["RECV", "STALLR", "STALLO", "OUT"], go!(fsm::server_model::Run::new(o, greeting, keep), start, b))
    } else {
        let relaxed = g.s.bool();
        let pre = match lit { 0 => "* 1 FETCH (RFC822 ", 1 => "* LIST () \"/\" ", 2 => "* 1 FETCH (RFC822.HEADER {3}\r\nabc RFC822 ", _ => "* ID (\"a\" " };
        let b = format!("{pre}{{{length}}}\r\n").into_bytes();
        let gr = g.greeting();
        let start: Vec<Vec<u8>> = std::iter::once(enc_greeting(&gr)).chain((0..before).map(|_| { let d = g.data(); enc_response(&Response::Data(d)) })).collect();
        only(ALL, go!(Run::new(options(relaxed), keep), start, b))
    }
}

pub fn p01(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.same_tags = true;
    let relaxed = g.s.bool();
    let p = BASE;
    struct R { client: imap_next::client::Client, handles: Vec<imap_next::client::CommandHandle>, events: Vec<String>, outs: Vec<Vec<u8>>, fed: usize }
    impl R {
        fn take(&mut self) -> bool {
            match observe(imap_next::State::next(&mut self.client)) {
                Obs::Need => return true,
                Obs::Output(b) => self.outs.last_mut().unwrap().extend(b),
                o => {
                    // handles differ between instances: shown as the number of the command
                    let mut t = format!("{o:?}");
                    for (i, h) in self.handles.iter().enumerate().rev() { t = t.replace(&format!("{h:?}"), &format!("#{i}")); }
                    self.events.push(t);
                }
            }
            false
        }
        fn drain(&mut self) -> Result<(), String> { for _ in 0..20_000 + 2 * self.fed { if self.take() { return Ok(()); } } Err("[HANG] no end".into()) }
        fn api(&mut self, a: &Api) {
            match a.clone() {
                Api::Command(d) => { let h = self.client.enqueue_command(d); self.handles.push(h) }
                Api::AuthData(d) => { let ok = self.client.set_authenticate_data(d).is_ok(); self.events.push(format!("auth data {ok}")) }
                Api::Done => { let ok = self.client.set_idle_done().is_some(); self.events.push(format!("done {ok}")) }
            }
        }
    }
    let new = || R { client: imap_next::client::Client::new(options(relaxed)), handles: vec![], events: vec![], outs: vec![vec![]], fed: 0 };
    let mut a = new();
    let mut modes = Run::new(options(relaxed), false);
    let mut model_ok = true;
    let mut script: Vec<(Vec<Api>, Vec<u8>)> = vec![];
    let rounds = 2 + steps(g.s, 10) / if SCALE.get() == Scale::Long { 8 } else { 1 };
    for _ in 0..rounds {
        let apis: Vec<Api> = (0..g.s.idx(3)).map(|_| api(&mut g, &modes.model, &p)).collect();
        let n = g.s.idx(4);
        for x in &apis { a.api(x); if model_ok { model_ok = modes.api(x.clone()).is_ok(); } }
        if model_ok { model_ok = modes.drain().is_ok(); }
        let mut bytes = vec![];
        for _ in 0..n { bytes.extend(item(&mut g, &modes.model, &p)); }
        if g.s.chance(1, 4) { let cut = g.s.idx(bytes.len() + 1); bytes.truncate(cut); }
        a.fed += bytes.len(); imap_next::State::enqueue_input(&mut a.client, &bytes);
        if model_ok { modes.input(&bytes); model_ok = modes.drain().is_ok(); }
        a.drain()?;
        a.outs.push(vec![]);
        script.push((apis, bytes));
    }
    let mut inside = 0;
    for variant in 0..3 {
        let mut b = new();
        for (apis, bytes) in &script {
            for x in apis { b.api(x); }
            let chunks: Vec<Vec<u8>> = if variant == 0 { bytes.chunks(1 + bytes.len() / 4000).map(|x| x.to_vec()).collect() } else { g.split(bytes) };
            inside += u64::from(chunks.len() > 1);
            for ch in chunks {
                b.fed += ch.len(); imap_next::State::enqueue_input(&mut b.client, &ch);
                if variant == 0 { b.drain()?; } else { for _ in 0..g.s.idx(5) { if b.take() && g.s.bool() { break; } } }
            }
            b.drain()?;
            b.outs.push(vec![]);
        }
        if a.events != b.events || a.outs != b.outs {
            c.nontrivial = true;
            c.sample(|| format!("relaxed {relaxed}\nscript {:?}\nat once {:?} {:?}\ncut     {:?} {:?}", script.iter().map(|(a, b)| format!("calls {a:?} then \"{}\"", show(b))).collect::<Vec<_>>(), a.events, a.outs.iter().map(|x| show(x)).collect::<Vec<_>>(), b.events, b.outs.iter().map(|x| show(x)).collect::<Vec<_>>()));
            return Err(format!("[RECV] the observations depend on how the input is cut: variant {variant}"));
        }
    }
    c.nontrivial = a.events.len() >= 2 && inside >= 2;
    c.count("events", a.events.len() as u64);
    c.sample(|| format!("relaxed {relaxed} {:?}", script.iter().map(|(a, b)| format!("{} calls, \"{}\"", a.len(), show(b))).collect::<Vec<_>>()));
    let _ = ErrKind::GotLf;
    Ok(())
}
