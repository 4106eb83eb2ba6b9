use fsm::server_model::*;
use gen::*;
use imap_next::server::Options;
use imap_types::command::CommandBody;
use imap_types::core::*;
use imap_types::response::*;
use pbt::{Case, Src};

use crate::only;

/// Weights of what a generated history contains.
#[derive(Clone, Copy)]
pub struct Prof {
    pub reg: u64, pub auth: u64, pub idle: u64, pub done: u64, pub data: u64, pub bad: u64, pub junk: u64, pub big: u64, pub long: u64,
    /// One in how many messages has bare LFs.
    pub lf: u64,
    pub api: u64,
    /// Whether limits are small.
    pub small: bool,
    pub lits: Lits,
    pub lit_rate: u64,
    /// How many calls of the wrong kind are made, of 8.
    pub wrong: u64,
}
pub const BASE: Prof = Prof { reg: 8, auth: 2, idle: 2, done: 1, data: 1, bad: 2, junk: 1, big: 1, long: 1, lf: 8, api: 5, small: true, lits: Lits::Any, lit_rate: 3, wrong: 1 };

pub fn options(g: &mut G, small: bool) -> Options {
    let mut o = Options::default();
    o.crlf_relaxed = g.s.bool();
    if small && g.bulk {
        o.max_literal_size = g.s.idx(300_000) as u32;
        o.max_command_size = o.max_literal_size + 1 + match g.s.below(3) { 0 => g.s.idx(100), 1 => g.s.idx(5000), _ => g.s.idx(200_000) } as u32;
    } else if small {
        o.max_literal_size = g.s.size(48) as u32;
        o.max_command_size = o.max_literal_size + 1 + match g.s.below(4) { 0 => g.s.idx(40), 1 => g.s.idx(120), _ => 40 + g.s.idx(300) } as u32;
    }
    if g.s.chance(1, 3) { let n = g.uniq(); o.set_literal_accept_text(format!("go on {n}")).unwrap(); }
    if g.s.chance(1, 3) { let n = g.uniq(); o.set_literal_reject_text(format!("no way {n}")).unwrap(); }
    o
}

/// A message a client might send in `mode`.
pub fn item(g: &mut G, mode: Mode, p: &Prof, o: &Options) -> Vec<u8> {
    let in_mode = g.s.chance(5, 8);
    let k = match mode {
        Mode::Auth if in_mode => 4,
        Mode::IdleDone if in_mode => 3,
        _ => g.s.weighted(&[p.reg, p.auth, p.idle, p.done, p.data, p.bad, p.junk, p.big, p.long]),
    };
    g.max_lit = if p.small { o.max_literal_size as usize } else if g.bulk { 400_000 } else { 60 };
    let mut m = match k {
        0 => enc_command(&g.regular()),
        1 => enc_command(&g.authenticate()),
        2 => enc_command(&g.idle()),
        3 => { let mut v = enc_done(); if g.s.chance(1, 4) { v.make_ascii_lowercase(); } v }
        4 => enc_auth_data(&g.authenticate_data()),
        5 => {
            let mut m = match mode { Mode::Auth => enc_auth_data(&g.authenticate_data()), Mode::IdleDone => enc_done(), _ => enc_command(&g.regular()) };
            g.mutate(&mut m);
            if !m.ends_with(b"\n") && g.s.chance(3, 4) { m.extend(b"\r\n"); }
            m
        }
        6 => g.junk(),
        7 => {
            // announces a literal that is too long; the client may or may not send it all the same
            let over = o.max_literal_size.min(90_000) as usize + 1 + match g.s.below(3) { 0 => 0, 1 => g.s.idx(5), _ => g.s.idx(2000) };
            let t = g.tag();
            let plus = if g.s.bool() { "+" } else { "" };
            let n = g.s.size(20);
            let mut v = match g.s.below(3) {
                0 => format!("{} LOGIN {{{over}{plus}}}\r\n", t.as_ref()),
                1 => format!("{} LOGIN {{1+}}\r\nx {{{over}{plus}}}\r\n", t.as_ref()),
                _ => format!("{} APPEND x (\\Seen) {{{over}{plus}}}\r\n", t.as_ref()),
            }.into_bytes();
            if g.s.chance(1, 3) { v.extend(g.s.bytes(n, b"ab \r\n")); v.extend(b"\r\n"); }
            v
        }
        _ => {
            let n = (o.max_command_size as usize).min(if g.bulk { 600_000 } else { 400 });
            let extra = g.s.idx(n / 2 + 40);
            let mut v = if g.s.bool() { format!("{} ", g.tag().as_ref()).into_bytes() } else { vec![] };
            let fill = (n + extra).saturating_sub(v.len()).saturating_sub(20);
            let f = g.s.bytes(1, b"ax 0")[0];
            v.extend(std::iter::repeat_n(f, fill));
            v.extend(b"\r\n");
            v
        }
    };
    if g.s.chance(1, p.lf) { g.relax(&mut m); }
    m
}

pub fn api(g: &mut G, mode: Mode, wrong: u64) -> Api {
    g.lits = Lits::Any;
    let k = if g.s.chance(wrong, 8) { 3 + g.s.idx(4) } else {
        match mode { Mode::Auth if g.s.chance(3, 4) => 3 + g.s.idx(2), Mode::IdleAccept if g.s.chance(3, 4) => 5 + g.s.idx(2), _ => g.s.idx(3) }
    };
    match k { 0 => Api::Data(g.data()), 1 => Api::Status(g.any_status()), 2 => Api::Ccr(g.ccr()), 3 => Api::AuthContinue(g.ccr()), 4 => Api::AuthFinish(g.any_status()), 5 => Api::IdleAccept(g.ccr()), _ => Api::IdleReject(g.any_status()) }
}

fn history(s: &mut Src, case: &mut Case, p: Prof) -> Result<Run, (Run, String)> {
    let mut g = G::new(s);
    g.same_tags = true;
    g.lit_rate = p.lit_rate;
    let o = options(&mut g, p.small);
    let greeting = g.greeting();
    let mut r = Run::new(o.clone(), greeting, case.want_sample || case.verbose);
    let mut stream: Vec<u8> = vec![];
    let steps = 2 + steps(g.s, 36);
    let mut go = |r: &mut Run| -> Result<(), String> {
        for _ in 0..steps {
            match g.s.weighted(&[5, 6, 4, 4, p.api]) {
                0 => { g.lits = p.lits; let m = item(&mut g, r.model.mode, &p, &o); stream.extend(m); }
                1 => { let k = if g.s.bool() { stream.len() } else { (1 + g.s.size(30) * (1 + stream.len() / 2000)).min(stream.len()) }; if k > 0 { let c: Vec<u8> = stream.drain(..k).collect(); r.input(&c); } else if g.s.chance(1, 10) { r.input(b""); } }
                2 => { let k = g.s.range(1, 4); for _ in 0..k { r.next()?; } }
                3 => r.drain()?,
                _ => { let a = api(&mut g, r.model.mode, p.wrong); r.api(a)?; }
            }
        }
        let c = std::mem::take(&mut stream);
        r.input(&c);
        r.drain()?;
        // end what is still open, so that what waits behind it comes to light
        for _ in 0..6 {
            match r.model.mode {
                Mode::Auth => { let st = g.status(None); r.api(Api::AuthFinish(st))?; }
                Mode::IdleAccept => { if g.s.bool() { let c = g.ccr(); r.api(Api::IdleAccept(c))?; } else { let st = g.status(None); r.api(Api::IdleReject(st))?; } }
                _ => break,
            }
            r.drain()?;
        }
        r.next()?;
        Ok(())
    };
    let res = go(&mut r);
    case.sample(|| r.trace());
    let st = &r.model.stat;
    case.count("commands", st.commands);
    case.count("errors", st.errors);
    case.count("responses", st.sent);
    case.count("literal_accepts", st.accepts);
    case.count("literal_rejects", st.rejects);
    match res { Ok(()) => Ok(r), Err(m) => Err((r, m)) }
}

fn judge(res: Result<Run, (Run, String)>, case: &mut Case, kinds: &[&str], nontrivial: impl Fn(&Stat) -> bool) -> Result<(), String> {
    match res {
        Ok(r) => { case.nontrivial = nontrivial(&r.model.stat); Ok(()) }
        Err((_, m)) => { case.nontrivial = true; only(kinds, Err(m)) }
    }
}

pub fn p02(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { bad: 4, junk: 2, ..BASE });
    judge(r, c, &["RECV", "STALLR"], |t| t.commands + t.auth + t.idle + t.auth_data + t.done + t.errors >= 3 && (t.errors > 0 || t.pipelined > 0))
}
pub fn p03(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { lf: 2, bad: 1, junk: 1, big: 0, long: 0, small: false, ..BASE });
    let relaxed = match &r { Ok(r) => !r.model.strict, Err((r, _)) => !r.model.strict };
    judge(r, c, &["RECV", "STALLR"], |t| t.commands + t.auth + t.idle + t.done >= 1 && (t.got_lf > 0 || relaxed))
}
pub fn p04(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { long: 6, lits: Lits::NonSync, lit_rate: 2, ..BASE });
    judge(r, c, &["RECV", "STALLR"], |t| t.too_long > 0)
}
pub fn p05(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { reg: 12, big: 4, lit_rate: 1, long: 0, junk: 0, lf: 12, ..BASE });
    judge(r, c, &["RECV", "OUT", "STALLR", "STALLO"], |t| t.accepts + t.rejects + t.literal_cmds > 0)
}
pub fn p06(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { api: 14, wrong: 2, ..BASE });
    judge(r, c, &["OUT", "SENT", "STALLO", "API", "HANDLE"], |t| t.sent >= 3 && t.commands + t.errors > 0)
}
pub fn p07(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let small = s.bool();
    let r = history(s, c, Prof { auth: 10, data: 3, idle: 1, reg: 4, wrong: 2, small, ..BASE });
    judge(r, c, &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], |t| t.auth > 0 && t.auth_data > 0)
}
pub fn p08(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let small = s.bool();
    let r = history(s, c, Prof { idle: 10, done: 3, auth: 1, reg: 4, wrong: 2, small, ..BASE });
    judge(r, c, &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], |t| t.idle > 0 && (t.done > 0 || t.pipelined > 0))
}
pub fn p14(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { api: 8, reg: 10, big: 3, ..BASE });
    judge(r, c, &["STALLR", "STALLO"], |t| t.sent + t.accepts + t.rejects >= 3)
}
pub fn p16(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let r = history(s, c, Prof { bad: 10, junk: 10, big: 3, long: 3, lf: 4, wrong: 3, ..BASE });
    judge(r, c, &["RECV", "STALLR", "STALLO", "OUT"], |t| t.errors >= 2 && t.commands + t.auth + t.idle > 0)
}

/// Strictness at every line end of a message with literals: the expectation is computed line by line.
pub fn p03_combos(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let relaxed = s.bool();
    let mut g = G::new(s);
    g.same_tags = true;
    g.lits = Lits::NonSync;
    let n = g.s.idx(3);
    // pieces: lines (with an end each) and literals
    let mut m: Vec<u8> = vec![];
    let mut first_lf: Option<usize> = None;
    let mut end = |g: &mut G, m: &mut Vec<u8>| { if g.s.bool() { m.extend(b"\r\n") } else { m.push(b'\n'); if first_lf.is_none() { first_lf = Some(m.len()) } } };
    let mode = g.s.below(4);
    let mut expect_cmd = None;
    match mode {
        0 => m.extend(b"DONE"),
        1 => m.extend(b"AGIB"),
        2 => m.extend(b"\r"), // a line made of nothing but a return
        _ => {
            let tag = g.tag();
            let mut params = vec![];
            m.extend(format!("{} ID (", tag.as_ref()).bytes());
            for i in 0..=n {
                if i > 0 { m.push(b' '); }
                let lit = g.s.bool();
                let k = if lit { let l = g.literal(); m.extend(format!("{{{}+}}", l.data().len()).bytes()); end(&mut g, &mut m); m.extend(l.data()); IString::Literal(l) } else { m.extend(b"\"k\""); IString::Quoted(Quoted::try_from("k").unwrap()) };
                m.extend(b" NIL");
                params.push((k, NString(None)));
            }
            m.push(b')');
            expect_cmd = Some(imap_types::command::Command { tag, body: CommandBody::Id { parameters: Some(params) } });
        }
    }
    let crcr = mode == 2;
    end(&mut g, &mut m);
    let mut o = Options::default();
    o.crlf_relaxed = relaxed;
    let mut r = Run::new(o, Greeting::ok(None, "hi there").unwrap(), c.want_sample || c.verbose);
    r.drain()?;
    match mode {
        0 => { r.input(b"i IDLE\r\n"); r.drain()?; r.api(Api::IdleAccept(CommandContinuationRequest::basic(None, "go on").unwrap()))?; r.drain()?; }
        1 => { r.input(b"i AUTHENTICATE PLAIN\r\n"); r.drain()?; }
        _ => {}
    }
    let next_cmd = b"zz NOOP\r\n";
    let chunks = g.split(&m);
    for ch in &chunks { r.input(ch); r.drain().or_else(|m| only(&["RECV", "STALLR"], Err(m)))?; }
    // Independent expectation: strict -> refused at the first bare LF, discarding up to it; relaxed -> delivered
    let st = r.model.stat.clone();
    c.nontrivial = true;
    c.sample(|| r.trace());
    // a lone CR followed by LF is "\r\n", an empty line, which is malformed; CR CR LF as well
    let strict_refuses = !relaxed && first_lf.is_some() && !crcr;
    if strict_refuses && st.got_lf == 0 { return Err(format!("[RECV] strict: the bare LF in \"{}\" was not reported", show(&m))); }
    if (relaxed || first_lf.is_none()) && st.got_lf > 0 { return Err(format!("[RECV] relaxed={relaxed}: a line end in \"{}\" was refused", show(&m))); }
    if !strict_refuses && !crcr {
        let ok = match mode { 0 => st.done == 1, 1 => st.auth_data == 1, _ => st.commands == 1 };
        if !ok { return Err(format!("[RECV] relaxed={relaxed}: \"{}\" was not delivered ({expect_cmd:?})", show(&m))); }
    }
    let _ = next_cmd;
    Ok(())
}

/// Commands whose length, or whose literal's end, lies exactly at the limit.
pub fn p04_boundary(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.same_tags = true;
    let limit = 30 + g.s.idx(200);
    let delta = g.s.idx(5) as i64 - 2;
    let total = (limit as i64 + delta) as usize;
    let mode = g.s.below(3);
    let relaxed = g.s.bool();
    let eol: &[u8] = if relaxed && g.s.bool() { b"\n" } else { b"\r\n" };
    let mut m = match mode { 0 => b"a LOGIN ".to_vec(), _ => vec![] };
    let mut lit = false;
    match mode {
        0 => {
            let shape = g.s.below(3);
            if shape == 0 { m.extend(b"u "); let k = total - m.len() - eol.len(); m.extend(std::iter::repeat_n(b'p', k)); m.extend(eol); }
            else {
                // literal whose end is at `total`, or the whole command is `total` long
                lit = true;
                let rest: Vec<u8> = if shape == 1 { [&b" p"[..], eol].concat() } else { vec![] };
                let mut n = total - m.len() - rest.len() - 5 - eol.len() + 2;
                loop { let h = format!("{{{n}+}}"); if m.len() + h.len() + eol.len() + n + rest.len() <= total { break; } n -= 1; }
                m.extend(format!("{{{n}+}}").bytes());
                m.extend(eol);
                m.extend(std::iter::repeat_n(b'l', n));
                m.extend(&rest);
            }
        }
        1 => { let k = total - eol.len(); m.extend(std::iter::repeat_n(b'A', k)); m.extend(eol); }
        _ => { let k = total - eol.len(); m.extend(b"DONE"); m.extend(std::iter::repeat_n(b' ', k - 4)); m.extend(eol); }
    }
    let mut o = Options::default();
    o.crlf_relaxed = relaxed;
    o.max_command_size = limit as u32;
    o.max_literal_size = limit as u32 - 1;
    let mut r = Run::new(o, Greeting::ok(None, "hi there").unwrap(), c.want_sample || c.verbose);
    r.drain()?;
    match mode {
        1 => { r.input(b"i AUTHENTICATE PLAIN\r\n"); r.drain()?; }
        2 => { r.input(b"i IDLE\r\n"); r.drain()?; r.api(Api::IdleAccept(CommandContinuationRequest::basic(None, "go on").unwrap()))?; r.drain()?; }
        _ => {}
    }
    let before = r.model.stat.clone();
    let len = m.len();
    let tail: &[u8] = if g.s.bool() { b"b NOOP\r\n" } else { b"" };
    m.extend(tail);
    let chunks = g.split(&m);
    for ch in &chunks { r.input(ch); if g.s.chance(2, 3) { r.drain()?; } }
    let res = r.drain();
    c.nontrivial = true;
    c.sample(|| r.trace());
    only(&["RECV", "STALLR"], res)?;
    // Independent of the model: a command within the limit is never "too long", one beyond it always is.
    let long = r.model.stat.too_long - before.too_long;
    if len <= limit && long > 0 && !lit { return Err(format!("[RECV] a message of {len} bytes was called too long, the limit is {limit}")); }
    if len > limit && long == 0 { return Err(format!("[RECV] a message of {len} bytes was not called too long, the limit is {limit}")); }
    Ok(())
}

/// Announced literal sizes around the limit.
pub fn p05_boundary(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.same_tags = true;
    let max = g.s.size(200);
    let n = (max + g.s.idx(3)).saturating_sub(1);
    let plus = g.s.bool();
    let mut o = Options::default();
    o.max_literal_size = max as u32;
    o.crlf_relaxed = g.s.bool();
    if g.s.bool() { o.set_literal_accept_text("yes please".into()).unwrap(); }
    if g.s.bool() { o.set_literal_reject_text("no thanks".into()).unwrap(); }
    let acc = format!("+ {}\r\n", o.literal_accept_text().as_ref());
    let rej = o.literal_reject_text().as_ref().to_owned();
    let mut r = Run::new(o, Greeting::ok(None, "hi there").unwrap(), c.want_sample || c.verbose);
    r.drain()?;
    let tag = g.tag();
    let second = g.s.bool() && max >= 2;
    let head = format!("{} LOGIN {}{{{n}{}}}\r\n", tag.as_ref(), if second { "{2+}\r\nxy " } else { "" }, if plus { "+" } else { "" });
    let mut out: Vec<u8> = vec![];
    let mut errs = 0;
    c.nontrivial = true;
    for ch in g.split(head.as_bytes()) {
        r.input(&ch);
        loop {
            let ob = observe(imap_next::State::next(&mut r.server));
            r.note(|| format!("  -> {ob:?}"));
            match &ob { Obs::Output(b) => out.extend(b), Obs::Err(ErrKind::LiteralTooLong, _) => errs += 1, _ => {} }
            let need = matches!(ob, Obs::Need);
            r.model.observe(ob)?;
            if need { break; }
        }
    }
    c.sample(|| r.trace());
    let want: (Vec<u8>, u64) = match (n > max, plus) { (true, false) => (format!("{} BAD {rej}\r\n", tag.as_ref()).into_bytes(), 1), (true, true) => (vec![], 1), (false, false) => (acc.into_bytes(), 0), (false, true) => (vec![], 0) };
    if (out.clone(), errs) != want { return Err(format!("[OUT] literal of {n} bytes (limit {max}, non-sync {plus}): replied \"{}\" with {errs} errors, due was \"{}\" with {}", show(&out), show(&want.0), want.1)); }
    if n <= max {
        let body = g.s.bytes(n, b"ab\r\n{}");
        r.input(&body);
        r.drain()?;
        r.input(if second { b"\r\n" } else { b" p\r\n" });
        r.drain()?;
        if r.model.stat.commands != 1 { return Err("[RECV] the command with the accepted literal was not delivered".into()); }
    }
    Ok(())
}

/// After any bytes and a complete line that ends them, a valid command is delivered.
pub fn p16_resync(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.same_tags = true;
    let mut o = Options::default();
    o.crlf_relaxed = g.s.bool();
    let mut r = Run::new(o, Greeting::ok(None, "hi there").unwrap(), c.want_sample || c.verbose);
    let k = g.s.range(1, 5);
    for _ in 0..k {
        // no braces: nothing can be read as a literal
        let n = g.s.size(60);
        let mut junk: Vec<u8> = (0..n).map(|_| g.s.below(256) as u8).filter(|b| *b != b'{').collect();
        junk.extend(b"\r\n");
        for ch in g.split(&junk) { r.input(&ch); if g.s.bool() { r.drain()?; } }
        r.drain()?;
        match r.model.mode { Mode::Command => {} _ => return Ok(()) }
        let before = r.model.stat.commands;
        g.lits = Lits::NonSync;
        let cmd = enc_command(&g.regular());
        for ch in g.split(&cmd) { r.input(&ch); if g.s.bool() { r.drain()?; } }
        let res = r.drain();
        c.sample(|| r.trace());
        res?;
        c.nontrivial |= r.model.stat.errors > 0;
        if r.model.stat.commands != before + 1 { return Err(format!("[RECV] \"{}\" after junk was not delivered", show(&cmd))); }
    }
    Ok(())
}

/// The same script under several cuttings of the input and several numbers of calls of `next`.
pub fn p01(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.same_tags = true;
    let small = g.s.bool();
    let p = Prof { small, ..BASE };
    let o = options(&mut g, small);
    let greeting = g.greeting();
    let rounds = 1 + steps(g.s, 8) / if SCALE.get() == Scale::Long { 8 } else { 1 };
    let mut script: Vec<(Vec<Api>, Vec<u8>)> = vec![];
    type Result1 = (Vec<String>, Vec<Vec<u8>>);
    struct R { server: imap_next::server::Server, handles: Vec<imap_next::server::ResponseHandle>, events: Vec<String>, outs: Vec<Vec<u8>>, fed: usize }
    impl R {
        fn take(&mut self) -> bool {
            match observe(imap_next::State::next(&mut self.server)) {
                Obs::Need => return true,
                Obs::Output(b) => self.outs.last_mut().unwrap().extend(b),
                Obs::Sent(h, m) => { let i = h.map(|h| self.handles.iter().position(|x| *x == h)); self.outs.last_mut().unwrap().extend(b""); self.events.push(format!("S{i:?} {m:?}")); }
                o => self.events.push(format!("R{o:?}")),
            }
            false
        }
        fn drain(&mut self) -> Result<(), String> { for _ in 0..20_000 + 2 * self.fed { if self.take() { return Ok(()); } } Err("[HANG] no end".into()) }
        fn api(&mut self, a: &Api) {
            let h = match a.clone() {
                Api::Data(d) => Some(self.server.enqueue_data(d)), Api::Status(d) => Some(self.server.enqueue_status(d)), Api::Ccr(d) => Some(self.server.enqueue_continuation_request(d)),
                Api::AuthContinue(d) => self.server.authenticate_continue(d).ok(), Api::AuthFinish(d) => self.server.authenticate_finish(d).ok(), Api::IdleAccept(d) => self.server.idle_accept(d).ok(), Api::IdleReject(d) => self.server.idle_reject(d).ok(),
            };
            match h { Some(h) => self.handles.push(h), None => self.events.push("refused".into()) }
        }
        // receive events and sent events are ordered among themselves; between them the cutting may matter
        fn result(self) -> (Result1, Vec<String>) {
            let (r, s): (Vec<_>, Vec<_>) = self.events.into_iter().partition(|e| !e.starts_with('S'));
            ((r, self.outs), s)
        }
    }
    let new = |o: &Options, gr: &Greeting<'static>| R { server: imap_next::server::Server::new(o.clone(), gr.clone()), handles: vec![], events: vec![], outs: vec![vec![]], fed: 0 };
    // The script is made with one run (whole input at once), watched by the model for context only.
    let mut a = new(&o, &greeting);
    let mut modes = Run::new(o.clone(), greeting.clone(), false);
    let mut model_ok = true;
    a.drain()?;
    for _ in 0..rounds {
        let mode = modes.model.mode;
        let k = g.s.idx(3) + usize::from(mode != Mode::Command);
        let apis: Vec<Api> = (0..k).map(|_| api(&mut g, mode, 1)).collect();
        let n = g.s.idx(4);
        let mut bytes = vec![];
        for _ in 0..n { g.lits = Lits::Any; bytes.extend(item(&mut g, modes.model.mode, &p, &o)); }
        if g.s.chance(1, 3) { let cut = g.s.idx(bytes.len() + 1); bytes.truncate(cut); }
        for x in &apis { a.api(x); if model_ok { model_ok = modes.api(x.clone()).is_ok(); } }
        a.fed += bytes.len(); imap_next::State::enqueue_input(&mut a.server, &bytes);
        if model_ok { modes.input(&bytes); model_ok = modes.drain().is_ok(); }
        a.drain()?;
        a.outs.push(vec![]);
        script.push((apis, bytes));
    }
    let events = a.events.len();
    let ra = a.result();
    let mut inside = 0;
    for variant in 0..3 {
        let mut b = new(&o, &greeting);
        b.drain()?;
        for (apis, bytes) in &script {
            for x in apis { b.api(x); }
            let chunks: Vec<Vec<u8>> = if variant == 0 { bytes.chunks(1 + bytes.len() / 4000).map(|x| x.to_vec()).collect() } else { g.split(bytes) };
            inside += u64::from(chunks.len() > 1);
            for ch in chunks {
                b.fed += ch.len(); imap_next::State::enqueue_input(&mut b.server, &ch);
                if variant == 0 { b.drain()?; } else { for _ in 0..g.s.idx(5) { if b.take() && g.s.bool() { break; } } }
            }
            b.drain()?;
            b.outs.push(vec![]);
        }
        let rb = b.result();
        if ra != rb {
            c.nontrivial = true;
            c.sample(|| format!("options {o:?}\nscript {:?}\nat once {ra:?}\ncut     {rb:?}", script.iter().map(|(a, b)| format!("calls {a:?} then \"{}\"", show(b))).collect::<Vec<_>>()));
            return Err(format!("[RECV] the observations depend on how the input is cut: variant {variant}"));
        }
    }
    c.nontrivial = events >= 2 && inside >= 2;
    c.count("events", events as u64);
    c.sample(|| format!("{:?} {:?}", o, script.iter().map(|(a, b)| format!("{} calls, \"{}\"", a.len(), show(b))).collect::<Vec<_>>()));
    Ok(())
}
