//! Handles as clients and servers give them out.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::Barrier;

use fsm::client_model as cm;
use fsm::server_model as sm;
use gen::*;
use imap_next::client::{Client, CommandHandle};
use imap_next::server::{ResponseHandle, Server};
use imap_next::State;
use imap_types::response::*;
use pbt::{Case, Src};

fn hash<H: Hash>(h: &H) -> u64 { let mut s = DefaultHasher::new(); h.hash(&mut s); s.finish() }

/// Everything given out, with the instance it came from.
struct Book<H> { all: Vec<H>, by_hash: HashMap<H, usize>, by_debug: HashMap<String, usize> }
impl<H: Copy + Eq + Hash + Debug> Book<H> {
    fn new() -> Self { Self { all: vec![], by_hash: HashMap::new(), by_debug: HashMap::new() } }
    fn add(&mut self, h: H, pairs: bool) -> Result<(), String> {
        let copy = h;
        if copy != h || hash(&copy) != hash(&h) || format!("{copy:?}") != format!("{h:?}") { return Err(format!("[HANDLE] a copy of {h:?} differs from it")); }
        if pairs { if let Some(x) = self.all.iter().find(|x| **x == h || !(**x != h)) { return Err(format!("[HANDLE] {h:?} equals {x:?}, given out before")); } }
        if let Some(i) = self.by_hash.insert(h, self.all.len()) { return Err(format!("[HANDLE] {h:?} equals {:?}, given out before", self.all[i])); }
        if let Some(i) = self.by_debug.insert(format!("{h:?}"), self.all.len()) { return Err(format!("[HANDLE] two handles that differ are both shown as {:?}", self.all[i])); }
        self.all.push(h);
        Ok(())
    }
}

fn server(g: &mut G) -> Server { Server::new(Default::default(), g.greeting()) }

/// Several clients and servers that live side by side or one after the other, through all their exchanges.
pub fn p15(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    g.lits = Lits::None;
    let mut clients: Vec<cm::Run> = vec![];
    let mut servers: Vec<sm::Run> = vec![];
    let (mut cb, mut sb) = (Book::<CommandHandle>::new(), Book::<ResponseHandle>::new());
    let mut log = vec![];
    let mut made = 0;
    for _ in 0..6 + g.s.size(60) {
        match g.s.below(10) {
            0 | 1 => { if g.s.bool() || clients.len() > 3 { servers.push(sm::Run::new(Default::default(), g.greeting(), false)); log.push("server".to_owned()); } else { clients.push(cm::Run::new(Default::default(), false)); log.push("client".into()); } made += 1; }
            2 if clients.len() + servers.len() > 2 => { if g.s.bool() && !clients.is_empty() { let i = g.s.idx(clients.len()); clients.remove(i); log.push("drop a client".into()); } else if !servers.is_empty() { let i = g.s.idx(servers.len()); servers.remove(i); log.push("drop a server".into()); } }
            3..=5 if !clients.is_empty() => {
                let i = g.s.idx(clients.len());
                let r = &mut clients[i];
                for _ in 0..1 + g.s.idx(4) { let cmd = match g.s.below(4) { 0 => g.authenticate(), 1 => g.idle(), _ => g.regular() }; cb.add(r.client.enqueue_command(cmd), true)?; }
                log.push(format!("commands at client {i}"));
                if g.s.bool() { let _ = r.client.next(); }
                // what the server might say: greeting, requests, statuses
                if g.s.bool() { let b = match g.s.below(3) { 0 => enc_greeting(&g.greeting()), 1 => enc_response(&Response::CommandContinuationRequest(g.ccr())), _ => enc_response(&g.response()) }; r.client.enqueue_input(&b); }
                for _ in 0..g.s.idx(12) {
                    let o = cm::observe(r.client.next());
                    match o {
                        cm::Obs::Ev(cm::Ev::AuthCcr(h, _)) => { let x = r.client.set_authenticate_data(g.authenticate_data()); if x.ok() != Some(h) { return Err(format!("[HANDLE] data for {h:?} returned another handle")); } }
                        cm::Obs::Ev(cm::Ev::IdleAccepted(h, _)) => { if r.client.set_idle_done() != Some(h) { return Err(format!("[HANDLE] DONE for {h:?} returned another handle")); } }
                        cm::Obs::Ev(cm::Ev::Sent(h, _) | cm::Ev::AuthStarted(h) | cm::Ev::IdleSent(h) | cm::Ev::Rejected(h, ..) | cm::Ev::AuthStatus(h, ..) | cm::Ev::IdleRejected(h, _) | cm::Ev::DoneSent(h)) => { if !cb.by_hash.contains_key(&h) { return Err(format!("[HANDLE] {h:?} was never given out")); } }
                        _ => {}
                    }
                }
            }
            _ if !servers.is_empty() => {
                let i = g.s.idx(servers.len());
                let r = &mut servers[i];
                let n = 1 + g.s.idx(4);
                for _ in 0..n {
                    let h = match g.s.below(7) {
                        0 => r.server.enqueue_data(g.data()), 1 => r.server.enqueue_status(g.status(None)), 2 => r.server.enqueue_continuation_request(g.ccr()),
                        3 => match r.server.idle_accept(g.ccr()) { Ok(h) => h, Err(_) => continue },
                        4 => { let t = g.tag(); match r.server.authenticate_finish(g.status(Some(t))) { Ok(h) => h, Err(_) => continue } }
                        5 => match r.server.authenticate_continue(g.ccr()) { Ok(h) => h, Err(_) => continue },
                        _ => { let t = g.tag(); match r.server.idle_reject(g.status(Some(t))) { Ok(h) => h, Err(_) => continue } }
                    };
                    sb.add(h, true)?;
                }
                log.push(format!("responses at server {i}"));
                if g.s.bool() { let cmd = match g.s.below(3) { 0 => g.authenticate(), 1 => g.idle(), _ => g.regular() }; r.server.enqueue_input(&enc_command(&cmd)); }
                for _ in 0..g.s.idx(12) {
                    if let sm::Obs::Sent(Some(h), _) = sm::observe(r.server.next()) { if !sb.by_hash.contains_key(&h) { return Err(format!("[HANDLE] {h:?} was never given out")); } }
                }
            }
            _ => {}
        }
    }
    c.nontrivial = made >= 2 && cb.all.len() + sb.all.len() >= 4;
    c.count("instances", made);
    c.count("handles", (cb.all.len() + sb.all.len()) as u64);
    c.sample(|| log.join("; "));
    Ok(())
}

/// One client and one server with more messages than 16 bits can number.
pub fn p15_long(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let n = 66_000 + g.s.idx(70_000);
    let (mut cb, mut sb) = (Book::<CommandHandle>::new(), Book::<ResponseHandle>::new());
    let mut client = Client::new(Default::default());
    let mut server = server(&mut g);
    let cmd = imap_types::command::Command::new("A1", imap_types::command::CommandBody::Noop).unwrap();
    let st = Status::ok(None, None, "x").unwrap();
    let every = 1 + g.s.idx(200);
    let early = g.s.bool();
    client.enqueue_input(if early { b"* OK x\r\n".as_slice() } else { b"".as_slice() });
    for i in 0..n {
        cb.add(client.enqueue_command(cmd.clone()), false)?;
        sb.add(server.enqueue_status(st.clone()), false)?;
        if i % every == 0 { for _ in 0..4 * every { if matches!(cm::observe(client.next()), cm::Obs::Need) { break; } } for _ in 0..4 * every { if matches!(sm::observe(server.next()), sm::Obs::Need) { break; } } pbt::alive(); }
    }
    c.nontrivial = true;
    c.count("handles", 2 * n as u64);
    c.sample(|| format!("{n} commands and responses, progress every {every}"));
    Ok(())
}

/// Clients and servers created and used by many threads at once.
pub fn p32(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let k = s.range(2, 8);
    let plan: Vec<(usize, usize)> = (0..k).map(|_| (1 + s.size(200), 1 + s.idx(4))).collect();
    let start = Barrier::new(k);
    let cmd = imap_types::command::Command::new("A1", imap_types::command::CommandBody::Noop).unwrap();
    let got: Vec<Vec<(Vec<CommandHandle>, Vec<ResponseHandle>)>> = std::thread::scope(|t| {
        let js: Vec<_> = plan.iter().map(|(n, m)| { let (start, cmd) = (&start, &cmd); t.spawn(move || {
            start.wait();
            let mut v: Vec<(Client, Server)> = (0..*n).map(|_| (Client::new(Default::default()), Server::new(Default::default(), Greeting::ok(None, "x").unwrap()))).collect();
            v.iter_mut().map(|(c, s)| ((0..*m).map(|_| c.enqueue_command(cmd.clone())).collect(), (0..*m).map(|_| s.enqueue_status(Status::ok(None, None, "x").unwrap())).collect())).collect()
        }) }).collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    let (mut cb, mut sb) = (Book::<CommandHandle>::new(), Book::<ResponseHandle>::new());
    for (a, b) in got.into_iter().flatten() { for h in a { cb.add(h, false)?; } for h in b { sb.add(h, false)?; } }
    c.nontrivial = true;
    c.count("handles", (cb.all.len() + sb.all.len()) as u64);
    c.sample(|| format!("{k} threads: {plan:?} (clients and servers, messages of each)"));
    Ok(())
}

/// The very first clients and servers of a process, created by several threads at the same moment.
pub fn p32_first(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let plan: Vec<String> = (0..s.range(2, 8)).map(|_| format!("{}{}", s.pick(&["c", "s", "cs", "sc"]), s.range(1, 3))).collect();
    c.nontrivial = true;
    c.count("threads", plan.len() as u64);
    c.sample(|| format!("first in a fresh process, one entry a thread (clients, servers, how many): {plan:?}"));
    let exe = std::env::current_exe().map_err(|_| String::new())?;
    match std::process::Command::new(exe).arg(FIRST).args(&plan).output() {
        Ok(o) if o.status.code() == Some(3) => Err(String::from_utf8_lossy(&o.stdout).into_owned()),
        _ => Ok(()),
    }
}
pub const FIRST: &str = "--first";
/// What such a process does.
pub fn first(plan: &[String]) -> ! {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let ready = AtomicUsize::new(0);
    let cmd = imap_types::command::Command::new("A1", imap_types::command::CommandBody::Noop).unwrap();
    let status = Status::ok(None, None, "x").unwrap();
    let greeting = Greeting::ok(None, "x").unwrap();
    let got: Vec<(Vec<CommandHandle>, Vec<ResponseHandle>)> = std::thread::scope(|t| {
        let js: Vec<_> = plan.iter().map(|p| { let (ready, cmd, status, greeting) = (&ready, &cmd, &status, &greeting); t.spawn(move || {
            let n: usize = p[p.len() - 1..].parse().unwrap();
            let (mut cs, mut ss) = (vec![], vec![]);
            let mut gs: Vec<Greeting> = (0..n).map(|_| greeting.clone()).collect();
            ready.fetch_add(1, Ordering::SeqCst);
            while ready.load(Ordering::SeqCst) < plan.len() { std::hint::spin_loop(); }
            for k in p[..p.len() - 1].chars() { for _ in 0..n { if k == 'c' { cs.push(Client::new(Default::default())); } else { ss.push(Server::new(Default::default(), gs.pop().unwrap())); } } }
            (cs.iter_mut().flat_map(|c| (0..3).map(|_| c.enqueue_command(cmd.clone())).collect::<Vec<_>>()).collect(), ss.iter_mut().flat_map(|s| (0..3).map(|_| s.enqueue_status(status.clone())).collect::<Vec<_>>()).collect())
        }) }).collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    let (mut cb, mut sb) = (Book::new(), Book::new());
    for (a, b) in got {
        for h in a { if let Err(e) = cb.add(h, true) { print!("{e}"); std::process::exit(3) } }
        for h in b { if let Err(e) = sb.add(h, true) { print!("{e}"); std::process::exit(3) } }
    }
    std::process::exit(0)
}
