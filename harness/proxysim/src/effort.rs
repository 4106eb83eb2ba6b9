//! P39: the work the proxy does grows with what goes through its sessions, however it is cut or queued.
use std::time::Duration;

use gen::*;
use imap_types::response::Response;
use pbt::effort::{compare, cpu, PARTS};
use pbt::{Case, Src};

use crate::ends::*;
use crate::session::*;
use crate::sessions::*;
use crate::world::*;

struct How { commands: Vec<u8>, responses: Vec<u8>, count: (usize, usize), each: usize, piece: usize, caps: (usize, usize), first: usize, late: bool }
/// How long a session takes that gets `n` times as much (with the ends of the test). `None` if something else happens, which is for other properties to say.
async fn work(x: &mut Session, h: &How, n: usize) -> Option<Duration> {
    x.c.inc.set_cap(h.caps.0);
    x.s.inc.set_cap(h.caps.1);
    let (to_s, to_c) = (h.commands.repeat(n * h.each), h.responses.repeat(n * h.each));
    let (mut i, mut j) = (0, 0);
    let (mut came_s, mut came_c) = (0, 0);
    let (want_s, want_c) = (h.count.0 * n * h.each, h.count.1 * n * h.each);
    let lines = |e: &mut End| { let k = e.plain.iter().filter(|b| **b == b'\n').count(); e.plain.clear(); k };
    let from = cpu();
    let (mut idle, mut rounds) = (0, 0usize);
    while came_s < want_s || came_c < want_c {
        let (now_c, now_s) = (h.first != 1 || j == to_c.len(), h.first != 0 || i == to_s.len());
        if now_c { let e = to_s.len().min(i.saturating_add(h.piece)); if e > i { x.c.say(&to_s[i..e]); i = e; idle = 0; } }
        if now_s { let e = to_c.len().min(j.saturating_add(h.piece)); if e > j { x.s.say(&to_c[j..e]); j = e; idle = 0; } }
        settle().await;
        // one side may take nothing before everything has been said
        let (mut a, mut b) = (0, 0);
        if !h.late || (i == to_s.len() && j == to_c.len()) { a = x.c.pump(); b = x.s.pump(); }
        came_c += lines(&mut x.c);
        came_s += lines(&mut x.s);
        if a + b == 0 { idle += 1; } else { idle = 0; }
        if idle > 3 && i == to_s.len() && j == to_c.len() { return None; }
        rounds += 1;
        if rounds % 256 == 0 { pbt::alive(); }
    }
    let took = cpu() - from;
    (came_s == want_s && came_c == want_c).then_some(took)
}
pub fn sessions(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (seed, tape) = (s.u64(), s.u64());
    let tls = if s.chance(1, 4) { 8 } else { 0 };
    let svcs = services(s, 1, tls);
    let text = config_text(&svcs);
    let (nc, ns) = (s.size(12), s.size(12));
    let mut g = G::new(s);
    g.lits = Lits::NonSync;
    g.repeats = false;
    let (mut commands, mut responses) = (vec![], vec![]);
    for _ in 0..nc { let m = enc_command(&g.regular()); if m.windows(3).any(|w| w[0] != b'+' && w[1] == b'}' && w[2] == b'\r') { continue; } commands.extend(m); }
    for _ in 0..ns { responses.extend(enc_response(&filtered(&Response::Data(g.data())))); }
    if commands.is_empty() && responses.is_empty() { commands = b"a NOOP\r\n".to_vec(); }
    let count = |b: &[u8]| b.iter().filter(|b| **b == b'\n').count();
    let each = (2_500 / (commands.len() + responses.len())).max(1);
    let piece = if s.chance(1, 3) { usize::MAX } else { 30 + s.size(2000) };
    let h = How { count: (count(&commands), count(&responses)), commands, responses, each, piece, caps: if s.chance(1, 3) { (1 + s.size(2000), 1 + s.size(2000)) } else { (0, 0) }, first: s.idx(3), late: s.chance(1, 3) };
    c.sample(|| format!("{text}{each} and {} times \"{}\" and \"{}\", pieces of {piece}, caps {:?}, first {}, late {}", each * PARTS, show(&h.commands), show(&h.responses), h.caps, h.first, h.late));
    let mut k = 0;
    // the whole in one session of a run, the parts one after the other in sessions of another
    let mut go = |n: usize, times: usize| -> Result<Duration, Option<String>> {
        k += 1;
        let out = std::cell::Cell::new(Some(Duration::ZERO));
        run(seed, &text, async {
            let ls = [listen(&svcs[0].connect_addr()).await];
            settle().await;
            for id in 0..times {
                let mut t = Src::random(tape);
                let prof = Prof { caps: 0, junk: 0, special: 0 };
                let Ok(mut x) = open(&mut t, &svcs, &ls, 0, id, prof, false, false).await else { out.set(None); return Ok(()) };
                x.s.say(b"* OK hello\r\n");
                for _ in 0..4 { settle().await; x.c.pump(); }
                if x.c.plain != b"* OK hello\r\n" { out.set(None); return Ok(()); }
                x.c.plain.clear();
                match work(&mut x, &h, n).await { Some(d) => out.set(out.get().map(|o| o + d)), None => { out.set(None); return Ok(()); } }
                x.c.close(true);
                x.s.close(true);
                settle().await;
                tokio::sim::forget_connected();
                pbt::alive();
            }
            Ok(())
        }).map_err(Some)?;
        out.get().ok_or(None)
    };
    let go = std::cell::RefCell::new(&mut go);
    match compare(|| (go.borrow_mut())(PARTS, 1), || (go.borrow_mut())(1, PARTS)) {
        Err(None) => return Ok(()),
        Err(Some(e)) => return Err(e),
        Ok(Err((w, p))) => return Err(format!("[EFFORT] {w:?} for one session with everything, {p:?} for {PARTS} with a part each")),
        Ok(Ok(r)) => {
            c.count("at most half of what the parts took", u64::from(r <= 0.5));
            c.count("at most twice what the parts took", u64::from(r <= 2.0));
            c.count("at most four times what the parts took", u64::from(r <= 4.0));
        }
    }
    c.nontrivial = true;
    c.count("TLS", u64::from(tls > 0));
    c.count("messages", ((h.count.0 + h.count.1) * each * PARTS) as u64);
    Ok(())
}
