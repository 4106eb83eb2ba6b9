//! P36: what the proxy keeps does not grow with the sessions it has served, nor with what went through a session.
use gen::*;
use pbt::mem::live;
use pbt::{Case, Src};

use crate::session::*;
use crate::sessions::*;
use crate::world::*;

#[global_allocator]
static ALLOCATOR: pbt::mem::Counting = pbt::mem::Counting;

fn forget(x: &mut Session) {
    for e in [&mut x.c, &mut x.s] {
        e.raw = vec![];
        e.plain.shrink_to_fit();
        for p in [&e.inc, &e.out] { let mut g = p.get(); g.log = vec![]; g.flushes = vec![]; }
    }
}
/// One session that goes on and on.
pub fn history_of_one(s: &mut Src, c: &mut Case) -> Result<(), String> { one(s, c, false) }
/// The same, for what comes out of it.
pub fn p23_far(s: &mut Src, c: &mut Case) -> Result<(), String> { scaled(Scale::Far, || one(s, c, true)) }
fn one(s: &mut Src, c: &mut Case, content: bool) -> Result<(), String> {
    let (seed, tape) = (s.u64(), s.u64());
    let tls = if s.chance(1, 4) { 8 } else { 0 };
    let svcs = services(s, 1, tls);
    let text = config_text(&svcs);
    let total = if s.chance(1, if content { 4 } else { 12 }) { if content { 20_000 } else { 8000 } } else { 600 } + s.idx(1500);
    // very much that waits to be read
    let burst = if content && s.bool() { (s.idx(600), 1000 + s.size(30_000)) } else { (usize::MAX, 0) };
    let prof = Prof { caps: s.below(4), junk: 0, special: s.below(5) };
    c.sample(|| format!("{text}{total} rounds"));
    run(seed, &text, async {
        let ls = [listen(&svcs[0].connect_addr()).await];
        settle().await;
        let mut n = 0;
        let mut start = 0;
        let mut xs = vec![open(s, &svcs, &ls, 0, 0, prof, false, false).await?];
        for k in 0..total {
            // a source of its own, as the choices made are kept for as long as the source is
            let mut t = Src::random(tape ^ pbt::mix(k as u64));
            if k == burst.0 { let mut g = G::new(&mut t); g.n = n; for _ in 0..burst.1 { xs[0].s_unsolicited(&mut g); } n = g.n; }
            let r = match history(&mut t, &mut n, &mut xs, 4).await { Ok(()) => finish(&mut t, &mut n, &mut xs).await, e => e };
            // what comes out is for other properties to say
            if let Err(e) = r { return if content { Err(format!("round {k}: {e}")) } else { Ok(()) }; }
            if content { if k % 100 == 0 { pbt::alive(); } continue; }
            drop(t);
            forget(&mut xs[0]);
            let now = live();
            if k == 200 { start = now; }
            if k > 200 && now - start > 96 * 1024 { return Err(format!("[MEMORY] {} bytes more are kept after {k} rounds ({} commands, {} responses)", now - start, xs[0].seen.0, xs[0].seen.1)); }
            pbt::alive();
        }
        c.nontrivial = true;
        c.count("rounds", total as u64);
        c.count("messages", xs[0].seen.0 + xs[0].seen.1);
        if !content { c.count("growth of at most 16 KiB", u64::from(live() - start <= 16 * 1024)); }
        Ok(())
    })
}
/// Sessions that come and go.
pub fn sessions_go(s: &mut Src, c: &mut Case) -> Result<(), String> { very_many(s, c, false) }
/// The same, for whether there is still one for the next client.
pub fn p25_far(s: &mut Src, c: &mut Case) -> Result<(), String> { very_many(s, c, true) }
fn very_many(s: &mut Src, c: &mut Case, content: bool) -> Result<(), String> {
    let (seed, tape) = (s.u64(), s.u64());
    let tls = if s.chance(1, 4) { 8 } else { 0 };
    let svcs = services(s, 1, tls);
    let text = config_text(&svcs);
    let total = if s.chance(1, if content { 4 } else { 12 }) { 1500 } else if tls > 0 { 60 } else { 150 } + s.idx(200);
    let at_once = 1 + s.size(4);
    let len = s.size(8);
    let prof = Prof { caps: 0, junk: if s.bool() { 2 } else { 0 }, special: s.below(5) };
    let warm = 20 + at_once;
    c.sample(|| format!("{text}{total} sessions, {at_once} at a time"));
    run(seed, &text, async {
        let ls = [listen(&svcs[0].connect_addr()).await];
        settle().await;
        let mut n = 0;
        let (mut start, mut k) = (0, 0);
        while k < total {
            let mut t = Src::random(tape ^ pbt::mix(k as u64));
            let mut xs = vec![];
            for _ in 0..at_once { match open(&mut t, &svcs, &ls, 0, k, prof, false, false).await { Ok(x) => xs.push(x), Err(e) => return if content { Err(format!("client {k}: {e}")) } else { Ok(()) } } k += 1; }
            let h = history(&mut t, &mut n, &mut xs, len * at_once).await;
            if t.bool() && h.is_ok() { let _ = finish(&mut t, &mut n, &mut xs).await; }
            for x in &mut xs {
                let how = t.below(4);
                if how != 1 { x.c.close(t.bool()) }
                if how != 0 { x.s.close(t.bool()) }
            }
            // and one that comes to nothing
            if t.chance(1, 2) {
                let refused = t.bool();
                if refused { tokio::sim::refuse(&svcs[0].connect_addr(), std::io::ErrorKind::ConnectionRefused); }
                if let Ok(mut e) = dial(&svcs[0], None).await {
                    if t.bool() { e.say(b"what is this?\r\n"); }
                    if t.bool() { settle().await; }
                    e.close(false);
                }
                settle().await;
                if refused { tokio::sim::allow(&svcs[0].connect_addr()); }
                while let Some(st) = try_accept(&ls[0]) { drop(st); settle().await; }
            }
            settle().await;
            drop(xs);
            drop(t);
            settle().await;
            tokio::sim::forget_connected();
            let now = live();
            if start == 0 && k >= warm { start = now; }
            if !content && start > 0 && now - start > 16 * 1024 { return Err(format!("[MEMORY] {} bytes more are kept after {k} sessions have come and gone", now - start)); }
            pbt::alive();
        }
        c.nontrivial = true;
        c.count("sessions", k as u64);
        c.count("growth of at most 2 KiB", u64::from(live() - start <= 2048));
        c.count("TLS", u64::from(tls > 0));
        Ok(())
    })
}
