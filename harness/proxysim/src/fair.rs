//! P40: what a side says without end is passed on while it is said.
use gen::*;
use imap_types::response::Response;
use pbt::{Case, Src};

use crate::ends::*;
use crate::session::*;
use crate::sessions::*;
use crate::world::*;

/// Messages over and over: one round, and how many of them.
fn flood(s: &mut Src, client: bool) -> (Vec<u8>, usize, usize) {
    let n = 1 + s.size(12);
    let (mut said, mut count) = (vec![], 0);
    let mut g = G::new(s);
    g.lits = Lits::NonSync;
    for _ in 0..n {
        let m = if client { enc_command(&g.regular()) } else { enc_response(&filtered(&Response::Data(g.data()))) };
        // (literals that are waited for do not flood)
        if client && m.windows(3).any(|w| w[0] != b'+' && w[1] == b'}' && w[2] == b'\r') { continue; }
        said.extend(m);
        count += 1;
    }
    if said.is_empty() { said = if client { b"a NOOP\r\n".to_vec() } else { b"* 1 EXISTS\r\n".to_vec() }; count = 1; }
    let times = (1000 / count).max(20_000 / said.len()).min(120_000 / said.len() + 1);
    (said, count, times)
}
/// The largest part of what is said that was taken and not yet passed on at any time; four of the largest reads are
/// allowed for.
fn held(reads: &[(u64, usize)], writes: &[(u64, usize)], read0: usize, log0: usize) -> f64 {
    let (Some(taken), Some(given)) = (reads.last().map(|r| (r.1 - read0) as f64), writes.last().map(|w| (w.1 - log0) as f64)) else { return 0.0 };
    let mut w = writes.iter().peekable();
    let (mut most, mut done) = (0.0f64, 0.0);
    let once = reads.iter().scan(read0, |last, r| Some(r.1 - std::mem::replace(last, r.1))).max().unwrap_or(0) as f64 / taken;
    for (t, total) in reads {
        while w.peek().is_some_and(|w| w.0 < *t) { done = (w.next().unwrap().1 - log0) as f64 / given; }
        most = most.max((total - read0) as f64 / taken - done - 4.0 * once);
    }
    most
}
fn lines(b: &[u8]) -> usize { b.iter().filter(|b| **b == b'\n').count() }
pub fn floods(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let tls = if s.chance(1, 4) { 8 } else { 0 };
    let svcs = services(s, 1, tls);
    let text = config_text(&svcs);
    // (if both do, either may have to wait for the other: what is to be sent goes before what is received)
    let who = s.idx(2);
    let sides: Vec<(bool, Vec<u8>, usize, usize)> = [true, false].into_iter().filter(|client| *client == (who == 0)).map(|client| { let (a, b, n) = flood(s, client); (client, a, b, n) }).collect();
    if sides.iter().any(|x| x.2 * x.3 < 300) { return Ok(()); }
    let parts = if s.bool() { 1 } else { 1 + s.idx(10) };
    c.sample(|| format!("{text}{} in {parts} parts", sides.iter().map(|x| format!("{} times \"{}\" from the {}", x.3, show(&x.1), if x.0 { "client" } else { "server" })).collect::<Vec<_>>().join(", ")));
    let late = std::cell::RefCell::new(vec![]);
    run(seed, &text, async {
        let ls = [listen(&svcs[0].connect_addr()).await];
        settle().await;
        let Ok(mut x) = open(s, &svcs, &ls, 0, 0, Prof { caps: 0, junk: 0, special: 0 }, false, false).await else { return Ok(()) };
        x.s.say(b"* OK hello\r\n");
        for _ in 0..4 { settle().await; x.c.pump(); }
        if x.c.plain != b"* OK hello\r\n" { return Ok(()); }
        x.c.plain.clear();
        // `out` and `inc` are seen from the ends
        let begin = |e: &End| { let r = { let mut a = e.out.get(); a.reads = Some(vec![]); a.total_read }; let mut b = e.inc.get(); b.writes = Some(vec![]); (r, b.log.len()) };
        let (c0, s0) = (begin(&x.c), begin(&x.s));
        let all: Vec<Vec<u8>> = sides.iter().map(|x| x.1.repeat(x.3)).collect();
        let mut came = (0, 0);
        // the last rounds only wait
        for k in 0..parts + 4 {
            if k < parts { for (side, all) in sides.iter().zip(&all) {
                // (a TLS record can be passed on only when all of it is there)
                let e = if side.0 { &mut x.c } else { &mut x.s };
                let (a, b) = (all.len() * k / parts, all.len() * (k + 1) / parts);
                for r in all[a..b].chunks(all.len() / 20) { e.say(r); }
            } }
            for _ in 0..2 { settle().await; x.c.pump(); x.s.pump(); }
            came.0 += lines(&x.c.plain);
            came.1 += lines(&x.s.plain);
            x.c.plain.clear();
            x.s.plain.clear();
        }
        let end = |e: &End| (e.out.get().reads.take().unwrap(), e.inc.get().writes.take().unwrap());
        let (c1, s1) = (end(&x.c), end(&x.s));
        for (side, all) in sides.iter().zip(&all) {
            // (not everything came through: for other properties to say)
            if (if side.0 { came.1 } else { came.0 }) != lines(all) { late.borrow_mut().clear(); return Ok(()); }
            late.borrow_mut().push(if side.0 { held(&c1.0, &s1.1, c0.0, s0.1) } else { held(&s1.0, &c1.1, s0.0, c0.1) });
        }
        Ok(())
    })?;
    let late = late.into_inner();
    if late.is_empty() { return Ok(()); }
    for (side, most) in sides.iter().zip(&late) {
        if *most > 0.6 { return Err(format!("[STARVED] {} times \"{}\": at some time {:.0} in 100 of it had been taken from the {} and not been passed on, although the other side took everything", side.3, show(&side.1), most * 100.0, if side.0 { "client" } else { "server" })); }
    }
    c.nontrivial = true;
    c.count("said by the client", u64::from(who == 0));
    c.count("TLS", u64::from(tls > 0));
    c.count("never more than a quarter held", u64::from(late.iter().all(|x| *x <= 0.25)));
    c.count("messages", sides.iter().map(|x| (x.2 * x.3) as u64).sum());
    Ok(())
}
