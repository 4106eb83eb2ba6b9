//! P40: input that never ends keeps nothing waiting that is to be sent.
use fsm::{client_model as cm, server_model as sm};
use gen::*;
use imap_next::State;
use imap_types::response::Response;
use pbt::{Case, Src};

use crate::script::*;

/// What is fed over and over. Each piece may be part of a message.
fn flood(g: &mut G, server: bool) -> Vec<Vec<u8>> {
    let mut all = vec![];
    for _ in 0..1 + g.s.size(10) {
        let m = match (g.s.below(8), server) {
            (0, _) => { let mut m = g.junk(); m.extend(b"\r\n"); m }
            (1, true) => enc_command(&g.authenticate()),
            (2, true) => enc_command(&g.idle()),
            (3, true) => enc_auth_data(&g.authenticate_data()),
            (4, true) => enc_done(),
            (1, false) => enc_response(&Response::CommandContinuationRequest(g.ccr())),
            (2, false) => enc_response(&Response::Status(g.any_status())),
            (_, true) => enc_command(&g.regular()),
            (_, false) => enc_response(&Response::Data(g.data())),
        };
        all.extend(m);
    }
    if g.s.bool() { vec![all] } else { g.split(&all) }
}
pub fn endless(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let server = g.s.bool();
    let kind = if server { let small = g.s.bool(); Kind::S(crate::server::options(&mut g, small), g.greeting()) } else { Kind::C(g.s.bool()) };
    let mut i = make(&kind);
    if !server { let gr = g.greeting(); if let Inst::C(x, _) = &mut i { x.enqueue_input(&enc_greeting(&gr)); } }
    let pieces: Vec<Vec<u8>> = flood(&mut g, server).into_iter().filter(|p| !p.is_empty()).collect();
    if pieces.is_empty() { return Ok(()); }
    let mut at = 0;
    // how much is there at first, and how much comes before each step
    let (ahead, each) = (g.s.size(60) * pieces.len().min(8), 1 + g.s.size(3));
    let (rate, calls) = (3 + g.s.below(40), 100 + g.s.idx(400));
    let most = 1 + g.s.idx(6);
    c.sample(|| format!("{} fed with {} and so on, {ahead} pieces ahead, {each} each time; up to {most} messages every {rate} calls", if server { "server" } else { "client" }, pieces.iter().map(|p| format!("\"{}\"", show(p))).collect::<Vec<_>>().join(" ")));
    let (mut left, mut sent, mut got, mut longest) = (vec![], 0u64, 0u64, 0);
    for t in 0..calls {
        let n = if t == 0 { ahead + each } else { each };
        for _ in 0..n { let p = &pieces[at % pieces.len()]; at += 1; match &mut i { Inst::S(x, _) => x.enqueue_input(p), Inst::C(x, _) => x.enqueue_input(p) } }
        if g.s.chance(1, rate) {
            for _ in 0..1 + g.s.idx(most) {
                let wait = 8 * (left.len() + 1) + 32;
                let h = match &mut i {
                    Inst::S(x, _) => { let h = match g.s.below(3) { 0 => { let a = g.any_status(); x.enqueue_status(a) } 1 => { let a = g.ccr(); x.enqueue_continuation_request(a) } _ => { let a = g.data(); x.enqueue_data(a) } }; format!("{h:?}") }
                    // (one whose literals need not be waited for)
                    Inst::C(x, _) => { g.lits = Lits::NonSync; let a = g.regular(); g.lits = Lits::Any; let h = x.enqueue_command(a); format!("{h:?}") }
                };
                left.push((h, t, t + wait));
            }
        }
        let h = match &mut i {
            Inst::S(x, _) => match sm::observe(x.next()) { sm::Obs::Sent(Some(h), _) => Some(format!("{h:?}")), sm::Obs::Ev(_) | sm::Obs::Err(..) => { got += 1; None } _ => None },
            Inst::C(x, _) => match cm::observe(x.next()) { cm::Obs::Ev(cm::Ev::Sent(h, _)) => Some(format!("{h:?}")), cm::Obs::Ev(_) | cm::Obs::Err(..) => { got += 1; None } _ => None },
        };
        if let Some(h) = h { if let Some(k) = left.iter().position(|x| x.0 == h) { longest = longest.max(t - left[k].1); left.remove(k); sent += 1; } }
        if let Some(x) = left.iter().find(|x| x.2 < t) { return Err(format!("[STARVED] message {} is not sent {} calls of next after it was enqueued, with {} more waiting; {got} messages were received meanwhile and before", x.0, t - x.1, left.len() - 1)); }
    }
    c.nontrivial = sent >= 3 && got >= 3;
    c.count("server", u64::from(server));
    c.count("sent", sent);
    c.count("received", got);
    c.count("sent at most 8 calls later", u64::from(longest <= 8));
    Ok(())
}
