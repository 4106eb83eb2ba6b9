//! P39: the work that is done grows with the traffic, however it is cut or queued.
use std::time::Duration;

use fsm::{client_model as cm, server_model as sm};
use gen::*;
use imap_next::State;
use imap_types::command::{Command, CommandBody};
use imap_types::core::{AString, IString, Literal, LiteralMode, NString, Tag, Vec1};
use imap_types::fetch::MessageDataItem;
use imap_types::response::Data;
use imap_types::search::SearchKey;
use pbt::effort::{compare, cpu, PARTS};
use pbt::{Case, Src};

use crate::script::*;

/// Does the operations and says how long that took. What is seen is counted, not kept.
fn work(k: &Kind, ops: &[Op], seen: &mut u64) -> Result<Duration, String> {
    // what the operations consist of is made before
    let ops: Vec<Op> = ops.to_vec();
    let size: usize = ops.iter().map(|o| if let Op::In(b) = o { b.len() } else { 64 }).sum();
    let (mut left, mut i) = (20_000 + 4 * size, make(k));
    let from = cpu();
    for op in ops {
        let all = matches!(op, Op::Drain);
        match (op, &mut i) {
            (Op::In(b), Inst::S(s, _)) => s.enqueue_input(&b),
            (Op::In(b), Inst::C(c, _)) => c.enqueue_input(&b),
            (Op::Next | Op::Drain, Inst::S(s, _)) => loop { if matches!(sm::observe(s.next()), sm::Obs::Need) { break; } *seen += 1; left -= 1; if left == 0 { return Err("[HANG] no end".into()); } if !all { break; } },
            (Op::Next | Op::Drain, Inst::C(c, _)) => loop { if matches!(cm::observe(c.next()), cm::Obs::Need) { break; } *seen += 1; left -= 1; if left == 0 { return Err("[HANG] no end".into()); } if !all { break; } },
            (Op::S(a), Inst::S(s, _)) => { let _ = match a { sm::Api::Data(d) => Some(s.enqueue_data(d)), sm::Api::Status(d) => Some(s.enqueue_status(d)), sm::Api::Ccr(d) => Some(s.enqueue_continuation_request(d)), sm::Api::AuthContinue(d) => s.authenticate_continue(d).ok(), sm::Api::AuthFinish(d) => s.authenticate_finish(d).ok(), sm::Api::IdleAccept(d) => s.idle_accept(d).ok(), sm::Api::IdleReject(d) => s.idle_reject(d).ok() }; }
            (Op::C(a), Inst::C(c, _)) => match a { cm::Api::Command(d) => { c.enqueue_command(d); } cm::Api::AuthData(d) => { let _ = c.set_authenticate_data(d); } cm::Api::Done => { c.set_idle_done(); } },
            _ => unreachable!(),
        }
    }
    drop(i);
    Ok(cpu() - from)
}
/// The same operations in another order or input cut otherwise.
fn arrange(how: usize, cut: usize, ops: Vec<Op>) -> Vec<Op> {
    let joined = |ops: &[Op]| -> Vec<u8> { ops.iter().filter_map(|o| if let Op::In(b) = o { Some(&b[..]) } else { None }).flatten().copied().collect() };
    let calls = |ops: &[Op]| -> Vec<Op> { ops.iter().filter(|o| matches!(o, Op::S(_) | Op::C(_))).cloned().collect() };
    let cuts = |b: &[u8], next: Option<Op>| -> Vec<Op> { b.chunks(cut).flat_map(|b| std::iter::once(Op::In(b.to_vec())).chain(next.clone())).collect() };
    match how {
        0 => ops,
        // all input comes first, at once
        1 => std::iter::once(Op::In(joined(&ops))).chain(ops.into_iter().filter(|o| !matches!(o, Op::In(_)))).collect(),
        // all calls are made first
        2 => { let mut v = calls(&ops); v.extend(ops.into_iter().filter(|o| !matches!(o, Op::S(_) | Op::C(_)))); v.push(Op::Drain); v }
        // input comes in pieces, and each is looked at
        3 => ops.into_iter().flat_map(|o| if let Op::In(b) = o { cuts(&b, Some(Op::Drain)) } else { vec![o] }).collect(),
        // one look for each piece, so that the events are behind the input
        4 => { let mut v = calls(&ops); v.extend(cuts(&joined(&ops), Some(Op::Next))); v.push(Op::Drain); v }
        // nothing is looked at before everything is there
        _ => { let mut v = cuts(&joined(&ops), None); v.extend(calls(&ops)); v.push(Op::Drain); v }
    }
}
const HOW: [&str; 6] = ["as they are", "all input first", "all calls first", "pieces, all taken out after each", "pieces, one taken out after each", "pieces, all taken out at the end"];
fn judge(kind: &Kind, whole: &[Op], parts: &[Op], c: &mut Case) -> Result<(), String> {
    let (mut a, mut b) = (0, 0);
    match compare(|| { a = 0; work(kind, whole, &mut a) }, || { b = 0; let mut d = Duration::ZERO; for _ in 0..PARTS { d += work(kind, parts, &mut b)?; } Ok(d) })? {
        Ok(r) => {
            c.count("at most half of what the parts took", u64::from(r <= 0.5));
            c.count("at most twice what the parts took", u64::from(r <= 2.0));
            c.count("at most four times what the parts took", u64::from(r <= 4.0));
        }
        Err((w, p)) => return Err(format!("[EFFORT] {w:?} for one that does everything ({a} observations), {p:?} for {PARTS} that do a part each ({b} observations)")),
    }
    c.count("observations", a);
    c.nontrivial = a >= 32;
    Ok(())
}
/// A history that goes on and on.
pub fn history(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let len = 2 + g.s.size(30);
    let x = script(&mut g, len, true);
    let (how, cut) = (g.s.idx(HOW.len()), 1 + g.s.size(200));
    let size: usize = x.ops.iter().map(|o| if let Op::In(b) = o { b.len() } else { 40 }).sum::<usize>().max(1);
    let each = (8_000 / size).clamp(1, 100);
    c.sample(|| format!("{}; {each} and {} times, {}, cut {cut}", show_script(&x), each * PARTS, HOW[how]));
    let of = |n: usize| arrange(how, cut, (0..n).flat_map(|_| x.ops.iter().cloned()).collect());
    judge(&x.kind, &of(each * PARTS), &of(each), c)?;
    c.count("server", u64::from(matches!(x.kind, Kind::S(..))));
    c.count("bytes and calls", (size * each * PARTS) as u64);
    Ok(())
}
/// One command or response with many literals, against as many with few.
pub fn literals(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let n = 20 + g.s.idx(150);
    let length = g.s.size(100);
    let server = g.s.bool();
    let mode = if g.s.bool() { LiteralMode::Sync } else { LiteralMode::NonSync };
    let alternate = g.s.chance(1, 3);
    let literal = |k: usize| Literal::try_from(vec![b'l'; length]).map(|l| if mode == LiteralMode::Sync && !(alternate && k % 2 == 1) { l } else { l.into_non_sync() }).unwrap();
    let at_once = g.s.bool();
    let kind = if server { Kind::S(imap_next::server::Options::default(), g.greeting()) } else { Kind::C(g.s.bool()) };
    let ops = |n: usize| -> Vec<Op> {
        let mut v = if server { vec![] } else { vec![Op::In(b"* OK hello\r\n".to_vec())] };
        v.push(Op::Drain);
        if server {
            let items = (0..n).map(|k| MessageDataItem::Rfc822Text(NString(Some(IString::Literal(literal(k)))))).collect::<Vec<_>>();
            v.push(Op::S(sm::Api::Data(Data::Fetch { seq: 1.try_into().unwrap(), items: Vec1::try_from(items).unwrap() })));
            v.push(Op::Drain);
        } else {
            let criteria = (0..n).map(|k| SearchKey::Text(AString::String(IString::Literal(literal(k))))).collect::<Vec<_>>();
            v.push(Op::C(cm::Api::Command(Command { tag: Tag::try_from("a").unwrap(), body: CommandBody::Search { charset: None, criteria: Vec1::try_from(criteria).unwrap(), uid: false } })));
            v.push(Op::Drain);
            if at_once { v.push(Op::In(b"+ go on\r\n".repeat(n))); v.push(Op::Drain); } else { for _ in 0..n { v.push(Op::In(b"+ go on\r\n".to_vec())); v.push(Op::Drain); } }
        }
        v
    };
    c.sample(|| format!("{} says {n} and 32 times as many literals of {length} bytes", if server { "server" } else { "client" }));
    judge(&kind, &ops(n * PARTS), &ops(n), c)?;
    c.nontrivial = true;
    c.count("server", u64::from(server));
    c.count("literals", (n * PARTS) as u64);
    Ok(())
}
/// One message that becomes longer, against as many messages.
pub fn message(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let n = 2_000 + g.s.idx(10_000);
    let cut = 1 + g.s.size(300);
    let server = g.s.bool();
    let what = g.s.idx(10);
    let limited = g.s.chance(1, 4);
    let kind = if server { let mut o = imap_next::server::Options::default(); o.crlf_relaxed = g.s.bool(); if limited { o.max_command_size = 500 + g.s.idx(4000) as u32; o.max_literal_size = o.max_command_size; } Kind::S(o, g.greeting()) } else { Kind::C(g.s.bool()) };
    // literals may come before what is long, and behind it
    let (before, behind) = (g.s.idx(3), g.s.idx(2));
    let text = |n: usize| -> Vec<u8> {
        let x = |n: usize| "x".repeat(n);
        let list = |a: &str, e: &str, sep: &str, z: &str, n: usize| format!("{a}{}{z}", vec![e; 1 + n / (e.len() + sep.len())].join(sep));
        if server {
            match what {
                0 => format!("a LOGIN \"{}\" b\r\n", x(n)),
                1 => format!("a LOGIN {{{n}+}}\r\n{} b\r\n", x(n)),
                2 => format!("a APPEND INBOX {{{n}}}\r\n{}\r\n", x(n)),
                3 => list("a STORE 1 FLAGS (", "\\Seen", " ", ")\r\n", n),
                4 => format!("a {}\r\n", x(n)),
                7 => format!("a ID ({}\"k\" \"{}\"{})\r\n", "{1+}\r\nk {2+}\r\nvv ".repeat(before), x(n), " {1+}\r\nk NIL".repeat(behind)),
                8 => format!("a SEARCH {}TEXT \"{}\"{}\r\n", "TEXT {1+}\r\nk ".repeat(before), x(n), " TEXT {1}\r\nk".repeat(behind)),
                9 => format!("a ID ({}\"k\" {{{n}+}}\r\n{}{})\r\n", "{1+}\r\nk {2+}\r\nvv ".repeat(before), x(n), " {1+}\r\nk NIL".repeat(behind)),
                5 => list("", "?", "\r\n", "\r\n", n),
                _ => list("a FETCH 1", "2:3", ",", " FLAGS\r\n", n),
            }
        } else {
            match what {
                0 => format!("* OK {}\r\n", x(n)),
                1 => format!("* 1 FETCH (BODY[] {{{n}}}\r\n{})\r\n", x(n)),
                2 => format!("* 1 FETCH (BODY[] \"{}\")\r\n", x(n)),
                3 => list("* FLAGS (", "\\Seen", " ", ")\r\n", n),
                4 => format!("* {}\r\n", x(n)),
                7 => format!("* 1 FETCH ({}BODY[] \"{}\"{})\r\n", "RFC822 {1}\r\nk ".repeat(before), x(n), " RFC822 {1}\r\nk".repeat(behind)),
                8 => format!("* ID ({}\"k\" \"{}\"{})\r\n", "{1}\r\nk {2}\r\nvv ".repeat(before), x(n), " {1}\r\nk NIL".repeat(behind)),
                9 => format!("* 1 FETCH ({}BODY[] {{{n}}}\r\n{}{})\r\n", "RFC822 {1}\r\nk ".repeat(before), x(n), " RFC822 {1}\r\nk".repeat(behind)),
                5 => list("", "?", "\r\n", "\r\n", n),
                _ => list("* SEARCH ", "17", " ", "\r\n", n),
            }
        }.into_bytes()
    };
    let how = g.s.idx(3);
    let ops = |n: usize| -> Vec<Op> {
        let mut v = if server { vec![] } else { vec![Op::In(b"* OK hello\r\n".to_vec())] };
        v.push(Op::Drain);
        v.extend(text(n).chunks(cut).flat_map(|b| [Some(Op::In(b.to_vec())), if how == 0 { None } else if how == 1 { Some(Op::Next) } else { Some(Op::Drain) }]).flatten());
        v.push(Op::Drain);
        v
    };
    c.sample(|| format!("{} gets {:?} and 32 times as much in pieces of {cut}", if server { "server" } else { "client" }, show(&text(60))));
    judge(&kind, &ops(n * PARTS), &ops(n), c)?;
    c.nontrivial = true;
    c.count("server", u64::from(server));
    c.count("bytes", (n * PARTS) as u64);
    Ok(())
}
