//! P36: what a client or server keeps does not grow with the length of its history.
use fsm::{client_model as cm, server_model as sm};
use gen::*;
use imap_next::State;
use imap_types::command::{Command, CommandBody};
use imap_types::core::Tag;
use imap_types::response::{Data, Response};
use pbt::mem::live;
use pbt::{Case, Src};

use crate::script::*;

#[global_allocator]
static ALLOCATOR: pbt::mem::Counting = pbt::mem::Counting;

/// Input that is held back until more comes.
struct Late { by: usize, held: Vec<u8> }
/// Does the script's calls and input once more. What is seen is counted, not kept.
fn again(i: &mut Inst, ops: &[Op], bound: usize, late: &mut Late) -> Result<u64, String> {
    let mut seen = 0;
    for op in ops {
        let now;
        let op = match op {
            Op::In(b) if late.by > 0 || !late.held.is_empty() => { late.held.extend(b); let k = late.held.len().saturating_sub(late.by); now = Op::In(late.held.drain(..k).collect()); &now }
            op => op,
        };
        match (op, &mut *i) {
            (Op::Next, Inst::S(s, _)) => { seen += u64::from(!matches!(sm::observe(s.next()), sm::Obs::Need)); }
            (Op::Next, Inst::C(s, _)) => { seen += u64::from(!matches!(cm::observe(s.next()), cm::Obs::Need)); }
            (Op::Drain, Inst::S(s, _)) => { let mut k = 0; while !matches!(sm::observe(s.next()), sm::Obs::Need) { seen += 1; k += 1; if k > bound { return Err("[HANG] no end".into()); } } }
            (Op::Drain, Inst::C(s, _)) => { let mut k = 0; while !matches!(cm::observe(s.next()), cm::Obs::Need) { seen += 1; k += 1; if k > bound { return Err("[HANG] no end".into()); } } }
            (op, i) => { let (mut f, mut o) = (0, vec![]); i.apply(op, &mut f, &mut o)?; if let Inst::S(_, h) = i { h.clear(); } if let Inst::C(_, h) = i { h.clear(); } }
        }
    }
    Ok(seen)
}
/// Whether nothing stands in the way of a message in either direction, that is, nothing is kept waiting.
fn probe(i: &mut Inst, bound: usize) -> Result<bool, String> {
    let tag = Tag::try_from("zzz").unwrap();
    let noop = Command { tag: tag.clone(), body: CommandBody::Noop };
    let (mut went, mut came) = (false, false);
    match i {
        Inst::S(s, _) => {
            let h = s.enqueue_data(Data::Exists(77));
            s.enqueue_input(b"zzz NOOP\r\n");
            for k in 0.. { if k > bound { return Err("[HANG] no end".into()); } match sm::observe(s.next()) { sm::Obs::Need => break, sm::Obs::Ev(sm::Ev::Command(c)) if c == noop => came = true, sm::Obs::Sent(Some(x), sm::Msg::Response(Response::Data(Data::Exists(77)))) if x == h => went = true, _ => {} } }
        }
        Inst::C(s, _) => {
            let h = s.enqueue_command(noop);
            s.enqueue_input(b"* 77 EXISTS\r\n");
            for k in 0.. { if k > bound { return Err("[HANG] no end".into()); } match cm::observe(s.next()) { cm::Obs::Need => break, cm::Obs::Ev(cm::Ev::Data(Data::Exists(77))) => came = true, cm::Obs::Ev(cm::Ev::Sent(x, _)) if x == h => went = true, _ => {} } }
        }
    }
    Ok(went && came)
}

/// The same events over and over.
pub fn p36(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let len = 6 + g.s.size(30);
    let x = script(&mut g, len, true);
    // the input never ends where a message ends
    let behind = if g.s.chance(1, 3) { 1 + g.s.size(40) } else { 0 };
    let size: usize = x.ops.iter().map(|o| match o { Op::In(b) => b.len(), _ => 64 }).sum::<usize>() + 20;
    let bound = 20_000 + 2 * size;
    c.sample(|| show_script(&x));
    let mut i = make(&x.kind);
    let mut seen = [0; 4];
    let mut late = Late { by: 0, held: vec![] };
    for n in &mut seen { *n = again(&mut i, &x.ops, bound, &mut late)?; if !probe(&mut i, bound)? { return Ok(()); } }
    if seen[2] != seen[3] || seen[2] == 0 { return Ok(()); }
    // what is kept is settled now, but for buffers that may take their final size a little later
    let start = live();
    let allowed = 16 * 1024 + 4 * size as i64;
    let cycles = (3_000_000 / size).clamp(100, 12_000) as u64;
    c.nontrivial = true;
    if behind > 0 { return lagging(&mut i, &x, bound, behind, (seen[3], cycles), (start, allowed), c); }
    for k in 0..cycles {
        if again(&mut i, &x.ops, bound, &mut late)? != seen[3] || !probe(&mut i, bound)? { c.nontrivial = false; break; }
        let grown = live() - start;
        if grown > allowed { return Err(format!("[MEMORY] {grown} bytes more are kept after the same {} observations came {k} times; the script has {size} bytes", seen[3])); }
    }
    c.count("cycles", cycles);
    let grown = live() - start;
    c.count("growth of at most 1 KiB", u64::from(grown <= 1024));
    c.count("growth of at most 16 KiB", u64::from(grown <= 16 * 1024));
    c.count("growth of at most 8 times the script", u64::from(grown <= 8 * size as i64));
    c.count("observations", cycles * seen[3]);
    Ok(())
}
fn lagging(i: &mut Inst, x: &Script, bound: usize, behind: usize, (seen, cycles): (u64, u64), (start, allowed): (i64, i64), c: &mut Case) -> Result<(), String> {
    let mut late = Late { by: behind, held: vec![] };
    again(i, &x.ops, bound, &mut late)?;
    let (mut total, mut done) = (0, 0);
    for _ in 0..cycles {
        total += again(i, &x.ops, bound, &mut late)?;
        done += 1;
        if live() - start > allowed { break; }
    }
    let grown = live() - start;
    // whether something was left waiting, which may take memory
    late.by = 0;
    again(i, &x.ops, bound, &mut late)?;
    again(i, &x.ops, bound, &mut late)?;
    c.nontrivial = again(i, &x.ops, bound, &mut late)? == seen && probe(i, bound)? && total.abs_diff(done * seen) <= seen;
    if c.nontrivial && grown > allowed { return Err(format!("[MEMORY] {grown} bytes more are kept after the same {seen} observations came {done} times, always {behind} bytes late; the script has {} bytes", x.ops.iter().map(|o| if let Op::In(b) = o { b.len() } else { 0 }).sum::<usize>())); }
    c.count("cycles", done);
    c.count("always late", 1);
    Ok(())
}
/// Instances that come and go.
pub fn instances(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let len = g.s.size(12);
    let x = script(&mut g, len, false);
    let size: usize = x.ops.iter().map(|o| match o { Op::In(b) => b.len(), _ => 64 }).sum::<usize>() + 20;
    let bound = 20_000 + 2 * size;
    c.sample(|| show_script(&x));
    c.nontrivial = true;
    let once = |k: u64| -> Result<(), String> { let mut i = make(&x.kind); again(&mut i, &x.ops[..x.ops.len() - (k as usize % 3).min(x.ops.len())], bound, &mut Late { by: 0, held: vec![] }).map(|_| ()) };
    for k in 0..8 { once(k)?; }
    let start = live();
    let n = (1_000_000 / (200 + size)).clamp(200, 5_000) as u64;
    for k in 0..n {
        once(k)?;
        let grown = live() - start;
        if grown > 16 * 1024 { return Err(format!("[MEMORY] {grown} bytes are kept after {k} instances have come and gone")); }
    }
    c.count("instances", n);
    Ok(())
}
/// Literals that are announced and arrive in part or not at all.
pub fn announced(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let length = match g.s.below(4) { 0 => u32::MAX - g.s.size(100) as u32, 1 => 1 << g.s.range(16, 31), 2 => 1 + g.s.size(1 << 31) as u32, _ => g.s.range(500_000, 20_000_000) as u32 };
    let server = g.s.bool();
    let mut i;
    let first: Vec<u8>;
    if server {
        let mut o = imap_next::server::Options::default();
        if g.s.bool() { o.max_literal_size = length; o.max_command_size = length.saturating_add(70_000); }
        i = make(&Kind::S(o, g.greeting()));
        let plus = if g.s.bool() { "+" } else { "" };
        first = match g.s.below(3) { 0 => format!("a LOGIN {{{length}{plus}}}\r\n"), 1 => format!("a APPEND INBOX {{{length}{plus}}}\r\n"), _ => format!("a LOGIN {{3}}\r\nabc {{{length}{plus}}}\r\n") }.into();
    } else {
        i = make(&Kind::C(g.s.bool()));
        let gr = g.greeting();
        let mut f = enc_greeting(&gr);
        f.extend(match g.s.below(3) { 0 => format!("* 1 FETCH (BODY[] {{{length}}}\r\n"), 1 => format!("* LIST () \"/\" {{{length}}}\r\n"), _ => format!("* 1 FETCH (BODY[] {{3}}\r\nabc BODY[] {{{length}}}\r\n") }.into_bytes());
        first = f;
    }
    let chunks: Vec<usize> = (0..g.s.idx(6)).map(|_| if g.s.bool() { g.s.size(100) } else { g.s.size(60_000) }).collect();
    let chunks: Vec<Vec<u8>> = std::iter::once(first).chain(chunks.into_iter().map(|n| vec![b'x'; n])).collect();
    c.nontrivial = true;
    c.count("client", u64::from(!server));
    c.sample(|| format!("{} gets {:?} and chunks of {:?} bytes", if server { "server" } else { "client" }, show(&chunks[0]), chunks[1..].iter().map(Vec::len).collect::<Vec<_>>()));
    let start = live();
    pbt::mem::reset_peak();
    let mut fed = 0;
    for b in &chunks {
        fed += b.len() as i64;
        // (no draining: a literal that is taken apart into lines gives very many errors)
        match &mut i { Inst::S(s, _) => { s.enqueue_input(b); for _ in 0..8 { let _ = sm::observe(s.next()); } } Inst::C(s, _) => { s.enqueue_input(b); for _ in 0..8 { let _ = cm::observe(s.next()); } } }
        let grown = pbt::mem::peak() - start;
        if grown > 512 * 1024 + 12 * fed { return Err(format!("[MEMORY] {grown} bytes were taken after {fed} bytes were received, for a literal of which {length} bytes were announced")); }
    }
    Ok(())
}
