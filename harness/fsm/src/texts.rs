//! Literal accept and reject texts.
use fsm::server_model::*;
use gen::*;
use imap_next::server::Options;
use imap_types::response::*;
use pbt::{Case, Src};

/// Valid, unambiguous text of a continuation request: printable by the grammar, not starting like a
/// response code, and not itself (canonical, padded) base64. Written from RFC 3501 / RFC 4648.
pub fn valid(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| (1..=0x7f).contains(&b) && b != b'\r' && b != b'\n') && !t.starts_with('[') && !is_base64(t.as_bytes())
}
fn val(b: u8) -> Option<u8> { match b { b'A'..=b'Z' => Some(b - b'A'), b'a'..=b'z' => Some(b - b'a' + 26), b'0'..=b'9' => Some(b - b'0' + 52), b'+' => Some(62), b'/' => Some(63), _ => None } }
fn is_base64(b: &[u8]) -> bool {
    if b.len() % 4 != 0 { return false; }
    let pad = b.iter().rev().take_while(|c| **c == b'=').count();
    if pad > 2 { return false; }
    let body = &b[..b.len() - pad];
    if body.iter().any(|c| val(*c).is_none()) { return false; }
    match (pad, body.last()) { (0, _) => true, (1, Some(l)) => val(*l).unwrap() & 3 == 0, (2, Some(l)) => val(*l).unwrap() & 15 == 0, _ => false }
}

fn text(s: &mut Src) -> String {
    match s.below(10) {
        // words that may be base64, of any length
        8 => { let mut k = match s.below(3) { 0 => 1 + s.idx(80), 1 => 4 * (1 + s.idx(100)), _ => 1 + s.idx(3000) }; if s.chance(1, 5) { k = 1 << s.range(2, 12); } let set = *s.pick(&["a", "aZ", "abcXYZ0189", "A+/"]); let mut t = s.string(k, set); match s.below(6) { 0 => t.push('='), 1 => t.push_str("=="), 2 => t.insert(0, ' '), 3 => t.push(' '), _ => {} } t }
        0 => { let k = s.size(30); s.string(k, "abc XYZ019.,:") }
        1 => { let k = 4 * s.idx(6); let mut t = s.string(k, "ABab01+/"); match s.below(4) { 0 if t.len() >= 4 => { t.pop(); t.push('=') } 1 if t.len() >= 4 => { t.pop(); t.pop(); t.push_str("==") } 2 if t.len() >= 4 => { t.truncate(t.len() - 2); t.push_str("A=") } _ => {} } t }
        2 => { let k = s.size(8); format!("[{}", s.string(k, "ALERT] x")) }
        3 => { let k = s.size(12); s.string(k, "ab\r\n\0 \u{7f}\u{1}") }
        4 => { let k = s.size(8); s.string(k, "aé漢 \u{80}ü") }
        5 => String::new(),
        6 => s.pick(&["...", " ", "=", "====", "==", "abcd", "abc=", "ab==", "a===", "ab=c", "AB==AB==", "[", "x[", " [ALERT] x", "abcd ", "abcde", "ABCD\t", "{3}", "+ OK"]).to_string(),
        7 => { let k = 200 + s.idx(2000); s.string(k, "ab c") }
        _ => { let k = s.size(10); (0..k).map(|_| char::from_u32(s.below(256) as u32).unwrap()).collect() }
    }
}

pub fn setters(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut o = Options::default();
    o.crlf_relaxed = s.bool();
    o.max_literal_size = s.below(1000) as u32;
    o.max_command_size = o.max_literal_size + 1 + s.below(1000) as u32;
    let fixed = (o.crlf_relaxed, o.max_literal_size, o.max_command_size);
    let mut accept = o.literal_accept_text().as_ref().to_owned();
    let mut reject = o.literal_reject_text().as_ref().to_owned();
    let (mut ok, mut err) = (0, 0);
    let n = 1 + s.size(10);
    let mut log = vec![];
    for _ in 0..n {
        let which = s.bool();
        let t = match s.below(8) { 0 => accept.clone(), 1 => reject.clone(), _ => text(s) };
        let r = if which { o.set_literal_accept_text(t.clone()) } else { o.set_literal_reject_text(t.clone()) };
        log.push(format!("set_{}({t:?}) -> {}", if which { "accept" } else { "reject" }, r.is_ok()));
        match r {
            Ok(()) => { ok += 1; if !valid(&t) { return Err(format!("[API] the text {t:?} was taken although it is not valid")); } if which { accept = t } else { reject = t } }
            Err(back) => { err += 1; if valid(&t) { return Err(format!("[API] the valid text {t:?} was refused")); } if back != t { return Err(format!("[API] refused {t:?} but returned {back:?}")); } }
        }
        let c2 = o.clone();
        for o in [&o, &c2] {
            if o.literal_accept_text().as_ref() != accept || o.literal_reject_text().as_ref() != reject { return Err(format!("[API] after {log:?} the texts are {:?} and {:?}, expected {accept:?} and {reject:?}", o.literal_accept_text(), o.literal_reject_text())); }
        }
        if (o.crlf_relaxed, o.max_literal_size, o.max_command_size) != fixed { return Err("[API] another option changed".into()); }
    }
    c.nontrivial = ok > 0 && err > 0;
    c.sample(|| log.join("; "));
    Ok(())
}

/// The texts, as last set, are what the replies carry.
pub fn replies(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut o = Options::default();
    o.max_literal_size = 10;
    let (mut a, mut r) = ("...".to_string(), "...".to_string());
    for _ in 0..s.idx(6) {
        let t = text(s);
        if s.bool() { if o.set_literal_accept_text(t.clone()).is_ok() { a = t } } else if o.set_literal_reject_text(t.clone()).is_ok() { r = t }
    }
    let mut run = Run::new(o, Greeting::ok(None, "hi there").unwrap(), c.want_sample || c.verbose);
    run.drain()?;
    let mut g = G::new(s);
    for _ in 0..3 {
        let tag = g.tag();
        let over = g.s.bool();
        let n = if over { 11 + g.s.idx(50) } else { g.s.idx(11) };
        run.input(format!("{} LOGIN {{{n}}}\r\n", tag.as_ref()).as_bytes());
        let mut out = vec![];
        for _ in 0..20 { match observe(imap_next::State::next(&mut run.server)) { Obs::Output(b) => { out.extend(b.clone()); run.note(|| format!("  -> {}", show(&b))); } Obs::Need => break, _ => {} } }
        let want = if over { format!("{} BAD {r}\r\n", tag.as_ref()) } else { format!("+ {a}\r\n") };
        c.sample(|| format!("accept {a:?} reject {r:?} reply \"{}\"", show(&out)));
        c.nontrivial = true;
        if out != want.as_bytes() { return Err(format!("[OUT] reply \"{}\", due was {want:?}", show(&out))); }
        if !over { imap_next::State::enqueue_input(&mut run.server, &vec![b'x'; n]); imap_next::State::enqueue_input(&mut run.server, b" p\r\n"); for _ in 0..20 { if let Obs::Need = observe(imap_next::State::next(&mut run.server)) { break; } } }
    }
    Ok(())
}
