//! P37: what the program starts, announces, and when it ends.
use std::cell::RefCell;
use std::future::Future;
use std::io::ErrorKind;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

use pbt::{Case, Src};
use tokio::net::TcpListener;
use tokio::sim;

use crate::session::*;
use crate::sessions::*;
use crate::world::*;

/// What is at hand at once.
fn now<T>(f: impl Future<Output = T>) -> T { match pin!(f).poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(x) => x, Poll::Pending => unreachable!() } }

/// Runs the program; `before` makes what is there before it starts. True: it has ended, else the driver ended first.
fn start<R>(seed: u64, args: Vec<String>, before: impl FnOnce() -> R, driver: impl AsyncFnOnce(&R) -> Result<(), String>) -> Result<bool, String> {
    argh::sim::set_args(args);
    sim::reset();
    crate::world::pace(seed);
    let r = before();
    let out: RefCell<Option<Result<(), String>>> = RefCell::new(None);
    {
        let d: std::pin::Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async { let x = driver(&r).await; *out.borrow_mut() = Some(x); });
        // SAFETY: the driver is dropped before `drive` returns.
        let d: sim::Driver = unsafe { std::mem::transmute(d) };
        sim::drive(seed, d, proxylib::run_program);
    }
    let listening = sim::listening();
    drop(r);
    sim::reset();
    match out.into_inner() {
        Some(Ok(())) => Ok(false),
        Some(Err(e)) => Err(e),
        None => { let _ = listening; Ok(true) }
    }
}
/// The program has all the time it may need.
async fn long() { for _ in 0..30 { settle().await; } }

/// In this order, whatever stands between them.
fn in_order(text: &str, parts: &[String]) -> Result<(), String> {
    let mut at = 0;
    for p in parts { match text[at..].find(p.as_str()) { Some(i) => at += i + p.len(), None => return Err(format!("the program announces\n{text}which lacks {p:?} in its place")) } }
    Ok(())
}

pub fn services_start(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let n = match s.below(6) { 0 => 0, 1 => if s.chance(1, 6) { s.range(25, 300) } else { s.range(5, 24) }, _ => s.range(1, 4) };
    let mut svcs = services(s, n, 3);
    for (i, v) in svcs.iter_mut().enumerate() {
        v.name = match s.below(4) { 0 => s.pick(&["", " ", "#", "# x", "ä", "x -> y", "[[services]]", "same", "same", "imap://127.0.0.1:1000 (insecure)", "Best Email Provider"]).to_string(), _ => format!("svc {i}") };
        v.bind.0 = s.pick(&["127.0.0.1", "127.0.0.1", "0.0.0.0", "localhost", "::1", "[::1]", "::", "mail.test", "*", ""]).to_string();
        v.bind.1 = match s.below(4) { 0 => *s.pick(&[143, 993, 0, 1, 65535, 1143]), _ => v.bind.1 };
    }
    // how each is to fare
    let mut held: Vec<String> = vec![];
    let mut broken: Vec<(String, ErrorKind)> = vec![];
    let all_fail = s.chance(1, 4);
    for v in &svcs {
        let a = v.bind_addr();
        if all_fail || s.chance(1, 4) { if s.bool() { held.push(a) } else { broken.push((a, *s.pick(&[ErrorKind::PermissionDenied, ErrorKind::AddrNotAvailable, ErrorKind::AddrInUse, ErrorKind::InvalidInput, ErrorKind::Other, ErrorKind::NotFound, ErrorKind::Interrupted, ErrorKind::ConnectionRefused, ErrorKind::TimedOut]))) } }
    }
    // two that want the same address, one of which gets it
    if n > 1 && s.chance(1, 4) { let (i, j) = (s.idx(n), s.idx(n)); svcs[i].bind = svcs[j].bind.clone(); }
    let bad = |a: &String| held.contains(a) || broken.iter().any(|b| b.0 == *a);
    let mut want: Vec<String> = svcs.iter().map(|v| v.bind_addr()).filter(|a| !bad(a)).collect();
    want.sort();
    want.dedup();
    let text = if n == 0 { "services = []\n".to_owned() } else { config_text(&svcs) };
    c.nontrivial = n > 0 && (want.len() >= 2 || want.len() < n);
    c.count("services", n as u64);
    c.count("that can start", want.len() as u64);
    c.sample(|| format!("held {held:?} broken {broken:?}\n{text}"));
    let path = write_scratch(*s.pick(&["config.toml", "other.toml", "x", "my config"]), text.as_bytes());
    let ends = want.is_empty();
    let parts: Vec<String> = svcs.iter().flat_map(|v| {
        let shown = |tls: bool, a: String| if tls { format!("imaps://{a} (TLS)") } else { format!("imap://{a} (insecure)") };
        [v.name.clone(), shown(v.bind_tls.is_some(), v.bind_addr()), shown(v.connect_tls, v.connect_addr())]
    }).collect();
    let before = || {
        let taken: Vec<TcpListener> = held.iter().filter_map(|a| now(TcpListener::bind(a)).ok()).collect();
        for (a, k) in &broken { sim::unbindable(a, *k); }
        let ls: Vec<TcpListener> = svcs.iter().map(|v| now(TcpListener::bind(v.connect_addr())).unwrap()).collect();
        (taken, ls)
    };
    let mut others: Vec<String> = svcs.iter().map(|v| v.connect_addr()).chain(held.iter().cloned()).collect();
    let ended = {
        let svcs = &svcs;
        let (want, parts) = (&want, &parts);
        let others = &mut others;
        let s = &mut *s;
        start(seed, vec!["--config".into(), path], before, async move |(_, ls): &(Vec<TcpListener>, Vec<TcpListener>)| {
            long().await;
            if ends { return Err("the program goes on although no service could be started".into()); }
            let mut due: Vec<String> = want.iter().cloned().chain(others.drain(..)).collect();
            due.sort();
            due.dedup();
            let got = sim::listening();
            if got != due { return Err(format!("listening at {got:?} (with the test's own), due {due:?}")); }
            in_order(&argh::sim::printed(), parts)?;
            // each serves, and leads to where it should
            let mut n = 0;
            let prof = Prof { caps: 0, junk: 0, special: 2 };
            let mut xs = vec![];
            for a in want {
                let those: Vec<usize> = (0..svcs.len()).filter(|i| svcs[*i].bind_addr() == *a).collect();
                if those.len() > 1 {
                    // whichever has it: one of the servers hears of the client
                    if those.iter().any(|i| svcs[*i].bind_tls.is_some()) { continue; }
                    let mut e = dial(&svcs[those[0]], None).await?;
                    let mut reached = 0;
                    for _ in 0..12 { settle().await; e.pump(); for i in &those { if try_accept(&ls[*i]).is_some() { reached += 1; } } }
                    if reached != 1 { return Err(format!("a client of {a} reached {reached} servers")); }
                    continue;
                }
                if want.len() > 6 && !s.chance(3, want.len() as u64) { continue; }
                let id = xs.len();
                xs.push(open(s, svcs, ls, those[0], id, prof, false, false).await.map_err(|e| format!("service {} at {a}: {e}", those[0]))?);
            }
            if !xs.is_empty() { let len = s.size(10); history(s, &mut n, &mut xs, len).await?; finish(s, &mut n, &mut xs).await?; }
            Ok(())
        })?
    };
    if ended && !ends { return Err("the program ended although it had services to run".into()); }
    if ended { in_order(&argh::sim::printed(), &parts)?; if argh::sim::outcome() != Some(true) { return Err("the program ended with an error although its configuration was loaded".into()); } }
    Ok(())
}

/// Configurations that cannot be loaded, and the one that is loaded if none is named.
pub fn nothing(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    c.nontrivial = true;
    static CWD: std::sync::Once = std::sync::Once::new();
    CWD.call_once(|| {
        let d = scratch().join("cwd");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("config.toml"), "[[services]]\nname = \"found here\"\nbind = { encryption = \"Insecure\", host = \"here.test\", port = 4143 }\nconnect = { encryption = \"Insecure\", host = \"there.test\" }\n").unwrap();
        std::env::set_current_dir(&d).unwrap();
    });
    let kind = s.below(7);
    if kind == 0 {
        c.count("no file named", 1);
        let before = || now(TcpListener::bind("there.test:143")).unwrap();
        let ended = start(seed, vec![], before, async |l: &TcpListener| {
            long().await;
            let got = sim::listening();
            if got != ["here.test:4143", "there.test:143"] { return Err(format!("without a file named, listening at {got:?} instead of what config.toml says")); }
            let c = tokio::net::TcpStream::connect("here.test:4143").await.map_err(|e| e.to_string())?;
            long().await;
            if try_accept(l).is_none() { return Err("the service of config.toml does not reach its server".into()); }
            drop(c);
            Ok(())
        })?;
        return if ended { Err("without a file named, the program ended".into()) } else { Ok(()) };
    }
    let n = s.range(1, 3);
    let svcs = services(s, n, 0);
    let good = config_text(&svcs);
    let i = s.idx(n);
    let (what, bytes): (&str, Option<Vec<u8>>) = match kind {
        1 => ("missing", None),
        2 => ("not TOML", Some(format!("{good}{}", s.pick(&["x\n", "[[services]\n", "= 1\n", "\"\n"])).into_bytes())),
        3 => ("lacking a field", Some(good.replacen(*s.pick(&["name = ", "host = ", "encryption = "]), "other = ", 1 + i).into_bytes())),
        4 => ("of a wrong type", Some(good.replacen("port = ", "port = 70", 1).into_bytes())),
        5 => ("not UTF-8", Some([good.as_bytes(), b"# \xff\n"].concat())),
        _ => ("without services", Some(b"# nothing\n".to_vec())),
    };
    c.sample(|| format!("{what}: {}", bytes.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default()));
    c.count(what, 1);
    let path = match bytes { Some(b) => write_scratch("config.toml", &b), None => { let p = write_scratch("gone.toml", b""); std::fs::remove_file(&p).unwrap(); p } };
    let ended = start(seed, vec!["--config".into(), path], || (), async |_: &()| { long().await; Err(format!("the program goes on with a configuration that is {what}")) })?;
    if !ended { return Err("no end".into()); }
    if argh::sim::outcome() != Some(false) { return Err(format!("the program ended as if all was well with a configuration that is {what}")); }
    if argh::sim::printed().contains("imap") { return Err(format!("the program announces services of a configuration that is {what}:\n{}", argh::sim::printed())); }
    Ok(())
}
