//! P35: what one stream does never depends on what others do.
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use pbt::{Case, Src};

use crate::{single, Prof, BASE};

thread_local! { static BESIDE: Cell<bool> = const { Cell::new(false) }; }
/// Where the others may go on.
pub async fn turn() {
    if !BESIDE.get() { return; }
    let mut first = true;
    std::future::poll_fn(|_| if std::mem::take(&mut first) { Poll::Pending } else { Poll::Ready(()) }).await
}

fn runtime(seed: u64) -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes())).build().unwrap() }
fn alone(seed: u64, p: Prof) -> (Result<(), String>, Case) {
    let mut c = Case::default();
    let r = pbt::no_panic(|| runtime(seed).block_on(single(&mut Src::random(seed), &mut c, p))).unwrap_or_else(Err);
    (r, c)
}


fn prof(s: &mut Src) -> Prof {
    let tls = *s.pick(&[0, 0, 10]);
    match s.below(4) { 0 => Prof { tls, ..BASE }, 1 => Prof { tls, cancel: 12, cap: 7, flush: 3, early: 2, ..BASE }, 2 => Prof { tls, fault: 8, cap: 8, early: 2, ..BASE }, _ => Prof { tls, flush: 9, cancel: 4, fault: 2, cap: 6, early: 1, ..BASE } }
}
fn moved(x: &Case) -> bool { ["bytes in", "bytes out"].iter().all(|k| x.counters.iter().any(|c| c.0 == *k && c.1 > 0)) }
fn busy(cases: &[Case]) -> usize { cases.iter().filter(|c| moved(c)).count() }

/// All of them at once, in turns chosen by `s`.
fn together(s: &mut Src, plan: &[(u64, Prof)], keep: bool) -> (Vec<Result<(), String>>, Vec<Case>) {
    let n = plan.len();
    let mut cases: Vec<Case> = plan.iter().map(|_| Case { want_sample: keep, ..Default::default() }).collect();
    if s.chance(1, 8) {
        let start = std::sync::Barrier::new(n);
        let r = std::thread::scope(|t| {
            let hs: Vec<_> = plan.iter().map(|(seed, p)| { let start = &start; t.spawn(move || { start.wait(); alone(*seed, *p) }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (Err("panic".into()), Case::default()))).collect::<Vec<_>>()
        });
        return r.into_iter().unzip();
    }
    let mut srcs: Vec<Src> = plan.iter().map(|x| Src::random(x.0)).collect();
    let rt = runtime(s.u64());
    BESIDE.set(true);
    let r = pbt::no_panic(|| rt.block_on(async {
        let mut all: Vec<Option<Pin<Box<dyn Future<Output = Result<(), String>> + '_>>>> = vec![];
        for ((x, c), (_, p)) in srcs.iter_mut().zip(&mut cases).zip(plan) { all.push(Some(Box::pin(single(x, c, *p)))); }
        let mut rs = vec![Ok(()); n];
        let mut cx = Context::from_waker(Waker::noop());
        loop {
            let open: Vec<usize> = (0..n).filter(|i| all[*i].is_some()).collect();
            if open.is_empty() { break; }
            let i = open[s.idx(open.len())];
            for _ in 0..1 + s.idx(6) {
                let Some(f) = &mut all[i] else { break };
                if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { rs[i] = r; all[i] = None; }
            }
        }
        rs
    }));
    BESIDE.set(false);
    (r.unwrap_or_else(|e| vec![Err(format!("panic: {e}"))]), cases)
}

pub fn p35(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let n = s.range(2, 5);
    let plan: Vec<(u64, Prof)> = (0..n).map(|_| (s.u64(), prof(s))).collect();
    let mut first = vec![];
    for (seed, p) in &plan {
        let (r, x) = alone(*seed, *p);
        if let Err(e) = r {
            // one that goes wrong alone says nothing about others, but one that does so only after others does
            let (again, _) = std::thread::scope(|t| t.spawn(|| alone(*seed, *p)).join().unwrap_or_else(|_| (Err("panic".into()), Case::default())));
            return match again { Err(_) => Ok(()), Ok(()) => Err(format!("a stream that does right on a thread of its own, after others: {e}")) };
        }
        first.push(x);
    }
    c.nontrivial = busy(&first) >= 2;
    c.count("streams", n as u64);
    for x in first { for (k, v) in x.counters { c.count(k, v); } }
    let (results, mut cases) = together(s, &plan, c.want_sample || c.verbose);
    c.sample(|| cases.iter_mut().enumerate().map(|(i, c)| format!("-- stream {i}\n{}", c.sample.take().unwrap_or("on a thread of its own".into()))).collect::<Vec<_>>().join("\n"));
    for (i, r) in results.into_iter().enumerate() { if let Err(e) = r { return Err(format!("stream {i}, which does right alone, beside {} others: {e}", n - 1)); } }
    Ok(())
}

/// The same in processes of their own, so that nothing a process keeps can have been set by others before.
pub fn processes(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let n = s.range(2, 4);
    let order = s.u64();
    let seeds: Vec<String> = (0..n).map(|_| s.u64().to_string()).collect();
    // true: nothing went wrong there; the others: what did, and how many moved bytes both ways
    let run = |what: &[String]| -> Option<Result<u64, String>> {
        let out = std::process::Command::new(std::env::current_exe().ok()?).arg(CHILD).arg(order.to_string()).args(what).output().ok()?;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        match out.status.code()? { 0 => Some(Ok(text.trim().parse().ok()?)), 3 => Some(Err(text)), _ => None }
    };
    let mut both = 0;
    for x in &seeds { match run(std::slice::from_ref(x)) { Some(Ok(k)) => both += k, _ => return Ok(()) } }
    c.nontrivial = both >= 2;
    c.count("streams", n as u64);
    c.sample(|| format!("{n} streams, {both} of which moved bytes both ways, seeds {seeds:?}, turns {order}"));
    match run(&seeds) { Some(Err(e)) => Err(format!("{n} streams that do right alone, together: {e}")), _ => Ok(()) }
}
pub const CHILD: &str = "--streams";
/// What such a process does.
pub fn child(args: &[String]) -> ! {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(30)); std::process::exit(4) });
    let plan: Vec<(u64, Prof)> = args[1..].iter().map(|a| { let mut s = Src::random(a.parse().unwrap()); (s.u64(), prof(&mut s)) }).collect();
    let (results, cases) = together(&mut Src::random(args[0].parse().unwrap()), &plan, false);
    for (i, r) in results.iter().enumerate() { if let Err(e) = r { print!("stream {i}: {e}"); std::process::exit(3) } }
    print!("{}", busy(&cases));
    std::process::exit(0)
}
