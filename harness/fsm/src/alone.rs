//! P35: what one client or server does never depends on what others do.
use gen::*;
use pbt::{Case, Src};

use crate::script::*;

pub fn p35(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut g = G::new(s);
    let n = g.s.range(2, 4);
    let mut scripts: Vec<Script> = vec![];
    for _ in 0..n {
        let len = 4 + steps(g.s, 24);
        // sometimes two that do the very same
        let x = if !scripts.is_empty() && g.s.chance(1, 5) { let i = g.s.idx(scripts.len()); scripts[i].clone() } else { script(&mut g, len, false) };
        scripts.push(x);
    }
    let mut alone: Vec<Vec<String>> = vec![];
    for x in &scripts {
        let mut i = make(&x.kind);
        let (mut fed, mut out) = (0, vec![]);
        for op in &x.ops { i.apply(op, &mut fed, &mut out)?; }
        alone.push(out);
    }
    let all = beside(g.s, &scripts)?;
    let busy = alone.iter().filter(|x| x.iter().filter(|t| !t.is_empty()).count() >= 3).count();
    c.nontrivial = busy >= 2;
    c.count("instances", n as u64);
    c.count("observations", alone.iter().map(|x| x.len() as u64).sum());
    c.sample(|| scripts.iter().map(show_script).collect::<Vec<_>>().join("\n"));
    for (i, (a, b)) in alone.iter().zip(&all).enumerate() {
        if a != b {
            let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return Err(format!("instance {i} alone: {:?}, beside others: {:?} (observation {at})", a.get(at), b.get(at)));
        }
    }
    Ok(())
}
/// Does what the scripts say, step by step in turns, and gives what each instance was observed to do.
fn beside(g: &mut Src, scripts: &[Script]) -> Result<Vec<Vec<String>>, String> {
    let n = scripts.len();
    // 0: one thread, 1: every step on whatever thread, 2: a thread for each
    let how = g.weighted(&[8, 1, 1]);
    let mut all: Vec<(Inst, usize, usize, Vec<String>)> = vec![];
    let mut late: Vec<usize> = vec![];
    for x in scripts { if how == 0 && g.bool() { late.push(1); } else { late.push(0); } all.push((make(&x.kind), 0, 0, vec![])); }
    if how == 2 {
        let start = std::sync::Barrier::new(n);
        let rs: Vec<Result<(), String>> = std::thread::scope(|sc| {
            let start = &start;
            let hs: Vec<_> = all.iter_mut().zip(scripts).map(|(a, x)| sc.spawn(move || { start.wait(); for op in &x.ops { a.0.apply(op, &mut a.2, &mut a.3)?; } Ok(()) })).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic beside others".into()))).collect()
        });
        for r in rs { r?; }
    } else {
        loop {
            let open: Vec<usize> = (0..n).filter(|i| all[*i].1 < scripts[*i].ops.len()).collect();
            if open.is_empty() { break; }
            let i = *g.pick(&open);
            // an instance may be made when others have worked already
            if late[i] == 1 && all[i].1 == 0 { late[i] = 0; let fresh = make(&scripts[i].kind); all[i].0 = fresh; }
            let k = 1 + g.idx(3);
            let a = &mut all[i];
            let end = (a.1 + k).min(scripts[i].ops.len());
            let ops = &scripts[i].ops[a.1..end];
            a.1 = end;
            if how == 1 && g.chance(1, 3) { std::thread::scope(|sc| sc.spawn(|| { for op in ops { a.0.apply(op, &mut a.2, &mut a.3)?; } Ok::<(), String>(()) }).join().unwrap_or_else(|_| Err("panic on another thread".into())))?; }
            else { for op in ops { a.0.apply(op, &mut a.2, &mut a.3)?; } }
        }
    }
    Ok(all.into_iter().map(|a| a.3).collect())
}

/// The same in processes of their own, so that nothing a process keeps can have been set by others before:
/// every script alone in a fresh process, and all of them in turns in another one.
pub fn processes(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let n = s.range(2, 4);
    let order = s.u64();
    let mut scripts: Vec<String> = vec![];
    for _ in 0..n { let len = 4 + steps(s, 24); let seed = s.u64(); scripts.push(format!("{seed}:{len}")); }
    let run = |what: &[String]| -> Result<Vec<Vec<String>>, String> {
        let exe = std::env::current_exe().map_err(|_| String::new())?;
        let out = std::process::Command::new(exe).arg(CHILD).arg(order.to_string()).args(what).output().map_err(|_| String::new())?;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        if !out.status.success() { return Err(text); }
        Ok(text.split('\0').filter(|x| !x.is_empty()).map(|x| x.split('\x01').map(|l| l.to_owned()).collect()).collect())
    };
    let mut alone = vec![];
    // one that panics or doesn't end by itself says nothing about others
    for x in &scripts { match run(std::slice::from_ref(x)) { Ok(mut v) if v.len() == 1 => alone.push(v.remove(0)), _ => return Ok(()) } }
    c.nontrivial = alone.iter().filter(|x| x.iter().skip(1).filter(|t| !t.is_empty()).count() >= 3).count() >= 2;
    c.count("instances", n as u64);
    c.count("observations", alone.iter().map(|x| x.len() as u64 - 1).sum());
    c.sample(|| alone.iter().map(|x| x[0].clone()).collect::<Vec<_>>().join("\n"));
    let all = run(&scripts).map_err(|e| format!("ends alone, but not beside others: {e}"))?;
    for (i, (a, b)) in alone.iter().zip(&all).enumerate() {
        if a != b {
            let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return Err(format!("instance {i} alone in its process: {:?}, beside others: {:?} (observation {at})", a.get(at), b.get(at)));
        }
    }
    Ok(())
}
pub const CHILD: &str = "--instances";
/// What such a process does.
pub fn child(args: &[String]) -> ! {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(4) });
    std::panic::set_hook(Box::new(|i| { print!("{i}"); }));
    let order: u64 = args[0].parse().unwrap();
    let mut scripts = vec![];
    for a in &args[1..] {
        let (seed, len) = a.split_once(':').unwrap();
        let mut s = Src::random(seed.parse().unwrap());
        scripts.push(script(&mut G::new(&mut s), len.parse().unwrap(), false));
    }
    match beside(&mut Src::random(order), &scripts) {
        Ok(all) => for (x, o) in scripts.iter().zip(all) { print!("{}", show_script(x)); for l in o { print!("\x01{l}"); } print!("\0"); },
        Err(e) => { print!("{e}"); std::process::exit(3) }
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}
