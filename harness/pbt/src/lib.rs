//! A small property-based testing engine in the style of Hypothesis: a case is generated from a tape of
//! integer choices; a failing tape is shrunk (choices deleted, zeroed, lowered) and written to a replay
//! file from which the same binary reproduces the case.
pub mod effort;
pub mod far;
pub mod mem;

use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const RUN_AWAY: &str = "[RUN-AWAY] too many choices past the end of the tape";
/// Source of choices: replays a tape, then (or instead) draws at random; records what was chosen.
pub struct Src { tape: Vec<u64>, rng: Option<u64>, pos: usize, rec: Vec<u64> }
impl Src {
    pub fn random(seed: u64) -> Self { Self { tape: vec![], rng: Some(mix(seed)), pos: 0, rec: vec![] } }
    pub fn replay(tape: Vec<u64>) -> Self { Self { tape, rng: None, pos: 0, rec: vec![] } }
    fn next_u64(&mut self) -> u64 { let s = self.rng.as_mut().unwrap(); *s = s.wrapping_add(0x9E3779B97F4A7C15); mix(*s) }
    /// Choice in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = if self.rng.is_some() { self.next_u64() % n } else { self.tape.get(self.pos).copied().unwrap_or(0).min(n - 1) };
        self.took(v);
        v
    }
    fn took(&mut self, v: u64) {
        self.pos += 1;
        self.rec.push(v);
        // a case that waits for a choice other than 0 would not end on a tape that has
        if self.rng.is_none() && self.pos > self.tape.len() + 2_000_000 { panic!("{RUN_AWAY}"); }
    }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Inclusive range, `lo` is simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below((hi - lo + 1) as u64) as usize }
    pub fn u64(&mut self) -> u64 {
        let v = if self.rng.is_some() { self.next_u64() } else { self.tape.get(self.pos).copied().unwrap_or(0) };
        self.took(v);
        v
    }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// True with probability `num/den`; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.idx(v.len()); &v[i] }
    /// Index by weights; the first is simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, w) in w.iter().enumerate() { if x < *w { return i; } x -= w; }
        unreachable!()
    }
    /// A size in `0..=max`, biased to small values.
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(4) { 0 => self.range(0, max.min(2)), 1 => self.range(0, max.min(8)), 2 => self.range(0, max.min(40)), _ => self.range(0, max) }
    }
    pub fn bytes(&mut self, n: usize, alphabet: &[u8]) -> Vec<u8> { (0..n).map(|_| *self.pick(alphabet)).collect() }
    pub fn string(&mut self, n: usize, alphabet: &str) -> String { let c: Vec<char> = alphabet.chars().collect(); (0..n).map(|_| *self.pick(&c)).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = i - self.idx(i + 1); v.swap(i, j); } }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Case { pub nontrivial: bool, pub key: Option<u64>, pub sample: Option<String>, pub want_sample: bool, pub verbose: bool, pub counters: Vec<(&'static str, u64)> }
impl Case {
    pub fn count(&mut self, name: &'static str, n: u64) { match self.counters.iter_mut().find(|c| c.0 == name) { Some(c) => c.1 += n, None => self.counters.push((name, n)) } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.want_sample && self.sample.is_none() { self.sample = Some(f()); } }
}

pub type CaseFn = fn(&mut Src, &mut Case) -> Result<(), String>;
pub struct Section { pub name: &'static str, pub rule: &'static str, pub quick: u64, pub thorough: u64, pub run: CaseFn }
pub struct Property { pub id: &'static str, pub sections: Vec<Section> }

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 || c == '\u{7f}' => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
    }));
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }
/// Runs `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic()) }

fn run_one(f: CaseFn, src: &mut Src, case: &mut Case) -> Result<(), String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| f(src, case))) { Ok(r) => r, Err(_) => Err(format!("panic: {}", last_panic())) }
}

/// Ticks while a failing case is shrunk, so that the watchdog can tell a shrinking attempt that hangs.
static SHRINKING: AtomicU64 = AtomicU64::new(0);

static ALIVE: AtomicU64 = AtomicU64::new(0);
/// To be called now and then by a case that runs for long.
pub fn alive() { ALIVE.fetch_add(1, Ordering::Relaxed); }

fn violation_json(prop: &str, sec: &str, cs: Option<u64>, tape: &[u64], msg: &str, case: &str) -> String {
    format!("{{\n \"property\": {},\n \"section\": {},\n {}\"tape\": {:?},\n \"message\": {},\n \"case\": {}\n}}\n",
        esc(prop), esc(sec), cs.map(|c| format!("\"case_seed\": {c},\n ")).unwrap_or_default(), tape, esc(msg), esc(case))
}

fn shrink(f: CaseFn, mut best: Vec<u64>, mut msg: String, budget: Duration) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let attempt = |tape: Vec<u64>| -> Option<(Vec<u64>, String)> {
        let mut s = Src::replay(tape);
        SHRINKING.fetch_add(1, Ordering::Relaxed);
        match run_one(f, &mut s, &mut Case::default()) {
            Err(m) if m.contains(RUN_AWAY) => None,
            Err(m) => { let mut r = s.rec; while r.last() == Some(&0) { r.pop(); } Some((r, m)) }
            Ok(()) => None,
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    loop {
        let mut changed = false;
        for block in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 && t0.elapsed() < budget {
                i = i.saturating_sub(1).min(best.len());
                if i + block > best.len() { continue; }
                let mut t = best.clone();
                t.drain(i..i + block);
                if let Some((r, m)) = attempt(t) { if better(&r, &best) { best = r; msg = m; changed = true; continue; } }
                if block > 1 && best[i..i + block].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..i + block].fill(0);
                    if let Some((r, m)) = attempt(t) { if better(&r, &best) { best = r; msg = m; changed = true; } }
                }
            }
        }
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let v = best[i];
            let mut cands = vec![0, v / 2, v.saturating_sub(1)];
            cands.dedup();
            for c in cands {
                if c >= v { continue; }
                let mut t = best.clone();
                t[i] = c;
                if let Some((r, m)) = attempt(t) { if better(&r, &best) { best = r; msg = m; changed = true; break; } }
            }
            i += 1;
        }
        if !changed || t0.elapsed() >= budget { return (best, msg); }
    }
}

struct Args { prop: String, tier: String, seed: u64, out: String, replay: String, state: String, max_s: u64, scale: f64, only: String, case_seed: Option<u64>, section: String }
fn args() -> Args {
    let mut a = Args { prop: String::new(), tier: "quick".into(), seed: 1, out: String::new(), replay: String::new(), state: String::new(), max_s: 0, scale: 1.0, only: String::new(), case_seed: None, section: String::new() };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--tier" => a.tier = v(), "--seed" => a.seed = v().parse().unwrap(), "--out" => a.out = v(), "--replay" => a.replay = v(), "--state" => a.state = v(),
            "--max-s" => a.max_s = v().parse().unwrap(), "--scale" => a.scale = v().parse().unwrap(), "--only" => a.only = v(),
            "--case-seed" => a.case_seed = Some(v().parse().unwrap()), "--section" => a.section = v(),
            p => a.prop = p.to_owned(),
        }
    }
    a
}

/// Entry point of a check binary: `<bin> <PROPERTY> --tier T --seed N --out FILE --state FILE`, or
/// `<bin> --replay FILE`, or `<bin> <PROPERTY> --section S --case-seed N`.
/// Exit codes: 0 held, 1 violated (replay file written), 97 a case does not end.
pub fn main(props: Vec<Property>) {
    let a = args();
    if !a.replay.is_empty() {
        let text = std::fs::read_to_string(&a.replay).expect("replay file");
        let field = |k: &str| text.split(&format!("\"{k}\": ")).nth(1).unwrap_or_default().to_owned();
        let str_field = |k: &str| field(k).trim_start_matches('"').split('"').next().unwrap().to_owned();
        let (id, sec) = (str_field("property"), str_field("section"));
        let tape: Vec<u64> = field("tape").trim_start_matches('[').split(']').next().unwrap().split(',').filter_map(|x| x.trim().parse().ok()).collect();
        let seed: Option<u64> = field("case_seed").split([',', '\n', '}']).next().and_then(|x| x.trim().parse().ok());
        let s = props.iter().find(|p| p.id == id).expect("property").sections.iter().find(|s| s.name == sec).expect("section").run;
        let mut src = match seed { Some(x) => Src::random(x), None => Src::replay(tape) };
        finish(run_one(s, &mut src, &mut Case { verbose: true, want_sample: true, ..Case::default() }));
    }
    let prop = props.iter().find(|p| p.id == a.prop).unwrap_or_else(|| panic!("unknown property {}", a.prop));
    if let Some(cs) = a.case_seed {
        let s = prop.sections.iter().find(|s| s.name == a.section).expect("section").run;
        quiet_panics();
        finish(run_one(s, &mut Src::random(cs), &mut Case { verbose: true, want_sample: true, ..Case::default() }));
    }
    quiet_panics();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let max_s = if a.max_s > 0 { a.max_s } else if a.tier == "thorough" { 3600 } else { 60 };
    let t0 = Instant::now();
    let state = if a.state.is_empty() { None } else { Some(std::fs::File::create(&a.state).unwrap()) };
    let progress: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicBool::new(false);
    let (mut total, mut distinct, mut foreign_json) = (0u64, 0u64, String::new());
    let mut samples: Vec<String> = vec![];
    let mut violation: Option<String> = None;
    let slowest = AtomicU64::new(0);
    let fail: Mutex<Option<(&'static str, u64, Vec<u64>, String)>> = Mutex::new(None);
    let emit = |json: &str| if a.out.is_empty() { println!("{json}"); } else { std::fs::write(&a.out, json).unwrap(); };
    std::thread::scope(|scope| {
        // Watchdog: a case that makes no progress for a long time ends the process with code 97; the
        // driver then re-runs the cases that were under way one by one.
        let (progress, finished, fail, emit) = (&progress, &finished, &fail, &emit);
        scope.spawn(move || {
            let mut shr = (0, Instant::now());
            let mut shrinking: Option<Instant> = None;
            let mut beat = (0, Instant::now());
            let mut last: Vec<(u64, Instant)> = progress.iter().map(|p| (p.load(Ordering::Relaxed), Instant::now())).collect();
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                if SHRINKING.load(Ordering::Relaxed) > 0 && shrinking.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(120) { give_up(fail, prop.id, emit); }
                let v = ALIVE.load(Ordering::Relaxed);
                if v != beat.0 { beat = (v, Instant::now()); }
                if v > 0 && beat.1.elapsed() < Duration::from_secs(25) { continue; }
                for (p, l) in progress.iter().zip(&mut last) {
                    let v = p.load(Ordering::Relaxed);
                    if v != l.0 || v == 0 { *l = (v, Instant::now()); } else if l.1.elapsed() > Duration::from_secs(25) { give_up(fail, prop.id, emit); }
                }
                let v = SHRINKING.load(Ordering::Relaxed);
                if v != shr.0 || v == 0 { shr = (v, Instant::now()); } else if shr.1.elapsed() > Duration::from_secs(25) { give_up(fail, prop.id, emit); }
            }
        });
        let nsec = prop.sections.iter().filter(|s| a.only.is_empty() || s.name == a.only).count() as u64;
        for sec in prop.sections.iter().filter(|s| a.only.is_empty() || s.name == a.only) {
            let n = ((if a.tier == "thorough" { sec.thorough } else { sec.quick }) as f64 * a.scale).ceil() as u64;
            let deadline = Instant::now() + Duration::from_secs(max_s) / nsec as u32;
            let next = AtomicU64::new(0);
            let done = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let keys: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
            let sams: Mutex<Vec<String>> = Mutex::new(vec![]);
            let counters: Mutex<Vec<(&'static str, u64)>> = Mutex::new(vec![]);
            let base = mix(a.seed ^ mix(hash_of(sec.name) ^ mix(hash_of(prop.id))));
            std::thread::scope(|s2| {
                for w in 0..threads {
                    let (next, done, stop, keys, sams, counters, state, progress, slowest) = (&next, &done, &stop, &keys, &sams, &counters, &state, &progress, &slowest);
                    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s2, move || {
                        let mut mine: HashSet<u64> = HashSet::new();
                        let mut cnt = Case::default();
                        let mut got = 0usize;
                        loop {
                            if stop.load(Ordering::Relaxed) { break; }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || (i % 16 == 0 && Instant::now() > deadline) { break; }
                            let cs = mix(base ^ mix(i));
                            if let Some(f) = state { let _ = f.write_all_at(format!("{:<16}{:<24}\n", sec.name, cs).as_bytes(), w as u64 * 41); }
                            progress[w].fetch_add(1, Ordering::Relaxed);
                            let mut src = Src::random(cs);
                            let mut case = Case { want_sample: got < 2, ..Case::default() };
                            let t = Instant::now();
                            let r = run_one(sec.run, &mut src, &mut case);
                            let took = t.elapsed();
                            slowest.fetch_max(took.as_millis() as u64, Ordering::Relaxed);
                            done.fetch_add(1, Ordering::Relaxed);
                            for (k, v) in &case.counters { cnt.count(k, *v); }
                            if case.nontrivial { mine.insert(case.key.unwrap_or_else(|| hash_of(&src.rec))); }
                            if let (Some(s), true) = (case.sample, case.nontrivial) { got += 1; sams.lock().unwrap().push(s); }
                            if let Err(m) = r {
                                stop.store(true, Ordering::Relaxed);
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().is_none_or(|x| x.2.len() > src.rec.len()) { *f = Some((sec.name, cs, if took > Duration::from_secs(4) { vec![] } else { src.rec }, m)); }
                                break;
                            }
                        }
                        progress[w].store(0, Ordering::Relaxed);
                        keys.lock().unwrap().extend(mine);
                        let mut c = counters.lock().unwrap();
                        for (k, v) in cnt.counters { match c.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 += v, None => c.push((k, v)) } }
                    }).unwrap();
                }
            });
            let (d, k) = (done.into_inner(), keys.into_inner().unwrap().len() as u64);
            total += d;
            distinct += k;
            let _ = write!(foreign_json, "{}{{\"section\": {}, \"rule\": {}, \"evaluations\": {d}, \"distinct_nontrivial\": {k}, \"counters\": {{{}}}}}",
                if foreign_json.is_empty() { "" } else { ", " }, esc(sec.name), esc(sec.rule),
                counters.into_inner().unwrap().iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "));
            let mut s = sams.into_inner().unwrap();
            s.truncate(4);
            samples.extend(s.into_iter().map(|x| format!("[{}] {}", sec.name, x.chars().take(600).collect::<String>())));
            let found = fail.lock().unwrap().clone();
            if let Some((_, cs, tape, msg)) = found {
                // a case that takes long is reported as it is
                if tape.is_empty() { violation = Some(violation_json(prop.id, sec.name, Some(cs), &[], &msg, "")); eprintln!("section {}: {msg}", sec.name); break; }
                let (small, small_msg) = shrink(sec.run, tape, msg.clone(), Duration::from_secs(if a.tier == "thorough" { 60 } else { 8 }));
                let mut src = Src::replay(small.clone());
                let mut case = Case { verbose: true, want_sample: true, ..Case::default() };
                let again = run_one(sec.run, &mut src, &mut case);
                let (tape, cs, small_msg) = match again { Err(m) => (small, None, m), Ok(()) => (vec![], Some(cs), small_msg) };
                violation = Some(violation_json(prop.id, sec.name, cs, &tape, &small_msg, case.sample.as_deref().unwrap_or("")));
                eprintln!("section {}: {small_msg}\n{}", sec.name, case.sample.unwrap_or_default());
                break;
            }
        }
        finished.store(true, Ordering::Relaxed);
    });
    let json = format!("{{\"evaluations\": {total}, \"distinct_nontrivial\": {distinct}, \"sections\": [{foreign_json}], \"samples\": [{}], \"wall_s\": {:.2}, \"slowest_case_ms\": {}, \"violation\": {}}}\n",
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), slowest.into_inner(), violation.as_deref().unwrap_or("null"));
    emit(&json);
    exit(if violation.is_some() { 1 } else { 0 });
}

/// Ends the process although a case does not end: with the violation found by another case, if there is one.
fn give_up(fail: &Mutex<Option<(&'static str, u64, Vec<u64>, String)>>, prop: &str, emit: &dyn Fn(&str)) -> ! {
    if let Some((sec, cs, _, msg)) = fail.try_lock().ok().and_then(|f| f.clone()) {
        emit(&format!("{{\"evaluations\": 0, \"distinct_nontrivial\": 0, \"sections\": [], \"samples\": [], \"wall_s\": 0, \"slowest_case_ms\": 0, \"violation\": {}}}\n", violation_json(prop, sec, Some(cs), &[], &msg, "")));
        exit(1);
    }
    exit(97);
}

static AT_EXIT: Mutex<Option<fn()>> = Mutex::new(None);
/// What to do before the process ends, like removing scratch files.
pub fn at_exit(f: fn()) { *AT_EXIT.lock().unwrap() = Some(f); }
fn exit(code: i32) -> ! {
    if let Some(f) = AT_EXIT.lock().ok().and_then(|mut f| f.take()) { f(); }
    std::process::exit(code)
}

fn finish(r: Result<(), String>) -> ! {
    match r { Ok(()) => { println!("held"); exit(0) } Err(m) => { println!("violated: {m}"); exit(1) } }
}
