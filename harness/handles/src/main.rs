//! P15 and P32 on the handle generators.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Barrier, OnceLock};

use handles::handle::{Handle, HandleGenerator, HandleGeneratorGenerator, RawHandle};
use pbt::far::Far;
use pbt::{Case, Property, Section, Src};

/// A handle the way the client and the server define theirs.
#[derive(Clone, Copy, Eq, PartialEq, Hash)]
struct H(RawHandle);
impl Handle for H { fn from_raw(raw: RawHandle) -> Self { Self(raw) } }
impl std::fmt::Debug for H { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "({}, {})", self.0.generator_id(), self.0.handle_id()) } }
type Gen = HandleGenerator<H>;
type GenGen = HandleGeneratorGenerator<H>;

fn hash(h: &H) -> u64 { let mut s = DefaultHasher::new(); h.hash(&mut s); s.finish() }
fn raw(h: &H) -> (u64, u64) { (h.0.generator_id(), h.0.handle_id()) }

/// Equality, hashing and the visible identity agree: `a` and `b` were generated separately.
fn different(a: &H, b: &H) -> Result<(), String> {
    if a == b || !(a != b) { return Err(format!("the separately generated handles {a:?} and {b:?} are equal")); }
    if raw(a) == raw(b) { return Err(format!("two separately generated handles show the same identity {a:?}")); }
    Ok(())
}
fn copy_equal(a: &H) -> Result<(), String> {
    let (b, c) = (*a, a.clone());
    if *a != b || b != c || hash(a) != hash(&b) || raw(a) != raw(&b) || format!("{a:?}") != format!("{c:?}") { return Err(format!("a copy of handle {a:?} differs from it")); }
    Ok(())
}
fn all_different(v: &[H]) -> Result<(), String> {
    let mut ids = HashSet::with_capacity(v.len());
    let mut set = HashSet::with_capacity(v.len());
    for h in v {
        if !ids.insert(raw(h)) { return Err(format!("two handles show the same identity {h:?}")); }
        if !set.insert(*h) { return Err(format!("handle {h:?} equals one generated before")); }
    }
    Ok(())
}

static GLOBAL: GenGen = GenGen::new();

/// Several generators used in turn, also from other threads, with generators dropped and created in between.
fn history(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let own = GenGen::new();
    let global = s.bool();
    let gg = if global { &GLOBAL } else { &own };
    let mut gens: Vec<Gen> = vec![];
    let mut count: Vec<u64> = vec![];
    let mut all: Vec<H> = vec![];
    let (mut dropped, mut moved, mut made) = (0u64, 0u64, 0u64);
    let steps = 2 + s.size(60);
    let mut log = vec![];
    for _ in 0..steps {
        match s.below(if gens.is_empty() { 1 } else { 8 }) {
            0 => { let k = s.range(1, 4); for _ in 0..k { gens.push(gg.generate()); count.push(0); made += 1; } log.push(format!("create {k}")); }
            1 => { let i = s.idx(gens.len()); gens.remove(i); count.remove(i); dropped += 1; log.push(format!("drop #{i}")); }
            2 => {
                // another thread takes the generator, uses it and hands it back
                let i = s.idx(gens.len());
                let n = 1 + s.size(20);
                let mut g = gens.remove(i);
                let (g, v) = std::thread::scope(|t| t.spawn(move || { let v: Vec<H> = (0..n).map(|_| g.generate()).collect(); (g, v) }).join().unwrap());
                gens.insert(i, g);
                numbered(&v, &mut count[i])?;
                all.extend(v);
                moved += 1;
                log.push(format!("thread takes #{i} for {n} handles"));
            }
            _ => {
                let i = s.idx(gens.len());
                let n = match s.below(20) { 0 => s.range(200, 3000), _ => 1 + s.size(12) };
                let v: Vec<H> = (0..n).map(|_| gens[i].generate()).collect();
                numbered(&v, &mut count[i])?;
                all.extend(v);
                log.push(format!("{n} handles of #{i}"));
            }
        }
    }
    c.sample(|| format!("{}: {}", if global { "process-wide" } else { "own" }, log.join("; ")));
    c.nontrivial = made >= 2 && all.len() >= 3;
    c.count("generators", made);
    c.count("dropped", dropped);
    c.count("moved to a thread", moved);
    c.count("handles", all.len() as u64);
    all_different(&all)?;
    let pool: Vec<&H> = (0..40.min(all.len())).map(|i| &all[i * all.len() / 40.min(all.len())]).collect();
    for (i, a) in pool.iter().enumerate() { copy_equal(a)?; for b in &pool[..i] { different(a, b)?; } }
    Ok(())
}
/// The handles of one generator are numbered without gap or repeat.
fn numbered(v: &[H], next: &mut u64) -> Result<(), String> {
    for h in v {
        if h.0.handle_id() != *next { return Err(format!("handle {h:?} came where number {next} of its generator was due")); }
        if h.0.generator_id() != v[0].0.generator_id() { return Err(format!("handles {h:?} and {:?} of one generator", v[0])); }
        *next += 1;
    }
    Ok(())
}

/// Strictly increasing identities cannot repeat; where an implementation does not number upwards, a set decides
/// on as many as fit in memory.
struct Seen { last: Option<u64>, set: Option<HashSet<u64>>, n: u64 }
impl Seen {
    fn new() -> Self { Self { last: None, set: None, n: 0 } }
    #[inline]
    fn add(&mut self, id: u64) -> Result<bool, String> {
        self.n += 1;
        if let Some(s) = &mut self.set {
            if !s.insert(id) { return Err(format!("identity {id} was given a second time after {} others", self.n - 1)); }
            return Ok(s.len() < 50_000_000);
        }
        if self.last.is_some_and(|l| l >= id) { return Err(format!("identity {id} follows {} after {} others", self.last.unwrap(), self.n - 1)); }
        self.last = Some(id);
        Ok(true)
    }
}

const LONG: u64 = (1 << 32) + (1 << 16);
const MANY: u64 = (1 << 33) + (1 << 16);
/// More handles of one generator, and more generators, than 32 bits can number.
fn long(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let off = s.below(1 << 10);
    c.nontrivial = true;
    c.count("handles of one generator", MANY);
    c.count("generators", LONG);
    c.sample(|| format!("{MANY} handles of one generator, {LONG} generators, offset {off}"));
    std::thread::scope(|t| {
        let a = t.spawn(move || -> Result<(), String> {
            let gg = GenGen::new();
            let mut others: Vec<Gen> = (0..32).map(|_| gg.generate()).collect();
            let mut g = others.remove((off % 32) as usize);
            let mut pool: Vec<H> = others.iter_mut().flat_map(|g| (0..32).map(|_| g.generate()).collect::<Vec<_>>()).collect();
            let mut seen = Seen::new();
            for i in 0..MANY {
                let h = g.generate();
                if !seen.add(h.0.handle_id())? { break; }
                // around each power of two: compared with the first handles and those of other generators
                let low = i & !((1u64 << (63 - (i | 1).leading_zeros() as u64)));
                if low < 64 { for p in &pool { different(&h, p)?; } copy_equal(&h)?; pool.push(h); }
                if i & 0xff_ffff == 0 { pbt::alive(); }
            }
            Ok(())
        });
        let b = t.spawn(move || -> Result<(), String> {
            let gg = GenGen::new();
            let mut pool: Vec<H> = vec![];
            let mut seen = Seen::new();
            for i in 0..LONG {
                let mut g = gg.generate();
                let h = g.generate();
                if !seen.add(h.0.generator_id())? { break; }
                let low = i & !((1u64 << (63 - (i | 1).leading_zeros() as u64)));
                if low < 24 { let k = g.generate(); for p in &pool { different(&h, p)?; different(&k, p)?; } copy_equal(&h)?; pool.push(h); pool.push(k); }
                if i & 0xff_ffff == 0 { pbt::alive(); }
            }
            Ok(())
        });
        a.join().unwrap().and(b.join().unwrap())
    })
}

/// How far generators of handles and generators of these can be brought, if at all.
fn reach() -> (Option<&'static Far>, Option<&'static Far>) {
    static A: OnceLock<(Option<Far>, Option<Far>)> = OnceLock::new();
    let a = A.get_or_init(|| (
        Far::find(|| { static G: GenGen = GenGen::new(); G.generate() }, |g| g.generate().0.handle_id()),
        Far::find(GenGen::new, |g| g.generate().generate().0.generator_id()),
    ));
    (a.0.as_ref(), a.1.as_ref())
}
/// Generators, and generators of these, in the state they have after very many steps.
fn far(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (handles, gens) = reach();
    if handles.is_none() && gens.is_none() { return Ok(()); }
    let mut gg = GenGen::new();
    let at = |f: Option<&Far>, s: &mut Src| f.map_or(vec![0], |f| f.points(s));
    let ps = at(gens, s);
    let mut all: Vec<H> = vec![];
    let mut ids = HashSet::new();
    let mut log = vec![];
    for p in &ps {
        if let Some(f) = gens { f.jump(&mut gg, *p); }
        for _ in 0..s.range(1, 40) {
            let mut g = gg.generate();
            let qs = at(handles, s);
            let mut id = None;
            for q in &qs {
                if let Some(f) = handles { f.jump(&mut g, *q); }
                for _ in 0..1 + s.size(30) {
                    let h = g.generate();
                    copy_equal(&h)?;
                    if *id.get_or_insert(h.0.generator_id()) != h.0.generator_id() { return Err(format!("handle {h:?} of generator {}", id.unwrap())); }
                    all.push(h);
                }
            }
            if !ids.insert(id.unwrap()) { return Err(format!("two generators have the identity {} (after jumps to {ps:?} generators)", id.unwrap())); }
            if log.len() < 3 { log.push(format!("{qs:?}")); }
        }
    }
    c.nontrivial = true;
    c.count("handles", all.len() as u64);
    c.sample(|| format!("generators of generators brought to {ps:?}, generators to {}, ..", log.join(", ")));
    all_different(&all).map_err(|e| format!("{e} (after jumps to {ps:?} generators)"))
}

/// Every pair out of many generators and many handles of each.
fn pairs(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let own = GenGen::new();
    let (n, m) = (s.range(2, 300), s.range(1, 300));
    let skip = s.size(2000);
    for _ in 0..skip { own.generate(); }
    let mut gens: Vec<Gen> = (0..n).map(|_| own.generate()).collect();
    let mut all = vec![];
    for _ in 0..m { for g in &mut gens { all.push(g.generate()); } }
    c.nontrivial = true;
    c.count("handles", all.len() as u64);
    c.sample(|| format!("{n} generators after {skip} others, {m} handles of each, in turn"));
    all_different(&all)?;
    if all.len() <= 1500 { for (i, a) in all.iter().enumerate() { for b in &all[..i] { different(a, b)?; } } }
    for h in &all { copy_equal(h)?; }
    Ok(())
}

/// Threads that create generators at once, each using its generators meanwhile.
fn threads(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let own = GenGen::new();
    let global = s.chance(1, 4);
    let gg = if global { &GLOBAL } else { &own };
    let k = s.range(2, 8);
    let plan: Vec<(usize, usize)> = (0..k).map(|_| (match s.below(4) { 0 => s.range(1, 4), 1 => s.range(1, 100), _ => s.range(100, 2500) }, s.idx(4))).collect();
    let rounds = s.range(1, 3);
    c.nontrivial = true;
    c.count("generators", plan.iter().map(|p| p.0 as u64).sum::<u64>() * rounds as u64);
    c.sample(|| format!("{} rounds of {k} threads: {:?} (generators, handles of each)", rounds, plan));
    let mut all: Vec<H> = vec![];
    let mut ids: HashSet<u64> = HashSet::new();
    for _ in 0..rounds {
        let start = Barrier::new(k);
        let got: Vec<Vec<Vec<H>>> = std::thread::scope(|t| {
            let js: Vec<_> = plan.iter().map(|(gens, hs)| { let start = &start; t.spawn(move || {
                start.wait();
                let mut gs: Vec<Gen> = Vec::with_capacity(*gens);
                for _ in 0..*gens { gs.push(gg.generate()); }
                gs.iter_mut().map(|g| (0..*hs + 1).map(|_| g.generate()).collect::<Vec<H>>()).collect::<Vec<_>>()
            }) }).collect();
            js.into_iter().map(|j| j.join().unwrap()).collect()
        });
        for v in got.into_iter().flatten() {
            numbered(&v, &mut 0)?;
            if !ids.insert(v[0].0.generator_id()) { return Err(format!("two generators have the identity {}", v[0].0.generator_id())); }
            all.extend(v);
        }
    }
    all_different(&all)
}

/// Many more generators per thread, compared by identity alone.
fn crowd(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let gg = GenGen::new();
    let k = s.range(4, 8);
    let per = s.range(200_000, 400_000);
    c.nontrivial = true;
    c.count("generators", (k * per) as u64);
    c.sample(|| format!("{k} threads create {per} generators each"));
    let start = Barrier::new(k);
    let mut ids: Vec<u64> = std::thread::scope(|t| {
        let js: Vec<_> = (0..k).map(|_| { let (gg, start) = (&gg, &start); t.spawn(move || { start.wait(); (0..per).map(|_| gg.generate().generate().0.generator_id()).collect::<Vec<u64>>() }) }).collect();
        js.into_iter().flat_map(|j| j.join().unwrap()).collect()
    });
    ids.sort_unstable();
    match ids.windows(2).find(|w| w[0] == w[1]) { Some(w) => Err(format!("two generators have the identity {}", w[0])), None => Ok(()) }
}

/// Generators on several threads each give out very many handles: numbered without a gap.
fn numbers(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let gg = GenGen::new();
    let k = s.range(2, 8);
    let counts: Vec<u64> = (0..k).map(|i| if i == 0 { LONG } else { (1 << s.range(16, 25)) + s.below(1000) }).collect();
    c.nontrivial = true;
    c.count("handles", counts.iter().sum());
    c.sample(|| format!("handles of each of {k} generators: {counts:?}"));
    let start = Barrier::new(k);
    std::thread::scope(|t| {
        let js: Vec<_> = counts.iter().map(|n| { let (gg, start) = (&gg, &start); t.spawn(move || {
            start.wait();
            let mut g = gg.generate();
            let id = g.generate().0.generator_id();
            for i in 1..*n {
                let h = g.generate();
                if h.0.handle_id() != i || h.0.generator_id() != id { return Err(format!("handle ({}, {}) came where ({id}, {i}) was due", h.0.generator_id(), h.0.handle_id())); }
                if i & 0xff_ffff == 0 { pbt::alive(); }
            }
            Ok(())
        }) }).collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    })
}

fn main() {
    let s = |name, rule, quick, thorough, run| Section { name, rule, quick, thorough, run };
    pbt::main(vec![
        Property { id: "P15", sections: vec![
            s("history", "at least 2 generators and 3 handles", 30_000, 3_000_000, history),
            s("pairs", "generators used in turn, all handles compared", 300, 20_000, pairs),
            s("far", "generators brought into the state they have after up to 2^63 steps", 600, 100_000, far),
            s("beyond-32-bits", "more than 2^32 handles of one generator and more than 2^32 generators", 1, 4, long),
        ] },
        Property { id: "P32", sections: vec![
            s("threads", "2 to 8 threads create generators at once", 4_000, 200_000, threads),
            s("numbers", "more than 2^32 handles of one generator, others beside it", 1, 8, numbers),
            s("crowd", "4 to 8 threads create at least 200000 generators each", 12, 400, crowd),
        ] },
    ]);
}
