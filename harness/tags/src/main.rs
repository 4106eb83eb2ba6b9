//! P29: the tag generator, built with and without debug assertions.
use std::collections::{HashMap, HashSet};
use std::sync::{Barrier, OnceLock};

use imap_types::core::Tag;
use pbt::far::Far;
use pbt::{Case, Property, Section, Src};
use tag_generator::TagGenerator;

const RELEASE: bool = !cfg!(debug_assertions);

/// Instance, counter and random part of a tag of the documented form.
fn parts(t: &str) -> Result<(u64, u64, &str), String> {
    let bad = |w: &str| format!("tag {t:?} {w}");
    Tag::try_from(t.to_owned()).map_err(|_| bad("is not a valid tag"))?;
    let mut it = t.split('.');
    let mut num = |what: &str| -> Result<u64, String> {
        let x = it.next().ok_or_else(|| bad("has too few parts"))?;
        let n: u64 = x.parse().map_err(|_| bad(&format!("has no numeric {what}")))?;
        if n.to_string() != x { return Err(bad(&format!("has an unusual {what}"))); }
        Ok(n)
    };
    let (i, c) = (num("instance")?, num("counter")?);
    let token = it.next().unwrap_or("");
    if RELEASE && !(token.len() == 8 && token.bytes().all(|b| b.is_ascii_alphanumeric())) { return Err(bad("does not end in 8 random alphanumerics")); }
    if !RELEASE && token != "" || it.next().is_some() { return Err(bad("has too many parts")); }
    Ok((i, c, token))
}

#[derive(Default)]
struct Book { seen: HashSet<(u64, u64)>, full: HashSet<String>, owner: HashMap<u64, usize>, tokens: HashMap<String, u64>, order: Vec<[u8; 8]>, n: u64 }
impl Book {
    fn add(&mut self, generator: usize, t: &str) -> Result<(), String> {
        let (i, c, token) = parts(t)?;
        self.n += 1;
        if !self.full.insert(t.to_owned()) { return Err(format!("tag {t:?} was generated twice")); }
        if !self.seen.insert((i, c)) { return Err(format!("tag {t:?} repeats the instance and counter of another")); }
        if *self.owner.entry(i).or_insert(generator) != generator { return Err(format!("tag {t:?} shows the instance of another generator")); }
        if RELEASE { self.order.push(token.as_bytes().try_into().unwrap()); *self.tokens.entry(token.to_owned()).or_insert(0) += 1; }
        Ok(())
    }
    /// Random parts of 62^8 values: repeats beyond what chance allows.
    fn finish(&self) -> Result<(), String> {
        if !RELEASE { return Ok(()); }
        let repeats: u64 = self.tokens.values().map(|v| v - 1).sum();
        if repeats > 1 + self.n / 1_000_000 { return Err(format!("{repeats} of {} random parts were used before", self.n)); }
        if self.n >= 4000 {
            for p in 0..8 {
                let mut count = [0u64; 128];
                for t in self.tokens.keys() { count[t.as_bytes()[p] as usize] += 1; }
                let used = count.iter().filter(|c| **c > 0).count();
                let most = *count.iter().max().unwrap();
                if used < 56 || most * 62 > 4 * self.tokens.len() as u64 { return Err(format!("character {p} of the random part takes {used} of 62 values, one of them {most} times in {}", self.tokens.len())); }
            }
            // neither does a character follow from an earlier tag's or from another one of the same tag
            let d = |a: u8, b: u8| (digit(a) + 62 - digit(b)) % 62;
            let spread = |what: String, it: &mut dyn Iterator<Item = usize>| -> Result<(), String> {
                let mut count = [0u64; 62];
                it.for_each(|x| count[x] += 1);
                let (n, most) = (count.iter().sum::<u64>(), *count.iter().max().unwrap());
                if most * 62 > 4 * n { return Err(format!("the random parts are related: the difference {what} is the same for {most} of {n}")); }
                Ok(())
            };
            for p in 0..8 {
                for lag in 1..=4 { spread(format!("of character {p} to the one {lag} tags before"), &mut self.order.windows(lag + 1).map(|w| d(w[lag][p], w[0][p])))?; }
                for q in 0..p { spread(format!("of characters {p} and {q}"), &mut self.order.iter().map(|t| d(t[p], t[q])))?; }
            }
        }
        Ok(())
    }
}

fn digit(b: u8) -> usize { (match b { b'0'..=b'9' => b - b'0', b'A'..=b'Z' => b - b'A' + 10, _ => b - b'a' + 36 }) as usize }

fn history(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut gens: Vec<(usize, TagGenerator)> = vec![];
    let mut book = Book::default();
    let (mut made, mut log) = (0, vec![]);
    for _ in 0..2 + s.size(40) {
        match s.below(if gens.is_empty() { 1 } else { 7 }) {
            0 => { for _ in 0..s.range(1, 3) { gens.push((made, TagGenerator::new())); made += 1; } log.push("create".to_owned()); }
            1 => { let i = s.idx(gens.len()); gens.remove(i); log.push(format!("drop #{i}")); }
            2 => {
                let i = s.idx(gens.len());
                let n = 1 + s.size(10);
                let (id, mut g) = gens.remove(i);
                let (g, v) = std::thread::scope(|t| t.spawn(move || { let v: Vec<_> = (0..n).map(|_| g.generate()).collect(); (g, v) }).join().unwrap());
                for t in &v { book.add(id, t.as_ref())?; }
                gens.insert(i, (id, g));
                log.push(format!("thread takes #{i}"));
            }
            _ => { let i = s.idx(gens.len()); let n = match s.below(30) { 0 => 1000, _ => 1 + s.size(12) }; for _ in 0..n { let t = gens[i].1.generate(); book.add(gens[i].0, t.as_ref())?; } log.push(format!("{n} tags of #{i}")); }
        }
    }
    c.nontrivial = made >= 2 && book.n >= 3;
    c.count("generators", made as u64);
    c.count("tags", book.n);
    c.sample(|| log.join("; "));
    book.finish()
}
fn threads(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let k = s.range(2, 8);
    let plan: Vec<(usize, usize)> = (0..k).map(|_| (1 + s.size(400), 1 + s.idx(4))).collect();
    let start = Barrier::new(k);
    let got: Vec<Vec<Vec<String>>> = std::thread::scope(|t| {
        let js: Vec<_> = plan.iter().map(|(gens, tags)| { let start = &start; t.spawn(move || {
            start.wait();
            let mut gs: Vec<TagGenerator> = (0..*gens).map(|_| TagGenerator::new()).collect();
            gs.iter_mut().map(|g| (0..*tags).map(|_| g.generate().as_ref().to_owned()).collect()).collect()
        }) }).collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    let mut book = Book::default();
    for (i, v) in got.into_iter().flatten().enumerate() { for t in v { book.add(i, &t)?; } }
    c.nontrivial = true;
    c.count("tags", book.n);
    c.sample(|| format!("{k} threads: {plan:?} (generators, tags of each)"));
    book.finish()
}
/// Many tags of one generator, of which the parts around powers of two are kept.
fn long(s: &mut Src, c: &mut Case, n: u64) -> Result<(), String> {
    let mut g = TagGenerator::new();
    let off = s.below(1000);
    let mut last = None;
    let mut book = Book::default();
    for i in 0..n + off {
        let t = g.generate();
        let (a, b, _) = parts_fast(t.as_ref());
        match last { Some((x, y)) if a != x || b <= y => { if n > 1 << 25 || book.add(0, t.as_ref()).is_err() || a != x { return Err(format!("tag {:?} number {i} of its generator follows instance {x} counter {y}", t.as_ref())); } } _ => {} }
        if i & 0xffff < 8 && i < 1 << 24 { parts(t.as_ref())?; }
        last = Some((a, b));
        if i & 0xf_ffff == 0 { pbt::alive(); }
    }
    c.nontrivial = true;
    c.count("tags", n + off);
    c.sample(|| format!("{} tags of one generator", n + off));
    Ok(())
}
fn parts_fast(t: &str) -> (u64, u64, &str) { let (a, r) = t.split_once('.').unwrap_or((t, "")); let (b, k) = r.split_once('.').unwrap_or((r, "")); (a.parse().unwrap_or(u64::MAX), b.parse().unwrap_or(u64::MAX), k) }
fn long_quick(s: &mut Src, c: &mut Case) -> Result<(), String> { long(s, c, (1 << 24) + (1 << 12)) }
fn long_thorough(s: &mut Src, c: &mut Case) -> Result<(), String> { long(s, c, (1 << 32) + (1 << 12)) }
/// More generators than 32 bits can number; those around powers of two are used.
fn many_generators(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let _ = s.below(2);
    let mut book = Book::default();
    let n: u64 = (1 << 32) + 64;
    for i in 0..n {
        let mut g = TagGenerator::new();
        let low = i & !(1u64 << (63 - (i | 1).leading_zeros() as u64));
        if low < 64 { for _ in 0..2 { book.add(i as usize, g.generate().as_ref())?; } }
        if i & 0xff_ffff == 0 { pbt::alive(); }
    }
    c.nontrivial = true;
    c.count("generators", n);
    c.sample(|| format!("{n} generators"));
    Ok(())
}
/// How far a generator can be brought, if at all.
fn reach() -> Option<&'static Far> {
    static A: OnceLock<Option<Far>> = OnceLock::new();
    A.get_or_init(|| Far::find(TagGenerator::new, |g| parts_fast(g.generate().as_ref()).1)).as_ref()
}
/// Generators in the state they have after very many tags.
fn far(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let Some(far) = reach() else { return Ok(()) };
    let mut book = Book::default();
    let mut log = vec![];
    for i in 0..s.range(1, 3) {
        let mut g = TagGenerator::new();
        let points = far.points(s);
        for p in &points { far.jump(&mut g, *p); for _ in 0..30 + s.size(30) { book.add(i, g.generate().as_ref()).map_err(|e| format!("{e} (after jumps to {points:?} tags of generator {i})"))?; } }
        log.push(format!("{points:?}"));
    }
    c.nontrivial = true;
    c.count("tags", book.n);
    c.sample(|| format!("generators brought to {} tags", log.join(", ")));
    book.finish()
}
/// Whether processes can be given the same number and the same memory layout.
fn alike() -> bool {
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| std::process::Command::new("unshare").args(["-Urpf", "setarch", "-R", "true"]).output().is_ok_and(|o| o.status.success()))
}
/// Processes that start at the same time do not agree on the random parts.
fn runs(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let n = s.range(1, 40);
    let k = s.range(2, 4);
    let me = std::env::current_exe().unwrap();
    let same = s.bool() && alike();
    let start = || if same { let mut c = std::process::Command::new("unshare"); c.args(["-Urpf", "setarch", "-R"]).arg(&me); c } else { std::process::Command::new(&me) };
    let children: Vec<_> = (0..k).map(|_| start().args(["--child", &n.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap()).collect();
    let outs: Vec<String> = children.into_iter().map(|x| String::from_utf8(x.wait_with_output().unwrap().stdout).unwrap()).collect();
    let mut seen: HashMap<String, usize> = HashMap::new();
    c.nontrivial = true;
    c.count("processes", k as u64);
    c.count("processes with the same number and layout", if same { k as u64 } else { 0 });
    c.sample(|| outs.join("---\n"));
    for (i, o) in outs.iter().enumerate() {
        if o.lines().count() != 2 * n { return Err(format!("process {i} gave {} tags instead of {}", o.lines().count(), 2 * n)); }
        for t in o.lines() { let (_, _, token) = parts(t)?; if RELEASE { if let Some(j) = seen.insert(token.to_owned(), i) { return Err(format!("the random part {token:?} was given by process {j} and by process {i}")); } } }
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "--child") {
        let mut g = [TagGenerator::new(), TagGenerator::new()];
        for _ in 0..a[2].parse::<usize>().unwrap() { for g in &mut g { println!("{}", g.generate().as_ref()); } }
        return;
    }
    let s = |name, rule, quick, thorough, run| Section { name, rule, quick, thorough, run };
    let mut v = vec![
        s("history", "at least 2 generators and 3 tags", 20_000, 1_500_000, history as pbt::CaseFn),
        s("threads", "2 to 8 threads create generators at once", 2_000, 100_000, threads),
        s("runs", "2 to 4 processes started together", 40, 1_000, runs),
        s("far", "generators brought into the state they have after up to 2^63 tags", 10_000, 400_000, far),
        s("beyond-16-bits", "more than 2^24 tags of one generator", 1, 2, long_quick),
    ];
    if !RELEASE { v.push(s("beyond-32-bits", "more than 2^32 generators", 1, 1, many_generators)); v.push(s("tags-beyond-32-bits", "more than 2^32 tags of one generator", 0, 1, long_thorough)); }
    pbt::main(vec![Property { id: "P29", sections: v }]);
}
