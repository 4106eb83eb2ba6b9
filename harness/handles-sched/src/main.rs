//! P32 under schedules chosen by shuttle: the generators' source with std's synchronisation replaced.
#[allow(unused)]
mod shim {
    pub use ::std::*;
    pub mod sync { pub use ::std::sync::{Once, OnceLock, LazyLock}; pub use shuttle::sync::*; }
    pub mod thread { pub use shuttle::thread::*; }
}
mod handle { include!(concat!(env!("OUT_DIR"), "/handle.rs")); }

use std::collections::HashSet;
use std::sync::Mutex;

use handle::{Handle, HandleGeneratorGenerator, RawHandle};
use pbt::{Case, Property, Section, Src};

#[derive(Clone, Copy, Eq, PartialEq, Hash)]
struct H(RawHandle);
impl Handle for H { fn from_raw(raw: RawHandle) -> Self { Self(raw) } }

fn schedules(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let plan: Vec<Vec<usize>> = (0..s.range(2, 4)).map(|_| (0..s.range(1, 4)).map(|_| s.range(1, 3)).collect()).collect();
    let seed = s.u64();
    let pct = s.chance(1, 3);
    let rounds = 12;
    c.nontrivial = true;
    c.count("schedules", rounds as u64);
    c.sample(|| format!("handles of each generator of each thread {plan:?}, schedule seed {seed}, {}", if pct { "priorities" } else { "random" }));
    let bad: std::sync::Arc<Mutex<Option<String>>> = Default::default();
    let (out, p2) = (bad.clone(), plan.clone());
    let body = move || {
        let gg = shuttle::sync::Arc::new(HandleGeneratorGenerator::<H>::new());
        let js: Vec<_> = p2.iter().cloned().map(|gens| { let gg = gg.clone(); shuttle::thread::spawn(move || gens.into_iter().map(|n| { let mut g = gg.generate(); (0..n).map(|_| g.generate()).collect::<Vec<H>>() }).collect::<Vec<_>>()) }).collect();
        let got: Vec<Vec<H>> = js.into_iter().flat_map(|j| j.join().unwrap()).collect();
        let mut ids = HashSet::new();
        for v in &got {
            if !ids.insert(v[0].0.generator_id()) { *out.lock().unwrap() = Some(format!("two generators have the identity {}", v[0].0.generator_id())); }
            for (i, h) in v.iter().enumerate() { if h.0.handle_id() != i as u64 || h.0.generator_id() != v[0].0.generator_id() { *out.lock().unwrap() = Some(format!("handle ({}, {}) came where number {i} was due", h.0.generator_id(), h.0.handle_id())); } }
        }
    };
    let config = shuttle::Config::new();
    // A panic may be shuttle's own, for something it does not model: only the comparison above decides.
    let ran = pbt::no_panic(|| if pct { shuttle::Runner::new(shuttle::scheduler::PctScheduler::new_from_seed(seed, 3, rounds), config).run(body); } else { shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(seed, rounds), config).run(body); });
    c.count("not modelled", ran.is_err() as u64);
    let r = bad.lock().unwrap().take();
    match r { Some(m) => Err(m), None => Ok(()) }
}

fn main() {
    pbt::main(vec![Property { id: "P32", sections: vec![Section { name: "schedules", rule: "2 to 4 threads, 12 schedules of each plan", quick: 2_000, thorough: 100_000, run: schedules }] }]);
}
