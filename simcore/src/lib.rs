//! Shared core of the two simulators: one PRNG, recorded choices, event log, parallel seeded search,
//! minimisation, replay files, known findings and evidence.
pub mod json;
pub mod rng;
pub mod runner;
pub use json::J;
pub use rng::{hash_str, mix, Choices, Rng, Trace};

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicPtr, Ordering};

pub struct Ctx {
    pub ch: Choices,
    pub verbose: bool,
    pub log: Vec<String>,
    pub dropped: u64,
    pub hash: u64,
    pub seq: u64,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<(String, String)>,
    pub sim_ns: u64,
    pub fp: u64,
    pub nontrivial: bool,
    pub sample: String,
}

static CTX: AtomicPtr<Ctx> = AtomicPtr::new(std::ptr::null_mut());

/// The context of the run in progress. Exactly one thread of a run executes at any time.
#[allow(clippy::mut_from_ref)]
pub fn ctx() -> &'static mut Ctx {
    let p = CTX.load(Ordering::Relaxed);
    assert!(!p.is_null(), "no simulation context");
    unsafe { &mut *p }
}
pub fn has_ctx() -> bool {
    !CTX.load(Ordering::Relaxed).is_null()
}

impl Ctx {
    pub fn install(ch: Choices, verbose: bool) {
        let c = Box::new(Ctx {
            ch,
            verbose,
            log: Vec::new(),
            dropped: 0,
            hash: 0x1234,
            seq: 0,
            counters: BTreeMap::new(),
            violations: Vec::new(),
            sim_ns: 0,
            fp: 0,
            nontrivial: false,
            sample: String::new(),
        });
        CTX.store(Box::into_raw(c), Ordering::Relaxed);
    }
}

pub fn below(stream: &'static str, n: u64) -> u64 {
    ctx().ch.below(stream, n)
}
/// lo..=hi
pub fn range(stream: &'static str, lo: u64, hi: u64) -> u64 {
    lo + ctx().ch.below(stream, hi - lo + 1)
}
pub fn chance(stream: &'static str, num: u64, den: u64) -> bool {
    ctx().ch.chance(stream, num, den)
}
/// Index drawn with the given weights; index 0 is the simplest.
pub fn weighted(stream: &'static str, w: &[u64]) -> usize {
    let total: u64 = w.iter().sum();
    let w2 = w.to_vec();
    ctx().ch.with(stream, w.len() as u64, move |r| {
        let mut x = r.below(total);
        for (i, k) in w2.iter().enumerate() {
            if x < *k {
                return i as u64;
            }
            x -= k;
        }
        0
    }) as usize
}
pub fn pick<'a, T>(stream: &'static str, v: &'a [T]) -> &'a T {
    &v[below(stream, v.len() as u64) as usize]
}
/// 0..=max, small values much more likely.
pub fn small(stream: &'static str, max: u64) -> u64 {
    ctx().ch.with(stream, max + 1, |r| {
        let bits = 64 - max.leading_zeros() as u64;
        let b = r.below(bits + 1);
        if b == 0 {
            0
        } else {
            (r.next() & ((1u64 << b.min(63)) - 1)).min(max)
        }
    })
}
pub fn count(name: &str) {
    count_n(name, 1)
}
pub fn count_n(name: &str, n: u64) {
    let c = ctx();
    match c.counters.get_mut(name) {
        Some(v) => *v += n,
        None => {
            c.counters.insert(name.to_string(), n);
        }
    }
}
pub fn event(s: String) {
    let c = ctx();
    c.seq += 1;
    c.hash = mix(c.hash ^ hash_str(&s));
    if c.verbose {
        eprintln!("{:6} t={}us {}", c.seq, c.sim_ns / 1000, s);
    }
    if c.log.len() < 4000 {
        let line = format!("{} t={}us {}", c.seq, c.sim_ns / 1000, s);
        c.log.push(line);
    } else {
        c.dropped += 1;
    }
}
#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::event(format!($($t)*)) };
}
/// Mix a scheduling decision or a state into the run's fingerprint.
pub fn fp(x: u64) {
    let c = ctx();
    c.fp = mix(c.fp ^ x);
}
pub fn violate(class: &str, detail: String) {
    let c = ctx();
    event(format!("VIOLATION {class}: {detail}"));
    if c.violations.len() < 20 {
        c.violations.push((class.to_string(), detail));
    }
}
pub fn violated() -> bool {
    !ctx().violations.is_empty()
}
pub fn nontrivial() {
    ctx().nontrivial = true;
}
