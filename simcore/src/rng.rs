//! Seeded PRNG and the recorded choice streams every simulated decision is drawn from.
use std::collections::BTreeMap;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

/// One recorded sequence of decisions per named stream ("plan", "sched", "net", ...).
/// The decisions, not the seed, are what a replay file holds; a decision missing from a replay file
/// is 0, the simplest one (no fault, no delay, first runnable task).
pub type Trace = BTreeMap<String, Vec<u64>>;

pub struct Choices {
    seed: u64,
    replay: Option<Trace>,
    rec: BTreeMap<&'static str, Stream>,
}

struct Stream {
    rng: Rng,
    out: Vec<u64>,
}

impl Choices {
    pub fn from_seed(seed: u64) -> Choices {
        Choices { seed, replay: None, rec: BTreeMap::new() }
    }
    pub fn from_trace(t: Trace) -> Choices {
        Choices { seed: 0, replay: Some(t), rec: BTreeMap::new() }
    }
    fn stream(&mut self, name: &'static str) -> &mut Stream {
        let seed = self.seed;
        self.rec.entry(name).or_insert_with(|| Stream {
            rng: Rng::new(seed ^ hash_str(name)),
            out: Vec::new(),
        })
    }
    /// A value in 0..n.
    pub fn below(&mut self, name: &'static str, n: u64) -> u64 {
        self.with(name, n, |r| r.below(n))
    }
    /// True with probability num/den (recorded as 0/1).
    pub fn chance(&mut self, name: &'static str, num: u64, den: u64) -> bool {
        self.with(name, 2, |r| (r.below(den) < num) as u64) == 1
    }
    /// A value in 0..n drawn by `f`.
    pub fn with(&mut self, name: &'static str, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let n = n.max(1);
        let replayed = match &self.replay {
            None => None,
            Some(t) => {
                let pos = self.rec.get(name).map_or(0, |s| s.out.len());
                Some(t.get(name).and_then(|v| v.get(pos)).copied().unwrap_or(0).min(n - 1))
            }
        };
        let s = self.stream(name);
        let v = match replayed {
            Some(v) => v,
            None => f(&mut s.rng).min(n - 1),
        };
        s.out.push(v);
        mirror(name, v);
        v
    }
    pub fn trace(&self) -> Trace {
        let mut t = Trace::new();
        for (k, s) in &self.rec {
            let mut v = s.out.clone();
            while v.last() == Some(&0) {
                v.pop();
            }
            if !v.is_empty() {
                t.insert(k.to_string(), v);
            }
        }
        t
    }
    pub fn draws(&self) -> u64 {
        self.rec.values().map(|s| s.out.len() as u64).sum()
    }
}

// Shared-memory copy of every draw, for runs that die before they can report.
static mut MIRROR: (*mut u8, usize) = (std::ptr::null_mut(), 0);
pub fn set_mirror(p: *mut u8, len: usize) {
    unsafe {
        MIRROR = (p, len);
        if !p.is_null() {
            *(p as *mut u64) = 0;
        }
    }
}
fn mirror(name: &str, v: u64) {
    unsafe {
        let (p, len) = MIRROR;
        if p.is_null() {
            return;
        }
        let used = *(p as *mut u64) as usize;
        let rec = 1 + name.len() + 8;
        if 8 + used + rec > len {
            return;
        }
        let q = p.add(8 + used);
        *q = name.len() as u8;
        std::ptr::copy_nonoverlapping(name.as_ptr(), q.add(1), name.len());
        std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), q.add(1 + name.len()), 8);
        *(p as *mut u64) = (used + rec) as u64;
    }
}
/// # Safety: the mirror set by set_mirror must still be mapped.
pub unsafe fn read_mirror() -> Trace {
    let (p, _) = MIRROR;
    let used = *(p as *mut u64) as usize;
    let b = std::slice::from_raw_parts(p.add(8), used);
    let mut t = Trace::new();
    let mut i = 0;
    while i < used {
        let n = b[i] as usize;
        let name = String::from_utf8_lossy(&b[i + 1..i + 1 + n]).into_owned();
        let v = u64::from_le_bytes(b[i + 1 + n..i + 9 + n].try_into().unwrap());
        t.entry(name).or_default().push(v);
        i += 9 + n;
    }
    t
}
