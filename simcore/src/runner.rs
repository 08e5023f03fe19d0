//! Seeded search over many runs, each in a process of its own; minimisation; replay; evidence.
use crate::json::J;
use crate::rng::{hash_str, mix, Choices, Trace};
use crate::{ctx, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Called on the raw class of a crash etc. to say whether it counts for this property.
    pub cpu_limit_s: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<(String, String)>,
    pub hash: u64,
    pub fp: u64,
    pub sim_ns: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    pub sample: String,
    pub trace: Option<Trace>,
    pub log: Vec<String>,
    pub draws: u64,
}

const MIRROR: usize = 64 << 20;

/// Violations seen before a crash ends the run, and every choice, are mirrored here.
struct Mirror(*mut u8);
impl Mirror {
    fn new() -> Mirror {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                MIRROR,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Mirror(p as *mut u8)
        }
    }
}

static PANIC_NOTE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static mut NOTE_PAGE: *mut u8 = std::ptr::null_mut();
const NOTE_LEN: usize = 4096;

/// A note that survives the death of the run's process (shared page).
pub fn note(s: &str) {
    unsafe {
        if NOTE_PAGE.is_null() {
            return;
        }
        let b = s.as_bytes();
        let n = b.len().min(NOTE_LEN - 9);
        std::ptr::copy_nonoverlapping(b.as_ptr(), NOTE_PAGE.add(8), n);
        *(NOTE_PAGE as *mut u64) = n as u64;
    }
}
fn read_note() -> String {
    unsafe {
        let n = (*(NOTE_PAGE as *mut u64) as usize).min(NOTE_LEN - 9);
        let v = std::slice::from_raw_parts(NOTE_PAGE.add(8), n);
        String::from_utf8_lossy(v).into_owned()
    }
}
pub fn panic_note() -> String {
    PANIC_NOTE.lock().map(|s| s.clone()).unwrap_or_default()
}
pub fn clear_panic_note() {
    if let Ok(mut s) = PANIC_NOTE.lock() {
        s.clear()
    }
}

/// Runs one case in a forked child and returns its outcome.
fn run_child(p: &Prop, ch: Choices, want_trace: bool, verbose: bool) -> Outcome {
    unsafe {
        if NOTE_PAGE.is_null() {
            let q = libc::mmap(
                std::ptr::null_mut(),
                NOTE_LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(q != libc::MAP_FAILED);
            NOTE_PAGE = q as *mut u8;
        }
        *(NOTE_PAGE as *mut u64) = 0;
    }
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
    }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: p.cpu_limit_s, rlim_max: p.cpu_limit_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
        }
        Ctx::install(ch, verbose);
        std::panic::set_hook(Box::new(move |info| {
            let m = format!("{info}").replace('\n', " ");
            note(&m);
            if let Ok(mut s) = PANIC_NOTE.lock() {
                if s.is_empty() {
                    *s = m.clone();
                }
            }
            if verbose {
                eprintln!("PANIC {m}");
            }
        }));
        RESULT.store(fds[1], std::sync::atomic::Ordering::Relaxed);
        WANT_TRACE.store(want_trace, std::sync::atomic::Ordering::Relaxed);
        let r = std::panic::catch_unwind(|| (p.run)());
        if r.is_err() {
            let n = panic_note();
            crate::violate("harness-panic", n);
        }
        finish_now();
    }
    unsafe { libc::close(fds[1]) };
    let mut buf = Vec::new();
    let start = Instant::now();
    let wall = Duration::from_secs(p.cpu_limit_s * 4 + 20);
    let mut timed_out = false;
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    loop {
        let mut pfd = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let left = wall.saturating_sub(start.elapsed()).as_millis() as i32;
        let r = unsafe { libc::poll(&mut pfd, 1, left.max(1)) };
        if r == 0 && start.elapsed() >= wall {
            timed_out = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
        if r < 0 {
            continue;
        }
        let mut tmp = [0u8; 65536];
        match f.read(&mut tmp) {
            Ok(0) => break,
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
            Err(_) => continue,
        }
    }
    let mut st = 0;
    unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
    if timed_out {
        return crash("hang", format!("the run made no progress for {} s; {}", wall.as_secs(), read_note()));
    }
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        let name = match sig {
            libc::SIGSEGV => "SIGSEGV",
            libc::SIGABRT => "SIGABRT",
            libc::SIGBUS => "SIGBUS",
            libc::SIGFPE => "SIGFPE",
            libc::SIGILL => "SIGILL",
            libc::SIGXCPU => return crash("hang", format!("CPU limit of {} s used up; {}", p.cpu_limit_s, read_note())),
            libc::SIGKILL => return crash("killed", "process killed (out of memory?)".into()),
            _ => "signal",
        };
        return crash(&format!("crash:{name}"), format!("killed by {name}; {}", read_note()));
    }
    match J::parse(&String::from_utf8_lossy(&buf)) {
        Some(j) if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 => decode(&j),
        _ => crash("crash:exit", format!("exited with status {st:#x} without a result; {}", read_note())),
    }
}

static RESULT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
static WANT_TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Ends the run here and now, with what it has found so far.
pub fn finish_now() -> ! {
    let c = ctx();
    let s = encode(c, WANT_TRACE.load(std::sync::atomic::Ordering::Relaxed) || !c.violations.is_empty());
    let mut f = unsafe { std::fs::File::from_raw_fd(RESULT.load(std::sync::atomic::Ordering::Relaxed)) };
    let _ = f.write_all(s.as_bytes());
    drop(f);
    unsafe { libc::_exit(0) }
}

fn crash(class: &str, detail: String) -> Outcome {
    Outcome { violations: vec![(class.to_string(), detail)], nontrivial: true, ..Default::default() }
}

fn encode(c: &Ctx, trace: bool) -> String {
    let mut j = J::obj()
        .set("hash", c.hash)
        .set("fp", c.fp)
        .set("sim_ns", c.sim_ns)
        .set("nontrivial", c.nontrivial)
        .set("counters", &c.counters)
        .set("sample", c.sample.clone())
        .set("draws", c.ch.draws())
        .set(
            "violations",
            c.violations
                .iter()
                .map(|(a, b)| J::A(vec![a.as_str().into(), b.as_str().into()]))
                .collect::<Vec<_>>(),
        );
    if trace {
        j = j.set("trace", trace_json(&c.ch.trace()));
        let from = c.log.len().saturating_sub(400);
        j = j.set("log", c.log[from..].iter().map(|s| s.as_str().into()).collect::<Vec<J>>());
    }
    j.text()
}

fn trace_json(t: &Trace) -> J {
    J::O(t.iter().map(|(k, v)| (k.clone(), J::A(v.iter().map(|x| J::U(*x)).collect()))).collect())
}
fn trace_from(j: &J) -> Trace {
    let mut t = Trace::new();
    if let J::O(m) = j {
        for (k, v) in m {
            t.insert(k.clone(), v.arr().iter().map(|x| x.u64().unwrap_or(0)).collect());
        }
    }
    t
}

fn decode(j: &J) -> Outcome {
    let g = |k: &str| j.get(k).and_then(|x| x.u64()).unwrap_or(0);
    let mut counters = BTreeMap::new();
    if let Some(J::O(m)) = j.get("counters") {
        for (k, v) in m {
            counters.insert(k.clone(), v.u64().unwrap_or(0));
        }
    }
    Outcome {
        violations: j
            .get("violations")
            .map(|v| {
                v.arr()
                    .iter()
                    .map(|p| {
                        (
                            p.arr()[0].str().unwrap_or("").to_string(),
                            p.arr()[1].str().unwrap_or("").to_string(),
                        )
                    })
                    .collect()
            })
            .unwrap_or_default(),
        hash: g("hash"),
        fp: g("fp"),
        sim_ns: g("sim_ns"),
        nontrivial: j.get("nontrivial") == Some(&J::B(true)),
        counters,
        sample: j.get("sample").and_then(|s| s.str()).unwrap_or("").to_string(),
        trace: j.get("trace").map(trace_from),
        log: j
            .get("log")
            .map(|v| v.arr().iter().map(|s| s.str().unwrap_or("").to_string()).collect())
            .unwrap_or_default(),
        draws: g("draws"),
    }
}

fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)).wrapping_add(mix(index)))
}

/// A known finding suppresses one violation class whose detail contains the given text.
struct Known {
    class: String,
    text: String,
    what: String,
}

fn load_known(prop: &str) -> Vec<Known> {
    let path = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "known_findings.jsonl".into());
    let mut out = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if l.trim().is_empty() || l.starts_with('#') || l.starts_with("fixed:") {
            continue;
        }
        if let Some(j) = J::parse(l) {
            if j.get("property").and_then(|s| s.str()) == Some(prop) {
                let s = |k: &str| j.get(k).and_then(|s| s.str()).unwrap_or("").to_string();
                out.push(Known { class: s("class"), text: s("match"), what: s("what") });
            }
        }
    }
    out
}
fn known_index(k: &[Known], v: &(String, String)) -> Option<usize> {
    k.iter().position(|x| x.class == v.0 && !x.text.is_empty() && v.1.contains(&x.text))
}
fn first_new(k: &[Known], o: &Outcome) -> Option<(String, String)> {
    o.violations.iter().find(|v| known_index(k, v).is_none()).cloned()
}

fn no_aslr() {
    const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let cur = libc::personality(0xffffffff);
        if cur as libc::c_ulong & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if libc::personality(cur as libc::c_ulong | ADDR_NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe")
                    .args(std::env::args_os().skip(1))
                    .env("SIM_REEXEC", "1")
                    .exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
}

pub fn main(sim: &'static str, props: &'static [Prop]) {
    no_aslr();
    std::env::set_var("RUST_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(sim, find(props, &a[2]), &a[3..]),
        Some("replay") => replay(props, &a[2]),
        Some("run") => single(find(props, &a[2]), &a[3..]),
        Some("hashes") => hashes(find(props, &a[2]), &a[3..]),
        Some("shrink") => shrunk(find(props, &a[2]), &a[3..]),
        Some("survey") => survey(find(props, &a[2]), &a[3..]),
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | run ID SEED INDEX | hashes|survey ID SEED N WORKERS");
            2
        }
    };
    std::process::exit(code);
}

fn find(props: &'static [Prop], id: &str) -> &'static Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property {id}");
        std::process::exit(2)
    })
}

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

fn single(p: &Prop, a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let index: u64 = a[1].parse().unwrap();
    let o = run_child(p, Choices::from_seed(run_seed(seed, p.id, index)), true, a.iter().any(|x| x == "-v"));
    println!("hash={:016x} fp={:016x} sim_ns={} draws={} nontrivial={}", o.hash, o.fp, o.sim_ns, o.draws, o.nontrivial);
    println!("counters={:?}", o.counters);
    println!("sample={}", o.sample);
    for v in &o.violations {
        println!("violation {}: {}", v.0, v.1);
    }
    !o.violations.is_empty() as i32
}

fn hashes(p: &'static Prop, a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let n: u64 = a[1].parse().unwrap();
    let w: u64 = a[2].parse().unwrap();
    let mut all = BTreeMap::new();
    pool(p, seed, n, w, 3600.0, 0, &mut |i, o| {
        all.insert(i, (o.hash, o.fp, o.violations.first().map(|v| v.0.clone())));
        true
    });
    for (i, (h, f, v)) in all {
        println!("{i} {h:016x} {f:016x} {}", v.unwrap_or_default());
    }
    0
}

/// Minimises the first violation of one run and shows it.
fn shrunk(p: &'static Prop, a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let index: u64 = a[1].parse().unwrap();
    let o = run_child(p, Choices::from_seed(run_seed(seed, p.id, index)), true, false);
    let Some(v) = o.violations.first() else { return 0 };
    let class = v.0.clone();
    let t = match o.trace {
        Some(t) => t,
        None => match trace_of(p, run_seed(seed, p.id, index), &class) {
            Some(t) => t,
            None => return 1,
        },
    };
    let (t, _) = shrink(p, &[], t, &class, 3000, 30.0);
    run_child(p, Choices::from_trace(t), true, true);
    1
}

/// Every kind of violation met, with how often and where first; digits do not distinguish kinds.
fn survey(p: &'static Prop, a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let n: u64 = a[1].parse().unwrap();
    let w: u64 = a[2].parse().unwrap();
    let mut kinds: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut nontrivial, mut fps) = (0u64, 0u64, BTreeSet::new());
    pool(p, seed, n, w, 3600.0, 0, &mut |i, o| {
        runs += 1;
        nontrivial += o.nontrivial as u64;
        if o.nontrivial {
            fps.insert(o.fp);
        }
        for (k, v) in &o.counters {
            *counters.entry(k.clone()).or_default() += v;
        }
        for v in &o.violations {
            let mut key = String::new();
            for c in format!("{}: {}", v.0, v.1).chars().take(150) {
                if !c.is_ascii_digit() {
                    key.push(c);
                } else if !key.ends_with('#') {
                    key.push('#');
                }
            }
            let e = kinds.entry(key).or_insert((0, i, format!("{}: {}", v.0, v.1)));
            e.0 += 1;
            if i < e.1 {
                (e.1, e.2) = (i, format!("{}: {}", v.0, v.1));
            }
        }
        true
    });
    let mut v: Vec<_> = kinds.into_values().collect();
    v.sort_by(|a, b| b.cmp(a));
    println!("{}: {runs} runs, {nontrivial} non-trivial, {} distinct; {counters:?}", p.id, fps.len());
    for (n, i, t) in v {
        println!("  {n:5} x, first in {i}: {t}");
    }
    0
}

/// Runs indices start..start+n on w worker processes and hands every outcome to `f` (any order).
fn pool(
    p: &'static Prop,
    seed: u64,
    n: u64,
    w: u64,
    wall_cap: f64,
    start: u64,
    f: &mut dyn FnMut(u64, Outcome) -> bool,
) -> bool {
    let begin = Instant::now();
    let mut pids = Vec::new();
    let mut rds: Vec<(i32, Vec<u8>)> = Vec::new();
    for k in 0..w {
        let mut fds = [0i32; 2];
        unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let mut i = start + k;
            while i < start + n {
                if begin.elapsed().as_secs_f64() > wall_cap {
                    break;
                }
                let o = run_child(p, Choices::from_seed(run_seed(seed, p.id, i)), false, false);
                let j = J::obj()
                    .set("i", i)
                    .set("hash", o.hash)
                    .set("fp", o.fp)
                    .set("sim_ns", o.sim_ns)
                    .set("nontrivial", o.nontrivial)
                    .set("counters", &o.counters)
                    .set("draws", o.draws)
                    .set("sample", if i < start + 64 { o.sample.clone() } else { String::new() })
                    .set(
                        "violations",
                        o.violations
                            .iter()
                            .map(|(a, b)| {
                                let b: String = b.chars().take(600).collect();
                                J::A(vec![a.as_str().into(), b.as_str().into()])
                            })
                            .collect::<Vec<_>>(),
                    );
                let mut t = j.text();
                t.push('\n');
                if out.write_all(t.as_bytes()).is_err() {
                    break;
                }
                i += w;
            }
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        pids.push(pid);
        rds.push((fds[0], Vec::new()));
    }
    let mut done = true;
    let mut seen = 0;
    let mut open = rds.len();
    while open > 0 && done {
        let mut pf: Vec<libc::pollfd> =
            rds.iter().map(|(fd, _)| libc::pollfd { fd: *fd, events: libc::POLLIN, revents: 0 }).collect();
        if unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as _, 1000) } < 0 {
            continue;
        }
        for (k, q) in pf.iter().enumerate() {
            if q.fd < 0 || q.revents == 0 {
                continue;
            }
            let mut tmp = [0u8; 65536];
            let r = unsafe { libc::read(q.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
            if r <= 0 {
                unsafe { libc::close(q.fd) };
                rds[k].0 = -1;
                open -= 1;
                continue;
            }
            rds[k].1.extend_from_slice(&tmp[..r as usize]);
            while let Some(nl) = rds[k].1.iter().position(|b| *b == b'\n') {
                let line: Vec<u8> = rds[k].1.drain(..=nl).collect();
                if let Some(j) = J::parse(&String::from_utf8_lossy(&line)) {
                    seen += 1;
                    let i = j.get("i").and_then(|x| x.u64()).unwrap_or(0);
                    if done && !f(i, decode(&j)) {
                        done = false;
                    }
                }
            }
        }
    }
    for (fd, _) in &rds {
        if *fd >= 0 {
            unsafe { libc::close(*fd) };
        }
    }
    for pid in &pids {
        if !done {
            unsafe { libc::kill(*pid, libc::SIGKILL) };
        }
        let mut st = 0;
        unsafe { while libc::waitpid(*pid, &mut st, 0) < 0 {} }
    }
    done && seen == n
}

fn trace_size(t: &Trace) -> (u64, u64) {
    let n: u64 = t.values().map(|v| v.len() as u64).sum();
    let s: u64 = t.values().flat_map(|v| v.iter()).map(|x| if *x == 0 { 0 } else { 1 + (64 - x.leading_zeros() as u64) }).sum();
    (s, n)
}

fn classes(o: &Outcome) -> BTreeSet<String> {
    o.violations.iter().map(|v| v.0.clone()).collect()
}

/// Shrinks a trace while the run still shows a (new) violation of `class`.
fn shrink(p: &'static Prop, known: &[Known], mut best: Trace, class: &str, budget: u64, secs: f64) -> (Trace, u64) {
    let begin = Instant::now();
    let mut evals = 0u64;
    let test = |t: &Trace, evals: &mut u64| -> bool {
        *evals += 1;
        let o = run_child(p, Choices::from_trace(t.clone()), false, false);
        o.violations.iter().any(|v| v.0 == class && known_index(known, v).is_none())
    };
    let over = |evals: u64| evals >= budget || begin.elapsed().as_secs_f64() > secs;
    loop {
        let before = trace_size(&best);
        let names: Vec<String> = best.keys().cloned().collect();
        // whole streams
        for n in &names {
            if over(evals) {
                return (best, evals);
            }
            let mut t = best.clone();
            t.remove(n);
            if test(&t, &mut evals) {
                best = t;
            }
        }
        let names: Vec<String> = best.keys().cloned().collect();
        for n in &names {
            // truncate
            loop {
                let len = best.get(n).map_or(0, |v| v.len());
                if len < 2 || over(evals) {
                    break;
                }
                let mut t = best.clone();
                t.get_mut(n).unwrap().truncate(len / 2);
                if test(&t, &mut evals) {
                    best = t;
                } else {
                    break;
                }
            }
            // zero, then delete, chunks
            for zero in [true, false] {
                let mut size = best.get(n).map_or(0, |v| v.len()).div_ceil(2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.get(n).map_or(0, |v| v.len()) {
                        if over(evals) {
                            return (best, evals);
                        }
                        let v = &best[n];
                        let e = (i + size).min(v.len());
                        let mut t = best.clone();
                        let tv = t.get_mut(n).unwrap();
                        if zero {
                            if tv[i..e].iter().all(|x| *x == 0) {
                                i = e;
                                continue;
                            }
                            tv[i..e].fill(0);
                        } else {
                            tv.drain(i..e);
                        }
                        while t.get(n).is_some_and(|v| v.last() == Some(&0)) {
                            t.get_mut(n).unwrap().pop();
                        }
                        if trace_size(&t) < trace_size(&best) && test(&t, &mut evals) {
                            best = t;
                            if zero {
                                i = e;
                            }
                        } else {
                            i = e;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size = size.div_ceil(2);
                    if size > 1 && size < 4 && best.get(n).map_or(0, |v| v.len()) > 400 {
                        break;
                    }
                }
            }
            // reduce values
            let len = best.get(n).map_or(0, |v| v.len());
            for i in 0..len {
                if i >= best.get(n).map_or(0, |v| v.len()) {
                    break;
                }
                for cand in [1u64, 2, 0] {
                    let x = best[n][i];
                    let y = if cand == 0 { x.saturating_sub(1) } else if cand == 2 { x / 2 } else { 1 };
                    if x == 0 || y >= x {
                        continue;
                    }
                    if over(evals) {
                        return (best, evals);
                    }
                    let mut t = best.clone();
                    t.get_mut(n).unwrap()[i] = y;
                    if test(&t, &mut evals) {
                        best = t;
                    }
                }
            }
        }
        if trace_size(&best) >= before {
            return (best, evals);
        }
    }
}

/// The trace of a run that may die: it records every draw in shared memory.
fn trace_of(p: &'static Prop, seed: u64, class: &str) -> Option<Trace> {
    let o = run_child(p, Choices::from_seed(seed), true, false);
    if let Some(t) = o.trace {
        return Some(t);
    }
    let m = Mirror::new();
    crate::rng::set_mirror(m.0, MIRROR);
    let o = run_child(p, Choices::from_seed(seed), true, false);
    let t = unsafe { crate::rng::read_mirror() };
    crate::rng::set_mirror(std::ptr::null_mut(), 0);
    unsafe { libc::munmap(m.0 as *mut _, MIRROR) };
    if classes(&o).contains(class) {
        Some(t)
    } else {
        None
    }
}

fn check(sim: &'static str, p: &'static Prop, a: &[String]) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = opt(a, "--tier").unwrap_or("quick").to_string();
    let variant = opt(a, "--variant").unwrap_or("").to_string();
    let out_dir = opt(a, "--out").unwrap_or(".").to_string();
    let workers: u64 = opt(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8)
    });
    let n: u64 = opt(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" {
        p.thorough_runs
    } else {
        p.quick_runs
    });
    let share: f64 = opt(a, "--share").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = ((n as f64 * share) as u64).max(1);
    // another build of the same code explores other runs
    let start = if variant.is_empty() || variant == "release" { 0 } else { 1_000_000_000 };
    let cap: f64 = opt(a, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600.0 } else { 240.0 });
    let known = load_known(p.id);
    let mut known_hits = vec![0u64; known.len()];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut fps: BTreeSet<u64> = BTreeSet::new();
    let mut hash_all: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut evals, mut sim_ns, mut nontrivial, mut draws) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: BTreeMap<u64, String> = BTreeMap::new();
    let mut bad: BTreeMap<u64, (String, String)> = BTreeMap::new();
    let mut first_bad_at: Option<Instant> = None;
    let complete = pool(p, seed, n, workers, cap, start, &mut |i, o| {
        evals += 1;
        sim_ns += o.sim_ns;
        draws += o.draws;
        if o.nontrivial {
            nontrivial += 1;
            fps.insert(o.fp);
        }
        hash_all.insert(i, o.hash);
        for (k, v) in &o.counters {
            *counters.entry(k.clone()).or_default() += v;
        }
        if !o.sample.is_empty() && samples.len() < 64 {
            samples.insert(i, o.sample.clone());
        }
        for v in &o.violations {
            if let Some(k) = known_index(&known, v) {
                known_hits[k] += 1;
            }
        }
        if let Some(v) = first_new(&known, &o) {
            bad.insert(i, v);
            first_bad_at.get_or_insert_with(Instant::now);
        }
        // let the workers finish neighbouring runs briefly, then minimise
        bad.len() < 40 && first_bad_at.is_none_or(|t| t.elapsed().as_secs_f64() < 1.5)
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut unreproduced = 0u64;
    let mut violation: Option<(String, String, String, u64)> = None;
    let mut shrink_evals = 0;
    for (i, v) in bad.iter() {
        // confirm in fresh processes before believing it
        let rs = run_seed(seed, p.id, *i);
        let again = run_child(p, Choices::from_seed(rs), false, false);
        let Some(v2) = first_new(&known, &again) else {
            unreproduced += 1;
            eprintln!("note: run {i} showed {}: {} once and not again", v.0, v.1);
            continue;
        };
        let class = v2.0.clone();
        let file = format!("{out_dir}/replays/{}-{}{}-{}.json", p.id, seed, if variant.is_empty() { String::new() } else { format!("-{variant}") }, i);
        let _ = std::fs::create_dir_all(format!("{out_dir}/replays"));
        let (trace, detail, log, hash) = match trace_of(p, rs, &class) {
            Some(t) => {
                let o0 = run_child(p, Choices::from_trace(t.clone()), false, false);
                let t = if o0.violations.iter().any(|x| x.0 == class) {
                    let secs = if class == "hang" { 200.0 } else { 60.0 };
                    let (t, e) = shrink(p, &known, t, &class, 1500, secs);
                    shrink_evals = e;
                    t
                } else {
                    t
                };
                let o = run_child(p, Choices::from_trace(t.clone()), true, false);
                let d = o.violations.iter().find(|x| x.0 == class).map(|x| x.1.clone()).unwrap_or(v2.1.clone());
                (Some(t), d, o.log.clone(), o.hash)
            }
            None => (None, v2.1.clone(), again.log.clone(), again.hash),
        };
        let mut j = J::obj()
            .set("property", p.id)
            .set("simulator", sim)
            .set("variant", variant.clone())
            .set("seed", seed)
            .set("run_index", *i)
            .set("run_seed", rs)
            .set("class", class.clone())
            .set("detail", detail.clone())
            .set("event_hash", hash)
            .set("shrink_evaluations", shrink_evals)
            .set("log", log.iter().map(|s| s.as_str().into()).collect::<Vec<J>>());
        if let Some(t) = &trace {
            j = j.set("trace", trace_json(t));
        }
        let _ = std::fs::write(&file, j.text());
        violation = Some((class, detail, file, *i));
        break;
    }
    let wall = t0.elapsed().as_secs_f64();
    // evidence of this part of the check; the driver script merges parts into evidence/<id>.json
    let total_hash = hash_all.iter().fold(0u64, |h, (i, x)| mix(h ^ mix(*i) ^ *x));
    let faults: BTreeMap<String, u64> = counters.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    let probes: BTreeMap<String, u64> = counters.iter().filter(|(k, _)| k.starts_with("probe.")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    let ops: BTreeMap<String, u64> = counters.iter().filter(|(k, _)| !k.starts_with("probe.") && !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let per_h = if search_s > 0.0 { evals as f64 / search_s * 3600.0 } else { 0.0 };
    let sv: Vec<J> = samples.values().take(12).map(|s| s.as_str().into()).collect();
    let strs = |v: &[&str]| v.iter().map(|s| J::from(*s)).collect::<Vec<J>>();
    let ev = J::obj()
        .set("property", p.id)
        .set("tier", tier)
        .set("seed", seed)
        .set("level", "exploration")
        .set("wall_s", wall)
        .set("violations", violation.is_some() as u64)
        .set("assumptions", strs(p.assumptions))
        .set(
            "coverage",
            J::obj()
                .set("evaluations", evals)
                .set("distinct_nontrivial", fps.len())
                .set("nontrivial_runs", nontrivial)
                .set("rule", p.rule)
                .set("samples", sv)
                .set("runs_requested", n)
                .set("completed_all_requested_runs", complete)
                .set("runs_per_hour", per_h)
                .set("search_wall_s", search_s)
                .set("worker_processes", workers)
                .set("simulated_time_s", sim_ns as f64 / 1e9)
                .set("decisions_drawn", draws)
                .set("faults_injected", &faults)
                .set("probes", &probes)
                .set("operations", &ops)
                .set("event_log_digest", format!("{total_hash:016x}"))
                .set("unreproduced", unreproduced)
                .set("known_finding_hits", known_hits.iter().map(|x| J::U(*x)).collect::<Vec<J>>())
                .set("real_components", strs(p.real))
                .set("stub_components", strs(p.stub)),
        );
    if let Some(f) = opt(a, "--evidence") {
        if let Some(d) = std::path::Path::new(f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if std::fs::write(f, ev.text()).is_err() {
            eprintln!("cannot write evidence {f}");
            return 2;
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    println!(
        "{} {}{}: {} runs ({} distinct non-trivial), {:.1} simulated s, {:.1} s wall, {:.0} runs/h, faults {:?}",
        p.id, sim, if variant.is_empty() { String::new() } else { format!("/{variant}") }, evals, fps.len(), sim_ns as f64 / 1e9, wall, per_h, faults
    );
    if let Some((class, detail, file, i)) = violation {
        println!("{} violated in run {i}: {class}: {detail}", p.id);
        println!("VIOLATION property={} replay={}", p.id, file);
        return 1;
    }
    if evals == 0 {
        eprintln!("no run completed");
        return 2;
    }
    0
}

fn replay(props: &'static [Prop], file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let Some(j) = J::parse(&s) else {
        eprintln!("{file}: not a replay file");
        return 2;
    };
    let p = find(props, j.get("property").and_then(|x| x.str()).unwrap_or(""));
    let class = j.get("class").and_then(|x| x.str()).unwrap_or("").to_string();
    let ch = match j.get("trace") {
        Some(t) => Choices::from_trace(trace_from(t)),
        None => Choices::from_seed(j.get("run_seed").and_then(|x| x.u64()).unwrap_or(0)),
    };
    let o = run_child(p, ch, true, std::env::var_os("SIM_VERBOSE").is_some());
    for l in &o.log {
        println!("{l}");
    }
    let same = o.violations.iter().any(|v| v.0 == class);
    let eh = j.get("event_hash").and_then(|x| x.u64()).unwrap_or(0);
    for v in &o.violations {
        println!("violation {}: {}", v.0, v.1);
    }
    println!("replayed: violation {}, event log {}", if same { "reproduced" } else { "NOT reproduced" }, if eh == o.hash { "identical" } else { "differs" });
    if same {
        println!("VIOLATION property={} replay={}", p.id, file);
        1
    } else {
        0
    }
}
