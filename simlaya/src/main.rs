//! Deterministic simulation of the laya image server: the real `laya::start` with hyper on top of a
//! simulated glommio runtime (executors, TCP, storage, clock), simulated clients and injected faults.
mod clients;
mod gen;
mod model;
mod scenario;

use simcore::runner::{self, Prop};
use std::sync::atomic::{AtomicU64, Ordering};

/// Offset of the wall clock, in seconds; moved by the scenario.
pub static WALL: AtomicU64 = AtomicU64::new(1_700_000_000);
static RAND: AtomicU64 = AtomicU64::new(1);

/// The process's clocks are the simulated clock while a run is in progress.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if simcore::has_ctx() {
        let ns = simcore::ctx().sim_ns;
        let base = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            WALL.load(Ordering::Relaxed)
        } else {
            10_000
        };
        (*ts).tv_sec = (base + ns / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (ns % 1_000_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Hash seeds and the like are the same in every execution of a run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if simcore::has_ctx() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for x in b {
            let k = RAND.fetch_add(1, Ordering::Relaxed);
            *x = simcore::mix(k) as u8;
        }
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}

const REAL: &[&str] = &[
    "laya: src/lib.rs (start, accept loop, HyperStream, ResponseBody), src/http.rs, src/resolve.rs, src/iiif",
    "hyper 1.x and hyper-util (HTTP/1 and HTTP/2 server), h2, http, urlencoding",
    "glommio's Semaphore and GlommioError (its own sources)",
];
const STUB: &[&str] = &[
    "glommio executors, task queues, TCP, file opens and timers: simulated (simlaya/glommio)",
    "kernel TCP, accept queue, storage and clocks: simulated",
    "num_cpus: number of cores drawn per run",
    "clients: h2's client and a small HTTP/1 client in the simulator",
];
const ASSUME: &[&str] = &[
    "glommio 0.9 semantics as read from its source: a panicking task ends its executor, dropping a task cancels it, TcpStream reads/writes follow the socket, an open panics on NUL and when statfs fails right after it",
    "simulated TCP delivers each direction in order, with FIN/RST after the data sent before them",
];

macro_rules! prop {
    ($id:literal, $f:expr, $q:literal, $t:literal, $rule:literal) => {
        Prop {
            id: $id,
            run: || scenario::run($f),
            quick_runs: $q,
            thorough_runs: $t,
            rule: $rule,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
            cpu_limit_s: 30,
        }
    };
}

static PROPS: &[Prop] = &[
    prop!("S01", scenario::Which::S01, 80000, 2500000,
        "a run counts as non-trivial when it had at least two overlapping connections or one injected fault; distinct means distinct fingerprints of the sequence of task steps, segment sizes and storage completions"),
    prop!("S02", scenario::Which::S02, 80000, 2500000,
        "a run counts as non-trivial when at least one identifier that leaves the image directory was sent; distinct as fingerprints of the schedule"),
    prop!("S03", scenario::Which::S03, 80000, 2500000,
        "a run counts as non-trivial when at least two opens overlapped or the directory changed while requests were in progress; distinct as fingerprints of the schedule"),
    prop!("S04", scenario::Which::S04, 80000, 2500000,
        "a run counts as non-trivial when at least one hostile connection or injected fault met a worker before the probes; distinct as fingerprints of the schedule"),
    prop!("S05", scenario::Which::S05, 600, 30000,
        "a run counts as non-trivial when more than 1024 connections were open to one worker; distinct as fingerprints of the schedule"),
    prop!("S06", scenario::Which::S06, 80000, 2500000,
        "a run counts as non-trivial when at least one connection ended otherwise than by an idle close; distinct as fingerprints of the schedule"),
];

fn main() {
    runner::main("simlaya", PROPS)
}
