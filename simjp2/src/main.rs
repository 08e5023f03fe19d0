//! Deterministic simulation of the JPEG 2000 codec: the real encoder and decoder over simulated storage,
//! a simulated heap and scheduled threads, with injected faults.
#![allow(unused_unsafe)]
mod boxes;
mod calls;
mod codec;
mod forms;
mod img;
mod io;
mod mem;
mod props;
mod sched;

use simcore::runner::{self, Prop};
use std::sync::atomic::{AtomicU64, Ordering};

static RAND: AtomicU64 = AtomicU64::new(1);

/// Hash seeds and the like are the same in every execution of a run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if simcore::has_ctx() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for x in b {
            let k = RAND.fetch_add(1, Ordering::Relaxed);
            *x = simcore::mix(k) as u8;
        }
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}

const REAL: &[&str] = &[
    "openjp2-rs: the whole crate (API, stream layer, codestream and JP2 readers and writers, tile coder, entropy coders, transforms)",
    "Rust's std::io::BufReader, BufWriter and File on top of the simulated system calls",
];
const STUB: &[&str] = &[
    "storage: simulated devices behind the stream callbacks, and behind open/read/write/lseek/close for /simfs paths",
    "heap: malloc, calloc, realloc, free, posix_memalign and Rust's global allocator, as seen by the codec",
    "thread scheduler (C09): one thread runs at a time, switched at I/O, allocations, messages and (traced build) any basic block",
];
const ASSUME: &[&str] = &[
    "a stream function may transfer any number of bytes from one up to what was asked for; it reports the end as 0 or -1",
    "simulated time advances by one microsecond per stream or system call; the codec itself has no clocks or timers",
];

macro_rules! prop {
    ($id:literal, $f:expr, $q:literal, $t:literal, $rule:literal) => {
        Prop {
            id: $id,
            run: $f,
            quick_runs: $q,
            thorough_runs: $t,
            rule: $rule,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
            cpu_limit_s: 40,
        }
    };
}

static PROPS: &[Prop] = &[
    prop!("C01", props::c01, 20000, 600000,
        "a run counts as non-trivial when a header was decoded and at least one delivery differed from a single piece; distinct means distinct fingerprints of the sequence of I/O calls (kind, position) and outcomes"),
    prop!("C02", props::c02, 20000, 600000,
        "a run counts as non-trivial when an injected fault was met by the decode; distinct as fingerprints of the I/O call sequence"),
    prop!("C03", props::c03, 20000, 600000,
        "a run counts as non-trivial when writes were split or a fault was met; distinct as fingerprints of the I/O call sequence"),
    prop!("C04", props::c04, 20000, 600000,
        "a run counts as non-trivial when the image was encoded and decoded; distinct as fingerprints of the I/O call sequence"),
    prop!("C05", props::c05, 20000, 600000,
        "a run counts as non-trivial when damaged data got past opening; distinct as fingerprints of the I/O call sequence and outcomes"),
    prop!("C06", props::c06, 20000, 600000,
        "a run counts as non-trivial when an allocation was made to fail; distinct as fingerprints of the failing allocation and I/O calls"),
    prop!("C07", props::c07, 20000, 600000,
        "a run counts as non-trivial when at least three calls were made; distinct as fingerprints of the call sequence and outcomes"),
    prop!("C08", props::c08, 20000, 600000,
        "a run counts as non-trivial when at least one part was compared with the full image; distinct as fingerprints of the I/O call sequence"),
    prop!("C09", props::c09, 6000, 300000,
        "a run counts as non-trivial when at least two operations overlapped (a switch happened in the middle); distinct as fingerprints of the sequence of switches"),
    prop!("C10", props::c10, 20000, 600000,
        "a run counts as non-trivial when the storage misbehaved; distinct as fingerprints of the I/O call sequence"),
    prop!("C11", props::c11, 20000, 600000,
        "a run counts as non-trivial when the cut left at least one complete tile and removed something; distinct as fingerprints of the I/O call sequence"),
    prop!("C12", props::c12, 20000, 600000,
        "a run counts as non-trivial when there were at least two tiles; distinct as fingerprints of the I/O call sequence"),
    prop!("C13", props::c13, 10000, 300000,
        "a run counts as non-trivial when at least one surviving prefix was decoded; distinct as fingerprints of the I/O call sequence"),
    prop!("C14", props::c14, 20000, 600000,
        "a run counts as non-trivial when a codestream in another form was decoded; distinct as fingerprints of the I/O call sequence"),
    prop!("C15", props::c15, 20000, 600000,
        "a run counts as non-trivial when a lossy image was encoded and decoded; distinct as fingerprints of the I/O call sequence"),
];

fn main() {
    runner::main("simjp2", PROPS)
}
