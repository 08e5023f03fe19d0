//! The codec's memory: every allocation made inside an API call, by the codec's C allocator or by a Rust
//! container, comes from a simulated heap with a ledger, canaries, seeded initial contents, poisoned and
//! never reused freed blocks, optional guard pages, a memory limit and injected failures.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::ffi::c_void;

extern "C" {
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_calloc(n: usize, m: usize) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
    fn __libc_memalign(a: usize, n: usize) -> *mut c_void;
}

thread_local! {
    static IN_API: Cell<bool> = const { Cell::new(false) };
}

pub struct Api(bool);
/// Inside an API call of the codec until dropped.
pub fn enter() -> Api {
    Api(IN_API.with(|c| c.replace(true)))
}
/// Inside a callback of the harness until dropped.
pub fn leave() -> Api {
    Api(IN_API.with(|c| c.replace(false)))
}
impl Drop for Api {
    fn drop(&mut self) {
        IN_API.with(|c| c.set(self.0));
    }
}
fn in_api() -> bool {
    IN_API.try_with(|c| c.get()).unwrap_or(false)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Kind {
    C = 1,
    Rust = 2,
}

const MAGIC: u64 = 0x51AB_1E55_0B10_C4ED;
const LIVE: u32 = 0x11FE;
const DEAD: u32 = 0xDEAD;
const BACK: usize = 16;
const CANARY: u8 = 0xC7;
const POISON: u8 = 0xDB;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    kind: u32,
    state: u32,
    prev: *mut Head,
    seq: u64,
    slop: usize,
    canary: [u8; 8],
}
const HEAD: usize = std::mem::size_of::<Head>();

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fail {
    Never,
    /// The n-th (from 0) allocation from now on fails, once.
    At(u64),
    /// Everything from the n-th on fails.
    From(u64),
    /// Each allocation fails with this probability in 1/1000.
    Some(u64, u64),
    /// Allocations of at least this many bytes fail.
    Larger(usize),
}

pub struct Heap {
    base: usize,
    end: usize,
    cur: usize,
    last: *mut Head,
    pub guard: bool,
    guards: usize,
    pub fill: u64,
    pub limit: usize,
    pub live_bytes: usize,
    pub live: u64,
    pub peak: usize,
    pub allocs: u64,
    pub c_allocs: u64,
    pub fail: Fail,
    pub failed: u64,
    pub refused: u64,
    /// First defect seen at the heap boundary.
    pub defect: Option<(&'static str, [u64; 3])>,
    pub on: bool,
}

static mut HEAP: Heap = Heap {
    base: 0,
    end: 0,
    cur: 0,
    last: std::ptr::null_mut(),
    guard: false,
    guards: 0,
    fill: 0,
    limit: 512 << 20,
    live_bytes: 0,
    live: 0,
    peak: 0,
    allocs: 0,
    c_allocs: 0,
    fail: Fail::Never,
    failed: 0,
    refused: 0,
    defect: None,
    on: false,
};

#[allow(static_mut_refs)]
pub fn heap() -> &'static mut Heap {
    unsafe { &mut *std::ptr::addr_of_mut!(HEAP) }
}

const SPAN: usize = 48 << 30;

/// Called once in each run's process.
pub fn init() {
    unsafe {
        let want = 0x2000_0000_0000usize as *mut c_void;
        let p = libc::mmap(
            want,
            SPAN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(p == want, "cannot map the simulated heap");
        let h = heap();
        h.base = p as usize;
        h.cur = h.base;
        h.end = h.base + SPAN;
        h.on = true;
    }
}

fn ours(p: *mut c_void) -> bool {
    let h = heap();
    h.on && (p as usize) >= h.base && (p as usize) < h.end
}

unsafe fn defect(what: &'static str, a: u64, b: u64, c: u64) {
    let h = heap();
    if h.defect.is_none() {
        h.defect = Some((what, [a, b, c]));
    }
}

unsafe fn fill(p: *mut u8, n: usize, seq: u64) {
    match heap().fill {
        0 => {}
        1 => std::ptr::write_bytes(p, 0xA5, n),
        2 => std::ptr::write_bytes(p, 0xFF, n),
        3 => std::ptr::write_bytes(p, 0x7F, n),
        k => {
            let mut x = simcore::mix(k ^ seq);
            let mut i = 0;
            while i < n {
                *p.add(i) = x as u8;
                x = x.rotate_right(8) ^ (i as u64);
                i += 1;
            }
        }
    }
}

fn refuse(size: usize, kind: Kind) -> bool {
    let h = heap();
    let n = h.c_allocs;
    if kind == Kind::C {
        h.c_allocs += 1;
        let f = match h.fail {
            Fail::Never => false,
            Fail::At(k) => n == k,
            Fail::From(k) => n >= k,
            Fail::Some(p, seed) => simcore::mix(seed ^ n) % 1000 < p,
            Fail::Larger(s) => size >= s,
        };
        if f {
            h.failed += 1;
            return true;
        }
        if size > h.limit || h.live_bytes + size > h.limit {
            h.refused += 1;
            return true;
        }
    }
    false
}

unsafe fn alloc(size: usize, align: usize, kind: Kind, zero: bool) -> *mut c_void {
    let _g = leave();
    crate::sched::alloc_point();
    let h = heap();
    h.allocs += 1;
    if refuse(size, kind) {
        return std::ptr::null_mut();
    }
    let align = align.max(16);
    let guard = h.guard && h.guards < 12000 && size < (1 << 24);
    let p;
    let slop;
    if guard {
        h.guards += 1;
        let lead = HEAD.max(align);
        let total = (lead + size + align + 4095) & !4095;
        h.cur = (h.cur + 4095) & !4095;
        if h.cur + total + 4096 > h.end {
            return std::ptr::null_mut();
        }
        let page_end = h.cur + total;
        p = (page_end - size) & !(align - 1);
        libc::mprotect(page_end as *mut c_void, 4096, libc::PROT_NONE);
        h.cur = page_end + 4096;
        slop = page_end - p - size;
        std::ptr::write_bytes((p + size) as *mut u8, CANARY, slop);
    } else {
        // like the C library, aligned to 16 and to 32 only by chance
        let mut q = h.cur + HEAD;
        if align <= 16 && simcore::mix(h.fill ^ h.allocs) & 1 == 0 {
            q += 16;
        }
        p = (q + align - 1) & !(align - 1);
        match p.checked_add(size).and_then(|x| x.checked_add(BACK + 16)) {
            Some(e) if e <= h.end => h.cur = (p + size + BACK + 15) & !15,
            _ => return std::ptr::null_mut(),
        }
        slop = BACK;
        std::ptr::write_bytes((p + size) as *mut u8, CANARY, slop);
    }
    let hd = (p - HEAD) as *mut Head;
    *hd = Head {
        magic: MAGIC,
        size,
        kind: kind as u32,
        state: LIVE,
        prev: h.last,
        seq: h.allocs,
        slop,
        canary: [CANARY; 8],
    };
    h.last = hd;
    h.live += 1;
    h.live_bytes += size;
    h.peak = h.peak.max(h.live_bytes);
    if !zero {
        fill(p as *mut u8, size, h.allocs);
    }
    p as *mut c_void
}

unsafe fn back_ok(hd: *mut Head) -> bool {
    let end = hd as usize + HEAD + (*hd).size;
    (0..(*hd).slop).all(|i| *((end + i) as *const u8) == CANARY)
}

unsafe fn release(p: *mut c_void, kind: Kind) {
    let _g = leave();
    let h = heap();
    let hd = (p as usize - HEAD) as *mut Head;
    if (*hd).magic != MAGIC || (p as usize) < h.base + HEAD {
        defect("free of a pointer that was never allocated", p as u64, 0, 0);
        return;
    }
    if (*hd).state == DEAD {
        defect("double free", (*hd).seq, (*hd).size as u64, 0);
        return;
    }
    if (*hd).canary != [CANARY; 8] {
        defect("write before the start of an allocation", (*hd).seq, (*hd).size as u64, 0);
    }
    if !back_ok(hd) {
        defect("write past the end of an allocation", (*hd).seq, (*hd).size as u64, 0);
    }
    if (*hd).kind != kind as u32 {
        defect("memory released by another allocator than the one it came from", (*hd).seq, (*hd).size as u64, kind as u64);
    }
    (*hd).state = DEAD;
    h.live -= 1;
    h.live_bytes -= (*hd).size;
    std::ptr::write_bytes(p as *mut u8, POISON, (*hd).size.min(1 << 16));
}

/// Checks every block; returns the defect and the live blocks (seq, size, kind).
pub fn audit() -> (Option<String>, Vec<(u64, usize, Kind)>) {
    let h = heap();
    let mut live = Vec::new();
    unsafe {
        let mut hd = h.last;
        while !hd.is_null() {
            if (*hd).magic != MAGIC || (*hd).canary != [CANARY; 8] {
                defect("write before the start of an allocation", (*hd).seq, (*hd).size as u64, 0);
                break;
            }
            if !back_ok(hd) {
                defect("write past the end of an allocation", (*hd).seq, (*hd).size as u64, 0);
            }
            if (*hd).state == DEAD {
                let p = (hd as usize + HEAD) as *const u8;
                let n = (*hd).size.min(1 << 16);
                if std::slice::from_raw_parts(p, n).iter().any(|b| *b != POISON) {
                    defect("write to memory after it was released", (*hd).seq, (*hd).size as u64, 0);
                }
            } else {
                let k = if (*hd).kind == Kind::C as u32 { Kind::C } else { Kind::Rust };
                live.push(((*hd).seq, (*hd).size, k));
            }
            hd = (*hd).prev;
        }
    }
    live.reverse();
    (defect_text(), live)
}

pub fn defect_text() -> Option<String> {
    heap().defect.map(|(w, a)| format!("{w} (allocation #{}, {} bytes)", a[0], a[1]))
}

/// True when the pointer is a live allocation of the simulated heap with at least `n` bytes.
pub fn owns(p: *const u8, n: usize) -> bool {
    if !ours(p as *mut c_void) {
        return false;
    }
    unsafe {
        let hd = (p as usize - HEAD) as *const Head;
        (*hd).magic == MAGIC && (*hd).state == LIVE && (*hd).size >= n
    }
}

// ---- the C allocator the codec links against

#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    if in_api() && heap().on {
        alloc(n, 16, Kind::C, false)
    } else {
        __libc_malloc(n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut c_void {
    if in_api() && heap().on {
        match n.checked_mul(m) {
            Some(t) => alloc(t, 16, Kind::C, true),
            None => std::ptr::null_mut(),
        }
    } else {
        __libc_calloc(n, m)
    }
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    if ours(p) {
        let hd = (p as usize - HEAD) as *mut Head;
        if (*hd).magic != MAGIC || (*hd).state != LIVE {
            defect("realloc of memory that is not allocated", (*hd).seq, (*hd).size as u64, 0);
            return std::ptr::null_mut();
        }
        let q = alloc(n, 16, Kind::C, false);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p as *const u8, q as *mut u8, n.min((*hd).size));
            release(p, Kind::C);
        }
        q
    } else if p.is_null() && in_api() && heap().on {
        alloc(n, 16, Kind::C, false)
    } else {
        __libc_realloc(p, n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    if p.is_null() {
        return;
    }
    if ours(p) {
        release(p, Kind::C)
    } else if in_api() && heap().on {
        defect("free of memory the codec does not own", p as u64, 0, 0)
    } else {
        __libc_free(p)
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, align: usize, n: usize) -> libc::c_int {
    let p = if in_api() && heap().on { alloc(n, align, Kind::C, false) } else { __libc_memalign(align, n) };
    if p.is_null() {
        return libc::ENOMEM;
    }
    *out = p;
    0
}

// ---- the Rust side

pub struct Global;
unsafe impl GlobalAlloc for Global {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_api() && heap().on {
            alloc(l.size(), l.align(), Kind::Rust, false) as *mut u8
        } else if l.align() <= 16 {
            __libc_malloc(l.size()) as *mut u8
        } else {
            __libc_memalign(l.align(), l.size()) as *mut u8
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if in_api() && heap().on {
            alloc(l.size(), l.align(), Kind::Rust, true) as *mut u8
        } else if l.align() <= 16 {
            __libc_calloc(l.size(), 1) as *mut u8
        } else {
            let p = __libc_memalign(l.align(), l.size()) as *mut u8;
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        if ours(p as *mut c_void) {
            release(p as *mut c_void, Kind::Rust)
        } else {
            __libc_free(p as *mut c_void)
        }
    }
}

#[global_allocator]
static GLOBAL: Global = Global;

// The C library allocates for the registration of a thread-local destructor, and Rust aborts when that fails: not
// memory of the codec.
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(
    f: *mut c_void,
    obj: *mut c_void,
    dso: *mut c_void,
) -> std::os::raw::c_int {
    let _g = leave();
    type F = unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_void) -> std::os::raw::c_int;
    let real = libc::dlsym(libc::RTLD_NEXT, b"__cxa_thread_atexit_impl\0".as_ptr() as *const _);
    std::mem::transmute::<*mut c_void, F>(real)(f, obj, dso)
}
