//! Simulated storage: memory devices reached through the stream callbacks or through the C library's
//! file calls, with pieces, faults, crashes and accounting.
use crate::mem::leave;
use openjp2::openjpeg::*;
use simcore::{below, ev, range};
use std::ffi::{c_char, c_int, c_void};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Piece {
    Full,
    One,
    Fixed(u64),
    Random,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// Returns an error.
    Err,
    /// Returns 0.
    Zero,
    /// The call is interrupted (files).
    Intr,
}
#[derive(Clone, Debug)]
pub struct Plan {
    /// call number of the given kind, how many calls from there on (u64::MAX: for good)
    pub op: Op,
    pub at: u64,
    pub times: u64,
    pub fault: Fault,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Read = 0,
    Write = 1,
    Skip = 2,
    Seek = 3,
    Open = 4,
}

pub struct Dev {
    pub data: Vec<u8>,
    pub pos: u64,
    pub rd: Piece,
    pub wr: Piece,
    pub sk: Piece,
    /// End of data is reported as -1 rather than 0.
    pub eof_err: bool,
    /// A skip or seek past the end is refused (memory) rather than accepted (file).
    pub bounded: bool,
    pub plans: Vec<Plan>,
    /// Writes beyond this many bytes of storage do not fit.
    pub capacity: u64,
    /// The source ends here although its length is larger.
    pub ends: u64,
    pub calls: [u64; 5],
    pub moved: u64,
    pub faults: u64,
    pub fault_kinds: [u64; 5],
    pub short: [u64; 3],
    /// Writes and what they did not take, in order (position, bytes).
    pub writes: Vec<(u64, Vec<u8>)>,
    pub log_writes: bool,
    pub freed: u64,
    pub cap_calls: u64,
    pub bad: Option<String>,
    pub opened: u64,
    pub closed: u64,
    pub is_file: bool,
    /// Decides the random pieces of this device.
    pub rng: simcore::Rng,
}

impl Dev {
    pub fn new(data: Vec<u8>) -> Dev {
        let n = data.len() as u64;
        Dev {
            data,
            pos: 0,
            rd: Piece::Full,
            wr: Piece::Full,
            sk: Piece::Full,
            eof_err: true,
            bounded: false,
            plans: Vec::new(),
            capacity: u64::MAX,
            ends: if n == 0 { u64::MAX } else { n }, // nothing yet: to be written
            calls: [0; 5],
            moved: 0,
            faults: 0,
            fault_kinds: [0; 5],
            short: [0; 3],
            writes: Vec::new(),
            log_writes: false,
            freed: 0,
            cap_calls: u64::MAX,
            bad: None,
            opened: 0,
            closed: 0,
            is_file: false,
            rng: simcore::Rng::new(1),
        }
    }
    pub fn total_calls(&self) -> u64 {
        self.calls.iter().sum()
    }
    fn enter(&mut self, op: Op) -> Option<Fault> {
        crate::sched::io_point();
        let n = self.calls[op as usize];
        simcore::ctx().sim_ns += 1000;
        simcore::fp((op as u64) << 40 | self.pos);
        self.calls[op as usize] += 1;
        if self.total_calls() > self.cap_calls {
            let t = format!(
                "more than {} stream calls (read {}, write {}, skip {}, seek {}) for {} bytes; {}",
                self.cap_calls,
                self.calls[0],
                self.calls[1],
                self.calls[2],
                self.calls[3],
                self.data.len(),
                crate::codec::doing()
            );
            crate::codec::fatal("unbounded-io", t);
        }
        let f = self
            .plans
            .iter()
            .find(|p| p.op == op && n >= p.at && n - p.at < p.times)
            .map(|p| p.fault);
        if f.is_some() {
            self.faults += 1;
            self.fault_kinds[op as usize] += 1;
        }
        f
    }
    fn piece(rng: &mut simcore::Rng, p: Piece, n: u64) -> u64 {
        if n <= 1 {
            return n;
        }
        match p {
            Piece::Full => n,
            Piece::One => 1,
            Piece::Fixed(k) => n.min(k),
            Piece::Random => {
                if rng.below(3) == 0 {
                    n
                } else {
                    1 + rng.below(n)
                }
            }
        }
    }
    /// Ok(bytes) or the fault.
    fn read(&mut self, buf: *mut u8, n: usize) -> Result<usize, Fault> {
        if let Some(f) = self.enter(Op::Read) {
            return Err(f);
        }
        let end = self.ends.min(self.data.len() as u64);
        let left = end.saturating_sub(self.pos);
        let k = Self::piece(&mut self.rng, self.rd, left.min(n as u64));
        unsafe { std::ptr::copy_nonoverlapping(self.data.as_ptr().add(self.pos as usize), buf, k as usize) };
        self.short[0] += (k > 0 && k < left.min(n as u64)) as u64;
        self.pos += k;
        self.moved += k;
        Ok(k as usize)
    }
    fn write(&mut self, buf: *const u8, n: usize) -> Result<usize, Fault> {
        if let Some(f) = self.enter(Op::Write) {
            return Err(f);
        }
        let room = self.capacity.saturating_sub(self.pos);
        if room == 0 && n > 0 {
            self.faults += 1;
            self.fault_kinds[1] += 1;
            return Err(Fault::Err);
        }
        let k = Self::piece(&mut self.rng, self.wr, (n as u64).min(room)) as usize;
        self.short[1] += (k > 0 && (k as u64) < (n as u64).min(room)) as u64;
        let b = unsafe { std::slice::from_raw_parts(buf, k) };
        let p = self.pos as usize;
        if self.data.len() < p + k {
            self.data.resize(p + k, 0);
        }
        self.data[p..p + k].copy_from_slice(b);
        if self.log_writes {
            self.writes.push((self.pos, b.to_vec()));
        }
        self.pos += k as u64;
        self.moved += k as u64;
        Ok(k)
    }
    fn skip(&mut self, n: i64) -> Result<i64, Fault> {
        if let Some(f) = self.enter(Op::Skip) {
            return Err(f);
        }
        if n < 0 {
            // The contract is to skip forward; going back is what the seek function is for.
            if self.bad.is_none() {
                self.bad = Some(format!("the skip function was asked to skip {n} bytes"));
            }
            let m = n.unsigned_abs().min(self.pos);
            self.pos -= m;
            return Ok(-(m as i64));
        }
        let asked = n as u64;
        let mut n = Self::piece(&mut self.rng, self.sk, asked);
        self.short[2] += (n < asked) as u64;
        let left = self.ends.saturating_sub(self.pos);
        if self.bounded && n > left {
            n = left;
            if n == 0 {
                return Err(Fault::Err);
            }
        }
        self.pos += n;
        Ok(n as i64)
    }
    fn seek(&mut self, to: i64) -> Result<(), Fault> {
        if let Some(f) = self.enter(Op::Seek) {
            return Err(f);
        }
        if to < 0 || self.bounded && to as u64 > self.ends {
            return Err(Fault::Err);
        }
        self.pos = to as u64;
        Ok(())
    }
}

unsafe fn dev(p: *mut c_void) -> &'static mut Dev {
    &mut *(p as *mut Dev)
}
pub unsafe extern "C" fn cb_read(buf: *mut c_void, n: usize, p: *mut c_void) -> usize {
    let _g = leave();
    let d = dev(p);
    match d.read(buf as *mut u8, n) {
        Ok(0) if d.eof_err && n > 0 => usize::MAX,
        Ok(k) => k,
        Err(Fault::Zero) => 0,
        Err(_) => usize::MAX,
    }
}
pub unsafe extern "C" fn cb_write(buf: *mut c_void, n: usize, p: *mut c_void) -> usize {
    let _g = leave();
    match dev(p).write(buf as *const u8, n) {
        Ok(k) => k,
        Err(Fault::Zero) => 0,
        Err(_) => usize::MAX,
    }
}
pub unsafe extern "C" fn cb_skip(n: i64, p: *mut c_void) -> i64 {
    let _g = leave();
    match dev(p).skip(n) {
        Ok(k) => k,
        Err(_) => -1,
    }
}
pub unsafe extern "C" fn cb_seek(to: i64, p: *mut c_void) -> i32 {
    let _g = leave();
    dev(p).seek(to).is_ok() as i32
}
pub unsafe extern "C" fn cb_free(p: *mut c_void) {
    let _g = leave();
    dev(p).freed += 1;
}

// ---- the C library's file calls, for paths under /simfs/

struct Files {
    paths: Vec<(String, *mut Dev)>,
    fds: Vec<(c_int, *mut Dev)>,
}
static mut FILES: Files = Files { paths: Vec::new(), fds: Vec::new() };
#[allow(static_mut_refs)]
fn files() -> &'static mut Files {
    unsafe { &mut *std::ptr::addr_of_mut!(FILES) }
}
pub fn mount(path: &str, d: *mut Dev) {
    unsafe { (*d).is_file = true };
    files().paths.push((path.to_string(), d));
}
fn by_fd(fd: c_int) -> Option<&'static mut Dev> {
    let f = files();
    if f.fds.is_empty() {
        return None;
    }
    f.fds.iter().rev().find(|x| x.0 == fd).map(|x| unsafe { &mut *x.1 })
}
unsafe fn fail(e: c_int) -> isize {
    *libc::__errno_location() = e;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    if p.starts_with(b"/simfs/") {
        let _g = leave();
        let name = String::from_utf8_lossy(p).into_owned();
        // (the list may change while this operation is interrupted)
        let Some(d) = files().paths.iter().find(|x| x.0 == name).map(|x| x.1) else {
            return fail(libc::ENOENT) as c_int;
        };
        let dv = &mut *d;
        if let Some(f) = dv.enter(Op::Open) {
            return fail(if f == Fault::Zero { libc::ENOENT } else { libc::EACCES }) as c_int;
        }
        let fd = libc::syscall(libc::SYS_memfd_create, b"sim\0".as_ptr(), 0) as c_int;
        assert!(fd >= 0);
        if flags & libc::O_TRUNC != 0 {
            dv.data.clear();
        }
        dv.pos = 0;
        dv.opened += 1;
        libc::syscall(libc::SYS_ftruncate, fd, dv.data.len());
        files().fds.push((fd, d));
        return fd;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    match by_fd(fd) {
        Some(d) => {
            let _g = leave();
            match d.read(buf as *mut u8, n) {
                Ok(k) => k as isize,
                Err(Fault::Zero) => 0,
                Err(Fault::Intr) => fail(libc::EINTR),
                Err(Fault::Err) => fail(libc::EIO),
            }
        }
        None => libc::syscall(libc::SYS_read, fd, buf, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    match by_fd(fd) {
        Some(d) => {
            let _g = leave();
            match d.write(buf as *const u8, n) {
                Ok(k) => k as isize,
                Err(Fault::Zero) => 0,
                Err(Fault::Intr) => fail(libc::EINTR),
                Err(Fault::Err) => fail(libc::ENOSPC),
            }
        }
        None => libc::syscall(libc::SYS_write, fd, buf, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match by_fd(fd) {
        Some(d) => {
            let _g = leave();
            let to = match whence {
                libc::SEEK_SET => off,
                libc::SEEK_CUR => d.pos as i64 + off,
                _ => d.data.len() as i64 + off,
            };
            if to < 0 {
                return fail(libc::EINVAL) as i64;
            }
            if whence == libc::SEEK_CUR && off == 0 {
                return to;
            }
            match d.enter(Op::Seek) {
                Some(_) => fail(libc::EIO) as i64,
                None => {
                    d.pos = to as u64;
                    to
                }
            }
        }
        None => libc::syscall(libc::SYS_lseek, fd, off, whence) as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(d) = by_fd(fd) {
        let _g = leave();
        d.closed += 1;
        files().fds.retain(|x| x.0 != fd);
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

// ---- how a run reaches the device

#[derive(Clone, Debug)]
pub struct Way {
    pub file: bool,
    pub buffer: usize,
    pub no_seek: bool,
    pub rd: Piece,
    pub wr: Piece,
    pub sk: Piece,
    pub eof_err: bool,
    pub bounded: bool,
    /// Length told to the stream, if not that of the data.
    pub told: Option<u64>,
    pub seed: u64,
}
impl Way {
    /// The plainest way: everything in one piece, one large buffer.
    pub fn plain() -> Way {
        Way {
            file: false,
            buffer: 1 << 20,
            no_seek: false,
            rd: Piece::Full,
            wr: Piece::Full,
            sk: Piece::Full,
            eof_err: true,
            bounded: false,
            told: None,
            seed: 1,
        }
    }
    pub fn draw() -> Way {
        let mut w = Way::plain();
        w.file = below("way", 4) == 3;
        w.buffer = match below("way", 6) {
            0 => 1 << 20,
            1 => 1 + below("way", 16) as usize,
            2 => 1 + below("way", 200) as usize,
            3 => 64 + below("way", 4000) as usize,
            4 => 4096,
            _ => 1,
        };
        w.rd = draw_piece();
        w.wr = draw_piece();
        w.sk = if w.file { Piece::Full } else { draw_piece() };
        w.seed = below("way", 1 << 20);
        w.eof_err = below("way", 2) == 0;
        w.bounded = !w.file && below("way", 2) == 1;
        w
    }
    pub fn name(&self) -> String {
        format!(
            "{}{} buf={} rd={:?} sk={:?}",
            if self.file { "file" } else { "callbacks" },
            if self.no_seek { " no-seek" } else { "" },
            self.buffer,
            self.rd,
            self.sk
        )
    }
}
pub fn draw_piece() -> Piece {
    match below("way", 5) {
        0 => Piece::Full,
        1 => Piece::Random,
        2 => Piece::One,
        3 => Piece::Fixed(range("way", 2, 40)),
        _ => Piece::Fixed(range("way", 41, 5000)),
    }
}

static mut NEXT: u64 = 0;
/// A stream over the device; null when the codec refused to open it.
pub fn open(d: *mut Dev, w: &Way, input: bool) -> *mut opj_stream_t {
    unsafe {
        (*d).rd = w.rd;
        (*d).wr = w.wr;
        (*d).sk = w.sk;
        (*d).eof_err = w.eof_err;
        (*d).bounded = w.bounded;
        (*d).rng = simcore::Rng::new(w.seed);
        let s;
        if w.file {
            NEXT += 1;
            let path = format!("/simfs/{NEXT}");
            mount(&path, d);
            let c = std::ffi::CString::new(path).unwrap();
            s = crate::codec::call("opj_stream_create_file_stream", || {
                opj_stream_create_file_stream(c.as_ptr(), w.buffer, input as i32)
            });
        } else {
            s = crate::codec::call("opj_stream_create", || opj_stream_create(w.buffer, input as i32));
            if s.is_null() {
                return s;
            }
            opj_stream_set_read_function(s, Some(cb_read));
            opj_stream_set_write_function(s, Some(cb_write));
            opj_stream_set_skip_function(s, Some(cb_skip));
            if !w.no_seek {
                opj_stream_set_seek_function(s, Some(cb_seek));
            }
            opj_stream_set_user_data(s, d as *mut c_void, Some(cb_free));
            if input {
                opj_stream_set_user_data_length(s, w.told.unwrap_or((*d).data.len() as u64));
            }
        }
        s
    }
}
pub fn close_stream(s: *mut opj_stream_t) {
    if !s.is_null() {
        crate::codec::call("opj_stream_destroy", || unsafe { opj_stream_destroy(s) });
    }
}
pub fn describe(d: &Dev) {
    ev!(
        "device: {} reads, {} writes, {} skips, {} seeks, {} bytes moved, {} faults",
        d.calls[0],
        d.calls[1],
        d.calls[2],
        d.calls[3],
        d.moved,
        d.faults
    );
}
impl Drop for Dev {
    fn drop(&mut self) {
        for (i, k) in ["read-fault", "write-fault", "skip-fault", "seek-fault", "open-fault"].iter().enumerate() {
            if self.fault_kinds[i] > 0 {
                simcore::count_n(&format!("fault.{k}"), self.fault_kinds[i]);
            }
        }
        for (i, k) in ["short-read", "short-write", "short-skip"].iter().enumerate() {
            if self.short[i] > 0 {
                simcore::count_n(&format!("fault.{k}"), self.short[i]);
            }
        }
    }
}
