//! Scheduling of the threads of a run (one executes at a time), preemption points and the step budget.
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

struct State {
    current: usize,
    runnable: Vec<bool>,
    switches: u64,
}
static STATE: Mutex<State> = Mutex::new(State { current: 0, runnable: Vec::new(), switches: 0 });
static TURN: Condvar = Condvar::new();

/// Points left until the next preemption; only touched by the thread that holds the turn.
static mut LEFT: u64 = u64::MAX;
static mut MULTI: bool = false;
static mut SPREAD: u64 = 0;
/// Basic blocks of the codec executed in this run (traced variant only).
pub static mut STEPS: u64 = 0;
pub static mut BUDGET: u64 = u64::MAX;
static mut TRACED: bool = false;

pub fn steps() -> u64 {
    unsafe { STEPS }
}
pub fn budget_from_now(n: u64) {
    unsafe { BUDGET = STEPS.saturating_add(n) }
}
pub fn traced() -> bool {
    unsafe { TRACED }
}

/// Called by every basic block of the codec in the traced variant.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    STEPS += 1;
    TRACED = true;
    if STEPS > BUDGET {
        over_budget();
    }
    if MULTI {
        tick();
    }
}
#[cold]
unsafe fn over_budget() {
    BUDGET = u64::MAX;
    let _g = crate::mem::leave();
    crate::codec::fatal("hang", format!("the operation did not finish within its budget of basic blocks ({})", crate::codec::doing()));
}

#[inline]
unsafe fn tick() {
    if LEFT > 1 {
        LEFT -= 1;
        return;
    }
    switch();
}
pub fn alloc_point() {
    unsafe {
        if MULTI {
            tick()
        }
    }
}
pub fn io_point() {
    unsafe {
        if MULTI {
            tick()
        }
    }
}

unsafe fn draw_left() {
    LEFT = match SPREAD {
        0 => 1 + simcore::below("sched", 4),
        1 => 1 + simcore::below("sched", 60),
        2 => 1 + simcore::below("sched", 2000),
        _ => 1 + simcore::small("sched", 400_000),
    };
}

#[cold]
fn switch() {
    let _g = crate::mem::leave();
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let mut s = STATE.lock().unwrap();
    let r: Vec<usize> = (0..s.runnable.len()).filter(|i| s.runnable[*i]).collect();
    let k = simcore::below("next", r.len() as u64) as usize;
    unsafe { draw_left() };
    let next = r[k];
    s.switches += 1;
    simcore::fp(next as u64 + 1000 * s.switches);
    if next == me {
        return;
    }
    s.current = next;
    TURN.notify_all();
    while s.current != me {
        s = TURN.wait(s).unwrap();
    }
}

/// Runs the jobs to completion, interleaved; returns the number of switches.
pub fn together<'a>(jobs: Vec<Box<dyn FnOnce() + 'a>>, spread: u64) -> u64 {
    let n = jobs.len();
    {
        let mut s = STATE.lock().unwrap();
        s.runnable = vec![true; n];
        s.switches = 0;
        s.current = simcore::below("next", n as u64) as usize;
    }
    unsafe {
        MULTI = true;
        SPREAD = spread;
        draw_left();
    }
    std::thread::scope(|scope| {
        let mut hs = Vec::new();
        for (i, j) in jobs.into_iter().enumerate() {
            let j = Carry(j);
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(scope, move || {
                    let j = j;
                    ME.with(|m| m.set(i));
                    {
                        let mut s = STATE.lock().unwrap();
                        while s.current != i {
                            s = TURN.wait(s).unwrap();
                        }
                    }
                    (j.0)();
                    let mut s = STATE.lock().unwrap();
                    ME.with(|m| m.set(usize::MAX));
                    s.runnable[i] = false;
                    s.current = usize::MAX;
                    TURN.notify_all();
                })
                .unwrap();
            hs.push(Some(h));
        }
        // a thread that is done has to be gone, thread-local state and all, before the next one goes on
        loop {
            let mut s = STATE.lock().unwrap();
            while s.current != usize::MAX {
                s = TURN.wait(s).unwrap();
            }
            let done = (0..n).find(|k| !s.runnable[*k] && hs[*k].is_some()).unwrap();
            drop(s);
            let _ = hs[done].take().unwrap().join();
            let mut s = STATE.lock().unwrap();
            let r: Vec<usize> = (0..n).filter(|k| s.runnable[*k]).collect();
            if r.is_empty() {
                break;
            }
            s.current = r[simcore::below("next", r.len() as u64) as usize];
            TURN.notify_all();
        }
    });
    unsafe {
        MULTI = false;
    }
    STATE.lock().unwrap().switches
}

struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}

/// Runs one job on a thread of its own (thread-local state of the codec starts fresh and ends with it).
pub fn alone<T>(f: impl FnOnce() -> T) -> T {
    let f = Carry(f);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                let f = f;
                Carry((f.0)())
            })
            .unwrap()
            .join()
            .unwrap()
    });
    r.0
}
