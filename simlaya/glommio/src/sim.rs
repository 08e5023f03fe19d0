//! The simulated world: shards and tasks, clock and timers, TCP, storage.
use crate::error::Result as GResult;
use crate::net::ClientSock;
use simcore::{chance, count, ev, fp, mix};
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::panic::AssertUnwindSafe;
use std::path::Path;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

/// Per-run settings, drawn by the scenario.
#[derive(Clone, Debug)]
pub struct Config {
    /// Largest delay of one network segment, in microseconds (0: none).
    pub net_delay_us: u64,
    /// Split client bytes and server bytes into segments.
    pub fragment: bool,
    /// Upper bound of one segment when fragmenting.
    pub max_segment: u64,
    /// Reads return fewer bytes than are there.
    pub short_reads: bool,
    /// Writes take fewer bytes than there is room for.
    pub short_writes: bool,
    /// Bytes one direction of a connection can hold.
    pub window: usize,
    /// Run each shard's tasks in the order they became ready.
    pub fifo: bool,
    /// Chance in 64 that time moves on although tasks are ready.
    pub advance: u64,
    /// Chance in 256 of a spurious wake-up per step.
    pub spurious: u64,
    /// Shard stalls still to inject.
    pub stalls: u64,
    /// accept() errors still to inject, and the chance in 64 of each accept.
    pub accept_faults: u64,
    pub accept_rate: u64,
    /// getsockname failures still to inject.
    pub addr_faults: u64,
    /// Largest delay of one storage operation, in microseconds.
    pub disk_delay_us: u64,
    /// Opens still to fail for a passing reason, and the chance in 64 of each open.
    pub open_faults: u64,
    pub open_rate: u64,
    /// Steps after which a world that has not come to rest counts as livelocked.
    pub step_cap: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            net_delay_us: 0,
            fragment: false,
            max_segment: 1 << 20,
            short_reads: false,
            short_writes: false,
            window: 65536,
            fifo: true,
            advance: 0,
            spurious: 0,
            stalls: 0,
            accept_faults: 0,
            accept_rate: 0,
            addr_faults: 0,
            disk_delay_us: 0,
            open_faults: 0,
            open_rate: 0,
            step_cap: 400_000,
        }
    }
}

struct WakeInner {
    shard: usize,
    id: u64,
    queued: AtomicBool,
}
impl Wake for WakeInner {
    fn wake(self: Arc<Self>) {
        Self::wake_by_ref(&self)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.queued.swap(true, Ordering::Relaxed) {
            let _ = READY.try_with(|r| {
                let mut r = r.borrow_mut();
                if self.shard < r.len() {
                    r[self.shard].push_back(self.id);
                }
            });
        }
    }
}

struct TaskCell {
    fut: Option<BoxFut>,
    wake: Arc<WakeInner>,
}

#[derive(Default)]
struct Shard {
    alive: bool,
    server: bool,
    tasks: BTreeMap<u64, TaskCell>,
    stalled_until: u64,
    death: Option<String>,
}

enum Ev {
    Deliver { sock: u64, to_server: bool, data: Vec<u8> },
    Fin { sock: u64, to_server: bool },
    Rst { sock: u64, to_server: bool },
    Timer(u64),
    Connect { sock: u64 },
}

#[derive(Default)]
struct Pipe {
    avail: VecDeque<u8>,
    inflight: usize,
    fin_sent: bool,
    fin: bool,
    last_at: u64,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    total: u64,
}

#[derive(Default)]
struct Sock {
    name: String,
    listener: Option<u64>,
    shard: usize,
    c2s: Pipe,
    s2c: Pipe,
    client_open: bool,
    server_open: bool,
    accepted: bool,
    rst_client: bool,
    rst_server: bool,
    served: bool,
    answered: bool,
    connect_waker: Option<Waker>,
    connected: bool,
    refused: bool,
    window: usize,
    /// An injected fault took this connection from the server before it could serve it.
    faulted: bool,
    /// A server write on this connection was short or had to wait.
    backpressure: bool,
}

struct Listener {
    shard: usize,
    port: u16,
    backlog: VecDeque<u64>,
    waker: Option<Waker>,
    open: bool,
    emfile_until: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(u64),
    Dir,
    /// Opening fails with this error number.
    Fails(i32),
    /// The file vanishes between the open and the statfs that glommio 0.9 makes right after it, whose
    /// failure glommio unwraps: the open panics.
    Vanishes,
}

#[derive(Clone, Debug)]
pub struct OpenRec {
    pub path: Vec<u8>,
    pub start_seq: u64,
    pub exec_seq: u64,
    pub shard: usize,
    /// None: still running or abandoned. Some(0): opened. Some(errno): failed. Some(-1): panicked.
    pub outcome: Option<i32>,
    pub returned: bool,
    pub end_seq: u64,
}

pub struct World {
    pub now: u64,
    pub steps: u64,
    pub cfg: Config,
    shards: Vec<Shard>,
    events: BinaryHeap<Reverse<(u64, u64)>>,
    ev_data: BTreeMap<u64, Ev>,
    seq: u64,
    socks: BTreeMap<u64, Sock>,
    listeners: BTreeMap<u64, Listener>,
    timers: BTreeMap<u64, Waker>,
    next_id: u64,
    next_task: u64,
    pub files: BTreeMap<String, Node>,
    pub opens: Vec<OpenRec>,
    open_files: BTreeMap<u64, usize>,
    pub max_open_files: usize,
    serving: BTreeMap<usize, u64>,
    pub max_serving: u64,
    pub serving_limit: u64,
    done: bool,
    quiesce: Vec<(Waker, std::rc::Rc<std::cell::Cell<bool>>)>,
    quiesce_deadline: u64,
    last_rest_step: u64,
    last_event: (u64, u64),
    spin: bool,
    pub stuck: Option<String>,
    pub panics_client: Vec<String>,
    pub foreign_opens: Vec<String>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::new());
    static READY: RefCell<Vec<VecDeque<u64>>> = const { RefCell::new(Vec::new()) };
    static CUR: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

impl World {
    fn new() -> World {
        World {
            now: 1_000_000,
            steps: 0,
            cfg: Config::default(),
            shards: vec![],
            events: BinaryHeap::new(),
            ev_data: BTreeMap::new(),
            seq: 0,
            socks: BTreeMap::new(),
            listeners: BTreeMap::new(),
            timers: BTreeMap::new(),
            next_id: 1,
            next_task: 1,
            files: BTreeMap::new(),
            opens: vec![],
            open_files: BTreeMap::new(),
            max_open_files: 0,
            serving: BTreeMap::new(),
            max_serving: 0,
            serving_limit: u64::MAX,
            done: false,
            quiesce: vec![],
            quiesce_deadline: 0,
            last_rest_step: 0,
            last_event: (0, 0),
            spin: false,
            stuck: None,
            panics_client: vec![],
            foreign_opens: vec![],
        }
    }
    fn at(&mut self, t: u64, e: Ev) -> u64 {
        self.seq += 1;
        let s = self.seq;
        self.events.push(Reverse((t.max(self.now), s)));
        self.ev_data.insert(s, e);
        s
    }
    fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

pub fn now() -> u64 {
    with(|w| w.now)
}
pub fn current_shard() -> usize {
    let s = CUR.get();
    assert!(s != usize::MAX, "executor operation outside of an executor");
    s
}

pub fn new_shard() -> usize {
    READY.with(|r| r.borrow_mut().push(VecDeque::new()));
    with(|w| {
        w.shards.push(Shard { alive: true, server: true, ..Default::default() });
        let k = w.shards.len() - 1;
        ev!("worker {k} started");
        k
    })
}
/// The shard the clients run on; never counts as a server worker.
pub fn new_client_shard() -> usize {
    READY.with(|r| r.borrow_mut().push(VecDeque::new()));
    with(|w| {
        w.shards.push(Shard { alive: true, server: false, ..Default::default() });
        w.shards.len() - 1
    })
}

pub fn spawn_task(shard: usize, fut: BoxFut) -> (usize, u64) {
    with(|w| {
        let id = w.next_task;
        w.next_task += 1;
        let wake = Arc::new(WakeInner { shard, id, queued: AtomicBool::new(true) });
        if w.shards[shard].alive {
            w.shards[shard].tasks.insert(id, TaskCell { fut: Some(fut), wake });
            READY.with(|r| r.borrow_mut()[shard].push_back(id));
        } else {
            // a dead executor never runs it; forget it (its drop could reach back into the world)
            std::mem::forget(fut);
        }
        (shard, id)
    })
}

pub fn spawn_on_client<T: 'static>(shard: usize, f: impl Future<Output = T> + 'static) -> crate::Task<T> {
    crate::exec::spawn_on(shard, f)
}

pub fn cancel_task(id: (usize, u64)) {
    let cell = W.with(|w| match w.try_borrow_mut() {
        Ok(mut w) => w.shards[id.0].tasks.remove(&id.1),
        Err(_) => None,
    });
    drop(cell);
}

/// The root future of a shard returned: its executor ends, as glommio's does.
pub fn shard_finished(shard: usize) {
    kill_shard(shard, "its main task returned".into());
}

fn kill_shard(shard: usize, why: String) {
    let (tasks, server) = with(|w| {
        let s = &mut w.shards[shard];
        if !s.alive {
            return (BTreeMap::new(), false);
        }
        s.alive = false;
        s.death = Some(why.clone());
        (std::mem::take(&mut s.tasks), s.server)
    });
    ev!("{} {shard} DIED: {why}", if server { "worker" } else { "client shard" });
    let prev = CUR.get();
    CUR.set(shard);
    for (_, t) in tasks {
        if let Some(f) = t.fut {
            let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(f)));
        }
    }
    CUR.set(prev);
}

pub fn server_workers() -> Vec<(usize, bool, Option<String>)> {
    with(|w| {
        w.shards
            .iter()
            .enumerate()
            .filter(|(_, s)| s.server)
            .map(|(i, s)| (i, s.alive, s.death.clone()))
            .collect()
    })
}

// ---------------------------------------------------------------- timers

pub fn add_timer(at: u64, wk: Waker) -> u64 {
    with(|w| {
        let tok = w.at(at, Ev::Timer(0));
        w.ev_data.insert(tok, Ev::Timer(tok));
        w.timers.insert(tok, wk);
        tok
    })
}
pub fn cancel_timer(tok: u64) {
    let _ = W.try_with(|w| {
        if let Ok(mut w) = w.try_borrow_mut() {
            w.timers.remove(&tok);
            w.ev_data.remove(&tok);
        }
    });
}
pub async fn sleep_us(us: u64) {
    if us > 0 {
        crate::timer::sleep(std::time::Duration::from_micros(us)).await
    }
}

/// How much a client should send at most so that a run stays short: narrow connections move few
/// bytes per step.
pub fn roomy(want: usize) -> usize {
    with(|w| {
        let seg = w.cfg.max_segment as usize;
        let piece = (w.cfg.window as usize).min(if w.cfg.fragment { seg / 2 } else { seg }).max(1);
        want.min(piece * 2000)
    })
}

/// Resolves when nothing can happen any more without new input (or an hour of simulated time later).
pub async fn quiesce() {
    let flag = std::rc::Rc::new(std::cell::Cell::new(false));
    let mut reg = false;
    std::future::poll_fn(|cx| {
        if flag.get() {
            return Poll::Ready(());
        }
        let _ = reg;
        reg = true;
        with(|w| {
            let d = w.now + 3_600_000_000_000;
            if w.quiesce.is_empty() {
                w.quiesce_deadline = d;
            }
            w.quiesce.retain(|(_, f)| !std::rc::Rc::ptr_eq(f, &flag));
            w.quiesce.push((cx.waker().clone(), flag.clone()));
        });
        Poll::Pending
    })
    .await
}

pub fn finish() {
    with(|w| w.done = true)
}

// ---------------------------------------------------------------- the scheduler

fn fire_events() {
    loop {
        let e = with(|w| {
            while let Some(Reverse((t, s))) = w.events.peek().copied() {
                if !w.ev_data.contains_key(&s) {
                    w.events.pop();
                    continue;
                }
                if t > w.now {
                    return None;
                }
                w.events.pop();
                return w.ev_data.remove(&s);
            }
            None
        });
        match e {
            None => return,
            Some(e) => fire(e),
        }
    }
}

fn fire(e: Ev) {
    let mut wake: Vec<Waker> = vec![];
    with(|w| match e {
        Ev::Timer(tok) => wake.extend(w.timers.remove(&tok)),
        Ev::Connect { sock } => {
            let target = w.socks[&sock].listener;
            let ok = target.and_then(|l| w.listeners.get(&l)).is_some_and(|l| l.open);
            let s = w.socks.get_mut(&sock).unwrap();
            if ok && s.client_open {
                s.connected = true;
                let l = w.listeners.get_mut(&target.unwrap()).unwrap();
                l.backlog.push_back(sock);
                wake.extend(l.waker.take());
                ev!("{} reached worker {}", s.name, l.shard);
            } else {
                s.refused = true;
                ev!("{} refused", s.name);
            }
            wake.extend(s.connect_waker.take());
        }
        Ev::Deliver { sock, to_server, data } => {
            let now = w.now;
            let Some(s) = w.socks.get_mut(&sock) else { return };
            let open = if to_server { s.server_open || !s.accepted } else { s.client_open };
            let gone = if to_server { s.rst_server } else { s.rst_client };
            let p = if to_server { &mut s.c2s } else { &mut s.s2c };
            p.inflight -= data.len();
            if gone {
                return;
            }
            if !open {
                // data for a closed socket is answered by a reset
                let t = now.max(if to_server { s.s2c.last_at } else { s.c2s.last_at });
                ev!("{} data after close, reset", s.name);
                w.at(t, Ev::Rst { sock, to_server: !to_server });
                return;
            }
            p.total += data.len() as u64;
            p.avail.extend(data);
            wake.extend(p.rwaker.take());
        }
        Ev::Fin { sock, to_server } => {
            let Some(s) = w.socks.get_mut(&sock) else { return };
            let p = if to_server { &mut s.c2s } else { &mut s.s2c };
            p.fin = true;
            wake.extend(p.rwaker.take());
        }
        Ev::Rst { sock, to_server } => {
            let Some(s) = w.socks.get_mut(&sock) else { return };
            if to_server {
                s.rst_server = true;
            } else {
                s.rst_client = true;
            }
            for p in [&mut s.c2s, &mut s.s2c] {
                wake.extend(p.rwaker.take());
                wake.extend(p.wwaker.take());
            }
        }
    });
    for x in wake {
        x.wake();
    }
}

fn run_task(shard: usize, id: u64) {
    let (mut fut, wk) = {
        let got = with(|w| {
            let t = w.shards[shard].tasks.get_mut(&id)?;
            t.wake.queued.store(false, Ordering::Relaxed);
            Some((t.fut.take()?, t.wake.clone()))
        });
        match got {
            Some(x) => x,
            None => return,
        }
    };
    fp(mix((shard as u64) << 32 | id));
    let waker = Waker::from(wk);
    let mut cx = Context::from_waker(&waker);
    let prev = CUR.get();
    CUR.set(shard);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    match r {
        Ok(Poll::Pending) => {
            // the shard may have ended while the task ran
            let back = with(|w| match w.shards[shard].tasks.get_mut(&id) {
                Some(t) => {
                    t.fut = Some(fut);
                    None
                }
                None => Some(fut),
            });
            let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(back)));
        }
        Ok(Poll::Ready(())) => {
            let cell = with(|w| w.shards[shard].tasks.remove(&id));
            let _ = std::panic::catch_unwind(AssertUnwindSafe(|| {
                drop(fut);
                drop(cell);
            }));
        }
        Err(p) => {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(fut)));
            let server = with(|w| w.shards[shard].server);
            if server {
                // glommio: a panicking task unwinds out of the executor's run loop
                count("probe.worker_panic");
                kill_shard(shard, format!("a task panicked: {msg}"));
            } else {
                with(|w| {
                    w.shards[shard].tasks.remove(&id);
                    w.panics_client.push(msg);
                });
            }
        }
    }
    CUR.set(prev);
}

pub fn drive() {
    loop {
        if with(|w| w.done) {
            break;
        }
        fire_events();
        let (cap, steps) = with(|w| {
            w.steps += 1;
            (w.cfg.step_cap, w.steps - w.last_rest_step)
        });
        if steps > cap {
            with(|w| w.stuck = Some(format!("no rest after {cap} steps: tasks keep running without progress")));
            break;
        }
        let (now, advance, spurious, fifo) = with(|w| (w.now, w.cfg.advance, w.cfg.spurious, w.cfg.fifo));
        if spurious > 0 && chance("sched", spurious, 256) {
            spurious_wake();
        }
        let cands: Vec<usize> = READY.with(|r| {
            let r = r.borrow();
            with(|w| {
                (0..r.len())
                    .filter(|k| !r[*k].is_empty() && w.shards[*k].alive && w.shards[*k].stalled_until <= now)
                    .collect()
            })
        });
        let next_event = with(|w| {
            while let Some(Reverse((_, s))) = w.events.peek().copied() {
                if w.ev_data.contains_key(&s) {
                    break;
                }
                w.events.pop();
            }
            w.events.peek().map(|e| e.0 .0)
        });
        let next_stall = with(|w| {
            READY.with(|r| {
                let r = r.borrow();
                (0..r.len())
                    .filter(|k| !r[*k].is_empty() && w.shards[*k].alive && w.shards[*k].stalled_until > now)
                    .map(|k| w.shards[k].stalled_until)
                    .min()
            })
        });
        let next_time = match (next_event, next_stall) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
        // tasks that wake themselves without anything happening do not hold up time
        let spinning = with(|w| {
            let seq = simcore::ctx().seq;
            if w.last_event.0 != seq {
                w.last_event = (seq, w.steps);
            }
            if cands.is_empty() {
                w.spin = false;
            }
            let ready: usize = READY.with(|r| r.borrow().iter().map(|q| q.len()).sum());
            w.steps - w.last_event.1 > if w.spin { 60 * (1 + ready as u64) } else { 1500 + 60 * ready as u64 }
        });
        if spinning {
            with(|w| {
                if !w.spin {
                    count("probe.busy_without_progress");
                }
                w.spin = true;
                w.last_event.1 = w.steps
            });
        }
        let go_on = !cands.is_empty()
            && !spinning
            && !(advance > 0 && next_time.is_some() && chance("sched", advance, 64));
        if go_on {
            let (steps, spin) = with(|w| (w.steps, w.spin || w.steps - w.last_event.1 > 1000));
            let shard = if cands.len() == 1 {
                cands[0]
            } else if spin {
                cands[steps as usize % cands.len()]
            } else {
                *simcore::pick("sched", &cands)
            };
            let len = READY.with(|r| r.borrow()[shard].len()) as u64;
            let i = if fifo || len == 1 || spin { 0 } else { simcore::below("sched", len) as usize };
            let id = READY.with(|r| r.borrow_mut()[shard].remove(i).unwrap());
            run_task(shard, id);
            let stall = with(|w| w.cfg.stalls > 0 && w.shards[shard].server);
            if stall && chance("sched", 1, 48) {
                let us = 1 + simcore::small("sched", 5_000_000);
                with(|w| {
                    w.cfg.stalls -= 1;
                    w.shards[shard].stalled_until = w.now + us * 1000;
                });
                count("fault.worker_stall");
                ev!("worker {shard} stalls for {us} us");
            }
            continue;
        }
        let deadline_hit = |w: &World, t: u64| !w.quiesce.is_empty() && t > w.quiesce_deadline;
        if let Some(t) = next_time {
            if !with(|w| deadline_hit(w, t)) {
                with(|w| {
                    w.now = w.now.max(t);
                    simcore::ctx().sim_ns = w.now;
                });
                continue;
            }
        }
        let q = with(|w| {
            w.last_rest_step = w.steps;
            std::mem::take(&mut w.quiesce)
        });
        if q.is_empty() {
            if !cands.is_empty() {
                continue;
            }
            with(|w| w.stuck = Some("the scenario waits for something that will never happen".into()));
            break;
        }
        for (wk, f) in q {
            f.set(true);
            wk.wake();
        }
    }
}

fn spurious_wake() {
    let target = with(|w| {
        let all: Vec<Arc<WakeInner>> = w
            .shards
            .iter()
            .filter(|s| s.alive && s.server)
            .flat_map(|s| s.tasks.values().map(|t| t.wake.clone()))
            .collect();
        if all.is_empty() {
            None
        } else {
            Some(simcore::pick("sched", &all).clone())
        }
    });
    if let Some(t) = target {
        count("fault.spurious_wake");
        t.wake_by_ref();
    }
}

// ---------------------------------------------------------------- TCP

pub fn listen(shard: usize, addr: SocketAddr) -> io::Result<u64> {
    with(|w| {
        let id = w.id();
        w.listeners.insert(
            id,
            Listener {
                shard,
                port: addr.port(),
                backlog: VecDeque::new(),
                waker: None,
                open: true,
                emfile_until: 0,
            },
        );
        ev!("worker {shard} listens on {addr}");
        Ok(id)
    })
}

pub fn unlisten(id: u64) {
    let _ = W.try_with(|w| {
        let Ok(mut w) = w.try_borrow_mut() else { return };
        let Some(l) = w.listeners.get_mut(&id) else { return };
        l.open = false;
        let backlog = std::mem::take(&mut l.backlog);
        let shard = l.shard;
        ev!("worker {shard} stopped listening");
        for s in backlog {
            let t = w.now;
            w.at(t, Ev::Rst { sock: s, to_server: false });
        }
    });
}

pub fn ports() -> Vec<u16> {
    with(|w| w.listeners.values().filter(|l| l.open).map(|l| l.port).collect())
}

pub fn live_listeners(port: u16) -> Vec<(u64, usize)> {
    with(|w| {
        w.listeners
            .iter()
            .filter(|(_, l)| l.open && l.port == port)
            .map(|(i, l)| (*i, l.shard))
            .collect()
    })
}

/// The kinds of error accept(2) reports for one connection or for the process.
const ACCEPT_ERRORS: [i32; 8] = [
    libc::ECONNABORTED,
    libc::EMFILE,
    libc::ENFILE,
    libc::EPROTO,
    libc::ENOBUFS,
    libc::ENOMEM,
    libc::ENETDOWN,
    libc::EINTR,
];

pub fn poll_accept(id: u64, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
    with(|w| {
        let now = w.now;
        let faults = w.cfg.accept_faults;
        let rate = w.cfg.accept_rate;
        let l = w.listeners.get_mut(&id).unwrap();
        if l.backlog.is_empty() {
            l.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if faults > 0 && chance("fault", rate, 64) {
            let e = *simcore::pick("fault", &ACCEPT_ERRORS);
            let shard = l.shard;
            count("fault.accept_error");
            ev!("accept on worker {shard} fails: errno {e}");
            fp(e as u64);
            w.cfg.accept_faults -= 1;
            if e == libc::ECONNABORTED || e == libc::EPROTO {
                let sock = w.listeners.get_mut(&id).unwrap().backlog.pop_front().unwrap();
                let s = w.socks.get_mut(&sock).unwrap();
                s.accepted = true;
                s.faulted = true;
                w.at(now, Ev::Rst { sock, to_server: false });
            }
            return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
        }
        let sock = l.backlog.pop_front().unwrap();
        let shard = l.shard;
        let s = w.socks.get_mut(&sock).unwrap();
        s.accepted = true;
        s.server_open = true;
        s.shard = shard;
        ev!("worker {shard} accepts {}", s.name);
        fp(mix(sock));
        Poll::Ready(Ok(sock))
    })
}

pub fn sock_addr(id: u64, peer: bool) -> io::Result<SocketAddr> {
    with(|w| {
        if w.cfg.addr_faults > 0 && chance("fault", 1, 8) {
            w.cfg.addr_faults -= 1;
            w.socks.get_mut(&id).unwrap().faulted = true;
            count("fault.getsockname_error");
            ev!("getsockname fails on {}", w.socks[&id].name);
            return Err(io::Error::from_raw_os_error(libc::ENOBUFS));
        }
        if peer {
            if w.socks[&id].rst_server {
                return Err(io::Error::from_raw_os_error(libc::ENOTCONN));
            }
            Ok(([10, 0, (id >> 8) as u8, id as u8], 40000).into())
        } else {
            Ok(([127, 0, 0, 1], 43594).into())
        }
    })
}

/// Opens a connection to one of the listeners on `port` (or to the given worker's).
pub async fn connect(name: String, port: u16, worker: Option<usize>, window: Option<usize>) -> io::Result<ClientSock> {
    let ls = live_listeners(port);
    let ls: Vec<(u64, usize)> = ls.into_iter().filter(|l| worker.is_none_or(|x| x == l.1)).collect();
    let target = if ls.is_empty() {
        None
    } else if ls.len() == 1 {
        Some(ls[0].0)
    } else {
        Some(simcore::pick("net", &ls).0)
    };
    let id = with(|w| {
        let id = w.id();
        let window = window.unwrap_or(w.cfg.window);
        w.socks.insert(id, Sock { name, listener: target, client_open: true, window, ..Default::default() });
        let d = w.cfg.net_delay_us;
        let t = w.now + if d > 0 { simcore::small("net", d) * 1000 } else { 0 };
        w.at(t, Ev::Connect { sock: id });
        id
    });
    let s = ClientSock { id };
    std::future::poll_fn(|cx| {
        with(|w| {
            let s = w.socks.get_mut(&id).unwrap();
            if s.connected {
                Poll::Ready(Ok(()))
            } else if s.refused {
                Poll::Ready(Err(io::Error::from_raw_os_error(libc::ECONNREFUSED)))
            } else {
                s.connect_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    })
    .await?;
    Ok(s)
}

pub fn poll_read(id: u64, client: bool, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    let mut wake = None;
    let r = with(|w| {
        let short = w.cfg.short_reads && !client;
        let limit = w.serving_limit;
        let s = w.socks.get_mut(&id).unwrap();
        let rst = if client { s.rst_client } else { s.rst_server };
        let name = s.name.clone();
        if client && !s.client_open {
            return Poll::Ready(Err(io::Error::from_raw_os_error(libc::EBADF)));
        }
        let p = if client { &mut s.s2c } else { &mut s.c2s };
        if p.avail.is_empty() {
            if rst {
                if !client {
                    ev!("server reads {name}: reset by peer");
                }
                return Poll::Ready(Err(io::Error::from_raw_os_error(libc::ECONNRESET)));
            }
            if p.fin {
                if !client {
                    ev!("server reads {name}: end");
                }
                return Poll::Ready(Ok(0));
            }
            p.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = p.avail.len().min(buf.len());
        if n == 0 {
            return Poll::Ready(Ok(0));
        }
        if short && n > 1 && chance("net", 1, 3) {
            n = 1 + simcore::small("net", n as u64 - 1) as usize;
            count("fault.short_read");
        }
        for b in buf[..n].iter_mut() {
            *b = p.avail.pop_front().unwrap();
        }
        wake = p.wwaker.take();
        if !client {
            ev!("server reads {n} bytes of {name}");
            fp(mix(id ^ (n as u64) << 20));
            if !s.served {
                s.served = true;
                let shard = s.shard;
                let c = w.serving.entry(shard).or_default();
                *c += 1;
                let c = *c;
                w.max_serving = w.max_serving.max(c);
                if c > limit {
                    simcore::violate(
                        "too-many-served",
                        format!("worker {shard} serves {c} connections at the same time (limit {limit})"),
                    );
                }
            }
        }
        Poll::Ready(Ok(n))
    });
    if let Some(x) = wake {
        x.wake();
    }
    r
}

pub fn poll_write(id: u64, client: bool, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    with(|w| {
        let now = w.now;
        let (fragment, maxseg, delay) = (w.cfg.fragment, w.cfg.max_segment, w.cfg.net_delay_us);
        let short = w.cfg.short_writes && !client;
        let s = w.socks.get_mut(&id).unwrap();
        let window = s.window;
        let rst = if client { s.rst_client } else { s.rst_server };
        let name = s.name.clone();
        let gone = client && !s.client_open;
        let p = if client { &mut s.c2s } else { &mut s.s2c };
        if rst || gone || p.fin_sent {
            return Poll::Ready(Err(io::Error::from_raw_os_error(libc::EPIPE)));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let free = window.saturating_sub(p.avail.len() + p.inflight);
        if free == 0 {
            if !client {
                count("probe.write_would_block");
                s.backpressure = true;
            }
            p.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = free.min(buf.len());
        if short && n > 1 && chance("net", 1, 3) {
            n = 1 + simcore::small("net", n as u64 - 1) as usize;
            count("fault.short_write");
        }
        p.inflight += n;
        if !client {
            s.backpressure |= n < buf.len();
            ev!("server writes {n} bytes to {name}");
            fp(mix(id ^ (n as u64) << 21));
            s.answered = true;
        }
        let mut rest = &buf[..n];
        while !rest.is_empty() {
            let k = if fragment {
                (1 + simcore::small("net", maxseg.min(rest.len() as u64) - 1) as usize).min(rest.len())
            } else {
                rest.len()
            };
            if k < rest.len() {
                count("fault.fragmented");
            }
            let d = if delay > 0 { simcore::small("net", delay) * 1000 } else { 0 };
            let s = w.socks.get_mut(&id).unwrap();
            let p = if client { &mut s.c2s } else { &mut s.s2c };
            let t = p.last_at.max(now + d);
            p.last_at = t;
            w.at(t, Ev::Deliver { sock: id, to_server: client, data: rest[..k].to_vec() });
            rest = &rest[k..];
        }
        Poll::Ready(Ok(n))
    })
}

fn send_fin(w: &mut World, id: u64, to_server: bool) {
    let now = w.now;
    let s = w.socks.get_mut(&id).unwrap();
    let p = if to_server { &mut s.c2s } else { &mut s.s2c };
    if p.fin_sent {
        return;
    }
    p.fin_sent = true;
    let t = p.last_at.max(now);
    w.at(t, Ev::Fin { sock: id, to_server });
}

pub fn server_shutdown_write(id: u64) {
    with(|w| {
        ev!("server ends its side of {}", w.socks[&id].name);
        send_fin(w, id, false)
    })
}
pub fn client_shutdown_write(id: u64) {
    with(|w| {
        ev!("{} ends its side", w.socks[&id].name);
        send_fin(w, id, true)
    })
}
pub fn client_reset(id: u64) {
    with(|w| {
        let now = w.now;
        let s = w.socks.get_mut(&id).unwrap();
        ev!("{} resets", s.name);
        s.client_open = false;
        s.c2s.fin_sent = true;
        s.rst_client = true;
        let t = s.c2s.last_at.max(now);
        w.at(t, Ev::Rst { sock: id, to_server: true });
    })
}

pub fn close(id: u64, client: bool) {
    let _ = W.try_with(|w| {
        let Ok(mut w) = w.try_borrow_mut() else { return };
        let w = &mut *w;
        let Some(s) = w.socks.get_mut(&id) else { return };
        if client {
            if !s.client_open {
                return;
            }
            s.client_open = false;
            for w in [s.s2c.rwaker.take(), s.c2s.wwaker.take()].into_iter().flatten() {
                w.wake();
            }
            let unread = !s.s2c.avail.is_empty();
            ev!("{} closed by client", s.name);
            if unread && !s.rst_client {
                let t = s.c2s.last_at.max(w.now);
                w.at(t, Ev::Rst { sock: id, to_server: true });
            } else {
                send_fin(w, id, true);
            }
        } else {
            if !s.server_open {
                return;
            }
            s.server_open = false;
            if s.served {
                *w.serving.get_mut(&s.shard).unwrap() -= 1;
            }
            ev!("{} closed by server", s.name);
            let unread = !s.c2s.avail.is_empty();
            if unread && !s.rst_server {
                let t = s.s2c.last_at.max(w.now);
                w.at(t, Ev::Rst { sock: id, to_server: false });
            } else {
                send_fin(w, id, false);
            }
        }
    });
}

#[derive(Debug, Clone)]
pub struct SockState {
    pub name: String,
    pub shard: usize,
    pub accepted: bool,
    pub server_open: bool,
    pub client_open: bool,
    pub served: bool,
    pub answered: bool,
}
pub fn socks() -> Vec<SockState> {
    with(|w| {
        w.socks
            .values()
            .map(|s| SockState {
                name: s.name.clone(),
                shard: s.shard,
                accepted: s.accepted,
                server_open: s.server_open,
                client_open: s.client_open,
                served: s.served,
                answered: s.answered,
            })
            .collect()
    })
}
pub fn sock_faulted(id: u64) -> bool {
    with(|w| w.socks[&id].faulted)
}
pub fn sock_backpressure(id: u64) -> bool {
    with(|w| w.socks[&id].backpressure)
}
pub fn sock_served(id: u64) -> bool {
    with(|w| w.socks[&id].served)
}
pub fn open_file_count() -> usize {
    with(|w| w.open_files.len())
}

// ---------------------------------------------------------------- storage

/// What opening `path` gives on the simulated storage, by the rules of path lookup.
pub fn lookup(files: &BTreeMap<String, Node>, path: &[u8]) -> Result<u64, i32> {
    if path.is_empty() {
        return Err(libc::ENOENT);
    }
    if path.len() > 4095 {
        return Err(libc::ENAMETOOLONG);
    }
    let mut cur: Vec<String> = vec![];
    let key = |c: &[String]| format!("/{}", c.join("/"));
    let comps: Vec<&[u8]> = path.split(|b| *b == b'/').collect();
    let mut node = Node::Dir;
    let n = comps.len();
    for (i, c) in comps.iter().enumerate() {
        if c.is_empty() || *c == b"." {
            // "x/" and "x/." need a directory
            if !cur.is_empty() && !matches!(node, Node::Dir) && i > 0 {
                return Err(libc::ENOTDIR);
            }
            continue;
        }
        if !matches!(node, Node::Dir) {
            return Err(libc::ENOTDIR);
        }
        if *c == b".." {
            cur.pop();
            node = Node::Dir;
            continue;
        }
        if c.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        cur.push(String::from_utf8_lossy(c).into_owned());
        match files.get(&key(&cur)) {
            None => return Err(libc::ENOENT),
            Some(x) => node = x.clone(),
        }
        if let Node::Fails(e) = node {
            return Err(e);
        }
        let _ = n;
    }
    match node {
        Node::File(s) => Ok(s),
        Node::Dir => Err(libc::EINVAL),
        Node::Fails(e) => Err(e),
        Node::Vanishes => Err(-1),
    }
}

struct OpenGuard(usize);
impl Drop for OpenGuard {
    fn drop(&mut self) {
        let _ = W.try_with(|w| {
            if let Ok(mut w) = w.try_borrow_mut() {
                let k = self.0;
                if !w.opens[k].returned {
                    count("probe.open_abandoned");
                    ev!("open #{k} abandoned");
                }
            }
        });
    }
}

pub async fn file_open(path: &Path) -> io::Result<(u64, u64)> {
    use std::os::unix::ffi::OsStrExt;
    let bytes = path.as_os_str().as_bytes().to_vec();
    let shown = String::from_utf8_lossy(&bytes).into_owned();
    let (k, d1, d2) = with(|w| {
        let k = w.opens.len();
        let start_seq = simcore::ctx().seq;
        w.opens.push(OpenRec {
            path: bytes.clone(),
            start_seq,
            exec_seq: 0,
            shard: CUR.get(),
            outcome: None,
            returned: false,
            end_seq: 0,
        });
        let d = w.cfg.disk_delay_us;
        ev!("open #{k} {shown:?}");
        let (a, b) = if d > 0 { (simcore::small("disk", d), simcore::small("disk", d)) } else { (0, 0) };
        (k, a, b)
    });
    if bytes.contains(&0) {
        with(|w| {
            w.opens[k].outcome = Some(-1);
            w.opens[k].returned = true;
        });
        // as glommio 0.9's reactor does
        panic!("path contained null!");
    }
    let guard = OpenGuard(k);
    sleep_us(d1).await;
    let out = with(|w| {
        let mut r = lookup(&w.files, &bytes);
        if w.cfg.open_faults > 0 && r.is_ok() && chance("fault", w.cfg.open_rate, 64) {
            w.cfg.open_faults -= 1;
            count("fault.open_transient");
            r = Err(*simcore::pick("fault", &[libc::EMFILE, libc::EIO, libc::ENOMEM, libc::EINTR, libc::ENFILE, libc::EAGAIN]));
        }
        let seq = simcore::ctx().seq;
        let rec = &mut w.opens[k];
        rec.exec_seq = seq;
        rec.outcome = Some(match &r {
            Ok(_) => 0,
            Err(e) => *e,
        });
        ev!("open #{k} -> {r:?}");
        fp(mix(k as u64 ^ 0x77));
        r
    });
    sleep_us(d2).await;
    if d1 + d2 > 0 {
        count("fault.delayed_open");
    }
    with(|w| {
        w.opens[k].returned = true;
        w.opens[k].end_seq = simcore::ctx().seq;
    });
    drop(guard);
    match out {
        Ok(size) => {
            let id = with(|w| {
                let id = w.id();
                w.open_files.insert(id, k);
                w.max_open_files = w.max_open_files.max(w.open_files.len());
                id
            });
            Ok((id, size))
        }
        Err(-1) => {
            count("fault.open_panics");
            // as glommio 0.9's DmaFile::open_at does when statfs fails
            panic!("called `Result::unwrap()` on an `Err` value: ENOENT");
        }
        Err(e) => {
            count("fault.open_error");
            Err(io::Error::from_raw_os_error(e))
        }
    }
}

pub fn file_closed(id: u64) {
    let _ = W.try_with(|w| {
        if let Ok(mut w) = w.try_borrow_mut() {
            w.open_files.remove(&id);
        }
    });
}

pub async fn file_read(id: u64, pos: u64, size: usize) -> io::Result<Vec<u8>> {
    let d = with(|w| {
        let d = w.cfg.disk_delay_us;
        if d > 0 {
            simcore::small("disk", d)
        } else {
            0
        }
    });
    sleep_us(d).await;
    let _ = id;
    Ok((0..size as u64).map(|i| (pos + i) as u8).collect())
}

pub fn glommio_result_is_used() -> GResult<(), ()> {
    Ok(())
}
