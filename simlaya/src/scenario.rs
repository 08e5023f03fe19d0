//! Scenarios, clients and the checks of properties S01-S06.
use crate::clients::*;
use crate::gen::{self, Mix};
use crate::model::{self, expect, Expect, Reach};
use futures_lite::future;
use glommio::net::ClientSock;
use glommio::sim::{self, Node};
use simcore::{below, chance, count, ev, pick, range, small, weighted};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::task::{Poll, Waker};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Which {
    S01,
    S02,
    S03,
    S04,
    S05,
    S06,
}
use Which::*;

pub struct Req {
    conn: String,
    method: String,
    target: String,
    expect: Expect,
    sent: Option<u64>,
    done: Option<u64>,
    resp: Option<Result<Resp, String>>,
    /// The client keeps its connection open and waits: it must get its response.
    good: bool,
    /// HTTP/1 connection the request went over, if it or one pipelined after it has a body the server does not read.
    unread_body: Option<u64>,
}

pub struct Sc {
    which: Which,
    dir: String,
    port: Cell<u16>,
    reqs: RefCell<Vec<Req>>,
    release: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
    versions: RefCell<Vec<(u64, BTreeMap<String, Node>)>>,
    mix: Mix,
    done: Cell<bool>,
    slow_readers: Cell<usize>,
    hostile: Cell<usize>,
    conns: Cell<usize>,
    outside_sent: Cell<usize>,
}

fn seq() -> u64 {
    simcore::ctx().seq
}

impl Sc {
    /// Reports a violation if its class belongs to the property under check.
    fn viol(&self, class: &str, detail: String) {
        let mine: &[&str] = match self.which {
            S01 => &["response-wrong", "response-missing", "response-extra", "response-cut-unread-body"],
            S02 => &["escape", "outside-answered", "outside-unanswered"],
            S03 => &["open-count", "open-unexpected", "open-outcome"],
            S04 => &["worker-dead", "no-service", "response-missing", "response-wrong", "no-rest"],
            S05 => &["too-many-served", "not-served", "waiting-dropped", "too-many-answered"],
            S06 => &["socket-leak", "file-leak"],
        };
        if mine.contains(&class) {
            simcore::violate(class, detail);
        } else {
            ev!("other property's {class}: {detail}");
        }
    }
    async fn wait_release(&self) {
        future::poll_fn(|cx| {
            if self.release.get() {
                Poll::Ready(())
            } else {
                self.wakers.borrow_mut().push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
    fn do_release(&self) {
        self.release.set(true);
        for w in self.wakers.borrow_mut().drain(..) {
            w.wake();
        }
    }
    fn new_req(&self, conn: &str, m: &Mix, good: bool) -> usize {
        let (method, target, path) = gen::request(m);
        self.add_req(conn, method, target, &path, good)
    }
    fn add_req(&self, conn: &str, method: String, target: String, path: &str, good: bool) -> usize {
        let e = expect(&method, path);
        if let Expect::Image(i) = &e {
            if model::reach(&self.dir, i) == Reach::Outside {
                self.outside_sent.set(self.outside_sent.get() + 1);
                count("probe.outside_identifier");
            }
        }
        count("requests");
        let mut r = self.reqs.borrow_mut();
        r.push(Req { conn: conn.into(), method, target, expect: e, sent: None, done: None, resp: None, good, unread_body: None });
        r.len() - 1
    }
    fn sent(&self, k: usize) {
        let mut r = self.reqs.borrow_mut();
        ev!("request #{k} {} {} ({})", r[k].method, short(&r[k].target), r[k].conn);
        r[k].sent = Some(seq());
    }
    fn answered(&self, k: usize, x: Result<Resp, String>) {
        match &x {
            Ok(r) => {
                count("responses");
                ev!("response #{k} {} {:?}", r.status, String::from_utf8_lossy(&r.body[..r.body.len().min(60)]))
            }
            Err(e) => ev!("request #{k} failed: {e}"),
        }
        let mut r = self.reqs.borrow_mut();
        r[k].done = Some(seq());
        r[k].resp = Some(x);
    }
    fn abandon(&self, k: usize) {
        self.reqs.borrow_mut()[k].good = false;
    }
    async fn connect(&self, name: &str, worker: Option<usize>, window: Option<usize>) -> std::io::Result<Rc<ClientSock>> {
        self.conns.set(self.conns.get() + 1);
        count("connections");
        Ok(Rc::new(sim::connect(name.to_string(), self.port.get(), worker, window).await?))
    }
}

fn short(s: &str) -> String {
    if s.len() > 100 {
        let mut k = 80;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...({} bytes)", &s[..k], s.len())
    } else {
        s.to_string()
    }
}

const DIRS: &[&str] = &[
    "/srv/images", "/srv/images/", "/srv/./images", "srv/images", "./srv/images", "/srv/images-private/../images", "/srv//images//",
];

fn storage(which: Which) -> BTreeMap<String, Node> {
    let mut f = BTreeMap::new();
    for d in ["/etc", "/srv", "/srv/images", "/srv/images-private", "/srv/images/coll", "/srv/imagesx", "/srv/images/coll/..x"] {
        f.insert(d.to_string(), Node::Dir);
    }
    for n in gen::EXISTING {
        if !n.ends_with("/..") {
            f.insert(format!("/srv/images/{n}"), Node::File(1000));
        }
    }
    for n in ["probe.jp2", "malformed-only.jp2", "crowd.jp2"] {
        f.insert(format!("/srv/images/{n}"), Node::File(5));
    }
    for n in ["/etc/passwd", "/srv/secret.jp2", "/srv/images-private/x.jp2", "/srv/images2.jp2", "/a.jp2", "/secret.jp2", "/passwd", "/srv/etc"] {
        f.insert(n.to_string(), Node::File(7));
    }
    f.insert("/srv/images/denied.jp2".into(), Node::Fails(libc::EACCES));
    f.insert("/srv/images/eio.jp2".into(), Node::Fails(libc::EIO));
    f.insert("/srv/images/loop.jp2".into(), Node::Fails(libc::ELOOP));
    if matches!(which, S04 | S06) {
        f.insert("/srv/images/ghost.jp2".into(), Node::Vanishes);
    }
    f
}

fn mix_for(w: Which) -> Mix {
    let m = Mix { existing: 8, missing: 3, broken: 2, odd: 1, outside: 1, malformed: 5, method: 3, info: 1, ghost: 0, random: 2 };
    match w {
        S01 => m,
        S02 => Mix { outside: 14, odd: 4, random: 8, malformed: 2, ..m },
        S03 => Mix { existing: 14, missing: 3, broken: 3, malformed: 4, ..m },
        S04 => Mix { ghost: 2, info: 2, outside: 3, random: 4, ..m },
        S05 => Mix { existing: 4, missing: 1, ..Default::default() },
        S06 => Mix { ghost: 2, ..m },
    }
}

fn config(which: Which) -> sim::Config {
    let mut c = sim::Config::default();
    if chance("cfg", 3, 4) {
        c.fragment = chance("cfg", 1, 2);
        c.max_segment = *pick("cfg", &[1 << 20, 1, 3, 20, 200]);
        c.short_reads = chance("cfg", 1, 3);
        c.short_writes = chance("cfg", 1, 3);
        c.net_delay_us = *pick("cfg", &[0, 100, 3000, 200_000]);
        c.disk_delay_us = *pick("cfg", &[0, 100, 5000, 500_000]);
        c.window = *pick("cfg", &[65536, 65536, 4096, 100, 1]);
        c.fifo = chance("cfg", 1, 3);
        c.advance = *pick("cfg", &[0, 1, 8]);
        c.spurious = *pick("cfg", &[0, 0, 4, 40]);
        c.stalls = *pick("cfg", &[0, 0, 1, 3]);
    }
    match which {
        S04 | S06 => {
            c.accept_faults = *pick("cfg", &[0, 0, 1, 2, 6, 20]);
            c.accept_rate = *pick("cfg", &[8, 64, 2]);
            c.addr_faults = *pick("cfg", &[0, 0, 0, 1, 2]);
        }
        _ => {}
    }
    if matches!(which, S01 | S03 | S04 | S06) {
        c.open_faults = *pick("cfg", &[0, 0, 1, 5, 50]);
        c.open_rate = *pick("cfg", &[4, 16, 64]);
    }
    if which == S05 {
        // a thousand connections: keep each of them cheap
        c.fragment = false;
        c.max_segment = 1 << 20;
        c.window = 65536;
        c.step_cap = 2_000_000;
        c.spurious = c.spurious.min(4);
        c.net_delay_us = c.net_delay_us.min(3000);
    }
    c
}

pub fn run(which: Which) {
    let cores = match which {
        S05 => range("cfg", 1, 2),
        _ => 1 + small("cfg", 3),
    };
    num_cpus::CORES.store(cores as usize, std::sync::atomic::Ordering::Relaxed);
    let cfg = config(which);
    let dir = DIRS[weighted("cfg", &[6, 1, 1, 1, 1, 1, 1])].to_string();
    if chance("cfg", 1, 4) {
        // the wall clock is wrong
        crate::WALL.store(*pick("cfg", &[0, 1, 951_782_399, 4_102_444_800, 2_147_483_647]), std::sync::atomic::Ordering::Relaxed);
        count("fault.clock_skew");
    }
    ev!("{cores} workers, directory {dir:?}, {cfg:?}");
    sim::with(|w| {
        w.cfg = cfg;
        w.files = storage(which);
        if which == S05 {
            w.serving_limit = 1024;
        }
    });
    let client = sim::new_client_shard();
    let sc = Rc::new(Sc {
        which,
        dir: dir.clone(),
        port: Cell::new(0),
        reqs: RefCell::new(vec![]),
        release: Cell::new(false),
        wakers: RefCell::new(vec![]),
        versions: RefCell::new(vec![(0, storage(which))]),
        mix: mix_for(which),
        done: Cell::new(false),
        slow_readers: Cell::new(0),
        hostile: Cell::new(0),
        conns: Cell::new(0),
        outside_sent: Cell::new(0),
    });
    let s2 = sc.clone();
    sim::spawn_on_client(client, async move {
        match which {
            S05 => crowd(s2.clone(), client).await,
            _ => general(s2.clone(), client).await,
        }
        s2.done.set(true);
        sim::finish();
    })
    .detach();
    let started = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        laya::start(std::path::PathBuf::from(&dir).into_boxed_path());
    }));
    if started.is_err() {
        sc.viol("worker-dead", format!("start() panicked: {}", simcore::runner::panic_note()));
        sc.viol("response-missing", "start() panicked".into());
    }
    finish(&sc);
}

/// Stray tasks of the client side must not have failed: that would be an error of this harness.
fn finish(sc: &Sc) {
    let (stuck, pc, steps) = sim::with(|w| (w.stuck.clone(), w.panics_client.clone(), w.steps));
    for p in pc {
        simcore::violate("harness-panic", p);
    }
    if let Some(s) = &stuck {
        sc.viol("no-rest", s.clone());
        if !sc.done.get() {
            sc.viol("response-missing", format!("the run did not come to an end: {s}"));
        }
    }
    check_workers(sc, "at the end");
    check_history(sc);
    let c = simcore::ctx();
    let faults = c.counters.iter().any(|(k, v)| k.starts_with("fault.") && *v > 0);
    let answered = sc.reqs.borrow().iter().filter(|r| matches!(r.resp, Some(Ok(_)))).count();
    let maxserv = sim::with(|w| w.max_serving);
    c.nontrivial = match sc.which {
        S01 => answered > 0 && (sc.conns.get() > 1 || faults),
        S02 => sc.outside_sent.get() > 0,
        S03 => sim::with(|w| {
            let o = &w.opens;
            o.iter().enumerate().any(|(i, a)| o[..i].iter().any(|b| b.end_seq > a.start_seq))
        }) || sc.versions.borrow().len() > 1,
        S04 => sc.hostile.get() > 0 || faults,
        S05 => maxserv >= 1024,
        S06 => sc.hostile.get() > 0 || faults,
    };
    c.sample = format!(
        "{} connections ({} hostile), {} requests, {} answered, {} opens, {} steps, dir {:?}",
        sc.conns.get(), sc.hostile.get(), sc.reqs.borrow().len(), answered, sim::with(|w| w.opens.len()), steps, sc.dir
    );
}

fn check_workers(sc: &Sc, when: &str) {
    for (k, alive, why) in sim::server_workers() {
        if !alive {
            sc.viol("worker-dead", format!("worker {k} is dead {when}: {}", why.unwrap_or_default()));
        }
    }
}

// ---------------------------------------------------------------- clients

fn h1_head(method: &str, target: &str, close: bool, body: Option<usize>) -> Vec<u8> {
    let host = *pick("req", &["sim", "localhost:43594", "[::1]"]);
    let t = if chance("req", 1, 24) && target.starts_with('/') { format!("http://other{target}") } else { target.to_string() };
    let v10 = close && chance("req", 1, 4);
    let mut s = format!("{method} {t} HTTP/1.{}\r\nHost: {host}\r\n", if v10 { 0 } else { 1 });
    s += &gen::headers();
    if close && !v10 {
        s += "Connection: close\r\n";
    }
    if let Some(n) = body {
        s += &format!("Content-Length: {n}\r\n");
    }
    s += "\r\n";
    s.into_bytes()
}

/// Writes bytes in pieces with pauses. Errors are left to the reader to notice.
async fn trickle(s: &ClientSock, b: &[u8]) -> bool {
    let mut rest = b;
    let pieces = if chance("cli", 1, 2) { 0 } else { small("cli", 5) };
    for _ in 0..pieces {
        if rest.is_empty() {
            break;
        }
        let n = 1 + below("cli", rest.len() as u64) as usize;
        if s.write_all(&rest[..n]).await.is_err() {
            return false;
        }
        rest = &rest[n..];
        sim::sleep_us(small("cli", 3000)).await;
    }
    s.write_all(rest).await.is_ok()
}

#[derive(Clone, Copy, PartialEq)]
enum End {
    Close,
    Linger,
    Reset,
    HalfClose,
}
fn end_kind() -> End {
    [End::Close, End::Linger, End::Reset, End::HalfClose][weighted("cli", &[4, 4, 1, 2])]
}

/// A client that waits for everything it asked for.
async fn h1_good(sc: Rc<Sc>, name: String, worker: Option<usize>, n: u64, m: Mix) {
    sim::sleep_us(small("cli", 5000)).await;
    let s = match sc.connect(&name, worker, None).await {
        Ok(s) => s,
        Err(e) => {
            sc.viol("response-missing", format!("{name}: connection failed: {e}"));
            return;
        }
    };
    let mut rd = H1Reader::new();
    let mut left = n;
    let mut dead = false;
    let mut closed = false;
    while left > 0 && !dead && !closed {
        let batch = 1 + small("cli", left.min(6) - 1).min(left - 1);
        left -= batch;
        let close_after = left == 0 && chance("cli", 1, 4);
        let body = if close_after && chance("cli", 1, 3) { Some(sim::roomy(small("cli", 5000) as usize)) } else { None };
        let mut ks = vec![];
        let mut bytes = vec![];
        for i in 0..batch {
            let last = close_after && i + 1 == batch;
            let k = sc.new_req(&name, &m, true);
            let (me, ta) = {
                let r = sc.reqs.borrow();
                (r[k].method.clone(), r[k].target.clone())
            };
            bytes.extend(h1_head(&me, &ta, last, if last { body } else { None }));
            if last {
                bytes.extend(vec![b'x'; body.unwrap_or(0)]);
            }
            ks.push(k);
        }
        closed = close_after;
        for k in &ks {
            sc.sent(*k);
            if body.is_some_and(|n| n > 0) {
                sc.reqs.borrow_mut()[*k].unread_body = Some(s.id);
            }
        }
        let write = trickle(&s, &bytes);
        let read = async {
            for (i, k) in ks.iter().enumerate() {
                let head = sc.reqs.borrow()[*k].method == "HEAD";
                let r = rd.next(&s, head).await;
                let bad = r.is_err();
                if bad && sim::sock_faulted(s.id) {
                    for k in &ks[i..] {
                        sc.abandon(*k);
                    }
                    sc.answered(*k, r);
                    return false;
                }
                sc.answered(*k, r);
                if bad {
                    return false;
                }
            }
            true
        };
        let (_, ok) = future::zip(write, read).await;
        dead = !ok;
        if chance("cli", 1, 3) {
            sim::sleep_us(small("cli", 20_000)).await;
        }
    }
    if dead {
        return;
    }
    let end = end_kind();
    if end == End::HalfClose {
        s.shutdown_write();
    }
    if end == End::HalfClose || closed {
        // whatever still comes is one byte too many
        let mut tmp = [0u8; 64];
        if let Ok(k) = s.read(&mut tmp).await {
            if k > 0 || rd.leftover() > 0 {
                sc.viol("response-extra", format!("{name}: bytes after the last response: {:?}", String::from_utf8_lossy(&tmp[..k])));
            }
        }
        return;
    }
    if end == End::Linger {
        sc.wait_release().await;
    }
    let extra = future::poll_fn(|cx| {
        let mut tmp = [0u8; 64];
        Poll::Ready(match s.poll_read(cx, &mut tmp) {
            Poll::Ready(Ok(k)) => k,
            _ => 0,
        })
    })
    .await;
    if extra + rd.leftover() > 0 {
        sc.viol("response-extra", format!("{name}: {} bytes nobody asked for", extra + rd.leftover()));
    }
    if end == End::Reset {
        s.reset();
    }
}

async fn h2_good(sc: Rc<Sc>, shard: usize, name: String, worker: Option<usize>, n: u64, m: Mix) {
    sim::sleep_us(small("cli", 5000)).await;
    let s = match sc.connect(&name, worker, None).await {
        Ok(s) => s,
        Err(e) => {
            sc.viol("response-missing", format!("{name}: connection failed: {e}"));
            return;
        }
    };
    let window = *pick("cli", &[None, None, Some(1), Some(7), Some(100)]);
    let send = match h2_connect(shard, s.clone(), window).await {
        Ok(s) => s,
        Err(e) => {
            if !sim::sock_faulted(s.id) {
                sc.viol("response-missing", format!("{name}: {e}"));
            }
            return;
        }
    };
    let mut left = n;
    while left > 0 {
        let batch = 1 + small("cli", left - 1);
        left -= batch;
        let mut ts = vec![];
        for _ in 0..batch {
            let k = sc.new_req(&name, &m, true);
            let (me, ta) = {
                let r = sc.reqs.borrow();
                (r[k].method.clone(), r[k].target.clone())
            };
            let body = if me != "GET" && me != "HEAD" && chance("cli", 1, 3) { Some(vec![b'y'; small("cli", 3000) as usize]) } else { None };
            let stall = if chance("cli", 1, 6) { small("cli", 50_000) } else { 0 };
            let cancel = chance("cli", 1, 16);
            if cancel {
                sc.abandon(k);
            }
            let (sc2, send2, id) = (sc.clone(), send.clone(), s.id);
            ts.push(sim::spawn_on_client(shard, async move {
                if chance("cli", 1, 4) {
                    sim::sleep_us(small("cli", 3000)).await;
                }
                sc2.sent(k);
                let f = h2_request(&send2, &me, &ta, body, stall);
                if cancel {
                    count("fault.stream_cancelled");
                    let us = small("cli", 3000);
                    let r = future::or(async { Some(f.await) }, async {
                        sim::sleep_us(us).await;
                        None
                    })
                    .await;
                    if let Some(r) = r {
                        sc2.answered(k, r);
                    }
                    return;
                }
                let r = f.await;
                if r.is_err() && sim::sock_faulted(id) {
                    sc2.abandon(k);
                }
                sc2.answered(k, r);
            }));
        }
        for t in ts {
            t.await;
        }
    }
    match end_kind() {
        End::Close | End::HalfClose => {}
        End::Linger => sc.wait_release().await,
        End::Reset => s.reset(),
    }
    drop(send);
}

/// A peer that misbehaves or is unlucky. Nothing it does may matter to anyone else.
async fn hostile(sc: Rc<Sc>, shard: usize, name: String, worker: Option<usize>) {
    sim::sleep_us(small("cli", 5000)).await;
    sc.hostile.set(sc.hostile.get() + 1);
    let kind = below("cli", 17);
    let window = if kind == 9 { Some(1 + small("cli", 300) as usize) } else { None };
    if kind == 0 {
        // gone before the connection is even established or accepted
        count("fault.peer_gone_early");
        let f = sc.connect(&name, worker, None);
        let r = future::or(async { f.await.ok() }, async {
            sim::sleep_us(small("cli", 3000)).await;
            None
        })
        .await;
        if let Some(s) = r {
            if chance("cli", 1, 2) {
                s.reset();
            }
        }
        return;
    }
    let Ok(s) = sc.connect(&name, worker, window).await else { return };
    let finish = |hold: bool| {
        let s = s.clone();
        let sc = sc.clone();
        async move {
            if hold {
                count("fault.peer_stalls");
                sc.wait_release().await;
            }
            match below("cli", 3) {
                0 => {
                    count("fault.peer_resets");
                    s.reset()
                }
                1 => {
                    s.shutdown_write();
                    sim::sleep_us(small("cli", 3000)).await;
                }
                _ => {}
            }
        }
    };
    let m = sc.mix;
    let req_bytes = |sc: &Sc, n: u64| {
        let mut b = vec![];
        for _ in 0..n {
            let k = sc.new_req(&name, &m, false);
            let (me, ta) = {
                let r = sc.reqs.borrow();
                (r[k].method.clone(), r[k].target.clone())
            };
            b.extend(h1_head(&me, &ta, false, None));
            sc.sent(k);
        }
        b
    };
    match kind {
        1 => {
            // garbage
            count("fault.garbage");
            let n = 1 + small("cli", 400);
            let b: Vec<u8> = (0..n).map(|_| below("bytes", 256) as u8).collect();
            trickle(&s, &b).await;
            finish(chance("cli", 1, 2)).await;
        }
        2 | 3 => {
            // part of a request
            count("fault.partial_request");
            let b = req_bytes(&sc, 1);
            let n = below("cli", b.len() as u64) as usize;
            trickle(&s, &b[..n]).await;
            finish(kind == 3).await;
        }
        4 | 5 => {
            // whole requests, then gone without reading
            count("fault.answer_not_awaited");
            let b = req_bytes(&sc, 1 + small("cli", 4));
            trickle(&s, &b).await;
            sim::sleep_us(small("cli", 2000)).await;
            finish(false).await;
        }
        6 => {
            // HTTP/2 preface, then garbage
            count("fault.garbage_h2");
            let mut b = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec();
            let cut = chance("cli", 1, 3);
            if cut {
                b.truncate(below("cli", 24) as usize);
            } else if chance("cli", 2, 3) {
                b.extend([0, 0, 0, 4, 0, 0, 0, 0, 0]);
            }
            for _ in 0..small("cli", 5) {
                // frames with arbitrary type, flags, stream and contents
                let len = small("cli", 60) as usize;
                b.extend([0, 0, len as u8, below("bytes", 12) as u8, below("bytes", 256) as u8, 0, 0, 0, below("bytes", 6) as u8]);
                b.extend((0..len).map(|_| below("bytes", 256) as u8));
            }
            trickle(&s, &b).await;
            finish(chance("cli", 1, 2)).await;
        }
        7 | 8 => {
            // valid request bytes with damage
            count("fault.damaged_request");
            let mut b = req_bytes(&sc, 1 + small("cli", 3));
            for _ in 0..1 + small("cli", 4) {
                if b.is_empty() {
                    break;
                }
                let i = below("bytes", b.len() as u64) as usize;
                match below("bytes", 4) {
                    0 => b[i] = below("bytes", 256) as u8,
                    1 => {
                        b.remove(i);
                    }
                    2 => b.insert(i, below("bytes", 256) as u8),
                    _ => b.truncate(i + 1),
                }
            }
            // what arrives is another request now: it may open anything inside
            sc.forget(&name);
            trickle(&s, &b).await;
            finish(chance("cli", 1, 2)).await;
        }
        9 => {
            // asks and does not read
            count("fault.reader_stalls");
            sc.slow_readers.set(sc.slow_readers.get() + 1);
            let b = req_bytes(&sc, 1 + small("cli", 40));
            let _ = future::or(async { s.write_all(&b).await.is_ok() }, async {
                sc.wait_release().await;
                false
            })
            .await;
            finish(true).await;
        }
        10 => {
            // endless or contradictory headers
            count("fault.bad_headers");
            let mut b = b"GET /a.jp2/full/max/0/default.jpg HTTP/1.1\r\n".to_vec();
            match below("cli", 6) {
                0 => b.extend(b"Content-Length: 5\r\nContent-Length: 6\r\n\r\nhello"),
                1 => b.extend(b"Content-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n"),
                2 => b.extend(b"Transfer-Encoding: chunked\r\n\r\nzz\r\n"),
                3 => b.extend(format!("X: {}\r\n", "y".repeat(sim::roomy(small("cli", 600_000) as usize))).bytes()),
                4 => {
                    for i in 0..small("cli", 400) {
                        b.extend(format!("X{i}: y\r\n").bytes());
                    }
                    b.extend(b"\r\n");
                }
                _ => b.extend(b"Upgrade: h2c\r\nConnection: Upgrade, HTTP2-Settings\r\nHTTP2-Settings: AAMAAABkAAQCAAAAAAIAAAAA\r\n\r\n"),
            }
            sc.wild(&name);
            trickle(&s, &b).await;
            finish(chance("cli", 1, 2)).await;
        }
        11 | 12 => {
            // HTTP/2 streams cancelled at once, connection dropped in the middle
            count("fault.rapid_reset");
            if let Ok(send) = h2_connect(shard, s.clone(), Some(small("cli", 100) as u32)).await {
                let mut ts = vec![];
                for _ in 0..1 + small("cli", 30) {
                    let k = sc.new_req(&name, &m, false);
                    let (me, ta) = {
                        let r = sc.reqs.borrow();
                        (r[k].method.clone(), r[k].target.clone())
                    };
                    let us = small("cli", 1000);
                    let (sc2, send2) = (sc.clone(), send.clone());
                    ts.push(sim::spawn_on_client(shard, async move {
                        sc2.sent(k);
                        let f = h2_request(&send2, &me, &ta, None, 0);
                        let r = future::or(async { Some(f.await) }, async {
                            sim::sleep_us(us).await;
                            None
                        })
                        .await;
                        if let Some(r) = r {
                            sc2.answered(k, r);
                        }
                    }));
                }
                if kind == 11 {
                    for t in ts {
                        t.await;
                    }
                } else {
                    sim::sleep_us(small("cli", 1500)).await;
                    s.reset();
                }
            }
            finish(kind == 11 && chance("cli", 1, 2)).await;
        }
        13 => {
            // says nothing
            count("fault.silent_peer");
            finish(chance("cli", 3, 4)).await;
        }
        14 => {
            // reads its answers but then never closes; the request may be of any kind
            let n = 1 + small("cli", 3);
            let b = req_bytes(&sc, n);
            trickle(&s, &b).await;
            let mut rd = H1Reader::new();
            let _ = future::or(
                async {
                    for _ in 0..n {
                        if rd.next(&s, true).await.is_err() {
                            break;
                        }
                    }
                },
                sim::sleep_us(50_000),
            )
            .await;
            finish(true).await;
        }
        15 => {
            // a request whose body never comes
            count("fault.body_missing");
            let k = sc.new_req(&name, &m, false);
            let ta = sc.reqs.borrow()[k].target.clone();
            sc.reqs.borrow_mut()[k].method = "POST".into();
            sc.reqs.borrow_mut()[k].expect = Expect::NotFound;
            let b = h1_head("POST", &ta, false, Some(1 + small("cli", 100_000) as usize));
            sc.sent(k);
            trickle(&s, &b).await;
            finish(chance("cli", 1, 2)).await;
        }
        _ => {
            // one byte at a time, slowly
            count("fault.slow_sender");
            let b = req_bytes(&sc, 1);
            for c in b.chunks(1 + small("cli", 8) as usize) {
                if s.write_all(c).await.is_err() {
                    break;
                }
                sim::sleep_us(small("cli", 20_000)).await;
            }
            finish(chance("cli", 1, 2)).await;
        }
    }
}

impl Sc {
    /// Requests of this connection may arrive as something else.
    fn forget(&self, conn: &str) {
        self.wild(conn);
        for r in self.reqs.borrow_mut().iter_mut().filter(|r| r.conn == conn) {
            r.expect = Expect::Info;
        }
    }
    /// This connection may open anything inside the directory.
    fn wild(&self, conn: &str) {
        ev!("{conn} sends something arbitrary");
        WILD.with(|w| w.set(true));
    }
}
thread_local! {
    static WILD: Cell<bool> = const { Cell::new(false) };
}

/// Changes the directory while requests are in progress.
async fn changer(sc: Rc<Sc>) {
    for _ in 0..1 + small("chg", 8) {
        sim::sleep_us(small("chg", 20_000)).await;
        let name = format!("/srv/images/{}", pick("chg", &["a.jp2", "b.jp2", "missing0.jp2", "missing1.jp2", "c d.jp2", "coll/deep.jp2"]));
        sim::with(|w| {
            if w.files.remove(&name).is_none() {
                w.files.insert(name.clone(), Node::File(3));
            }
        });
        count("fault.file_appears_or_vanishes");
        ev!("{name} {}", if sim::with(|w| w.files.contains_key(&name)) { "appears" } else { "vanishes" });
        sc.versions.borrow_mut().push((seq(), sim::with(|w| w.files.clone())));
    }
}

async fn clock_jumper() {
    for _ in 0..1 + small("chg", 3) {
        sim::sleep_us(small("chg", 50_000)).await;
        let t = *pick("chg", &[0, 1_700_000_000, 1_600_000_000, 3_000_000_000]);
        crate::WALL.store(t, std::sync::atomic::Ordering::Relaxed);
        count("fault.clock_jump");
        ev!("wall clock jumps to {t}");
    }
}

// ---------------------------------------------------------------- the general scenario

async fn general(sc: Rc<Sc>, shard: usize) {
    sim::quiesce().await;
    let ports = sim::ports();
    if ports.is_empty() {
        sc.viol("no-service", "no worker listens after start".into());
        sc.viol("response-missing", "no worker listens after start".into());
        return;
    }
    sc.port.set(ports[0]);
    check_listeners(&sc, "after start");
    let w = sc.which;
    let (lo, hi) = match w {
        S04 | S06 => (1, 4),
        _ => (1, 5),
    };
    let good = range("shape", lo, hi);
    let bad = match w {
        S04 | S06 => 1 + small("shape", 7),
        S01 | S03 => small("shape", 3),
        _ => small("shape", 2),
    };
    let mut tasks = vec![];
    let same = chance("shape", 1, 2);
    let workers: Vec<usize> = sim::server_workers().iter().map(|x| x.0).collect();
    let place = |same: bool| if same { Some(workers[0]) } else { None };
    for i in 0..good {
        let n = 1 + small("shape", 7);
        let mut m = sc.mix;
        if w == S04 || w == S06 {
            // the clients that behave also ask only for ordinary things
            m = Mix { existing: 6, missing: 2, malformed: 1, method: 1, ..Default::default() };
        }
        let s2 = sc.clone();
        if chance("shape", 1, 2) {
            let name = format!("h1-{i}");
            tasks.push((name.clone(), sim::spawn_on_client(shard, h1_good(s2, name, place(same), n, m)).detach()));
        } else {
            let name = format!("h2-{i}");
            tasks.push((name.clone(), sim::spawn_on_client(shard, h2_good(s2, shard, name, place(same), n, m)).detach()));
        }
    }
    for i in 0..bad {
        let name = format!("bad-{i}");
        sim::spawn_on_client(shard, hostile(sc.clone(), shard, name, place(same))).detach();
    }
    if matches!(w, S01 | S03) && chance("shape", 1, 2) {
        sim::spawn_on_client(shard, changer(sc.clone())).detach();
    }
    if chance("shape", 1, 6) {
        sim::spawn_on_client(shard, clock_jumper()).detach();
    }
    sim::quiesce().await;
    // every client that waits has been answered by now
    for (k, r) in sc.reqs.borrow().iter().enumerate() {
        if r.good && r.sent.is_some() && r.resp.is_none() {
            missing(&sc, k, r, "never came although nothing else can happen");
        }
    }
    let idle = sc.slow_readers.get() == 0;
    if idle && sim::open_file_count() > 0 {
        sc.viol("file-leak", format!("{} image files are still open although no request is in progress", sim::open_file_count()));
    }
    // faults stop; every worker must answer
    sim::with(|w| {
        w.cfg.accept_faults = 0;
        w.cfg.addr_faults = 0;
        w.cfg.open_faults = 0;
        w.cfg.stalls = 0;
        w.cfg.spurious = 0;
    });
    check_workers(&sc, "after faults stopped");
    check_listeners(&sc, "after faults stopped");
    let before = sim::with(|w| w.steps);
    let mut probes = vec![];
    for k in &workers {
        for h2 in [false, true] {
            let ok = Rc::new(Cell::new(false));
            probes.push((*k, h2, ok.clone()));
            sim::spawn_on_client(shard, probe(sc.clone(), shard, *k, h2, ok)).detach();
        }
    }
    sim::quiesce().await;
    simcore::count_n("probe.steps_until_all_workers_answered", sim::with(|w| w.steps) - before);
    for (k, h2, ok) in &probes {
        if !ok.get() {
            sc.viol("no-service", format!("worker {k} does not answer a fresh HTTP/{} request after faults stopped", if *h2 { 2 } else { 1 }));
        }
    }
    // everyone goes away
    sc.do_release();
    sim::quiesce().await;
    check_released(&sc);
}

fn check_released(sc: &Sc) {
    let leaked: Vec<String> = sim::socks().iter().filter(|s| s.server_open && !s.client_open).map(|s| s.name.clone()).collect();
    if !leaked.is_empty() {
        sc.viol("socket-leak", format!("server still holds {} connections whose clients are gone: {:?}", leaked.len(), &leaked[..leaked.len().min(5)]));
    }
    let held: Vec<String> = sim::socks().iter().filter(|s| s.client_open).map(|s| s.name.clone()).collect();
    if !held.is_empty() {
        ev!("clients still hold {held:?}");
    }
    if sim::open_file_count() > 0 {
        sc.viol("file-leak", format!("{} image files are still open after all clients have gone", sim::open_file_count()));
    }
}

fn check_listeners(sc: &Sc, when: &str) {
    let ls = sim::live_listeners(sc.port.get());
    for (k, alive, _) in sim::server_workers() {
        if alive && !ls.iter().any(|l| l.1 == k) {
            sc.viol("no-service", format!("worker {k} does not listen {when}"));
        }
    }
}

async fn probe(sc: Rc<Sc>, shard: usize, worker: usize, h2: bool, ok: Rc<Cell<bool>>) {
    let name = format!("probe-{worker}-{}", if h2 { "h2" } else { "h1" });
    let Ok(s) = sc.connect(&name, Some(worker), None).await else { return };
    let path = "/probe.jp2/full/max/0/default.jpg";
    let k = sc.add_req(&name, "GET".into(), path.into(), path, true);
    sc.sent(k);
    let r = if h2 {
        match h2_connect(shard, s.clone(), None).await {
            Ok(send) => h2_request(&send, "GET", path, None, 0).await,
            Err(e) => Err(e),
        }
    } else {
        let mut rd = H1Reader::new();
        let w = format!("GET {path} HTTP/1.1\r\nHost: x\r\n\r\n");
        let _ = s.write_all(w.as_bytes()).await;
        rd.next(&s, false).await
    };
    ok.set(r.is_ok());
    sc.answered(k, r);
}

// ---------------------------------------------------------------- S05: crowds

const LIMIT: usize = 1024;

struct Member {
    sock: RefCell<Option<Rc<ClientSock>>>,
    answered: Cell<bool>,
    failed: RefCell<Option<String>>,
    active: bool,
    gone: Cell<bool>,
}

async fn crowd(sc: Rc<Sc>, shard: usize) {
    sim::quiesce().await;
    let ports = sim::ports();
    if ports.is_empty() {
        sc.viol("not-served", "no worker listens after start".into());
        return;
    }
    sc.port.set(ports[0]);
    let target = sim::server_workers()[0].0;
    // connections that end in every way there is; none may keep its place
    let churn = *pick("shape", &[0, 0, 3, 40, 300, 1100]);
    ev!("{churn} connections come and go first");
    let mut live = vec![];
    for i in 0..churn {
        let t = sim::spawn_on_client(shard, hostile_short(sc.clone(), shard, format!("churn-{i}"), target)).detach();
        live.push(t);
        if live.len() >= 64 {
            for t in live.drain(..) {
                t.await;
            }
        }
    }
    for t in live {
        t.await;
    }
    sim::quiesce().await;
    // the crowd
    let extra = 1 + small("shape", 60) as usize;
    let idlers = if chance("shape", 1, 3) { small("shape", 300) as usize } else { 0 };
    let total = LIMIT + extra;
    let mut members: Vec<Rc<Member>> = vec![];
    for i in 0..total {
        let active = i >= idlers;
        let m = Rc::new(Member {
            sock: RefCell::new(None),
            answered: Cell::new(false),
            failed: RefCell::new(None),
            active,
            gone: Cell::new(false),
        });
        members.push(m.clone());
        sim::spawn_on_client(shard, member(sc.clone(), shard, format!("crowd-{i}"), target, m)).detach();
        if i == idlers {
            // idlers hold the first places
            sim::quiesce().await;
        }
    }
    sim::quiesce().await;
    let mut left = members.clone();
    // some of those waiting give up
    let mut first = true;
    let mut rounds = 0;
    loop {
        rounds += 1;
        let open: Vec<&Rc<Member>> = left.iter().filter(|m| !m.gone.get()).collect();
        let active: Vec<&&Rc<Member>> = open.iter().filter(|m| m.active).collect();
        let answered = active.iter().filter(|m| m.answered.get()).count();
        let idle = open.len() - active.len();
        ev!("{} connections open, {idle} idle, {answered} answered", open.len());
        let places = LIMIT - idle.min(LIMIT);
        let want = active.len().min(places);
        if answered < want {
            sc.viol("not-served", format!(
                "{answered} of {} connections with a request were served while {} are open ({idle} idle): places for {} more were free (round {rounds}, after {churn} earlier connections)",
                active.len(), open.len(), want - answered
            ));
            return;
        }
        if first && idlers == 0 && answered > LIMIT {
            sc.viol("too-many-answered", format!("{answered} connections to one worker were answered while all stay open (limit {LIMIT})"));
            return;
        }
        for m in &active {
            if let Some(e) = m.failed.borrow().as_ref() {
                sc.viol("waiting-dropped", format!("a connection that waits or is being served was dropped: {e}"));
                return;
            }
        }
        if answered == active.len() {
            break;
        }
        first = false;
        // some leave: served ones, idle ones and ones that wait
        let k = 1 + small("shape", 40) as usize;
        for _ in 0..k {
            let open: Vec<Rc<Member>> = left.iter().filter(|m| !m.gone.get()).cloned().collect();
            if open.is_empty() {
                break;
            }
            let served: Vec<Rc<Member>> = open.iter().filter(|m| m.answered.get() || !m.active).cloned().collect();
            let m = if chance("shape", 1, 6) || served.is_empty() { pick("shape", &open).clone() } else { pick("shape", &served).clone() };
            m.gone.set(true);
            let s = m.sock.borrow_mut().take();
            if let Some(s) = s {
                if chance("shape", 1, 3) {
                    s.reset();
                } else {
                    s.close();
                }
                count("fault.crowd_member_leaves");
            }
        }
        left.retain(|m| !m.gone.get());
        sim::quiesce().await;
    }
}

async fn member(sc: Rc<Sc>, shard: usize, name: String, worker: usize, m: Rc<Member>) {
    let Ok(s) = sc.connect(&name, Some(worker), None).await else {
        *m.failed.borrow_mut() = Some("refused".into());
        return;
    };
    *m.sock.borrow_mut() = Some(s.clone());
    if !m.active {
        if chance("cli", 1, 2) {
            let _ = s.write_all(b"GET /crowd.jp2/full/max/0/def").await;
        }
        return;
    }
    let path = "/crowd.jp2/full/max/0/default.jpg";
    let r = if chance("cli", 1, 12) {
        match h2_connect(shard, s.clone(), None).await {
            Ok(send) => {
                let r = h2_request(&send, "GET", path, None, 0).await;
                // keep the connection as long as the member stays
                let m2 = m.clone();
                if r.is_ok() {
                    m2.answered.set(true);
                }
                KEEP.with(|k| k.borrow_mut().push(send));
                r
            }
            Err(e) => Err(e),
        }
    } else {
        let _ = s.write_all(format!("GET {path} HTTP/1.1\r\nHost: x\r\n\r\n").as_bytes()).await;
        H1Reader::new().next(&s, false).await
    };
    match r {
        Ok(x) if x.status == 200 => m.answered.set(true),
        Ok(x) => *m.failed.borrow_mut() = Some(format!("{name}: status {}", x.status)),
        Err(e) => {
            if !m.gone.get() {
                *m.failed.borrow_mut() = Some(format!("{name}: {e}"))
            }
        }
    }
}
thread_local! {
    static KEEP: RefCell<Vec<H2Send>> = const { RefCell::new(Vec::new()) };
}

/// A connection that ends soon, somehow.
async fn hostile_short(sc: Rc<Sc>, shard: usize, name: String, worker: usize) {
    sc.hostile.set(sc.hostile.get() + 1);
    let kind = below("cli", 9);
    let Ok(s) = sc.connect(&name, Some(worker), None).await else { return };
    match kind {
        0 => s.reset(),
        1 => {}
        2 => {
            count("fault.garbage");
            let _ = s.write_all(&[0x16, 3, 1, 0, 200, 1, 0, 0]).await;
            sim::sleep_us(small("cli", 300)).await;
        }
        3 => {
            count("fault.partial_request");
            let _ = s.write_all(b"GET /crowd.jp2/full/max").await;
            sim::sleep_us(small("cli", 300)).await;
            if chance("cli", 1, 2) {
                s.reset();
            }
        }
        4 => {
            count("fault.answer_not_awaited");
            let _ = s.write_all(b"GET /crowd.jp2/full/max/0/default.jpg HTTP/1.1\r\nHost: x\r\n\r\n").await;
            sim::sleep_us(small("cli", 300)).await;
            if chance("cli", 1, 2) {
                s.reset();
            }
        }
        5 => {
            count("fault.garbage");
            let _ = s.write_all(b"GET / HTTP/9.9\r\n\r\n").await;
            let mut t = [0u8; 64];
            let _ = s.read(&mut t).await;
        }
        6 => {
            count("fault.garbage_h2");
            let _ = s.write_all(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\0\0\0\x09\0\0\0\0\0").await;
            sim::sleep_us(small("cli", 300)).await;
        }
        7 => {
            if let Ok(send) = h2_connect(shard, s.clone(), None).await {
                let _ = h2_request(&send, "GET", "/crowd.jp2/full/max/0/default.jpg", None, 0).await;
            }
        }
        _ => {
            let _ = s.write_all(b"GET /missing.jp2/full/max/0/default.jpg HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n").await;
            let _ = H1Reader::new().next(&s, false).await;
        }
    }
}

// ---------------------------------------------------------------- history checks

fn missing(sc: &Sc, k: usize, r: &Req, why: &str) {
    let d = format!("request #{k} on {}: {} {}: response {why}", r.conn, r.method, short(&r.target));
    if let Expect::Image(i) = &r.expect {
        if model::reach(&sc.dir, i) == Reach::Outside {
            sc.viol("outside-unanswered", d.clone());
        }
    }
    sc.viol("response-missing", d);
}

fn check_history(sc: &Sc) {
    let reqs = sc.reqs.borrow();
    let versions = sc.versions.borrow();
    let opens = sim::with(|w| w.opens.iter().map(|o| (model::norm(&o.path), o.clone())).collect::<Vec<_>>());
    for (p, o) in &opens {
        if o.path.contains(&0) || !model::inside(&sc.dir, p) {
            sc.viol("escape", format!("the server opened {:?}, outside of {:?}", String::from_utf8_lossy(&o.path), sc.dir));
        }
    }
    for (k, r) in reqs.iter().enumerate() {
        let what = || format!("request #{k} on {}: {} {}", r.conn, r.method, short(&r.target));
        if sc.which == S04 && !r.good {
            continue;
        }
        let resp = match &r.resp {
            Some(Ok(x)) => x,
            Some(Err(e)) if r.good && r.unread_body.is_some_and(sim::sock_backpressure) => {
                sc.viol("response-cut-unread-body", format!(
                    "{}: the response or one pipelined before it was cut short after a request with an unread body met a full socket: {e}",
                    what()
                ));
                continue;
            }
            Some(Err(e)) if r.good => {
                missing(sc, k, r, &format!("did not come: {e}"));
                continue;
            }
            _ => continue,
        };
        let body = String::from_utf8_lossy(&resp.body).into_owned();
        let is = |st: u16, b: &str| resp.status == st && (body == b || r.method == "HEAD");
        let wrong = |want: &str| {
            // a response that ends with the connection looks whole when it was cut short
            if resp.to_end && r.unread_body.is_some_and(sim::sock_backpressure) {
                let whole = match (&r.expect, resp.status) {
                    (Expect::Bad(t), 400) => t.as_str(),
                    (Expect::Image(_), 400) => "io error",
                    (Expect::Image(_), 200) => "OK",
                    (Expect::NotFound, 404) => "notfound",
                    _ => "",
                };
                if body.len() < whole.len() && whole.starts_with(&body) {
                    sc.viol("response-cut-unread-body", format!(
                        "{}: the response or one pipelined before it was cut short after a request with an unread body met a full socket: {body:?}",
                        what()
                    ));
                    return;
                }
            }
            sc.viol("response-wrong", format!("{}: expected {want}, got {} {body:?}", what(), resp.status));
        };
        match &r.expect {
            Expect::NotFound => {
                if !is(404, "notfound") {
                    wrong("404 notfound");
                }
            }
            Expect::Info => {}
            Expect::Bad(t) => {
                if !is(400, t) {
                    wrong(&format!("400 {t:?}"));
                }
            }
            Expect::Image(i) => {
                let reach = model::reach(&sc.dir, i);
                if reach == Reach::Outside {
                    if !(400..500).contains(&resp.status) {
                        sc.viol("outside-answered", format!("{}: answered with {} {body:?}", what(), resp.status));
                    }
                    continue;
                }
                let t = model::target(&sc.dir, i);
                let (a, b) = (r.sent.unwrap_or(0), r.done.unwrap_or(u64::MAX));
                let mut allowed: BTreeSet<i32> = opens
                    .iter()
                    .filter(|(p, o)| *p == t && o.start_seq >= a && o.returned && o.end_seq <= b)
                    .filter_map(|(_, o)| o.outcome)
                    .collect();
                if allowed.is_empty() {
                    for (n, (s, f)) in versions.iter().enumerate() {
                        let until = versions.get(n + 1).map_or(u64::MAX, |v| v.0);
                        if *s <= b && until >= a {
                            let full = format!("{}/{}", sc.dir, i);
                            allowed.insert(match sim::lookup(f, full.as_bytes()) {
                                Ok(_) => 0,
                                Err(e) => e,
                            });
                        }
                    }
                }
                let good = allowed.contains(&0);
                let fails = allowed.iter().any(|x| *x > 0) || reach == Reach::Odd;
                let odd = allowed.contains(&-1);
                let ok = (good && is(200, "OK")) || (fails && is(400, "io error")) || (odd && resp.status >= 400);
                if !ok {
                    wrong(match (good, fails) {
                        (true, false) => "200 OK",
                        (false, true) => "400 io error",
                        _ => "200 OK or 400 io error",
                    });
                }
            }
        }
    }
    if sc.which == S03 {
        check_opens(sc, &reqs, &opens);
    }
}

/// Every answered valid request has an open of its own with the outcome it reports; nothing else opens.
fn check_opens(sc: &Sc, reqs: &[Req], opens: &[(Vec<Vec<u8>>, sim::OpenRec)]) {
    let wild = WILD.with(|w| w.get());
    let mut by_path: BTreeMap<&Vec<Vec<u8>>, Vec<&sim::OpenRec>> = BTreeMap::new();
    for (p, o) in opens {
        by_path.entry(p).or_default().push(o);
    }
    let mut want: BTreeMap<Vec<Vec<u8>>, Vec<(usize, bool)>> = BTreeMap::new();
    for (k, r) in reqs.iter().enumerate() {
        if r.sent.is_none() {
            continue;
        }
        if let Expect::Image(i) = &r.expect {
            if model::reach(&sc.dir, i) != Reach::Outside {
                // a name too odd may be refused without looking
                let must = matches!(r.resp, Some(Ok(_))) && model::reach(&sc.dir, i) == Reach::Inside;
                want.entry(model::target(&sc.dir, i)).or_default().push((k, must));
            }
        }
    }
    let shown = |p: &Vec<Vec<u8>>| p.iter().map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>().join("/");
    for (p, os) in &by_path {
        let n = want.get(*p).map_or(0, |v| v.len());
        if os.len() > n && !wild {
            let class = if n == 0 { "open-unexpected" } else { "open-count" };
            sc.viol(class, format!("/{} was opened {} times for {n} valid requests that name it", shown(p), os.len()));
        }
    }
    for (p, rs) in &want {
        let none = vec![];
        let os = by_path.get(p).unwrap_or(&none);
        let must: Vec<usize> = rs.iter().filter(|x| x.1).map(|x| x.0).collect();
        if os.len() < must.len() {
            sc.viol("open-count", format!("/{} was opened {} times for {} answered requests that name it", shown(p), os.len(), must.len()));
            continue;
        }
        // matching of answers to opens
        let edges: Vec<Vec<usize>> = must
            .iter()
            .map(|k| {
                let r = &reqs[*k];
                let Some(Ok(x)) = &r.resp else { return vec![] };
                let (a, b) = (r.sent.unwrap_or(0), r.done.unwrap_or(u64::MAX));
                (0..os.len())
                    .filter(|j| {
                        let o = os[*j];
                        let fits = match o.outcome {
                            Some(0) => x.status == 200,
                            Some(_) => x.status >= 400,
                            None => false,
                        };
                        o.start_seq >= a && o.returned && o.end_seq <= b && fits
                    })
                    .collect()
            })
            .collect();
        let mut owner: Vec<Option<usize>> = vec![None; os.len()];
        for i in 0..must.len() {
            let mut seen = vec![false; os.len()];
            if !augment(i, &edges, &mut owner, &mut seen) {
                let r = &reqs[must[i]];
                sc.viol("open-outcome", format!(
                    "request #{} on {}: {} {} was answered {} but no open of its own of /{} had that outcome while it was served",
                    must[i], r.conn, r.method, short(&r.target),
                    r.resp.as_ref().and_then(|x| x.as_ref().ok()).map_or(0, |x| x.status), shown(p)
                ));
                break;
            }
        }
    }
}
fn augment(i: usize, e: &[Vec<usize>], owner: &mut [Option<usize>], seen: &mut [bool]) -> bool {
    for &j in &e[i] {
        if seen[j] {
            continue;
        }
        seen[j] = true;
        if owner[j].is_none() || augment(owner[j].unwrap(), e, owner, seen) {
            owner[j] = Some(i);
            return true;
        }
    }
    false
}
