//! The scenarios, one per property.
use crate::boxes;
use crate::forms;
use crate::codec::*;
use crate::img::*;
use crate::io::{self, Dev, Fault, Op, Piece, Plan, Way};
use crate::mem::{self, Fail, Kind};
use crate::sched;
use simcore::{below, chance, count, ctx, ev, fp, nontrivial, pick, range, small, violate, weighted};

// ---- common

fn start() {
    mem::init();
    refill();
    mem::heap().guard = chance("mem", 1, 4);
}
/// Another initial content of fresh memory from here on.
fn refill() {
    mem::heap().fill = match below("mem", 5) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 0,
        _ => 4 + below("mem", 1 << 30),
    };
}

/// Runs an operation on a thread of its own and checks afterwards that nothing was left behind or damaged.
fn op<T>(what: &str, f: impl FnOnce() -> T) -> T {
    let r = sched::alone(f);
    settled(what);
    r
}
fn settled(what: &str) {
    let (d, live) = mem::audit();
    if let Some(d) = d {
        fatal("memory", format!("{d}; found after {what}"));
    }
    if !live.is_empty() {
        let n: usize = live.iter().map(|x| x.1).sum();
        let (c, r) = (live.iter().filter(|x| x.2 == Kind::C).count(), live.iter().filter(|x| x.2 == Kind::Rust).count());
        fatal(
            "leak",
            format!(
                "{} allocations ({n} bytes; {c} of the C allocator, {r} of Rust) still there after {what}; first: #{} of {} bytes",
                live.len(),
                live[0].0,
                live[0].1
            ),
        );
    }
}

fn dev(bytes: &[u8]) -> Box<Dev> {
    Box::new(Dev::new(bytes.to_vec()))
}
fn freed_once(d: &Dev, w: &Way, what: &str) {
    if w.file {
        if d.opened != d.closed {
            violate("not-closed", format!("{what}: file opened {} times and closed {} times", d.opened, d.closed));
        }
    } else if d.freed != 1 {
        violate("user-data", format!("{what}: the destructor of the user data ran {} times", d.freed));
    }
}

/// An encoded image; None when the encoder refused the parameters.
fn stored(w: Want) -> Option<(Img, Cfg, Vec<u8>)> {
    let (i, c) = gen(w);
    ev!("image {}x{} at {},{} with {} components; {}", i.x1 - i.x0, i.y1 - i.y0, i.x0, i.y0, i.comps.len(), c.short());
    ctx().sample = format!("{}x{} {}", i.x1 - i.x0, i.y1 - i.y0, c.short());
    let e = op("encoding", || encode_plain(&i, &c));
    if !e.setup {
        count("probe.refused-at-setup");
        ev!("refused at setup");
        return None;
    }
    if !e.ok() {
        count("probe.encode-failed");
        ev!("encode failed: {:?}", e.steps);
        return None;
    }
    ev!("{} bytes", e.bytes.len());
    Some((i, c, e.bytes))
}

/// Rewrites the file in other legal ways, sometimes. Returns the file and whether it is a JP2 file.
fn rewritten(i: &Img, c: &Cfg, b: Vec<u8>) -> (Vec<u8>, bool) {
    if chance("order", 1, 2) {
        return (b, c.jp2);
    }
    let Some(mut cs) = boxes::codestream(&b) else { return (b, c.jp2) };
    if chance("order", 2, 3) {
        if let Some(x) = forms::other(&cs, i, c) {
            cs = x;
        }
    }
    if chance("order", 1, 2) {
        count("probe.wrapped");
        (boxes::wrap(&cs, i), true)
    } else {
        (cs, false)
    }
}

fn draw_area(i: &Img) -> (i32, i32, i32, i32) {
    let f = |a: u32, b: u32| {
        let p = a + below("ask", (b - a) as u64) as u32;
        let q = p + 1 + small("ask", (b - p - 1) as u64) as u32;
        if chance("ask", 1, 8) {
            (p, q + 5)
        } else if chance("ask", 1, 8) {
            (a.saturating_sub(3), q)
        } else {
            (p, q)
        }
    };
    let (x0, x1) = f(i.x0, i.x1);
    let (y0, y1) = f(i.y0, i.y1);
    (x0 as i32, y0 as i32, x1 as i32, y1 as i32)
}

/// Some way to ask for the image.
fn draw_ask(i: &Img, c: &Cfg, jp2: bool) -> Ask {
    let mut a = Ask::whole(jp2);
    let (tw, th) = c.tiles(i);
    let n = (tw * th) as u64;
    a.part = match weighted("ask", &[4, 2, 2, 1, 1]) {
        0 => Part::Whole,
        1 => {
            let (x0, y0, x1, y1) = draw_area(i);
            Part::Area(x0, y0, x1, y1)
        }
        2 => Part::Tiles((0..range("ask", 1, 4)).map(|_| below("ask", n) as u32).collect()),
        3 => Part::TileData,
        _ => Part::Areas((0..range("ask", 1, 3)).map(|_| draw_area(i)).collect()),
    };
    a.strict = chance("ask", 2, 3);
    if c.numres > 1 && chance("ask", 1, 3) {
        let r = range("ask", 1, c.numres as u64 - 1) as u32;
        if chance("ask", 1, 3) {
            a.factor = Some(r);
        } else {
            a.reduce = r;
        }
    }
    if chance("ask", 1, 6) {
        a.layers = range("ask", 1, 3) as u32;
    }
    if chance("ask", 1, 6) {
        let k = below("ask", i.comps.len() as u64) as u32;
        a.comps = Some(vec![k]);
    }
    a.info = chance("ask", 1, 4);
    if jp2 && chance("ask", 1, 6) {
        a.flags = 1; // ignore palette and channel definitions
    }
    a
}
fn ask_text(a: &Ask) -> String {
    format!(
        "{:?}{}{}{}{}{}",
        a.part,
        if a.strict { "" } else { " tolerant" },
        if a.reduce > 0 { format!(" reduce={}", a.reduce) } else { String::new() },
        a.factor.map(|f| format!(" factor={f}")).unwrap_or_default(),
        if a.layers > 0 { format!(" layers={}", a.layers) } else { String::new() },
        a.comps.as_ref().map(|c| format!(" comps={c:?}")).unwrap_or_default(),
    )
}
fn outcome(o: &Dec) {
    ev!("decode: {:?}, {} images, {} tiles", o.steps.last(), o.images.len(), o.tiles.len());
    fp(simcore::hash_str(&format!("{:?}", o.steps)));
    if o.ok() {
        count("decodes.succeeded");
    } else {
        count("decodes.failed");
    }
}

fn want(lossless: bool) -> Want {
    Want { max_side: 48, max_comps: 4, lossless, multi_tile: chance("img", 1, 3), plain: false }
}

// ---- C01

pub fn c01() {
    start();
    let Some((i, c, b)) = stored(want(false)) else { return };
    let (mut b, jp2) = rewritten(&i, &c, b);
    let damaged = chance("dmg", 1, 4);
    if damaged {
        mem::heap().limit = 64 << 20;
        boxes::damage(&mut b, &[]);
        ev!("damaged, {} bytes", b.len());
    }
    let mut a = draw_ask(&i, &c, jp2);
    if damaged && chance("ask", 1, 2) {
        a.strict = false;
    }
    ev!("asking for {}", ask_text(&a));
    let refused = mem::heap().refused;
    let o = op("decoding", || decode_plain(&a, &b));
    outcome(&o);
    for _ in 0..range("way", 1, 3) {
        refill();
        let mut w = Way::draw();
        // (reading on without the corrections of damaged files that need seeking is fine)
        if !damaged && !w.file && matches!(a.part, Part::Whole | Part::TileData) && chance("way", 1, 3) {
            w.no_seek = true;
        }
        ev!("again through {}", w.name());
        let mut d = dev(&b);
        let o2 = op("decoding", || decode(&a, &mut *d, &w));
        io::describe(&d);
        outcome(&o2);
        if o2.header.is_some() {
            nontrivial();
        }
        if mem::heap().refused != refused {
            // Whether the memory limit is met may depend on the buffers of the stream.
            return;
        }
        if let Some(t) = o.same(&o2) {
            for (k, m) in [("first", &o.msgs), ("then", &o2.msgs)] {
                for m in m.iter().take(10) {
                    ev!("{k}: {} {}", m.0, m.1);
                }
            }
            violate("delivery", format!("asked for {}; through {}: {t}", ask_text(&a), w.name()));
            return;
        }
        if let Some(t) = d.bad.clone() {
            violate("contract", t);
        }
        freed_once(&d, &w, "decoding");
    }
}

// ---- C02

fn draw_read_fault(d: &mut Dev, n_calls: &[u64; 5], w: &Way) {
    let len = d.data.len() as u64;
    match weighted("fault", &[4, 2, 2, 1, 2]) {
        0 => {
            let n = n_calls[0].max(1);
            d.plans.push(Plan {
                op: Op::Read,
                at: below("fault", n + 1),
                times: if chance("fault", 1, 2) { 1 } else { u64::MAX },
                fault: *pick("fault", if w.file { &[Fault::Err, Fault::Zero, Fault::Intr] } else { &[Fault::Err, Fault::Zero, Fault::Err] }),
            });
            // (an interrupted call is tried again, for ever if need be)
            let p = d.plans.last_mut().unwrap();
            if p.fault == Fault::Intr {
                p.times = p.times.min(5);
            }
        }
        1 => {
            // the source ends early although its length says otherwise
            d.ends = below("fault", len);
            d.faults += 1;
            count("fault.source-ends-early");
        }
        2 => d.plans.push(Plan {
            op: Op::Seek,
            at: below("fault", n_calls[3].max(1)),
            times: if chance("fault", 1, 2) { 1 } else { u64::MAX },
            fault: Fault::Err,
        }),
        3 => d.plans.push(Plan { op: Op::Open, at: 0, times: 1, fault: *pick("fault", &[Fault::Err, Fault::Zero]) }),
        _ => d.plans.push(Plan {
            op: Op::Skip,
            at: below("fault", n_calls[2].max(1)),
            times: if chance("fault", 1, 2) { 1 } else { u64::MAX },
            fault: Fault::Err,
        }),
    }
    for p in &d.plans {
        ev!("plan: {:?} of {:?} from call {} for {} calls", p.fault, p.op, p.at, p.times);
    }
}

pub fn c02() {
    start();
    let Some((i, c, b)) = stored(want(false)) else { return };
    let (b, jp2) = rewritten(&i, &c, b);
    let mut a = draw_ask(&i, &c, jp2);
    a.strict = true;
    ev!("asking for {}", ask_text(&a));
    let w = Way::draw();
    let mut d = dev(&b);
    let o = op("decoding", || decode(&a, &mut *d, &w));
    outcome(&o);
    if !o.ok() {
        return;
    }
    let calls = d.calls;
    for _ in 0..range("fault", 1, 4) {
        refill();
        let mut d = dev(&b);
        draw_read_fault(&mut d, &calls, &w);
        ev!("with faults through {}", w.name());
        let o2 = op("decoding", || decode(&a, &mut *d, &w));
        io::describe(&d);
        outcome(&o2);
        if d.faults > 0 {
            nontrivial();
        }
        freed_once_if_open(&d, &w);
        if o2.ok() {
            if let Some(t) = o.same(&o2) {
                violate("wrong-success", format!("asked for {}; {} faults met; {t}", ask_text(&a), d.faults));
                return;
            }
        }
    }
}
fn freed_once_if_open(d: &Dev, w: &Way) {
    freed_once(d, w, "a decode with faults");
}

// ---- C03

fn draw_feed(i: &Img, c: &Cfg) -> Option<Vec<u32>> {
    let (tw, th) = c.tiles(i);
    if chance("feed", 1, 4) {
        Some((0..tw * th).collect())
    } else {
        None
    }
}
fn feed(f: &Option<Vec<u32>>) -> Feed<'_> {
    match f {
        None => Feed::Whole,
        Some(v) => Feed::Tiles(v),
    }
}

pub fn c03() {
    start();
    let (i, c) = gen(want(false));
    ev!("image {}x{} with {} components; {}", i.x1 - i.x0, i.y1 - i.y0, i.comps.len(), c.short());
    ctx().sample = format!("{}x{} {}", i.x1 - i.x0, i.y1 - i.y0, c.short());
    let f = draw_feed(&i, &c);
    let mut d = dev(&[]);
    let e = op("encoding", || encode(&i, &c, &mut *d, &Way::plain(), feed(&f)));
    ev!("plainly: {:?}, {} bytes", e.steps, e.bytes.len());
    if !e.ok() {
        count("probe.refused-at-setup");
        return;
    }
    freed_once(&d, &Way::plain(), "encoding");
    for _ in 0..range("way", 1, 3) {
        refill();
        let w = Way::draw();
        let mut probe = dev(&[]);
        let e1 = op("encoding", || encode(&i, &c, &mut *probe, &w, feed(&f)));
        io::describe(&probe);
        ev!("through {}, writes {:?}: {:?}", w.name(), w.wr, e1.steps);
        if probe.calls[1] > 1 {
            nontrivial();
        }
        freed_once(&probe, &w, "encoding");
        if let Some(t) = probe.bad.clone() {
            violate("contract", t);
        }
        if !e1.ok() {
            violate("fault-free-failure", format!("an encode that succeeds in one piece fails through {} with writes {:?}: {:?}", w.name(), w.wr, e1.steps));
            return;
        }
        if e1.bytes != e.bytes {
            violate("bytes", format!("through {} with writes {:?}: {}", w.name(), w.wr, bytes_diff(&e.bytes, &e1.bytes)));
            return;
        }
        // and with a fault
        let mut d = dev(&[]);
        let mut lasting = true;
        match weighted("fault", &[4, 3, 2, 2, 1]) {
            0 => {
                lasting = chance("fault", 2, 3);
                d.plans.push(Plan {
                    op: Op::Write,
                    at: below("fault", probe.calls[1]),
                    times: if lasting { u64::MAX } else { 1 },
                    fault: *pick("fault", if w.file { &[Fault::Err, Fault::Zero, Fault::Intr] } else { &[Fault::Err, Fault::Zero, Fault::Err] }),
                });
                if d.plans[0].fault == Fault::Intr {
                    lasting = false;
                    d.plans[0].times = range("fault", 1, 3);
                }
            }
            1 => {
                d.capacity = below("fault", e.bytes.len() as u64);
                count("fault.storage-full");
                ev!("room for {} bytes", d.capacity);
            }
            2 => {
                lasting = chance("fault", 2, 3);
                d.plans.push(Plan {
                    op: Op::Seek,
                    at: below("fault", probe.calls[3].max(1)),
                    times: if lasting { u64::MAX } else { 1 },
                    fault: Fault::Err,
                })
            }
            3 => {
                lasting = chance("fault", 2, 3);
                d.plans.push(Plan {
                    op: Op::Skip,
                    at: below("fault", probe.calls[2].max(1)),
                    times: if lasting { u64::MAX } else { 1 },
                    fault: Fault::Err,
                })
            }
            _ => d.plans.push(Plan { op: Op::Open, at: 0, times: 1, fault: Fault::Err }),
        }
        for p in &d.plans {
            ev!("plan: {:?} of {:?} from call {} for {} calls", p.fault, p.op, p.at, p.times);
        }
        let e2 = op("encoding", || encode(&i, &c, &mut *d, &w, feed(&f)));
        io::describe(&d);
        ev!("with faults: {:?}", e2.steps);
        if d.faults > 0 {
            nontrivial();
        }
        freed_once(&d, &w, "encoding with faults");
        if e2.ok() {
            if e2.bytes != e.bytes {
                violate("wrong-success", format!("all calls reported success through {}, {} faults met ({:?}): {}", w.name(), d.faults, d.plans, bytes_diff(&e.bytes, &e2.bytes)));
                return;
            }
            if d.faults > 0 && lasting {
                violate("fault-unreported", format!("through {}: {:?} or room for {} bytes met {} times and not reported", w.name(), d.plans, d.capacity, d.faults));
                return;
            }
        }
    }
}
fn bytes_diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(p) => format!("{} bytes instead of {}, first difference at {p}", b.len(), a.len()),
        None => format!("{} bytes instead of {}", b.len(), a.len()),
    }
}

// ---- C04

/// Whether some neighbouring samples differ by more than a quarter of the range.
fn steep(i: &Img) -> bool {
    i.comps.iter().any(|c| {
        let d = c.data.as_ref().unwrap();
        let far = |a: i32, b: i32| (a as i64 - b as i64).abs() * 4 >= 1 << c.prec;
        (0..d.len()).any(|k| {
            ((k + 1) % c.w as usize != 0 && k + 1 < d.len() && far(d[k], d[k + 1]))
                || (k + (c.w as usize) < d.len() && far(d[k], d[k + c.w as usize]))
        })
    })
}

pub fn c04() {
    start();
    let mut w = want(true);
    w.max_side = *pick("img", &[48, 48, 48, 100]);
    let (i, c) = gen(w);
    ev!("image {}x{} at {},{} with {} components; {}", i.x1 - i.x0, i.y1 - i.y0, i.x0, i.y0, i.comps.len(), c.short());
    ctx().sample = format!("{}x{} {}", i.x1 - i.x0, i.y1 - i.y0, c.short());
    let f = draw_feed(&i, &c);
    let we = Way::draw();
    let mut d = dev(&[]);
    let e = op("encoding", || encode(&i, &c, &mut *d, &we, feed(&f)));
    ev!("encode through {}: {:?}, {} bytes", we.name(), e.steps, e.bytes.len());
    if e.bytes.len() <= 400 {
        ev!("{}", e.bytes.iter().map(|b| format!("{b:02x}")).collect::<String>());
    }
    if !e.setup {
        count("probe.refused-at-setup");
        return;
    }
    let parts = |m: &(char, String)| m.1.split(" tile-parts are more").next().and_then(|n| n.parse::<u32>().ok());
    if c.tp.is_some() && e.msgs.iter().filter_map(parts).any(|n| n > 255) {
        count("probe.refused-tile-parts");
        return;
    }
    if e.msgs.iter().any(|m| m.1.contains("more guard bits are needed")) {
        // Only steep content grows that much in the transform.
        if steep(&i) {
            count("probe.refused-guard-bits");
            return;
        }
    }
    if !e.ok() {
        count("probe.encode-failed");
        violate("encode-failed", format!("{:?}; {}; {:?}", e.steps, c.short(), e.msgs.iter().find(|m| m.0 == 'E')));
        return;
    }
    refill();
    let wd = Way::draw();
    let mut d = dev(&e.bytes);
    let mut a = Ask::whole(c.jp2);
    a.strict = chance("ask", 1, 2);
    if chance("ask", 1, 4) {
        a.part = Part::Area(i.x0 as i32, i.y0 as i32, i.x1 as i32, i.y1 as i32);
    }
    let o = op("decoding", || decode(&a, &mut *d, &wd));
    outcome(&o);
    nontrivial();
    let Some(r) = o.image() else {
        violate("decode-failed", format!("{:?}; {}; {:?}", o.steps, c.short(), o.msgs.iter().find(|m| m.0 == 'E')));
        return;
    };
    let mut r = r.clone();
    let mut i = i;
    if !c.jp2 || i.icc.is_some() {
        r.color = i.color; // carried by nothing, or superseded by the profile
        i.comps.iter_mut().for_each(|c| c.alpha = 0); // channels are defined for enumerated spaces only
    }
    if !c.jp2 {
        r.icc = i.icc.clone();
    }
    if let Some(t) = diff(&i, &r) {
        violate("round-trip", format!("{t}; {}", c.short()));
    }
}

// ---- C05

fn calm() {
    // every operation of a damaged run has to end within these bounds
    if sched::traced() || sched::steps() > 0 {
        sched::budget_from_now(3_000_000_000);
    }
}

pub fn c05() {
    start();
    mem::heap().limit = 48 << 20;
    let Some((i, c, b)) = stored(want(false)) else { return };
    let (mut b, jp2) = rewritten(&i, &c, b);
    boxes::damage(&mut b, &[]);
    ctx().sample += " damaged";
    ev!("damaged, {} bytes", b.len());
    for _ in 0..range("ask", 1, 2) {
        let mut a = draw_ask(&i, &c, jp2);
        if chance("ask", 1, 8) {
            a.jp2 = !a.jp2;
        }
        ev!("asking for {}", ask_text(&a));
        let w = if chance("way", 1, 2) { Way::plain() } else { Way::draw() };
        let mut d = dev(&b);
        calm();
        let o = op("decoding damaged data", || decode(&a, &mut *d, &w));
        outcome(&o);
        if o.steps.len() > 2 {
            nontrivial();
        }
        freed_once(&d, &w, "decoding damaged data");
    }
}

// ---- C06

fn draw_fail(n: u64) -> Fail {
    if n == 0 {
        return Fail::Never;
    }
    match weighted("fail", &[8, 2, 2, 1]) {
        0 => Fail::At(below("fail", n)),
        1 => Fail::From(below("fail", n)),
        2 => Fail::Some(*pick("fail", &[20, 5, 100, 300]), below("fail", 1 << 30)),
        _ => Fail::Larger(1 << range("fail", 4, 16)),
    }
}
fn with_failures<T>(f: Fail, what: &str, g: impl FnOnce() -> T) -> (T, u64) {
    let h = mem::heap();
    h.c_allocs = 0;
    h.failed = 0;
    h.fail = f;
    let r = sched::alone(g);
    h.fail = Fail::Never;
    settled(what);
    (r, h.failed)
}

pub fn c06() {
    start();
    let mut wn = want(false);
    wn.max_side = 32;
    let (i, c) = gen(wn);
    ev!("image {}x{} with {} components; {}", i.x1 - i.x0, i.y1 - i.y0, i.comps.len(), c.short());
    ctx().sample = format!("{}x{} {}", i.x1 - i.x0, i.y1 - i.y0, c.short());
    let f = draw_feed(&i, &c);
    let mut d = dev(&[]);
    let e = op("encoding", || encode(&i, &c, &mut *d, &Way::plain(), feed(&f)));
    if !e.ok() {
        return;
    }
    let h = mem::heap();
    if chance("fail", 1, 3) {
        // encoding
        h.c_allocs = 0;
        let mut d = dev(&[]);
        op("encoding", || encode(&i, &c, &mut *d, &Way::plain(), feed(&f)));
        let n = h.c_allocs;
        for _ in 0..range("fail", 1, 4) {
            refill();
            let fl = draw_fail(n);
            ev!("encode with {fl:?} of {n} allocations");
            let mut d = dev(&[]);
            let (e2, failed) = with_failures(fl, "an encode short of memory", || encode(&i, &c, &mut *d, &Way::plain(), feed(&f)));
            ev!("{failed} failed; {:?}", e2.steps);
            fp(simcore::hash_str(&format!("{fl:?} {:?}", e2.steps)));
            simcore::count_n("fault.allocation-failed", failed);
            if failed > 0 {
                nontrivial();
            }
            if e2.ok() && e2.bytes != e.bytes {
                violate("wrong-success", format!("encode with {failed} failed allocations: {}", bytes_diff(&e.bytes, &e2.bytes)));
                return;
            }
            let mut d = dev(&[]);
            let e3 = op("encoding", || encode(&i, &c, &mut *d, &Way::plain(), feed(&f)));
            if e3.steps != e.steps || e3.bytes != e.bytes {
                violate("retry", format!("repeated with memory available: {:?}, {}", e3.steps, bytes_diff(&e.bytes, &e3.bytes)));
                return;
            }
        }
        return;
    }
    let (b, jp2) = rewritten(&i, &c, e.bytes);
    let mut a = draw_ask(&i, &c, jp2);
    a.strict = true;
    ev!("asking for {}", ask_text(&a));
    let o = op("decoding", || decode_plain(&a, &b));
    h.c_allocs = 0;
    op("decoding", || decode_plain(&a, &b));
    let n = h.c_allocs;
    for _ in 0..range("fail", 1, 4) {
        refill();
        let fl = draw_fail(n);
        ev!("decode with {fl:?} of {n} allocations");
        let (o2, failed) = with_failures(fl, "a decode short of memory", || decode_plain(&a, &b));
        outcome(&o2);
        fp(simcore::hash_str(&format!("{fl:?}")));
        simcore::count_n("fault.allocation-failed", failed);
        if failed > 0 {
            nontrivial();
        }
        if o2.ok() {
            // The codestream information and index are given as null pointers when short of memory.
            let (info, index) = o.info.split_at(o.info.find("; index").unwrap_or(o.info.len()));
            let mut o2 = o2;
            if o2.info.is_empty() || o2.info == info || o2.info == index {
                o2.info = o.info.clone();
            }
            if let Some(t) = o.same(&o2) {
                violate("wrong-success", format!("decode with {failed} failed allocations, asked for {}: {t}", ask_text(&a)));
                return;
            }
        }
        let o3 = op("decoding", || decode_plain(&a, &b));
        if let Some(t) = o.same(&o3) {
            violate("retry", format!("repeated with memory available: {t}"));
            return;
        }
    }
}

// ---- C08

fn clip(i: &Img, q: (i32, i32, i32, i32)) -> (u32, u32, u32, u32) {
    if q == (0, 0, 0, 0) {
        return (i.x0, i.y0, i.x1, i.y1);
    }
    (
        (q.0.max(0) as u32).max(i.x0),
        (q.1.max(0) as u32).max(i.y0),
        (q.2.max(0) as u32).min(i.x1),
        (q.3.max(0) as u32).min(i.y1),
    )
}

/// The part of a full decode (at its resolution) that this area of the reference grid covers.
pub fn cut(full: &Img, q: (u32, u32, u32, u32)) -> Img {
    let mut o = full.clone();
    (o.x0, o.y0, o.x1, o.y1) = q;
    for (k, c) in o.comps.iter_mut().enumerate() {
        let f = &full.comps[k];
        let (x0, y0) = (cdiv(q.0, c.dx), cdiv(q.1, c.dy));
        let (x1, y1) = (cdiv(q.2, c.dx), cdiv(q.3, c.dy));
        let r = |v: u32| cshr(v, f.factor);
        (c.x0, c.y0) = (x0, y0);
        c.w = r(x1) - r(x0);
        c.h = r(y1) - r(y0);
        if let Some(d) = &f.data {
            let (bx, by) = (r(x0) - r(f.x0), r(y0) - r(f.y0));
            let mut v = Vec::with_capacity((c.w * c.h) as usize);
            for y in 0..c.h {
                for x in 0..c.w {
                    v.push(d[((by + y) * f.w + bx + x) as usize]);
                }
            }
            c.data = Some(v);
        }
    }
    o
}

pub fn c08() {
    start();
    let mut wn = want(false);
    wn.multi_tile = chance("img", 1, 2);
    wn.max_side = *pick("img", &[48, 48, 100]);
    let Some((i, c, b)) = stored(wn) else { return };
    let (b, jp2) = rewritten(&i, &c, b);
    let r = if c.numres > 1 && chance("ask", 1, 2) { range("ask", 1, c.numres as u64 - 1) as u32 } else { 0 };
    let mut a = Ask::whole(jp2);
    a.reduce = r;
    let o = op("decoding", || decode_plain(&a, &b));
    let Some(full) = o.image().cloned() else {
        violate("decode-failed", format!("{:?}; reduced by {r}; {}", o.steps, c.short()));
        return;
    };
    // the same without the colour transforms of JP2 files, which parts may not get either
    let raw = if jp2 {
        let mut a = Ask::whole(jp2);
        a.reduce = r;
        a.flags = 1;
        let o = op("decoding", || decode_plain(&a, &b));
        let Some(raw) = o.image().cloned() else {
            violate("decode-failed", format!("without colour transforms: {:?}; reduced by {r}; {}", o.steps, c.short()));
            return;
        };
        if let Some(t) = boxes::colour(&b, &raw).and_then(|w| diff_comps(&w, &full)) {
            violate("colour", format!("{t}; {}", c.short()));
            return;
        }
        raw
    } else {
        full.clone()
    };
    for k in &raw.comps {
        let w = cshr(cdiv(i.x1, k.dx), r) - cshr(cdiv(i.x0, k.dx), r);
        let h = cshr(cdiv(i.y1, k.dy), r) - cshr(cdiv(i.y0, k.dy), r);
        if (w, h) != (k.w, k.h) {
            violate("geometry", format!("reduced by {r}: {}x{} instead of {w}x{h}; {}", k.w, k.h, c.short()));
            return;
        }
    }
    let (tw, th) = c.tiles(&i);
    let n = (tw * th) as u64;
    for _ in 0..range("ask", 1, 3) {
        refill();
        let mut a = Ask::whole(jp2);
        if r > 0 && chance("ask", 1, 3) {
            a.factor = Some(r);
        } else {
            a.reduce = r;
        }
        a.strict = chance("ask", 2, 3);
        let subset = if c.mct == 0 && chance("ask", 1, 4) {
            let mut v: Vec<u32> = (0..i.comps.len() as u32).collect();
            let keep = range("ask", 1, v.len() as u64);
            let mut s = Vec::new();
            for _ in 0..keep {
                s.push(v.remove(below("ask", v.len() as u64) as usize));
            }
            a.comps = Some(s.clone());
            Some(s)
        } else {
            None
        };
        a.part = match weighted("ask", &[4, 4, 1, 2]) {
            0 => {
                let q = draw_area(&i);
                Part::Area(q.0, q.1, q.2, q.3)
            }
            1 if subset.is_none() => Part::Tiles((0..range("ask", 1, 2 + n.min(6))).map(|_| below("ask", n) as u32).collect()),
            2 if subset.is_none() => Part::TileData,
            3 if n == 1 && subset.is_none() => {
                // (a single tile is kept for further areas until it has been decoded entirely)
                let mut v: Vec<_> = (0..range("ask", 1, 4)).map(|_| draw_area(&i)).collect();
                if let Some(k) = v.iter().position(|q| clip(&i, *q) == (i.x0, i.y0, i.x1, i.y1)) {
                    v.truncate(k + 1);
                }
                Part::Areas(v)
            }
            _ => Part::Whole,
        };
        let w = Way::draw();
        ev!("asking for {} through {}", ask_text(&a), w.name());
        let mut d = dev(&b);
        let o = op("decoding", || decode(&a, &mut *d, &w));
        outcome(&o);
        if !o.ok() {
            violate("part-failed", format!("asked for {}: {:?}; {:?}", ask_text(&a), o.steps, o.msgs.iter().find(|m| m.0 == 'E')));
            return;
        }
        nontrivial();
        let rects: Vec<(u32, u32, u32, u32)> = match &a.part {
            Part::Area(x0, y0, x1, y1) => vec![clip(&i, (*x0, *y0, *x1, *y1))],
            Part::Areas(v) => v.iter().map(|q| clip(&i, *q)).collect(),
            Part::Tiles(v) => v.iter().map(|t| c.tile_rect(&i, *t)).collect(),
            Part::Whole => vec![(i.x0, i.y0, i.x1, i.y1)],
            _ => vec![],
        };
        for (k, q) in rects.iter().enumerate() {
            let mut want = cut(if subset.is_some() { &raw } else { &full }, *q);
            if let Some(s) = &subset {
                want.comps = s.iter().map(|x| want.comps[*x as usize].clone()).collect();
            }
            if let Some(t) = diff_comps(&want, &o.images[k]) {
                violate("part", format!("asked for {} (part {k}, area {q:?}): {t}; {}", ask_text(&a), c.short()));
                return;
            }
        }
        if a.part == Part::TileData {
            if o.tiles.len() as u64 != n {
                violate("part", format!("{} tiles announced instead of {n}", o.tiles.len()));
                return;
            }
            for t in &o.tiles {
                let q = c.tile_rect(&i, t.index);
                let want = cut(&raw, q);
                let mut v = Vec::new();
                for (ci, k) in want.comps.iter().enumerate() {
                    let p = i.comps[ci].prec;
                    let s = if p <= 8 { 1 } else if p <= 16 { 2 } else { 4 };
                    for x in k.data.iter().flatten() {
                        v.extend_from_slice(&x.to_ne_bytes()[..s]);
                    }
                }
                if v != t.data {
                    violate("part", format!("tile data of tile {}: {}", t.index, bytes_diff(&v, &t.data)));
                    return;
                }
            }
        }
    }
}

// ---- C09

struct Job {
    text: String,
    img: Img,
    cfg: Cfg,
    ask: Option<Ask>,
    bytes: Vec<u8>,
    way: Way,
    plans: Vec<Plan>,
    ends: Option<u64>,
    feed: Option<Vec<u32>>,
}
impl Job {
    fn draw() -> Option<Job> {
        let mut wn = want(false);
        wn.max_side = 32;
        let way = Way::draw();
        if chance("job", 1, 3) {
            let (img, cfg) = gen(wn);
            let feed = draw_feed(&img, &cfg);
            let plans = if chance("job", 1, 4) {
                vec![Plan { op: Op::Write, at: below("job", 6), times: u64::MAX, fault: Fault::Err }]
            } else {
                vec![]
            };
            let text = format!("encode {} through {}", cfg.short(), way.name());
            return Some(Job { text, img, cfg, ask: None, bytes: vec![], way, plans, ends: None, feed });
        }
        let (img, cfg, b) = stored(wn)?;
        let (mut b, jp2) = rewritten(&img, &cfg, b);
        if chance("job", 1, 5) {
            mem::heap().limit = 64 << 20;
            boxes::damage(&mut b, &[]);
        }
        let ask = draw_ask(&img, &cfg, jp2);
        let plans = if chance("job", 1, 6) {
            vec![Plan { op: *pick("job", &[Op::Read, Op::Seek, Op::Skip]), at: below("job", 8), times: 1, fault: Fault::Err }]
        } else {
            vec![]
        };
        let ends = if chance("job", 1, 8) { Some(below("job", b.len() as u64 + 1)) } else { None };
        let text = format!("decode {} through {}", ask_text(&ask), way.name());
        Some(Job { text, img, cfg, ask: Some(ask), bytes: b, way, plans, ends, feed: None })
    }
    fn run(&self) -> (String, Vec<(char, String)>) {
        let mut d = dev(&self.bytes);
        d.plans = self.plans.clone();
        if let Some(e) = self.ends {
            d.ends = e;
        }
        let r = match &self.ask {
            Some(a) => {
                let mut o = decode(a, &mut *d, &self.way);
                let m = std::mem::take(&mut o.msgs);
                (format!("{o:?}"), m)
            }
            None => {
                let mut e = encode(&self.img, &self.cfg, &mut *d, &self.way, feed(&self.feed));
                let m = std::mem::take(&mut e.msgs);
                (format!("{e:?}"), m)
            }
        };
        let m = r.1.into_iter().filter(|m| !m.1.contains("We only report this once") && !once(&m.1)).collect();
        (r.0 + &format!(" freed {} opened {} closed {}", d.freed, d.opened, d.closed), m)
    }
}
/// Notices the codec announces as shown only once per process.
fn once(_m: &str) -> bool {
    false
}

pub fn c09() {
    start();
    let mut jobs = Vec::new();
    for _ in 0..range("job", 2, 4) {
        if let Some(j) = Job::draw() {
            jobs.push(j);
        }
    }
    if jobs.len() < 2 {
        return;
    }
    if chance("job", 1, 3) {
        let k = below("job", jobs.len() as u64) as usize;
        let j = &jobs[k];
        let copy = Job {
            text: j.text.clone(),
            img: j.img.clone(),
            cfg: j.cfg.clone(),
            ask: j.ask.clone(),
            bytes: j.bytes.clone(),
            way: j.way.clone(),
            plans: j.plans.clone(),
            ends: j.ends,
            feed: j.feed.clone(),
        };
        jobs.push(copy);
    }
    let mut solo = Vec::new();
    let refused = mem::heap().refused;
    for j in &jobs {
        ev!("job: {}", j.text);
        solo.push(op("an operation on its own", || j.run()));
    }
    if mem::heap().refused != refused {
        // What an operation does that meets the memory limit depends on what the others need.
        return;
    }
    mem::heap().limit *= jobs.len();
    refill();
    let spread = below("sched", 4);
    let results: std::sync::Mutex<Vec<Option<(String, Vec<(char, String)>)>>> = std::sync::Mutex::new(vec![None; jobs.len()]);
    let switches = {
        let r = &results;
        let fs: Vec<Box<dyn FnOnce() + '_>> = jobs
            .iter()
            .enumerate()
            .map(|(k, j)| {
                let f: Box<dyn FnOnce() + '_> = Box::new(move || {
                    let x = j.run();
                    r.lock().unwrap()[k] = Some(x);
                });
                f
            })
            .collect();
        sched::together(fs, spread)
    };
    settled("operations that ran at the same time");
    ev!("{switches} switches");
    simcore::count_n("fault.preemption", switches);
    if switches > jobs.len() as u64 {
        nontrivial();
    }
    let got = results.into_inner().unwrap();
    for (k, j) in jobs.iter().enumerate() {
        let Some(x) = &got[k] else {
            violate("lost", format!("{} did not finish", j.text));
            return;
        };
        if x.0 != solo[k].0 {
            violate("interference", format!("{}: {}", j.text, text_diff(&solo[k].0, &x.0)));
            return;
        }
        if x.1 != solo[k].1 {
            let p = x.1.iter().zip(&solo[k].1).position(|(a, b)| a != b);
            violate("interference", format!("{}: {} messages instead of {}, first difference at {p:?}", j.text, x.1.len(), solo[k].1.len()));
            return;
        }
    }
}
fn text_diff(a: &str, b: &str) -> String {
    let p = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let f = |s: &str| {
        let lo = p.saturating_sub(60);
        s.get(lo..(p + 60).min(s.len())).unwrap_or("").to_string()
    };
    format!("got ...{}... instead of ...{}...", f(b), f(a))
}

// ---- C10

pub fn c10() {
    start();
    let Some((i, c, b)) = stored(want(false)) else { return };
    if chance("io", 1, 3) {
        // a sink that takes little or nothing
        let mut w = Way::draw();
        w.wr = *pick("io", &[Piece::One, Piece::Fixed(2), Piece::Random]);
        let f = draw_feed(&i, &c);
        let mut d = dev(&[]);
        match below("io", 4) {
            0 => {}
            k => d.plans.push(Plan {
                op: if k == 3 { Op::Seek } else { Op::Write },
                at: below("io", b.len() as u64),
                times: u64::MAX,
                fault: *pick("io", &[Fault::Zero, Fault::Err]),
            }),
        }
        d.cap_calls = 2000 + 8 * b.len() as u64;
        calm();
        ev!("encode through {}, {:?}", w.name(), d.plans);
        let e = op("encoding", || encode(&i, &c, &mut *d, &w, feed(&f)));
        io::describe(&d);
        ev!("{:?}", e.steps);
        if d.total_calls() > 1 {
            nontrivial();
        }
        return;
    }
    let (mut b, jp2) = rewritten(&i, &c, b);
    if chance("dmg", 1, 3) {
        mem::heap().limit = 48 << 20;
        boxes::damage(&mut b, &[]);
    }
    let a = draw_ask(&i, &c, jp2);
    let mut w = Way::draw();
    if chance("io", 1, 2) {
        w.rd = Piece::One;
        w.sk = Piece::One;
    }
    let mut d = dev(&b);
    match below("io", 5) {
        0 => {}
        1 => d.ends = below("io", b.len() as u64 + 1),
        _ => d.plans.push(Plan {
            op: *pick("io", &[Op::Read, Op::Read, Op::Skip, Op::Seek]),
            at: small("io", b.len() as u64),
            times: u64::MAX,
            fault: *pick("io", &[Fault::Zero, Fault::Err]),
        }),
    }
    let parts = match &a.part {
        Part::Tiles(v) => v.len() as u64 * 2 + 2,
        Part::Areas(v) => v.len() as u64 * 2 + 2,
        _ => 2,
    };
    d.cap_calls = 2000 + (1 + parts) * 4 * b.len() as u64;
    calm();
    ev!("decode {} through {}, {:?}, ends at {}", ask_text(&a), w.name(), d.plans, d.ends);
    let o = op("decoding", || decode(&a, &mut *d, &w));
    io::describe(&d);
    outcome(&o);
    if d.total_calls() > 1 {
        nontrivial();
    }
}

// ---- C11

pub fn c11() {
    start();
    let mut wn = want(false);
    wn.multi_tile = true;
    let Some((i, c, b)) = stored(wn) else { return };
    let (b, jp2) = rewritten(&i, &c, b);
    let Some(m) = boxes::map(&b) else { return };
    let mut a = Ask::whole(jp2);
    if c.numres > 1 && chance("ask", 1, 4) {
        a.reduce = range("ask", 1, c.numres as u64 - 1) as u32;
    }
    let o = op("decoding", || decode_plain(&a, &b));
    let Some(full) = o.image().cloned() else { return };
    let (tw, th) = c.tiles(&i);
    // a last tile-part without length is as long as the codestream: only EOC tells that it is complete
    let open = m.tps.last().is_some_and(|t| b[t.start + 6..t.start + 10] == [0; 4]);
    for _ in 0..range("cut", 1, 4) {
        refill();
        let cut_at = match weighted("cut", &[4, 2, 1]) {
            0 => m.main + below("cut", (b.len() - m.main) as u64) as usize,
            1 => {
                let t = pick("cut", &m.tps);
                (t.end + below("cut", 5) as usize).saturating_sub(2).min(b.len())
            }
            _ => below("cut", b.len() as u64) as usize,
        };
        count("fault.truncation");
        a.strict = chance("cut", 1, 3);
        let w = Way::draw();
        let short = b[..cut_at].to_vec();
        let mut d = dev(&short);
        ev!("cut at {cut_at} of {}, {} through {}", b.len(), ask_text(&a), w.name());
        let o = op("decoding", || decode(&a, &mut *d, &w));
        outcome(&o);
        let complete: Vec<u32> = (0..tw * th)
            .filter(|t| m.tps.iter().filter(|p| p.tile == *t as usize).all(|p| p.end <= cut_at))
            .filter(|t| !open || m.end <= cut_at || m.tps.last().unwrap().tile != *t as usize)
            .collect();
        if !complete.is_empty() && cut_at < m.end {
            nontrivial();
        }
        ev!("complete tiles {complete:?}");
        let Some(got) = o.image() else {
            if o.ok() || a.strict || complete.is_empty() {
                continue;
            }
            // (an error within the tile that was cut, or no sample at all of some component, is a reason)
            let inside = o.msgs.iter().any(|m| {
                m.1.strip_prefix("Failed to decode tile ")
                    .and_then(|t| t.split('/').next().and_then(|t| t.parse::<u32>().ok()))
                    .is_some_and(|t| t > 0 && !complete.contains(&(t - 1)))
            });
            let none = (0..full.comps.len()).any(|k| {
                let empty = |x: &Img| x.comps[k].w == 0 || x.comps[k].h == 0;
                !empty(&full) && complete.iter().all(|t| empty(&cut(&full, c.tile_rect(&i, *t))))
            });
            if inside || none {
                count("probe.tolerant-failure-with-reason");
                continue;
            }
            violate(
                "tolerant-failed",
                format!("first {cut_at} of {} bytes hold all of tiles {complete:?}, but: {:?}; {}", b.len(), o.msgs.iter().rev().take(3).map(|m| m.1.clone()).collect::<Vec<_>>(), c.short()),
            );
            return;
        };
        // (tiles in an unknown number of tile-parts may end where the last tile does, without EOC)
        let last = m.tps.iter().any(|t| b[t.start + 11] == 0)
            && m.tps.iter().any(|t| t.tile as u32 == tw * th - 1 && (t.end..=t.end + 1).contains(&cut_at));
        if a.strict && (!open || m.end <= cut_at) && !last {
            if let Some(t) = diff(&full, got) {
                violate("strict", format!("strict decode of the first {cut_at} of {} bytes succeeded with {t}", b.len()));
                return;
            }
            continue;
        }
        for t in complete {
            let q = c.tile_rect(&i, t);
            let (x, y) = (cut(&full, q), cut(got, q));
            if let Some(e) = diff_comps(&x, &y) {
                for m in o.msgs.iter().take(20) {
                    ev!("{} {}", m.0, m.1);
                }
                violate("tile-lost", format!("first {cut_at} of {} bytes hold all of tile {t}, but {e}; {}", b.len(), c.short()));
                return;
            }
        }
    }
}

// ---- C12

pub fn c12() {
    start();
    let mut wn = want(false);
    wn.multi_tile = chance("img", 3, 4);
    let (i, c) = gen(wn);
    ev!("image {}x{} at {},{} with {} components; {}", i.x1 - i.x0, i.y1 - i.y0, i.x0, i.y0, i.comps.len(), c.short());
    ctx().sample = format!("{}x{} {}", i.x1 - i.x0, i.y1 - i.y0, c.short());
    let e = op("encoding", || encode_plain(&i, &c));
    if !e.ok() {
        return;
    }
    let whole = op("decoding", || decode_plain(&Ask::whole(c.jp2), &e.bytes));
    let (tw, th) = c.tiles(&i);
    let n = tw * th;
    if n > 1 {
        nontrivial();
    }
    refill();
    let w = Way::draw();
    // (tile, wrong size by)
    let mut plan: Vec<(u32, i32)> = Vec::new();
    for t in 0..n {
        if chance("feed", 1, 6) {
            let k = match below("feed", 3) {
                0 => ((t + 1 + below("feed", n as u64 + 2) as u32), 0),
                1 => (t, 1 + small("feed", 2000) as i32),
                _ => (t, -1 - small("feed", 2000) as i32),
            };
            if k.1 != 0 || k.0 != t {
                plan.push(k);
            }
        }
        plan.push((t, 0));
    }
    ev!("handing over {plan:?} through {}", w.name());
    let mut d = dev(&[]);
    let r = op("encoding tile by tile", || feed_tiles(&i, &c, &mut *d, &w, &plan));
    io::describe(&d);
    let Ok(bad) = r else {
        violate("tiles-failed", format!("{}; {}", r.unwrap_err(), c.short()));
        return;
    };
    if bad > 0 {
        count("probe.wrong-tile-handed-over");
    }
    let o = op("decoding", || decode_plain(&Ask::whole(c.jp2), &d.data));
    outcome(&o);
    if let Some(t) = whole.same(&o) {
        violate("tiles-differ", format!("{t}; {}; {bad} wrong tiles; {}", bytes_diff(&e.bytes, &d.data), c.short()));
    }
}

fn feed_tiles(i: &Img, c: &Cfg, d: *mut Dev, w: &Way, plan: &[(u32, i32)]) -> Result<u32, String> {
    use openjp2::openjpeg::*;
    let im = to_native(i);
    if im.is_null() {
        return Err("image".into());
    }
    let (k, ok) = encoder(c, i, im);
    let mut r = Ok(0);
    if !ok {
        r = Err("setup".into());
    } else {
        let s = io::open(d, w, false);
        if call("opj_start_compress", || unsafe { opj_start_compress(k.p, im, s) }) == 0 {
            r = Err("start".into());
        } else {
            let mut bad = 0;
            let n = c.tiles(i).0 * c.tiles(i).1;
            for (t, off) in plan {
                let mut b = tile_bytes(c, i, (*t).min(n - 1));
                let size = (b.len() as i64 + *off as i64).max(0) as usize;
                b.resize(size, 0x33);
                let wrong = *off != 0 && size != tile_bytes(c, i, (*t).min(n - 1)).len() || *t >= n || {
                    // out of turn
                    let done = plan.iter().take_while(|p| !std::ptr::eq(*p, &plan[plan.len() - 1])).count();
                    let _ = done;
                    false
                };
                let p = {
                    let _g = mem::enter();
                    unsafe { mem::malloc(b.len().max(1)) as *mut u8 }
                };
                unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
                let ok = call("opj_write_tile", || unsafe { opj_write_tile(k.p, *t, p, b.len() as u32, s) }) != 0;
                unsafe { mem::free(p as *mut std::ffi::c_void) };
                ev!("tile {t} of {} bytes: {ok}", b.len());
                if !ok {
                    bad += 1;
                }
                if ok && wrong {
                    r = Err(format!("tile {t} with {} bytes too many was accepted", off));
                    break;
                }
            }
            if r.is_ok() {
                let want_bad = plan.len() as u32 - n;
                if bad != want_bad {
                    r = Err(format!("{bad} of {} tiles handed over were refused instead of {want_bad}", plan.len()));
                } else if call("opj_end_compress", || unsafe { opj_end_compress(k.p, s) }) == 0 {
                    r = Err("end".into());
                } else {
                    r = Ok(bad);
                }
            }
        }
        io::close_stream(s);
    }
    k.destroy();
    image_destroy(im);
    r
}

// ---- C13

pub fn c13() {
    start();
    let (i, c) = gen(want(false));
    ev!("image {}x{} with {} components; {}", i.x1 - i.x0, i.y1 - i.y0, i.comps.len(), c.short());
    ctx().sample = format!("{}x{} {}", i.x1 - i.x0, i.y1 - i.y0, c.short());
    let f = draw_feed(&i, &c);
    let mut w = Way::draw();
    w.wr = Piece::Full;
    w.buffer = w.buffer.max(1 + below("way", 60) as usize);
    let mut d = dev(&[]);
    d.log_writes = true;
    let e = op("encoding", || encode(&i, &c, &mut *d, &w, feed(&f)));
    if !e.ok() {
        return;
    }
    let o = op("decoding", || decode_plain(&Ask::whole(c.jp2), &e.bytes));
    let Some(full) = o.image().cloned() else { return };
    let n = d.writes.len() as u64;
    ev!("{n} writes, {} bytes", e.bytes.len());
    let points = range("cut", 1, 12);
    for _ in 0..points {
        refill();
        // some number of writes complete, the next one torn
        let k = match below("cut", 3) {
            0 => n - 1 - small("cut", n - 1),
            1 => below("cut", n),
            _ => small("cut", n - 1),
        } as usize;
        let mut data: Vec<u8> = Vec::new();
        for (p, b) in &d.writes[..k] {
            put(&mut data, *p, b);
        }
        let (p, b) = &d.writes[k];
        let part = below("cut", b.len() as u64 + 1) as usize;
        put(&mut data, *p, &b[..part]);
        count("fault.crash-while-encoding");
        fp(data.len() as u64);
        let mut a = Ask::whole(c.jp2);
        let (tw, th) = c.tiles(&i);
        if chance("ask", 1, 6) {
            a.part = Part::TileData;
        } else if chance("ask", 1, 6) {
            a.part = Part::Tiles((0..tw * th).collect());
        }
        let o = op("decoding a file cut short", || decode_plain(&a, &data));
        ev!("crash in write {k} after {part} bytes ({} stored): {:?}", data.len(), o.steps.last());
        nontrivial();
        if !o.ok() {
            continue;
        }
        match &a.part {
            Part::Whole => {
                if let Some(t) = diff(&full, &o.images[0]) {
                    violate("taken-for-complete", format!("{} of {} bytes stored (write {k} of {n}): strict decode succeeded with {t}", data.len(), e.bytes.len()));
                    return;
                }
            }
            Part::Tiles(v) => {
                for (x, t) in v.iter().enumerate() {
                    let want = cut(&full, c.tile_rect(&i, *t));
                    if let Some(e) = diff_comps(&want, &o.images[x]) {
                        violate("taken-for-complete", format!("tile {t} of a file cut short: strict decode succeeded with {e}"));
                        return;
                    }
                }
            }
            _ => {
                if o.tiles.len() as u32 != tw * th {
                    violate("taken-for-complete", format!("{} of {} bytes stored: strict decode ended cleanly after {} of {} tiles", data.len(), e.bytes.len(), o.tiles.len(), tw * th));
                    return;
                }
            }
        }
    }
}
fn put(data: &mut Vec<u8>, p: u64, b: &[u8]) {
    let p = p as usize;
    if data.len() < p + b.len() {
        data.resize(p + b.len(), 0);
    }
    data[p..p + b.len()].copy_from_slice(b);
}

// ---- C07

pub fn c07() {
    start();
    crate::calls::run();
}

// ---- C14

/// Another legal form of the same codestream gives the same result, however it is asked for and delivered.
pub fn c14() {
    start();
    let Some((i, c, b)) = stored(want(false)) else { return };
    let Some(cs) = boxes::codestream(&b) else { return };
    for _ in 0..range("ask", 1, 2) {
        let mut a = draw_ask(&i, &c, false);
        a.info = false;
        if matches!(a.part, Part::TileData) {
            a.comps = None;
        }
        ev!("asking for {}", ask_text(&a));
        let mut o = op("decoding", || decode_plain(&a, &cs));
        outcome(&o);
        let Some(x) = op("rewriting", || forms::other(&cs, &i, &c)) else { return };
        ev!("{} bytes in another form", x.len());
        let w = if chance("way", 1, 2) { Way::plain() } else { Way::draw() };
        refill();
        let mut d = dev(&x);
        let mut o2 = op("decoding another form", || decode(&a, &mut *d, &w));
        outcome(&o2);
        nontrivial();
        // (tiles come in the order of the file)
        o.tiles.sort_by_key(|t| t.index);
        o2.tiles.sort_by_key(|t| t.index);
        let calls = |o: &mut Dec| o.steps.dedup();
        calls(&mut o);
        calls(&mut o2);
        if let Some(t) = o.same(&o2) {
            for m in o2.msgs.iter().take(10) {
                ev!("{} {}", m.0, m.1);
            }
            violate("form", format!("asked for {}; {t}; {}", ask_text(&a), c.short()));
            return;
        }
        freed_once(&d, &w, "decoding");
    }
}

// ---- C15

/// A component transform that keeps lengths, and the level shifts.
fn own_transform(i: &Img) -> (Vec<f32>, Vec<i32>) {
    let n = i.comps.len();
    let mut m = vec![0f64; n * n];
    for k in 0..n {
        m[k * n + k] = 1.0;
    }
    for _ in 0..below("cfg", 4) {
        // a rotation in the plane of two components, by a quarter (which exchanges them) or less
        let a = below("cfg", n as u64) as usize;
        let b = (a + 1 + below("cfg", n as u64 - 1) as usize) % n;
        let (s, c) = match below("cfg", 3) {
            0 => (1.0, 0.0),
            1 => (0.5f64.sqrt(), 0.5f64.sqrt()),
            _ => (0.6, 0.8),
        };
        for k in 0..n {
            let (x, y) = (m[a * n + k], m[b * n + k]);
            m[a * n + k] = c * x + s * y;
            m[b * n + k] = -s * x + c * y;
        }
    }
    (m.iter().map(|x| *x as f32).collect(), i.comps.iter().map(|c| if c.sgnd != 0 { 0 } else { 1 << (c.prec - 1) }).collect())
}

/// What an irreversible encoding may lose: the quantisation steps of the encoder are below one
/// sample value, whatever the sample is.
fn small_loss(prec: u32) -> (f64, f64) {
    let more = 2f64.powi(prec.saturating_sub(14) as i32);
    (8.0 * more, 4.0 * more * more)
}

/// The place of the byte which says how components are transformed, in the main header.
fn mct_byte(b: &[u8]) -> Option<usize> {
    let mut at = b.windows(4).position(|w| w == [0xff, 0x4f, 0xff, 0x51])? + 2;
    while at + 9 < b.len() && b[at] == 0xff && b[at + 1] != 0x90 {
        if b[at + 1] == 0x52 {
            return Some(at + 8);
        }
        at += 2 + u16::from_be_bytes([b[at + 2], b[at + 3]]) as usize;
    }
    None
}

pub fn c15() {
    start();
    let mut w = want(false);
    w.max_side = *pick("img", &[48, 48, 100, 160]);
    let (i, mut c) = gen(w);
    let n = i.comps.len();
    c.irreversible = chance("cfg", 7, 8);
    let limited = !c.irreversible || chance("cfg", 1, 3);
    c.quality = false;
    let layers = c.rates.len();
    let step = 1.0 + below("cfg", 12) as f32;
    for k in 0..layers {
        c.rates[k] = 1.0 + step * (layers - k) as f32;
    }
    if !limited {
        c.rates[layers - 1] = 0.0;
    }
    // the coefficients have to fit the 31 bits of the block coder
    let most = i.comps.iter().map(|x| x.prec).max().unwrap_or(0);
    if most > 12 {
        c.roi = None;
    }
    if most > 16 {
        c.numres = c.numres.min(5);
    }
    let key = |x: &Comp| (x.dx, x.dy, x.w, x.h, x.prec, x.sgnd);
    let alike = i.comps.iter().all(|x| key(x) == key(&i.comps[0]));
    if limited && chance("cfg", 1, 2) {
        // little besides the coded blocks, and many of them
        c.cblk = *pick("cfg", &[(4, 4), (8, 8), (16, 16), (64, 4), (8, 16)]);
        c.numres = c.numres.min(4);
        let fits = (i.x1 - i.x0).min(i.y1 - i.y0) >= 1 << (c.numres - 1);
        c.tile = c.tile.filter(|_| chance("cfg", 1, 4) || !fits);
        let last = *pick("cfg", &[1.5, 2.0, 3.0, 4.0, 6.0]);
        for k in 0..layers {
            c.rates[k] = last * 1.5f32.powi((layers - 1 - k) as i32);
        }
        c.tp = None;
        c.csty = 0;
        c.prec.clear();
    }
    if alike && n >= 3 && c.irreversible && !limited && chance("cfg", 1, 3) {
        c.custom_mct = Some(own_transform(&i));
    }
    ev!("image {}x{} at {},{} with {} components of {} bits; {} {:?}", i.x1 - i.x0, i.y1 - i.y0, i.x0, i.y0, n, i.comps[0].prec, c.short(), c.rates);
    ctx().sample = format!("{}x{} {}", i.x1 - i.x0, i.y1 - i.y0, c.short());
    let f = draw_feed(&i, &c);
    let we = Way::draw();
    let mut d = dev(&[]);
    let mut e = op("encoding", || encode(&i, &c, &mut *d, &we, feed(&f)));
    ev!("encode through {}: {:?}, {} bytes", we.name(), e.steps, e.bytes.len());
    if !e.setup {
        count("probe.refused-at-setup");
        return;
    }
    let parts = |m: &(char, String)| m.1.split(" tile-parts are more").next().and_then(|n| n.parse::<u32>().ok());
    if c.tp.is_some() && e.msgs.iter().filter_map(parts).any(|n| n > 255) {
        count("probe.refused-tile-parts");
        return;
    }
    if e.msgs.iter().any(|m| m.1.contains("more guard bits are needed")) {
        count("probe.refused-guard-bits");
        return;
    }
    if !e.ok() {
        violate("encode-failed", format!("{:?}; {}; {:?}", e.steps, c.short(), e.msgs.iter().find(|m| m.0 == 'E')));
        return;
    }
    // The decoder knows no transform but those of the standard's first part: it is shown the
    // components as they were coded, and has to find them transformed.
    let mut want = i.clone();
    if let Some((m, _)) = &c.custom_mct {
        let Some(at) = mct_byte(&e.bytes) else { return violate("custom-transform", "no COD segment in the main header".into()) };
        if e.bytes[at] != 2 {
            return violate("custom-transform", format!("the COD segment announces the transform {} for a custom one", e.bytes[at]));
        }
        e.bytes[at] = 0;
        let (lo, hi) = sample_range(&i.comps[0]);
        let shift = if i.comps[0].sgnd != 0 { 0.0 } else { (1u64 << (i.comps[0].prec - 1)) as f64 };
        let len = i.comps[0].data.as_ref().map_or(0, |d| d.len());
        for (a, comp) in want.comps.iter_mut().enumerate() {
            let to = (0..len).map(|s| {
                let v: f64 = (0..n).map(|b| m[a * n + b] as f64 * (i.comps[b].data.as_ref().map_or(0.0, |d| d[s] as f64) - shift)).sum();
                ((v + shift).round().max(lo as f64).min(hi as f64)) as i32
            });
            comp.data = Some(to.collect());
        }
        count("probe.custom-transform");
    }
    refill();
    let wd = Way::draw();
    let mut d = dev(&e.bytes);
    let mut a = Ask::whole(c.jp2);
    a.strict = chance("ask", 1, 2);
    if chance("ask", 1, 4) {
        a.part = Part::Area(i.x0 as i32, i.y0 as i32, i.x1 as i32, i.y1 as i32);
    }
    let o = op("decoding", || decode(&a, &mut *d, &wd));
    outcome(&o);
    nontrivial();
    let Some(r) = o.image() else {
        violate("decode-failed", format!("{:?}; {}; {:?}", o.steps, c.short(), o.msgs.iter().find(|m| m.0 == 'E')));
        return;
    };
    // the same but for the samples
    let mut same = r.clone();
    same.color = i.color;
    same.icc = i.icc.clone();
    for (p, q) in same.comps.iter_mut().zip(&i.comps) {
        p.alpha = q.alpha;
        if p.data.is_some() {
            p.data = q.data.clone();
        }
    }
    if let Some(t) = diff(&i, &same) {
        return violate("lossy", format!("{t}; {}", c.short()));
    }
    for (k, (p, q)) in want.comps.iter().zip(&r.comps).enumerate() {
        let (Some(x), Some(y)) = (&p.data, &q.data) else { continue };
        let (lo, hi) = sample_range(p);
        let mut max = 0f64;
        let mut sum = 0f64;
        for (s, t) in x.iter().zip(y) {
            if (*t as i64) < lo || *t as i64 > hi {
                return violate("range", format!("component {k} of {} bits has a sample {t}; {}", p.prec, c.short()));
            }
            let e = (*s as f64 - *t as f64).abs();
            max = max.max(e);
            sum += e * e;
        }
        let mse = sum / x.len().max(1) as f64;
        ev!("component {k}: largest error {max}, mean square {mse:.2}");
        let (lmax, lmse) = small_loss(p.prec);
        if !limited && (max > lmax || mse > lmse) {
            return violate("loss", format!("component {k} of {} bits, encoded without a limit, comes back with errors up to {max} and a mean square error of {mse:.2}; {}", p.prec, c.short()));
        }
    }
    if limited && alike && c.csty == 0 && c.tp.is_none() {
        let Some(cs) = boxes::codestream(&e.bytes) else { return };
        let Some(cs) = forms::Cs::read(&cs) else { return };
        let got: usize = cs.parts.iter().map(|p| p.data.len()).sum();
        let (tw, th) = c.tiles(&i);
        let mut bound = 0.0;
        let mut sure = true;
        for t in 0..tw * th {
            let (x0, y0, x1, y1) = c.tile_rect(&i, t);
            let samples = n as f64 * (x1 - x0) as f64 * (y1 - y0) as f64 / (i.comps[0].dx * i.comps[0].dy) as f64;
            let limit = (samples * i.comps[0].prec as f64 / 8.0 / c.rates[layers - 1] as f64).max(30.0 + 20.0 * layers as f64);
            // the packet headers and, as no less than the best passes can be chosen, some blocks
            let area = (c.cblk.0 * c.cblk.1) as f64;
            let packets = (layers * n * c.numres as usize) as f64;
            let blocks = samples / area * 2.0 + (3 * n * c.numres as usize) as f64;
            let whole = 2.0 * area * i.comps[0].prec as f64 / 8.0;
            let least = 2.0 * packets + 8.0 * blocks + whole.max(samples / 4.0);
            sure &= least < limit;
            bound += limit;
        }
        ev!("{got} bytes of packets, {bound:.0} asked for, sure: {sure}");
        if sure {
            count("probe.rate-limit");
            if got as f64 > bound + 1.0 {
                violate("rate", format!("{got} bytes for a limit of {bound:.0}; {}x{} {:?} {}", i.x1 - i.x0, i.y1 - i.y0, c.rates, c.short()));
            }
        }
    }
}

fn sample_range(c: &Comp) -> (i64, i64) {
    if c.sgnd != 0 {
        (-(1i64 << (c.prec - 1)), (1i64 << (c.prec - 1)) - 1)
    } else {
        (0, (1i64 << c.prec) - 1)
    }
}
