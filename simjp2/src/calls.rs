//! C07: sequences of API calls as an application with bugs, or in a hurry, makes them.
use crate::boxes;
use crate::codec::*;
use crate::forms;
use crate::img::*;
use crate::io::{self, Dev, Fault, Op, Plan, Way};
use crate::mem::{self, Kind};
use crate::sched;
use openjp2::image::*;
use openjp2::openjpeg::*;
use simcore::{below, chance, count, ctx, ev, fp, nontrivial, pick, range, small, violate};
use std::ffi::c_void;

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    NewCodec(bool),
    Stream(bool),
    SetupDec,
    Strict,
    Header,
    Area,
    Comps,
    Factor,
    Decode,
    EndDec,
    TileHeader,
    TileData,
    GetTile,
    Info,
    Image,
    SetupEnc,
    Options,
    Start,
    Encode,
    WriteTile,
    EndEnc,
    Icc,
    DropImage,
    DropStream,
    DropCodec,
    Nulls,
}

struct World {
    img: Img,
    cfg: Cfg,
    bytes: Vec<u8>,
    codecs: Vec<(Codec, bool)>,
    streams: Vec<(*mut opj_stream_t, Box<Dev>, Way, bool)>,
    dead_streams: Vec<(Box<Dev>, Way)>,
    images: Vec<*mut opj_image_t>,
    tile: (u32, u32),
    calls: u64,
    next_tile: u32,
}

impl World {
    fn codec(&self) -> *mut opj_codec_t {
        if self.codecs.is_empty() {
            return std::ptr::null_mut();
        }
        let k = self.codecs.len() - 1 - small("which", self.codecs.len() as u64 - 1) as usize;
        self.codecs[k].0.p
    }
    fn stream(&self) -> *mut opj_stream_t {
        if self.streams.is_empty() {
            return std::ptr::null_mut();
        }
        let k = self.streams.len() - 1 - small("which", self.streams.len() as u64 - 1) as usize;
        self.streams[k].0
    }
    fn image(&self) -> *mut opj_image_t {
        if self.images.is_empty() {
            return std::ptr::null_mut();
        }
        let k = self.images.len() - 1 - small("which", self.images.len() as u64 - 1) as usize;
        self.images[k]
    }
    fn step(&mut self, s: S) {
        self.calls += 1;
        let (k, st, im) = (self.codec(), self.stream(), self.image());
        let r: i64 = match s {
            S::NewCodec(enc) => {
                let c = Codec::new(enc, self.cfg.jp2);
                let ok = !c.null();
                if ok {
                    self.codecs.push((c, enc));
                }
                ok as i64
            }
            S::Stream(input) => {
                let w = if chance("which", 1, 3) { Way::draw() } else { Way::plain() };
                let mut d = Box::new(Dev::new(if input { self.bytes.clone() } else { vec![] }));
                if chance("fault", 1, 4) {
                    d.plans.push(Plan {
                        op: *pick("fault", &[Op::Read, Op::Write, Op::Seek, Op::Skip, Op::Open]),
                        at: small("fault", 40),
                        times: if chance("fault", 1, 2) { 1 } else { u64::MAX },
                        fault: Fault::Err,
                    });
                }
                if input && chance("fault", 1, 6) {
                    d.ends = below("fault", d.data.len() as u64 + 1);
                }
                let p = io::open(&mut *d, &w, input);
                if p.is_null() {
                    self.dead_streams.push((d, w));
                    0
                } else {
                    self.streams.push((p, d, w, input));
                    1
                }
            }
            S::SetupDec => {
                let mut p = Box::new(opj_dparameters_t::default());
                p.cp_reduce = if chance("which", 1, 4) { range("which", 1, 3) as u32 } else { 0 };
                call("opj_setup_decoder", || unsafe { opj_setup_decoder(k, &mut *p) }) as i64
            }
            S::Strict => {
                let v = below("which", 2) as i32;
                call("opj_decoder_set_strict_mode", || unsafe { opj_decoder_set_strict_mode(k, v) }) as i64
            }
            S::Header => {
                let mut out: *mut opj_image_t = std::ptr::null_mut();
                let r = call("opj_read_header", || unsafe { opj_read_header(st, k, &mut out) });
                if !out.is_null() {
                    self.images.push(out);
                }
                r as i64
            }
            S::Area => {
                let v: Vec<i32> = if chance("which", 1, 4) {
                    vec![0, 0, 0, 0]
                } else {
                    vec![
                        self.img.x0 as i32 + small("which", 20) as i32,
                        self.img.y0 as i32 + small("which", 20) as i32,
                        self.img.x1 as i32 - small("which", 10) as i32,
                        self.img.y1 as i32 - small("which", 10) as i32,
                    ]
                };
                call("opj_set_decode_area", || unsafe { opj_set_decode_area(k, im, v[0], v[1], v[2], v[3]) }) as i64
            }
            S::Comps => {
                let n = below("which", 3) as u32;
                let v: Vec<u32> = (0..n).map(|_| below("which", 4) as u32).collect();
                call("opj_set_decoded_components", || unsafe { opj_set_decoded_components(k, n, v.as_ptr(), 0) }) as i64
            }
            S::Factor => {
                let f = below("which", 4) as u32;
                call("opj_set_decoded_resolution_factor", || unsafe { opj_set_decoded_resolution_factor(k, f) }) as i64
            }
            S::Decode => call("opj_decode", || unsafe { opj_decode(k, st, im) }) as i64,
            S::EndDec => call("opj_end_decompress", || unsafe { opj_end_decompress(k, st) }) as i64,
            S::TileHeader => {
                let (mut t, mut n, mut x0, mut y0, mut x1, mut y1, mut nc, mut go) =
                    (0u32, 0u32, 0i32, 0i32, 0i32, 0i32, 0u32, 0i32);
                let r = call("opj_read_tile_header", || unsafe {
                    opj_read_tile_header(k, st, &mut t, &mut n, &mut x0, &mut y0, &mut x1, &mut y1, &mut nc, &mut go)
                });
                if r != 0 && go != 0 {
                    self.tile = (t, n);
                }
                r as i64
            }
            S::TileData => {
                let n = if chance("which", 1, 5) { self.tile.1 / 2 } else { self.tile.1 }.min(32 << 20);
                let t = if chance("which", 1, 5) { self.tile.0 + 1 } else { self.tile.0 };
                let p = {
                    let _g = mem::enter();
                    unsafe { mem::malloc(n.max(1) as usize) as *mut u8 }
                };
                if p.is_null() {
                    return;
                }
                let r = call("opj_decode_tile_data", || unsafe { opj_decode_tile_data(k, t, p, n, st) });
                unsafe { mem::free(p as *mut c_void) };
                r as i64
            }
            S::GetTile => {
                let t = small("which", 6) as u32;
                call("opj_get_decoded_tile", || unsafe { opj_get_decoded_tile(k, st, im, t) }) as i64
            }
            S::Info => {
                if k.is_null() {
                    return;
                }
                unsafe {
                    let mut i = call("opj_get_cstr_info", || opj_get_cstr_info(k));
                    let mut x = call("opj_get_cstr_index", || opj_get_cstr_index(k));
                    call("opj_destroy_cstr_info", || opj_destroy_cstr_info(&mut i));
                    call("opj_destroy_cstr_index", || opj_destroy_cstr_index(&mut x));
                }
                1
            }
            S::Image => {
                let p = to_native(&self.img);
                if !p.is_null() {
                    self.images.push(p);
                }
                !p.is_null() as i64
            }
            S::SetupEnc => {
                if im.is_null() || unsafe { (*im).numcomps as usize } != self.img.comps.len() {
                    return;
                }
                let mut p = params(&self.cfg, &self.img);
                let r = call("opj_setup_encoder", || unsafe { opj_setup_encoder(k, &mut *p, im) });
                self.next_tile = 0;
                r as i64
            }
            S::Options => {
                let o = std::ffi::CString::new(*pick("which", &["PLT=YES", "TLM=YES", "GUARD_BITS=3", "GUARD_BITS=99", "BAD=1", "PLT=MAYBE"])).unwrap();
                let v = [o.as_ptr(), std::ptr::null()];
                call("opj_encoder_set_extra_options", || unsafe { opj_encoder_set_extra_options(k, v.as_ptr()) }) as i64
            }
            S::Start => call("opj_start_compress", || unsafe { opj_start_compress(k, im, st) }) as i64,
            S::Encode => call("opj_encode", || unsafe { opj_encode(k, st) }) as i64,
            S::WriteTile => {
                let (tw, th) = self.cfg.tiles(&self.img);
                let t = if chance("which", 1, 4) { small("which", 8) as u32 } else { self.next_tile };
                let b = tile_bytes(&self.cfg, &self.img, t.min(tw * th - 1));
                let n = if chance("which", 1, 5) { b.len() / 2 } else { b.len() };
                let p = {
                    let _g = mem::enter();
                    unsafe { mem::malloc(n.max(1)) as *mut u8 }
                };
                unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) };
                let r = call("opj_write_tile", || unsafe { opj_write_tile(k, t, p, n as u32, st) });
                unsafe { mem::free(p as *mut c_void) };
                if r != 0 {
                    self.next_tile += 1;
                }
                r as i64
            }
            S::EndEnc => call("opj_end_compress", || unsafe { opj_end_compress(k, st) }) as i64,
            S::Icc => {
                if im.is_null() {
                    return;
                }
                let v = vec![7u8; small("which", 200) as usize];
                call("copy_icc_profile", || unsafe { (*im).copy_icc_profile(&v) }) as i64
            }
            S::DropImage => {
                if self.images.is_empty() {
                    return;
                }
                let k = below("which", self.images.len() as u64) as usize;
                image_destroy(self.images.remove(k));
                1
            }
            S::DropStream => {
                if self.streams.is_empty() {
                    return;
                }
                let k = below("which", self.streams.len() as u64) as usize;
                let (p, d, w, _) = self.streams.remove(k);
                io::close_stream(p);
                self.dead_streams.push((d, w));
                1
            }
            S::DropCodec => {
                if self.codecs.is_empty() {
                    return;
                }
                let k = below("which", self.codecs.len() as u64) as usize;
                self.codecs.remove(k).0.destroy();
                1
            }
            S::Nulls => {
                call("destroying null", || unsafe {
                    opj_destroy_codec(std::ptr::null_mut());
                    opj_stream_destroy(std::ptr::null_mut());
                    opj_image_destroy(std::ptr::null_mut());
                    let mut i: *mut opj_codestream_info_v2_t = std::ptr::null_mut();
                    opj_destroy_cstr_info(&mut i);
                    let mut i: *mut opj_codestream_index_t = std::ptr::null_mut();
                    opj_destroy_cstr_index(&mut i);
                });
                1
            }
        };
        ev!("{s:?} -> {r}");
        fp(simcore::hash_str(&format!("{s:?}{r}")));
        // what the application holds has to be still there
        for p in &self.images {
            if !mem::owns(*p as *const u8, std::mem::size_of::<opj_image_t>()) {
                fatal("released-early", format!("{s:?} released an image that belongs to the application"));
            }
        }
        for (_, d, w, _) in &self.streams {
            if !w.file && d.freed != 0 {
                fatal("released-early", format!("{s:?} released the user data of a stream that is still in use"));
            }
        }
    }
}

fn script() -> Vec<S> {
    let dec = [S::NewCodec(false), S::Stream(true), S::SetupDec, S::Strict, S::Header];
    let mut v: Vec<S> = match below("script", 6) {
        0 => {
            let mut v = dec.to_vec();
            v.extend([S::Decode, S::EndDec]);
            v
        }
        1 => {
            let mut v = dec.to_vec();
            v.extend([S::Area, S::Decode, S::Area, S::Decode, S::EndDec]);
            v
        }
        2 => {
            let mut v = dec.to_vec();
            v.extend([S::GetTile, S::GetTile, S::GetTile, S::EndDec]);
            v
        }
        3 => {
            let mut v = dec.to_vec();
            v.extend([S::TileHeader, S::TileData, S::TileHeader, S::TileData, S::EndDec]);
            v
        }
        4 => vec![S::Image, S::NewCodec(true), S::SetupEnc, S::Stream(false), S::Start, S::Encode, S::EndEnc],
        _ => vec![
            S::Image,
            S::NewCodec(true),
            S::SetupEnc,
            S::Options,
            S::Stream(false),
            S::Start,
            S::WriteTile,
            S::WriteTile,
            S::WriteTile,
            S::EndEnc,
        ],
    };
    const EXTRA: [S; 26] = [
        S::Info,
        S::Comps,
        S::Factor,
        S::Area,
        S::Strict,
        S::Header,
        S::Decode,
        S::GetTile,
        S::TileHeader,
        S::TileData,
        S::EndDec,
        S::SetupDec,
        S::DropImage,
        S::DropStream,
        S::DropCodec,
        S::Nulls,
        S::Icc,
        S::Options,
        S::SetupEnc,
        S::Start,
        S::Encode,
        S::WriteTile,
        S::EndEnc,
        S::Image,
        S::Stream(true),
        S::Stream(false),
    ];
    for _ in 0..small("script", 8) {
        let n = v.len() as u64;
        if n == 0 {
            break;
        }
        let p = below("script", n) as usize;
        match below("script", 5) {
            0 => {
                v.remove(p);
            }
            1 => v.insert(p, v[p]),
            2 => {
                let q = below("script", n) as usize;
                v.swap(p, q)
            }
            3 => v.truncate(p.max(1)),
            _ => v.insert(p + 1, *pick("script", &EXTRA)),
        }
    }
    v
}

pub fn run() {
    let mut wn = Want { max_side: 32, max_comps: 4, lossless: false, multi_tile: chance("img", 1, 2), plain: false };
    wn.plain = chance("img", 1, 2);
    let (img, cfg) = gen(wn);
    ctx().sample = format!("{}x{} {}", img.x1 - img.x0, img.y1 - img.y0, cfg.short());
    let e = sched::alone(|| encode_plain(&img, &cfg));
    if !e.ok() {
        return;
    }
    let mut bytes = e.bytes;
    let mut cfg = cfg;
    if chance("order", 1, 2) {
        if let Some(mut cs) = boxes::codestream(&bytes) {
            if chance("order", 2, 3) {
                cs = forms::other(&cs, &img, &cfg).unwrap_or(cs);
            }
            cfg.jp2 = chance("order", 1, 2);
            bytes = if cfg.jp2 { boxes::wrap(&cs, &img) } else { cs };
        }
    }
    if chance("dmg", 1, 4) {
        mem::heap().limit = 48 << 20;
        boxes::damage(&mut bytes, &[]);
    }
    let mut w = World {
        img,
        cfg,
        bytes,
        codecs: vec![],
        streams: vec![],
        dead_streams: vec![],
        images: vec![],
        tile: (0, 0),
        calls: 0,
        next_tile: 0,
    };
    let mut steps = Vec::new();
    for _ in 0..range("script", 1, 2) {
        steps.extend(script());
    }
    sched::alone(|| {
        for s in steps {
            w.step(s);
        }
        // cleaning up, in any order
        loop {
            let mut left = Vec::new();
            if !w.codecs.is_empty() {
                left.push(S::DropCodec);
            }
            if !w.streams.is_empty() {
                left.push(S::DropStream);
            }
            if !w.images.is_empty() {
                left.push(S::DropImage);
            }
            if left.is_empty() {
                break;
            }
            let s = *pick("which", &left);
            w.step(s);
        }
    });
    if w.calls > 3 {
        nontrivial();
    }
    count("sequences");
    let (d, live) = mem::audit();
    if let Some(d) = d {
        fatal("memory", d);
    }
    if !live.is_empty() {
        let n: usize = live.iter().map(|x| x.1).sum();
        violate(
            "leak",
            format!(
                "{} allocations ({n} bytes; {} of Rust) still there after everything was destroyed; first: #{} of {} bytes",
                live.len(),
                live.iter().filter(|x| x.2 == Kind::Rust).count(),
                live[0].0,
                live[0].1
            ),
        );
    }
    for (d, w) in &w.dead_streams {
        if w.file {
            if d.opened != d.closed {
                violate("not-closed", format!("a file was opened {} times and closed {} times", d.opened, d.closed));
            }
        } else if d.freed != 1 {
            violate("user-data", format!("the destructor of a stream's user data ran {} times", d.freed));
        }
    }
}
