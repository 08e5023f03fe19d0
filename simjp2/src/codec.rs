//! Calls into the codec, each guarded: panics end the run as a violation, messages are recorded.
use crate::img::*;
use crate::io::{self, Dev, Way};
use crate::mem;
use openjp2::image::*;
use openjp2::openjpeg::*;
use simcore::{ev, violate};
use std::ffi::{c_char, c_void, CStr, CString};

static mut DOING: &str = "nothing";
pub fn doing() -> &'static str {
    unsafe { DOING }
}
thread_local! {
    static WHAT: std::cell::Cell<&'static str> = const { std::cell::Cell::new("nothing") };
}

/// Reports a violation that leaves the codec in no state to go on from, and ends the run.
pub fn fatal(class: &str, detail: String) -> ! {
    let _g = mem::leave();
    violate(class, detail);
    simcore::runner::finish_now()
}

/// One call into the codec.
pub fn call<T>(name: &'static str, f: impl FnOnce() -> T) -> T {
    unsafe { DOING = name };
    simcore::runner::note(name);
    let r = {
        let _g = mem::enter();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    match r {
        Ok(v) => {
            if let Some(d) = mem::defect_text() {
                fatal("memory", format!("{d}; during or before {name}"));
            }
            v
        }
        Err(_) => {
            let n = simcore::runner::panic_note();
            fatal("panic", format!("{name}: {n}"))
        }
    }
}

#[derive(Default)]
pub struct Msgs {
    pub v: Vec<(char, String)>,
    pub quiet: bool,
}
unsafe fn push(kind: char, m: *const c_char, p: *mut c_void) {
    let _g = mem::leave();
    crate::sched::io_point();
    let ms = &mut *(p as *mut Msgs);
    let s = CStr::from_ptr(m).to_string_lossy().trim_end().to_string();
    if kind == 'E' && !ms.quiet {
        ev!("message: {s}");
    }
    if ms.v.len() < 2000 {
        ms.v.push((kind, s));
    }
}
unsafe extern "C" fn on_info(m: *const c_char, p: *mut c_void) {
    push('I', m, p)
}
unsafe extern "C" fn on_warn(m: *const c_char, p: *mut c_void) {
    push('W', m, p)
}
unsafe extern "C" fn on_err(m: *const c_char, p: *mut c_void) {
    push('E', m, p)
}

pub struct Codec {
    pub p: *mut opj_codec_t,
    pub msgs: Box<Msgs>,
}
impl Codec {
    pub fn new(encode: bool, jp2: bool) -> Codec {
        let f = if jp2 { OPJ_CODEC_FORMAT::OPJ_CODEC_JP2 } else { OPJ_CODEC_FORMAT::OPJ_CODEC_J2K };
        let p = if encode {
            call("opj_create_compress", || unsafe { opj_create_compress(f) })
        } else {
            call("opj_create_decompress", || unsafe { opj_create_decompress(f) })
        };
        let mut msgs = Box::new(Msgs::default());
        if !p.is_null() {
            let d = &mut *msgs as *mut Msgs as *mut c_void;
            unsafe {
                opj_set_info_handler(p, Some(on_info), d);
                opj_set_warning_handler(p, Some(on_warn), d);
                opj_set_error_handler(p, Some(on_err), d);
            }
        }
        Codec { p, msgs }
    }
    pub fn null(&self) -> bool {
        self.p.is_null()
    }
    pub fn destroy(self) -> Vec<(char, String)> {
        call("opj_destroy_codec", || unsafe { opj_destroy_codec(self.p) });
        self.msgs.v
    }
    pub fn errors(&self) -> usize {
        self.msgs.v.iter().filter(|m| m.0 == 'E').count()
    }
}

pub fn image_destroy(p: *mut opj_image_t) {
    call("opj_image_destroy", || unsafe { opj_image_destroy(p) });
}

// ---- encoding

pub fn params(c: &Cfg, i: &Img) -> Box<opj_cparameters_t> {
    let mut p = Box::new(opj_cparameters_t::default());
    if let Some((tx, ty, w, h)) = c.tile {
        p.tile_size_on = 1;
        p.cp_tx0 = tx as i32;
        p.cp_ty0 = ty as i32;
        p.cp_tdx = w as i32;
        p.cp_tdy = h as i32;
    }
    p.numresolution = c.numres;
    p.cblockw_init = c.cblk.0;
    p.cblockh_init = c.cblk.1;
    p.mode = c.mode;
    p.csty = c.csty;
    p.res_spec = c.prec.len() as i32;
    for (k, (a, b)) in c.prec.iter().enumerate() {
        p.prcw_init[k] = *a;
        p.prch_init[k] = *b;
    }
    p.prog_order = c.prog;
    p.tcp_numlayers = c.rates.len() as i32;
    for (k, r) in c.rates.iter().enumerate() {
        if c.quality {
            p.tcp_distoratio[k] = *r;
        } else {
            p.tcp_rates[k] = *r;
        }
    }
    if c.quality {
        p.cp_fixed_quality = 1;
    } else {
        p.cp_disto_alloc = 1;
    }
    p.irreversible = c.irreversible as i32;
    p.tcp_mct = c.mct as c_char;
    if let Some((a, b)) = c.roi {
        p.roi_compno = a;
        p.roi_shift = b;
    }
    if let Some(t) = c.tp {
        p.tp_on = 1;
        p.tp_flag = t as c_char;
    }
    let tiles = c.tiles(i);
    let mut n = 0;
    if tiles == (1, 1) {
        for q in &c.pocs {
            let x = &mut p.POC[n];
            x.tile = 1;
            x.resno0 = q.res0;
            x.resno1 = q.res1;
            x.compno0 = q.comp0;
            x.compno1 = q.comp1;
            x.layno1 = q.lay1;
            x.prg1 = q.prg;
            n += 1;
        }
    }
    p.numpocs = n as u32;
    p
}

#[derive(Clone, Debug, PartialEq)]
pub struct Enc {
    /// Results of create, setup, options, start, encode, end: None when not reached.
    pub setup: bool,
    pub steps: Vec<(&'static str, bool)>,
    pub bytes: Vec<u8>,
    pub msgs: Vec<(char, String)>,
}
impl Enc {
    pub fn ok(&self) -> bool {
        self.steps.iter().all(|s| s.1)
    }
}

pub enum Feed<'a> {
    Whole,
    /// Tiles handed over one at a time, in this order.
    Tiles(&'a [u32]),
}

/// Creates and sets up an encoder; None when that is refused.
pub fn encoder(c: &Cfg, i: &Img, im: *mut opj_image_t) -> (Codec, bool) {
    let k = Codec::new(true, c.jp2);
    if k.null() {
        return (k, false);
    }
    let mut p = params(c, i);
    let comment = c.comment.as_ref().map(|s| CString::new(s.as_str()).unwrap());
    if let Some(s) = &comment {
        p.cp_comment = s.as_ptr() as *mut c_char;
    }
    if let Some((m, d)) = &c.custom_mct {
        let (mut m, mut d) = (m.clone(), d.clone());
        let r = call("opj_set_MCT", || unsafe { opj_set_MCT(&mut *p, m.as_mut_ptr(), d.as_mut_ptr(), d.len() as u32) });
        if r == 0 {
            return (k, false);
        }
    }
    let r = call("opj_setup_encoder", || unsafe { opj_setup_encoder(k.p, &mut *p, im) });
    if !p.mct_data.is_null() {
        call("release of mct_data", || unsafe { crate::mem::free(p.mct_data) });
    }
    if r == 0 {
        return (k, false);
    }
    let mut opts: Vec<CString> = Vec::new();
    if c.plt {
        opts.push(CString::new("PLT=YES").unwrap());
    }
    if c.tlm {
        opts.push(CString::new("TLM=YES").unwrap());
    }
    if let Some(g) = c.guard_bits {
        opts.push(CString::new(format!("GUARD_BITS={g}")).unwrap());
    }
    let mut o: Vec<*const c_char> = opts.iter().map(|s| s.as_ptr()).collect();
    o.push(std::ptr::null());
    let r = call("opj_encoder_set_extra_options", || unsafe { opj_encoder_set_extra_options(k.p, o.as_ptr()) });
    (k, r != 0)
}

pub fn tile_bytes(c: &Cfg, i: &Img, t: u32) -> Vec<u8> {
    let (x0, y0, x1, y1) = c.tile_rect(i, t);
    let mut out = Vec::new();
    for k in &i.comps {
        let (a0, b0, a1, b1) = (cdiv(x0, k.dx), cdiv(y0, k.dy), cdiv(x1, k.dx), cdiv(y1, k.dy));
        let d = k.data.as_ref().unwrap();
        let size = if k.prec <= 8 {
            1
        } else if k.prec <= 16 {
            2
        } else {
            4
        };
        for y in b0..b1 {
            for x in a0..a1 {
                let v = d[((y - k.y0) * k.w + (x - k.x0)) as usize];
                out.extend_from_slice(&v.to_ne_bytes()[..size]);
            }
        }
    }
    out
}

/// Encodes to the device the given way. Everything is released before it returns.
pub fn encode(i: &Img, c: &Cfg, d: *mut Dev, w: &Way, feed: Feed) -> Enc {
    let mut e = Enc { setup: false, steps: vec![], bytes: vec![], msgs: vec![] };
    let im = to_native(i);
    if im.is_null() {
        e.steps.push(("image", false));
        return e;
    }
    let (k, ok) = encoder(c, i, im);
    e.steps.push(("setup", ok));
    e.setup = ok;
    if ok {
        let s = io::open(d, w, false);
        e.steps.push(("open", !s.is_null()));
        if !s.is_null() {
            let r = call("opj_start_compress", || unsafe { opj_start_compress(k.p, im, s) }) != 0;
            e.steps.push(("start", r));
            if r {
                let mut good = true;
                match feed {
                    Feed::Whole => {
                        good = call("opj_encode", || unsafe { opj_encode(k.p, s) }) != 0;
                        e.steps.push(("encode", good));
                    }
                    Feed::Tiles(order) => {
                        for t in order {
                            let mut b = tile_bytes(c, i, *t);
                            good = call("opj_write_tile", || unsafe {
                                opj_write_tile(k.p, *t, b.as_mut_ptr(), b.len() as u32, s)
                            }) != 0;
                            e.steps.push(("write_tile", good));
                            if !good {
                                break;
                            }
                        }
                    }
                }
                if good {
                    let r = call("opj_end_compress", || unsafe { opj_end_compress(k.p, s) }) != 0;
                    e.steps.push(("end", r));
                }
            }
            io::close_stream(s);
        }
    }
    e.msgs = k.destroy();
    image_destroy(im);
    e.bytes = unsafe { (*d).data.clone() };
    e
}

/// Encodes plainly into memory.
pub fn encode_plain(i: &Img, c: &Cfg) -> Enc {
    let mut d = Box::new(Dev::new(Vec::new()));
    encode(i, c, &mut *d, &Way::plain(), Feed::Whole)
}

// ---- decoding

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Whole,
    Area(i32, i32, i32, i32),
    /// opj_get_decoded_tile for each of these in turn.
    Tiles(Vec<u32>),
    /// opj_read_tile_header / opj_decode_tile_data until there are no more.
    TileData,
    /// Areas one after the other on the same codec.
    Areas(Vec<(i32, i32, i32, i32)>),
    /// Header only.
    Header,
}

#[derive(Clone, Debug)]
pub struct Ask {
    pub jp2: bool,
    pub strict: bool,
    pub reduce: u32,
    pub layers: u32,
    pub comps: Option<Vec<u32>>,
    pub part: Part,
    pub flags: u32,
    /// Factor set by opj_set_decoded_resolution_factor after the header.
    pub factor: Option<u32>,
    pub info: bool,
}
impl Ask {
    pub fn whole(jp2: bool) -> Ask {
        Ask {
            jp2,
            strict: true,
            reduce: 0,
            layers: 0,
            comps: None,
            part: Part::Whole,
            flags: 0,
            factor: None,
            info: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tile {
    pub index: u32,
    pub rect: (i32, i32, i32, i32),
    pub comps: u32,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub steps: Vec<(&'static str, bool)>,
    pub header: Option<Img>,
    /// One per part decoded.
    pub images: Vec<Img>,
    pub tiles: Vec<Tile>,
    pub info: String,
    pub msgs: Vec<(char, String)>,
}
impl Dec {
    pub fn ok(&self) -> bool {
        self.steps.iter().all(|s| s.1)
    }
    pub fn image(&self) -> Option<&Img> {
        if self.ok() {
            self.images.last()
        } else {
            None
        }
    }
    pub fn failed_at(&self) -> &'static str {
        self.steps.iter().find(|s| !s.1).map(|s| s.0).unwrap_or("")
    }
    /// What the caller sees, without messages.
    pub fn same(&self, o: &Dec) -> Option<String> {
        if self.steps != o.steps {
            return Some(format!("steps {:?} instead of {:?}", o.steps, self.steps));
        }
        if let (Some(a), Some(b)) = (&self.header, &o.header) {
            if let Some(d) = diff(a, b) {
                return Some(format!("header: {d}"));
            }
        }
        if self.images.len() != o.images.len() {
            return Some(format!("{} images instead of {}", o.images.len(), self.images.len()));
        }
        for (k, (a, b)) in self.images.iter().zip(&o.images).enumerate() {
            if let Some(d) = diff(a, b) {
                return Some(format!("image {k}: {d}"));
            }
        }
        if self.tiles != o.tiles {
            let k = self.tiles.iter().zip(&o.tiles).position(|(a, b)| a != b);
            return Some(format!("tile data differ (at {k:?}, {} instead of {})", o.tiles.len(), self.tiles.len()));
        }
        if self.info != o.info {
            return Some(format!("codestream information differs: {} instead of {}", o.info, self.info));
        }
        None
    }
}

fn take(p: *mut opj_image_t) -> Img {
    match from_native(p) {
        Ok(i) => i,
        Err(e) => fatal("inconsistent-image", e),
    }
}

pub fn decode(a: &Ask, d: *mut Dev, w: &Way) -> Dec {
    let mut o = Dec { steps: vec![], header: None, images: vec![], tiles: vec![], info: String::new(), msgs: vec![] };
    let s = io::open(d, w, true);
    o.steps.push(("open", !s.is_null()));
    if s.is_null() {
        return o;
    }
    let k = Codec::new(false, a.jp2);
    o.steps.push(("create", !k.null()));
    if !k.null() {
        let mut im: *mut opj_image_t = std::ptr::null_mut();
        decode_on(a, &k, s, &mut im, &mut o);
        if !im.is_null() {
            image_destroy(im);
        }
        o.msgs = k.destroy();
    }
    io::close_stream(s);
    o
}

fn decode_on(a: &Ask, k: &Codec, s: *mut opj_stream_t, im: &mut *mut opj_image_t, o: &mut Dec) {
    let mut p = Box::new(opj_dparameters_t::default());
    p.cp_reduce = a.reduce;
    p.cp_layer = a.layers;
    p.flags = a.flags;
    let r = call("opj_setup_decoder", || unsafe { opj_setup_decoder(k.p, &mut *p) }) != 0;
    o.steps.push(("setup", r));
    if !r {
        return;
    }
    call("opj_decoder_set_strict_mode", || unsafe { opj_decoder_set_strict_mode(k.p, a.strict as i32) });
    let r = call("opj_read_header", || unsafe { opj_read_header(s, k.p, im) }) != 0;
    o.steps.push(("header", r));
    if !r {
        if !im.is_null() && !mem::owns(*im as *const u8, std::mem::size_of::<opj_image_t>()) {
            fatal("inconsistent-image", "a failed opj_read_header left a pointer to released memory".into());
        }
        return;
    }
    if im.is_null() {
        fatal("inconsistent-image", "opj_read_header succeeded without an image".into());
    }
    o.header = Some(take(*im));
    if a.info {
        o.info = info(k);
    }
    if let Some(f) = a.factor {
        let r = call("opj_set_decoded_resolution_factor", || unsafe { opj_set_decoded_resolution_factor(k.p, f) }) != 0;
        o.steps.push(("factor", r));
        if !r {
            return;
        }
    }
    if let Some(c) = &a.comps {
        let r = call("opj_set_decoded_components", || unsafe {
            opj_set_decoded_components(k.p, c.len() as u32, c.as_ptr(), 0)
        }) != 0;
        o.steps.push(("components", r));
        if !r {
            return;
        }
    }
    match &a.part {
        Part::Header => {}
        Part::Whole | Part::Area(..) => {
            let q = if let Part::Area(x0, y0, x1, y1) = a.part { (x0, y0, x1, y1) } else { (0, 0, 0, 0) };
            if !area_step(a, k, s, *im, q, o) {
                return;
            }
            let r = call("opj_end_decompress", || unsafe { opj_end_decompress(k.p, s) }) != 0;
            o.steps.push(("end", r));
        }
        Part::Areas(v) => {
            for q in v {
                if !area_step(a, k, s, *im, *q, o) {
                    return;
                }
            }
            let r = call("opj_end_decompress", || unsafe { opj_end_decompress(k.p, s) }) != 0;
            o.steps.push(("end", r));
        }
        Part::Tiles(v) => {
            for t in v {
                let r = call("opj_get_decoded_tile", || unsafe { opj_get_decoded_tile(k.p, s, *im, *t) }) != 0;
                o.steps.push(("tile", r));
                if !r {
                    return;
                }
                o.images.push(take(*im));
            }
        }
        Part::TileData => loop {
            let (mut t, mut n, mut x0, mut y0, mut x1, mut y1, mut nc, mut go) =
                (0u32, 0u32, 0i32, 0i32, 0i32, 0i32, 0u32, 0i32);
            let r = call("opj_read_tile_header", || unsafe {
                opj_read_tile_header(k.p, s, &mut t, &mut n, &mut x0, &mut y0, &mut x1, &mut y1, &mut nc, &mut go)
            }) != 0;
            o.steps.push(("tile_header", r));
            if !r || go == 0 {
                if r {
                    let r = call("opj_end_decompress", || unsafe { opj_end_decompress(k.p, s) }) != 0;
                    o.steps.push(("end", r));
                }
                return;
            }
            if o.tiles.len() > 70000 {
                fatal("hang", "opj_read_tile_header keeps announcing tiles".into());
            }
            if n as usize > 64 << 20 {
                // more than the caller of this run has memory for
                o.steps.push(("tile_data", false));
                return;
            }
            // the caller's buffer, guarded by the simulated heap
            let b = {
                let _g = mem::enter();
                unsafe { mem::malloc((n as usize).max(1)) as *mut u8 }
            };
            if b.is_null() {
                o.steps.push(("tile_data", false));
                return;
            }
            unsafe { std::ptr::write_bytes(b, 0x5E, n as usize) };
            let r = call("opj_decode_tile_data", || unsafe { opj_decode_tile_data(k.p, t, b, n, s) }) != 0;
            o.steps.push(("tile_data", r));
            let v = unsafe { std::slice::from_raw_parts(b, n as usize) }.to_vec();
            unsafe { mem::free(b as *mut c_void) };
            if !r {
                return;
            }
            o.tiles.push(Tile { index: t, rect: (x0, y0, x1, y1), comps: nc, data: v });
        },
    }
}

fn area_step(a: &Ask, k: &Codec, s: *mut opj_stream_t, im: *mut opj_image_t, q: (i32, i32, i32, i32), o: &mut Dec) -> bool {
    if a.part != Part::Whole {
        let r = call("opj_set_decode_area", || unsafe { opj_set_decode_area(k.p, im, q.0, q.1, q.2, q.3) }) != 0;
        o.steps.push(("area", r));
        if !r {
            return false;
        }
    }
    let r = call("opj_decode", || unsafe { opj_decode(k.p, s, im) }) != 0;
    o.steps.push(("decode", r));
    if r {
        o.images.push(take(im));
    }
    r
}

/// Codestream information and index as text.
pub fn info(k: &Codec) -> String {
    let mut s = String::new();
    unsafe {
        let mut i = call("opj_get_cstr_info", || opj_get_cstr_info(k.p));
        if !i.is_null() {
            let x = &*i;
            s += &format!("tiles {}x{} of {}x{} at {},{}, {} comps", x.tw, x.th, x.tdx, x.tdy, x.tx0, x.ty0, x.nbcomps);
            let t = &x.m_default_tile_info;
            s += &format!("; csty {} prg {} layers {} mct {}", t.csty, t.prg, t.numlayers, t.mct);
            if !t.tccp_info.is_null() {
                for c in 0..x.nbcomps as usize {
                    let q = &*t.tccp_info.add(c);
                    s += &format!(
                        "; {}: {} {} {}x{} {} {} {} {} {}",
                        q.compno,
                        q.csty,
                        q.numresolutions,
                        q.cblkw,
                        q.cblkh,
                        q.cblksty,
                        q.qmfbid,
                        q.qntsty,
                        q.numgbits,
                        q.roishift
                    );
                }
            }
            call("opj_destroy_cstr_info", || opj_destroy_cstr_info(&mut i));
        }
        let mut x = call("opj_get_cstr_index", || opj_get_cstr_index(k.p));
        if !x.is_null() {
            let q = &*x;
            s += &format!(
                "; index head {}..{} size {} marks {} tiles {}",
                q.main_head_start, q.main_head_end, q.codestream_size, q.marknum, q.nb_of_tiles
            );
            call("opj_destroy_cstr_index", || opj_destroy_cstr_index(&mut x));
        }
    }
    s
}

/// Decodes the bytes plainly.
pub fn decode_plain(a: &Ask, bytes: &[u8]) -> Dec {
    let mut d = Box::new(Dev::new(bytes.to_vec()));
    decode(a, &mut *d, &Way::plain())
}
