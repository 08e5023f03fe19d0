//! Images, coding parameters and their generators.
use openjp2::image::*;
use openjp2::openjpeg::*;
use simcore::{below, chance, count, range, weighted, Rng};

#[derive(Clone, PartialEq, Debug)]
pub struct Comp {
    pub dx: u32,
    pub dy: u32,
    pub w: u32,
    pub h: u32,
    pub x0: u32,
    pub y0: u32,
    pub prec: u32,
    pub sgnd: u32,
    pub alpha: u16,
    pub factor: u32,
    /// None: the component carries no samples.
    pub data: Option<Vec<i32>>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Img {
    pub x0: u32,
    pub y0: u32,
    pub x1: u32,
    pub y1: u32,
    pub color: i32,
    pub icc: Option<Vec<u8>>,
    pub comps: Vec<Comp>,
}

pub fn cdiv(a: u32, b: u32) -> u32 {
    ((a as u64 + b as u64 - 1) / b as u64) as u32
}
pub fn cshr(a: u32, n: u32) -> u32 {
    ((a as u64 + (1u64 << n) - 1) >> n) as u32
}

#[derive(Clone, Debug, PartialEq)]
pub struct Poc {
    pub res0: u32,
    pub res1: u32,
    pub comp0: u32,
    pub comp1: u32,
    pub lay1: u32,
    pub prg: i32,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub jp2: bool,
    pub tile: Option<(u32, u32, u32, u32)>,
    pub numres: i32,
    pub cblk: (i32, i32),
    pub mode: i32,
    pub csty: i32,
    pub prec: Vec<(i32, i32)>,
    pub prog: i32,
    pub rates: Vec<f32>,
    pub quality: bool,
    pub irreversible: bool,
    pub mct: i8,
    pub roi: Option<(i32, i32)>,
    pub tp: Option<u8>,
    pub pocs: Vec<Poc>,
    pub comment: Option<String>,
    pub plt: bool,
    pub tlm: bool,
    pub guard_bits: Option<u32>,
    pub custom_mct: Option<(Vec<f32>, Vec<i32>)>,
}
impl Cfg {
    pub fn lossless(&self) -> bool {
        !self.irreversible && self.rates.last() == Some(&0.0) && self.custom_mct.is_none()
    }
    pub fn tiles(&self, i: &Img) -> (u32, u32) {
        match self.tile {
            None => (1, 1),
            Some((tx0, ty0, w, h)) => (cdiv(i.x1 - tx0, w), cdiv(i.y1 - ty0, h)),
        }
    }
    /// Area of a tile on the reference grid.
    pub fn tile_rect(&self, i: &Img, t: u32) -> (u32, u32, u32, u32) {
        match self.tile {
            None => (i.x0, i.y0, i.x1, i.y1),
            Some((tx0, ty0, w, h)) => {
                let (tw, _) = self.tiles(i);
                let (p, q) = (t % tw, t / tw);
                (
                    (tx0 + p * w).max(i.x0),
                    (ty0 + q * h).max(i.y0),
                    (tx0 + (p + 1) * w).min(i.x1),
                    (ty0 + (q + 1) * h).min(i.y1),
                )
            }
        }
    }
    pub fn short(&self) -> String {
        format!(
            "{}{} res={} cblk={:?} mode={:#x} csty={:#x} prog={} layers={} mct={}{}{}{}{}{}{}{}{}",
            if self.jp2 { "jp2" } else { "j2k" },
            self.tile.map(|t| format!(" tile={t:?}")).unwrap_or_default(),
            self.numres,
            self.cblk,
            self.mode,
            self.csty,
            self.prog,
            self.rates.len(),
            self.mct,
            if self.irreversible { " 9-7" } else { "" },
            self.roi.map(|r| format!(" roi={r:?}")).unwrap_or_default(),
            self.tp.map(|t| format!(" tp={}", t as char)).unwrap_or_default(),
            if self.pocs.is_empty() { String::new() } else { format!(" poc={}", self.pocs.len()) },
            if self.plt { " PLT" } else { "" },
            if self.tlm { " TLM" } else { "" },
            if self.custom_mct.is_some() { " custom-mct" } else { "" },
            self.guard_bits.map(|g| format!(" guard={g}")).unwrap_or_default(),
        )
    }
}

/// What a scenario asks of the generator.
#[derive(Clone, Copy)]
pub struct Want {
    pub max_side: u32,
    pub max_comps: u32,
    pub lossless: bool,
    pub multi_tile: bool,
    pub plain: bool,
}
impl Want {
    pub fn small() -> Want {
        Want { max_side: 48, max_comps: 4, lossless: true, multi_tile: false, plain: false }
    }
}

fn side(max: u32) -> u32 {
    match weighted("img", &[3, 3, 2, 1]) {
        0 => range("img", 1, 16.min(max as u64)) as u32,
        1 => range("img", 1, max as u64) as u32,
        2 => *simcore::pick("img", &[1, 2, 3, 4, 8, 16, 17, 31, 32, 33]).min(&max),
        _ => max,
    }
}

pub fn gen(w: Want) -> (Img, Cfg) {
    let n = match weighted("img", &[4, 3, 1, 1]) {
        0 => 1,
        1 => 3.min(w.max_comps),
        2 => 2.min(w.max_comps),
        _ => w.max_comps,
    };
    let mut x0 = if chance("img", 1, 3) { below("img", 20) as u32 } else { 0 };
    let mut y0 = if chance("img", 1, 3) { below("img", 20) as u32 } else { 0 };
    if !w.plain && chance("img", 1, 16) {
        // Far from the origin of the reference grid: with it go large tiles and many resolutions.
        let k = range("img", 5, 29);
        let round = chance("img", 1, 2);
        let mut at = || {
            let v = below("img", 1 << k) as u32;
            // Around a multiple of a power of two there are samples in the lowest resolutions.
            if round { (v >> (k - 1) << (k - 1)).saturating_sub(below("img", 8) as u32) } else { v }
        };
        (x0, y0) = (at(), at());
        count("probe.far-offset");
    }
    let (mut iw, mut ih) = (side(w.max_side), side(w.max_side));
    if w.multi_tile {
        iw = iw.max(6);
        ih = ih.max(6);
    }
    let (x1, y1) = (x0 + iw, y0 + ih);
    let same = n < 3 || chance("img", 3, 4);
    let mut comps = Vec::new();
    let p0 = draw_prec();
    let s0 = chance("img", 1, 5) as u32;
    let kind = below("img", 6);
    let data_seed = below("data", 1 << 32);
    for c in 0..n {
        let (dx, dy) = if same || c == 0 {
            (1, 1)
        } else {
            (range("img", 1, 2) as u32, range("img", 1, 2) as u32)
        };
        let (prec, sgnd) = if same && c < 3 { (p0, s0) } else { (draw_prec(), chance("img", 1, 5) as u32) };
        let (cx0, cy0, cx1, cy1) = (cdiv(x0, dx), cdiv(y0, dy), cdiv(x1, dx), cdiv(y1, dy));
        let (cw, ch) = (cx1 - cx0, cy1 - cy0);
        // The encoder needs at least one sample in every component.
        let (dx, dy, cx0, cy0, cw, ch) =
            if cw == 0 || ch == 0 { (1, 1, x0, y0, x1 - x0, y1 - y0) } else { (dx, dy, cx0, cy0, cw, ch) };
        let data = samples(kind, simcore::mix(data_seed + c as u64), cw, ch, prec, sgnd != 0);
        comps.push(Comp {
            dx,
            dy,
            w: cw,
            h: ch,
            x0: cx0,
            y0: cy0,
            prec,
            sgnd,
            alpha: 0,
            factor: 0,
            data: Some(data),
        });
    }
    let mut img = Img { x0, y0, x1, y1, color: if n >= 3 { 1 } else { 2 }, icc: None, comps };
    let cfg = gen_cfg(w, &mut img);
    (img, cfg)
}

fn draw_prec() -> u32 {
    match weighted("img", &[5, 2, 2, 1]) {
        0 => 8,
        1 => range("img", 1, 16) as u32,
        2 => *simcore::pick("img", &[1, 2, 4, 7, 9, 12, 16]),
        _ => range("img", 1, 20) as u32,
    }
}

pub fn samples(kind: u64, seed: u64, w: u32, h: u32, prec: u32, sgnd: bool) -> Vec<i32> {
    let mut r = Rng::new(seed);
    let span = 1i64 << prec;
    let lo = if sgnd { -(span / 2) } else { 0 };
    let mut v = Vec::with_capacity((w * h) as usize);
    let c = r.below(span as u64) as i64;
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let s = match kind {
                0 => (x * 3 + y * 5 + c) % span,
                1 => r.below(span as u64) as i64,
                2 => c,
                3 => {
                    if r.below(10) == 0 {
                        r.below(span as u64) as i64
                    } else {
                        c
                    }
                }
                4 => {
                    if (x / 3 + y / 2) % 2 == 0 {
                        0
                    } else {
                        span - 1
                    }
                }
                _ => ((x * x + y * 7) / 3 + r.below(4) as i64 + c) % span,
            };
            v.push((lo + s) as i32);
        }
    }
    v
}

fn gen_cfg(w: Want, img: &mut Img) -> Cfg {
    let n = img.comps.len();
    let jp2 = chance("cfg", 1, 2);
    let (iw, ih) = (img.x1 - img.x0, img.y1 - img.y0);
    let tile = if w.multi_tile || chance("cfg", 1, 3) {
        let tx0 = if img.x0 > 0 && chance("cfg", 1, 2) { below("cfg", img.x0 as u64 + 1) as u32 } else { 0 };
        let ty0 = if img.y0 > 0 && chance("cfg", 1, 2) { below("cfg", img.y0 as u64 + 1) as u32 } else { 0 };
        // The first tile has to reach into the image.
        let min_w = img.x0 - tx0 + 1;
        let min_h = img.y0 - ty0 + 1;
        let div = if w.multi_tile { range("cfg", 2, 4) as u32 } else { range("cfg", 1, 4) as u32 };
        let tw = (cdiv(iw, div) + below("cfg", 3) as u32).max(min_w).max(3);
        let th = (cdiv(ih, div) + below("cfg", 3) as u32).max(min_h).max(3);
        Some((tx0, ty0, tw, th))
    } else {
        None
    };
    let (tw, th) = match tile {
        Some((_, _, a, b)) => (a, b),
        None => (img.x1, img.y1),
    };
    let fit = 32 - tw.min(th).leading_zeros();
    let numres = if chance("cfg", 1, 6) { 1 } else { range("cfg", 1, fit.clamp(1, if img.x0.min(img.y0) < 20 { 7 } else { 33 }) as u64) as i32 };
    let cblk = match weighted("cfg", &[3, 2, 2]) {
        0 => (64, 64),
        1 => (4, 4),
        _ => {
            let a = range("cfg", 2, 6);
            let b = range("cfg", 2, 6);
            (1 << a, 1 << b)
        }
    };
    let mode = if w.plain || chance("cfg", 1, 2) { 0 } else { below("cfg", 64) as i32 };
    let mut csty = 0;
    let mut prec = Vec::new();
    if !w.plain && chance("cfg", 1, 4) {
        csty |= 1;
        // The last size is halved for the resolutions that follow; only the lowest may have size 1.
        let n = range("cfg", (numres as u64).saturating_sub(8).max(1), numres as u64);
        for k in 0..n {
            let least = if k + 1 < n { 1 } else { (numres as u64 - n).max(1) };
            prec.push((1 << range("cfg", least, 8), 1 << range("cfg", least, 8)));
        }
    }
    if chance("cfg", 1, 4) {
        csty |= 2;
    }
    if chance("cfg", 1, 4) {
        csty |= 4;
    }
    let irreversible = !w.lossless && chance("cfg", 1, 3);
    let layers = if chance("cfg", 2, 3) { 1 } else { range("cfg", 2, 4) };
    let mut rates = Vec::new();
    for l in 0..layers {
        rates.push((4 * (layers - l)) as f32);
    }
    if w.lossless || chance("cfg", 1, 2) {
        *rates.last_mut().unwrap() = 0.0;
    }
    let same = n >= 3 && (1..3).all(|i| {
        let (a, b) = (&img.comps[0], &img.comps[i]);
        (a.dx, a.dy, a.w, a.h, a.prec, a.sgnd) == (b.dx, b.dy, b.w, b.h, b.prec, b.sgnd)
    });
    let mct = (same && chance("cfg", 2, 3)) as i8;
    let roi = if !w.plain && chance("cfg", 1, 12) {
        Some((below("cfg", n as u64) as i32, range("cfg", 1, 8) as i32))
    } else {
        None
    };
    let mut tp = if chance("cfg", 1, 4) { Some(*simcore::pick("cfg", b"RLCP")) } else { None };
    let prog = below("cfg", 5) as i32;
    let far = img.x0.max(img.y0) >= 20;
    if let (true, Some(t), 2..=4) = (csty & 1 != 0 || far, tp, prog) {
        // Tile-parts by position are only divided right without precincts (see DESIGN.md).
        let above: &[u8] = match prog {
            2 => b"R",
            4 => b"C",
            _ => b"",
        };
        if !above.contains(&t) {
            tp = above.first().copied();
        }
    }
    let pocs = if !w.plain && numres > 1 && chance("cfg", 1, 12) {
        let cut = range("cfg", 1, numres as u64 - 1) as u32;
        let f = |res0, res1| Poc {
            res0,
            res1,
            comp0: 0,
            comp1: n as u32,
            lay1: layers as u32,
            prg: below("cfg", 5) as i32,
        };
        vec![f(0, cut), f(cut, numres as u32)]
    } else {
        vec![]
    };
    if !pocs.is_empty() {
        tp = None;
    }
    let comment = if chance("cfg", 1, 4) { Some("a comment".repeat(below("cfg", 6) as usize)) } else { None };
    if jp2 && chance("cfg", 1, 5) {
        let l = range("img", 1, 60) as usize;
        img.icc = Some((0..l).map(|i| (i * 7 + l) as u8).collect());
    }
    if jp2 && (n == 2 || n == 4) && chance("cfg", 1, 2) {
        img.comps[n - 1].alpha = 1;
    }
    if jp2 {
        img.color = match n {
            1 | 2 => 2,
            _ => *simcore::pick("cfg", &[1, 1, 3]),
        };
    } else {
        img.color = 0;
    }
    Cfg {
        jp2,
        tile,
        numres,
        cblk,
        mode,
        csty,
        prec,
        prog,
        rates,
        quality: false,
        irreversible,
        mct,
        roi,
        tp,
        pocs,
        comment,
        plt: chance("cfg", 1, 6),
        tlm: chance("cfg", 1, 6),
        guard_bits: if !w.plain && chance("cfg", 1, 10) { Some(range("cfg", 2, 5) as u32) } else { None },
        custom_mct: None,
    }
}

/// The image as the codec's own structure, allocated by the codec.
pub fn to_native(i: &Img) -> *mut opj_image_t {
    let mut parms: Vec<opj_image_cmptparm_t> = i
        .comps
        .iter()
        .map(|c| {
            let mut p: opj_image_cmptparm_t = unsafe { std::mem::zeroed() };
            p.dx = c.dx;
            p.dy = c.dy;
            p.w = c.w;
            p.h = c.h;
            p.x0 = c.x0;
            p.y0 = c.y0;
            p.prec = c.prec;
            p.bpp = c.prec;
            p.sgnd = c.sgnd;
            p
        })
        .collect();
    let cs = match i.color {
        1 => OPJ_COLOR_SPACE::OPJ_CLRSPC_SRGB,
        2 => OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY,
        3 => OPJ_COLOR_SPACE::OPJ_CLRSPC_SYCC,
        4 => OPJ_COLOR_SPACE::OPJ_CLRSPC_EYCC,
        5 => OPJ_COLOR_SPACE::OPJ_CLRSPC_CMYK,
        _ => OPJ_COLOR_SPACE::OPJ_CLRSPC_UNSPECIFIED,
    };
    let p = crate::codec::call("opj_image_create", || unsafe {
        opj_image_create(parms.len() as u32, parms.as_mut_ptr(), cs)
    });
    if p.is_null() {
        return p;
    }
    unsafe {
        let im = &mut *p;
        im.x0 = i.x0;
        im.y0 = i.y0;
        im.x1 = i.x1;
        im.y1 = i.y1;
        for (k, c) in i.comps.iter().enumerate() {
            let nc = &mut *im.comps.add(k);
            nc.alpha = c.alpha;
            if let Some(d) = &c.data {
                std::ptr::copy_nonoverlapping(d.as_ptr(), nc.data, d.len());
            }
        }
        if let Some(icc) = &i.icc {
            let ok = crate::codec::call("copy_icc_profile", || im.copy_icc_profile(icc));
            if !ok {
                crate::codec::call("opj_image_destroy", || opj_image_destroy(p));
                return std::ptr::null_mut();
            }
        }
    }
    p
}

/// The codec's image as a plain value; an error when description and buffers do not agree.
pub fn from_native(p: *const opj_image_t) -> Result<Img, String> {
    let im = unsafe { &*p };
    let mut comps = Vec::new();
    if im.numcomps > 0 {
        if im.comps.is_null() {
            return Err(format!("image says it has {} components but carries none", im.numcomps));
        }
        if !crate::mem::owns(im.comps as *const u8, im.numcomps as usize * std::mem::size_of::<opj_image_comp_t>()) {
            return Err(format!("image says it has {} components but the list is shorter", im.numcomps));
        }
    }
    for k in 0..im.numcomps as usize {
        let c = unsafe { &*im.comps.add(k) };
        let n = c.w as u64 * c.h as u64;
        let data = if c.data.is_null() {
            None
        } else {
            if !crate::mem::owns(c.data as *const u8, n as usize * 4) {
                return Err(format!("component {k} is {}x{} but its buffer is smaller", c.w, c.h));
            }
            Some(unsafe { std::slice::from_raw_parts(c.data, n as usize) }.to_vec())
        };
        comps.push(Comp {
            dx: c.dx,
            dy: c.dy,
            w: c.w,
            h: c.h,
            x0: c.x0,
            y0: c.y0,
            prec: c.prec,
            sgnd: c.sgnd,
            alpha: c.alpha,
            factor: c.factor,
            data,
        });
    }
    let icc = if im.icc_profile_buf.is_null() {
        None
    } else if im.icc_profile_len == 0 && im.color_space as i32 != 0 {
        Some(Vec::new())
    } else {
        if !crate::mem::owns(im.icc_profile_buf, im.icc_profile_len as usize) {
            return Err("the profile is shorter than it says".into());
        }
        Some(unsafe { std::slice::from_raw_parts(im.icc_profile_buf, im.icc_profile_len as usize) }.to_vec())
    };
    Ok(Img { x0: im.x0, y0: im.y0, x1: im.x1, y1: im.y1, color: im.color_space as i32, icc, comps })
}

/// First difference between two images, if any.
pub fn diff(a: &Img, b: &Img) -> Option<String> {
    if (a.x0, a.y0, a.x1, a.y1) != (b.x0, b.y0, b.x1, b.y1) {
        return Some(format!(
            "area {:?} instead of {:?}",
            (b.x0, b.y0, b.x1, b.y1),
            (a.x0, a.y0, a.x1, a.y1)
        ));
    }
    if a.color != b.color {
        return Some(format!("colour space {} instead of {}", b.color, a.color));
    }
    if a.icc != b.icc {
        return Some("different colour profile".into());
    }
    diff_comps(a, b)
}
pub fn diff_comps(a: &Img, b: &Img) -> Option<String> {
    if a.comps.len() != b.comps.len() {
        return Some(format!("{} components instead of {}", b.comps.len(), a.comps.len()));
    }
    for (k, (x, y)) in a.comps.iter().zip(&b.comps).enumerate() {
        let g = |c: &Comp| (c.dx, c.dy, c.w, c.h, c.x0, c.y0, c.prec, c.sgnd, c.alpha, c.factor);
        if g(x) != g(y) {
            return Some(format!(
                "component {k}: (dx,dy,w,h,x0,y0,prec,sgnd,alpha,factor) {:?} instead of {:?}",
                g(y),
                g(x)
            ));
        }
        match (&x.data, &y.data) {
            _ if x.w == 0 || x.h == 0 => {}
            (Some(p), Some(q)) => {
                if let Some(i) = (0..p.len()).find(|i| p[*i] != q[*i]) {
                    let n = (0..p.len()).filter(|i| p[*i] != q[*i]).count();
                    return Some(format!(
                        "component {k}: sample ({}, {}) is {} instead of {}; {n} of {} differ",
                        i as u32 % x.w.max(1),
                        i as u32 / x.w.max(1),
                        q[i],
                        p[i],
                        p.len()
                    ));
                }
            }
            (None, None) => {}
            (Some(_), None) => return Some(format!("component {k} carries no samples")),
            (None, Some(_)) => return Some(format!("component {k} unexpectedly carries samples")),
        }
    }
    None
}
pub fn hash(i: &Img) -> u64 {
    simcore::hash_str(&format!("{i:?}"))
}
