//! The stored formats, as far as the simulator takes them apart: codestream tile-parts, JP2 boxes, and the
//! damage storage faults do to them.
use crate::img::Img;
use simcore::{below, chance, count, pick, range, small, weighted};

pub fn u16at(b: &[u8], p: usize) -> Option<usize> {
    Some((*b.get(p)? as usize) << 8 | *b.get(p + 1)? as usize)
}
pub fn u32at(b: &[u8], p: usize) -> Option<usize> {
    Some(u16at(b, p)? << 16 | u16at(b, p + 2)?)
}

#[derive(Clone, Debug)]
pub struct Tp {
    pub tile: usize,
    pub part: usize,
    /// Position of the SOT marker, of the first byte after SOD, and of the byte after the tile-part.
    pub start: usize,
    pub data: usize,
    pub end: usize,
}
/// Where things are in a stored file.
#[derive(Clone, Debug)]
pub struct Map {
    /// The codestream within the file.
    pub base: usize,
    pub end: usize,
    /// First SOT.
    pub main: usize,
    pub tps: Vec<Tp>,
    /// Markers of the main header and of tile-part headers: (code, position).
    pub markers: Vec<(usize, usize)>,
    /// Boxes: (type, position of the header, content, end).
    pub boxes: Vec<(String, usize, usize, usize)>,
}

fn boxes(b: &[u8], from: usize, to: usize, out: &mut Vec<(String, usize, usize, usize)>) {
    let mut p = from;
    while p + 8 <= to {
        let n = u32at(b, p).unwrap();
        let t = String::from_utf8_lossy(&b[p + 4..p + 8]).to_string();
        let (c, e) = match n {
            0 => (p + 8, to),
            1 => (p + 16, p + u32at(b, p + 12).unwrap_or(0)),
            n => (p + 8, p + n),
        };
        if e > to || e < c {
            return;
        }
        out.push((t.clone(), p, c, e));
        if t == "jp2h" {
            boxes(b, c, e, out);
        }
        p = e;
    }
}

pub fn map(b: &[u8]) -> Option<Map> {
    let mut bx = Vec::new();
    let (base, end) = if b.len() > 12 && &b[4..8] == b"jP  " {
        boxes(b, 0, b.len(), &mut bx);
        let j = bx.iter().find(|x| x.0 == "jp2c")?;
        (j.2, j.3)
    } else {
        (0, b.len())
    };
    let mut m = Map { base, end, main: 0, tps: vec![], markers: vec![], boxes: bx };
    let mut p = base + 2;
    loop {
        let k = u16at(b, p)?;
        m.markers.push((k, p));
        match k {
            0xFF90 => {
                if m.main == 0 {
                    m.main = p;
                }
                let n = u32at(b, p + 6)?;
                let e = if n == 0 { end.saturating_sub(2) } else { p + n };
                let mut q = p + 12;
                while u16at(b, q)? != 0xFF93 {
                    m.markers.push((u16at(b, q)?, q));
                    q += 2 + u16at(b, q + 2)?;
                }
                m.tps.push(Tp { tile: u16at(b, p + 4)?, part: b[p + 10] as usize, start: p, data: q + 2, end: e });
                if e > end || e <= p {
                    return None;
                }
                p = e;
            }
            0xFFD9 => {
                m.end = p + 2;
                return Some(m);
            }
            _ => p += 2 + u16at(b, p + 2)?,
        }
    }
}

pub fn codestream(b: &[u8]) -> Option<Vec<u8>> {
    let m = map(b)?;
    Some(b[m.base..m.end].to_vec())
}

fn bx(t: &[u8; 4], c: &[u8]) -> Vec<u8> {
    let mut v = ((c.len() + 8) as u32).to_be_bytes().to_vec();
    v.extend_from_slice(t);
    v.extend_from_slice(c);
    v
}
fn junk(n: usize) -> Vec<u8> {
    let mut r = simcore::Rng::new(below("order", 1 << 32));
    (0..n).map(|_| r.next() as u8).collect()
}
fn other(out: &mut Vec<u8>) {
    for _ in 0..small("order", 3) {
        let t: [u8; 4] = *pick("order", &[*b"xml ", *b"uuid", *b"zzzz", *b"free", *b"res "]);
        let n = small("order", 3000) as usize;
        out.extend(bx(&t, &junk(n)));
    }
}

/// A JP2 file around the codestream, with whatever the format allows: other boxes anywhere, a palette,
/// channel definitions, a profile, any of the three ways to give the length of the codestream box.
pub fn wrap(cs: &[u8], i: &Img) -> Vec<u8> {
    let n = i.comps.len();
    let mut out = bx(b"jP  ", &[0x0D, 0x0A, 0x87, 0x0A]);
    out.extend(bx(b"ftyp", b"jp2 \0\0\0\0jp2 "));
    other(&mut out);
    let b0 = |p: u32, s: u32| (p - 1) as u8 | if s != 0 { 0x80 } else { 0 };
    let same = i.comps.iter().all(|c| c.prec == i.comps[0].prec && c.sgnd == i.comps[0].sgnd);
    let mut h = Vec::new();
    let mut ih = Vec::new();
    ih.extend_from_slice(&(i.y1 - i.y0).to_be_bytes());
    ih.extend_from_slice(&(i.x1 - i.x0).to_be_bytes());
    ih.extend_from_slice(&(n as u16).to_be_bytes());
    ih.push(if same { b0(i.comps[0].prec, i.comps[0].sgnd) } else { 255 });
    ih.extend_from_slice(&[7, 0, 0]);
    h.extend(bx(b"ihdr", &ih));
    if !same {
        h.extend(bx(b"bpcc", &i.comps.iter().map(|c| b0(c.prec, c.sgnd)).collect::<Vec<u8>>()));
    }
    // a palette, for components which can be indices; other components may be used as they are
    let mut chans = n;
    let index: Vec<usize> = (0..n).filter(|k| i.comps[*k].prec <= 10 && i.comps[*k].sgnd == 0).collect();
    let mut pal = Vec::new();
    if !index.is_empty() && n <= 4 && chance("order", if n == 1 { 2 } else { 1 }, 4) {
        count("probe.palette");
        chans = range("order", 1, 4) as usize;
        let mut map = Vec::new();
        let mut cols: Vec<(u32, u32)> = Vec::new();
        let mut entries = 1;
        for k in 0..chans {
            // (at least one is mapped)
            if n > 1 && k > 0 && chance("order", 1, 2) {
                let c = below("order", n as u64) as usize;
                map.push((c, 0, 0));
                cols.push((i.comps[c].prec, i.comps[c].sgnd));
                count("probe.direct-channel");
            } else {
                let c = *pick("order", &index);
                entries = entries.max(1usize << i.comps[c].prec);
                map.push((c, 1, k));
                cols.push(if chance("order", 1, 2) { (8, 0) } else { (range("order", 1, 16) as u32, below("order", 2) as u32) });
            }
        }
        if chance("order", 1, 6) {
            // (larger indices mean the last entry)
            entries = range("order", 1, entries as u64) as usize;
        }
        let mut c = vec![(entries >> 8) as u8, entries as u8, chans as u8];
        c.extend(cols.iter().map(|(p, s)| b0(*p, *s)));
        for _ in 0..entries {
            for (p, _) in &cols {
                let v = junk(4);
                let v = u32::from_be_bytes(v.try_into().unwrap()) & ((1u64 << p) - 1) as u32;
                c.extend_from_slice(&v.to_be_bytes()[4 - (*p as usize + 7) / 8..]);
            }
        }
        pal.extend(bx(b"pclr", &c));
        let mut c = Vec::new();
        for (k, t, p) in map {
            c.extend_from_slice(&[0, k as u8, t, p as u8]);
        }
        pal.extend(bx(b"cmap", &c));
    }
    if let Some(icc) = &i.icc {
        let mut c = vec![2, 0, 0];
        c.extend_from_slice(icc);
        h.extend(bx(b"colr", &c));
    } else {
        let cs: u8 = if chans >= 3 { *pick("order", &[16, 18]) } else { 17 };
        h.extend(bx(b"colr", &[1, 0, 0, 0, 0, 0, cs]));
    }
    h.extend(pal);
    let n = chans;
    if n >= 2 && chance("order", 1, 2) {
        // colour channels possibly in another order, last one alpha
        let mut c = (n as u16).to_be_bytes().to_vec();
        let sw = n >= 4 && chance("order", 1, 2);
        for k in 0..n {
            let (typ, asoc) = if k == n - 1 && (n == 2 || n == 4) {
                (1u16, 0u16)
            } else if n <= 2 {
                (0, k as u16 + 1)
            } else if sw && k < 2 {
                (0, 2 - k as u16)
            } else {
                (0, k as u16 + 1)
            };
            c.extend_from_slice(&(k as u16).to_be_bytes());
            c.extend_from_slice(&typ.to_be_bytes());
            c.extend_from_slice(&asoc.to_be_bytes());
        }
        h.extend(bx(b"cdef", &c));
    }
    if chance("order", 1, 4) {
        other(&mut h);
    }
    out.extend(bx(b"jp2h", &h));
    other(&mut out);
    match below("order", 3) {
        0 => {
            out.extend(bx(b"jp2c", cs));
            other(&mut out);
        }
        1 => {
            out.extend_from_slice(&[0, 0, 0, 0]);
            out.extend_from_slice(b"jp2c");
            out.extend_from_slice(cs);
        }
        _ => {
            out.extend_from_slice(&[0, 0, 0, 1]);
            out.extend_from_slice(b"jp2c");
            out.extend_from_slice(&((cs.len() + 16) as u64).to_be_bytes());
            out.extend_from_slice(cs);
            other(&mut out);
        }
    }
    out
}

/// What the colour boxes of a JP2 file make of the components of its codestream; a small reference model.
/// None: the boxes are not understood.
pub fn colour(b: &[u8], raw: &Img) -> Option<Img> {
    let find = |b: &[u8], t: &[u8; 4]| -> Option<Vec<u8>> {
        let mut p = 0;
        while p + 8 <= b.len() {
            let mut n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
            let mut h = 8;
            if n == 1 {
                n = u64::from_be_bytes(b.get(p + 8..p + 16)?.try_into().unwrap()) as usize;
                h = 16;
            } else if n == 0 {
                n = b.len() - p;
            }
            if n < h || p + n > b.len() {
                return None;
            }
            if &b[p + 4..p + 8] == t {
                return Some(b[p + h..p + n].to_vec());
            }
            p += n;
        }
        None
    };
    let h = find(b, b"jp2h")?;
    let mut o = raw.clone();
    if let (Some(p), Some(m)) = (find(&h, b"pclr"), find(&h, b"cmap")) {
        let (ne, nc) = (p[0] as usize * 256 + p[1] as usize, p[2] as usize);
        let cols: Vec<(u32, u32)> = p[3..3 + nc].iter().map(|b| ((b & 0x7F) as u32 + 1, (b >> 7) as u32)).collect();
        let mut at = 3 + nc;
        let mut e = Vec::new();
        for _ in 0..ne {
            for (prec, sgnd) in &cols {
                let w = (*prec as usize + 7) / 8;
                let v = p[at..at + w].iter().fold(0u32, |v, x| v << 8 | *x as u32);
                let up = 32 - prec;
                e.push(if *sgnd == 1 { ((v << up) as i32) >> up } else { v as i32 });
                at += w;
            }
        }
        o.comps = m
            .chunks(4)
            .enumerate()
            .map(|(k, m)| {
                let mut c = raw.comps[m[0] as usize * 256 + m[1] as usize].clone();
                if m[2] == 1 {
                    if let Some(d) = &mut c.data {
                        for x in d.iter_mut() {
                            *x = e[(*x).clamp(0, ne as i32 - 1) as usize * nc + m[3] as usize];
                        }
                    }
                    (c.prec, c.sgnd) = cols[k];
                }
                c
            })
            .collect();
    }
    if let Some(d) = find(&h, b"cdef") {
        let from = o.comps.clone();
        for f in d[2..].chunks(6) {
            let g = |k: usize| f[k] as usize * 256 + f[k + 1] as usize;
            let (cn, typ, asoc) = (g(0), g(2), g(4));
            let to = if typ == 0 && asoc > 0 && asoc <= from.len() { asoc - 1 } else { cn };
            o.comps[to] = from[cn].clone();
            o.comps[to].alpha = typ as u16;
        }
    }
    Some(o)
}

// ---- damage

fn spot(b: &[u8], m: &Option<Map>) -> usize {
    let n = b.len().max(1);
    match (m, weighted("dmg", &[2, 4, 2, 2, 2])) {
        (Some(m), 1) => below("dmg", m.main.max(1) as u64) as usize,
        (Some(m), 2) => {
            let t = pick("dmg", &m.tps);
            (t.start + below("dmg", 16) as usize).min(n - 1)
        }
        (Some(m), 3) => {
            let t = pick("dmg", &m.tps);
            (t.data + small("dmg", (t.end - t.data).max(1) as u64) as usize).min(n - 1)
        }
        (Some(m), 4) => {
            let (_, p) = pick("dmg", &m.markers);
            (p + 2 + below("dmg", 24) as usize).min(n - 1)
        }
        _ => below("dmg", n as u64) as usize,
    }
}
/// Boxes and marker segments (start and length of what they hold).
fn fields(b: &[u8], m: &Option<Map>) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let boxes_only = chance("dmg", 1, 3);
    let end = m.as_ref().map_or(b.len(), |m| m.main).min(b.len());
    for p in 4..end.saturating_sub(4) {
        let t = &b[p..p + 4];
        if [b"ihdr", b"bpcc", b"colr", b"pclr", b"cmap", b"cdef"].iter().any(|x| t == &x[..]) {
            let n = u32::from_be_bytes(b[p - 4..p].try_into().unwrap()) as usize;
            if n > 8 && p - 4 + n <= b.len() {
                out.push((p + 4, n - 8));
                out.push((p + 4, n - 8));
            }
        }
    }
    if boxes_only && !out.is_empty() {
        return out;
    }
    for (_, p) in m.iter().flat_map(|m| &m.markers) {
        if p + 4 <= b.len() {
            let n = (b[p + 2] as usize) << 8 | b[p + 3] as usize;
            if n > 2 && p + 2 + n <= b.len() {
                out.push((p + 4, n - 2));
            }
        }
    }
    for t in m.iter().flat_map(|m| &m.tps) {
        if t.start + 12 <= b.len() {
            out.push((t.start + 4, 8));
        }
    }
    out
}
const ODD: [u32; 12] = [0, 1, 2, 3, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFF_FFFF, 0xFFFF_FFFF];

/// Does one to a few things storage faults do.
pub fn damage(b: &mut Vec<u8>, other: &[u8]) {
    let n = 1 + small("dmg", 5);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        let m = map(b).filter(|m| !m.tps.is_empty() && !m.markers.is_empty());
        let k = weighted("dmg", &[6, 3, 3, 2, 3, 2, 1, 1, 2, 2, 2, 1, 2, 6]);
        count(&format!("fault.damage-{}", NAMES[k]));
        let len = b.len();
        match k {
            0 => {
                let p = spot(b, &m);
                b[p] ^= 1 << below("dmg", 8);
            }
            1 => {
                let p = spot(b, &m);
                b[p] = below("dmg", 256) as u8;
            }
            2 => {
                let p = spot(b, &m);
                b.truncate(p);
            }
            3 => {
                // a sector that was never written
                let s = 1 << range("dmg", 2, 9);
                let p = spot(b, &m) / s * s;
                let v = *pick("dmg", &[0u8, 0xFF]);
                let e = (p + s).min(len);
                b[p..e].fill(v);
            }
            4 => {
                // a field of a header takes an odd value
                let p = spot(b, &m);
                let w = *pick("dmg", &[1usize, 2, 4]);
                let v = pick("dmg", &ODD).to_be_bytes();
                for j in 0..w {
                    if p + j < len {
                        b[p + j] = v[4 - w + j];
                    }
                }
            }
            5 => {
                // bytes lost
                let p = spot(b, &m);
                let e = (p + 1 + small("dmg", 300) as usize).min(len);
                b.drain(p..e);
            }
            6 => {
                // bytes written twice
                let p = spot(b, &m);
                let e = (p + 1 + small("dmg", 300) as usize).min(len);
                let c = b[p..e].to_vec();
                b.splice(p..p, c);
            }
            7 => {
                // a stretch of another file
                if !other.is_empty() {
                    let p = spot(b, &m);
                    let q = below("dmg", other.len() as u64) as usize;
                    let l = (1 + small("dmg", 2000) as usize).min(other.len() - q);
                    let e = (p + l).min(len);
                    let c = other[q..q + (e - p)].to_vec();
                    b[p..e].copy_from_slice(&c);
                }
            }
            8 => {
                // tile-parts exchanged, repeated or dropped
                if let Some(m) = &m {
                    let a = pick("dmg", &m.tps).clone();
                    let c = pick("dmg", &m.tps).clone();
                    match below("dmg", 3) {
                        0 => {
                            let x = b[a.start..a.end].to_vec();
                            b.splice(c.start..c.start, x);
                        }
                        1 => {
                            b.drain(a.start..a.end);
                        }
                        _ => {
                            let x = b[a.start..a.end].to_vec();
                            b.splice(c.start..c.end, x);
                        }
                    }
                }
            }
            9 => {
                // the coding style says something else: code-block style or size, resolutions, transform
                if let Some((_, p)) = m.as_ref().and_then(|m| m.markers.iter().find(|k| k.0 == 0xFF52)) {
                    let f = p + 4 + *pick("dmg", &[8usize, 0, 1, 2, 3, 4, 5, 6, 7, 9]);
                    if f < len {
                        b[f] = match below("dmg", 3) {
                            0 => b[f] ^ 0x40,
                            1 => b[f] ^ 1 << below("dmg", 8),
                            _ => below("dmg", 256) as u8,
                        };
                    }
                }
            }
            10 => {
                // the size marker: image, tile, component geometry
                if let Some((_, p)) = m.as_ref().and_then(|m| m.markers.iter().find(|k| k.0 == 0xFF51)) {
                    let f = p + 4 + below("dmg", 46) as usize;
                    if f < len {
                        b[f] = match below("dmg", 3) {
                            0 => b[f] ^ 1 << below("dmg", 8),
                            1 => small("dmg", 255) as u8,
                            _ => b[f].wrapping_add(1),
                        };
                    }
                }
            }
            11 => {
                let l = small("dmg", 2000) as usize;
                b.extend(junk(l));
            }
            13 => {
                // a field is just outside of, or just at, what it refers to
                let r = fields(b, &m);
                if !r.is_empty() {
                    let (p, l) = *pick("dmg", &r);
                    let w = (*pick("dmg", &[1usize, 2, 1, 2, 4])).min(l.max(1));
                    let p = p + below("dmg", (l.max(w) - w + 1) as u64) as usize;
                    if p + w <= len {
                        let mut v = b[p..p + w].iter().fold(0u32, |v, x| v << 8 | *x as u32);
                        let siz = m.as_ref().and_then(|m| m.markers.iter().find(|k| k.0 == 0xFF51)).map(|k| k.1);
                        let nc = siz.filter(|p| p + 40 <= len).map_or(3, |p| (b[p + 38] as u32) << 8 | b[p + 39] as u32);
                        let tiles = m.as_ref().map_or(1, |m| m.tps.iter().map(|t| t.tile as u32 + 1).max().unwrap_or(1));
                        v = match below("dmg", 6) {
                            0 => v.wrapping_add(1),
                            1 => v.wrapping_sub(1),
                            2 => nc,
                            3 => (nc + 1).wrapping_sub(2 * below("dmg", 2) as u32),
                            4 => (tiles + 1).wrapping_sub(below("dmg", 3) as u32),
                            _ => 0,
                        };
                        b[p..p + w].copy_from_slice(&v.to_be_bytes()[4 - w..]);
                    }
                }
            }
            _ => {
                // the body of a tile-part is noise
                if let Some(m) = &m {
                    let t = pick("dmg", &m.tps).clone();
                    if t.end > t.data {
                        let p = t.data + below("dmg", (t.end - t.data) as u64) as usize;
                        let x = junk(t.end - p);
                        b[p..t.end].copy_from_slice(&x);
                    }
                }
            }
        }
    }
}
const NAMES: [&str; 14] = [
    "bit-flip",
    "byte",
    "truncation",
    "sector-lost",
    "odd-field",
    "bytes-lost",
    "bytes-repeated",
    "other-file",
    "tile-parts-moved",
    "coding-style",
    "geometry",
    "garbage-appended",
    "noise",
    "boundary-field",
];
