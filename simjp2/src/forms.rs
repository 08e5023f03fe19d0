//! Other legal forms of a stored codestream: the same image, written by somebody else's encoder.
use crate::boxes::{u16at, u32at};
use crate::img::{Cfg, Img};
use simcore::{below, chance, count, pick, range, small};

/// Marker code and content (without the length).
type Seg = (u16, Vec<u8>);
#[derive(Clone)]
pub struct Part {
    pub tile: usize,
    pub segs: Vec<Seg>,
    pub data: Vec<u8>,
}
#[derive(Clone)]
pub struct Cs {
    pub main: Vec<Seg>,
    pub parts: Vec<Part>,
}

const COD: u16 = 0xFF52;
const COC: u16 = 0xFF53;
const TLM: u16 = 0xFF55;
const PLT: u16 = 0xFF58;
const QCD: u16 = 0xFF5C;
const QCC: u16 = 0xFF5D;
const RGN: u16 = 0xFF5E;
const POC: u16 = 0xFF5F;
const PPM: u16 = 0xFF60;
const PPT: u16 = 0xFF61;
const CRG: u16 = 0xFF63;
const COM: u16 = 0xFF64;

impl Cs {
    pub fn read(b: &[u8]) -> Option<Cs> {
        let mut c = Cs { main: vec![], parts: vec![] };
        let mut p = 2;
        loop {
            match u16at(b, p)? {
                0xFF90 => {
                    let n = u32at(b, p + 6)?;
                    let end = if n == 0 { b.len() - 2 } else { p + n };
                    let mut t = Part { tile: u16at(b, p + 4)?, segs: vec![], data: vec![] };
                    let mut q = p + 12;
                    while u16at(b, q)? != 0xFF93 {
                        let l = u16at(b, q + 2)?;
                        t.segs.push((u16at(b, q)? as u16, b.get(q + 4..q + 2 + l)?.to_vec()));
                        q += 2 + l;
                    }
                    t.data = b.get(q + 2..end)?.to_vec();
                    c.parts.push(t);
                    p = end;
                }
                0xFFD9 => return Some(c),
                k => {
                    let l = u16at(b, p + 2)?;
                    c.main.push((k as u16, b.get(p + 4..p + 2 + l)?.to_vec()));
                    p += 2 + l;
                }
            }
        }
    }
    /// `count`: for every tile-part, whether it says how many its tile has. `open`: the last one has no length.
    pub fn write(&self, counted: &[bool], open: bool, tlm: Option<u64>) -> Vec<u8> {
        let seg = |out: &mut Vec<u8>, s: &Seg| {
            out.extend_from_slice(&s.0.to_be_bytes());
            out.extend_from_slice(&((s.1.len() + 2) as u16).to_be_bytes());
            out.extend_from_slice(&s.1);
        };
        let mut bodies = Vec::new();
        for (k, t) in self.parts.iter().enumerate() {
            let same = |u: &&Part| u.tile == t.tile;
            let no = self.parts[..k].iter().filter(same).count();
            let all = self.parts.iter().filter(same).count();
            let mut v = Vec::new();
            for s in &t.segs {
                seg(&mut v, s);
            }
            v.extend_from_slice(&[0xFF, 0x93]);
            v.extend_from_slice(&t.data);
            let n = v.len() + 12;
            let len = if open && k + 1 == self.parts.len() { 0 } else { n as u32 };
            let mut h = vec![0xFF, 0x90, 0, 10];
            h.extend_from_slice(&(t.tile as u16).to_be_bytes());
            h.extend_from_slice(&len.to_be_bytes());
            h.push(no as u8);
            h.push(if counted[k] { all as u8 } else { 0 });
            h.extend(v);
            bodies.push(h);
        }
        let mut out = vec![0xFF, 0x4F];
        for s in &self.main {
            seg(&mut out, s);
        }
        if let Some(form) = tlm {
            // the lengths of all tile-parts, in one or several segments
            let (st, sp) = (1 + form % 2, form / 2 % 2);
            let st = if self.parts.iter().any(|t| t.tile > 255) { 2 } else { st };
            let sp = if bodies.iter().any(|b| b.len() > 0xFFFF) { 1 } else { sp };
            let per = if form / 4 % 2 == 0 { 10000 } else { 1 + (form / 8 % 3) as usize };
            let per = per.max(self.parts.len().div_ceil(255));
            let mut z = 0;
            let all: Vec<_> = self.parts.iter().zip(&bodies).collect();
            for c in all.chunks(per) {
                let mut v = vec![z, (st << 4 | sp << 6) as u8];
                z = z.wrapping_add(1);
                for (t, b) in c {
                    if st == 1 {
                        v.push(t.tile as u8);
                    } else {
                        v.extend_from_slice(&(t.tile as u16).to_be_bytes());
                    }
                    if sp == 0 {
                        v.extend_from_slice(&(b.len() as u16).to_be_bytes());
                    } else {
                        v.extend_from_slice(&(b.len() as u32).to_be_bytes());
                    }
                }
                seg(&mut out, &(TLM, v));
            }
        }
        for b in bodies {
            out.extend(b);
        }
        out.extend_from_slice(&[0xFF, 0xD9]);
        out
    }
    fn drop(&mut self, code: u16) {
        self.main.retain(|s| s.0 != code);
        for t in &mut self.parts {
            t.segs.retain(|s| s.0 != code);
        }
    }
    fn main_seg(&mut self, code: u16) -> Option<usize> {
        self.main.iter().position(|s| s.0 == code)
    }
    fn first_parts(&self) -> Vec<usize> {
        (0..self.parts.len()).filter(|k| self.parts[..*k].iter().all(|u| u.tile != self.parts[*k].tile)).collect()
    }
}

/// The packets of a tile-part, where they can be told: by the markers before them, or by the lengths stored.
fn packets(t: &Part, sop: bool) -> Option<Vec<Vec<u8>>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let d = &t.data;
    if t.segs.iter().any(|s| s.0 == PLT) {
        let mut p = 0;
        let mut n = 0usize;
        for s in t.segs.iter().filter(|s| s.0 == PLT) {
            for x in &s.1[1..] {
                n = n << 7 | (x & 0x7F) as usize;
                if x & 0x80 == 0 {
                    v.push(d.get(p..p + n)?.to_vec());
                    p += n;
                    n = 0;
                }
            }
        }
        return (p == d.len()).then_some(v);
    }
    if !sop {
        return None;
    }
    let mut at: Vec<usize> = (0..d.len().saturating_sub(5)).filter(|p| d[*p..*p + 4] == [0xFF, 0x91, 0, 4]).collect();
    if d.is_empty() {
        return Some(vec![]);
    }
    if at.first() != Some(&0) {
        return None;
    }
    at.push(d.len());
    Some(at.windows(2).map(|w| d[w[0]..w[1]].to_vec()).collect())
}
/// (what stays in the tile-part, the packet's header)
fn apart(p: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let h = if p.starts_with(&[0xFF, 0x91]) { 6 } else { 0 };
    let e = (h..p.len().saturating_sub(1)).find(|k| p[*k] == 0xFF && p[*k + 1] == 0x92)? + 2;
    let mut body = p[..h].to_vec();
    body.extend_from_slice(&p[e..]);
    Some((body, p[h..e].to_vec()))
}
fn chunks(z: &mut u8, head: usize, bytes: &[u8], code: u16, lengths: &[usize]) -> Vec<Seg> {
    let most = *pick("order", &[65000usize, 2000, 100, 17]);
    let most = most.max(bytes.len() / (200 - head.min(150)) + 5).min(65000);
    let mut out = Vec::new();
    let mut at = 0;
    while at < bytes.len() {
        let mut end = (at + most).min(bytes.len());
        // (the four bytes of a length stay together)
        if let Some(&l) = lengths.iter().find(|&&l| l < end && end < l + 4) {
            end = l;
        }
        let mut v = vec![*z];
        *z = z.wrapping_add(1);
        v.extend_from_slice(&bytes[at..end]);
        out.push((code, v));
        at = end;
    }
    out
}

/// Another form of the codestream. None: could not be taken apart.
pub fn other(cs: &[u8], i: &Img, c: &Cfg) -> Option<Vec<u8>> {
    let mut x = Cs::read(cs)?;
    let (sop, eph) = (c.csty & 2 != 0, c.csty & 4 != 0);
    let mut known = chance("order", 2, 3);
    let pk: Option<Vec<Vec<Vec<u8>>>> = x.parts.iter().map(|t| packets(t, sop)).collect();
    x.drop(TLM);
    if let Some(mut pk) = pk.filter(|p| p.iter().all(|v| v.len() < 4000)) {
        if chance("order", 1, 2) {
            // tile-parts divided between packets
            count("form.divided");
            let mut parts = Vec::new();
            let mut npk = Vec::new();
            for (t, p) in x.parts.iter().zip(&pk) {
                let mut left = &p[..];
                let mut first = true;
                let most = (220 / x.parts.iter().filter(|u| u.tile == t.tile).count()).clamp(1, 5);
                for k in 0..range("order", 1, most as u64) {
                    let n = if k == 0 && chance("order", 1, 8) { 0 } else { small("order", left.len() as u64) as usize };
                    let mut u = t.clone();
                    if !first {
                        u.segs.clear();
                    }
                    first = false;
                    parts.push(u);
                    npk.push(left[..n].to_vec());
                    left = &left[n..];
                }
                npk.last_mut().unwrap().extend_from_slice(left);
            }
            for (t, p) in parts.iter_mut().zip(&npk) {
                t.data = p.concat();
            }
            x.parts = parts;
            pk = npk;
            x.drop(PLT);
        }
        // their order
        shuffle(&mut x.parts, Some(&mut pk));
        match below("order", 4) {
            0 if eph => {
                // packet headers in the main header
                count("form.ppm");
                x.drop(PLT);
                let mut all = Vec::new();
                let mut at = Vec::new();
                for (t, p) in x.parts.iter_mut().zip(&pk) {
                    let v: Option<Vec<_>> = p.iter().map(|p| apart(p)).collect();
                    let v = v?;
                    let h: Vec<u8> = v.iter().flat_map(|x| x.1.clone()).collect();
                    t.data = v.iter().flat_map(|x| x.0.clone()).collect();
                    at.push(all.len());
                    all.extend_from_slice(&(h.len() as u32).to_be_bytes());
                    all.extend(h);
                }
                let mut z = 0;
                let mut s = chunks(&mut z, 0, &all, PPM, &at);
                if chance("order", 1, 3) {
                    mix(&mut s);
                }
                x.main.extend(s);
            }
            1 | 2 if eph => {
                // packet headers in the tile-part headers
                count("form.ppt");
                x.drop(PLT);
                let mut z = std::collections::BTreeMap::new();
                let n = x.parts.len();
                for (t, p) in x.parts.iter_mut().zip(&pk) {
                    let v: Option<Vec<_>> = p.iter().map(|p| apart(p)).collect();
                    let v = v?;
                    let h: Vec<u8> = v.iter().flat_map(|x| x.1.clone()).collect();
                    t.data = v.iter().flat_map(|x| x.0.clone()).collect();
                    let mut s = chunks(z.entry(t.tile).or_insert(0u8), n.min(200), &h, PPT, &[]);
                    if chance("order", 1, 3) {
                        mix(&mut s);
                    }
                    t.segs.extend(s);
                }
            }
            3 if chance("order", 1, 2) => {
                // packet lengths
                count("form.plt");
                x.drop(PLT);
                for (t, p) in x.parts.iter_mut().zip(&pk) {
                    let per = *pick("order", &[10000usize, 50, 3, 1]);
                    let per = per.max(p.len() / 200 + 1);
                    for (k, c) in p.chunks(per).enumerate() {
                        let mut v = vec![k as u8];
                        for q in c {
                            let n = q.len();
                            for s in (0..5).rev() {
                                if n >> (7 * s) != 0 || s == 0 {
                                    v.push((n >> (7 * s) & 0x7F) as u8 | if s > 0 { 0x80 } else { 0 });
                                }
                            }
                        }
                        t.segs.push((PLT, v));
                    }
                }
            }
            _ => {}
        }
    } else {
        shuffle(&mut x.parts, None);
    }
    headers(&mut x, i, c);
    let n = x.parts.len();
    let mut tlm = chance("order", 1, 4).then(|| below("order", 64));
    if n > 2000 {
        tlm = None;
    }
    // how many parts a tile has is told in all, some or none of them
    let counted: Vec<bool> = match below("order", 4) {
        0 => {
            known = true;
            (0..n)
                .map(|k| {
                    let last = !x.parts[k + 1..].iter().any(|t| t.tile == x.parts[k].tile);
                    last || chance("order", 1, 2)
                })
                .collect()
        }
        1 => vec![known; n],
        _ => vec![true; n],
    };
    if counted.iter().any(|k| !k) {
        count("form.uncounted");
    }
    let open = chance("order", 1, 6);
    if open {
        count("form.open-ended");
        tlm = None;
    }
    Some(x.write(&counted, open, tlm))
}

fn mix<T>(v: &mut Vec<T>) {
    for k in (1..v.len()).rev() {
        v.swap(k, below("order", k as u64 + 1) as usize);
    }
}
/// Those of one tile stay in order.
fn shuffle(parts: &mut Vec<Part>, pk: Option<&mut Vec<Vec<Vec<u8>>>>) {
    if !chance("order", 1, 2) {
        return;
    }
    count("form.interleaved");
    let mut slots: Vec<usize> = parts.iter().map(|t| t.tile).collect();
    mix(&mut slots);
    let mut used = vec![false; parts.len()];
    let mut perm = Vec::new();
    for t in slots {
        let k = (0..parts.len()).find(|k| !used[*k] && parts[*k].tile == t).unwrap();
        used[k] = true;
        perm.push(k);
    }
    *parts = perm.iter().map(|k| parts[*k].clone()).collect();
    if let Some(pk) = pk {
        *pk = perm.iter().map(|k| pk[*k].clone()).collect();
    }
}

/// The same coding parameters, given elsewhere.
fn headers(x: &mut Cs, i: &Img, c: &Cfg) {
    let n = i.comps.len();
    let firsts = x.first_parts();
    let comp = |k: usize| if n < 257 { vec![k as u8] } else { (k as u16).to_be_bytes().to_vec() };
    // For every component on its own: with that, what is said for all of them does not matter.
    if n < 200 && chance("order", 1, 4) {
        if let Some(q) = x.main_seg(QCD) {
            count("form.qcc");
            let v = x.main[q].1.clone();
            let all = chance("order", 1, 2);
            let mut at = x.main.len();
            let has: Vec<Vec<u8>> = x.main.iter().filter(|s| s.0 == QCC).map(|s| s.1.clone()).collect();
            let mut done = has.len();
            for k in 0..n {
                if has.iter().any(|h| h[..comp(k).len()] == comp(k)[..]) || !(all || chance("order", 1, 2)) {
                    continue;
                }
                let mut w = comp(k);
                w.extend_from_slice(&v);
                x.main.insert(at, (QCC, w));
                at += 1;
                done += 1;
            }
            if done == n {
                for b in &mut x.main[q].1[1..] {
                    *b ^= 0x08;
                }
            }
        }
    }
    if n < 200 && chance("order", 1, 4) {
        if let Some(q) = x.main_seg(COD) {
            if !x.main.iter().any(|s| s.0 == COC) {
                count("form.coc");
                let v = x.main[q].1.clone();
                let all = chance("order", 1, 2);
                for k in 0..n {
                    if !all && chance("order", 1, 2) {
                        continue;
                    }
                    let mut w = comp(k);
                    w.push(v[0] & 1);
                    w.extend_from_slice(&v[5..]);
                    x.main.push((COC, w));
                }
                if all {
                    x.main[q].1[8] ^= 0x0A;
                }
            }
        }
    }
    // In the header of every tile: with that, what the main header says does not matter.
    if chance("order", 1, 4) && !x.main.iter().any(|s| s.0 == COC) {
        if let Some(q) = x.main_seg(COD) {
            count("form.tile-cod");
            let v = x.main[q].1.clone();
            let all = chance("order", 1, 2);
            for k in &firsts {
                if all || chance("order", 1, 2) {
                    x.parts[*k].segs.insert(0, (COD, v.clone()));
                }
            }
            if all {
                let m = &mut x.main[q].1;
                m[1] = (m[1] + 1) % 5;
                m[0] ^= *pick("order", &[0u8, 2, 4, 6]);
                m[8] ^= below("order", 64) as u8;
                if c.pocs.is_empty() {
                    m[3] = m[3].wrapping_add(1).max(1);
                }
            }
        }
    }
    if chance("order", 1, 4) && !x.main.iter().any(|s| s.0 == QCC) {
        if let Some(q) = x.main_seg(QCD) {
            count("form.tile-qcd");
            let v = x.main[q].1.clone();
            let all = chance("order", 1, 2);
            for k in &firsts {
                if all || chance("order", 1, 2) {
                    let at = x.parts[*k].segs.iter().filter(|s| s.0 == COD).count();
                    x.parts[*k].segs.insert(at, (QCD, v.clone()));
                }
            }
            if all {
                for b in &mut x.main[q].1[1..] {
                    *b ^= 0x10;
                }
            }
        }
    }
    if let Some(q) = x.main_seg(RGN).filter(|_| chance("order", 1, 2)) {
        count("form.tile-rgn");
        let s = x.main.remove(q);
        for k in &firsts {
            x.parts[*k].segs.push(s.clone());
        }
    }
    if let Some(q) = x.main_seg(POC).filter(|_| chance("order", 1, 2)) {
        count("form.tile-poc");
        let s = x.main.remove(q);
        for k in &firsts {
            if !x.parts[*k].segs.iter().any(|s| s.0 == POC) {
                x.parts[*k].segs.push(s.clone());
            }
        }
    }
    if n < 200 && chance("order", 1, 6) {
        x.main.push((CRG, (0..4 * n).map(|k| k as u8).collect()));
    }
    for _ in 0..small("order", 2) {
        let l = small("order", 5000) as usize;
        let mut v = vec![0, 1];
        v.extend((0..l).map(|k| b'a' + (k % 26) as u8));
        if chance("order", 1, 2) {
            let at = range("order", 1, x.main.len() as u64) as usize;
            x.main.insert(at, (COM, v));
        } else {
            let k = below("order", x.parts.len() as u64) as usize;
            x.parts[k].segs.push((COM, v));
        }
    }
}
