//! Request generator.
use glommio::sim;
use simcore::{below, chance, pick, range, small, weighted};

pub const EXISTING: &[&str] = &[
    "a.jp2", "b.jp2", "c d.jp2", "é.jp2", "100%.jp2", "a?b#.jp2", "..hidden.jp2", "x..y", "coll/deep.jp2",
    "info.json", "%2e%2e", "coll/..x/..", "~", "a+b.jp2", "caf\u{301}\u{202e}.jp2",
];
pub const BROKEN: &[&str] = &["denied.jp2", "eio.jp2", "loop.jp2", "coll", "a.jp2/x"];

#[derive(Clone, Copy, Default)]
pub struct Mix {
    pub existing: u64,
    pub missing: u64,
    pub broken: u64,
    pub odd: u64,
    pub outside: u64,
    pub malformed: u64,
    pub method: u64,
    pub info: u64,
    pub ghost: u64,
    pub random: u64,
}

fn encode(s: &str) -> String {
    let mut o = String::new();
    let style = below("req", 3);
    for b in s.bytes() {
        let plain = b.is_ascii_alphanumeric() || matches!(b, b'.' | b'-' | b'_' | b'~' | b'+' | b',' | b':' | b'@');
        let must = !plain;
        if must || (style == 2 && chance("req", 1, 3)) {
            if style == 1 {
                o += &format!("%{b:02x}");
            } else {
                o += &format!("%{b:02X}");
            }
        } else {
            o.push(b as char);
        }
    }
    o
}

fn outside() -> String {
    let t = [
        "/etc/passwd", "../secret.jp2", "../images-private/x.jp2", "../../etc/passwd", "..", "../..", "/", "/a.jp2",
        "coll/../../secret.jp2", "./../secret.jp2", "../images2.jp2", "//etc/passwd", "/../etc/passwd",
        "../../../../../../etc/passwd", "coll/deep.jp2/../../../secret.jp2", "missing/../../secret.jp2",
        "/srv/images-private/x.jp2", "/srv", "/srv/", "../images-private", "/srv/imagesx", ".//..//secret.jp2",
        "a.jp2/../../secret.jp2",
    ];
    match below("req", 4) {
        0 | 1 => pick("req", &t).to_string(),
        2 => format!("{}\0{}", pick("req", &["", "a", "a.jp2", "/etc/passwd"]), pick("req", &["", ".jp2"])),
        _ => {
            let n = 1 + small("req", 6);
            let s = (0..n).map(|_| *pick("req", &["..", "..", ".", "", "coll", "etc"])).collect::<Vec<_>>().join("/");
            format!("{s}/{}", pick("req", &["etc/passwd", "secret.jp2", "../secret.jp2", "passwd"]))
        }
    }
}

fn odd() -> String {
    let t = [
        "", ".", "./a.jp2", "coll/../a.jp2", "coll//deep.jp2", "coll/./deep.jp2", "../images/a.jp2", "/srv/images/a.jp2",
        "a.jp2/", "a.jp2/.", "coll/", "coll/..", "nothere/../a.jp2", "//srv/images//b.jp2", "a.jp2//", "./", "coll/deep.jp2/..",
    ];
    pick("req", &t).to_string()
}

fn random_ident() -> String {
    let n = small("req", 8);
    let tok = [
        "a", "a.jp2", "/", "..", ".", "\0", "%", "%2F", "\u{e9}", " ", "?", "#", "\\", "\u{7f}", "\n", "coll", "é.jp2", "&", ";",
        "=", "\"", "<", "{", "\u{1F600}",
    ];
    let mut s = String::new();
    for _ in 0..n {
        s += pick("req", &tok);
    }
    if chance("req", 1, 24) {
        let k = [200, 255, 256, 4090, 4096, 5000];
        s += &"l".repeat(sim::roomy(*pick("req", &k)));
    }
    s
}

fn region(bad: bool) -> String {
    let good = ["full", "square", "0,0,10,10", "125,15,120,140", "pct:41.6,7.5,40,70", "pct:1,1,1,1", "4294967295,0,1,4294967295", "+1,0,2,2", "pct:1e1,2,3,.5"];
    let bads = [
        "", "Full", "0,0,10", "0,0,10,10,10", "0,0,0,10", "0,0,10,0", "-1,0,1,1", "a,b,c,d", "pct:", "pct:0,1,1,1", "pct:1,1,1", "pct:-1,1,1,1", "pct:1,1,1,1,1",
        "pct:NaN,1,1,1", "pct:inf,1,1,1", "4294967296,0,1,1", "0,0,10,", ",,,", "1.5,0,1,1", "pct:1,1,x,1", "square,", "full%20", "pct%3A1,1,1,1", "0,0,1,1\u{7e}",
    ];
    if bad { pick("req", &bads).to_string() } else { pick("req", &good).to_string() }
}
fn size(bad: bool) -> String {
    let good = ["max", "^max", "pct:50", "^pct:150", "100,", ",100", "^100,", "!10,10", "^!10,20", "10,20", "pct:100", "pct:0.1", "^,7", "^pct:101", "4294967295,"];
    let bads = [
        "", ",", "^", "^,", "!", "!,", "!10,", "!,10", "full", "Max", "^^max", "!^10,10", "pct:0", "pct:101", "pct:-1", "^pct:0", "pct:", "pct:x", "pct:NaN", "0,", ",0", "10,0",
        "a,b", "10", "10,20,30", "-1,", "!max", "4294967296,", "pct:inf", "^pct:inf", "1.5,",
    ];
    if bad { pick("req", &bads).to_string() } else { pick("req", &good).to_string() }
}
fn rotation(bad: bool) -> String {
    let good = ["0", "90", "!0", "22.5", "360", "+1", "1e2", "!360", "0.0", "-0", ".5"];
    let bads = ["", "!", "!!0", "-1", "361", "360.5", "NaN", "inf", "x", "90deg", "1e9", "0x10", "%200", "!-1", "%30"];
    if bad { pick("req", &bads).to_string() } else { pick("req", &good).to_string() }
}
fn qf(bad: bool) -> String {
    let q = ["default", "color", "gray", "bitonal"];
    let f = ["jpg", "tif", "png", "gif", "jp2", "pdf", "webp"];
    let bads = [
        "", ".", "default", "default.", ".jpg", "Default.jpg", "default.JPG", "default.jpeg", "default.jpg.png", "grey.jpg", "default,jpg", "color.jpg%00", "default.jpg%20", "native.jpg", "bitonal.bmp",
    ];
    if bad { pick("req", &bads).to_string() } else { format!("{}.{}", pick("req", &q), pick("req", &f)) }
}

/// (method, request target, its path)
pub fn request(m: &Mix) -> (String, String, String) {
    let w = [m.existing, m.missing, m.broken, m.odd, m.outside, m.malformed, m.method, m.info, m.ghost, m.random];
    let kind = weighted("req", &w);
    let mut method = "GET".to_string();
    let ident = match kind {
        0 | 6 => pick("req", EXISTING).to_string(),
        1 => format!("missing{}.jp2", below("req", 3)),
        2 => pick("req", BROKEN).to_string(),
        3 => odd(),
        4 => outside(),
        5 => pick("req", &["a.jp2", "malformed-only.jp2", "/etc/passwd", "b.jp2"]).to_string(),
        7 => "a.jp2".to_string(),
        8 => "ghost.jp2".to_string(),
        _ => random_ident(),
    };
    let mut seg = encode(&ident);
    if kind == 3 && chance("req", 1, 2) && !ident.contains('/') && !ident.is_empty() {
        seg = ident.clone();
    }
    if kind == 4 && ident == ".." && chance("req", 1, 2) {
        seg = ident.clone();
    }
    if kind == 5 && chance("req", 1, 10) {
        seg = pick("req", &["%FF", "a%C3", "%ED%A0%80", "%C0%AF", "%F5%80%80%80"]).to_string();
    }
    let path = match kind {
        7 => {
            let pre = pick("req", &["/a.jp2/", "/", "/x/y/z/", "/a.jp2/full/max/0/default.jpg", "/%00/", ""]);
            format!("{}{pre}info.json", if pre.is_empty() { "/" } else { "" })
        }
        5 => {
            let which = below("req", 7);
            let mut parts = vec![seg, region(false), size(false), rotation(false), qf(false)];
            match which {
                0 => parts[1] = region(true),
                1 => parts[2] = size(true),
                2 => parts[3] = rotation(true),
                3 => parts[4] = qf(true),
                4 => parts.truncate(below("req", 5) as usize),
                5 => {
                    let i = 1 + below("req", 4) as usize;
                    let j = 1 + below("req", 4) as usize;
                    parts.swap(i, j);
                }
                _ => {
                    parts[1] = region(chance("req", 1, 2));
                    parts[2] = size(chance("req", 1, 2));
                    parts[3] = rotation(chance("req", 1, 2));
                    parts[4] = qf(chance("req", 1, 2));
                }
            }
            format!("/{}", parts.join("/"))
        }
        _ => {
            let mut p = format!("/{seg}/{}/{}/{}/{}", region(false), size(false), rotation(false), qf(false));
            if chance("req", 1, 16) {
                p += pick("req", &["/", "/extra", "/a/b/c"]);
            }
            p
        }
    };
    if kind == 6 {
        method = pick("req", &["HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "BREW", "get", "GETT"]).to_string();
    }
    let mut target = path.clone();
    if chance("req", 1, 8) {
        target += pick("req", &["?", "?x=1", "?/../..", "?info.json", "?%00"]);
    }
    (method, target, path)
}

pub fn headers() -> String {
    let mut s = String::new();
    let n = small("req", 4);
    for _ in 0..n {
        let h = [
            "Accept: */*", "User-Agent: sim", "X-Empty:", "Cookie: a=b; c=d", "Accept-Encoding: gzip", "If-None-Match: \"x\"",
            "Range: bytes=0-1", "Referer: http://elsewhere/", "Forwarded: for=1.2.3.4", "Cache-Control: no-cache",
        ];
        s += pick("req", &h);
        s += "\r\n";
    }
    if chance("req", 1, 40) {
        s += &format!("X-Pad: {}\r\n", "p".repeat(sim::roomy(range("req", 1, 3000) as usize)));
    }
    s
}
