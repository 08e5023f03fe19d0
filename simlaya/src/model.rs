//! Reference model: what a request must be answered with, written from the IIIF Image API 3.0 grammar and
//! the server's documented behaviour, independently of the server's parser.

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// Not a GET (or not a path): 404.
    NotFound,
    /// info.json is not implemented: any complete answer will do.
    Info,
    /// Malformed image request: 400 with this text.
    Bad(String),
    /// Well-formed request for the image with this (percent-decoded) identifier.
    Image(String),
}

pub fn percent_decode(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            let h = (b[i + 1] as char).to_digit(16);
            let l = (b[i + 2] as char).to_digit(16);
            if let (Some(h), Some(l)) = (h, l) {
                out.push((h * 16 + l) as u8);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn region(s: &str) -> Result<(), String> {
    if s == "full" || s == "square" {
        return Ok(());
    }
    let names = ["x", "y", "width", "height"];
    let (body, pct) = match s.strip_prefix("pct:") {
        Some(b) => (b, true),
        None => (s, false),
    };
    let parts: Vec<&str> = body.split(',').collect();
    for i in 0..4 {
        let Some(p) = parts.get(i) else {
            return Err(format!("Region must include exactly 4 selectors x,y,w,h (received '{body}')."));
        };
        let unparsable = format!(
            "Region {} '{p}' could not be parsed (expected integer for standard requests, float for pct: requests).",
            names[i]
        );
        if pct {
            let v: f32 = p.parse().map_err(|_| unparsable)?;
            if !(v > 0.0) {
                return Err(format!("Region {} percentage '{v}' out of bounds: must be greater than 0.", names[i]));
            }
        } else {
            let v: u32 = p.parse().map_err(|_| unparsable)?;
            if i >= 2 && v == 0 {
                return Err(format!("Region {} '{v}' out of bounds: width and height must be greater than 0.", names[i]));
            }
        }
    }
    if parts.len() > 4 {
        return Err(format!("Region must include exactly 4 selectors x,y,w,h (received '{body}')."));
    }
    Ok(())
}

fn px(s: &str) -> Result<(), String> {
    let v: u32 = s
        .parse()
        .map_err(|_| format!("Size dimension '{s}' could not be parsed (expected integer)."))?;
    if v == 0 {
        return Err(format!("Size dimension '{s}' out of bounds: must be at least 1."));
    }
    Ok(())
}

fn size(s: &str) -> Result<(), String> {
    let (up, s) = match s.strip_prefix('^') {
        Some(r) => (true, r),
        None => (false, s),
    };
    if s == "max" {
        return Ok(());
    }
    if let Some(p) = s.strip_prefix("pct:") {
        let v: f32 = p
            .parse()
            .map_err(|_| format!("Size percentage '{p}' could not be parsed (expected integer or float)."))?;
        if v > 0.0 && (v <= 100.0 || up) {
            return Ok(());
        }
        return Err(format!(
            "Size percentage '{p}' out of bounds: must be greater than 0 if upscaling is requested, or (0.0, 100.0] otherwise."
        ));
    }
    let (keep, s) = match s.strip_prefix('!') {
        Some(r) => (true, r),
        None => (false, s),
    };
    if s == "," {
        return Err(format!("Size must include at least one dimension (received '{s}')."));
    }
    let Some(c) = s.find(',') else {
        return Err(format!("Size must include a comma to separate dimensions (received '{s}')."));
    };
    let (w, h) = (&s[..c], &s[c + 1..]);
    if keep || !w.is_empty() {
        px(w)?;
    }
    if keep || !h.is_empty() {
        px(h)?;
    }
    Ok(())
}

fn rotation(s: &str) -> Result<(), String> {
    let s = s.strip_prefix('!').unwrap_or(s);
    let v: f32 = s
        .parse()
        .map_err(|_| format!("Rotation '{s}' could not be parsed (expected integer or float)."))?;
    if v >= 0.0 && v <= 360.0 {
        Ok(())
    } else {
        Err(format!("Rotation must be [0.0, 360.0], but was '{s}'."))
    }
}

fn image(path: &str) -> Result<String, String> {
    let seg: Vec<&str> = path.split('/').skip(1).collect();
    let missing = |e: &str| format!("Request path missing {e}.");
    let ident = seg.first().ok_or_else(|| missing("identifier"))?;
    let ident = String::from_utf8(percent_decode(ident))
        .map_err(|_| "Request path identifier was not in UTF-8.".to_string())?;
    region(seg.get(1).ok_or_else(|| missing("region"))?)?;
    size(seg.get(2).ok_or_else(|| missing("size"))?)?;
    rotation(seg.get(3).ok_or_else(|| missing("rotation"))?)?;
    let last = seg.get(4).ok_or_else(|| missing("quality"))?;
    let Some(dot) = last.find('.') else { return Err(missing("format")) };
    let (q, f) = (&last[..dot], &last[dot + 1..]);
    if !["color", "gray", "bitonal", "default"].contains(&q) {
        return Err(format!("Unrecognised quality '{q}'."));
    }
    if !["jpg", "tif", "png", "gif", "jp2", "pdf", "webp"].contains(&f) {
        return Err(format!("Unrecognised format '{f}'."));
    }
    Ok(ident)
}

/// `path`: the target's path, without query.
pub fn expect(method: &str, path: &str) -> Expect {
    if method != "GET" {
        return Expect::NotFound;
    }
    if path.ends_with("info.json") {
        return Expect::Info;
    }
    if !path.starts_with('/') {
        return Expect::NotFound;
    }
    match image(path) {
        Ok(i) => Expect::Image(i),
        Err(e) => Expect::Bad(e),
    }
}

/// Where following an identifier leads.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Reach {
    /// Plain path of names below the directory.
    Inside,
    /// Has "..", "." or empty steps or is absolute, but ends inside: either refused or opened there.
    Odd,
    /// Leads out of the directory, or contains a NUL: must be refused.
    Outside,
}

/// Path steps after resolving "." and ".." textually (the simulated storage has no links).
pub fn norm(path: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for c in path.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                v.pop();
            }
            _ => v.push(c.to_vec()),
        }
    }
    v
}

/// The path an identifier names below `dir`.
pub fn target(dir: &str, ident: &str) -> Vec<Vec<u8>> {
    if ident.starts_with('/') {
        norm(ident.as_bytes())
    } else {
        norm(format!("{dir}/{ident}").as_bytes())
    }
}

pub fn inside(dir: &str, path: &[Vec<u8>]) -> bool {
    let d = norm(dir.as_bytes());
    path.len() >= d.len() && path[..d.len()] == d[..]
}

pub fn reach(dir: &str, ident: &str) -> Reach {
    if ident.contains('\0') || !inside(dir, &target(dir, ident)) {
        return Reach::Outside;
    }
    if ident.is_empty() || ident.split('/').any(|c| matches!(c, "" | "." | "..")) {
        Reach::Odd
    } else {
        Reach::Inside
    }
}
