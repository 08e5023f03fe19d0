//! A minimal JSON value, writer and parser (no external dependencies are available offline).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    I(i64),
    U(u64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}

impl J {
    pub fn obj() -> J {
        J::O(BTreeMap::new())
    }
    pub fn set(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::O(m) = &mut self {
            m.insert(k.to_string(), v.into());
        }
        self
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::S(s) => Some(s),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::U(u) => Some(*u),
            J::I(i) => Some(*i as u64),
            J::F(f) => Some(*f as u64),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::U(i) => o.push_str(&i.to_string()),
            J::F(f) => {
                if f.is_finite() {
                    o.push_str(&format!("{:.3}", f))
                } else {
                    o.push_str("null")
                }
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = parse(b, &mut p)?;
        Some(v)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn parse(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        b't' => {
            *p += 4;
            Some(J::B(true))
        }
        b'f' => {
            *p += 5;
            Some(J::B(false))
        }
        b'"' => {
            *p += 1;
            let mut out = Vec::new();
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => break,
                    b'\\' => {
                        let e = *b.get(*p)?;
                        *p += 1;
                        match e {
                            b'n' => out.push(b'\n'),
                            b'r' => out.push(b'\r'),
                            b't' => out.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                *p += 4;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                let mut t = [0; 4];
                                out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            }
                            x => out.push(x),
                        }
                    }
                    c => out.push(c),
                }
            }
            Some(J::S(String::from_utf8_lossy(&out).into_owned()))
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b']' => {
                        *p += 1;
                        break;
                    }
                    b',' => *p += 1,
                    _ => v.push(parse(b, p)?),
                }
            }
            Some(J::A(v))
        }
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b'}' => {
                        *p += 1;
                        break;
                    }
                    b',' => *p += 1,
                    _ => {
                        let k = match parse(b, p)? {
                            J::S(s) => s,
                            _ => return None,
                        };
                        ws(b, p);
                        *p += 1; // ':'
                        m.insert(k, parse(b, p)?);
                    }
                }
            }
            Some(J::O(m))
        }
        _ => {
            let st = *p;
            while *p < b.len() && !matches!(b[*p], b',' | b'}' | b']') && !b[*p].is_ascii_whitespace() {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).ok()?;
            if let Ok(u) = t.parse::<u64>() {
                Some(J::U(u))
            } else if let Ok(i) = t.parse::<i64>() {
                Some(J::I(i))
            } else {
                t.parse::<f64>().ok().map(J::F)
            }
        }
    }
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::S(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::S(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::U(s)
    }
}
impl From<usize> for J {
    fn from(s: usize) -> J {
        J::U(s as u64)
    }
}
impl From<i64> for J {
    fn from(s: i64) -> J {
        J::I(s)
    }
}
impl From<f64> for J {
    fn from(s: f64) -> J {
        J::F(s)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::B(s)
    }
}
impl From<Vec<J>> for J {
    fn from(s: Vec<J>) -> J {
        J::A(s)
    }
}
impl From<&BTreeMap<String, u64>> for J {
    fn from(s: &BTreeMap<String, u64>) -> J {
        J::O(s.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect())
    }
}
