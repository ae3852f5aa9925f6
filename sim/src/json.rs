//! A small JSON value, parser and writer (no dependency needed).

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn obj() -> J {
        J::Obj(vec![])
    }
    pub fn s(v: impl Into<String>) -> J {
        J::Str(v.into())
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            if let Some(e) = o.iter_mut().find(|(n, _)| n == k) {
                e.1 = v;
            } else {
                o.push((k.to_string(), v));
            }
        }
    }
    pub fn with(mut self, k: &str, v: J) -> J {
        self.set(k, v);
        self
    }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(o) => o.iter().find(|(n, _)| n == k).map_or(&NULL, |e| &e.1),
            _ => &NULL,
        }
    }
    pub fn at(&self, i: usize) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Arr(a) => a.get(i).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i64,
            J::Bool(b) => i64::from(*b),
            _ => 0,
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            J::Int(i) => *i != 0,
            _ => false,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn opt_str(&self) -> Option<String> {
        match self {
            J::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Num(f) => out.push_str(&format!("{f:.3}")),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' => {
                            out.push_str(&format!("\\u{:04x}", c as u32));
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    v.write(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn pretty(&self, out: &mut String, ind: usize) {
        match self {
            J::Obj(o) if !o.is_empty() && ind < 3 => {
                out.push_str("{\n");
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push_str(",\n");
                    }
                    out.push_str(&" ".repeat(ind + 1));
                    J::Str(k.clone()).write(out);
                    out.push_str(": ");
                    v.pretty(out, ind + 1);
                }
                out.push('\n');
                out.push_str(&" ".repeat(ind));
                out.push('}');
            }
            v => v.write(out),
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = pv(b, &mut p)?;
        ws(b, &mut p);
        if p == b.len() {
            Some(v)
        } else {
            None
        }
    }
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = String::new();
        self.write(&mut s);
        f.write_str(&s)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\r' | b'\t') {
        *p += 1;
    }
}
fn pv(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut o = vec![];
            ws(b, p);
            if *b.get(*p)? == b'}' {
                *p += 1;
                return Some(J::Obj(o));
            }
            loop {
                ws(b, p);
                let k = ps(b, p)?;
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                let v = pv(b, p)?;
                o.push((k, v));
                ws(b, p);
                match *b.get(*p)? {
                    b',' => *p += 1,
                    b'}' => {
                        *p += 1;
                        return Some(J::Obj(o));
                    }
                    _ => return None,
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut a = vec![];
            ws(b, p);
            if *b.get(*p)? == b']' {
                *p += 1;
                return Some(J::Arr(a));
            }
            loop {
                a.push(pv(b, p)?);
                ws(b, p);
                match *b.get(*p)? {
                    b',' => *p += 1,
                    b']' => {
                        *p += 1;
                        return Some(J::Arr(a));
                    }
                    _ => return None,
                }
            }
        }
        b'"' => Some(J::Str(ps(b, p)?)),
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).ok()?;
            if let Ok(i) = t.parse::<i64>() {
                Some(J::Int(i))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
fn ps(b: &[u8], p: &mut usize) -> Option<String> {
    if *b.get(*p)? != b'"' {
        return None;
    }
    *p += 1;
    let mut out: Vec<u8> = vec![];
    loop {
        match *b.get(*p)? {
            b'"' => {
                *p += 1;
                return String::from_utf8(out).ok();
            }
            b'\\' => {
                *p += 1;
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'n' => out.push(b'\n'),
                    b'r' => out.push(b'\r'),
                    b't' => out.push(b'\t'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                        let mut v = u32::from_str_radix(h, 16).ok()?;
                        *p += 4;
                        if (0xd800..0xdc00).contains(&v) && b.get(*p) == Some(&b'\\') {
                            let h = std::str::from_utf8(b.get(*p + 2..*p + 6)?).ok()?;
                            let lo = u32::from_str_radix(h, 16).ok()?;
                            *p += 6;
                            v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                        }
                        let mut t = [0; 4];
                        out.extend_from_slice(char::from_u32(v)?.encode_utf8(&mut t).as_bytes());
                    }
                    c => out.push(c),
                }
            }
            c => {
                out.push(c);
                *p += 1;
            }
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap_or("0"), 16).unwrap_or(0))
        .collect()
}
