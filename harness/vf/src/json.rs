//! Just enough JSON to write evidence files and to read the known-findings list.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<u64> for J {
    fn from(n: u64) -> J {
        J::Int(n as i64)
    }
}
impl From<usize> for J {
    fn from(n: usize) -> J {
        J::Int(n as i64)
    }
}
impl From<bool> for J {
    fn from(b: bool) -> J {
        J::Bool(b)
    }
}
impl From<Vec<J>> for J {
    fn from(v: Vec<J>) -> J {
        J::Arr(v)
    }
}

pub fn obj(kv: Vec<(&str, J)>) -> J {
    J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn render(&self) -> String {
        let mut out = String::new();
        self.write(&mut out);
        out
    }
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(n) => out.push_str(&n.to_string()),
            J::Num(n) => out.push_str(&format!("{:.3}", n)),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    J::Str(k.clone()).write(out);
                    out.push_str(": ");
                    x.write(out);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut i = 0;
        let j = value(b, &mut i)?;
        ws(b, &mut i);
        (i == b.len()).then_some(j)
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if *b.get(*i)? == b'}' {
                    *i += 1;
                    return Some(J::Obj(m));
                }
                if *b.get(*i)? == b',' {
                    *i += 1;
                    continue;
                }
                let J::Str(k) = value(b, i)? else { return None };
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                m.insert(k, value(b, i)?);
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    }
                    b',' => *i += 1,
                    _ => v.push(value(b, i)?),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut out = vec![];
            loop {
                match *b.get(*i)? {
                    b'"' => {
                        *i += 1;
                        return String::from_utf8(out).ok().map(J::Str);
                    }
                    b'\\' => {
                        *i += 1;
                        match *b.get(*i)? {
                            b'n' => out.push(b'\n'),
                            b't' => out.push(b'\t'),
                            b'r' => out.push(b'\r'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*i + 1..*i + 5)?).ok()?;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                out.extend(c.to_string().as_bytes());
                                *i += 4;
                            }
                            c => out.push(c),
                        }
                        *i += 1;
                    }
                    c => {
                        out.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).ok()?;
            t.parse::<i64>().map(J::Int).ok().or_else(|| t.parse().ok().map(J::Num))
        }
    }
}
