//! Packages on disk for the server to load.
use crate::client::{Encoding, Scratch};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use vf::{Rng, corpus};

/// Files of the scratch directory, by relative path.
#[derive(Clone, Debug, Default)]
pub struct Project {
    pub files: BTreeMap<String, String>,
}

pub const ADDRESSES: &str = "std = \"0x1\"\naptos_std = \"0x1\"\naptos_framework = \"0x1\"\n";

pub fn manifest(name: &str, deps: &[(&str, &str)]) -> String {
    let mut s = format!("[package]\nname = \"{name}\"\nversion = \"0.0.0\"\n\n[addresses]\n{ADDRESSES}\n[dependencies]\n");
    for (n, p) in deps {
        s += &format!("{n} = {{ local = \"{p}\" }}\n");
    }
    s
}

/// Put comments with characters of all widths before some lines.
pub fn widen(rng: &mut Rng, text: &str) -> String {
    const WIDE: [&str; 6] = ["/* é */", "/* 😀 */ ", "/*漢字*/ ", "/* a\u{301} */", "/*𝒳𝒴*/", "/* ß€ */ "];
    let mut out = String::new();
    let mut deep = false; // inside a comment that goes over lines
    for l in text.split_inclusive('\n') {
        let t = l.trim();
        let plain = !deep && !t.is_empty() && !t.starts_with("//") && !t.starts_with('*') && !t.contains("/*") && !t.contains('"');
        if plain && rng.chance(1, 3) {
            let w: &str = *rng.pick(&WIDE);
            let n = l.len() - l.trim_start().len();
            out.push_str(&l[..n]);
            out.push_str(w);
            out.push_str(&l[n..]);
        } else {
            out.push_str(l);
        }
        if let Some(a) = l.rfind("/*") {
            deep = !l[a..].contains("*/");
        } else if l.contains("*/") {
            deep = false;
        }
    }
    out
}

pub fn crlf(text: &str) -> String {
    text.replace('\n', "\r\n")
}

/// A snippet of the corpus; mostly a small one.
pub fn snippet(rng: &mut Rng) -> String {
    let s = corpus::single();
    for _ in 0..8 {
        let t = &rng.pick(s).text;
        if t.len() < 3000 {
            return t.clone();
        }
    }
    rng.pick(s).text.clone()
}

/// Names of modules of the file, and what follows `module` elsewhere.
pub fn modules(text: &str) -> Vec<String> {
    let mut words = text.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':')).filter(|w| !w.is_empty());
    let mut out = vec![];
    while let Some(w) = words.next() {
        if w == "module" || w == "address" {
            if let Some(n) = words.next() {
                out.push(n.rsplit(':').next().unwrap_or(n).to_lowercase());
            }
        } else if w == "script" {
            out.push(w.to_string());
        }
    }
    out
}

impl Project {
    /// One package of a few files.
    pub fn small(rng: &mut Rng, files: usize, wide: bool) -> Project {
        let mut p = Project::default();
        p.files.insert("pkg/Move.toml".to_string(), manifest("pkg", &[]));
        // Which of two modules of the same name is meant depends on the order files are loaded in.
        let mut taken = std::collections::BTreeSet::new();
        for i in 0..files {
            let mut t = snippet(rng);
            let own = modules(&t);
            if i > 0 && own.iter().any(|m| taken.contains(m)) {
                continue;
            }
            taken.extend(own);
            if wide {
                t = widen(rng, &t);
            }
            p.files.insert(format!("pkg/sources/m{i}.move"), t);
        }
        p
    }
    pub fn lay(&self, s: &Scratch) {
        for (p, t) in &self.files {
            s.write(p, t);
        }
    }
    pub fn moves(&self) -> Vec<String> {
        self.files.keys().filter(|p| p.ends_with(".move")).cloned().collect()
    }
}

/// Line and column of an offset, in the client's own arithmetic.
pub fn position(text: &str, offset: usize, enc: Encoding) -> Value {
    let line = text[..offset].matches('\n').count();
    let start = text[..offset].rfind('\n').map_or(0, |i| i + 1);
    let col: usize = text[start..offset].chars().map(|c| enc.width(c)).sum();
    json!({"line": line, "character": col})
}

pub fn range(text: &str, a: usize, b: usize, enc: Encoding) -> Value {
    json!({"start": position(text, a, enc), "end": position(text, b, enc)})
}

/// The offset of a position, when it is one of the text's.
pub fn offset(text: &str, pos: &Value, enc: Encoding) -> Option<usize> {
    let line = pos["line"].as_u64()? as usize;
    let col = pos["character"].as_u64()? as usize;
    let mut start = 0;
    for _ in 0..line {
        start += text[start..].find('\n')? + 1;
    }
    let l = text[start..].split('\n').next().unwrap();
    let l = l.strip_suffix('\r').unwrap_or(l);
    let mut w = 0;
    for (i, c) in l.char_indices() {
        if w == col {
            return Some(start + i);
        }
        w += enc.width(c);
    }
    (w == col).then_some(start + l.len())
}

pub fn span(text: &str, r: &Value, enc: Encoding) -> Option<(usize, usize)> {
    let a = offset(text, &r["start"], enc)?;
    let b = offset(text, &r["end"], enc)?;
    (a <= b).then_some((a, b))
}

/// A place in the text, mostly at a word.
pub fn place(rng: &mut Rng, text: &str) -> usize {
    if text.is_empty() {
        return 0;
    }
    let mut o = rng.below(text.len());
    if rng.chance(4, 5) {
        let word = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
        while o < text.len() && !word(text.as_bytes()[o]) {
            o += 1;
        }
    }
    while !text.is_char_boundary(o) {
        o -= 1;
    }
    o
}

/// Where words and marks begin.
pub fn starts(text: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut word = false;
    for (i, c) in text.char_indices() {
        let w = c.is_alphanumeric() || c == '_';
        if !c.is_whitespace() && !(w && word) {
            v.push(i);
        }
        word = w;
    }
    v
}
