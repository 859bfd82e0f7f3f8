//! The Move snippets packed in /verif/corpus and ways to disturb them.
use crate::Rng;
use crate::text::{any_char, boundary, odd_char};
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Snippet {
    pub name: String,
    pub text: String,
}

fn load(file: &str) -> Vec<Snippet> {
    let p = crate::verif_dir().join("corpus").join(file);
    let text = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("/harness/ corpus {}: {e}", p.display()));
    let mut out: Vec<Snippet> = vec![];
    for line in text.split_inclusive('\n') {
        if let Some(n) = line.strip_prefix("=== ") {
            out.push(Snippet { name: n.trim_end().to_string(), text: String::new() });
        } else if let Some(s) = out.last_mut() {
            s.text.push_str(line);
        }
    }
    out
}

pub fn single() -> &'static [Snippet] {
    static S: OnceLock<Vec<Snippet>> = OnceLock::new();
    S.get_or_init(|| load("single.txt"))
}

pub fn multi() -> &'static [Snippet] {
    static S: OnceLock<Vec<Snippet>> = OnceLock::new();
    S.get_or_init(|| load("multi.txt"))
}

/// Files of a multi-file snippet: (path, text).
pub fn split_files(text: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for line in text.split_inclusive('\n') {
        if let Some(p) = line.trim_start().strip_prefix("//- ") {
            out.push((p.trim().to_string(), String::new()));
        } else if let Some(f) = out.last_mut() {
            f.1.push_str(line);
        }
    }
    out
}

/// Crude tokens: words, runs of blanks, comments, single other characters.
pub fn pieces(text: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        let len = if c.is_ascii_alphanumeric() || c == '_' {
            rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(rest.len())
        } else if c == ' ' || c == '\n' || c == '\t' {
            rest.find(|c: char| !matches!(c, ' ' | '\n' | '\t')).unwrap_or(rest.len())
        } else if rest.starts_with("//") {
            rest.find('\n').unwrap_or(rest.len())
        } else {
            c.len_utf8()
        };
        out.push(&rest[..len]);
        rest = &rest[len..];
    }
    out
}

pub const DICT: &[&str] = &[
    "module", "script", "spec", "fun", "struct", "enum", "const", "use", "friend", "public", "native", "entry",
    "inline", "package", "acquires", "has", "copy", "drop", "store", "key", "let", "mut", "if", "else", "while",
    "loop", "for", "match", "return", "abort", "break", "continue", "move", "as", "is", "true", "false", "u8", "u64",
    "u256", "address", "bool", "vector", "signer", "self", "Self", "phantom", "invariant", "assert", "assume", "ensures",
    "requires", "aborts_if", "modifies", "include", "pragma", "schema", "apply", "forall", "exists", "choose", "where",
    "global", "update", "pack", "unpack", "proof", "lemma", "axiom", "emits", "to", "except", "internal", "result",
    "old", "0x1", "@0x1", "@std", "0", "1u8", "0xff", "b\"ab\"", "x\"00\"", "'a", "'a:", "::", ":", ";", ",", ".", "..",
    "(", ")", "{", "}", "[", "]", "<", ">", "<=", ">=", "==", "!=", "==>", "<==>", "=>", "=", "+", "-", "*", "/", "%",
    "&", "&mut ", "&&", "|", "||", "^", "!", "@", "#", "#[", "_", "+=", "<<", ">>", "<<=", "//", "/*", "*/", "///", "\"",
    "'", "m::", "foo", "T", "x", "Option<T>", "S { }", "S { x: 1 }", "f()", "(a, b)", "|a| a", "{ 1 }", "assert!(",
    "vector[", "acc.x", "v[0]", "&v", "*r", "1 + ", "let x = ", "fun f() {", "spec f {", "if (a) b else c",
];

/// Disturb a text: token-level edits mostly, some character-level ones.
pub fn mutate(rng: &mut Rng, text: &str, edits: usize) -> String {
    let mut t: Vec<String> = pieces(text).into_iter().map(str::to_string).collect();
    for _ in 0..edits {
        if t.is_empty() {
            t.push(rng.pick(DICT).to_string());
            continue;
        }
        let i = rng.below(t.len());
        match rng.below(14) {
            0 | 1 => {
                t.remove(i);
            }
            2 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            3 => {
                let j = rng.below(t.len());
                t.swap(i, j);
            }
            4 | 5 | 6 => t.insert(i, rng.pick(DICT).to_string()),
            7 => t[i] = rng.pick(DICT).to_string(),
            8 => {
                // drop a run
                let j = (i + rng.below(12)).min(t.len());
                t.drain(i..j);
            }
            9 => {
                // copy a run elsewhere
                let j = (i + rng.below(12)).min(t.len());
                let run: Vec<String> = t[i..j].to_vec();
                let k = rng.below(t.len() + 1);
                t.splice(k..k, run);
            }
            10 => t.insert(i, odd_char(rng).to_string()),
            11 => {
                let mut s = t[i].clone();
                let b = boundary(rng, &s);
                s.insert(b, any_char(rng));
                t[i] = s;
            }
            12 => {
                // break a word
                let s = t[i].clone();
                let b = boundary(rng, &s);
                t[i] = s[..b].to_string();
            }
            _ => {
                if rng.chance(1, 4) {
                    t.truncate(i);
                } else {
                    t.insert(i, " ".to_string());
                }
            }
        }
    }
    t.concat()
}

/// A text for the parsing workloads: a snippet, a disturbed snippet, a splice of two, or noise.
pub fn any_text(rng: &mut Rng) -> String {
    let c = single();
    match rng.below(20) {
        0 => rng.pick(c).text.clone(),
        1 => {
            let n = rng.below(40);
            (0..n).map(|_| { let d: &str = rng.pick(DICT); format!("{d}{}", if rng.chance(2, 3) { " " } else { "" }) }).collect()
        }
        2 => (0..rng.below(60)).map(|_| any_char(rng)).collect(),
        3 | 4 => {
            let (a, b) = (&rng.pick(c).text, &rng.pick(c).text);
            let (x, y) = (boundary(rng, a), boundary(rng, b));
            format!("{}{}", &a[..x], &b[y..])
        }
        5 => {
            let t = &rng.pick(c).text;
            let x = boundary(rng, t);
            t[..x].to_string()
        }
        _ => {
            let t = rng.pick(c).text.clone();
            let n = 1 + rng.below(*rng.clone().pick(&[1, 2, 3, 6, 20]));
            mutate(rng, &t, n)
        }
    }
}
