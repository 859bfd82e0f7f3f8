//! A reference tokeniser for Move source, written from the language's lexical rules.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Blank,
    Comment,
    Number,
    Word,
    QuoteIdent,
    ByteStr,
    HexStr,
    Punct,
    Bad,
}

const MULTI: &[&str] = &[
    "==>", "=>", "==", "!=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "::", "..",
];

fn word_len(s: &[u8]) -> usize {
    s.iter().position(|b| !(b.is_ascii_alphanumeric() || *b == b'_')).unwrap_or(s.len())
}

fn suffix_len(s: &[u8]) -> usize {
    for suf in ["u128", "u256", "i128", "i256", "u16", "u32", "u64", "i16", "i32", "i64", "u8", "i8"] {
        if s.starts_with(suf.as_bytes()) {
            return suf.len();
        }
    }
    0
}

pub fn lex(text: &str) -> Vec<(Class, usize)> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let r = &b[i..];
        let (class, len) = if matches!(r[0], b' ' | b'\t' | b'\n') {
            (Class::Blank, r.iter().position(|c| !matches!(c, b' ' | b'\t' | b'\n')).unwrap_or(r.len()))
        } else if r.starts_with(b"//") {
            (Class::Comment, r.iter().position(|c| *c == b'\n').unwrap_or(r.len()))
        } else if r.starts_with(b"/*") {
            // Block comments nest; an unclosed one runs to the end of the file.
            let (mut depth, mut j) = (1, 2);
            while depth > 0 {
                if j + 1 >= r.len() {
                    j = r.len();
                    break;
                }
                if &r[j..j + 2] == b"/*" {
                    depth += 1;
                    j += 2;
                } else if &r[j..j + 2] == b"*/" {
                    depth -= 1;
                    j += 2;
                } else {
                    j += 1;
                }
            }
            (Class::Comment, j)
        } else if r[0].is_ascii_digit() {
            let hex = if r.starts_with(b"0x") {
                let d = r[2..].iter().position(|c| !(c.is_ascii_hexdigit() || *c == b'_')).unwrap_or(r.len() - 2);
                let s = suffix_len(&r[2 + d..]);
                if d + s > 0 { Some(2 + d + s) } else { None }
            } else {
                None
            };
            let n = if r.starts_with(b"0x") && r.len() > 2 && hex.is_none() {
                1
            } else {
                hex.unwrap_or_else(|| {
                    let d = r.iter().position(|c| !(c.is_ascii_digit() || *c == b'_')).unwrap_or(r.len());
                    d + suffix_len(&r[d..])
                })
            };
            (Class::Number, n)
        } else if r.starts_with(b"x\"") {
            let d = r[2..].iter().position(|c| !c.is_ascii_alphanumeric()).unwrap_or(r.len() - 2);
            let close = r.get(2 + d) == Some(&b'"');
            (Class::HexStr, 2 + d + close as usize)
        } else if r.starts_with(b"b\"") {
            let eol = r.iter().position(|c| *c == b'\n').unwrap_or(r.len());
            let mut j = 2;
            let mut end = None;
            while j < eol {
                if r[j] == b'\\' {
                    // an escape takes the whole next character
                    j += 1;
                    if j < eol {
                        j += text[i + j..].chars().next().map(char::len_utf8).unwrap_or(1);
                    } else {
                        break;
                    }
                    continue;
                }
                if r[j] == b'"' {
                    end = Some(j + 1);
                    break;
                }
                j += 1;
            }
            (Class::ByteStr, end.unwrap_or(eol))
        } else if r[0].is_ascii_alphabetic() || r[0] == b'_' {
            (Class::Word, word_len(r))
        } else if r[0] == b'\'' {
            if r.len() > 1 && (r[1].is_ascii_alphabetic() || r[1] == b'_') {
                (Class::QuoteIdent, 1 + word_len(&r[1..]))
            } else {
                (Class::Bad, 1)
            }
        } else if let Some(m) = MULTI.iter().find(|m| r.starts_with(m.as_bytes())) {
            (Class::Punct, m.len())
        } else if b"&|=!<>:%()[]*+,-./;^{}#@".contains(&r[0]) {
            (Class::Punct, 1)
        } else {
            (Class::Bad, text[i..].chars().next().unwrap().len_utf8())
        };
        out.push((class, len));
        i += len;
    }
    out
}
