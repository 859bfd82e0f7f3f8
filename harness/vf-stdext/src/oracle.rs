//! What normalising and restoring line endings must do, written down character by character.
use stdext::line_endings::LineEndings;

pub fn model_normalize(src: &str) -> (String, bool, usize) {
    let cs: Vec<char> = src.chars().collect();
    let mut out = String::with_capacity(src.len());
    let mut n = 0;
    for (i, &c) in cs.iter().enumerate() {
        if c == '\r' && i + 1 < cs.len() && cs[i + 1] == '\n' {
            n += 1;
            continue;
        }
        out.push(c);
    }
    (out, n > 0, n)
}

pub fn model_restore(text: &str) -> String {
    let mut out = String::with_capacity(text.len() + 16);
    for c in text.chars() {
        if c == '\n' {
            out.push('\r');
        }
        out.push(c);
    }
    out
}

fn at(a: &str, b: &str) -> String {
    let p = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let show = |s: &str| {
        let lo = p.saturating_sub(12);
        let b = &s.as_bytes()[lo.min(s.len())..(p + 12).min(s.len())];
        format!("{:?}", String::from_utf8_lossy(b))
    };
    format!("first difference at byte {p} (lengths {} and {}): got {} want {}", a.len(), b.len(), show(a), show(b))
}

/// One refutation of the normalisation property, if there is one. Returns the number of CRLFs.
pub fn check_normalize(src: &str, spare: usize) -> Result<usize, String> {
    let (want, dos, n) = model_normalize(src);
    let mut input = String::with_capacity(src.len() + spare);
    input.push_str(src);
    let (got, style) = LineEndings::normalize(input);
    if let Err(e) = std::str::from_utf8(got.as_bytes()) {
        return Err(format!("the result is not UTF-8: {e}"));
    }
    if got != want {
        return Err(at(&got, &want));
    }
    if (style == LineEndings::Dos) != dos {
        return Err(format!("{n} CRLF pairs but the style is reported as {style:?}"));
    }
    Ok(n)
}

/// One refutation of the restoring property, if there is one.
pub fn check_restore(src: &str) -> Result<usize, String> {
    let unix = LineEndings::Unix.map(src.to_string());
    if unix != src {
        return Err(format!("Unix style changed the text: {}", at(&unix, src)));
    }
    let want = model_restore(src);
    let dos = LineEndings::Dos.map(src.to_string());
    if std::str::from_utf8(dos.as_bytes()).is_err() {
        return Err("the restored text is not UTF-8".to_string());
    }
    if dos != want {
        return Err(format!("Dos style: {}", at(&dos, &want)));
    }
    // The round trips a client sees: edit in LF, write back in the file's own style.
    let (norm, style) = LineEndings::normalize(src.to_string());
    let back = style.map(norm.clone());
    let (again, style2) = LineEndings::normalize(back.clone());
    if !norm.contains("\r\n") {
        if again != norm {
            return Err(format!("normalise(restore(t)) != t: {}", at(&again, &norm)));
        }
        if norm.contains('\n') && style2 != style {
            return Err(format!("style {style:?} came back as {style2:?}"));
        }
    }
    let lone_lf = {
        let b = src.as_bytes();
        (0..b.len()).any(|i| b[i] == b'\n' && (i == 0 || b[i - 1] != b'\r'))
    };
    let crlf = src.contains("\r\n");
    if !(lone_lf && crlf) && back != src {
        return Err(format!("a document with uniform line endings did not survive: {}", at(&back, src)));
    }
    Ok(src.bytes().filter(|b| *b == b'\n').count())
}
