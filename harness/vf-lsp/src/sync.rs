//! C21: the server's text of a document is the client's, whatever the history of edits.
use crate::client::{Answer, Client, ENCODINGS, Encoding, Options, Scratch, cut};
use crate::project::{Project, crlf, manifest, place, position, range, snippet, starts, widen};
use crate::protocol::report_faults;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};
use vf::{Check, Ctx, Rng};

pub const CHECK: Check = Check {
    id: "C21",
    rule: "random histories of opening, editing (whole, partial, several edits in one note), saving, closing, reopening documents and changing files on disk, in all position encodings and both line endings; the server's text is read back through the formatter's input; non-trivial when an edit was taken in and read back",
    assumptions: &["the transport, line-index, vfs and file-watching crates are stand-ins written for this sandbox"],
    run,
};

const BITS: [&str; 18] = [
    "x", "é", "😀", "\n", "\n\n", "fun f() {}\n", "// note 漢字\n", "/* 𝒳 */", "", "", " ", "let a = 1;\n", "module 0x2::q { }\n",
    "a\u{301}b", "{", "}", "\"", "b\"ß\"",
];

struct Doc {
    rel: String,
    uri: String,
    /// what is on disk, if the file is there
    disk: Option<String>,
    /// what the client has it as, if open
    open: Option<String>,
}

impl Doc {
    fn text(&self) -> Option<&String> {
        self.open.as_ref().or(self.disk.as_ref())
    }
}

fn unix(t: &str) -> String {
    t.replace("\r\n", "\n")
}

/// Offsets an editor can be at: not between a carriage return and its line feed.
fn spot(rng: &mut Rng, text: &str) -> usize {
    let mut o = if rng.chance(1, 6) { *rng.pick(&[0, text.len()]) } else { place(rng, text) };
    if o > 0 && text.as_bytes()[o - 1] == b'\r' && text.as_bytes().get(o) == Some(&b'\n') {
        o -= 1;
    }
    o
}

/// One note's worth of edits, and the text after them.
fn edits(rng: &mut Rng, text: &str, enc: Encoding, dos: bool) -> (Value, String) {
    let mut t = text.to_string();
    let mut out = vec![];
    let n = rng.range(1, 5);
    let backwards = rng.chance(1, 2);
    let mut last = usize::MAX;
    for _ in 0..n {
        if rng.chance(1, 12) {
            t = if rng.chance(1, 2) { snippet(rng) } else { vf::corpus::any_text(rng).replace('\r', "") };
            t.truncate((0..=t.len().min(3000)).rev().find(|i| t.is_char_boundary(*i)).unwrap());
            if dos {
                t = crlf(&t);
            }
            out.push(json!({"text": t}));
            last = usize::MAX;
            continue;
        }
        let (mut a, mut b) = (spot(rng, &t), spot(rng, &t));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if rng.chance(2, 3) {
            b = a + (b - a).min(rng.below(40));
            while !t.is_char_boundary(b) || (b > 0 && t.as_bytes()[b - 1] == b'\r') {
                b -= 1;
            }
            b = b.max(a);
        }
        if backwards && b > last {
            // editors send their edits from the end of the text to its start
            continue;
        }
        last = a;
        let mut bit = (0..rng.range(1, 3)).map(|_| *rng.pick(&BITS)).collect::<String>();
        if dos {
            bit = crlf(&bit);
        }
        out.push(json!({"range": range(&t, a, b, enc), "text": bit}));
        t.replace_range(a..b, &bit);
    }
    (Value::Array(out), t)
}

/// Read the server's text until it is the expected one; what it was last if it never is.
fn until(c: &mut Client, uri: &str, want: &str) -> Result<(), String> {
    let t0 = Instant::now();
    loop {
        let got = c.text_of(uri);
        match got {
            Ok(t) if unix(&t) == unix(want) => return Ok(()),
            got if t0.elapsed() > Duration::from_secs(20) || c.closed => return Err(format!("{got:?}")),
            _ => {
                c.pump(Duration::from_millis(3));
            }
        }
    }
}

/// Everything asked of a document that depends on its text alone.
pub fn fingerprint(c: &mut Client, uri: &str, text: &str, enc: Encoding, places: usize) -> BTreeMap<String, Answer> {
    let mut asked = vec![];
    let doc = json!({"uri": uri});
    for m in [
        "textDocument/documentSymbol",
        "textDocument/semanticTokens/full",
        "textDocument/diagnostic",
        "textDocument/codeLens",
        "aptos-language-server/viewSyntaxTree",
        "experimental/organizeImports",
    ] {
        asked.push((m.to_string(), m, json!({"textDocument": doc})));
    }
    asked.push(("hints".to_string(), "textDocument/inlayHint", json!({"textDocument": doc, "range": range(text, 0, text.len(), enc)})));
    let at = starts(text);
    let step = (at.len() / places.max(1)).max(1);
    for o in at.into_iter().step_by(step) {
        let pos = position(text, o, enc);
        for m in ["textDocument/hover", "textDocument/definition"] {
            asked.push((format!("{m} at {o}"), m, json!({"textDocument": doc, "position": pos})));
        }
    }
    asked
        .into_iter()
        .map(|(name, m, p)| {
            let mut a = c.ask(m, p);
            if let Answer::Ok(v) = &mut a {
                forget(v);
            }
            (name, a)
        })
        .collect()
}

/// Leave out what names the session rather than the text.
fn forget(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for k in ["version", "data", "resultId", "file_id"] {
                m.remove(k);
            }
            m.values_mut().for_each(forget);
        }
        Value::Array(a) => {
            a.iter_mut().for_each(forget);
            // of several answers none is the first
            if a.iter().all(|x| x.is_object()) {
                a.sort_by_key(|x| x.to_string());
            }
        }
        Value::String(t) => {
            if let Some((a, b)) = t.split_once("resolves to ") {
                let mut names: Vec<&str> = b.trim_end_matches(')').split(", ").collect();
                names.sort();
                *t = format!("{a}resolves to {}", names.join(", "));
            }
        }
        _ => {}
    }
}

pub fn difference(a: &BTreeMap<String, Answer>, b: &BTreeMap<String, Answer>) -> Option<String> {
    for (k, x) in a {
        let y = b.get(k);
        if Some(x) != y {
            let y = y.map(|y| y.show()).unwrap_or_default();
            return Some(format!("{k}:\n  {}\n  {}", cut(&x.show()), cut(&y)));
        }
    }
    None
}

fn history(ctx: &Ctx, rng: &mut Rng, steps: usize) {
    let s = Scratch::new();
    let dos = rng.chance(1, 3);
    let enc = *rng.pick(&ENCODINGS);
    let mut p = Project::default();
    p.files.insert("pkg/Move.toml".to_string(), manifest("pkg", &[]));
    let n = rng.range(1, 3);
    let mut docs = vec![];
    for i in 0..n {
        let mut t = snippet(rng);
        t = widen(rng, &t);
        if dos {
            t = crlf(&t);
        }
        let rel = format!("pkg/sources/m{i}.move");
        p.files.insert(rel.clone(), t.clone());
        docs.push(Doc { uri: s.uri(&rel), rel, disk: Some(t), open: None });
    }
    // and one that is not there yet
    let rel = "pkg/sources/new é.move".to_string();
    docs.push(Doc { uri: s.uri(&rel), rel, disk: None, open: None });
    p.lay(&s);
    let mut o = Options::new(&s.uri("pkg")).encoding(enc);
    o.init = Some(s.revealing());
    let mut c = Client::ready(&o);
    let mut log: Vec<String> = vec![format!("{enc:?} dos={dos}")];
    let mut read_back = 0;
    let mut bad: Option<(String, String)> = None;
    for step in 0..steps {
        let i = rng.below(docs.len());
        let d = &mut docs[i];
        let mut fresh = snippet(rng);
        if dos {
            fresh = crlf(&fresh);
        }
        match (rng.below(12), d.open.is_some()) {
            (0..=4, true) => {
                let (changes, after) = edits(rng, d.open.as_ref().unwrap(), enc, dos);
                log.push(format!("change {} {changes}", d.rel));
                c.change(&d.uri, changes);
                d.open = Some(after);
                ctx.count("edits", 1);
            }
            (0..=5, false) => {
                let t = match &d.disk {
                    Some(t) if rng.chance(2, 3) => t.clone(),
                    _ => fresh,
                };
                log.push(format!("open {} {}", d.rel, if Some(&t) == d.disk.as_ref() { "as on disk" } else { "anew" }));
                c.open(&d.uri, &t);
                d.open = Some(t);
            }
            (5, true) => {
                // what the editor does
                let t = d.open.clone().unwrap();
                s.write(&d.rel, &t);
                d.disk = Some(t);
                c.save(&d.uri);
                if rng.chance(1, 2) {
                    c.watched(&[(&d.uri.clone(), 2)]);
                }
                log.push(format!("save {}", d.rel));
            }
            (6 | 7, true) => {
                c.close(&d.uri);
                d.open = None;
                log.push(format!("close {}", d.rel));
            }
            (8, _) => {
                let kind = if d.disk.is_some() { 2 } else { 1 };
                s.write(&d.rel, &fresh);
                d.disk = Some(fresh);
                c.watched(&[(&d.uri.clone(), kind)]);
                log.push(format!("written on disk {}", d.rel));
            }
            (9, _) if d.disk.is_some() => {
                s.remove(&d.rel);
                d.disk = None;
                c.watched(&[(&d.uri.clone(), 3)]);
                log.push(format!("removed from disk {}", d.rel));
            }
            (10, true) => {
                // opened again without being closed: the last text counts
                log.push(format!("open {} again", d.rel));
                c.open(&d.uri, &fresh);
                d.open = Some(fresh);
            }
            (10, false) => {
                log.push(format!("close {} which is not open", d.rel));
                c.close(&d.uri);
            }
            _ => {
                // several documents are saved or changed at once
                let all: Vec<(String, u32)> = docs.iter().map(|d| (d.uri.clone(), 2)).collect();
                let all: Vec<(&str, u32)> = all.iter().map(|(u, k)| (u.as_str(), *k)).collect();
                c.watched(&all);
                log.push("all watched".to_string());
            }
        }
        if rng.chance(1, 3) || step + 1 == steps {
            for d in &docs {
                if let Some(t) = d.text() {
                    read_back += 1;
                    if let Err(got) = until(&mut c, &d.uri, t) {
                        bad = Some((format!("text of a {} document", if d.open.is_some() { "open" } else { "closed" }), format!("{}: the client has {t:?}\nthe server {}", d.rel, got)));
                    }
                }
            }
        }
        if bad.is_some() || c.closed || ctx.stopped() {
            break;
        }
    }
    let story = |log: &Vec<String>| {
        let mut t = log.join("\n");
        for (f, x) in &p.files {
            t += &format!("\n--- {f}\n{x}");
        }
        t
    };
    ctx.count("texts_read_back", read_back);
    ctx.eval(vf::hash_of(&log), read_back > 0);
    ctx.sample(|| log.join("\n"));
    if let Some((sig, what)) = bad {
        report_faults(ctx, &mut c, &|| story(&log));
        ctx.violation(&sig, format!("{what}\n{}", story(&log)));
        return;
    }
    // what was removed is gone
    c.settle();
    for d in &docs {
        if d.text().is_none() {
            let t0 = Instant::now();
            while c.text_of(&d.uri).is_ok() {
                if t0.elapsed() > Duration::from_secs(20) {
                    ctx.violation("text of a removed file", format!("{} is still there\n{}", d.rel, story(&log)));
                    break;
                }
                c.pump(Duration::from_millis(3));
            }
            ctx.count("gone", 1);
        }
    }
    // a server that sees only the outcome says the same of it
    let mut f = Client::ready(&o);
    for d in &docs {
        if let Some(t) = &d.open {
            f.open(&d.uri, t);
        }
    }
    f.settle();
    c.settle();
    for d in &docs {
        let Some(t) = d.text() else { continue };
        let a = fingerprint(&mut c, &d.uri, t, enc, 12);
        let b = fingerprint(&mut f, &d.uri, t, enc, 12);
        ctx.count("answers_compared", a.len() as u64);
        if let Some(diff) = difference(&a, &b) {
            ctx.violation(&format!("after a history: {}", diff.split([' ', ':']).next().unwrap()), format!("{}: {diff}\n{}", d.rel, story(&log)));
            break;
        }
        // edits are for the version the client has
        if d.open.is_some() {
            for o in starts(t).into_iter().step_by(7).take(6) {
                let a = c.ask("textDocument/rename", json!({"textDocument": {"uri": d.uri}, "position": position(t, o, enc), "newName": "renamed"}));
                let Answer::Ok(v) = a else { continue };
                for e in v["documentChanges"].as_array().cloned().unwrap_or_default() {
                    let u = e["textDocument"]["uri"].as_str().unwrap_or("").to_string();
                    let want = docs.iter().find(|x| x.uri == u).map(|x| x.open.as_ref().map(|_| c.version(&u)));
                    ctx.count("versions_seen", 1);
                    if want.is_some_and(|w| json!(w) != e["textDocument"]["version"]) {
                        ctx.violation("version of an edit", format!("{u} is at {want:?}, the edit is for {}\n{}", e["textDocument"]["version"], story(&log)));
                    }
                }
            }
        }
    }
    c.shutdown();
    f.shutdown();
    report_faults(ctx, &mut f, &|| format!("fresh server after\n{}", story(&log)));
    report_faults(ctx, &mut c, &|| story(&log));
}

fn run(ctx: &Ctx) {
    ctx.require("texts_read_back", 300);
    ctx.require("edits", 300);
    ctx.par("histories", ctx.size(1500, 6000), |rng, _| {
        ctx.open("history", "");
        let steps = rng.range(4, 30);
        history(ctx, rng, steps);
        ctx.close();
    });
}
