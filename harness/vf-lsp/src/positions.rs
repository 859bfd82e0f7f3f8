//! C22: answers mean the same places and texts in every position encoding, line ending and form of
//! answer, and the places are in the documents.
use crate::client::{Answer, Client, ENCODINGS, Encoding, Options, Scratch, cut};
use crate::project::{Project, crlf, position, range, span, offset, starts};
use crate::protocol::{ABOUT, report_faults};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use vf::{Check, Ctx, Rng};

pub const CHECK: Check = Check {
    id: "C22",
    rule: "the same questions about the same documents put to servers that differ in position encoding, line endings or the form of answers the client takes; answers are compared as places in the text; non-trivial when an answer holds a place",
    assumptions: &["the transport and line-index crates are stand-ins written for this sandbox; the client's arithmetic of positions is independent of them"],
    run,
};

/// The document's places as offsets. Places outside of a document are noted in `odd`.
pub struct Places<'a> {
    pub texts: &'a BTreeMap<String, String>,
    pub enc: Encoding,
    pub odd: Vec<String>,
    pub seen: u64,
}

impl Places<'_> {
    pub fn walk(&mut self, v: &mut Value, uri: &str) {
        match v {
            Value::Object(m) => {
                m.remove("data");
                m.remove("resultId");
                m.remove("version");
                if m.len() == 2 && m.contains_key("line") && m.contains_key("character") {
                    self.seen += 1;
                    *v = match self.texts.get(uri).map(|t| offset(t, v, self.enc)) {
                        Some(Some(o)) => json!(o),
                        Some(None) => {
                            self.odd.push(format!("{v} is no place of {uri}"));
                            Value::Null
                        }
                        None => return,
                    };
                    return;
                }
                if m.len() == 2 && m.contains_key("start") && m.contains_key("end") {
                    self.seen += 1;
                    *v = match self.texts.get(uri).map(|t| span(t, v, self.enc)) {
                        Some(Some((a, b))) => json!([a, b]),
                        Some(None) => {
                            self.odd.push(format!("{v} is no range of {uri}"));
                            Value::Null
                        }
                        None => return,
                    };
                    return;
                }
                let mut own = uri.to_string();
                if let Some(u) = m.get("uri").and_then(|x| x.as_str()) {
                    own = u.to_string();
                }
                if let Some(u) = m.get("textDocument").and_then(|x| x["uri"].as_str()) {
                    own = u.to_string();
                }
                let target = m.get("targetUri").and_then(|x| x.as_str()).map(|s| s.to_string());
                for (k, x) in m.iter_mut() {
                    if k == "changes" && x.is_object() {
                        for (u, e) in x.as_object_mut().unwrap() {
                            self.walk(e, u);
                        }
                    } else if let (Some(t), true) = (&target, k.starts_with("target")) {
                        self.walk(x, t);
                    } else {
                        self.walk(x, &own);
                    }
                }
            }
            Value::Array(a) => {
                let first = a.first().and_then(|x| x.as_str()).filter(|u| u.starts_with("file://")).map(|s| s.to_string());
                let own = first.unwrap_or(uri.to_string());
                a.iter_mut().for_each(|x| self.walk(x, &own));
                if a.iter().all(|x| x.is_object()) {
                    a.sort_by_key(|x| x.to_string());
                }
            }
            _ => {}
        }
    }
}

/// Semantic tokens as (start, end, type, modifiers); complains about ones out of order or bounds.
pub fn tokens(v: &Value, text: &str, enc: Encoding, odd: &mut Vec<String>) -> Vec<(usize, usize, u64, u64)> {
    let data: Vec<u64> = v["data"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let (mut line, mut col) = (0u64, 0u64);
    let mut out: Vec<(usize, usize, u64, u64)> = vec![];
    for t in data.chunks(5) {
        if t.len() < 5 {
            odd.push("tokens are not in fives".to_string());
            break;
        }
        line += t[0];
        col = if t[0] == 0 { col + t[1] } else { t[1] };
        let r = json!({"start": {"line": line, "character": col}, "end": {"line": line, "character": col + t[2]}});
        match span(text, &r, enc) {
            Some((a, b)) => {
                if out.last().is_some_and(|l| l.1 > a) {
                    odd.push(format!("token at {r} overlaps the one before"));
                }
                if a == b {
                    odd.push(format!("empty token at {r}"));
                }
                out.push((a, b, t[3], t[4]));
            }
            None => odd.push(format!("no token can be at {r}")),
        }
    }
    out
}

/// The shape that answers have on their own.
fn shape(method: &str, v: &Value, odd: &mut Vec<String>) {
    let r = |v: &Value| -> Option<(u64, u64)> { Some((v.get(0)?.as_u64()?, v.get(1)?.as_u64()?)) };
    match method {
        "textDocument/documentSymbol" => {
            fn inside(v: &Value, outer: Option<(u64, u64)>, odd: &mut Vec<String>, r: &dyn Fn(&Value) -> Option<(u64, u64)>) {
                for s in v.as_array().into_iter().flatten() {
                    let (Some(full), Some(sel)) = (r(&s["range"]), r(&s["selectionRange"])) else { continue };
                    if sel.0 < full.0 || sel.1 > full.1 {
                        odd.push(format!("symbol {} has its name outside of it", s["name"]));
                    }
                    if outer.is_some_and(|o| full.0 < o.0 || full.1 > o.1) {
                        odd.push(format!("symbol {} is outside of its parent", s["name"]));
                    }
                    inside(&s["children"], Some(full), odd, r);
                }
            }
            inside(v, None, odd, &r);
        }
        "textDocument/selectionRange" => {
            for s in v.as_array().into_iter().flatten() {
                let mut s = s;
                while !s["parent"].is_null() {
                    let (a, b) = (r(&s["range"]), r(&s["parent"]["range"]));
                    if let (Some(a), Some(b)) = (a, b) {
                        if b.0 > a.0 || b.1 < a.1 || a == b {
                            odd.push(format!("selection {a:?} grows to {b:?}"));
                        }
                    }
                    s = &s["parent"];
                }
            }
        }
        "textDocument/rename" | "textDocument/formatting" | "experimental/organizeImports" => {
            let mut lists: Vec<&Value> = vec![v];
            for e in v["documentChanges"].as_array().into_iter().flatten() {
                lists.push(&e["edits"]);
            }
            for e in v["changes"].as_object().into_iter().flatten() {
                lists.push(e.1);
            }
            for l in lists {
                let mut rs: Vec<(u64, u64)> = l.as_array().into_iter().flatten().filter_map(|e| r(&e["range"])).collect();
                rs.sort();
                if rs.windows(2).any(|w| w[0].1 > w[1].0) {
                    odd.push(format!("edits overlap: {rs:?}"));
                }
            }
        }
        _ => {}
    }
}

fn with_crlf(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                if let (true, Some(t)) = (k == "newText" || k == "insertText", x.as_str()) {
                    *x = json!(crlf(t));
                } else {
                    with_crlf(x);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(with_crlf),
        _ => {}
    }
}
fn plain(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for k in ["data", "resultId", "version"] {
                m.remove(k);
            }
            m.values_mut().for_each(plain);
        }
        Value::Array(a) => {
            a.iter_mut().for_each(plain);
            if a.iter().all(|x| x.is_object()) {
                a.sort_by_key(|x| x.to_string());
            }
        }
        _ => {}
    }
}

struct Question {
    method: &'static str,
    uri: String,
    /// offsets that go into the parameters
    at: Vec<usize>,
    kind: u8,
}

fn put(q: &Question, text: &str, enc: Encoding) -> Value {
    let mut p = json!({"textDocument": {"uri": q.uri}});
    match q.kind {
        1 => p["position"] = position(text, q.at[0], enc),
        2 => p["range"] = range(text, q.at[0].min(q.at[1]), q.at[0].max(q.at[1]), enc),
        3 => p["positions"] = q.at.iter().map(|o| position(text, *o, enc)).collect(),
        4 => p = json!({"query": (["", "m", "#a", "s"][q.at[0] % 4])}),
        _ => {}
    }
    match q.method {
        "textDocument/rename" => p["newName"] = json!("renamed"),
        "textDocument/references" => p["context"] = json!({"includeDeclaration": true}),
        "textDocument/codeAction" => p["context"] = json!({"diagnostics": []}),
        "textDocument/formatting" => p["options"] = json!({"tabSize": 4, "insertSpaces": true}),
        _ => {}
    }
    p
}

fn case(ctx: &Ctx, rng: &mut Rng) {
    let s = Scratch::new();
    let n = rng.range(1, 2);
    let mut p = Project::small(rng, n, true);
    if rng.chance(1, 6) {
        // no line feed at the end
        for (f, t) in p.files.iter_mut() {
            if f.ends_with(".move") {
                *t = t.trim_end().to_string();
            }
        }
    }
    p.lay(&s);
    let formatter = s.script("upper", "sed 's/let/  let/'");
    let base = Options::new(&s.uri("pkg")).settings(json!({"movefmt": {"path": formatter}}));
    let texts: BTreeMap<String, String> = p.moves().iter().map(|f| (s.uri(f), p.files[f].clone())).collect();
    let mut qs = vec![];
    for (uri, t) in &texts {
        let at = starts(t);
        if at.is_empty() {
            continue;
        }
        for &(m, k) in ABOUT {
            if m == "aptos-language-server/viewSyntaxTree" || m == "aptos-language-server/analyzerStatus" {
                continue;
            }
            let times = if k == 0 { 1 } else { ctx.size(8, 25) };
            for _ in 0..times {
                let o: Vec<usize> = (0..2)
                    .map(|_| {
                        let o = *rng.pick(&at);
                        // inside of words too
                        let e = t[o..].find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(0);
                        o + if e > 0 && rng.chance(1, 2) { rng.below(e + 1) } else { 0 }
                    })
                    .collect();
                qs.push(Question { method: m, uri: uri.clone(), at: o, kind: k });
            }
        }
    }
    let ask = |o: &Options, texts: &BTreeMap<String, String>, open: bool, tag: &str| -> (Vec<Answer>, Vec<String>) {
        let mut c = Client::ready(o);
        if open {
            for (u, t) in texts {
                c.open(u, t);
            }
            c.settle();
        }
        let ks: Vec<String> = qs.iter().map(|q| {
            let pr = put(q, &texts[&q.uri], c.encoding);
            c.request(q.method, pr)
        }).collect();
        let a = ks.iter().map(|k| c.wait(k)).collect();
        c.shutdown();
        let f = c.faults.iter().map(|f| format!("{tag}: {f}")).collect();
        c.faults.clear();
        (a, f)
    };
    let show = |q: &Question| format!("{} at {:?} of {}", q.method, q.at, q.uri);
    let story = || texts.iter().map(|(u, t)| format!("--- {u}\n{t}\n")).collect::<String>();
    let mut faults = vec![];
    // encodings
    let mut first: Option<Vec<(Value, Value)>> = None;
    let mut order = ENCODINGS.to_vec();
    rng.shuffle(&mut order);
    let open = rng.chance(1, 2);
    for enc in &order {
        let (a, f) = ask(&base.clone().encoding(*enc), &texts, open, enc.name());
        faults.extend(f);
        let mut out = vec![];
        for (q, a) in qs.iter().zip(&a) {
            let raw = match a {
                Answer::Ok(v) => v.clone(),
                Answer::Err(c, m) => json!({"error": c, "message": m}),
            };
            let mut odd = vec![];
            let mut v = raw.clone();
            let meaning = if q.method.starts_with("textDocument/semanticTokens") {
                let t = tokens(&v, &texts[&q.uri], *enc, &mut odd);
                ctx.count("places", t.len() as u64);
                json!(t)
            } else {
                let mut pl = Places { texts: &texts, enc: *enc, odd: vec![], seen: 0 };
                pl.walk(&mut v, &q.uri);
                ctx.count("places", pl.seen);
                odd.append(&mut pl.odd);
                shape(q.method, &v, &mut odd);
                v
            };
            ctx.eval(vf::hash_of(&(q.method, q.at.clone(), &texts[&q.uri])), !raw.is_null());
            ctx.count(&format!("answers_{}", enc.name()), 1);
            for o in odd {
                let sig: String = o.split("file://").next().unwrap().chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(60).collect();
                ctx.violation(&format!("{}: {sig}", q.method), format!("{}: {o} ({})\nanswer {}\n{}", show(q), enc.name(), cut(&raw.to_string()), story()));
            }
            out.push((meaning, raw));
        }
        match &first {
            None => first = Some(out),
            Some(f) => {
                for ((q, x), y) in qs.iter().zip(f).zip(&out) {
                    ctx.count("compared_encodings", 1);
                    if x.0 != y.0 {
                        ctx.violation(
                            &format!("{} in {} and {}", q.method, order[0].name(), enc.name()),
                            format!("{}\n{}\n{}\n{}", show(q), cut(&x.0.to_string()), cut(&y.0.to_string()), story()),
                        );
                    }
                }
            }
        }
    }
    let first = first.unwrap();
    let enc0 = order[0];
    // line endings
    {
        let dos: BTreeMap<String, String> = texts.iter().map(|(u, t)| (u.clone(), crlf(t))).collect();
        if !open {
            for f in p.moves() {
                s.write(&f, &crlf(&p.files[&f]));
            }
        }
        // ask with the places of the text as it was: lines and columns are the same
        let mut c = Client::ready(&base.clone().encoding(enc0));
        if open {
            for (u, t) in &dos {
                c.open(u, t);
            }
            c.settle();
        }
        let ks: Vec<String> = qs.iter().map(|q| {
            let pr = put(q, &texts[&q.uri], c.encoding);
            c.request(q.method, pr)
        }).collect();
        for ((q, k), x) in qs.iter().zip(&ks).zip(&first) {
            let mut y = match c.wait(k) {
                Answer::Ok(v) => v,
                Answer::Err(c, m) => json!({"error": c, "message": m}),
            };
            let mut x = x.1.clone();
            if !q.method.starts_with("textDocument/semanticTokens") {
                plain(&mut x);
                plain(&mut y);
            }
            with_crlf(&mut x);
            ctx.count("compared_line_endings", 1);
            plain(&mut x);
            plain(&mut y);
            if x != y {
                ctx.violation(
                    &format!("{} with carriage returns", q.method),
                    format!("{}\nwithout {}\nwith    {}\n{}", show(q), cut(&x.to_string()), cut(&y.to_string()), story()),
                );
            }
        }
        c.shutdown();
        faults.extend(c.faults.drain(..).map(|f| format!("crlf: {f}")));
        for f in p.moves() {
            s.write(&f, &p.files[&f]);
        }
    }
    // other forms of answers
    {
        let o = base.clone().encoding(enc0).with(json!({
            "textDocument": {"documentSymbol": {"hierarchicalDocumentSymbolSupport": false}, "definition": {"linkSupport": false},
                "signatureHelp": {"signatureInformation": {"parameterInformation": {"labelOffsetSupport": false}}}},
        }));
        let (a, f) = ask(&o, &texts, open, "plain forms");
        faults.extend(f);
        for ((q, a), x) in qs.iter().zip(&a).zip(&first) {
            let mut y = match a {
                Answer::Ok(v) => v.clone(),
                Answer::Err(c, m) => json!({"error": c, "message": m}),
            };
            let mut x = x.1.clone();
            match q.method {
                "textDocument/documentSymbol" => {
                    let mut flat = vec![];
                    fn walk(v: &Value, parent: Option<&str>, uri: &str, out: &mut Vec<Value>) {
                        for s in v.as_array().into_iter().flatten() {
                            out.push(json!({"name": s["name"], "kind": s["kind"], "range": s["range"], "uri": uri, "container": parent}));
                            walk(&s["children"], s["name"].as_str(), uri, out);
                        }
                    }
                    walk(&x, None, &q.uri, &mut flat);
                    x = json!(flat);
                    let l: Vec<Value> = y.as_array().into_iter().flatten().map(|s| json!({"name": s["name"], "kind": s["kind"], "range": s["location"]["range"], "uri": s["location"]["uri"], "container": s.get("containerName")})).collect();
                    y = json!(l);
                }
                "textDocument/definition" => {
                    let l: Vec<Value> = x.as_array().into_iter().flatten().map(|l| json!({"uri": l["targetUri"], "range": l["targetSelectionRange"]})).collect();
                    if !x.is_null() {
                        x = json!(l);
                    }
                }
                "textDocument/signatureHelp" => {
                    // parameters by name are the parts of the label at the offsets
                    for sig in x.get_mut("signatures").and_then(Value::as_array_mut).into_iter().flatten() {
                        let label: Vec<u16> = sig["label"].as_str().unwrap_or_default().encode_utf16().collect();
                        for p in sig["parameters"].as_array_mut().into_iter().flatten() {
                            let (a, b) = (p["label"][0].as_u64(), p["label"][1].as_u64());
                            if let (Some(a), Some(b)) = (a, b) {
                                p["label"] = json!(label.get(a as usize..b as usize).map(String::from_utf16_lossy));
                            }
                        }
                        ctx.count("compared_signatures", 1);
                    }
                }
                _ => {}
            }
            if q.method == "textDocument/codeAction" {
                continue;
            }
            plain(&mut x);
            plain(&mut y);
            ctx.count("compared_forms", 1);
            if x != y {
                ctx.violation(
                    &format!("{} in its plain form", q.method),
                    format!("{}\nrich  {}\nplain {}\n{}", show(q), cut(&x.to_string()), cut(&y.to_string()), story()),
                );
            }
        }
    }
    // tokens of a range are those of the file that are in it
    for (q, x) in qs.iter().zip(&first) {
        if q.method != "textDocument/semanticTokens/range" {
            continue;
        }
        let (a, b) = (q.at[0].min(q.at[1]), q.at[0].max(q.at[1]));
        let full = qs.iter().zip(&first).find(|(f, _)| f.uri == q.uri && f.method == "textDocument/semanticTokens/full");
        if let Some((_, f)) = full {
            let inside: Vec<&Value> = f.0.as_array().into_iter().flatten().filter(|t| t[0].as_u64().unwrap() >= a as u64 && t[1].as_u64().unwrap() <= b as u64).collect();
            let got: Vec<&Value> = x.0.as_array().into_iter().flatten().filter(|t| t[0].as_u64().unwrap() >= a as u64 && t[1].as_u64().unwrap() <= b as u64).collect();
            ctx.count("compared_token_ranges", 1);
            if inside != got {
                ctx.violation("tokens of a range", format!("{}\nfile  {inside:?}\nrange {got:?}\n{}", show(q), story()));
            }
        }
    }
    for f in faults {
        let sig: String = f.chars().map(|x| if x.is_ascii_digit() { '#' } else { x }).take(90).collect();
        ctx.violation(&format!("fault: {sig}"), format!("{f}\n{}", story()));
    }
    let _ = report_faults;
}

fn run(ctx: &Ctx) {
    ctx.require("places", 5000);
    ctx.require("compared_encodings", 1000);
    ctx.require("compared_line_endings", 500);
    ctx.require("compared_signatures", 20);
    ctx.par("documents", ctx.size(250, 4000), |rng, _| {
        ctx.open("documents", "");
        case(ctx, rng);
        ctx.close();
    });
}
