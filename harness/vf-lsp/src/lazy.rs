//! C23: what an answer left for later comes out as it would have at once.
use crate::client::{Answer, Client, Encoding, Options, Scratch, cut};
use crate::project::{Project, position, range, span, starts};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use vf::{Check, Ctx, Rng};

pub const CHECK: Check = Check {
    id: "C23",
    rule: "actions, hints, lenses and completions of a server whose client resolves them later, against those of a server whose client takes them at once, and resolving after the document changed; non-trivial when something was resolved",
    assumptions: &["the transport and line-index crates are stand-ins written for this sandbox"],
    run,
};

/// The text after the edits, when they fit it.
pub fn apply(text: &str, edits: &[Value], enc: Encoding) -> Result<String, String> {
    let mut es: Vec<(usize, usize, usize, String)> = vec![];
    for (i, e) in edits.iter().enumerate() {
        let r = if e["range"].is_null() { &e["replace"] } else { &e["range"] };
        let Some((a, b)) = span(text, r, enc) else { return Err(format!("{r} is no range of the text")) };
        es.push((a, b, i, e["newText"].as_str().unwrap_or("").to_string()));
    }
    es.sort();
    if es.windows(2).any(|w| w[0].1 > w[1].0) {
        return Err(format!("edits overlap: {es:?}"));
    }
    let mut out = text.to_string();
    for (a, b, _, t) in es.iter().rev() {
        out.replace_range(*a..*b, t);
    }
    Ok(out)
}

fn edits_of(edit: &Value, uri: &str) -> Vec<Value> {
    let mut v = vec![];
    for d in edit["documentChanges"].as_array().into_iter().flatten() {
        if d["textDocument"]["uri"] == uri {
            v.extend(d["edits"].as_array().into_iter().flatten().cloned());
        }
    }
    for (u, d) in edit["changes"].as_object().into_iter().flatten() {
        if u == uri {
            v.extend(d.as_array().into_iter().flatten().cloned());
        }
    }
    v
}

fn kinds_with(kind: &str, only: &[&str]) -> bool {
    only.iter().any(|o| *o == kind || o.is_empty() || kind.strip_prefix(o).is_some_and(|r| r.starts_with('.')))
}

fn places(rng: &mut Rng, text: &str, n: usize) -> Vec<usize> {
    let at = starts(text);
    (0..n)
        .map(|_| {
            let o = *rng.pick(&at);
            let e = text[o..].find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(0);
            o + if e > 0 { rng.below(e + 1) } else { 0 }
        })
        .collect()
}

fn case(ctx: &Ctx, rng: &mut Rng) {
    let s = Scratch::new();
    let n = rng.range(1, 3);
    let p = Project::small(rng, n, true);
    p.lay(&s);
    let set = json!({
        "completion": {"autoimport": {"enable": true}},
        "lens": {"enable": true, "run": {"enable": true}, "specifications": {"enable": true}, "location": (*rng.pick(&["above_name", "above_whole_item"]))},
        "inlayHints": {"typeHints": {"enable": true}, "parameterHints": {"enable": true}},
    });
    let wide = *rng.pick(&crate::client::ENCODINGS);
    let base = Options::new(&s.uri("pkg")).settings(set).encoding(wide);
    let mut texts: BTreeMap<String, String> = p.moves().iter().map(|f| (s.uri(f), p.files[f].clone())).collect();
    texts.retain(|_, t| !starts(t).is_empty());
    if texts.is_empty() {
        return;
    }
    let mut lazy = Client::ready(&base);
    let mut eager = Client::ready(&base.clone().with(json!({"textDocument": {
        "codeAction": {"resolveSupport": null}, "inlayHint": {"resolveSupport": null}}})));
    for c in [&mut lazy, &mut eager] {
        for (u, t) in &texts {
            c.open(u, t);
        }
        c.settle();
    }
    let enc = lazy.encoding;
    let story = || texts.iter().map(|(u, t)| format!("--- {u}\n{t}\n")).collect::<String>();
    let err = |a: &Answer| -> Option<String> { if let Answer::Err(c, m) = a { Some(format!("{c} {m}")) } else { None } };
    let mut stale: Vec<(Value, &'static str, String)> = vec![];
    for (uri, text) in &texts {
        // actions
        for _ in 0..ctx.size(6, 20) {
            let mut o = places(rng, text, 2);
            if rng.chance(1, 2) {
                o[1] = o[0];
            }
            o.sort();
            let only: Option<Vec<&str>> = match rng.below(5) {
                0 => Some(vec!["quickfix"]),
                1 => Some(vec!["refactor"]),
                2 => Some(vec!["refactor.rewrite", "refactor.inline"]),
                _ => None,
            };
            let q = |only: &Option<Vec<&str>>| {
                let mut p = json!({"textDocument": {"uri": uri}, "range": range(text, o[0], o[1], enc), "context": {"diagnostics": []}});
                if let Some(k) = only {
                    p["context"]["only"] = json!(k);
                }
                p
            };
            let la = lazy.ask("textDocument/codeAction", q(&only));
            let ea = eager.ask("textDocument/codeAction", q(&only));
            let (Answer::Ok(l), Answer::Ok(e)) = (&la, &ea) else {
                if err(&la) != err(&ea) {
                    ctx.violation("actions: one way fails", format!("{o:?} of {uri}: {} / {}\n{}", la.show(), ea.show(), story()));
                }
                continue;
            };
            let (l, e) = (l.as_array().cloned().unwrap_or_default(), e.as_array().cloned().unwrap_or_default());
            ctx.eval(vf::hash_of(&(text, &o, &only)), !l.is_empty());
            let heads = |v: &[Value]| v.iter().map(|a| (a["title"].to_string(), a["kind"].to_string())).collect::<Vec<_>>();
            if heads(&l) != heads(&e) {
                ctx.violation("actions: different lists", format!("{o:?} of {uri}, only {only:?}:\nlazy  {:?}\neager {:?}\n{}", heads(&l), heads(&e), story()));
                continue;
            }
            if let Some(k) = &only {
                let all = eager.ask("textDocument/codeAction", q(&None)).ok().unwrap_or(Value::Null);
                let want: Vec<_> = heads(all.as_array().map_or(&[], |v| &v[..])).into_iter().filter(|h| kinds_with(h.1.trim_matches('"'), k)).collect();
                if want != heads(&e) {
                    ctx.violation("actions: kinds asked for", format!("{o:?} of {uri}, only {k:?}:\ngot  {:?}\nwant {want:?}\n{}", heads(&e), story()));
                }
                ctx.count("kind_filters", 1);
            }
            for (a, b) in l.iter().zip(&e) {
                if !a["edit"].is_null() {
                    ctx.violation("actions: edit although it is resolved later", format!("{o:?} of {uri}: {a}\n{}", story()));
                    continue;
                }
                let r = lazy.ask("codeAction/resolve", a.clone());
                ctx.count("actions", 1);
                let mut got = match r {
                    Answer::Ok(v) => v,
                    Answer::Err(c, m) => {
                        ctx.violation("actions: not resolved", format!("{o:?} of {uri}: {} gives {c} {m}\n{}", a["title"], story()));
                        continue;
                    }
                };
                let mut want = b.clone();
                for v in [&mut got, &mut want] {
                    v.as_object_mut().map(|m| m.remove("data"));
                }
                if got != want {
                    ctx.violation("actions: resolved to something else", format!("{o:?} of {uri}:\nlater   {}\nat once {}\n{}", cut(&got.to_string()), cut(&want.to_string()), story()));
                }
                let es = edits_of(&want["edit"], uri);
                match apply(text, &es, enc) {
                    Err(m) => ctx.violation("actions: edit does not fit", format!("{o:?} of {uri}: {}: {m}\n{}", a["title"], story())),
                    Ok(t) if t == *text => ctx.violation("actions: changes nothing", format!("{o:?} of {uri}: {}\n{}", cut(&want.to_string()), story())),
                    Ok(_) => ctx.count("actions_applied", 1),
                }
                stale.push((a.clone(), "codeAction/resolve", uri.clone()));
            }
        }
        // hints
        {
            let q = json!({"textDocument": {"uri": uri}, "range": range(text, 0, text.len(), enc)});
            let l = lazy.ask("textDocument/inlayHint", q.clone()).ok().unwrap_or(Value::Null);
            let e = eager.ask("textDocument/inlayHint", q).ok().unwrap_or(Value::Null);
            let (l, e) = (l.as_array().cloned().unwrap_or_default(), e.as_array().cloned().unwrap_or_default());
            if l.len() != e.len() {
                ctx.violation("hints: different lists", format!("{uri}: {} and {}\n{}", l.len(), e.len(), story()));
            }
            for (a, b) in l.iter().zip(&e) {
                let needs = !a["data"].is_null();
                let mut got = if needs {
                    match lazy.ask("inlayHint/resolve", a.clone()) {
                        Answer::Ok(v) => v,
                        Answer::Err(c, m) => {
                            ctx.violation("hints: not resolved", format!("{a} of {uri} gives {c} {m}\n{}", story()));
                            continue;
                        }
                    }
                } else {
                    a.clone()
                };
                got.as_object_mut().map(|m| m.remove("data"));
                ctx.count(if needs { "hints_resolved" } else { "hints_ready" }, 1);
                ctx.eval(vf::hash_of(&(text, a.to_string())), true);
                if got != *b {
                    ctx.violation("hints: resolved to something else", format!("{uri}:\nlater   {}\nat once {}\n{}", cut(&got.to_string()), cut(&b.to_string()), story()));
                }
                if needs {
                    stale.push((a.clone(), "inlayHint/resolve", uri.clone()));
                }
            }
        }
        // lenses
        {
            let v = lazy.ask("textDocument/codeLens", json!({"textDocument": {"uri": uri}})).ok().unwrap_or(Value::Null);
            for a in v.as_array().into_iter().flatten() {
                let Some((x, y)) = span(text, &a["range"], enc) else {
                    ctx.violation("lenses: no range", format!("{a}\n{}", story()));
                    continue;
                };
                if a["command"].is_null() == a["data"].is_null() {
                    ctx.violation("lenses: neither command nor data", format!("{a} of {uri}\n{}", story()));
                    continue;
                }
                if !a["command"].is_null() {
                    ctx.count("lenses_ready", 1);
                    continue;
                }
                ctx.eval(vf::hash_of(&(text, x, y)), true);
                let r = match lazy.ask("codeLens/resolve", a.clone()) {
                    Answer::Ok(v) => v,
                    Answer::Err(c, m) => {
                        ctx.violation("lenses: not resolved", format!("{a} of {uri} gives {c} {m}\n{}", story()));
                        continue;
                    }
                };
                ctx.count("lenses_resolved", 1);
                // the places it leads to are those of specs of the function
                let item = &text[x..y];
                let args = &r["command"]["arguments"];
                let locs: Vec<(String, Value)> = match r["command"]["command"].as_str() {
                    Some("move-on-aptos.gotoLocation") => vec![(args[0]["targetUri"].as_str().unwrap_or("").to_string(), args[0]["targetRange"].clone())],
                    Some("move-on-aptos.showReferences") => args[2].as_array().into_iter().flatten().map(|l| (l["uri"].as_str().unwrap_or("").to_string(), l["range"].clone())).collect(),
                    _ => vec![],
                };
                let title = match locs.len() {
                    1 => "1 specification".to_string(),
                    n => format!("{n} specifications"),
                };
                if r["range"] != a["range"] || locs.is_empty() || r["command"]["title"] != json!(title) {
                    ctx.violation("lenses: what it leads to", format!("{a} of {uri} gives {}\n{}", cut(&r.to_string()), story()));
                }
                for (u, l) in locs {
                    let t = texts.get(&u).and_then(|t| span(t, &l, enc).map(|(a, b)| &t[a..b]));
                    let name = t.and_then(|t| t[if t.starts_with("spec ") { 4 } else { 0 }..].split(|c: char| !(c.is_alphanumeric() || c == '_')).find(|w| !w.is_empty()));
                    let ok = match (t, name) {
                        (Some(_), Some(n)) => vf_word(item, n),
                        _ => false,
                    };
                    if !ok {
                        ctx.violation("lenses: leads elsewhere", format!("{item:?} of {uri} leads to {t:?}\n{}", story()));
                    }
                }
                stale.push((a.clone(), "codeLens/resolve", uri.clone()));
            }
        }
        // completions
        for o in places(rng, text, ctx.size(3, 8)) {
            let tdpp = json!({"textDocument": {"uri": uri}, "position": position(text, o, enc)});
            let Answer::Ok(v) = lazy.ask("textDocument/completion", tdpp) else { continue };
            let items = v["items"].as_array().cloned().unwrap_or_default();
            let mut left = ctx.size(4, 10);
            let mut order: Vec<usize> = (0..items.len()).collect();
            rng.shuffle(&mut order);
            order.sort_by_key(|i| items[*i]["data"].is_null());
            for i in order {
                let a = &items[i];
                if left == 0 {
                    break;
                }
                // items of one name in one module (an error on its own) cannot be told apart
                if items.iter().filter(|b| b["label"] == a["label"] && b["data"] == a["data"]).count() > 1 {
                    continue;
                }
                left -= 1;
                let got = match lazy.ask("completionItem/resolve", a.clone()) {
                    Answer::Ok(v) => v,
                    Answer::Err(c, m) => {
                        ctx.violation("completions: not resolved", format!("{a} at {o} of {uri} gives {c} {m}\n{}", story()));
                        continue;
                    }
                };
                let had = a["additionalTextEdits"].as_array().cloned().unwrap_or_default();
                let has = got["additionalTextEdits"].as_array().cloned().unwrap_or_default();
                let bare = |v: &Value| {
                    let mut v = v.clone();
                    for k in ["data", "additionalTextEdits"] {
                        v.as_object_mut().map(|m| m.remove(k));
                    }
                    v
                };
                ctx.eval(vf::hash_of(&(text, o, a.to_string())), !a["data"].is_null());
                if bare(a) != bare(&got) || !had.iter().all(|e| has.contains(e)) {
                    ctx.violation("completions: another item", format!("at {o} of {uri}\nbefore {}\nafter  {}\n{}", cut(&a.to_string()), cut(&got.to_string()), story()));
                    continue;
                }
                if a["data"].is_null() {
                    ctx.count("completions_ready", 1);
                    if had != has {
                        ctx.violation("completions: edits from nowhere", format!("at {o} of {uri}\nbefore {}\nafter  {}\n{}", cut(&a.to_string()), cut(&got.to_string()), story()));
                    }
                    continue;
                }
                ctx.count("completions_resolved", 1);
                let mut es = has.clone();
                if !got["textEdit"].is_null() {
                    es.push(got["textEdit"].clone());
                }
                match apply(text, &es, enc) {
                    Err(m) => ctx.violation("completions: edits do not fit", format!("at {o} of {uri}: {m}\n{}\n{}", cut(&got.to_string()), story())),
                    Ok(t) => {
                        let path = a["data"]["import"]["full_import_path"].as_str().or(a["data"]["import"]["fullImportPath"].as_str()).unwrap_or("").to_string();
                        let last = path.rsplit("::").next().unwrap_or("");
                        if path.is_empty() || !has.iter().any(|e| ["Self", last].iter().any(|w| vf_word(e["newText"].as_str().unwrap_or(""), w))) {
                            ctx.violation("completions: no import", format!("at {o} of {uri}: {}\n{t}\n{}", cut(&got.to_string()), story()));
                        }
                    }
                }
            }
        }
    }
    // after the document changed
    let mut changed: BTreeMap<String, (String, i64)> = BTreeMap::new();
    for (uri, text) in &texts {
        let t = format!("\n{text}");
        lazy.set_text(uri, &t);
        changed.insert(uri.clone(), (t, 0));
    }
    lazy.settle();
    rng.shuffle(&mut stale);
    for (a, m, uri) in stale.iter().take(ctx.size(12, 40)) {
        ctx.count("stale", 1);
        let r = lazy.ask(m, a.clone());
        match (*m, r) {
            ("codeAction/resolve", Answer::Err(-32602, _)) => {}
            ("codeAction/resolve", r) => ctx.violation("stale action", format!("{} of {uri}: {}\n{}", a["title"], cut(&r.show()), story())),
            (_, Answer::Ok(v)) => {
                let (mut v, mut a) = (v, a.clone());
                for x in [&mut v, &mut a] {
                    x.as_object_mut().map(|m| m.remove("data"));
                }
                if v != a {
                    ctx.violation("stale hint or lens", format!("{m} of {uri}: {} for {}\n{}", cut(&v.to_string()), cut(&a.to_string()), story()));
                }
            }
            (_, r) => ctx.violation("stale hint or lens", format!("{m} of {uri}: {}\n{}", r.show(), story())),
        }
    }
    for c in [&mut lazy, &mut eager] {
        c.shutdown();
        for f in c.faults.drain(..) {
            let sig: String = f.chars().map(|x| if x.is_ascii_digit() { '#' } else { x }).take(90).collect();
            ctx.violation(&format!("fault: {sig}"), format!("{f}\n{}", story()));
        }
    }
}

fn vf_word(text: &str, word: &str) -> bool {
    text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == word)
}

fn run(ctx: &Ctx) {
    ctx.require("actions", 100);
    ctx.require("hints_resolved", 20);
    ctx.require("lenses_resolved", 10);
    ctx.require("completions_resolved", 100);
    ctx.require("stale", 100);
    ctx.par("documents", ctx.size(1500, 8000), |rng, _| {
        ctx.open("documents", "");
        case(ctx, rng);
        ctx.close();
    });
}
