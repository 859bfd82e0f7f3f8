//! C20: every request gets exactly one answer of the right kind, whatever the client sends.
use crate::client::{Answer, Client, Options, Scratch, cut};
use crate::project::{Project, place, position, range};
use serde_json::{Value, json};
use vf::{Check, Ctx, Rng};

pub const CHECK: Check = Check {
    id: "C20",
    rule: "random conversations with the real server process (requests of every kind, wrong parameters, unknown methods, edits in between, cancellations, odd notifications, shutdown in all its ways), watched online; a conversation is non-trivial when a request was answered",
    assumptions: &["the transport crate (framing, request queue) is a stand-in written for this sandbox"],
    run,
};

/// Requests on a document: (method, extra parameters, takes a position, takes a range).
pub const ABOUT: &[(&str, u8)] = &[
    ("textDocument/hover", 1),
    ("textDocument/definition", 1),
    ("textDocument/completion", 1),
    ("textDocument/signatureHelp", 1),
    ("textDocument/references", 1),
    ("textDocument/documentHighlight", 1),
    ("textDocument/prepareRename", 1),
    ("textDocument/rename", 1),
    ("textDocument/selectionRange", 3),
    ("textDocument/codeAction", 2),
    ("textDocument/inlayHint", 2),
    ("textDocument/semanticTokens/range", 2),
    ("textDocument/semanticTokens/full", 0),
    ("textDocument/documentSymbol", 0),
    ("textDocument/codeLens", 0),
    ("textDocument/diagnostic", 0),
    ("textDocument/formatting", 0),
    ("aptos-language-server/viewSyntaxTree", 0),
    ("experimental/organizeImports", 0),
    ("aptos-language-server/analyzerStatus", 0),
    ("workspace/symbol", 4),
];

pub fn params(rng: &mut Rng, c: &Client, method: &str, kind: u8, uri: &str, text: &str) -> Value {
    let mut p = json!({"textDocument": {"uri": uri}});
    let enc = c.encoding;
    match kind {
        1 => p["position"] = position(text, place(rng, text), enc),
        2 => {
            let (a, b) = (place(rng, text), place(rng, text));
            p["range"] = range(text, a.min(b), a.max(b), enc);
        }
        3 => p["positions"] = json!([position(text, place(rng, text), enc), position(text, place(rng, text), enc)]),
        4 => p = json!({"query": *rng.pick(&["", "m", "te", "#", "S", "zzz", "é"])}),
        _ => {}
    }
    match method {
        "textDocument/rename" => p["newName"] = json!(*rng.pick(&["renamed", "Renamed", "1bad", "", "fun", "a b", "é"])),
        "textDocument/references" => p["context"] = json!({"includeDeclaration": rng.chance(1, 2)}),
        "textDocument/codeAction" => p["context"] = json!({"diagnostics": []}),
        "textDocument/formatting" => p["options"] = json!({"tabSize": 4, "insertSpaces": true}),
        _ => {}
    }
    p
}

/// What kinds of answer a request may get.
#[derive(Clone, Debug)]
struct Expect {
    method: String,
    ok: bool,
    codes: Vec<i64>,
    /// an internal error that is not a crash of the handler
    failing: bool,
}

pub fn report_faults(ctx: &Ctx, c: &mut Client, story: &dyn Fn() -> String) {
    for f in std::mem::take(&mut c.faults) {
        let sig: String = f.chars().map(|x| if x.is_ascii_digit() { '#' } else { x }).take(90).collect();
        ctx.violation(&format!("fault: {sig}"), format!("{f}\n{}", story()));
    }
}

pub fn panicked(a: &Answer) -> Option<&str> {
    match a {
        Answer::Err(_, m) if m.starts_with("request handler panicked") => Some(m),
        _ => None,
    }
}

fn conversation(ctx: &Ctx, rng: &mut Rng, steps: usize) {
    let s = Scratch::new();
    let n = rng.range(1, 3);
    let wide = rng.chance(1, 2);
    let p = Project::small(rng, n, wide);
    p.lay(&s);
    let mut o = Options::new(&s.uri("pkg"));
    o.init = Some(s.revealing());
    if rng.chance(1, 3) {
        o = o.with(json!({"workspace": {"semanticTokens": {"refreshSupport": true}, "codeLens": {"refreshSupport": true}, "inlayHint": {"refreshSupport": true}, "diagnostics": {"refreshSupport": true}}}));
    }
    let enc = *rng.pick(&crate::client::ENCODINGS);
    o = o.encoding(enc);
    let early = rng.chance(1, 4);
    let mut c = if early { Client::start(&o) } else { Client::ready(&o) };
    c.refuse = rng.chance(1, 8);
    let mut docs: Vec<(String, String, bool)> =
        p.moves().iter().map(|f| (s.uri(f), p.files[f].clone(), false)).collect();
    let mut log: Vec<String> = vec![];
    let mut want: Vec<(String, Expect)> = vec![];
    let mut string_ids = 0;
    for _ in 0..steps {
        let d = rng.below(docs.len());
        match rng.below(24) {
            0..=9 => {
                let (uri, text, _) = docs[d].clone();
                let (m, k) = *rng.pick(ABOUT);
                let mut pr = params(rng, &c, m, k, &uri, &text);
                let mut e = Expect { method: m.to_string(), ok: true, codes: vec![-32801], failing: false };
                // edits under way may have moved the place out of the text the server looks at
                match rng.below(12) {
                    0 => {
                        // wrong parameters
                        pr = match rng.below(4) {
                            0 => json!({"textDocument": 5}),
                            1 => json!([1, 2]),
                            2 => json!("x"),
                            _ => json!({"textDocument": {"uri": {}}, "query": 1, "position": {"line": -1, "character": "x"}}),
                        };
                        if m != "aptos-language-server/analyzerStatus" {
                            e.ok = false;
                            e.codes = vec![-32602];
                        } else {
                            e.codes.push(-32602);
                        }
                    }
                    1 if k != 4 => {
                        pr["textDocument"]["uri"] = json!(*rng.pick(&["file:///nowhere/x.move", "untitled:Untitled-1", "file:///", "git:/a.move?x"]));
                        e.failing = true;
                        e.codes.push(-32602);
                    }
                    2 if k == 1 => {
                        pr["position"] = json!({"line": *rng.pick(&[0u64, 3, 100000, 4294967295]), "character": *rng.pick(&[0u64, 5, 70000, 4294967295])});
                        e.failing = true;
                    }
                    3 if k == 2 => {
                        pr["range"] = json!({"start": {"line": 100000, "character": 3}, "end": {"line": 0, "character": 0}});
                        e.failing = true;
                    }
                    _ => {}
                }
                if m == "textDocument/rename" || m == "textDocument/prepareRename" {
                    e.codes.push(-32602);
                    e.failing = true;
                }
                if m == "textDocument/diagnostic" {
                    e.codes.push(-32802);
                }
                if early {
                    e.failing = true;
                }
                let key = if rng.chance(1, 5) {
                    string_ids += 1;
                    c.request_as(json!(format!("s{string_ids}")), m, pr.clone())
                } else {
                    c.request(m, pr.clone())
                };
                log.push(format!("{key} {m} {}", cut(&pr.to_string())));
                want.push((key, e));
            }
            10 | 11 => {
                let m = *rng.pick(&["textDocument/unknown", "foo", "workspace/executeCommand", "$/x", "textDocument/typeDefinition", ""]);
                let key = c.request(m, json!({}));
                log.push(format!("{key} {m}"));
                want.push((key, Expect { method: m.to_string(), ok: false, codes: vec![-32601], failing: false }));
            }
            12 | 13 => {
                // cancel something: pending, long answered or never asked
                if let Some((k, e)) = want.last_mut() {
                    let id: Value = serde_json::from_str(k).unwrap();
                    let times = rng.range(1, 2);
                    for _ in 0..times {
                        c.notify("$/cancelRequest", json!({"id": id}));
                    }
                    e.codes.push(-32800);
                    log.push(format!("cancel {id}"));
                } else {
                    c.notify("$/cancelRequest", json!({"id": *rng.pick(&[0, 77, -5])}));
                }
            }
            14..=16 => {
                let (uri, text, opened) = &mut docs[d];
                if !*opened {
                    c.open(uri, text);
                    *opened = true;
                    log.push(format!("open {uri}"));
                } else {
                    // bodies only shrink and grow at the end, so that places stay in the text
                    let extra = *rng.pick(&["// x\n", "\n\n", "fun f() {}\n", "module 0x9::q { }\n", "/* "]);
                    let e = text.len();
                    let r = range(text, e, e, c.encoding);
                    c.change(uri, json!([{"range": r, "text": extra}]));
                    text.push_str(extra);
                    log.push(format!("append {extra:?} to {uri}"));
                }
            }
            17 => {
                let (uri, text, opened) = &mut docs[d];
                if *opened && rng.chance(1, 3) {
                    // back to what is on disk: shorter, so ask only after that is taken in
                    let disk = p.files.values().find(|t| text.starts_with(t.as_str())).cloned();
                    if let Some(t) = disk {
                        *text = t;
                        c.set_text(uri, text);
                        log.push(format!("reset {uri}"));
                    }
                } else if *opened {
                    c.save(uri);
                    log.push(format!("save {uri}"));
                }
            }
            18 => {
                let (m, pr) = match rng.below(9) {
                    0 => ("$/unknown", json!({"a": 1})),
                    1 => ("workspace/unknown", json!(null)),
                    2 => ("textDocument/didChange", json!({"textDocument": 7})),
                    3 => ("textDocument/didOpen", json!([])),
                    4 => ("textDocument/didChange", json!({"textDocument": {"uri": "file:///never/opened.move", "version": 3}, "contentChanges": [{"text": "x"}]})),
                    5 => ("textDocument/didClose", json!({"textDocument": {"uri": "file:///never/opened.move"}})),
                    6 => ("window/workDoneProgress/cancel", json!({"token": "x"})),
                    7 => ("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": "file:///never/x.move", "type": 1}, {"uri": "untitled:x", "type": 2}]})),
                    _ => ("$/setTrace", json!({"value": "off"})),
                };
                c.notify(m, pr.clone());
                log.push(format!("note {m} {pr}"));
            }
            19 => {
                c.settings = match rng.below(4) {
                    0 => json!({"inlayHints": {"typeHints": {"enable": false}}}),
                    1 => json!({"diagnostics": {"disabled": ["unused-import"]}, "lens": {"enable": 5}}),
                    2 => json!(null),
                    _ => json!({"x": [1, {"y": 2}], "diagnostics": "all"}),
                };
                c.notify("workspace/didChangeConfiguration", json!({"settings": {}}));
                log.push(format!("settings {}", c.settings));
            }
            20 => {
                let (uri, _, _) = &docs[d];
                c.watched(&[(uri, *rng.pick(&[1, 2, 3]))]);
                log.push(format!("watched {uri}"));
            }
            21 => {
                let f = if rng.chance(1, 2) { s.uri("") } else { s.uri("pkg") };
                let folder = json!([{"uri": f, "name": "w"}]);
                let none = json!([]);
                let ev = if rng.chance(1, 2) { json!({"added": folder, "removed": none}) } else { json!({"added": folder, "removed": folder}) };
                c.notify("workspace/didChangeWorkspaceFolders", json!({"event": ev}));
                log.push("folders".to_string());
            }
            22 => {
                // an answer for all that is under way
                if let Some((k, _)) = want.last() {
                    let k = k.clone();
                    c.wait(&k);
                }
            }
            _ => c.drain(),
        }
        if c.closed || ctx.stopped() {
            break;
        }
    }
    for (k, _) in &want {
        c.wait(k);
    }
    if early {
        c.settle();
    }
    let story = || {
        let mut t = log.join("\n");
        for (f, x) in &p.files {
            if f.ends_with(".move") {
                t += &format!("\n--- {f}\n{x}");
            }
        }
        t
    };
    let mut answered = 0;
    for (k, e) in &want {
        let Some(a) = c.answer_of(k).cloned() else { continue };
        answered += 1;
        ctx.count("requests_answered", 1);
        if let Some(m) = panicked(&a) {
            ctx.violation(&format!("{} panicked: {}", e.method, cut(&m.chars().take(160).collect::<String>())), format!("{m}\nrequest {k}\n{}", story()));
            continue;
        }
        let fine = match &a {
            Answer::Ok(v) => {
                ctx.count("answers_result", 1);
                // while packages load parameters are not looked at
                e.ok || v.is_null() || *v == json!("") || *v == json!([]) || v["items"] == json!([])
            }
            Answer::Err(code, m) => {
                ctx.count(&format!("answers_error_{code}"), 1);
                // a retried request may meet a text that has become shorter
                e.codes.contains(code) || (*code == -32603 && (e.failing || m.starts_with("Invalid offset")))
            }
        };
        if !fine {
            ctx.violation(
                &format!("{} answered with {}", e.method, cut(&a.show().chars().take(100).collect::<String>())),
                format!("request {k} of {}: expected {e:?}, got {}\n{}", e.method, cut(&a.show()), story()),
            );
        }
    }
    ctx.eval(vf::hash_of(&log), answered > 0);
    ctx.sample(|| log.join("\n"));
    c.settle();
    let unfinished = c.unfinished_progress();
    if !unfinished.is_empty() {
        c.faults.push(format!("progress never ended: {unfinished:?}"));
    }
    // the end
    match rng.below(4) {
        0 => {
            // whatever is asked after shutdown is refused
            let k = c.request("shutdown", Value::Null);
            let (uri, text, _) = docs[0].clone();
            let mut ks = vec![];
            for _ in 0..5 {
                let (m, kd) = *rng.pick(ABOUT);
                let pr = params(rng, &c, m, kd, &uri, &text);
                ks.push((m, c.request(m, pr)));
            }
            ks.push(("foo", c.request("foo", json!({}))));
            c.wait(&k);
            for (m, k) in ks {
                let a = c.wait(&k);
                ctx.count("refused_after_shutdown", 1);
                if !matches!(a, Answer::Err(-32600, _)) {
                    ctx.violation(&format!("{m} after shutdown"), format!("answered with {}\n{}", cut(&a.show()), story()));
                }
            }
            c.notify("exit", Value::Null);
            match c.wait_exit() {
                Some(st) if st.success() => ctx.count("clean_ends", 1),
                st => c.faults.push(format!("after shutdown, requests and exit the server ended with {st:?}")),
            }
        }
        1 => {
            // the client just goes away
            c.close_stdin();
            match c.wait_exit() {
                Some(st) if !st.success() && st.code().is_some() => ctx.count("client_gone", 1),
                st => c.faults.push(format!("when the client went away the server ended with {st:?}: {}", c.stderr_tail())),
            }
        }
        _ => {
            c.shutdown();
            ctx.count("clean_ends", 1);
        }
    }
    ctx.count("server_messages", c.messages);
    ctx.count("server_requests", c.asked.len() as u64);
    report_faults(ctx, &mut c, &story);
}

/// Everything that can be asked about one file, at all its words.
fn sweep(ctx: &Ctx, rng: &mut Rng, text: &str, places: usize) {
    let s = Scratch::new();
    let mut p = Project::default();
    p.files.insert("pkg/Move.toml".to_string(), crate::project::manifest("pkg", &[]));
    let text = if rng.chance(1, 4) { crate::project::widen(rng, text) } else { text.to_string() };
    p.files.insert("pkg/sources/m.move".to_string(), text.clone());
    p.lay(&s);
    let mut o = Options::new(&s.uri("pkg"));
    o.init = Some(s.revealing());
    let enc = *rng.pick(&crate::client::ENCODINGS);
    let mut c = Client::ready(&o.encoding(enc));
    let uri = s.uri("pkg/sources/m.move");
    if rng.chance(1, 2) {
        c.open(&uri, &text);
    }
    let mut at: Vec<usize> = crate::project::starts(&text);
    if at.len() > places {
        rng.shuffle(&mut at);
        at.truncate(places);
    }
    at.push(text.len());
    let mut asked: Vec<(String, String, Value)> = vec![];
    let doc = json!({"uri": uri});
    let mut ask = |c: &mut Client, m: &str, pr: Value| {
        let k = c.request(m, pr.clone());
        asked.push((k, m.to_string(), pr));
    };
    for &(m, k) in ABOUT {
        if k == 0 || k == 4 {
            let pr = params(rng, &c, m, k, &uri, &text);
            ask(&mut c, m, pr);
        }
    }
    let all = range(&text, 0, text.len(), enc);
    ask(&mut c, "textDocument/inlayHint", json!({"textDocument": doc, "range": all}));
    for &o in &at {
        let pos = position(&text, o, enc);
        for &(m, k) in ABOUT {
            let mut pr = json!({"textDocument": doc});
            match k {
                1 => pr["position"] = pos.clone(),
                2 if m == "textDocument/codeAction" => {
                    pr["range"] = json!({"start": pos, "end": pos});
                    pr["context"] = json!({"diagnostics": []});
                }
                3 => pr["positions"] = json!([pos]),
                _ => continue,
            }
            match m {
                "textDocument/rename" => pr["newName"] = json!("renamed"),
                "textDocument/references" => pr["context"] = json!({"includeDeclaration": true}),
                _ => {}
            }
            ask(&mut c, m, pr);
        }
    }
    let mut more: Vec<(String, String, Value)> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for (k, m, pr) in &asked {
        let a = c.wait(k);
        judge(ctx, m, pr, &a, &text);
        if let Answer::Ok(v) = a {
            let resolve = match m.as_str() {
                "textDocument/codeAction" => "codeAction/resolve",
                "textDocument/codeLens" => "codeLens/resolve",
                "textDocument/inlayHint" => "inlayHint/resolve",
                "textDocument/completion" => "completionItem/resolve",
                _ => continue,
            };
            let items = v.as_array().or(v["items"].as_array()).cloned().unwrap_or_default();
            for it in items {
                if it.get("data").is_some_and(|d| !d.is_null()) && seen.len() < 400 && seen.insert(it.to_string()) {
                    more.push((c.request(resolve, it.clone()), resolve.to_string(), it));
                }
            }
        }
    }
    for (k, m, pr) in &more {
        let a = c.wait(k);
        ctx.count("resolved", 1);
        judge(ctx, m, pr, &a, &text);
    }
    ctx.eval(vf::hash_of(&text), !asked.is_empty());
    c.shutdown();
    report_faults(ctx, &mut c, &|| text.clone());
}

fn judge(ctx: &Ctx, method: &str, pr: &Value, a: &Answer, text: &str) {
    ctx.count("requests_answered", 1);
    let bad = match a {
        Answer::Ok(_) => false,
        // nothing to rename, or not with that name
        Answer::Err(-32602, _) => !method.contains("ename"),
        Answer::Err(..) => true,
    };
    if bad {
        let short: String = a.show().chars().take(160).collect();
        ctx.violation(&format!("{method}: {short}"), format!("{method} {pr}\nanswered with {}\n{text}", a.show()));
    }
}

/// (what is announced, the request it is about)
const ANNOUNCED: &[(&str, &str)] = &[
    ("hoverProvider", "textDocument/hover"),
    ("completionProvider", "textDocument/completion"),
    ("completionProvider/resolveProvider", "completionItem/resolve"),
    ("signatureHelpProvider", "textDocument/signatureHelp"),
    ("declarationProvider", "textDocument/declaration"),
    ("definitionProvider", "textDocument/definition"),
    ("typeDefinitionProvider", "textDocument/typeDefinition"),
    ("implementationProvider", "textDocument/implementation"),
    ("referencesProvider", "textDocument/references"),
    ("documentHighlightProvider", "textDocument/documentHighlight"),
    ("documentSymbolProvider", "textDocument/documentSymbol"),
    ("workspaceSymbolProvider", "workspace/symbol"),
    ("workspaceSymbolProvider/resolveProvider", "workspaceSymbol/resolve"),
    ("codeActionProvider", "textDocument/codeAction"),
    ("codeActionProvider/resolveProvider", "codeAction/resolve"),
    ("codeLensProvider", "textDocument/codeLens"),
    ("codeLensProvider/resolveProvider", "codeLens/resolve"),
    ("documentLinkProvider", "textDocument/documentLink"),
    ("colorProvider", "textDocument/documentColor"),
    ("documentFormattingProvider", "textDocument/formatting"),
    ("documentRangeFormattingProvider", "textDocument/rangeFormatting"),
    ("documentOnTypeFormattingProvider", "textDocument/onTypeFormatting"),
    ("foldingRangeProvider", "textDocument/foldingRange"),
    ("selectionRangeProvider", "textDocument/selectionRange"),
    ("renameProvider", "textDocument/rename"),
    ("renameProvider/prepareProvider", "textDocument/prepareRename"),
    ("linkedEditingRangeProvider", "textDocument/linkedEditingRange"),
    ("callHierarchyProvider", "textDocument/prepareCallHierarchy"),
    ("typeHierarchyProvider", "textDocument/prepareTypeHierarchy"),
    ("monikerProvider", "textDocument/moniker"),
    ("semanticTokensProvider/full", "textDocument/semanticTokens/full"),
    ("semanticTokensProvider/full/delta", "textDocument/semanticTokens/full/delta"),
    ("semanticTokensProvider/range", "textDocument/semanticTokens/range"),
    ("inlayHintProvider", "textDocument/inlayHint"),
    ("inlayHintProvider/resolveProvider", "inlayHint/resolve"),
    ("inlineValueProvider", "textDocument/inlineValue"),
    ("diagnosticProvider", "textDocument/diagnostic"),
    ("diagnosticProvider/workspaceDiagnostics", "workspace/diagnostic"),
    ("executeCommandProvider", "workspace/executeCommand"),
];

/// Served to any client, announced to those that can make use of it, or not at all.
const QUIETLY: &[&str] = &["textDocument/semanticTokens/range", "inlayHint/resolve", "codeAction/resolve"];

/// What is announced is served, and what is served is announced.
fn announcements(ctx: &Ctx, rng: &mut Rng) {
    let s = Scratch::new();
    let p = Project::small(rng, 1, false);
    p.lay(&s);
    let mut o = Options::new(&s.uri("pkg")).encoding(*rng.pick(&crate::client::ENCODINGS));
    o.init = Some(s.revealing());
    // clients that can do less
    for less in [
        json!({"textDocument": {"codeAction": null}}),
        json!({"textDocument": {"inlayHint": null}}),
        json!({"textDocument": {"inlayHint": {"resolveSupport": {"properties": ["tooltip"]}}}}),
        json!({"textDocument": {"completion": null}}),
        json!({"textDocument": {"semanticTokens": null}}),
        json!({"textDocument": {"rename": null, "hover": null, "signatureHelp": null}}),
        json!({"textDocument": {"diagnostic": null}}),
        json!({"textDocument": null}),
        json!({"workspace": null}),
        json!({"window": null}),
        json!({"experimental": null}),
    ] {
        if rng.chance(1, 5) {
            o = o.with(less);
        }
    }
    let mut c = Client::start(&o);
    let caps = c.capabilities.clone();
    let mut asked = vec![];
    for (key, method) in ANNOUNCED {
        let v = caps.pointer(&format!("/{key}")).cloned().unwrap_or(Value::Null);
        let yes = !v.is_null() && v != json!(false);
        // parameters do not matter: it is known or it is not
        asked.push((c.request(method, json!({})), *key, *method, yes));
    }
    let mut served = 0;
    for (k, key, method, yes) in asked {
        let a = c.wait(&k);
        let known = !matches!(a, Answer::Err(-32601, _));
        served += known as u64;
        if yes && !known {
            ctx.violation(&format!("{key} is announced, {method} is not served"), format!("{caps}\n{}", a.show()));
        }
        if known && !yes && !QUIETLY.contains(&method) {
            ctx.violation(&format!("{method} is served, {key} is not announced"), format!("{caps}\n{}", a.show()));
        }
    }
    ctx.count("announced_requests", served);
    ctx.eval(vf::hash_of(&format!("{caps}{}", o.caps)), served > 0);
    c.shutdown();
    report_faults(ctx, &mut c, &|| format!("{}", o.caps));
}

fn run(ctx: &Ctx) {
    ctx.require("announced_requests", 100);
    ctx.par("announced", ctx.size(60, 600), |rng, _| {
        ctx.open("announced", "");
        announcements(ctx, rng);
        ctx.close();
    });
    ctx.require("requests_answered", 500);
    ctx.require("server_messages", 1000);
    ctx.par("conversations", ctx.size(2500, 30000), |rng, _| {
        ctx.open("conversation", "");
        let steps = rng.range(10, 80);
        conversation(ctx, rng, steps);
        ctx.close();
    });
    let all = vf::corpus::single();
    let step = ctx.size(5, 1);
    ctx.par("sweep", all.len() / step, |rng, i| {
        let t = &all[(i * step + rng.below(step)).min(all.len() - 1)].text;
        ctx.open("sweep", t);
        sweep(ctx, rng, t, if ctx.quick() { 25 } else { 400 });
        ctx.close();
    });
}
