//! C25: settings do what they say, at start and when they change; invalid ones are reported and
//! leave the default.
use crate::client::{Answer, Client, Options, Scratch, cut};
use crate::project::{Project, position, range, span, starts};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use vf::{Check, Ctx, Rng};

pub const CHECK: Check = Check {
    id: "C25",
    rule: "histories of settings put to one server, the answers after each against the answers of a server with everything on, cut down as the settings say; non-trivial when a setting changed an answer",
    assumptions: &["the transport and line-index crates are stand-ins written for this sandbox"],
    run,
};

/// What the settings mean.
#[derive(Clone, Debug, PartialEq)]
struct Meaning {
    autoimport: bool,
    enable: bool,
    disabled: BTreeSet<String>,
    only: BTreeSet<String>,
    needs: bool,
    params: bool,
    ranges: bool,
    colons: bool,
    types: bool,
    closures: bool,
    tuples: bool,
    lens: bool,
    run: bool,
    specs: bool,
    whole: bool,
    formatter: Option<String>,
    format_args: Vec<String>,
    test_args: Vec<String>,
}
impl Meaning {
    fn default() -> Meaning {
        Meaning {
            autoimport: false,
            enable: true,
            disabled: ["missing-const-doc-comment".to_string()].into(),
            only: BTreeSet::new(),
            needs: false,
            params: true,
            ranges: true,
            colons: true,
            types: true,
            closures: true,
            tuples: true,
            lens: true,
            run: true,
            specs: true,
            whole: false,
            formatter: None,
            format_args: vec![],
            test_args: vec![],
        }
    }
}

fn put(v: &mut Value, key: &str, x: Value) {
    let mut v = v;
    for k in key.split('.') {
        if !v.is_object() {
            *v = json!({});
        }
        v = &mut v[k];
    }
    *v = x;
}

const CODES: [&str; 12] = [
    "syntax-error", "unresolved-reference", "unused-variable", "unused-import", "type-error", "needs-type-annotation",
    "replace-with-index-expr", "missing-const-doc-comment", "no-such-code", "can-be-replaced-with-method-call", "missing-fields", "wrong-number-of-type-arguments",
];

fn strings(rng: &mut Rng, of: &[&str], n: usize) -> Vec<String> {
    (0..rng.below(n + 1)).map(|_| rng.pick(of).to_string()).collect()
}

/// Settings, what they mean and the keys of those that are invalid.
fn settings(rng: &mut Rng, formatter: &str, codes: &[String]) -> (Value, Meaning, Vec<String>) {
    let mut v = json!({});
    let mut m = Meaning::default();
    let mut bad = vec![];
    let many = *rng.pick(&[4, 2, 8]);
    let invalid = if rng.chance(1, 2) { 4 } else { 1000 };
    let mut codes: Vec<&str> = codes.iter().map(|s| s.as_str()).collect();
    codes.extend(CODES);
    macro_rules! flag {
        ($key:literal, $f:ident, $flip:expr) => {
            if rng.chance(1, many) {
                if rng.chance(1, invalid) {
                    put(&mut v, $key, rng.pick(&[json!("true"), json!(1), json!([]), json!({}), json!(null)]).clone());
                    bad.push($key.to_string());
                } else {
                    let x = rng.chance(1, 2);
                    put(&mut v, $key, json!(x));
                    m.$f = x != $flip;
                }
            }
        };
    }
    macro_rules! words {
        ($key:literal, $f:ident, $of:expr) => {
            if rng.chance(1, many) {
                if rng.chance(1, invalid) {
                    put(&mut v, $key, rng.pick(&[json!("a b"), json!([1]), json!(false), json!({"a": "b"}), json!(null)]).clone());
                    bad.push($key.to_string());
                } else {
                    let l = strings(rng, &$of, 3);
                    put(&mut v, $key, json!(l));
                    m.$f = l.into_iter().collect();
                }
            }
        };
    }
    flag!("completion.autoimport.enable", autoimport, false);
    flag!("diagnostics.enable", enable, false);
    flag!("diagnostics.needsTypeAnnotation", needs, false);
    words!("diagnostics.disabled", disabled, codes);
    if rng.chance(1, 2) {
        words!("diagnostics.enableOnly", only, codes);
    }
    flag!("inlayHints.parameterHints.enable", params, false);
    flag!("inlayHints.rangeExclusiveHints.enable", ranges, false);
    flag!("inlayHints.renderColons", colons, false);
    flag!("inlayHints.typeHints.enable", types, false);
    flag!("inlayHints.typeHints.hideClosureParameter", closures, true);
    flag!("inlayHints.typeHints.showForTuples", tuples, false);
    flag!("lens.enable", lens, false);
    flag!("lens.run.enable", run, false);
    flag!("lens.specifications.enable", specs, false);
    words!("movefmt.extraArgs", format_args, ["--a", "--b=c", "d e", "é"]);
    words!("tests.extraArgs", test_args, ["--override-std", "mainnet", "--named-addresses", "a=0x1"]);
    if rng.chance(1, many) {
        if rng.chance(1, invalid) {
            put(&mut v, "lens.location", rng.pick(&[json!("AboveName"), json!(1), json!(["above_name"])]).clone());
            bad.push("lens.location".to_string());
        } else {
            m.whole = rng.chance(1, 2);
            put(&mut v, "lens.location", json!(if m.whole { "above_whole_item" } else { "above_name" }));
        }
    }
    if rng.chance(3, 4) {
        if rng.chance(1, invalid) {
            put(&mut v, "movefmt.path", rng.pick(&[json!(1), json!(["a"]), json!(true)]).clone());
            bad.push("movefmt.path".to_string());
        } else {
            put(&mut v, "movefmt.path", json!(formatter));
            m.formatter = Some(formatter.to_string());
        }
    }
    if rng.chance(1, 8) {
        put(&mut v, "aptosPath", json!(null));
    }
    if rng.chance(1, 8) {
        put(&mut v, "files.watcher", if rng.chance(1, 2) { json!("client") } else { bad.push("files.watcher".into()); json!("nobody") });
    }
    if rng.chance(1, 6) {
        put(&mut v, "no.such.setting", json!([1, {"a": null}]));
    }
    // an empty object keeps the settings as they were
    if v.as_object().is_some_and(|o| o.is_empty()) {
        put(&mut v, "dap.path", json!(null));
    }
    (v, m, bad)
}

struct Answers {
    diagnostics: BTreeMap<String, Vec<Value>>,
    hints: BTreeMap<String, Vec<(usize, i64, String)>>,
    lenses: BTreeMap<String, Vec<Value>>,
    items: BTreeMap<(String, usize), Vec<(String, bool)>>,
}

fn ask(c: &mut Client, texts: &BTreeMap<String, String>, at: &[(String, usize)]) -> Answers {
    let enc = c.encoding;
    let mut a = Answers { diagnostics: Default::default(), hints: Default::default(), lenses: Default::default(), items: Default::default() };
    for (u, t) in texts {
        let list = |v: Answer| v.ok().and_then(|v| v.as_array().cloned()).unwrap_or_default();
        let d = c.ask("textDocument/diagnostic", json!({"textDocument": {"uri": u}})).ok().unwrap_or(Value::Null);
        a.diagnostics.insert(u.clone(), d["items"].as_array().cloned().unwrap_or_default());
        let h = list(c.ask("textDocument/inlayHint", json!({"textDocument": {"uri": u}, "range": range(t, 0, t.len(), enc)})));
        a.hints.insert(
            u.clone(),
            h.iter()
                .map(|h| {
                    let label = match &h["label"] {
                        Value::String(s) => s.clone(),
                        l => l.as_array().into_iter().flatten().map(|p| p["value"].as_str().unwrap_or("")).collect(),
                    };
                    (crate::project::offset(t, &h["position"], enc).unwrap_or(0), h["kind"].as_i64().unwrap_or(0), label)
                })
                .collect(),
        );
        a.lenses.insert(u.clone(), list(c.ask("textDocument/codeLens", json!({"textDocument": {"uri": u}}))));
    }
    for (u, o) in at {
        let v = c.ask("textDocument/completion", json!({"textDocument": {"uri": u}, "position": position(&texts[u], *o, enc)})).ok().unwrap_or(Value::Null);
        let mut l: Vec<(String, bool)> = v["items"].as_array().into_iter().flatten().map(|i| (format!("{} {}", i["label"], i["textEdit"]), !i["data"].is_null())).collect();
        l.sort();
        a.items.insert((u.clone(), *o), l);
    }
    a
}

/// A comma comes before the bracket is closed.
fn comma(text: &str) -> bool {
    let mut deep = 0;
    for c in text.chars() {
        match c {
            '(' | '[' | '{' => deep += 1,
            ')' | ']' | '}' if deep == 0 => return false,
            ')' | ']' | '}' => deep -= 1,
            ',' if deep == 0 => return true,
            _ => {}
        }
    }
    false
}

/// The bracket around the offset, what stands before it and whether it holds commas.
fn around(text: &str, at: usize) -> Option<(char, String, bool)> {
    // without comments and strings
    let mut clean: Vec<u8> = text.as_bytes().to_vec();
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let from = i;
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            let mut deep = 0;
            while i < b.len() {
                if b[i..].starts_with(b"/*") {
                    deep += 1;
                    i += 2;
                } else if b[i..].starts_with(b"*/") {
                    deep -= 1;
                    i += 2;
                    if deep == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            i = i.min(b.len());
        } else if b[i] == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i = (i + 1).min(b.len());
        } else {
            i += 1;
            continue;
        }
        clean[from..i].fill(b' ');
    }
    let s = String::from_utf8_lossy(&clean).to_string();
    let mut deep = 0;
    for (i, c) in s[..at.min(s.len())].char_indices().rev() {
        match c {
            ')' | ']' | '}' => deep += 1,
            '(' | '[' | '{' if deep > 0 => deep -= 1,
            '(' | '[' | '{' => return Some((c, s[..i].trim_end().to_string(), comma(&s[i + 1..]))),
            '|' if deep == 0 => return Some((c, s[..i].trim_end().to_string(), false)),
            ';' if deep == 0 => return None,
            _ => {}
        }
    }
    None
}
/// In a tuple pattern of a `let`.
fn in_tuple(text: &str, at: usize) -> bool {
    fn of_let(text: &str, at: usize) -> bool {
        match around(text, at) {
            Some((_, before, _)) => {
                let w = before.rsplit(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("");
                w == "let" || of_let(text, before.len())
            }
            None => false,
        }
    }
    matches!(around(text, at), Some(('(', before, true)) if before.ends_with("let") || !before.ends_with(|c: char| c.is_alphanumeric() || c == '_') && of_let(text, before.len()))
}
fn in_closure(text: &str, at: usize) -> bool {
    matches!(around(text, at), Some(('|', ..)))
}

/// What the settings leave of the answers with everything on; `whole` are the lenses above whole items.
fn cut_down(base: &Answers, whole: &BTreeMap<String, Vec<Value>>, m: &Meaning, texts: &BTreeMap<String, String>) -> Answers {
    let diagnostics = base
        .diagnostics
        .iter()
        .map(|(u, l)| {
            let l = l.iter().filter(|d| {
                let code = d["code"].as_str().unwrap_or("").to_string();
                m.enable
                    && (code != "needs-type-annotation" || m.needs)
                    && if m.only.is_empty() { !m.disabled.contains(&code) } else { m.only.contains(&code) }
            });
            (u.clone(), l.cloned().collect())
        })
        .collect();
    let hints = base
        .hints
        .iter()
        .map(|(u, l)| {
            let t = &texts[u];
            let l = l
                .iter()
                .filter(|(at, kind, _)| match kind {
                    1 => m.types && (m.tuples || !in_tuple(t, *at)) && (m.closures || !in_closure(t, *at)),
                    2 => m.params,
                    _ => m.ranges,
                })
                .map(|(at, kind, label)| {
                    let l = match kind {
                        1 if !m.colons => label.strip_prefix(": ").unwrap_or(label),
                        2 if !m.colons => label.strip_suffix(": ").unwrap_or(label),
                        _ => label,
                    };
                    (*at, *kind, l.to_string())
                })
                .collect();
            (u.clone(), l)
        })
        .collect();
    let lenses = (if m.whole { whole } else { &base.lenses })
        .iter()
        .map(|(u, l)| {
            let l = l
                .iter()
                .filter(|x| m.lens && if x["command"].is_null() { m.specs } else { m.run })
                .map(|x| {
                    let mut x = x.clone();
                    if let Some(a) = x.pointer_mut("/command/arguments/0/args/args").and_then(|a| a.as_array_mut()) {
                        for t in &m.test_args {
                            if a.len() > 1 && a[1] == "test" && !a.contains(&json!(t)) {
                                a.push(json!(t));
                            }
                        }
                    }
                    x
                });
            (u.clone(), l.collect())
        })
        .collect();
    let items = base.items.iter().map(|(k, l)| (k.clone(), l.iter().filter(|i| m.autoimport || !i.1).cloned().collect())).collect();
    Answers { diagnostics, hints, lenses, items }
}

fn case(ctx: &Ctx, rng: &mut Rng) {
    let s = Scratch::new();
    let n = rng.range(1, 2);
    let p = Project::small(rng, n, false);
    p.lay(&s);
    let formatter = s.script("args", "printf '%s\\n' \"$@\"; cat");
    s.write("home/empty", "");
    let texts: BTreeMap<String, String> = p.moves().iter().map(|f| (s.uri(f), p.files[f].clone())).collect();
    let mut at = vec![];
    for (u, t) in &texts {
        let st = starts(t);
        for _ in 0..2 {
            if !st.is_empty() {
                at.push((u.clone(), *rng.pick(&st)));
            }
        }
    }
    let mut o = Options::new(&s.uri("pkg")).with(json!({
        "textDocument": {"inlayHint": {"resolveSupport": null}},
        "workspace": {"diagnostics": {"refreshSupport": true}, "inlayHint": {"refreshSupport": true}},
    }));
    o.env = vec![("HOME".to_string(), s.path("home").to_str().unwrap().to_string()), ("PATH".to_string(), "/usr/bin:/bin".to_string())];
    let all = json!({"completion": {"autoimport": {"enable": true}}, "diagnostics": {"needsTypeAnnotation": true, "disabled": []}});
    let story = || texts.iter().map(|(u, t)| format!("--- {u}\n{t}\n")).collect::<String>();
    let mut c = Client::ready(&o.clone().settings(all.clone()));
    for (u, t) in &texts {
        c.open(u, t);
    }
    c.settle();
    let base = ask(&mut c, &texts, &at);
    let whole = {
        let mut w = all.clone();
        put(&mut w, "lens.location", json!("above_whole_item"));
        c.settings = w;
        c.notify("workspace/didChangeConfiguration", json!({"settings": null}));
        c.settle();
        ask(&mut c, &texts, &[]).lenses
    };
    for u in texts.keys() {
        let t = &texts[u];
        let sp = |v: &Value| span(t, &v["range"], c.encoding);
        let (a, b) = (&base.lenses[u], &whole[u]);
        let specs = |l: &Vec<Value>| l.iter().filter(|x| x["command"].is_null()).filter_map(|x| sp(x)).collect::<Vec<_>>();
        let (a, b) = (specs(a), specs(b));
        if a.len() != b.len() || !a.iter().all(|x| b.iter().any(|y| y.0 < x.0 && y.1 > x.1 && t[y.0..x.0].contains("fun"))) {
            ctx.violation("lenses above whole items", format!("{u}: {a:?} and {b:?}\n{}", story()));
        }
    }
    let codes: Vec<String> = base.diagnostics.values().flatten().filter_map(|d| d["code"].as_str().map(|s| s.to_string())).collect();
    let mut last: Option<Meaning> = None;
    for step in 0..ctx.size(4, 6) {
        let (v, m, bad) = settings(rng, &formatter, &codes);
        // at start or later
        let fresh = rng.chance(1, 5);
        if fresh {
            c.shutdown();
            c = Client::ready(&o.clone().settings(v.clone()));
            for (u, t) in &texts {
                c.open(u, t);
            }
        } else {
            c.settings = v.clone();
            c.asked.clear();
            c.notify("workspace/didChangeConfiguration", json!({"settings": {"ignored": true}}));
        }
        c.settle();
        let tell = |what: &str, got: String, want: String| format!("{what} after step {step} with {v}:\ngot  {got}\nwant {want}\n{}", story());
        // reports
        {
            ctx.count("settings", 1);
            ctx.count("invalid_values", bad.len() as u64);
            let st = c.status.clone().unwrap_or(Value::Null);
            let msg = if fresh {
                c.notes.iter().filter(|n| n.0 == "window/showMessage").map(|n| n.1["message"].as_str().unwrap_or("").to_string()).collect::<String>()
            } else {
                st["message"].as_str().unwrap_or("").to_string()
            };
            for b in &bad {
                let k = format!("/{}", b.replace('.', "/"));
                if !msg.contains(&k) {
                    ctx.violation("an invalid value is not reported", tell(b, format!("{st} {msg}"), format!("a word on {k}")));
                }
            }
            let n = msg.matches(": ").count();
            if bad.is_empty() && !msg.is_empty() || msg.matches(";").count() < bad.len() || n < bad.len() {
                ctx.violation("reported settings", tell("", msg.clone(), format!("{bad:?}")));
            }
            if !fresh && (st["health"] != json!(if bad.is_empty() { "ok" } else { "warning" })) {
                ctx.violation("health", tell("", st.to_string(), format!("{bad:?}")));
            }
        }
        // refreshes
        if let (Some(l), false) = (&last, fresh) {
            let d = |m: &Meaning| (m.enable, m.disabled.clone(), m.only.clone(), m.needs);
            let h = |m: &Meaning| (m.params, m.ranges, m.colons, m.types, m.closures, m.tuples);
            let asked = |k: &str| c.asked.iter().any(|a| a.0 == k);
            if d(l) != d(&m) && !asked("workspace/diagnostic/refresh") {
                ctx.violation("no refresh of diagnostics", tell("", format!("{:?}", c.asked), format!("{l:?} became {m:?}")));
            }
            if h(l) != h(&m) && !asked("workspace/inlayHint/refresh") {
                ctx.violation("no refresh of hints", tell("", format!("{:?}", c.asked), format!("{l:?} became {m:?}")));
            }
            ctx.count("changes", 1);
        }
        let got = ask(&mut c, &texts, &at);
        let want = cut_down(&base, &whole, &m, &texts);
        ctx.eval(vf::hash_of(&(v.to_string(), &texts)), got.hints != base.hints || got.diagnostics != base.diagnostics || got.lenses != base.lenses || got.items != base.items);
        for u in texts.keys() {
            ctx.count("diagnostics", want.diagnostics[u].len() as u64);
            ctx.count("diagnostics_off", (base.diagnostics[u].len() - want.diagnostics[u].len()) as u64);
            ctx.count("hints", want.hints[u].len() as u64);
            ctx.count("hints_off", (base.hints[u].len() - want.hints[u].len()) as u64);
            ctx.count("lenses", want.lenses[u].len() as u64);
            if got.diagnostics[u] != want.diagnostics[u] {
                let show = |l: &Vec<Value>| l.iter().map(|d| format!("{} {}", d["code"], d["range"]["start"])).collect::<Vec<_>>().join(", ");
                ctx.violation("diagnostics", tell(u, show(&got.diagnostics[u]), show(&want.diagnostics[u])));
            }
            if got.hints[u] != want.hints[u] {
                ctx.violation("hints", tell(u, format!("{:?}", got.hints[u]), format!("{:?}", want.hints[u])));
            }
            let bare = |l: &Vec<Value>| {
                let mut l: Vec<String> = l
                    .iter()
                    .map(|x| {
                        let mut x = x.clone();
                        x["data"]["version"] = Value::Null;
                        x.to_string()
                    })
                    .collect();
                l.sort();
                l
            };
            if bare(&got.lenses[u]) != bare(&want.lenses[u]) {
                ctx.violation("lenses", tell(u, cut(&json!(got.lenses[u]).to_string()), cut(&json!(want.lenses[u]).to_string())));
            }
        }
        if got.items != want.items {
            ctx.violation("completions", tell("", format!("{:?}", got.items), format!("{:?}", want.items)));
        }
        // formatting
        let u = rng.pick(&texts.keys().cloned().collect::<Vec<_>>()).clone();
        c.notes.clear();
        let f = c.ask("textDocument/formatting", json!({"textDocument": {"uri": u}, "options": {"tabSize": 4, "insertSpaces": true}}));
        match &m.formatter {
            Some(_) => {
                let mut head = "--quiet\n--stdin\n--emit\nstdout\n".to_string();
                m.format_args.iter().for_each(|a| head += &format!("{a}\n"));
                let got = match &f {
                    Answer::Ok(v) => v[0]["newText"].as_str().unwrap_or("").to_string(),
                    e => e.show(),
                };
                ctx.count("formatted", 1);
                if got != format!("{head}{}", texts[&u]) {
                    ctx.violation("formatter arguments", tell(&u, cut(&got), head));
                }
            }
            None => {
                ctx.count("no_formatter", 1);
                c.settle();
                let told = c.notes.iter().any(|n| n.0.contains("movefmtVersionError"));
                if f != Answer::Ok(Value::Null) || !told {
                    ctx.violation("no formatter", tell(&u, f.show(), "null and a word on it".to_string()));
                }
            }
        }
        last = Some(m);
    }
    c.shutdown();
    for f in c.faults.drain(..) {
        let sig: String = f.chars().map(|x| if x.is_ascii_digit() { '#' } else { x }).take(90).collect();
        ctx.violation(&format!("fault: {sig}"), format!("{f}\n{}", story()));
    }
}

fn run(ctx: &Ctx) {
    ctx.require("settings", 300);
    ctx.require("invalid_values", 100);
    ctx.require("diagnostics_off", 100);
    ctx.require("hints_off", 100);
    ctx.require("formatted", 50);
    ctx.par("settings", ctx.size(2000, 20000), |rng, _| {
        ctx.open("settings", "");
        case(ctx, rng);
        ctx.close();
    });
}
