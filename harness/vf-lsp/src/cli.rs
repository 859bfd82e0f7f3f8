//! C26: the command line says and does what the server would.
use crate::client::{Answer, Client, Encoding, Options, Scratch, cut, server_command};
use crate::lazy::apply;
use crate::project::{Project, crlf, manifest, modules, snippet, span};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::process::Stdio;
use std::time::{Duration, Instant};
use vf::{Check, Ctx, Rng};

pub const CHECK: Check = Check {
    id: "C26",
    rule: "workspaces of packages on disk given to the command line with random flags; what it prints and writes is compared with the answers of the real server about the same files; non-trivial when something was printed or written",
    assumptions: &["the renderer of diagnostics is a stand-in that prints one line for each", "the vfs and file-watching crates are stand-ins written for this sandbox"],
    run,
};

const LIMIT: Duration = Duration::from_secs(120);

pub struct Run {
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

/// Run the program; none when it did not end.
pub fn cli(cwd: &std::path::Path, args: &[String]) -> Option<Run> {
    let mut cmd = server_command();
    cmd.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
    let mut ch = cmd.spawn().expect("the server binary runs");
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let to = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut o, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let te = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut e, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let st = loop {
        if let Ok(Some(st)) = ch.try_wait() {
            break Some(st);
        }
        if t0.elapsed() > LIMIT {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let (stdout, stderr) = (to.join().unwrap(), te.join().unwrap());
    st.map(|st| Run { code: st.code(), stdout, stderr })
}

/// (path, start, end, severity, code, message)
type Diag = (String, usize, usize, String, String, String);

/// The diagnostics it printed.
fn printed(stderr: &str) -> Vec<Diag> {
    let mut v = vec![];
    for l in stderr.lines() {
        let Some(l) = l.strip_prefix("DIAG ") else { continue };
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() != 5 {
            continue;
        }
        let (a, b) = f[4].split_once("..").unwrap_or(("0", "0"));
        v.push((f[3].to_string(), a.parse().unwrap_or(0), b.parse().unwrap_or(0), f[0].to_string(), f[1].to_string(), f[2].to_string()));
    }
    v.sort();
    v
}

/// The server's diagnostics, in the terms of the command line.
fn served(c: &mut Client, path: &str, uri: &str, text: &str) -> Vec<Diag> {
    let a = c.ask("textDocument/diagnostic", json!({"textDocument": {"uri": uri}}));
    if let Answer::Err(n, m) = &a {
        c.faults.push(format!("diagnostics of {uri} refused: {n} {m}"));
    }
    let d = a.ok().unwrap_or(Value::Null);
    let mut v = vec![];
    for i in d["items"].as_array().into_iter().flatten() {
        let (a, b) = span(text, &i["range"], c.encoding).unwrap_or((usize::MAX, usize::MAX));
        let sev = match i["severity"].as_i64() {
            Some(1) => "Error",
            Some(2) => "Warning",
            Some(3) => "Note",
            _ => continue,
        };
        v.push((path.to_string(), a, b, sev.to_string(), i["code"].as_str().unwrap_or("").to_string(), format!("{:?}", i["message"].as_str().unwrap_or(""))));
    }
    v
}

fn unix(t: &str) -> String {
    t.replace("\r\n", "\n")
}

struct Space {
    /// text of every file, by path
    p: Project,
    dos: BTreeSet<String>,
    odd: BTreeSet<String>,
    /// source files of packages below `ws`, in any package
    sources: BTreeSet<String>,
    /// packages below `ws`
    packages: Vec<String>,
}

fn space(rng: &mut Rng, s: &Scratch) -> Space {
    let mut sp = Space { p: Project::default(), dos: Default::default(), odd: Default::default(), sources: Default::default(), packages: vec![] };
    let mut pkgs: Vec<&str> = vec!["ws/a"];
    for x in ["ws/b", "ws/deep/er/c", "ws/a/inner"] {
        if rng.chance(1, 3) {
            pkgs.push(x);
        }
    }
    let outside = rng.chance(1, 2);
    if outside {
        pkgs.push("out/lib");
    }
    let mut taken = BTreeSet::new();
    for pk in &pkgs {
        let name = pk.rsplit('/').next().unwrap();
        let mut deps: Vec<(String, String)> = vec![];
        let up = "../".repeat(pk.split('/').count());
        for q in &pkgs {
            if q != pk && (*q == "out/lib" || (*pk != "out/lib" && rng.chance(1, 3))) {
                deps.push((q.rsplit('/').next().unwrap().to_string(), format!("{up}{q}")));
            }
        }
        let d: Vec<(&str, &str)> = deps.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        sp.p.files.insert(format!("{pk}/Move.toml"), manifest(name, &d));
        if pk.starts_with("ws/") {
            sp.packages.push(pk.to_string());
        }
        for i in 0..rng.range(1, 4) {
            let mut t = snippet(rng);
            let own = modules(&t);
            if own.iter().any(|m| taken.contains(m)) {
                continue;
            }
            taken.extend(own);
            if rng.chance(1, 4) {
                t = crate::project::widen(rng, &t);
            }
            let dir = *rng.pick(&["sources", "sources", "sources", "sources/sub/dir", "tests", "scripts", "other", "."]);
            let f = format!("{pk}/{dir}/f{i}.move").replace("/./", "/");
            if rng.chance(1, 4) {
                t = crlf(&unix(&t));
                sp.dos.insert(f.clone());
            }
            if pk.starts_with("ws/") && !["other", "."].contains(&dir) {
                sp.sources.insert(f.clone());
            }
            sp.p.files.insert(f, t);
        }
        if rng.chance(1, 4) {
            sp.p.files.insert(format!("{pk}/sources/notes.txt"), "module 0x1::x { fun f() { unknown() } }".to_string());
        }
        if rng.chance(1, 6) {
            let f = format!("{pk}/sources/odd.move");
            std::fs::create_dir_all(s.path(&format!("{pk}/sources"))).unwrap();
            std::fs::write(s.path(&f), b"module 0x1::odd { \xff\xfe }\n").unwrap();
            sp.odd.insert(f);
        }
    }
    sp.p.lay(s);
    sp
}

/// What is on disk now.
fn snapshot(s: &Scratch, sp: &Space) -> BTreeMap<String, Vec<u8>> {
    sp.p.files.keys().chain(&sp.odd).map(|f| (f.clone(), std::fs::read(s.path(f)).unwrap_or_default())).collect()
}

fn all_files(dir: &std::path::Path, out: &mut usize) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            all_files(&e.path(), out);
        } else {
            *out += 1;
        }
    }
}

fn case(ctx: &Ctx, rng: &mut Rng) {
    let s = Scratch::new();
    let sp = space(rng, &s);
    // what it is given, and the files meant by it
    let whole = rng.chance(2, 3) || sp.sources.is_empty();
    let (target, meant): (String, BTreeSet<String>) = if whole {
        let t = match rng.below(4) {
            0 => rng.pick(&sp.packages).clone(),
            _ => "ws".to_string(),
        };
        let m = sp.sources.iter().filter(|f| f.starts_with(&format!("{t}/"))).cloned().collect();
        (t, m)
    } else {
        let l: Vec<String> = sp.sources.iter().cloned().collect();
        let f = rng.pick(&l).clone();
        (f.clone(), [f].into())
    };
    // a nested package's files are not its neighbour's when only that is given, but are below it
    let (cwd, arg) = match rng.below(4) {
        0 => (s.path(""), s.path(&target).to_str().unwrap().to_string()),
        1 => (s.path(""), target.clone()),
        2 => (s.path("ws"), format!("../{target}")),
        _ => {
            let d = if whole { target.clone() } else { target.rsplit_once('/').unwrap().0.to_string() };
            let a = if whole { ".".to_string() } else { format!("./{}", target.rsplit_once('/').unwrap().1) };
            (s.path(&d), a)
        }
    };
    let story = |args: &[String], r: &Run| {
        let mut t = format!("{} (in {})\ncode {:?}\n{}\n{}", args.join(" "), cwd.display(), r.code, cut(&r.stdout), r.stderr.chars().take(1500).collect::<String>());
        for (f, x) in &sp.p.files {
            t += &format!("\n--- {f}\n{x}");
        }
        t
    };
    let before = snapshot(&s, &sp);
    let mut n0 = 0;
    all_files(&s.path(""), &mut n0);

    // what the server says of it
    let mut o = Options::new(&s.uri("ws"));
    o.init = Some(json!({"diagnostics": {"needsTypeAnnotation": true, "disabled": []}}));
    let mut c = Client::ready(&o.encoding(Encoding::Utf8));
    let mut said: Vec<Diag> = vec![];
    for f in &meant {
        let p = s.path(f);
        said.extend(served(&mut c, p.to_str().unwrap(), &s.uri(f), &unix(&sp.p.files[f])));
    }
    said.sort();

    // diagnostics
    let mut args: Vec<String> = vec!["diagnostics".into(), arg.clone()];
    let codes: Vec<String> = said.iter().map(|d| d.4.clone()).chain(["unused-import", "type-error", "nonsense"].map(String::from)).collect::<BTreeSet<_>>().into_iter().collect();
    let some = |rng: &mut Rng| -> Vec<String> { (0..rng.range(1, 3)).map(|_| rng.pick(&codes).clone()).collect() };
    let mut keep: Vec<Box<dyn Fn(&Diag) -> bool>> = vec![];
    if rng.chance(1, 3) {
        let k: Vec<&str> = (0..rng.range(1, 2)).map(|_| *rng.pick(&["error", "warn", "note"])).collect();
        args.push("--kinds".into());
        args.push(k.join(","));
        let k: BTreeSet<String> = k.iter().map(|k| match *k { "error" => "Error", "warn" => "Warning", _ => "Note" }.to_string()).collect();
        keep.push(Box::new(move |d| k.contains(&d.3)));
    }
    let mut only = false;
    if rng.chance(1, 4) {
        let k = some(rng);
        args.push("--enable-only".into());
        args.push(k.join(","));
        keep.push(Box::new(move |d| k.contains(&d.4)));
        only = true;
    }
    if rng.chance(1, 4) {
        let k = some(rng);
        args.push("--disable".into());
        if rng.chance(1, 2) { args.push(k.join(",")) } else { args.extend(k.clone()) }
        if !only {
            keep.push(Box::new(move |d| !k.contains(&d.4)));
        }
    }
    if rng.chance(1, 4) {
        args.push("--verbose".into());
    }
    if rng.chance(1, 4) {
        args.push(rng.pick(&["-q", "--quiet"]).to_string());
    }
    let want: Vec<Diag> = said.iter().filter(|d| keep.iter().all(|k| k(d))).cloned().collect();
    let Some(r) = cli(&cwd, &args) else {
        ctx.violation("diagnostics never ended", format!("{args:?}"));
        return;
    };
    if !matches!(r.code, Some(0 | 1)) || r.stderr.contains("panicked at") {
        let at: String = r.stderr.lines().find(|l| l.contains("panicked at")).unwrap_or("").rsplit("panicked at ").next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(80).collect();
        ctx.violation(&format!("diagnostics died {at}"), story(&args, &r));
        return;
    }
    let got = printed(&r.stderr);
    ctx.count("diagnostics_printed", got.len() as u64);
    ctx.count("runs", 1);
    if got != want {
        let lost: Vec<&Diag> = want.iter().filter(|d| !got.contains(d)).take(3).collect();
        let extra: Vec<&Diag> = got.iter().filter(|d| !want.contains(d)).take(3).collect();
        ctx.violation("diagnostics differ from the server's", format!("not printed {lost:?}\nprinted only {extra:?}\nprinted {} of {}\n{}", got.len(), want.len(), story(&args, &r)));
    }
    let fails = want.iter().any(|d| d.3 == "Error");
    if (r.code == Some(1)) != fails {
        ctx.violation("exit code", format!("errors: {fails}\n{}", story(&args, &r)));
    }
    if snapshot(&s, &sp) != before {
        ctx.violation("diagnostics wrote to files", story(&args, &r));
    }
    let mut wrote = false;

    if rng.chance(1, 2) {
        // fixes
        let mut args: Vec<String> = vec!["diagnostics".into(), arg.clone(), "--apply-fixes".into()];
        let everything = rng.chance(1, 2);
        if everything {
            args.push("all".into());
        } else {
            args.push(some(rng).join(","));
        }
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        if everything {
            for f in &meant {
                let uri = s.uri(f);
                let mut text = unix(&sp.p.files[f]);
                c.open(&uri, &text);
                let mut steps = 0;
                // which of several fixes comes first is not specified
                let mut choice = false;
                'fix: loop {
                    let d = c.ask("textDocument/diagnostic", json!({"textDocument": {"uri": uri}})).ok().unwrap_or(Value::Null);
                    for i in d["items"].as_array().into_iter().flatten() {
                        let a = c.ask("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": i["range"], "context": {"diagnostics": [], "only": ["quickfix"]}}));
                        let a = a.ok().and_then(|v| v.as_array().cloned()).unwrap_or_default();
                        choice |= a.len() > 1;
                        for a in a {
                            let a = if a["edit"].is_null() { c.ask("codeAction/resolve", a).ok().unwrap_or(Value::Null) } else { a };
                            let es = a["edit"]["documentChanges"].as_array().into_iter().flatten().flat_map(|d| d["edits"].as_array().cloned().unwrap_or_default()).collect::<Vec<_>>();
                            if let Ok(t) = apply(&text, &es, c.encoding) {
                                steps += 1;
                                text = t;
                                c.set_text(&uri, &text);
                                if steps > 300 {
                                    break 'fix;
                                }
                                continue 'fix;
                            }
                        }
                    }
                    break;
                }
                ctx.count("fixes_expected", steps);
                if steps > 300 {
                    ctx.violation("fixes never end", format!("{f}\n{}\nbecame\n{text}", sp.p.files[f]));
                }
                if choice {
                    ctx.count("files_with_a_choice_of_fixes", 1);
                } else {
                    want.insert(f.clone(), text);
                }
            }
        }
        let Some(r) = cli(&cwd, &args) else {
            ctx.violation("applying fixes never ended", format!("{args:?}\n{:?}", sp.p.files));
            return;
        };
        if r.code != Some(0) || r.stderr.contains("panicked at") {
            let at: String = r.stderr.lines().find(|l| l.contains("panicked at")).unwrap_or("").rsplit("panicked at ").next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(80).collect();
            ctx.violation(&format!("applying fixes died {at}"), story(&args, &r));
            return;
        }
        let after = snapshot(&s, &sp);
        let shown = printed(&r.stderr);
        for (f, b) in &after {
            let was = &before[f];
            let path = s.path(f).to_str().unwrap().to_string();
            if shown.iter().filter(|d| d.0 == path).count() == 1 && sp.p.files.contains_key(f) {
                // what is shown as new is all that is new
                let t = unix(&String::from_utf8_lossy(b));
                let mut old: Vec<bool> = vec![true; t.len()];
                for l in r.stderr.lines().filter(|l| l.starts_with("LABEL ")) {
                    let p: Vec<&str> = l.split('\t').collect();
                    if p.len() != 5 || p[3] != path {
                        continue;
                    }
                    let (a, z) = p[4].split_once("..").unwrap_or(("0", "0"));
                    let (a, z): (usize, usize) = (a.parse().unwrap_or(0), z.parse().unwrap_or(0));
                    if t.get(a..z).is_none() {
                        ctx.violation("shown fix is not in the text", format!("{l}\n{t}\n{}", story(&args, &r)));
                        continue;
                    }
                    ctx.count("fixes_shown", 1);
                    old[a..z].fill(false);
                }
                let kept: Vec<u8> = t.bytes().zip(&old).filter(|(_, o)| **o).map(|(b, _)| b).collect();
                let mut was = unix(&sp.p.files[f]).into_bytes().into_iter();
                if !kept.iter().all(|k| was.any(|w| w == *k)) {
                    ctx.violation("new text is not shown", format!("kept {:?}\n{t}\n{}", String::from_utf8_lossy(&kept), story(&args, &r)));
                }
            }
            if !meant.contains(f) {
                if b != was {
                    ctx.violation("fixes wrote to another file", format!("{f}\n{}", story(&args, &r)));
                }
                continue;
            }
            let t = String::from_utf8_lossy(b).into_owned();
            if b != was {
                wrote = true;
                ctx.count("files_fixed", 1);
                let lone = t.replace("\r\n", "").contains(['\r', '\n']);
                if sp.dos.contains(f) && lone || !sp.dos.contains(f) && t.contains('\r') {
                    ctx.violation("fixes changed line endings", format!("{f}: now {t:?}\n{}", story(&args, &r)));
                }
            }
            if let Some(w) = want.get(f) {
                if *w != unix(&t) {
                    ctx.violation("fixes differ from the server's", format!("{f} became\n{t}\nwith the server's fixes\n{w}\n{}", story(&args, &r)));
                }
            }
        }
        let again = cli(&cwd, &args);
        if snapshot(&s, &sp) != after {
            ctx.violation("applying fixes again changes more", format!("{:?}\n{}", again.map(|r| r.stdout), story(&args, &r)));
        }
        for (f, b) in &before {
            std::fs::write(s.path(f), b).unwrap();
        }
    } else {
        // imports
        let args: Vec<String> = vec!["organize-imports".into(), arg.clone()];
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        for f in &meant {
            let text = unix(&sp.p.files[f]);
            let e = c.ask("experimental/organizeImports", json!({"textDocument": {"uri": s.uri(f)}})).ok().and_then(|v| v.as_array().cloned()).unwrap_or_default();
            let e: Vec<Value> = e.into_iter().map(|mut e| { if let Some(t) = e["newText"].as_str() { e["newText"] = json!(unix(t)); } e }).collect();
            match apply(&text, &e, c.encoding) {
                Ok(t) => want.insert(f.clone(), t),
                Err(m) => {
                    ctx.violation("edits of organise imports", format!("{m}\n{text}"));
                    None
                }
            };
        }
        let Some(r) = cli(&cwd, &args) else {
            ctx.violation("organize-imports never ended", format!("{args:?}"));
            return;
        };
        if r.code != Some(0) || r.stderr.contains("panicked at") {
            let at: String = r.stderr.lines().find(|l| l.contains("panicked at")).unwrap_or("").rsplit("panicked at ").next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(80).collect();
            ctx.violation(&format!("organize-imports died {at}"), story(&args, &r));
            return;
        }
        for (f, b) in snapshot(&s, &sp) {
            let was = &before[&f];
            match want.get(&f) {
                Some(w) => {
                    let w = if sp.dos.contains(&f) { crlf(w) } else { w.clone() };
                    ctx.count("files_organised", (b != *was) as u64);
                    wrote |= b != *was;
                    let t = String::from_utf8_lossy(&b);
                    if w != *t {
                        let what = if unix(&w) == unix(&t) { "organize-imports changed line endings" } else { "imports differ from the server's" };
                        ctx.violation(what, format!("{f} became\n{t:?}\nwith the server's edits\n{w:?}\n{}", story(&args, &r)));
                    }
                }
                None if b != *was => ctx.violation("organize-imports wrote to another file", format!("{f}\n{}", story(&args, &r))),
                None => {}
            }
        }
    }
    let mut n1 = 0;
    all_files(&s.path(""), &mut n1);
    if n0 != n1 {
        ctx.violation("files appeared or went", format!("{n0} then {n1}: {args:?}"));
    }
    ctx.eval(vf::hash_of(&(&args, &sp.p.files)), !got.is_empty() || wrote);
    ctx.sample(|| args.join(" "));
    c.shutdown();
    crate::protocol::report_faults(ctx, &mut c, &|| format!("{:?}", sp.p.files));
}

/// What is not there, not a package or not Move.
fn misuse(ctx: &Ctx, rng: &mut Rng) {
    let s = Scratch::new();
    s.write("empty/readme.md", "x");
    s.write("loose/m.move", "module 0x1::m {}");
    s.write("pkg/Move.toml", &manifest("pkg", &[]));
    s.write("pkg/sources/m.move", "module 0x1::m {}");
    s.write("broken/Move.toml", "[package\nname=");
    s.write("broken/sources/m.move", "module 0x1::m {}");
    let (arg, ok): (&str, bool) = *rng.pick(&[("nowhere", false), ("empty", false), ("empty/readme.md", false), ("pkg/Move.toml", false), ("pkg", true), ("pkg/sources/m.move", true)]);
    let args = vec!["diagnostics".to_string(), arg.to_string()];
    let Some(r) = cli(&s.path(""), &args) else {
        ctx.violation("diagnostics never ended", format!("{args:?}"));
        return;
    };
    ctx.count("misuses", 1);
    ctx.eval(vf::hash_of(arg), true);
    if r.code != Some(if ok { 0 } else { 1 }) || r.stderr.contains("panicked") {
        ctx.violation("misuse", format!("{args:?}: {:?}\n{}\n{}", r.code, r.stdout, cut(&r.stderr)));
    }
}

fn run(ctx: &Ctx) {
    ctx.require("diagnostics_printed", 200);
    ctx.require("files_fixed", 10);
    ctx.require("files_organised", 10);
    ctx.require("fixes_shown", 10);
    ctx.par("misuse", 12, |rng, _| misuse(ctx, rng));
    ctx.par("workspaces", ctx.size(3000, 40000), |rng, _| {
        ctx.open("workspace", "");
        case(ctx, rng);
        ctx.close();
    });
}
