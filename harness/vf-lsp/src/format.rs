//! C27: formatting is what the formatter made of the document, or a word on why not.
use crate::client::{Answer, Client, ENCODINGS, Options, Scratch, cut};
use crate::lazy::apply;
use crate::project::{crlf, manifest, snippet};
use crate::protocol::report_faults;
use serde_json::{Value, json};
use std::os::unix::fs::PermissionsExt;
use std::time::Duration;
use vf::{Check, Ctx, Rng};

pub const CHECK: Check = Check {
    id: "C27",
    rule: "formatting requests to servers whose formatter is a script that notes how it was run and does what the case says (writes any text, fails, prints before it reads, does not read, is old, is not there); the answer, messages and what the script noted are compared with what they should be; non-trivial when the formatter ran",
    assumptions: &["the formatter is a script; the real movefmt is not installed", "the shellexpand, pathsearch and which crates are stand-ins written for this sandbox"],
    run,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    /// reads all, then writes
    Proper,
    /// writes before it reads
    Early,
    /// does not read
    Deaf,
    /// copies line by line
    Stream,
}

#[derive(Clone, Debug)]
struct Plan {
    how: How,
    version: String,
    out: Vec<u8>,
    err: Vec<u8>,
    code: u8,
}

const VERSIONS: &[(&str, Option<bool>)] = &[
    ("movefmt v1.2.1\n", Some(true)),
    ("movefmt v1.2.2\n", Some(true)),
    ("movefmt v1.10.0\n", Some(true)),
    ("movefmt v2.0.0\n", Some(true)),
    ("movefmt v1.3.0-rc.1\n", Some(true)),
    ("movefmt v1.2.0\n", Some(false)),
    ("movefmt v1.1.9\n", Some(false)),
    ("movefmt v0.9.9\n", Some(false)),
    ("movefmt v1.2.1-rc.1\n", Some(false)),
    ("some notice\nmovefmt v1.2.1\nmore\n", Some(true)),
    ("movefmt v1.2\n", None),
    ("movefmt 1.2.1\n", None),
    ("movefmt vnext\n", None),
    ("", None),
    ("error: é\n", None),
];

/// What it does stands beside it (a script just written may not be run while another thread starts a process).
fn script(s: &Scratch, rel: &str) {
    let body = "#!/bin/sh
D=$(dirname \"$0\")
if [ \"$1\" = --version ]; then echo v >> \"$D/asked\"; cat \"$D/version\"; exit 0; fi
pwd > \"$D/cwd\"
for a in \"$@\"; do printf '%s\\n' \"$a\"; done > \"$D/args\"
case $(cat \"$D/how\") in
  Proper) cat > \"$D/in\"; cat \"$D/out\" ;;
  Early) cat \"$D/out\"; cat > \"$D/in\" ;;
  Deaf) exec <&-; cat \"$D/out\" ;;
  Stream) tee \"$D/in\" ;;
esac
cat \"$D/err\" >&2
echo d >> \"$D/done\"
exit $(cat \"$D/code\")
";
    s.write(rel, body);
    std::fs::set_permissions(s.path(rel), std::fs::Permissions::from_mode(0o755)).unwrap();
}

fn lay(s: &Scratch, rel: &str, p: &Plan) {
    let d = s.path(rel).parent().unwrap().to_path_buf();
    for f in ["cwd", "args", "in", "done", "asked"] {
        let _ = std::fs::remove_file(d.join(f));
    }
    let put = |f: &str, b: &[u8]| std::fs::write(d.join(f), b).unwrap();
    put("how", format!("{:?}", p.how).as_bytes());
    put("version", p.version.as_bytes());
    put("out", &p.out);
    put("err", &p.err);
    put("code", p.code.to_string().as_bytes());
}

fn big(rng: &mut Rng, text: &str, least: usize) -> String {
    let mut t = text.to_string();
    let mut n = 0;
    while t.len() < least {
        n += 1;
        t += &format!("// {n} {}\n", "ю𝒳x ".repeat(rng.range(1, 40)));
    }
    t
}

fn lf(t: &str) -> String {
    t.replace("\r\n", "\n")
}

fn conversation(ctx: &Ctx, rng: &mut Rng) {
    let s = Scratch::new();
    let enc = *rng.pick(&ENCODINGS);
    s.write("ws/Move.toml", &manifest("P", &[]));
    let dir = *rng.pick(&["ws/sources", "ws/sources/a b/é", "ws/tests"]);
    let rel = format!("{dir}/m.move");
    let dos = rng.chance(1, 3);
    let write = |t: &str| if dos { crlf(t) } else { t.to_string() };
    let mut text = snippet(rng);
    if rng.chance(1, 4) {
        text = big(rng, &text, 200_000);
    }
    let mut text = write(&text);
    s.write(&rel, &text);
    let uri = s.uri(&rel);
    let other = "bin2/nothing";
    // where the formatter is
    let place = rng.below(8);
    let extra: Vec<&str> = (0..rng.below(3)).map(|_| *rng.pick(&["--a", "--b=c d", "é", "", "-x"])).collect();
    let mut settings = json!({"movefmt": {"extraArgs": extra}});
    let home = s.path("home").to_str().unwrap().to_string();
    let bin = s.path("path").to_str().unwrap().to_string();
    std::fs::create_dir_all(&home).unwrap();
    std::fs::create_dir_all(&bin).unwrap();
    // (where it stands, can be run)
    let (at, set): (Option<&str>, Option<String>) = match place {
        0 => (None, None),
        1 => (Some("home/.local/bin/movefmt"), None),
        2 => (Some("path/movefmt"), None),
        3 => (Some("home/x y/fmt"), Some("~/x y/fmt".into())),
        4 => (None, Some(s.path(other).to_str().unwrap().to_string())),
        5 => {
            // one that is not to be run
            s.write("path/movefmt", "#!/bin/sh\nexit 7\n");
            std::fs::set_permissions(s.path("path/movefmt"), std::fs::Permissions::from_mode(0o755)).unwrap();
            (Some("tool/fmt"), Some(s.path("tool/fmt").to_str().unwrap().to_string()))
        }
        _ => (Some("tool/fmt"), Some(s.path("tool/fmt").to_str().unwrap().to_string())),
    };
    if let Some(at) = at {
        script(&s, at);
    }
    if let Some(p) = &set {
        settings["movefmt"]["path"] = json!(p);
    }
    let aptos = match rng.below(3) {
        0 => {
            settings["aptosPath"] = json!("/some/aptos");
            Some("/some/aptos".to_string())
        }
        1 => {
            s.write("path/aptos", "#!/bin/sh\n");
            std::fs::set_permissions(s.path("path/aptos"), std::fs::Permissions::from_mode(0o755)).unwrap();
            Some(format!("{bin}/aptos"))
        }
        _ => None,
    };
    let mut o = Options::new(&s.uri("ws")).encoding(enc).settings(settings.clone());
    o.env = vec![("HOME".to_string(), home), ("PATH".to_string(), format!("{bin}:/usr/bin:/bin"))];
    let mut c = Client::ready(&o);
    let mut open = rng.chance(2, 3);
    if open {
        c.open(&uri, &text);
    }
    let mut ran = false;
    for turn in 0..rng.range(2, 5) {
        if open && rng.chance(1, 3) {
            text = write(&match rng.below(4) {
                0 => String::new(),
                1 => big(rng, "", 150_000),
                _ => snippet(rng),
            });
            c.set_text(&uri, &text);
            if rng.chance(1, 3) {
                // saved or not, what counts is the document
                s.write(&rel, &text);
                c.save(&uri);
            }
        } else if turn > 0 && rng.chance(1, 6) {
            s.write(&rel, &text);
            if open { c.close(&uri) } else { c.open(&uri, &text) }
            open = !open;
        }
        if !open {
            c.settle();
        }
        let now = lf(&text);
        let (version, good) = if rng.chance(1, 4) { *rng.pick(VERSIONS) } else { VERSIONS[0] };
        let how = match rng.below(8) {
            0 | 1 => How::Early,
            2 | 3 => How::Deaf,
            4 => How::Stream,
            _ => How::Proper,
        };
        let code = if rng.chance(1, 3) { *rng.pick(&[1, 1, 1, 2, 101, 255]) } else { 0 };
        let mut out = match rng.below(7) {
            0 => now.clone(),
            1 => String::new(),
            2 => big(rng, "", 200_000),
            3 => crlf(&now),
            4 => crlf(&snippet(rng)),
            5 => format!("{now}\n// ю𝒳\n"),
            _ => snippet(rng),
        };
        let mut err = if rng.chance(1, 2) { "a warning: \u{1b}[31mré\u{1b}[0md\n".to_string() } else { String::new() };
        if rng.chance(1, 10) {
            err = big(rng, &err, 150_000);
        }
        if code != 0 {
            out = match rng.below(4) {
                0 => "the file is not \u{1b}[1ma \u{1b}[0mvalid move code, see it\n".into(),
                1 => "not a valid move code".into(),
                2 => out,
                _ => "something else\n".into(),
            };
        }
        if how == How::Stream {
            out = now.clone();
        }
        let mut bytes = out.clone().into_bytes();
        let nontext = code == 0 && how != How::Stream && rng.chance(1, 12);
        if nontext {
            bytes.extend(b"\xff\xfe");
        }
        let plan = Plan { how, version: version.to_string(), out: bytes, err: err.clone().into_bytes(), code };
        if let Some(at) = at {
            lay(&s, at, &plan);
        }
        let noted = |f: &str| at.and_then(|at| std::fs::read(s.path(at).parent().unwrap().join(f)).ok());
        let notes = c.notes.len();
        let tab = json!({"tabSize": rng.below(9), "insertSpaces": rng.chance(1, 2)});
        let a = c.ask("textDocument/formatting", json!({"textDocument": {"uri": uri}, "options": tab}));
        c.pump(Duration::from_millis(1));
        let said: Vec<(String, Value)> = c.notes[notes..].iter().filter(|n| n.0 == "window/showMessage" || n.0.ends_with("movefmtVersionError")).cloned().collect();
        ctx.count("requests", 1);
        let show = |what: String| {
            format!(
                "{what}\nanswer: {}\nnotes: {said:?}\nsettings {settings} place {place} dos {dos} open {open} {enc:?}\nformatter {:?} {:?} exits {code}, prints {} bytes, document {} bytes\nprints: {}\ndocument: {}",
                cut(&a.show()),
                plan.how,
                plan.version,
                plan.out.len(),
                text.len(),
                cut(&out),
                cut(&text)
            )
        };
        let update = |why: &str| -> Option<String> {
            if !matches!(&a, Answer::Ok(Value::Null)) {
                return Some("there is an answer".to_string());
            }
            if said.len() != 1 || !said[0].0.ends_with("aptos-language-server/movefmtVersionError") {
                return Some("the client is not asked to get the formatter".to_string());
            }
            if !said[0].1["message"].as_str().is_some_and(|m| m.contains(why)) {
                return Some(format!("the reason does not say {why:?}"));
            }
            if said[0].1["aptosPath"].as_str().map(|x| x.to_string()) != aptos {
                return Some(format!("aptos is {aptos:?}"));
            }
            None
        };
        let failed = || -> Option<String> {
            match &a {
                Answer::Err(n, m) if *n != -32801 && !m.contains("panicked") => (!said.is_empty()).then(|| "a note besides the error".to_string()),
                _ => Some("no error".to_string()),
            }
        };
        let bad: Option<(&str, String)> = if at.is_none() {
            if set.is_some() { failed().map(|m| ("a formatter that is not there", m)) } else { ctx.count("none", 1); update("not provided").map(|m| ("no formatter", m)) }
        } else if good.is_none() {
            ctx.count("no_version", 1);
            failed().map(|m| ("an unknown version", m)).or_else(|| noted("args").map(|_| ("an unknown version", "it was run".to_string())))
        } else if good == Some(false) {
            ctx.count("old", 1);
            update(version.trim().trim_start_matches("movefmt v")).map(|m| ("an old version", m)).or_else(|| noted("args").map(|_| ("an old version", "it was run".to_string())))
        } else {
            ran = true;
            ctx.count("runs", 1);
            ctx.count(match plan.how { How::Proper => "runs_proper", How::Early => "runs_early", How::Deaf => "runs_deaf", How::Stream => "runs_stream" }, 1);
            let mut bad = None;
            let mut args = vec!["--quiet", "--stdin", "--emit", "stdout"];
            args.extend(&extra);
            let want: String = args.iter().map(|a| format!("{a}\n")).collect();
            let got = noted("args").map(|b| String::from_utf8_lossy(&b).into_owned());
            if got.as_deref() != Some(&want) {
                bad = Some(("arguments", format!("{got:?}, not {want:?}")));
            }
            let cwd = noted("cwd").map(|b| String::from_utf8_lossy(&b).trim_end_matches('\n').to_string());
            let cwd = cwd.map(|x| std::fs::canonicalize(x).unwrap_or_default());
            if cwd != std::fs::canonicalize(s.path(dir)).ok() {
                bad = bad.or(Some(("directory", format!("{cwd:?}"))));
            }
            if plan.how != How::Deaf && noted("in").as_deref() != Some(now.as_bytes()) {
                let g = noted("in").map(|b| cut(&String::from_utf8_lossy(&b)));
                bad = bad.or(Some(("what the formatter reads", format!("{g:?}"))));
            }
            let result = if code == 0 && nontext {
                failed().map(|m| ("output that is no text", m))
            } else if code == 0 {
                let want = if text.contains("\r\n") { crlf(&lf(&out)) } else { lf(&out) };
                if !said.is_empty() {
                    Some(("a note", "the formatter did well".to_string()))
                } else if lf(&out) == now {
                    ctx.count("unchanged", 1);
                    match &a { Answer::Ok(Value::Null) => None, _ => Some(("an edit of what is formatted", "null expected".to_string())) }
                } else {
                    ctx.count("edits", 1);
                    match &a {
                        Answer::Ok(Value::Array(es)) => match apply(&text, es, enc) {
                            Ok(t) if t == want => None,
                            Ok(t) => Some(("the formatted text", format!("the document becomes {}", cut(&t)))),
                            Err(e) => Some(("the formatted text", e)),
                        },
                        _ => Some(("the formatted text", "no edits".to_string())),
                    }
                }
            } else if code == 1 && plain(&out).contains("a valid move code") {
                ctx.count("invalid_code", 1);
                let ok = matches!(&a, Answer::Ok(Value::Null)) && said.len() == 1 && said[0].0 == "window/showMessage" && said[0].1["type"] == json!(1);
                (!ok).then(|| ("a document that does not parse", "an error message and null expected".to_string()))
            } else {
                ctx.count("failures", 1);
                match &a {
                    Answer::Err(-32900, m) => {
                        let all = [format!("{code}"), plain(&out).trim().to_string(), plain(&err).trim().to_string()];
                        all.iter().find(|x| !plain(m).contains(x.as_str())).map(|x| ("the error", format!("does not have {}", cut(x)))).or_else(|| (!said.is_empty()).then(|| ("a note", "besides the error".to_string())))
                    }
                    _ => Some(("the error", "-32900 expected".to_string())),
                }
            };
            bad.or(result)
        };
        if let Some((sig, what)) = bad {
            ctx.violation(sig, show(what));
            return;
        }
    }
    ctx.eval(vf::hash_of(&(&text, place, &settings.to_string())), ran);
    ctx.sample(|| format!("place {place} {settings} {}", cut(&text)));
    c.shutdown();
    report_faults(ctx, &mut c, &|| format!("{settings} {place}"));
}

/// Without the colours.
fn plain(t: &str) -> String {
    let mut out = String::new();
    let mut cs = t.chars();
    while let Some(c) = cs.next() {
        if c == '\u{1b}' {
            for c in cs.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else if c == '\n' || !c.is_control() {
            out.push(c);
        }
    }
    out
}

fn run(ctx: &Ctx) {
    for k in ["runs_proper", "runs_early", "runs_deaf", "edits", "unchanged", "failures", "invalid_code", "old", "none"] {
        ctx.require(k, 10);
    }
    ctx.par("formatting", ctx.size(700, 7000), |rng, _| {
        ctx.open("conversation", "");
        conversation(ctx, rng);
        ctx.close();
    });
}
