//! C24: what the server knows of packages is what their manifests and files on disk say.
use crate::client::{Answer, Client, Options, Scratch, cut};
use crate::protocol::report_faults;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::{Duration, Instant};
use vf::{Check, Ctx, Rng};

pub const CHECK: Check = Check {
    id: "C24",
    rule: "random layouts of packages on disk (local, dev, git, missing, cyclic, nested, broken) and random histories of files, manifests, folders and documents; after each step the server's definitions, diagnostics, status and watchers are compared with what a model of the manifests says; non-trivial when a name of another package was asked for",
    assumptions: &["the vfs and file-watching crates are stand-ins written for this sandbox", "the client tells of changes of the files it was asked to watch"],
    run,
};

#[derive(Clone, PartialEq, Debug)]
enum Target {
    /// package by index, as a local path
    Local(usize),
    /// package by index, as a repository
    Git(usize),
    /// nothing is there
    Missing(String),
}

#[derive(Clone, PartialEq, Debug)]
struct Dep {
    key: String,
    target: Target,
    dev: bool,
}

#[derive(Clone, Debug)]
struct Pkg {
    dir: String,
    name: Option<String>,
    /// name of its address, if it has one
    addr: Option<String>,
    /// the value is left open
    open_addr: bool,
    deps: Vec<Dep>,
    broken: Option<usize>,
    /// is on disk
    exists: bool,
    /// how the manifest is written
    style: usize,
    /// where the module that others name is; the name of its function
    file: String,
    function: String,
    there: bool,
    /// (repository, revision, subdirectory)
    git: Option<(String, String, Option<String>)>,
    uses: String,
}

/// What the manifests say.
#[derive(Clone, Default, PartialEq, Debug)]
struct Loaded {
    valid: bool,
    /// packages with the packages they see (not themselves)
    sees: BTreeMap<usize, BTreeSet<usize>>,
    /// as above, but these may be hidden by one of the same name
    doubtful: BTreeMap<usize, BTreeSet<usize>>,
    missing: BTreeMap<usize, BTreeSet<String>>,
    no_deps: BTreeSet<usize>,
}

struct World {
    s: Scratch,
    pkgs: Vec<Pkg>,
    folders: Vec<String>,
    core: bool,
    /// workspace packages the server found when it last looked
    found: BTreeSet<usize>,
    inforce: Loaded,
    /// open documents of packages' modules
    open: BTreeMap<usize, String>,
}

fn up(from: &str, to: &str) -> String {
    let (f, t): (Vec<&str>, Vec<&str>) = (from.split('/').collect(), to.split('/').collect());
    let n = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut out: Vec<&str> = vec![".."; f.len() - n];
    out.extend(&t[n..]);
    if out.is_empty() { ".".to_string() } else { out.join("/") }
}

impl World {
    fn manifest(&self, i: usize) -> String {
        let p = &self.pkgs[i];
        match p.broken {
            Some(0) => return "[package\nname = \"x\"\n".to_string(),
            Some(1) => return "[package]\nname = \"x\"\nname = \"y\"\n".to_string(),
            Some(_) => return "[dependencies]\nA = { local = \"..\"\n".to_string(),
            None => {}
        }
        let mut t = String::new();
        let pkg = |t: &mut String| {
            if let Some(n) = &p.name {
                *t += &format!("[package]\nname = \"{n}\"\nversion = \"1.0.0\"\nauthors = []\n\n");
            }
        };
        if p.style & 1 == 0 {
            pkg(&mut t);
        }
        if let Some(a) = &p.addr {
            let v = if p.open_addr { "_".to_string() } else { self.value(i) };
            t += &format!("[{}addresses]\n{a} = \"{v}\"\n\n", if p.style & 2 == 0 { "" } else { "dev-" });
        }
        for dev in [false, true] {
            let deps: Vec<&Dep> = p.deps.iter().filter(|d| d.dev == dev).collect();
            let head = if dev { "dev-dependencies" } else { "dependencies" };
            let body = |d: &Dep| -> Vec<(String, String)> {
                match &d.target {
                    Target::Local(j) => {
                        let path = up(&p.dir, &self.pkgs[*j].dir);
                        let path = match p.style & 12 {
                            4 => format!("./{path}"),
                            8 => format!("{path}/"),
                            _ => path,
                        };
                        vec![("local".into(), path)]
                    }
                    Target::Git(j) => {
                        let (g, r, sub) = self.pkgs[*j].git.clone().unwrap();
                        let mut v = vec![("git".to_string(), g), ("rev".to_string(), r)];
                        if let Some(sub) = sub {
                            v.push(("subdir".to_string(), sub));
                        }
                        v
                    }
                    Target::Missing(path) => vec![("local".into(), path.clone())],
                }
            };
            if p.style & 16 == 0 {
                if !deps.is_empty() || !dev {
                    t += &format!("[{head}]\n");
                }
                for d in deps {
                    let b: Vec<String> = body(d).iter().map(|(k, v)| format!("{k} = \"{v}\"")).collect();
                    t += &format!("{} = {{ {} }}\n", d.key, b.join(", "));
                }
                t += "\n";
            } else {
                for d in deps {
                    t += &format!("[{head}.{}]\n", d.key);
                    for (k, v) in body(d) {
                        t += &format!("{k} = \"{v}\"\n");
                    }
                    t += "\n";
                }
            }
        }
        if p.style & 1 != 0 {
            pkg(&mut t);
        }
        t
    }
    fn value(&self, i: usize) -> String {
        format!("0x{:x}", 100 + i)
    }
    fn module_text(&self, i: usize, function: &str) -> String {
        let a = self.pkgs[i].addr.clone().unwrap_or(self.value(i));
        format!("module {a}::m{i} {{\n    public fun {function}() {{}}\n}}\n")
    }
    fn module_file(&self, i: usize) -> String {
        format!("{}/{}", self.pkgs[i].dir, self.pkgs[i].file)
    }
    fn uses_file(&self, i: usize) -> String {
        format!("{}/{}", self.pkgs[i].dir, self.pkgs[i].uses)
    }
    fn uses_text(&self, i: usize) -> (String, Vec<(usize, usize)>) {
        // one line for each package; (package, offset of the function's name)
        let mut t = format!("module 0x{:x}::u{i} {{\n    fun t() {{\n", 500 + i);
        let mut at = vec![];
        for j in 0..self.pkgs.len() {
            let p = &self.pkgs[j];
            let a = match &p.addr {
                Some(a) if p.open_addr || (i + j) % 2 == 0 => a.clone(),
                _ => self.value(j),
            };
            t += &format!("        {a}::m{j}::");
            at.push((j, t.len()));
            t += "f();\n";
        }
        t += "    }\n}\n";
        (t, at)
    }
    fn discover(&self) -> BTreeSet<usize> {
        (0..self.pkgs.len())
            .filter(|i| self.pkgs[*i].exists && self.folders.iter().any(|f| self.pkgs[*i].dir == *f || self.pkgs[*i].dir.starts_with(&format!("{f}/"))))
            .collect()
    }
    fn deps(&self, i: usize) -> Vec<usize> {
        self.pkgs[i]
            .deps
            .iter()
            .filter_map(|d| match &d.target {
                Target::Local(j) | Target::Git(j) if self.pkgs[*j].exists => Some(*j),
                _ => None,
            })
            .collect()
    }
    fn unresolving(&self, i: usize) -> bool {
        self.core && self.pkgs[i].dir.starts_with("ws/") && !self.pkgs[i].dir.starts_with("ws/aptos-move/")
    }
    /// What the manifests on disk say.
    fn read(&self) -> Loaded {
        let mut l = Loaded { valid: true, ..Loaded::default() };
        let mut queue: VecDeque<usize> = self.found.iter().copied().collect();
        let mut seen = BTreeSet::new();
        while let Some(i) = queue.pop_front() {
            if !seen.insert(i) {
                continue;
            }
            if self.pkgs[i].broken.is_some() || !self.pkgs[i].exists {
                l.valid = false;
                continue;
            }
            l.sees.insert(i, BTreeSet::new());
            if self.unresolving(i) {
                l.no_deps.insert(i);
                continue;
            }
            queue.extend(self.deps(i));
        }
        let all: Vec<usize> = l.sees.keys().copied().collect();
        for i in all {
            if l.no_deps.contains(&i) {
                continue;
            }
            let reach = |shun: &dyn Fn(usize) -> bool| {
                let mut r = BTreeSet::new();
                let mut q: VecDeque<usize> = self.deps(i).into();
                while let Some(j) = q.pop_front() {
                    if j == i || shun(j) || !r.insert(j) {
                        continue;
                    }
                    if self.pkgs[j].broken.is_none() {
                        q.extend(self.deps(j));
                    }
                }
                r
            };
            let most = reach(&|_| false);
            // of packages of one name the nearest is seen
            let mut taken: BTreeMap<&str, usize> = BTreeMap::new();
            let (mut met, mut least, mut tie) = (BTreeSet::from([i]), BTreeSet::new(), false);
            let mut level = self.deps(i);
            while !level.is_empty() {
                let before: BTreeSet<&str> = taken.keys().copied().collect();
                let mut next = vec![];
                for j in level {
                    if !met.insert(j) || self.pkgs[j].broken.is_some() {
                        continue;
                    }
                    if let Some(n) = &self.pkgs[j].name {
                        if before.contains(n.as_str()) {
                            continue;
                        }
                        tie |= taken.insert(n, j).is_some();
                    }
                    least.insert(j);
                    next.extend(self.deps(j));
                }
                level = next;
            }
            let mut doubtful: BTreeSet<usize> = BTreeSet::new();
            if tie {
                let mut names: BTreeMap<&str, usize> = BTreeMap::new();
                for j in &most {
                    if let Some(n) = &self.pkgs[*j].name {
                        *names.entry(n).or_insert(0) += 1;
                    }
                }
                least = reach(&|j| self.pkgs[j].name.as_ref().is_some_and(|n| names[n.as_str()] > 1));
                doubtful = most.difference(&least).copied().collect();
            }
            let mut missing = BTreeSet::new();
            for j in least.iter().chain([&i]) {
                for d in &self.pkgs[*j].deps {
                    if self.pkgs[*j].broken.is_none() && match &d.target { Target::Missing(_) => true, Target::Local(k) | Target::Git(k) => !self.pkgs[*k].exists } {
                        missing.insert(d.key.clone());
                    }
                }
            }
            l.doubtful.insert(i, doubtful);
            l.sees.insert(i, least);
            l.missing.insert(i, missing);
        }
        l
    }
    fn reload(&mut self) {
        let l = self.read();
        if l.valid || self.inforce.sees.is_empty() {
            self.inforce = l;
        }
    }
    fn errors(&self) -> bool {
        !self.read().valid
    }
    fn local(&self, i: usize) -> bool {
        !self.pkgs[i].dir.starts_with("home/")
    }
    fn lay(&self, i: usize) {
        let p = &self.pkgs[i];
        if !p.exists {
            return;
        }
        self.s.write(&format!("{}/Move.toml", p.dir), &self.manifest(i));
        if p.there {
            self.s.write(&self.module_file(i), &self.module_text(i, &p.function));
        }
        self.s.write(&self.uses_file(i), &self.uses_text(i).0);
        // what is not a source of the package
        self.s.write(&format!("{}/build/m.move", p.dir), &self.module_text(i, "f"));
        self.s.write(&format!("{}/sources/m.mv", p.dir), &self.module_text(i, "f"));
        self.s.write(&format!("{}/doc/m.move", p.dir), &self.module_text(i, "f"));
    }
    /// The function the module of the package has, as the server sees it.
    fn has(&self, j: usize) -> bool {
        match self.open.get(&j) {
            Some(f) => f == "f",
            None => self.pkgs[j].there && self.pkgs[j].function == "f",
        }
    }
    fn show(&self) -> String {
        let mut t = format!("folders {:?} core={} found {:?}\nin force {:?}\nopen {:?}\n", self.folders, self.core, self.found, self.inforce, self.open);
        for (i, p) in self.pkgs.iter().enumerate() {
            t += &format!("--- {i}: {} exists={} git={:?} module {} there={} fun {}\n{}", p.dir, p.exists, p.git, p.file, p.there, p.function, if p.exists { self.manifest(i) } else { String::new() });
        }
        t
    }
}

fn layout(rng: &mut Rng) -> World {
    let s = Scratch::new();
    let core = rng.chance(1, 8);
    let n = rng.range(2, 6);
    let mut pkgs: Vec<Pkg> = vec![];
    for i in 0..n {
        let parent = pkgs.iter().rposition(|p| p.dir.starts_with("ws/") && !p.dir.contains("aptos-move"));
        let (dir, git) = match rng.below(10) {
            _ if i == 0 => (if rng.chance(1, 6) && !core { "ws".to_string() } else { "ws/p0".to_string() }, None),
            0 if parent.is_some() && !core => (format!("{}/inner{i}", pkgs[parent.unwrap()].dir), None),
            0..=3 if core && rng.chance(2, 3) => (format!("ws/aptos-move/{}/p{i}", rng.pick(&["framework", "move-examples"])), None),
            0..=3 => (format!("ws/{}p{i}", if rng.chance(1, 4) { "deep é/" } else { "" }), None),
            4 | 5 => (format!("ws2/p{i}"), None),
            6 | 7 => (format!("out/p{i}"), None),
            _ => {
                let rev = (*rng.pick(&["main", "v1.0", "feature/x"])).to_string();
                let url = format!("https://github.com/some-org/r{i}.git");
                let base = format!("home/.move/https___github_com_some-org_r{i}_git_{}", rev.replace('/', "_"));
                let sub = if rng.chance(1, 2) { Some("packages/one".to_string()) } else { None };
                (match &sub { Some(x) => format!("{base}/{x}"), None => base }, Some((url, rev, sub)))
            }
        };
        let addr = if rng.chance(1, 2) { Some(format!("a{i}")) } else { None };
        pkgs.push(Pkg {
            dir,
            name: match rng.below(8) { 0 => None, 1 => Some("same".to_string()), _ => Some(format!("P{i}")) },
            open_addr: addr.is_some() && rng.chance(1, 4),
            addr,
            deps: vec![],
            broken: None,
            exists: true,
            style: rng.below(32),
            file: file(rng),
            function: "f".to_string(),
            there: !rng.chance(1, 8),
            git,
            uses: (*rng.pick(&["sources/u.move", "tests/u.move", "sources/a b/u.move"])).to_string(),
        });
    }
    let mut w = World { s, pkgs, folders: vec!["ws".into()], core, found: BTreeSet::new(), inforce: Loaded::default(), open: BTreeMap::new() };
    for i in 0..n {
        w.pkgs[i].deps = some_deps(rng, &w, i);
    }
    if rng.chance(1, 8) {
        let i = rng.below(n);
        w.pkgs[i].broken = Some(rng.below(3));
    }
    if rng.chance(1, 6) {
        let i = rng.range(1, n - 1);
        w.pkgs[i].exists = false;
    }
    if rng.chance(1, 3) {
        w.folders.push("ws2".into());
    }
    w
}

fn file(rng: &mut Rng) -> String {
    (*rng.pick(&["sources/m.move", "sources/deep/er/m.move", "tests/m.move", "scripts/m.move", "sources/ünï.move"])).to_string()
}

fn some_deps(rng: &mut Rng, w: &World, i: usize) -> Vec<Dep> {
    let mut out = vec![];
    let home = |j: usize| w.pkgs[j].dir.starts_with("home/");
    for j in 0..w.pkgs.len() {
        if !rng.chance(2, 5) || i == j && !rng.chance(1, 8) {
            continue;
        }
        // packages that do not resolve are no one's dependency, what they load is another matter
        if w.unresolving(j) && i != j {
            continue;
        }
        let target = if home(j) {
            if home(i) && rng.chance(1, 2) { Target::Local(j) } else { Target::Git(j) }
        } else if home(i) {
            continue;
        } else {
            Target::Local(j)
        };
        out.push(Dep { key: format!("D{j}"), target, dev: rng.chance(1, 4) });
    }
    if rng.chance(1, 6) {
        out.push(Dep { key: format!("Gone{i}"), target: Target::Missing((*rng.pick(&["../nowhere", "./sources", "/nonexistent/é"])).to_string()), dev: rng.chance(1, 3) });
    }
    out
}

/// What the server says, by package asked from: for each package asked for the file it is found in, the lines with an
/// unresolved name, and its notes of missing packages.
#[derive(PartialEq, Debug, Clone, Default)]
struct Said {
    leads: BTreeMap<(usize, usize), Option<String>>,
    bad: BTreeMap<usize, BTreeSet<usize>>,
    notes: BTreeMap<usize, BTreeSet<String>>,
    health: String,
}

fn observe(w: &World, c: &mut Client) -> Result<Said, String> {
    let mut out = Said::default();
    for i in w.inforce.sees.keys() {
        let (text, at) = w.uses_text(*i);
        let uri = w.s.uri(&w.uses_file(*i));
        for (j, o) in at {
            let line = text[..o].matches('\n').count();
            let col = o - text[..o].rfind('\n').unwrap() - 1;
            let a = c.ask("textDocument/definition", json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": col}}));
            let to = match a {
                Answer::Ok(Value::Null) => None,
                Answer::Ok(v) => {
                    let v = if v.is_array() { v } else { json!([v]) };
                    let mut us: Vec<String> = v.as_array().unwrap().iter().map(|x| x["targetUri"].as_str().or(x["uri"].as_str()).unwrap_or("?").to_string()).collect();
                    us.sort();
                    if us.is_empty() { None } else { Some(us.join(" ")) }
                }
                Answer::Err(n, m) => return Err(format!("definition in {}: {n} {m}", w.uses_file(*i))),
            };
            out.leads.insert((*i, j), to);
        }
        match c.ask("textDocument/diagnostic", json!({"textDocument": {"uri": uri}})) {
            Answer::Ok(v) => {
                let mut bad = BTreeSet::new();
                let mut notes = BTreeSet::new();
                for d in v["items"].as_array().into_iter().flatten() {
                    if d["code"] == json!("unresolved-reference") {
                        bad.insert(d["range"]["start"]["line"].as_u64().unwrap_or(0) as usize);
                        let m = d["message"].as_str().unwrap_or("");
                        if let Some((a, _)) = m.split_once("` declared dependency packages") {
                            notes.extend(a.rsplit('`').next().unwrap_or("").split(", ").map(|x| x.to_string()));
                        }
                    }
                }
                out.bad.insert(*i, bad);
                out.notes.insert(*i, notes);
            }
            a => return Err(format!("diagnostics of {}: {}", w.uses_file(*i), a.show())),
        }
    }
    out.health = c.status.as_ref().and_then(|s| s["health"].as_str()).unwrap_or("none").to_string();
    Ok(out)
}

/// The first thing said that the manifests do not say.
fn wrong(w: &World, said: &Said) -> Option<(String, String)> {
    let l = &w.inforce;
    for ((i, j), to) in &said.leads {
        if l.doubtful.get(i).is_some_and(|d| d.contains(j)) {
            continue;
        }
        let seen = (i == j || l.sees[i].contains(j)) && l.sees.contains_key(j) && w.has(*j);
        let want = seen.then(|| w.s.uri(&w.module_file(*j)));
        if *to != want {
            let what = match (to, &want) {
                (None, Some(_)) => "a name of the package's own or a dependency does not lead anywhere",
                (Some(_), None) => "a name leads where nothing is seen",
                _ => "a name leads to another file",
            };
            return Some((what.into(), format!("in package {i} ({}), the function of package {j} leads to {to:?}, not {want:?}", w.pkgs[*i].dir)));
        }
    }
    for (i, bad) in &said.bad {
        let quiet = !w.local(*i) || l.no_deps.contains(i);
        for (j, (_, o)) in w.uses_text(*i).1.iter().enumerate() {
            if l.doubtful.get(i).is_some_and(|d| d.contains(&j)) {
                continue;
            }
            let line = w.uses_text(*i).0[..*o].matches('\n').count();
            let want = !quiet && said.leads[&(*i, j)].is_none();
            if l.no_deps.contains(i) {
                continue;
            }
            if bad.contains(&line) != want {
                let what = if want { "an unresolved name is not reported" } else if quiet { "diagnostics of a package that has none" } else { "a resolved name is reported" };
                return Some((what.into(), format!("in package {i} ({}), line {line} (package {j}): reported {bad:?}", w.pkgs[*i].dir)));
            }
        }
        if quiet || l.doubtful.get(i).is_some_and(|d| !d.is_empty()) {
            continue;
        }
        let none = BTreeSet::new();
        let want = l.missing.get(i).unwrap_or(&none);
        // (an item that is there under another name says nothing of packages)
        if !bad.is_empty() && said.notes[i] != *want && !(said.notes[i].is_empty() && want.is_empty()) {
            return Some(("note of missing packages".into(), format!("in package {i} ({}) the note names {:?}, missing are {want:?}", w.pkgs[*i].dir, said.notes[i])));
        }
    }
    let want = if w.errors() { "error" } else if w.found.is_empty() { "warning" } else { "ok" };
    if said.health != want {
        return Some(("health".into(), format!("health is {}, not {want}", said.health)));
    }
    None
}

/// A path against a pattern of the protocol.
fn globs(pat: &[&str], path: &[&str]) -> bool {
    match (pat.first(), path.first()) {
        (None, None) => true,
        (Some(&"**"), _) => globs(&pat[1..], path) || !path.is_empty() && globs(pat, &path[1..]),
        (Some(p), Some(x)) => {
            fn seg(p: &[u8], x: &[u8]) -> bool {
                match (p.first(), x.first()) {
                    (None, None) => true,
                    (Some(b'*'), _) => seg(&p[1..], x) || !x.is_empty() && seg(p, &x[1..]),
                    (Some(a), Some(b)) => a == b && seg(&p[1..], &x[1..]),
                    _ => false,
                }
            }
            seg(p.as_bytes(), x.as_bytes()) && globs(&pat[1..], &path[1..])
        }
        _ => false,
    }
}

/// Which of the files the client was not asked to watch.
fn unwatched(w: &World, c: &Client) -> Option<String> {
    let reg = c.asked.iter().rev().filter(|a| a.0 == "client/registerCapability").flat_map(|a| a.1["registrations"].as_array().cloned().unwrap_or_default()).find(|r| r["method"] == json!("workspace/didChangeWatchedFiles"))?;
    let ws: Vec<(String, String)> = reg["registerOptions"]["watchers"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|x| {
            let g = &x["globPattern"];
            match g.as_str() {
                Some(p) => (String::new(), p.to_string()),
                None => {
                    let b = g["baseUri"].as_str().or(g["baseUri"]["uri"].as_str()).unwrap_or("");
                    (b.to_string(), g["pattern"].as_str().unwrap_or("").to_string())
                }
            }
        })
        .collect();
    let watched = |rel: &str| {
        let (p, u) = (w.s.path(rel), w.s.uri(rel));
        ws.iter().any(|(b, pat)| {
            if b.is_empty() {
                globs(&pat.split('/').collect::<Vec<_>>(), &p.to_str().unwrap().split('/').collect::<Vec<_>>())
            } else {
                u.strip_prefix(&format!("{}/", b.trim_end_matches('/'))).is_some_and(|r| globs(&pat.split('/').collect::<Vec<_>>(), &r.split('/').collect::<Vec<_>>()))
            }
        })
    };
    for i in w.inforce.sees.keys() {
        let d = &w.pkgs[*i].dir;
        let mut files = vec![format!("{d}/Move.toml")];
        if w.local(*i) {
            for s in ["sources", "tests", "scripts"] {
                files.push(format!("{d}/{s}/new.move"));
                files.push(format!("{d}/{s}/a/b/new.move"));
            }
        }
        for f in files {
            if !watched(&f) {
                return Some(format!("{f} is not watched: {ws:?}"));
            }
        }
        for f in [format!("{d}/build/new.move"), format!("{d}/new.move"), format!("{d}/sources/new.txt")] {
            if watched(&f) && !w.pkgs.iter().any(|p| f.starts_with(&format!("{}/sources", p.dir)) || f.starts_with(&format!("{}/tests", p.dir))) {
                return Some(format!("{f} is watched: {ws:?}"));
            }
        }
    }
    None
}

fn history(ctx: &Ctx, rng: &mut Rng, steps: usize) {
    let mut w = layout(rng);
    for i in 0..w.pkgs.len() {
        w.lay(i);
    }
    std::fs::create_dir_all(w.s.path("ws")).unwrap();
    std::fs::create_dir_all(w.s.path("ws2")).unwrap();
    std::fs::create_dir_all(w.s.path("out")).unwrap();
    if w.core {
        std::fs::create_dir_all(w.s.path("ws/aptos-move/framework")).unwrap();
    }
    if rng.chance(1, 5) {
        // names that are no text
        use std::os::unix::ffi::OsStrExt;
        let odd = std::ffi::OsStr::from_bytes(b"b\xff\xfe.move");
        for d in ["ws", "out"] {
            let d = w.s.path(d).join(odd);
            std::fs::create_dir_all(d.join("sources")).unwrap();
            std::fs::write(d.join("Move.toml"), "[package]\nname = \"odd\"\n").unwrap();
            std::fs::write(d.join("sources/m.move"), "module 0x1::odd { fun f() {} }").unwrap();
        }
        for p in w.pkgs.iter().filter(|p| p.exists) {
            let d = w.s.path(&format!("{}/sources", p.dir));
            std::fs::write(d.join(odd), "module 0x1::odd { fun f() {} }").unwrap();
        }
    }
    w.found = w.discover();
    let relative = rng.chance(1, 2);
    let mut o = Options::new(&w.s.uri("ws"));
    o.folders = w.folders.iter().map(|f| w.s.uri(f)).collect();
    o = o.with(json!({"workspace": {"didChangeWatchedFiles": {"relativePatternSupport": relative}}}));
    o.env = vec![("HOME".to_string(), w.s.path("home").to_str().unwrap().to_string())];
    let first = w.show();
    let mut c = Client::ready(&o);
    w.reload();
    let mut log: Vec<String> = vec![format!("start, relative patterns {relative}")];
    let mut asked = 0u64;
    let mut looked = true;
    for step in 0..=steps {
        // something happens
        if step > 0 {
            let n = w.pkgs.len();
            let mut told: Vec<(String, u32)> = vec![];
            let mut broke = false;
            let mut moved = false;
            // what is loaded on the way does not matter, unless there are errors later
            let many = if w.pkgs.iter().any(|p| p.exists && p.broken.is_some()) { 1 } else { rng.range(1, 3) };
            for act in 0..many {
                let i = rng.below(n);
                let watching = w.inforce.sees.contains_key(&i);
                // the client is asked to watch other files first
                moved |= w.read().sees.keys().ne(w.inforce.sees.keys());
                if broke || moved {
                    break;
                }
                let toml = format!("{}/Move.toml", w.pkgs[i].dir);
                match rng.below(14) {
                    0..=2 if w.pkgs[i].exists => {
                        // the module on disk
                        let f = w.module_file(i);
                        let kind = if w.pkgs[i].there { 2 } else { 1 };
                        w.pkgs[i].function = (*rng.pick(&["f", "f", "g"])).to_string();
                        w.pkgs[i].there = true;
                        let t = w.module_text(i, &w.pkgs[i].function);
                        w.s.write(&f, &t);
                        log.push(format!("write {f} with {}", w.pkgs[i].function));
                        if watching { told.push((f, kind)); }
                    }
                    3 if w.pkgs[i].there && w.pkgs[i].exists => {
                        let f = w.module_file(i);
                        w.s.remove(&f);
                        w.pkgs[i].there = false;
                        log.push(format!("remove {f}"));
                        if watching { told.push((f, 3)); }
                    }
                    4 if w.pkgs[i].there && w.pkgs[i].exists && !w.open.contains_key(&i) => {
                        let old = w.module_file(i);
                        w.pkgs[i].file = file(rng);
                        let new = w.module_file(i);
                        if old != new {
                            w.s.remove(&old);
                            w.s.write(&new, &w.module_text(i, &w.pkgs[i].function));
                            log.push(format!("move {old} to {new}"));
                            if watching {
                                told.push((old, 3));
                                told.push((new, 1));
                                if rng.chance(1, 2) {
                                    let k = told.len();
                                    told.swap(k - 1, k - 2);
                                }
                            }
                        }
                    }
                    5..=7 if w.pkgs[i].exists => {
                        let errors = w.errors();
                        match rng.below(4) {
                            0 if w.pkgs[i].broken.is_none() && act == 0 && looked => {
                                w.pkgs[i].broken = Some(rng.below(3));
                                broke = true;
                            }
                            1 => {
                                w.pkgs[i].style = rng.below(32);
                                w.pkgs[i].broken = None;
                            }
                            _ => {
                                w.pkgs[i].deps = some_deps(rng, &w, i);
                                w.pkgs[i].broken = None;
                            }
                        }
                        let t = w.manifest(i);
                        if t == w.s.read(&toml) {
                            broke = false;
                            continue;
                        }
                        w.s.write(&toml, &t);
                        log.push(format!("write {toml}:\n{t}"));
                        if watching {
                            told.push((toml, 2));
                        } else if rng.chance(1, 2) || w.found.contains(&i) || errors {
                            c.save(&w.s.uri(&toml));
                        }
                    }
                    8 | 9 => match w.open.get(&i) {
                        None if watching && w.pkgs[i].exists => {
                            let f = (*rng.pick(&["f", "g"])).to_string();
                            let rel = w.module_file(i);
                            c.open(&w.s.uri(&rel), &w.module_text(i, &f));
                            log.push(format!("open {rel} with {f}"));
                            w.open.insert(i, f);
                        }
                        None => {}
                        Some(_) if rng.chance(1, 2) => {
                            let f = (*rng.pick(&["f", "g"])).to_string();
                            let rel = w.module_file(i);
                            c.set_text(&w.s.uri(&rel), &w.module_text(i, &f));
                            log.push(format!("change {rel} to {f}"));
                            w.open.insert(i, f);
                        }
                        Some(_) => {
                            let rel = w.module_file(i);
                            c.close(&w.s.uri(&rel));
                            log.push(format!("close {rel}"));
                            w.open.remove(&i);
                        }
                    },
                    10 | 11 => {
                        let any = if w.core { &["ws2"][..] } else { &["ws2", "ws2", "ws2", "ws", "out", "ws/p0"][..] };
                        let mut dirs = vec![*rng.pick(any)];
                        if rng.chance(1, 4) && !dirs.contains(&"ws2") {
                            dirs.push("ws2");
                        }
                        let (mut add, mut sub) = (vec![], vec![]);
                        for d in dirs {
                            let f = json!({"uri": w.s.uri(d), "name": d});
                            if w.folders.iter().any(|f| f == d) {
                                w.folders.retain(|f| f != d);
                                sub.push(f);
                            } else {
                                w.folders.push(d.into());
                                add.push(f);
                            }
                        }
                        c.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": add, "removed": sub}}));
                        w.found = w.discover();
                        log.push(format!("folders are {:?}", w.folders));
                    }
                    12 if !w.pkgs[i].exists => {
                        // it is downloaded; those who want it are loaded again by saving a manifest
                        c.settle();
                        w.pkgs[i].exists = true;
                        w.lay(i);
                        log.push(format!("{} appears", w.pkgs[i].dir));
                        let k = *w.found.iter().next().unwrap_or(&0);
                        c.save(&w.s.uri(&format!("{}/Move.toml", w.pkgs[k].dir)));
                    }
                    13 => {
                        let k = *w.found.iter().next().unwrap_or(&0);
                        c.save(&w.s.uri(&format!("{}/Move.toml", w.pkgs[k].dir)));
                        log.push("save a manifest".into());
                    }
                    _ => {}
                }
            }
            if !told.is_empty() {
                let told: Vec<(String, u32)> = told.into_iter().map(|(f, k)| (w.s.uri(&f), k)).collect();
                if rng.chance(1, 2) {
                    let t: Vec<(&str, u32)> = told.iter().map(|(u, k)| (u.as_str(), *k)).collect();
                    c.watched(&t);
                } else {
                    for (u, k) in &told {
                        c.watched(&[(u, *k)]);
                    }
                }
            }
            moved |= w.read().sees.keys().ne(w.inforce.sees.keys());
            let hidden_before = w.inforce.clone();
            w.reload();
            // a document that is open belongs to no package now; leave such things alone
            let gone: Vec<usize> = w.open.keys().copied().filter(|i| !w.inforce.sees.contains_key(i)).collect();
            for i in gone {
                c.close(&w.s.uri(&w.module_file(i)));
                w.open.remove(&i);
            }
            ctx.count("switches", (w.inforce != hidden_before) as u64);
            ctx.count("steps", 1);
            if rng.chance(1, 4) && step < steps && !moved && !w.pkgs.iter().any(|p| p.exists && p.broken.is_some()) {
                looked = false;
                continue;
            }
            looked = true;
        }
        // what does the server say now
        let t0 = Instant::now();
        let bad = loop {
            let bad = match observe(&w, &mut c) {
                Ok(said) => {
                    asked += said.leads.values().filter(|t| t.is_some()).count() as u64;
                    wrong(&w, &said)
                }
                Err(e) => Some(("no answer".to_string(), e)),
            };
            let bad = bad.or_else(|| unwatched(&w, &c).map(|m| ("files to watch".to_string(), m)));
            let bad = bad.or_else(|| (!c.quiescent()).then(|| ("never quiescent".to_string(), format!("{:?}", c.status))));
            match bad {
                Some(b) if c.closed || t0.elapsed() > Duration::from_secs(12) => break Some(b),
                None => break None,
                Some(_) => {
                    c.pump(Duration::from_millis(10));
                }
            }
        };
        ctx.count("looks", 1);
        ctx.count("looks_with_errors", w.errors() as u64);
        ctx.count("looks_without_dependencies", (!w.inforce.no_deps.is_empty()) as u64);
        if let Some((sig, what)) = bad {
            ctx.violation(&format!("{sig}{}", if step == 0 { " at start" } else { "" }), format!("{what}\n{}\n=== at first\n{first}\n=== at last\n{}\n{}", log.join("\n"), w.show(), { let t = c.stderr_tail(); t[t.char_indices().rev().take(6000).last().map_or(0, |x| x.0)..].to_string() }));
            return;
        }
        if ctx.stopped() {
            break;
        }
    }
    ctx.count("names_led_somewhere", asked);
    ctx.eval(vf::hash_of(&(&first, &log)), asked > 0);
    ctx.sample(|| log.join("\n"));
    c.shutdown();
    report_faults(ctx, &mut c, &|| format!("{first}\n{}", log.join("\n")));
}

fn run(ctx: &Ctx) {
    ctx.require("names_led_somewhere", 500);
    ctx.require("switches", 100);
    ctx.require("looks_with_errors", 20);
    ctx.par("workspaces", ctx.size(800, 8000), |rng, _| {
        ctx.open("workspace", "");
        let steps = rng.range(0, 10);
        history(ctx, rng, steps);
        ctx.close();
    });
}
