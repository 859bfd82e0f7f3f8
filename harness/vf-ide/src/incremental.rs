//! A host that lived through a history of changes against one that was born into its outcome.
use crate::facts::{Facts, Want, collect, difference, frame};
use crate::queries::completion_config;
use crate::sources;
use crate::world::{Layout, Package, World, host_with_builtins};
use base_db::change::FileChanges;
use ide::{Analysis, AnalysisHost};
use ide_db::symbol_index::Query;
use std::collections::BTreeMap;
use syntax::TextSize;
use syntax::files::FilePosition;
use vf::{Ctx, Rng, corpus, guarded};
use vf_move::Source;
use vfs::FileId;

/// The files of a multi-file snippet, or a file made of a single-file one.
fn some_files(rng: &mut Rng) -> Vec<(String, String)> {
    let m = corpus::multi();
    if rng.chance(1, 2) {
        let s = rng.pick(m);
        let mut v: Vec<(String, String)> = corpus::split_files(&s.text)
            .into_iter()
            .filter(|(p, _)| p.ends_with(".move"))
            .map(|(p, t)| (format!("sources/{}", p.rsplit('/').next().unwrap()), t))
            .collect();
        v.dedup_by(|a, b| a.0 == b.0);
        if !v.is_empty() {
            return v;
        }
    }
    let t = if rng.chance(1, 4) { crate::built(rng) } else { rng.pick(sources()).clone() };
    vec![(format!("sources/f{}{}.move", rng.below(4), if rng.chance(1, 4) { ".spec" } else { "" }), t)]
}

fn put(p: &mut Package, f: (String, String)) {
    if let Some(x) = p.files.iter_mut().find(|x| x.0 == f.0) {
        x.1 = f.1;
    } else {
        p.files.push(f);
    }
}

pub fn some_packages(rng: &mut Rng) -> Vec<Package> {
    let n = 1 + rng.below(3);
    let mut v: Vec<Package> = (0..n)
        .map(|i| Package {
            name: format!("p{i}"),
            library: i > 0 && rng.chance(1, 3),
            deps: (0..n).filter(|j| *j != i && rng.chance(1, 2)).collect(),
            addresses: ["std", "aptos_std", "me"].iter().filter_map(|a| rng.chance(1, 2).then(|| (a.to_string(), rng.pick(&["0x1", "0x2", "_"]).to_string()))).collect(),
            missing: vec![],
            files: vec![],
        })
        .collect();
    for _ in 0..1 + rng.below(3) {
        let fs = some_files(rng);
        let spread = rng.chance(1, 2);
        let mut at = rng.below(n);
        for f in fs {
            put(&mut v[at], f);
            if spread {
                at = rng.below(n);
            }
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Text,
    Structure,
}

/// One change; what it was, and the file whose text alone changed.
fn step(rng: &mut Rng, pkgs: &mut Vec<Package>) -> (String, Kind) {
    let p = rng.below(pkgs.len());
    let nf = pkgs[p].files.len();
    let name = pkgs[p].name.clone();
    match rng.below(23) {
        20 if pkgs.len() > 1 => {
            // the packages come in another order
            pkgs.swap(p, p.saturating_sub(1));
            let (a, b) = (p, p.saturating_sub(1));
            for x in pkgs.iter_mut() {
                for d in &mut x.deps {
                    *d = if *d == a { b } else if *d == b { a } else { *d };
                }
            }
            (format!("swap packages {a} and {b}"), Kind::Structure)
        }
        21 if pkgs.len() < 5 => {
            let n = pkgs.len();
            let free = (0..9).map(|i| format!("p{i}")).find(|n| pkgs.iter().all(|p| p.name != *n)).unwrap();
            let mut new = Package { name: free.clone(), library: rng.chance(1, 3), deps: vec![], ..Default::default() };
            for f in some_files(rng) {
                put(&mut new, f);
            }
            if rng.chance(1, 2) {
                new.deps.push(p);
            }
            pkgs.push(new);
            if rng.chance(1, 2) {
                pkgs[p].deps.push(n);
            }
            (format!("new package {free}"), Kind::Structure)
        }
        22 if pkgs.len() > 1 => {
            let x = pkgs.remove(p);
            for y in pkgs.iter_mut() {
                y.deps.retain(|d| *d != p);
                for d in &mut y.deps {
                    if *d > p {
                        *d -= 1;
                    }
                }
            }
            (format!("drop package {}", x.name), Kind::Structure)
        }
        0..=11 if nf > 0 => {
            let k = rng.below(nf);
            let kind6 = rng.below(6);
            let f = &mut pkgs[p].files[k];
            let what = match kind6 {
                0 => {
                    f.1 = some_files(rng).remove(0).1;
                    "replace"
                }
                1 => {
                    f.1 = format!("{}\n// {}\n{}", if rng.chance(1, 2) { " " } else { "" }, rng.below(9), f.1);
                    "shift"
                }
                2 => {
                    let mut s = Source::new(&f.1);
                    s.rename(rng, crate::reserved());
                    f.1 = s.text();
                    "rename all"
                }
                3 => {
                    f.1 = String::new();
                    "empty"
                }
                _ => {
                    let n = 1 + rng.below(3);
                    f.1 = corpus::mutate(rng, &f.1, n);
                    "edit"
                }
            };
            (format!("{what} {name}/{}", f.0), Kind::Text)
        }
        12 | 13 => {
            let f = some_files(rng).remove(0);
            let w = format!("add {name}/{}", f.0);
            put(&mut pkgs[p], f);
            (w, Kind::Structure)
        }
        14 if nf > 0 => {
            let k = rng.below(nf);
            let f = pkgs[p].files.remove(k);
            (format!("delete {name}/{}", f.0), Kind::Structure)
        }
        15 if nf > 0 => {
            let k = rng.below(nf);
            let mut f = pkgs[p].files.remove(k);
            let old = f.0.clone();
            f.0 = if f.0.ends_with(".spec.move") { f.0.replace(".spec.move", ".move") } else { f.0.replace(".move", ".spec.move") };
            let w = format!("move {name}/{old} to {name}/{}", f.0);
            put(&mut pkgs[p], f);
            (w, Kind::Structure)
        }
        16 if nf > 0 && pkgs.len() > 1 => {
            let k = rng.below(nf);
            let f = pkgs[p].files.remove(k);
            let q = rng.below(pkgs.len());
            let w = format!("move {name}/{} to p{q}", f.0);
            put(&mut pkgs[q], f);
            (w, Kind::Structure)
        }
        17 => {
            let q = rng.below(pkgs.len());
            let d = &mut pkgs[p].deps;
            if p != q {
                if let Some(i) = d.iter().position(|x| *x == q) {
                    d.remove(i);
                } else {
                    d.push(q);
                }
            }
            (format!("toggle p{p} -> p{q}"), Kind::Structure)
        }
        18 => {
            let a = &mut pkgs[p].addresses;
            if a.is_empty() || rng.chance(1, 2) {
                a.push((rng.pick(&["std", "me", "other"]).to_string(), rng.pick(&["0x1", "0x3"]).to_string()));
            } else {
                a.pop();
            }
            (format!("addresses of {name}"), Kind::Structure)
        }
        _ => {
            pkgs[p].library ^= true;
            (format!("library p{p} = {}", pkgs[p].library), Kind::Structure)
        }
    }
}

fn texts(l: &Layout, pkgs: &[Package]) -> BTreeMap<FileId, (String, String)> {
    l.files
        .iter()
        .map(|((i, path), id)| {
            let p = &pkgs[*i];
            (*id, (path.clone(), p.files.iter().find(|(f, _)| Layout::path(p, f) == *path).unwrap().1.clone()))
        })
        .collect()
}

/// Everything said about the files, with some of the position questions.
pub fn everything(a: &Analysis, files: &BTreeMap<FileId, (String, String)>, seed: u64) -> Facts {
    let srcs: Vec<(FileId, String, Source)> = files.iter().map(|(id, (p, t))| (*id, p.clone(), Source::new(t))).collect();
    let frames: Vec<_> = srcs.iter().map(|(id, p, s)| frame(*id, p, s)).collect();
    let mut out = collect(a, &frames, Want::ALL);
    let mut rng = Rng::new(seed);
    for (id, (p, t)) in files {
        for _ in 0..3 {
            let mut at = rng.below(t.len() + 1);
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            let imports = rng.chance(1, 2);
            let pos = FilePosition { file_id: *id, offset: TextSize::new(at as u32) };
            let r = match guarded(|| a.completions(&completion_config(imports), pos, None).unwrap()) {
                Ok(Some(v)) => {
                    let mut v: Vec<String> = v.iter().map(|c| format!("{} {:?} {:?} {:?}", c.label.primary, c.label.detail_right, c.kind, c.import_to_add)).collect();
                    v.sort();
                    v.join(", ")
                }
                Ok(None) => "-".into(),
                Err(e) => format!("panic {}", e.message),
            };
            out.insert(format!("{p}:completion at {at} {imports}"), r);
        }
        let meta = a.package_metadata(*id).unwrap();
        out.insert(format!("{p}:package"), format!("{:?}", meta));
        let mut rel: Vec<String> = vec![];
        for q in ["", "m", "main"] {
            let r = guarded(|| a.symbol_search(Query::new(q, None)).unwrap());
            if let Ok(v) = r {
                rel.extend(v.iter().map(|n| format!("{q}?{}@{:?}:{:?}", n.name, n.file_id, n.focus_range)));
            }
        }
        rel.sort();
        out.insert("symbols".into(), rel.join(" "));
    }
    out
}

pub fn run(ctx: &Ctx) {
    ctx.par("histories", ctx.size(400, 60_000), |rng, _| {
        let mut pkgs = some_packages(rng);
        let mut l = Layout::of(&pkgs);
        let mut host = host_with_builtins();
        host.apply_change(l.change(&pkgs, None));
        let mut now = texts(&l, &pkgs);
        let mut known: std::collections::HashSet<FileId> = pkgs.iter().map(|p| l.manifest(p)).collect();
        let mut log: Vec<String> = vec![format!("start {:?}", now.values().map(|x| x.0.clone()).collect::<Vec<_>>())];
        let rounds = 2 + rng.below(6);
        for _ in 0..rounds {
            for _ in 0..1 + rng.below(3) {
                // warm some memos
                if rng.chance(2, 3) && !now.is_empty() {
                    let ids: Vec<FileId> = now.keys().copied().collect();
                    let id = *rng.pick(&ids);
                    let one: BTreeMap<_, _> = [(id, now[&id].clone())].into_iter().collect();
                    let a = host.analysis();
                    let seed = rng.next();
                    let _ = guarded(|| everything(&a, &one, seed));
                }
                let (what, kind) = step(rng, &mut pkgs);
                l.refresh(&pkgs);
                let next = texts(&l, &pkgs);
                let mut parts = FileChanges::new();
                let mut n = 0;
                for (id, (_, t)) in &next {
                    if now.get(id).is_none_or(|o| o.1 != *t) {
                        parts.change_file(*id, Some(t.clone()));
                        n += 1;
                    }
                }
                for id in now.keys() {
                    if !next.contains_key(id) {
                        parts.change_file(*id, None);
                    }
                }
                log.push(what.clone());
                let r = guarded(|| {
                    if kind == Kind::Structure {
                        let whole = l.change(&pkgs, None);
                        for (id, t) in &whole.files_changed {
                            // a manifest seen for the first time
                            if !next.contains_key(id) && known.insert(*id) {
                                parts.change_file(*id, t.clone());
                            }
                        }
                        parts.package_roots = whole.package_roots;
                        host.apply_change(parts);
                        let mut graph = FileChanges::new();
                        graph.package_graph = whole.package_graph;
                        host.apply_change(graph);
                    } else if n > 0 {
                        host.apply_change(parts);
                    }
                });
                if let Err(p) = r {
                    ctx.panicked("applying a change", &log.join("\n"), &p);
                    return;
                }
                ctx.count(&format!("changes_{kind:?}"), 1);
                now = next;
            }
            compare(ctx, rng, &host, &l, &pkgs, &now, &log);
            if ctx.stopped() {
                return;
            }
        }
    });
}

fn compare(ctx: &Ctx, rng: &mut Rng, host: &AnalysisHost, l: &Layout, pkgs: &[Package], now: &BTreeMap<FileId, (String, String)>, log: &[String]) {
    let seed = rng.next();
    let all: String = now.values().map(|(p, t)| format!("//- {p}\n{t}\n")).collect();
    ctx.open("history", &all);
    let old = guarded(|| everything(&host.analysis(), now, seed));
    let mut fresh = host_with_builtins();
    let new = guarded(|| {
        fresh.apply_change(l.change(pkgs, None));
        everything(&fresh.analysis(), now, seed)
    });
    ctx.close();
    match (old, new) {
        (Ok(a), Ok(b)) => {
            ctx.eval(vf::hash_of(&(log.to_vec(), &all)), a.len() > 3);
            ctx.count("facts_compared", a.len() as u64);
            if let Some(d) = difference(&b, &a) {
                let first = d.lines().next().unwrap_or("").to_string();
                let kind: String = first.split_whitespace().nth(1).unwrap_or("").rsplit(':').next().unwrap_or("").to_string();
                ctx.violation(
                    &format!("after {} {kind}", log.last().unwrap()),
                    format!("the host that lived through the changes differs from a new one\n{d}\nhistory:\n  {}\npackages: {:?}\nfiles now:\n{all}", log.join("\n  "), pkgs.iter().map(|p| (&p.name, p.library, &p.deps, &p.addresses)).collect::<Vec<_>>()),
                );
            }
        }
        // a question that panics either way belongs to another property
        (Err(_), Err(_)) => ctx.count("panicked_both_ways", 1),
        (Err(p), Ok(_)) => ctx.panicked("after a history, not afresh", &format!("{}\n{all}", log.join("\n")), &p),
        (Ok(_), Err(p)) => ctx.panicked("afresh, not after a history", &format!("{}\n{all}", log.join("\n")), &p),
    }
}
