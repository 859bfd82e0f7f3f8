//! Relations between the answers to different questions.
use crate::sources;
use crate::typed::{FAULTS, Wanted, program};
use crate::world::{Layout, Package, World};
use ide::Analysis;
use std::collections::{BTreeMap, BTreeSet};
use syntax::files::FilePosition;
use syntax::{SyntaxKind, TextRange, TextSize};
use vf::{Ctx, Rng, corpus, guarded};
use vf_move::leaves;
use vfs::FileId;

/// A loaded world with the texts it was given.
pub struct Loaded {
    pub world: World,
    pub texts: BTreeMap<FileId, String>,
    /// the files of the package, if in one
    pub files: Option<Vec<(String, String)>>,
}

impl Loaded {
    pub fn single(text: &str) -> Loaded {
        let world = World::single(text);
        let id = world.main();
        Loaded { world, texts: [(id, text.to_string())].into_iter().collect(), files: None }
    }
    pub fn files(files: &[(String, String)]) -> Loaded {
        let pkg = Package { name: "p".into(), files: files.to_vec(), ..Default::default() };
        let pkgs = [pkg];
        let l = Layout::of(&pkgs);
        let world = World::packages(&pkgs);
        let texts = l
            .files
            .iter()
            .map(|((_, path), id)| (*id, files.iter().find(|(f, _)| Layout::path(&pkgs[0], f) == *path).unwrap().1.clone()))
            .collect();
        Loaded { world, texts, files: Some(files.to_vec()) }
    }
    pub fn show(&self) -> String {
        self.texts.iter().map(|(id, t)| format!("//- {}\n{t}\n", id.index())).collect()
    }
    pub fn intact(&self) -> bool {
        self.texts.values().all(|t| vf_move::parse(t).errors().is_empty())
    }
}

/// Number of worlds `nth` knows.
pub fn count() -> usize {
    sources().len() + corpus::multi().len() + if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 800 } else { 64 }
}

pub fn nth(i: usize) -> Option<Loaded> {
    let n = sources().len();
    if i < n {
        return Some(Loaded::single(&sources()[i]));
    }
    if i >= n + corpus::multi().len() {
        // programs made up here, some of them with a mistake
        let mut rng = Rng::new(0x6b6e_6f77 ^ i as u64);
        let w = if i % 4 == 0 { *rng.pick(&FAULTS) } else { Wanted::Nothing };
        return Some(Loaded::files(&program(&mut rng, w).files));
    }
    let s = &corpus::multi()[i - n];
    let mut files: Vec<(String, String)> = vec![];
    for (p, t) in corpus::split_files(&s.text) {
        if p.ends_with(".move") && !files.iter().any(|f| f.0 == p.trim_start_matches('/')) {
            files.push((p.trim_start_matches('/').to_string(), t));
        }
    }
    (!files.is_empty()).then(|| Loaded::files(&files))
}

pub fn pos(f: FileId, at: u32) -> FilePosition {
    FilePosition { file_id: f, offset: TextSize::new(at) }
}

pub type Spot = (FileId, u32, u32);

pub fn spot(f: FileId, r: TextRange) -> Spot {
    (f, r.start().into(), r.end().into())
}

/// Where each identifier leads, by its place.
pub fn definitions(a: &Analysis, texts: &BTreeMap<FileId, String>) -> BTreeMap<Spot, BTreeSet<Spot>> {
    let mut out = BTreeMap::new();
    for (f, t) in texts {
        for tok in leaves(&vf_move::parse(t).syntax_node()) {
            if !matches!(tok.kind(), SyntaxKind::IDENT | SyntaxKind::INT_NUMBER) {
                continue;
            }
            let s = spot(*f, tok.text_range());
            if let Some(r) = a.goto_definition_multi(pos(*f, s.1)).unwrap() {
                // named twice (imported twice, say) is as good as ambiguous
                if spot(*f, r.range) != s || r.info.len() > 1 {
                    continue;
                }
                let v: BTreeSet<Spot> = r.info.iter().map(|n| spot(n.file_id, n.focus_or_full_range())).collect();
                if !v.is_empty() {
                    out.insert(s, v);
                }
            }
        }
    }
    out
}

/// Names that stand for a field and a variable at once.
fn shorthands(texts: &BTreeMap<FileId, String>) -> BTreeSet<Spot> {
    use SyntaxKind::*;
    let mut out = BTreeSet::new();
    for (f, t) in texts {
        for tok in leaves(&vf_move::parse(t).syntax_node()) {
            let Some(field) = tok.parent().into_iter().flat_map(|n| n.ancestors().take(5).collect::<Vec<_>>()).find(|n| matches!(n.kind(), STRUCT_PAT_FIELD | STRUCT_LIT_FIELD | SCHEMA_LIT_FIELD)) else { continue };
            if !field.children_with_tokens().any(|c| c.kind() == COLON) {
                out.insert(spot(*f, tok.text_range()));
            }
        }
    }
    out
}

/// References of what a name leads to are the names that lead there.
pub fn references(ctx: &Ctx) {
    ctx.par("worlds", count(), |_, i| {
        let Some(l) = nth(i) else { return };
        if !l.intact() {
            return;
        }
        ctx.open("references", &l.show());
        let r = guarded(|| {
            let a = l.world.analysis();
            let defs = definitions(&a, &l.texts);
            let mut back: BTreeMap<Spot, BTreeSet<Spot>> = BTreeMap::new();
            for (s, ds) in &defs {
                for d in ds {
                    back.entry(*d).or_default().insert(*s);
                }
            }
            let mut n = 0;
            let mut bad = vec![];
            let short = shorthands(&l.texts);
            // `Self` and import aliases lead elsewhere than the name they are
            let word = |x: &Spot| l.texts.get(&x.0).map_or("", |t| &t[x.1 as usize..x.2 as usize]);
            for (s, ds) in &defs {
                if ds.len() != 1 {
                    continue;
                }
                let d = *ds.first().unwrap();
                if word(s) != word(&d) || short.contains(s) {
                    continue;
                }
                let Some(r) = a.find_all_refs(pos(s.0, s.1), None).unwrap() else {
                    bad.push(format!("{s:?} leads to {d:?} but has no references"));
                    continue;
                };
                let got: BTreeSet<Spot> = r.references.iter().flat_map(|(f, v)| v.iter().map(|x| spot(*f, *x))).collect();
                let mut want = back[&d].clone();
                want.retain(|x| *x != d && word(x) == word(&d) && !short.contains(x));
                n += got.len();
                let mut got2 = got.clone();
                got2.retain(|x| *x != d && word(x) == word(&d) && !short.contains(x));
                if got2 != want {
                    let show = |x: &Spot| format!("{:?} {}", x, l.texts.get(&x.0).map_or("?", |t| &t[x.1 as usize..x.2 as usize]));
                    bad.push(format!(
                        "from {}: def {}: only refs {:?}; only defs {:?}",
                        show(s),
                        show(&d),
                        got2.difference(&want).map(show).collect::<Vec<_>>(),
                        want.difference(&got2).map(show).collect::<Vec<_>>()
                    ));
                }
            }
            (n, defs.len(), bad)
        });
        ctx.close();
        match r {
            Ok((n, names, bad)) => {
                ctx.eval(vf::hash_of(&l.show()), n > 0);
                ctx.count("names", names as u64);
                ctx.count("references", n as u64);
                if !bad.is_empty() {
                    ctx.violation(&format!("references {}", l.show().chars().take(120).collect::<String>()), format!("{}\n{}", bad.join("\n"), l.show()));
                }
            }
            Err(p) => ctx.panicked("references", &l.show(), &p),
        }
    });
}

/// Solid tokens of a text.
fn tokens(t: &str) -> Vec<(SyntaxKind, u32, u32)> {
    leaves(&vf_move::parse(t).syntax_node())
        .into_iter()
        .filter(|t| !t.kind().is_trivia())
        .map(|t| (t.kind(), t.text_range().start().into(), t.text_range().end().into()))
        .collect()
}

/// After a rename: new place of every old token's start. None where the tokens changed otherwise
/// than by the renaming and the shorthands it had to spell out.
fn aligned(old: &str, new: &str, from: &str, to: &str, short: &BTreeSet<(u32, u32)>) -> Result<BTreeMap<u32, Option<(u32, u32)>>, String> {
    let (a, b) = (tokens(old), tokens(new));
    let mut out = BTreeMap::new();
    let mut j = 0;
    for (k, s, e) in &a {
        let was = &old[*s as usize..*e as usize];
        let Some((k2, s2, e2)) = b.get(j) else { return Err(format!("the text ends before {was:?} at {s}")) };
        let is = &new[*s2 as usize..*e2 as usize];
        if short.contains(&(*s, *e)) && was == from && b.get(j + 1).is_some_and(|x| x.0 == SyntaxKind::COLON) {
            let other = b.get(j + 2).map_or("", |x| &new[x.1 as usize..x.2 as usize]);
            if !((is == from && other == to) || (is == to && other == from)) {
                return Err(format!("shorthand {was} at {s} became {is}: {other}"));
            }
            out.insert(*s, None);
            j += 3;
            continue;
        }
        if is != was && !(was == from && is == to) || k2 != k && is == was {
            return Err(format!("{was:?} at {s} became {is:?}"));
        }
        out.insert(*s, Some((*s2, *e2)));
        j += 1;
    }
    if j != b.len() {
        return Err(format!("extra text from {}", b[j].1));
    }
    Ok(out)
}

/// Renaming something renames exactly what leads to it, and every name still leads where it led.
pub fn renaming(ctx: &Ctx) {
    let thorough = !ctx.quick();
    ctx.par("renames", count() * if thorough { 4 } else { 1 }, |rng, i| {
        let Some(l) = nth(i % count()) else { return };
        if !l.intact() {
            return;
        }
        let show = l.show();
        ctx.open("rename", &show);
        let r = guarded(|| rename_one(ctx, &l, rng, if thorough { 6 } else { 2 }));
        ctx.close();
        match r {
            Ok(bad) => {
                if let Some(b) = bad {
                    ctx.violation(&format!("rename {}", show.chars().take(120).collect::<String>()), b);
                }
            }
            Err(p) => ctx.panicked("rename", &show, &p),
        }
    });
}

pub fn reloaded(l: &Loaded, texts: &BTreeMap<FileId, String>) -> Loaded {
    match &l.files {
        None => Loaded::single(&texts[&l.world.main()]),
        Some(fs) => {
            let new: Vec<(String, String)> = fs
                .iter()
                .map(|(p, t)| {
                    let id = l.world.files.iter().find(|(path, _)| path.ends_with(p.as_str())).map(|x| x.1);
                    (p.clone(), id.and_then(|id| texts.get(&id)).unwrap_or(t).clone())
                })
                .collect();
            Loaded::files(&new)
        }
    }
}

fn codes(a: &Analysis, f: FileId) -> BTreeMap<(String, u32), usize> {
    let mut n = BTreeMap::new();
    for d in a.full_diagnostics(&ide_diagnostics::config::DiagnosticsConfig::test_sample(), ide::AssistResolveStrategy::None, f).unwrap() {
        *n.entry((d.code.as_str().to_string(), d.range.range.start().into())).or_insert(0) += 1;
    }
    n
}

fn rename_one(ctx: &Ctx, l: &Loaded, rng: &mut Rng, tries: usize) -> Option<String> {
    let a = l.world.analysis();
    let defs = definitions(&a, &l.texts);
    let short = shorthands(&l.texts);
    let word = |x: &Spot| l.texts.get(&x.0).map_or("", |t| &t[x.1 as usize..x.2 as usize]);
    // places to ask at: names that lead to something of ours
    let spots: Vec<Spot> = defs.iter().filter(|(s, d)| d.iter().all(|d| l.texts.contains_key(&d.0) && word(d) == word(s)) && !short.contains(*s) && !matches!(word(s), "self" | "_")).map(|x| *x.0).collect();
    if spots.is_empty() {
        return None;
    }
    let every: BTreeSet<Spot> = l.texts.iter().flat_map(|(f, t)| tokens(t).into_iter().filter(|x| x.0 == SyntaxKind::IDENT).map(|x| (*f, x.1, x.2)).collect::<Vec<_>>()).collect();
    for _ in 0..tries {
        let s = *rng.pick(&spots);
        let d = *defs[&s].first().unwrap();
        let old = word(&s).to_string();
        // another of the same name that leads nowhere certain may or may not mean this one
        if every.iter().any(|x| word(x) == old && !defs.contains_key(x) && !short.contains(x)) {
            ctx.count("names_left_out_ambiguous", 1);
            continue;
        }
        let shorted = short.iter().any(|x| word(x) == old);
        if shorted && l.texts.keys().any(|f| codes(&a, *f).keys().any(|c| c.0 == "unresolved-reference" || c.0 == "type-error" || c.0 == "missing-lit-fields")) {
            continue;
        }
        let folds = l.texts.values().any(|t| unspaced(t).contains(&format!("{old}:{old}")));
        let new = format!("{old}_zq{}", rng.below(90) + 1);
        let p = a.prepare_rename(pos(s.0, s.1)).unwrap();
        let r = a.rename(pos(s.0, s.1), &new).unwrap();
        let (p, r) = match (p, r) {
            (Ok(p), Ok(r)) => (p, r),
            (Err(_), Err(_)) => {
                ctx.count("renames_refused", 1);
                continue;
            }
            (p, r) => return Some(format!("prepare rename says {:?}, rename {:?} at {s:?} {old}\n{}", p.map(|x| x.range), r.map(|_| ()), l.show())),
        };
        if spot(s.0, p.range) != s {
            return Some(format!("prepare rename answers {:?} for {s:?}\n{}", p.range, l.show()));
        }
        let mut texts = l.texts.clone();
        for (f, e) in &r.source_file_edits {
            let Some(t) = texts.get_mut(f) else { return Some(format!("edits file {} that is not there\n{}", f.index(), l.show())) };
            e.apply(t);
        }
        let after = reloaded(l, &texts);
        let tell = |what: String| Some(format!("renaming {old} at {s:?} to {new}: {what}\n--- before\n{}--- after\n{}", l.show(), after.show()));
        let mut map: BTreeMap<Spot, Option<Spot>> = BTreeMap::new();
        for (f, t) in &l.texts {
            let sh = short.iter().filter(|x| x.0 == *f).map(|x| (x.1, x.2)).collect();
            match aligned(t, &texts[f], &old, &new, &sh) {
                Ok(m) => {
                    for (k, _, e) in tokens(t).iter().map(|x| (x.1, x.0, x.2)) {
                        map.insert((*f, k, e), m[&k].map(|x| (*f, x.0, x.1)));
                    }
                }
                Err(e) => return tell(e),
            }
        }
        let is = |x: &Spot| &after.texts[&x.0][x.1 as usize..x.2 as usize];
        // exactly what leads there
        for (x, ds) in &defs {
            if let Some(Some(y)) = map.get(x) {
                let want = if ds.contains(&d) && word(x) == old { new.as_str() } else { word(x) };
                if is(y) != want && !short.contains(x) {
                    return tell(format!("{} at {x:?} leads to {ds:?} and is {} now", word(x), is(y)));
                }
            }
        }
        let b = after.world.analysis();
        let defs2 = definitions(&b, &after.texts);
        let mut n = 0;
        for (x, ds) in &defs {
            let Some(Some(y)) = map.get(x) else { continue };
            if short.contains(x) {
                continue;
            }
            if ds.iter().any(|d| map.get(d) == Some(&None)) {
                continue;
            }
            let want: BTreeSet<Spot> = ds.iter().map(|d| map.get(d).copied().flatten().unwrap_or(*d)).collect();
            n += 1;
            if defs2.get(y) != Some(&want) {
                return tell(format!("{} at {x:?} led to {ds:?}; at {y:?} it leads to {:?} and not {want:?}", word(x), defs2.get(y)));
            }
        }
        for f in l.texts.keys() {
            let (c1, c2) = (codes(&a, *f), codes(&b, *f));
            let place = |m: &BTreeMap<(String, u32), usize>| -> BTreeMap<String, usize> {
                let mut out = BTreeMap::new();
                for ((c, _), n) in m {
                    // a field and a variable of one name
                    if c.contains("shorthand") || c.starts_with("replace-with") || (shorted && c == "unresolved-reference") {
                        continue;
                    }
                    *out.entry(c.clone()).or_insert(0) += n;
                }
                out
            };
            if place(&c1) != place(&c2) {
                return tell(format!("diagnostics were {c1:?} and are {c2:?}"));
            }
        }
        ctx.count("renames_done", 1);
        ctx.count("names_followed", n);
        ctx.eval(vf::hash_of(&(l.show(), s)), r.source_file_edits.values().map(|e| e.len()).sum::<usize>() > 1);
        // and back
        if !shorted && !folds {
            let s2 = map[&s].unwrap();
            let Ok(r) = b.rename(pos(s2.0, s2.1), &old).unwrap() else { return tell("cannot be renamed back".into()) };
            let mut back = after.texts.clone();
            for (f, e) in &r.source_file_edits {
                e.apply(back.get_mut(f).unwrap());
            }
            if back != l.texts {
                return tell(format!("renamed back it is\n{}", back.values().cloned().collect::<Vec<_>>().join("\n")));
            }
            ctx.count("renames_undone", 1);
        }
        // names that are none
        for bad in ["fun", "1a", "a b", "", "a-b", "module"] {
            if a.rename(pos(s.0, s.1), bad).unwrap().is_ok() {
                return tell(format!("{bad:?} is taken for a name"));
            }
        }
    }
    None
}

fn unspaced(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

/// How often each diagnostic is reported, by severity.
fn tally(a: &Analysis, f: FileId) -> (BTreeMap<String, usize>, BTreeMap<String, usize>) {
    let (mut all, mut errors) = (BTreeMap::new(), BTreeMap::new());
    for d in a.full_diagnostics(&ide_diagnostics::config::DiagnosticsConfig::test_sample(), ide::AssistResolveStrategy::None, f).unwrap() {
        *all.entry(d.code.as_str().to_string()).or_insert(0) += 1;
        if format!("{:?}", d.severity) == "Error" {
            *errors.entry(d.code.as_str().to_string()).or_insert(0) += 1;
        }
    }
    (all, errors)
}

const FIX_FINDINGS: &[&str] = &[
    "module copy::Token { public fun call() {} }\nmodule 0x1::Main { use 0x1::Token::{call}; fun main() { call(); } }",
    "module 0x1::m { public(friend)fun f() {} public(package)fun g() {} }",
    "module 0x1::m { struct S { a: u8 } fun m(self: &S) {} fun f(s: S) { s.m:: <u8>(); s.m ::<u8>(); let S { a } = s; } }",
    "module 0x1::m { fun g(a: u8) {} fun f() { let b = 1; Unknown { b }; } }",
];

/// A fix removes what it is offered for and breaks nothing.
pub fn fixes(ctx: &Ctx) {
    ctx.par("findings", FIX_FINDINGS.len(), |_, i| fixes_of(ctx, &Loaded::single(FIX_FINDINGS[i])));
    let n = count();
    ctx.par("fixes", n, |_, i| {
        let Some(l) = nth(i) else { return };
        fixes_of(ctx, &l);
    });
    ctx.par("fixes in disturbed files", ctx.size(4000, 200_000), |rng, _| {
        let t = corpus::any_text(rng);
        if guarded(|| vf_move::parse(&t).errors().is_empty()).unwrap_or(false) {
            fixes_of(ctx, &Loaded::single(&t));
        }
    });
}

fn fixes_of(ctx: &Ctx, l: &Loaded) {
    if !l.intact() {
        return;
    }
    let show = l.show();
    ctx.open("fixes", &show);
    let r = guarded(|| {
        let a = l.world.analysis();
        let mut bad = vec![];
        for f in l.texts.keys() {
            let ds = a.full_diagnostics(&ide_diagnostics::config::DiagnosticsConfig::test_sample(), ide::AssistResolveStrategy::All, *f).unwrap();
            let before = tally(&a, *f);
            for d in ds {
                let code = d.code.as_str().to_string();
                for fix in d.fixes.iter().flatten() {
                    ctx.count(&format!("fixes_{}", fix.id.0), 1);
                    let Some(c) = &fix.source_change else {
                        bad.push(format!("fix {} of {code} has no edits", fix.id.0));
                        continue;
                    };
                    // a comment in between keeps the name and the `<` apart
                    if code == "redundant-coloncolon" && (l.texts[f][..d.range.range.start().into()].trim_end().ends_with("*/") || l.texts[f][d.range.range.end().into()..].trim_start().starts_with('/')) {
                        continue;
                    }
                    let mut texts = l.texts.clone();
                    for (g, e) in &c.source_file_edits {
                        match texts.get_mut(g) {
                            Some(t) => e.apply(t),
                            None => bad.push(format!("fix {} of {code} edits a file it should not", fix.id.0)),
                        }
                    }
                    let after = reloaded(l, &texts);
                    let what = format!("fix {:?} of {code} at {:?} ({})", fix.label, d.range.range, d.message);
                    ctx.eval(vf::hash_of(&(&show, &what)), true);
                    if !after.intact() {
                        bad.push(format!("{what} breaks the syntax\n--- after\n{}", after.show()));
                        continue;
                    }
                    let b = after.world.analysis();
                    let now = tally(&b, *f);
                    let said = |a: &Analysis| {
                        a.full_diagnostics(&ide_diagnostics::config::DiagnosticsConfig::test_sample(), ide::AssistResolveStrategy::None, *f).unwrap().iter().filter(|x| x.code.as_str() == code && (fix.id.0 != "add-import" || x.message == d.message)).count()
                    };
                    if said(&b) >= said(&a) {
                        bad.push(format!("{what} leaves the problem\n--- after\n{}", after.show()));
                    }
                    for (k, n) in &now.1 {
                        // names that resolve now are checked further
                        if matches!(code.as_str(), "unresolved-reference" | "unused-import") && k != "unresolved-reference" {
                            continue;
                        }
                        // what was imported may have been another thing than meant
                        if code == "unused-import" && before.1.contains_key("unresolved-reference") || code == "unresolved-reference" {
                            continue;
                        }
                        // a field that is not there is found out only if spelt out
                        if fix.id.0 == "rename-with-underscore-prefix" && k == "unresolved-reference" && after.show().contains(": _") {
                            continue;
                        }
                        if n > before.1.get(k).unwrap_or(&0) {
                            bad.push(format!("{what} brings a new {k}\n--- after\n{}", after.show()));
                        }
                    }
                }
            }
        }
        bad
    });
    ctx.close();
    match r {
        Ok(bad) => {
            for b in bad {
                ctx.violation(&format!("fix {}", show.chars().take(120).collect::<String>()), format!("{b}\n--- before\n{show}"));
            }
        }
        Err(p) => ctx.panicked("fix", &show, &p),
    }
}
