//! Organising imports keeps every meaning.
use crate::monitors::{Loaded, Spot, count, definitions, nth, reloaded};
use ide_diagnostics::config::DiagnosticsConfig;
use std::collections::{BTreeMap, BTreeSet};
use syntax::SyntaxKind;
use vf::{Ctx, Rng, guarded};
use vf_move::leaves;
use vfs::FileId;

/// Solid tokens outside of imports.
fn code(t: &str) -> Vec<(u32, u32)> {
    leaves(&vf_move::parse(t).syntax_node())
        .into_iter()
        .filter(|t| !t.kind().is_trivia() && !t.parent_ancestors().any(|n| n.kind() == SyntaxKind::USE_STMT))
        .map(|t| (t.text_range().start().into(), t.text_range().end().into()))
        .collect()
}

fn comments(t: &str) -> Vec<String> {
    leaves(&vf_move::parse(t).syntax_node()).into_iter().filter(|t| t.kind() == SyntaxKind::COMMENT && !t.parent_ancestors().any(|n| n.kind() == SyntaxKind::USE_STMT)).map(|t| t.text().to_string()).collect()
}

fn reports(l: &Loaded, f: FileId) -> (usize, BTreeMap<String, usize>) {
    let mut unused = 0;
    let mut rest = BTreeMap::new();
    for d in l.world.analysis().full_diagnostics(&DiagnosticsConfig::test_sample(), ide::AssistResolveStrategy::None, f).unwrap() {
        if d.code.as_str() == "unused-import" {
            unused += 1;
        } else {
            *rest.entry(format!("{} {}", d.code.as_str(), d.message.split('`').nth(1).unwrap_or(""))).or_insert(0) += 1;
        }
    }
    (unused, rest)
}

fn organised(l: &Loaded, f: FileId) -> Option<Loaded> {
    let fix = l.world.analysis().organize_imports(f).unwrap()?;
    let mut texts = l.texts.clone();
    for (g, e) in &fix.source_change.expect("no edits").source_file_edits {
        assert_eq!(*g, f, "edits another file");
        e.apply(texts.get_mut(g).unwrap());
    }
    Some(reloaded(l, &texts))
}

fn judge(ctx: &Ctx, l: &Loaded) -> Option<String> {
    let mut l = None.unwrap_or_else(|| reloaded(l, &l.texts));
    for f in l.texts.keys().copied().collect::<Vec<_>>() {
        let before = reports(&l, f);
        let Some(after) = organised(&l, f) else {
            if before.0 > 0 {
                return Some(format!("nothing to organise, with {} unused imports", before.0));
            }
            continue;
        };
        let tell = |s: String| Some(format!("{s}\n--- after\n{}", after.show()));
        ctx.count("organised", 1);
        ctx.count("unused_imports_dropped", before.0 as u64);
        ctx.eval(vf::hash_of(&l.texts[&f]), before.0 > 0 || after.texts[&f] != l.texts[&f]);
        if !after.intact() {
            return tell("the text no longer parses".into());
        }
        let (a, b) = (code(&l.texts[&f]), code(&after.texts[&f]));
        let word = |t: &BTreeMap<FileId, String>, x: &(u32, u32)| t[&f][x.0 as usize..x.1 as usize].to_string();
        if a.iter().map(|x| word(&l.texts, x)).ne(b.iter().map(|x| word(&after.texts, x))) {
            return tell("something besides imports changed".into());
        }
        if comments(&l.texts[&f]) != comments(&after.texts[&f]) {
            return tell("comments changed".into());
        }
        let map: BTreeMap<Spot, Spot> = a.iter().zip(&b).map(|(x, y)| ((f, x.0, x.1), (f, y.0, y.1))).collect();
        let now = reports(&after, f);
        if now.0 > 0 {
            return tell(format!("{} unused imports are left of {}", now.0, before.0));
        }
        let d1 = definitions(&l.world.analysis(), &l.texts);
        let d2 = definitions(&after.world.analysis(), &after.texts);
        let other = |s: &Spot| if s.0 == f { map.get(s).copied() } else { Some(*s) };
        for (s, ds) in &d1 {
            let Some(y) = other(s) else { continue };
            let want: BTreeSet<Option<Spot>> = ds.iter().map(other).collect();
            if want.contains(&None) {
                continue; // to a name in an import
            }
            ctx.count("names_followed", 1);
            let got: BTreeSet<Option<Spot>> = d2.get(&y).cloned().unwrap_or_default().into_iter().map(Some).collect();
            if got != want {
                return tell(format!("{} at {s:?} led to {ds:?} and leads to {got:?}", &l.texts[&s.0][s.1 as usize..s.2 as usize]));
            }
        }
        for (k, n) in &now.1 {
            if n > before.1.get(k).unwrap_or(&0) {
                return tell(format!("a new problem: {k}"));
            }
        }
        if let Some(again) = organised(&after, f) {
            if again.texts != after.texts {
                return tell(format!("organised again it is\n{}", again.texts[&f]));
            }
        }
        if ctx.size(0, 1) == 1 || vf::hash_of(&l.texts[&f]) % 4 == 0 {
            if let Some(bad) = needed(ctx, &after, f, &d2) {
                return tell(bad);
            }
        }
        l = after;
    }
    None
}

/// Without any one of the imports that are left some name means something else.
fn needed(ctx: &Ctx, l: &Loaded, f: FileId, defs: &BTreeMap<Spot, BTreeSet<Spot>>) -> Option<String> {
    let t = &l.texts[&f];
    let root = vf_move::parse(t).syntax_node();
    for speck in root.descendants().filter(|n| n.kind() == SyntaxKind::USE_SPECK) {
        if speck.descendants().any(|n| n.kind() == SyntaxKind::USE_GROUP) {
            continue;
        }
        // one that imports nothing there is
        let r = speck.text_range();
        let Some(name) = speck
            .descendants_with_tokens()
            .filter_map(|e| e.into_token())
            .take_while(|t| t.kind() != SyntaxKind::AS_KW)
            .filter(|t| t.kind() == SyntaxKind::IDENT)
            .last()
        else {
            continue;
        };
        let n = name.text_range();
        if defs.get(&(f, n.start().into(), n.end().into())).is_none_or(|d| d.is_empty()) {
            continue;
        }
        // nor one of two for one name
        let all = |k: SyntaxKind| root.descendants().filter(|n| n.kind() == k).flat_map(|n| leaves(&n)).filter(|x| x.text() == name.text()).count();
        if all(SyntaxKind::USE_STMT) > 1 {
            continue;
        }
        // nor one that is meant but not reached
        let word = speck.descendants_with_tokens().filter_map(|e| e.into_token()).filter(|t| t.kind() == SyntaxKind::IDENT).last().map(|t| t.text().to_string());
        let meant = leaves(&root).into_iter().any(|x| {
            let w = x.text_range();
            x.kind() == SyntaxKind::IDENT
                && Some(x.text()) == word.as_deref()
                && !x.parent_ancestors().any(|n| n.kind() == SyntaxKind::USE_STMT)
                && defs.get(&(f, w.start().into(), w.end().into())).is_none_or(|d| d.is_empty())
        });
        if meant {
            continue;
        }
        let whole = speck.parent().filter(|p| p.kind() == SyntaxKind::USE_STMT).map(|p| p.text_range());
        let (a, mut b) = match whole {
            Some(w) => (usize::from(w.start()), usize::from(w.end())),
            None => (usize::from(r.start()), usize::from(r.end())),
        };
        if whole.is_none() {
            let rest = &t[b..];
            if rest.trim_start().starts_with(',') {
                b += rest.len() - rest.trim_start().len() + 1;
            }
        }
        let mut texts = l.texts.clone();
        texts.insert(f, format!("{}{}{}", &t[..a], " ".repeat(b - a), &t[b..]));
        let without = reloaded(l, &texts);
        if !without.intact() {
            continue;
        }
        ctx.count("imports_taken_away", 1);
        let d = definitions(&without.world.analysis(), &without.texts);
        let outside = |s: &Spot| s.0 != f || (s.1 as usize) < a || s.1 as usize >= b;
        if defs.iter().filter(|(s, _)| outside(s)).all(|(s, ds)| d.get(s) == Some(ds) || ds.is_empty() && d.get(s).is_none()) {
            return Some(format!("nobody needs the import {:?}, which stays", &t[a..b]));
        }
    }
    None
}

/// The module around a place.
fn owner(t: &str, at: usize) -> String {
    vf_move::parse(t)
        .syntax_node()
        .descendants()
        .filter(|n| matches!(n.kind(), SyntaxKind::MODULE | SyntaxKind::MODULE_SPEC) && usize::from(n.text_range().start()) < at && usize::from(n.text_range().end()) >= at)
        .last()
        .map(|m| m.text().to_string().split('{').next().unwrap_or("").trim().rsplit([':', ' ']).next().unwrap_or("").to_string())
        .unwrap_or_default()
}

/// Put imports of things the files have into their modules.
fn imported(l: &Loaded, rng: &mut Rng) -> Loaded {
    let mut names: Vec<(String, Vec<String>)> = vec![];
    for t in l.texts.values() {
        for m in vf_move::parse(t).syntax_node().descendants().filter(|n| n.kind() == SyntaxKind::MODULE) {
            let head: String = m.text().to_string().split('{').next().unwrap_or("").split_whitespace().filter(|w| *w != "module").collect();
            let items = m
                .descendants()
                .filter(|n| matches!(n.kind(), SyntaxKind::FUN | SyntaxKind::STRUCT | SyntaxKind::ENUM | SyntaxKind::CONST | SyntaxKind::SCHEMA | SyntaxKind::SPEC_FUN))
                .filter_map(|n| n.children().find(|c| c.kind() == SyntaxKind::NAME).map(|c| c.text().to_string()))
                .collect();
            if head.contains("::") {
                names.push((head, items));
            }
        }
    }
    if names.is_empty() {
        return reloaded(l, &l.texts);
    }
    let mut texts = l.texts.clone();
    // imported twice, a name means nothing certain
    let mut taken: BTreeSet<String> = l
        .texts
        .values()
        .flat_map(|t| leaves(&vf_move::parse(t).syntax_node()))
        .filter(|t| t.kind() == SyntaxKind::IDENT && t.parent_ancestors().any(|n| n.kind() == SyntaxKind::USE_STMT))
        .map(|t| t.text().to_string())
        .collect();
    for t in texts.values_mut() {
        // last first, so that places stay
        let mut at: Vec<usize> = vf_move::parse(t)
            .syntax_node()
            .descendants()
            .filter(|n| matches!(n.kind(), SyntaxKind::MODULE | SyntaxKind::BLOCK_EXPR | SyntaxKind::ITEM_SPEC))
            .filter_map(|n| n.children_with_tokens().find(|c| c.kind() == SyntaxKind::L_CURLY).map(|c| usize::from(c.text_range().end())))
            .collect();
        at.sort();
        at.reverse();
        for a in at {
            if rng.chance(1, 2) {
                continue;
            }
            let mut add = String::new();
            for _ in 0..rng.range(1, 3) {
                let (m, items) = rng.pick(&names);
                let last = m.rsplit("::").next().unwrap().to_string();
                // a module need not import itself
                if owner(t, a) == last {
                    continue;
                }
                let mut one = |rng: &mut Rng| -> Option<String> {
                    let s = if items.is_empty() || rng.chance(1, 4) { "Self".to_string() } else { rng.pick(items).clone() };
                    if rng.chance(1, 5) {
                        let alias = format!("zz{}", taken.len());
                        taken.insert(alias.clone());
                        return Some(format!("{s} as {alias}"));
                    }
                    taken.insert(if s == "Self" { last.clone() } else { s.clone() }).then_some(s)
                };
                // names do resolve to an import of a mode that the place is not compiled in: for
                // specs under `test_only` the import is then taken for one nobody uses, rightly
                let attr = if t.contains("spec") { "" } else { *rng.pick(&["", "", "", "", "#[test_only] ", "#[test_only]\n"]) };
                let blank = *rng.pick(&[" ", "\n", "\n    ", " /* c */ ", "\n    // c\n    "]);
                let what = match rng.below(4) {
                    0 => {
                        if !taken.insert(last.clone()) {
                            continue;
                        }
                        m.clone()
                    }
                    1 => match one(rng) {
                        Some(x) => format!("{m}::{x}"),
                        None => continue,
                    },
                    _ => {
                        let mut seen = BTreeSet::new();
                        for _ in 0..rng.range(1, 4) {
                            seen.extend(one(rng));
                        }
                        format!("{m}::{{{}}}", seen.into_iter().collect::<Vec<_>>().join(if rng.chance(1, 3) { ",\n  " } else { ", " }))
                    }
                };
                add += &format!("{blank}{attr}use {what};");
            }
            add += *rng.pick(&[" ", "\n", "\n\n    "]);
            t.insert_str(a, &add);
        }
    }
    reloaded(l, &texts)
}

pub fn run(ctx: &Ctx) {
    let one = |l: &Loaded| {
        if !l.intact() {
            return;
        }
        let show = l.show();
        ctx.open("organise", &show);
        let r = guarded(|| judge(ctx, l));
        ctx.close();
        match r {
            Ok(None) => {}
            Ok(Some(bad)) => ctx.violation(&format!("organise {}", show.chars().take(120).collect::<String>()), format!("{bad}\n--- before\n{show}")),
            Err(p) => ctx.panicked("organise", &show, &p),
        }
    };
    ctx.par("as they are", count(), |_, i| {
        if let Some(l) = nth(i) {
            one(&l)
        }
    });
    ctx.par("with more imports", ctx.size(15_000, 300_000), |rng, i| {
        if let Some(l) = nth(i % count()) {
            if l.intact() {
                one(&imported(&l, rng))
            }
        }
    });
}
