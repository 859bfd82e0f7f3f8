//! Completion against name resolution.
use crate::monitors::{Loaded, Spot, count, definitions, nth, pos, reloaded, spot};
use ide::Analysis;
use ide_completion::item::{CompletionItem, CompletionItemKind};
use ide_db::SymbolKind;
use std::collections::BTreeSet;
use syntax::{SyntaxKind, SyntaxNode, SyntaxToken};
use vf::{Ctx, Rng, guarded};
use vf_move::leaves;
use vfs::FileId;

fn chain(l: &Loaded, s: &Spot) -> String {
    let Some(t) = leaves(&vf_move::parse(&l.texts[&s.0]).syntax_node()).into_iter().find(|t| t.text_range().start() == s.1.into()) else { return String::new() };
    t.parent().unwrap().ancestors().take(5).map(|n| format!("{:?}", n.kind())).collect::<Vec<_>>().join(" < ")
}

fn key(i: &CompletionItem) -> String {
    format!("{}|{}|{:?}|{:?}|{:?}|{:?}", i.lookup, i.label.primary, i.label.detail_left, i.kind, i.detail, i.import_to_add.as_ref().map(|x| &x.0))
}

/// Any name that resolves is proposed, and accepting the proposal leads where the name led.
pub fn resolvable(ctx: &Ctx) {
    ctx.par("findings", FINDINGS.len(), |rng, i| {
        for _ in 0..20 {
            one(ctx, &Loaded::single(FINDINGS[i]), rng, usize::MAX)
        }
    });
    let rounds = if ctx.quick() { 1 } else { 6 };
    ctx.par("names proposed", count() * rounds, |rng, i| {
        let Some(l) = nth(i % count()) else { return };
        if !l.intact() {
            return;
        }
        one(ctx, &l, rng, if rounds == 1 { 12 } else { usize::MAX })
    });
}

const FINDINGS: &[&str] = &["module 0x1::a { spec schema S { x: u64; ensures x == x; } }\nmodule 0x1::b { fun hidden(): u64 { 1 } }"];

fn one(ctx: &Ctx, l: &Loaded, rng: &mut Rng, most: usize) {
        let show = l.show();
        ctx.open("completion", &show);
        let r = guarded(|| names(ctx, l, rng, most));
        ctx.close();
        match r {
            Ok(bad) => {
                for (what, how) in bad {
                    let sig = if what.starts_with("import of") { what } else { format!("{what} {}", show.chars().take(100).collect::<String>()) };
                    ctx.violation(&sig, format!("{how}\n{show}"));
                }
            }
            Err(p) => ctx.panicked("completion", &show, &p),
        }
}


/// What a name looks like while it is being typed: without what is written only after it.
enum Place {
    /// as it stands, in a place of this sort
    Asis(&'static str),
    /// with this taken away first
    Without(&'static str, u32, u32),
    Not,
}

fn place(tok: &SyntaxToken) -> Place {
    use SyntaxKind::*;
    if tok.kind() != IDENT {
        return Place::Not;
    }
    let Some(parent) = tok.parent() else { return Place::Not };
    let range = |n: &SyntaxNode| -> (u32, u32) { (n.text_range().start().into(), n.text_range().end().into()) };
    let child = |n: &SyntaxNode, k: SyntaxKind| n.children().find(|c| c.kind() == k);
    let end: u32 = tok.text_range().end().into();
    let up = |n: &SyntaxNode| n.parent().unwrap();
    match parent.kind() {
        NAME_REF => {
            let p = up(&parent);
            match p.kind() {
                DOT_EXPR => Place::Asis("field"),
                METHOD_CALL_EXPR => Place::Without("method", end, range(&p).1),
                ITEM_SPEC_REF => Place::Asis("item spec"),
                STRUCT_LIT_FIELD => match p.children_with_tokens().any(|c| c.kind() == COLON) {
                    true => Place::Without("literal field", end, range(&p).1),
                    false => Place::Not,
                },
                STRUCT_PAT_FIELD => match p.children_with_tokens().any(|c| c.kind() == COLON) {
                    true => Place::Without("pattern field", end, range(&p).1),
                    false => Place::Not,
                },
                PATH_SEGMENT => {
                    let path = up(&p);
                    let mut root = path.clone();
                    while up(&root).kind() == PATH {
                        root = up(&root);
                    }
                    let owner = up(&root);
                    let tail = root != path;
                    match owner.kind() {
                        PATH_TYPE if up(&owner).kind() == ACQUIRES => if tail { Place::Not } else { Place::Asis("acquires") },
                        PATH_TYPE => Place::Asis("type"),
                        PATH_EXPR if up(&owner).kind() == STRUCT_LIT_FIELD && !up(&owner).children_with_tokens().any(|c| c.kind() == COLON) => Place::Not,
                        PATH_EXPR => Place::Asis("expression"),
                        USE_SPECK => Place::Asis("use"),
                        SCHEMA_LIT => Place::Asis("schema"),
                        STRUCT_LIT if !tail => match child(&owner, STRUCT_LIT_FIELD_LIST) {
                            Some(_) => Place::Without("literal", end, range(&owner).1),
                            None => Place::Not,
                        },
                        _ => Place::Not,
                    }
                }
                _ => Place::Not,
            }
        }
        _ => Place::Not,
    }
}

fn token_at(text: &str, at: u32) -> Option<SyntaxToken> {
    leaves(&vf_move::parse(text).syntax_node()).into_iter().find(|t| t.text_range().start() == at.into())
}

fn node_at(l: &Loaded, s: &Spot) -> Option<SyntaxNode> {
    token_at(l.texts.get(&s.0)?, s.1)?.parent()
}

fn is_test(l: &Loaded, ds: &BTreeSet<Spot>) -> bool {
    ds.iter().any(|d| node_at(l, d).and_then(|n| n.ancestors().find(|n| n.kind() == SyntaxKind::FUN)).is_some_and(|f| f.children().any(|a| a.kind() == SyntaxKind::ATTR && a.text().to_string().contains("test"))))
}

fn module_of(l: &Loaded, s: &Spot) -> Option<(FileId, u32)> {
    let m = node_at(l, s)?.ancestors().find(|n| n.kind() == SyntaxKind::MODULE)?;
    Some((s.0, m.text_range().start().into()))
}

fn elsewhere(l: &Loaded, s: &Spot, ds: &BTreeSet<Spot>) -> bool {
    ds.iter().any(|d| module_of(l, d) != module_of(l, s))
}

fn holds(l: &Loaded, ds: &BTreeSet<Spot>) -> bool {
    ds.iter().all(|d| node_at(l, d).and_then(|n| n.parent()).is_some_and(|n| matches!(n.kind(), SyntaxKind::STRUCT | SyntaxKind::ENUM)))
}

/// Times a name stands in imports.
fn used(text: &str, name: &str) -> usize {
    leaves(&vf_move::parse(text).syntax_node()).iter().filter(|t| t.text() == name && t.parent().is_some_and(|p| p.ancestors().any(|a| a.kind() == SyntaxKind::USE_STMT))).count()
}

fn declared_here(l: &Loaded, name: &str) -> bool {
    l.texts.values().any(|t| leaves(&vf_move::parse(t).syntax_node()).iter().any(|t| t.text() == name && t.parent().is_some_and(|p| p.kind() == SyntaxKind::NAME)))
}

/// Times a name is declared or imported.
fn declared(l: &Loaded, name: &str) -> usize {
    l.texts
        .values()
        .map(|s| s.as_str())
        .chain([lang::builtins_file::BUILTINS_FILE])
        .map(|t| leaves(&vf_move::parse(t).syntax_node()).iter().filter(|t| t.text() == name && t.parent().is_some_and(|p| p.kind() == SyntaxKind::NAME || p.ancestors().any(|a| a.kind() == SyntaxKind::USE_STMT))).count())
        .sum()
}

fn names(ctx: &Ctx, l: &Loaded, rng: &mut Rng, most: usize) -> Vec<(String, String)> {
    let a = l.world.analysis();
    let defs = definitions(&a, &l.texts);
    let mut bad = vec![];
    let cfg = crate::expect::completion_config(false);
    let far = crate::expect::completion_config(true);
    let word = |x: &Spot| l.texts.get(&x.0).map_or("", |t| &t[x.1 as usize..x.2 as usize]);
    let mut spots: Vec<Spot> = defs.iter().filter(|(s, d)| !d.contains(s)).map(|x| *x.0).collect();
    rng.shuffle(&mut spots);
    for s in spots.into_iter().take(most) {
        let name = word(&s).to_string();
        let text = &l.texts[&s.0];
        let Some(tok) = token_at(text, s.1) else { continue };
        let (kind, base) = match place(&tok) {
            Place::Asis(k) => (k, text.clone()),
            Place::Without(k, from, to) => (k, format!("{}{}", &text[..from as usize], &text[to as usize..])),
            Place::Not => continue,
        };
        let asis = base == *text;
        let changed;
        let l2 = if asis {
            l
        } else {
            let mut texts = l.texts.clone();
            texts.insert(s.0, base.clone());
            changed = reloaded(l, &texts);
            &changed
        };
        let a = l2.world.analysis();
        let items = a.completions(&cfg, pos(s.0, s.2), None).unwrap().unwrap_or_default();
        ctx.eval(vf::hash_of(&(&base, s)), !items.is_empty());
        ctx.count(&format!("asked_{}", kind.replace(' ', "_")), 1);
        ctx.count("proposals", items.len() as u64);
        let mut seen = BTreeSet::new();
        for i in &items {
            if !seen.insert(key(i)) && declared(l, &i.lookup) < 2 {
                bad.push((format!("twice {kind}"), format!("{} is offered twice at {s:?} ({kind})", key(i))));
            }
            if i.source_range.end() != s.2.into() || i.source_range.start() != s.1.into() {
                bad.push((format!("range {kind}"), format!("{} is offered for {:?} and not {s:?}", key(i), i.source_range)));
            }
        }
        // tests, names listed already and fields of other modules are kept back
        if kind == "use" && used(&base, &name) > 1 || is_test(l, &defs[&s]) || kind == "field" && elsewhere(l, &s, &defs[&s]) || kind == "acquires" && !holds(l, &defs[&s]) {
            continue;
        }
        let mine: Vec<&CompletionItem> = items.iter().filter(|i| i.lookup == name).collect();
        if mine.is_empty() {
            bad.push((format!("missing {kind}"), format!("{name} at {s:?} ({kind}; {}) is not offered but {:?}", chain(l, &s), items.iter().map(|i| i.lookup.as_str()).take(40).collect::<Vec<_>>())));
            continue;
        }
        // what is accepted leads where the name leads
        let accept = |i: &CompletionItem| {
            let mut t = l2.texts[&s.0].clone();
            i.text_edit.apply(&mut t);
            let mut added = 0;
            if let Some((path, scope)) = &i.import_to_add {
                for e in a.resolve_completion_edits(&far, pos(s.0, s.2), path.clone(), *scope).unwrap() {
                    let before = t.len();
                    e.apply(&mut t);
                    added += t.len() - before;
                }
            }
            let t = t.replace("$0", "");
            let mut texts = l2.texts.clone();
            texts.insert(s.0, t);
            (reloaded(l2, &texts), added as u32)
        };
        if asis {
            let mut led = vec![];
            let mut ok = false;
            for i in &mine {
                let (after, _) = accept(i);
                let grown = after.texts[&s.0].len() as i64 - text.len() as i64;
                let want: BTreeSet<Spot> = defs[&s]
                    .iter()
                    .map(|d| if d.0 == s.0 && d.1 >= s.2 { (d.0, (d.1 as i64 + grown) as u32, (d.2 as i64 + grown) as u32) } else { *d })
                    .collect();
                let here = led_to(&after.world.analysis(), s.0, s.1);
                if here == want {
                    ok = true;
                    ctx.count("accepted_and_resolved", 1);
                } else {
                    led.push(format!("{:?} -> {:?} in\n{}", key(i), here, after.texts[&s.0]));
                }
            }
            if !ok {
                bad.push((format!("accepted {kind}"), format!("{name} at {s:?} ({kind}; {}) leads to {:?}, but accepted\n{}", chain(l, &s), defs[&s], led.join("\n"))));
            }
        }
        // whatever else is offered means something too, except before `::`, where few names do
        let qualifies = tok.parent_ancestors().find(|n| n.kind() == SyntaxKind::PATH).is_some_and(|n| n.parent().is_some_and(|p| p.kind() == SyntaxKind::PATH));
        if qualifies {
            continue;
        }
        let mut all = a.completions(&far, pos(s.0, s.2), None).unwrap().unwrap_or_default();
        let callee = tok.parent().is_some_and(|p| p.ancestors().take(6).any(|n| n.kind() == SyntaxKind::CALL_EXPR && n.text_range().start() == tok.text_range().start()));
        all.retain(|i| match i.kind {
            CompletionItemKind::SymbolKind(k) => {
                (match kind {
                    "type" => matches!(k, SymbolKind::Struct | SymbolKind::Enum | SymbolKind::TypeParam),
                    "expression" => k == SymbolKind::Function || !callee && matches!(k, SymbolKind::Const | SymbolKind::Local),
                    "field" | "method" => true,
                    _ => false,
                }) && declared_here(l, &i.lookup) && !lang::builtins_file::BUILTINS_FILE.contains(&format!("fun {}", i.lookup))
            }
            _ => false,
        });
        rng.shuffle(&mut all);
        for i in all.iter().take(3) {
            let (after, added) = accept(i);
            let b = after.world.analysis();
            let here = led_to(&b, s.0, s.1 + added);
            ctx.count(if i.import_to_add.is_some() { "offered_imports" } else { "offered_names" }, 1);
            if here.is_empty() {
                bad.push((format!("offered {kind}"), format!("{} is offered at {s:?} ({kind}; {}) but means nothing in\n{}", key(i), chain(l, &s), after.texts[&s.0])));
            }
        }
    }
    bad
}

fn led_to(a: &Analysis, f: FileId, at: u32) -> BTreeSet<Spot> {
    a.goto_definition_multi(pos(f, at)).unwrap().map(|r| r.info.iter().map(|n| spot(n.file_id, n.focus_or_full_range())).collect()).unwrap_or_default()
}
