//! Hints, signatures, hover, colours, outline, symbols, lenses and selections,
//! each judged by what the tree and the definitions say.
use crate::expect::HINTS;
use crate::monitors::{Loaded, Spot, count, definitions, nth, pos, spot};
use ide::Analysis;
use ide::inlay_hints::{InlayHint, InlayHintsConfig, InlayKind};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use syntax::SyntaxKind::*;
use syntax::files::FileRange;
use syntax::{NodeOrToken, SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize};
use vf::{Ctx, Rng, corpus, guarded};
use vf_move::{Source, leaves, parse};
use vfs::FileId;

type Bad = Vec<(String, String)>;

/// Every known text, and rewritten ones.
fn worlds(ctx: &Ctx, what: &'static str, more: usize, judge: impl Fn(&Ctx, &Loaded, &mut Rng) -> Bad + Sync) {
    let one = |l: &Loaded, rng: &mut Rng| {
        let show = l.show();
        // what the parser cannot read is C06's to judge
        if l.texts.values().any(|t| guarded(|| parse(t)).is_err()) {
            return;
        }
        ctx.open(what, &show);
        let r = guarded(|| judge(ctx, l, rng));
        ctx.close();
        match r {
            Ok(bad) => {
                for (sig, d) in bad {
                    ctx.violation(&format!("{what}: {sig} {}", vf::hash_of(&show)), format!("{d}\n{show}"));
                }
            }
            Err(p) => ctx.panicked(what, &show, &p),
        }
    };
    ctx.par(&format!("{what}, as they are"), count(), |rng, i| {
        if let Some(l) = nth(i) {
            one(&l, rng)
        }
    });
    ctx.par(&format!("{what}, rewritten"), more, |rng, i| {
        if i % 3 == 0 {
            one(&Loaded::single(&corpus::any_text(rng)), rng);
            return;
        }
        let Some(l) = nth(rng.below(count())) else { return };
        let files: Vec<(String, String)> = l.texts.values().enumerate().map(|(n, t)| {
            let mut s = Source::new(t);
            if rng.chance(1, 2) {
                s.rename(rng, crate::reserved());
            }
            if rng.chance(1, 2) {
                s.reorder(rng);
            }
            (format!("f{n}.move"), s.text())
        }).collect();
        // consistently renamed one by one, files no longer fit each other, but stay programs
        if files.len() == 1 { one(&Loaded::single(&files[0].1), rng) } else { one(&Loaded::files(&files), rng) }
    });
}

fn tokens(t: &str) -> Vec<SyntaxToken> {
    leaves(&parse(t).syntax_node())
}

fn some_range(rng: &mut Rng, t: &str) -> TextRange {
    let cut = |rng: &mut Rng| vf::text::boundary(rng, t) as u32;
    let (a, b) = if rng.chance(1, 2) {
        let a = cut(rng);
        let mut b = a as usize + rng.below(40);
        while b < t.len() && !t.is_char_boundary(b) {
            b += 1;
        }
        (a, b.min(t.len()) as u32)
    } else {
        (cut(rng), cut(rng))
    };
    TextRange::new(a.min(b).into(), a.max(b).into())
}

fn child(n: &SyntaxNode, k: SyntaxKind) -> Option<SyntaxNode> {
    n.children().find(|c| c.kind() == k)
}

/// The node a name at a place names.
fn named_at(roots: &BTreeMap<FileId, SyntaxNode>, s: &Spot) -> Option<SyntaxNode> {
    let t = roots.get(&s.0)?.token_at_offset(TextSize::new(s.1)).right_biased()?;
    let name = t.parent().filter(|n| n.kind() == NAME)?;
    name.parent()
}

fn roots(l: &Loaded) -> BTreeMap<FileId, SyntaxNode> {
    l.texts.iter().map(|(f, t)| (*f, parse(t).syntax_node())).collect()
}

/// Names of the parameters of a function.
fn parameters(decl: &SyntaxNode) -> Option<Vec<String>> {
    let list = child(decl, PARAM_LIST)?;
    Some(
        list.children()
            .filter(|c| c.kind() == PARAM)
            .map(|p| p.descendants_with_tokens().filter_map(|e| e.into_token()).find(|t| matches!(t.kind(), IDENT | UNDERSCORE) || t.text() == "_").map(|t| t.text().to_string()).unwrap_or_default())
            .collect(),
    )
}

/// The name called, its arguments, and whether the receiver comes first.
fn call(n: &SyntaxNode) -> Option<(SyntaxToken, SyntaxNode, bool)> {
    let args = child(n, VALUE_ARG_LIST)?;
    match n.kind() {
        CALL_EXPR => {
            let callee = child(n, PATH_EXPR)?;
            let path = child(&callee, PATH)?;
            let seg = path.children().filter(|c| c.kind() == PATH_SEGMENT).last()?;
            let name = child(&seg, NAME_REF)?.first_token()?;
            Some((name, args, false))
        }
        METHOD_CALL_EXPR => Some((child(n, NAME_REF)?.first_token()?, args, true)),
        _ => None,
    }
}

fn one_def(defs: &BTreeMap<Spot, BTreeSet<Spot>>, f: FileId, t: &SyntaxToken) -> Option<Spot> {
    let d = defs.get(&spot(f, t.text_range()))?;
    (d.len() == 1).then(|| *d.iter().next().unwrap())
}

fn hash_hint(h: &InlayHint) -> u64 {
    let mut s = std::hash::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn told(h: &InlayHint) -> (u32, u32, String) {
    (h.range.start().into(), h.range.end().into(), format!("{:?} {}", h.kind, h.label))
}

fn hints_of(ctx: &Ctx, l: &Loaded, rng: &mut Rng) -> Bad {
    let mut bad = vec![];
    let a = l.world.analysis();
    let roots = roots(l);
    let defs = definitions(&a, &l.texts);
    for (f, t) in &l.texts {
        let f = *f;
        let all = a.inlay_hints(&HINTS, f, None).unwrap();
        ctx.eval(vf::hash_of(t), !all.is_empty());
        ctx.count("hints", all.len() as u64);
        // of a range
        for _ in 0..4 {
            let r = some_range(rng, t);
            let got: Vec<_> = a.inlay_hints(&HINTS, f, Some(r)).unwrap().iter().map(told).collect();
            let want: Vec<_> = all.iter().filter(|h| r.contains_range(h.range)).map(told).collect();
            ctx.count("hints_in_ranges", want.len() as u64);
            if got != want {
                bad.push(("range".into(), format!("hints in {r:?} are {got:?} and not {want:?}")));
            }
        }
        // some kinds only
        let c = InlayHintsConfig {
            render_colons: rng.chance(1, 2),
            type_hints: rng.chance(1, 2),
            tuple_type_hints: rng.chance(1, 2),
            parameter_hints: rng.chance(1, 2),
            range_exclusive_hints: rng.chance(1, 2),
            hide_closure_parameter_hints: rng.chance(1, 2),
            ..HINTS
        };
        let want: Vec<_> = all
            .iter()
            .filter(|h| match h.kind {
                InlayKind::Parameter => c.parameter_hints,
                InlayKind::RangeExclusive => c.range_exclusive_hints,
                _ => {
                    let pat = roots[&f].token_at_offset(h.range.start()).right_biased().into_iter().flat_map(|t| t.parent_ancestors()).find(|n| n.kind() == IDENT_PAT);
                    let of_lambda = pat.iter().flat_map(|p| p.ancestors()).find(|n| matches!(n.kind(), LET_STMT | LAMBDA_PARAM)).is_some_and(|n| n.kind() == LAMBDA_PARAM);
                    let in_tuple = pat.iter().any(|p| p.parent().is_some_and(|q| q.kind() == TUPLE_PAT));
                    c.type_hints && (of_lambda && !c.hide_closure_parameter_hints || !of_lambda && (c.tuple_type_hints || !in_tuple))
                }
            })
            .map(|h| {
                let x = told(h);
                let s = h.label.to_string();
                match h.kind {
                    InlayKind::Type if c.render_colons && !t[..usize::from(h.range.end())].ends_with(':') => (x.0, x.1, format!("{:?} : {s}", h.kind)),
                    InlayKind::Parameter if c.render_colons => (x.0, x.1, format!("{:?} {s}: ", h.kind)),
                    _ => x,
                }
            })
            .collect();
        let got: Vec<_> = a.inlay_hints(&c, f, None).unwrap().iter().map(told).collect();
        if got != want {
            bad.push(("settings".into(), format!("with {c:?} hints are {got:?} and not {want:?}")));
        }
        // resolved again
        for h in &all {
            if let Some(r) = h.resolve_parent {
                ctx.count("hints_resolved", 1);
                match a.inlay_hints_resolve(&HINTS, f, r, hash_hint(h), hash_hint).unwrap() {
                    Some(g) if told(&g) == told(h) => {}
                    x => bad.push(("resolve".into(), format!("{:?} resolves to {x:?}", told(h)))),
                }
            }
        }
        if !l.intact() {
            continue;
        }
        // arguments
        let mut want: BTreeSet<(u32, u32, String)> = BTreeSet::new();
        let mut judged: Vec<TextRange> = vec![];
        for n in roots[&f].descendants() {
            let Some((name, args, method)) = call(&n) else { continue };
            let Some(d) = one_def(&defs, f, &name) else { continue };
            let Some(decl) = named_at(&roots, &d) else { continue };
            if !matches!(decl.kind(), FUN | SPEC_FUN | SPEC_INLINE_FUN) {
                continue;
            }
            let Some(mut ps) = parameters(&decl) else { continue };
            if method && !ps.is_empty() {
                ps.remove(0);
            }
            let known = ["move_from", "borrow_global", "borrow_global_mut", "exists", "move_to", "freeze", "assert!"];
            if known.contains(&name.text()) {
                continue;
            }
            let exprs: Vec<SyntaxNode> = args.children().filter(|c| c.kind() == VALUE_ARG).filter_map(|v| v.children().next()).collect();
            if exprs.len() != args.children().filter(|c| c.kind() == VALUE_ARG).count() {
                continue; // an argument is missing
            }
            judged.extend(exprs.iter().map(|e| e.text_range()));
            if ps.len() == 1 {
                continue;
            }
            for (p, e) in ps.iter().zip(&exprs) {
                let p = p.trim_start_matches('_');
                if !e.text().to_string().to_lowercase().contains(&p.to_lowercase()) {
                    want.insert((e.text_range().start().into(), e.text_range().end().into(), format!("Parameter {p}")));
                }
            }
        }
        let mine: BTreeSet<_> = all.iter().filter(|h| h.kind == InlayKind::Parameter && judged.contains(&h.range)).map(told).collect();
        ctx.count("argument_hints", want.len() as u64);
        if mine != want {
            bad.push(("arguments".into(), format!("arguments are hinted {:?}, parameters say {:?}", mine.difference(&want).collect::<Vec<_>>(), want.difference(&mine).collect::<Vec<_>>())));
        }
        // types
        let typed: BTreeMap<u32, &InlayHint> = all.iter().filter(|h| h.kind == InlayKind::Type).map(|h| (h.range.start().into(), h)).collect();
        if typed.len() != all.iter().filter(|h| h.kind == InlayKind::Type).count() {
            bad.push(("twice".into(), "a binding is hinted twice".into()));
        }
        for (s, ds) in &defs {
            let Some(d) = ds.iter().next().filter(|_| ds.len() == 1) else { continue };
            if s.0 != f || d.0 != f || s == d {
                continue;
            }
            let Some(pat) = named_at(&roots, d).filter(|n| n.kind() == IDENT_PAT) else { continue };
            let Some(owner) = pat.ancestors().find(|n| matches!(n.kind(), LET_STMT | LAMBDA_PARAM | PARAM | MATCH_ARM | FOR_EXPR | QUANT_BINDING | FUN | BLOCK_EXPR)) else { continue };
            let msl = pat.ancestors().any(|n| matches!(n.kind(), SPEC_BLOCK_EXPR | ITEM_SPEC | SCHEMA | SPEC_FUN | SPEC_INLINE_FUN | MODULE_SPEC | LEMMA));
            // a plain use of the variable
            let Some(usage) = roots[&f].token_at_offset(TextSize::new(s.1)).right_biased().and_then(|t| t.parent_ancestors().find(|n| n.kind() == PATH_EXPR)) else { continue };
            if spot(f, usage.text_range()) != *s || usage.parent().is_some_and(|p| p.kind() == CALL_EXPR) {
                continue;
            }
            let in_spec = usage.ancestors().any(|n| matches!(n.kind(), SPEC_BLOCK_EXPR | ITEM_SPEC));
            if in_spec != msl {
                continue; // numbers are `num` there
            }
            // a binding of another item (of `spec module`) is not typed here
            let item = |n: &SyntaxNode| n.ancestors().find(|n| matches!(n.kind(), FUN | SPEC_FUN | SPEC_INLINE_FUN | ITEM_SPEC | SPEC_BLOCK_EXPR | SCHEMA | LEMMA | CONST | STRUCT | ENUM | GLOBAL_VARIABLE_DECL | MODULE | MODULE_SPEC | SCRIPT));
            if item(&usage) != item(&pat) {
                continue;
            }
            let want = a.expr_type_info(pos(f, s.1)).unwrap().unwrap_or_default();
            let hint = typed.get(&d.1).map(|h| h.label.to_string());
            let written = owner.children().any(|c| matches!(c.kind(), PATH_TYPE | REF_TYPE | TUPLE_TYPE | UNIT_TYPE | LAMBDA_TYPE | PAREN_TYPE));
            let word = &t[d.1 as usize..d.2 as usize];
            let hintable = matches!(owner.kind(), LET_STMT | LAMBDA_PARAM) && !written && !word.starts_with('_');
            match hint {
                Some(h) => {
                    ctx.count("binding_hints_compared", 1);
                    if !hintable {
                        bad.push(("written".into(), format!("{word} at {} is hinted {h:?}", d.1)));
                    }
                    let strip = |x: &str| vf_unqualified(&x.replace("<unknown>", "?").replace("<never>", "!"));
                    if strip(&h) != strip(&want) && !want.is_empty() && !h.contains('…') {
                        bad.push(("type".into(), format!("{word} at {} is hinted {h:?} and at {} used as {want:?}", d.1, s.1)));
                    }
                }
                None if hintable && !want.contains("unknown") && !want.is_empty() => {
                    let text = owner.text().to_string();
                    if text.contains("&") && text.contains("[") {
                        continue; // `&R[addr]` says it
                    }
                    bad.push(("none".into(), format!("{word} at {} has no hint and at {} the type {want:?}", d.1, s.1)));
                }
                None => {}
            }
        }
    }
    bad
}

/// A type without the modules its names come from.
fn vf_unqualified(t: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphanumeric() || c == '_' || c == '@' {
            word.push(c);
        } else if c == ':' && cs.get(i + 1) == Some(&':') {
            word.clear();
            i += 1;
        } else {
            out.push_str(&word);
            word.clear();
            if c != ' ' {
                out.push(c);
            }
        }
        i += 1;
    }
    out + &word
}

pub fn hints(ctx: &Ctx) {
    worlds(ctx, "hints", ctx.size(3000, 60_000), hints_of);
}

fn signatures_of(ctx: &Ctx, l: &Loaded, rng: &mut Rng) -> Bad {
    let mut bad = vec![];
    let clean = l.intact();
    let a = l.world.analysis();
    let roots = roots(l);
    let defs = definitions(&a, &l.texts);
    for (f, t) in &l.texts {
        let f = *f;
        for at in 0..=t.len() {
            if !t.is_char_boundary(at) || (l.texts.len() > 1 || t.len() > 400) && rng.chance(2, 3) {
                continue;
            }
            let off = TextSize::new(at as u32);
            // the innermost list the cursor is in
            let list = roots[&f].descendants().filter(|n| matches!(n.kind(), VALUE_ARG_LIST | TYPE_ARG_LIST | STRUCT_LIT_FIELD_LIST)).filter(|n| {
                let r = n.text_range();
                let (Some(o), Some(c)) = (n.first_token(), n.last_token()) else { return false };
                matches!(o.text(), "(" | "<" | "{") && o.text_range().end() <= off && matches!(c.text(), ")" | ">" | "}") && r.end() > off
            }).last();
            let Some(list) = list else { continue };
            // the path of a literal belongs to it
            let tok = roots[&f].token_at_offset(off).left_biased();
            if tok.iter().flat_map(|t| t.parent_ancestors()).take_while(|n| *n != list).any(|n| matches!(n.kind(), STRUCT_LIT | VALUE_ARG_LIST | TYPE_ARG_LIST | ERROR)) {
                continue;
            }
            let before = list.children_with_tokens().filter_map(|e| e.into_token()).filter(|t| t.kind() == COMMA && t.text_range().end() <= off).count();
            let help = a.signature_help(pos(f, at as u32)).unwrap();
            ctx.eval(vf::hash_of(&(vf::hash_of(t), at)), help.is_some());
            let owner = list.parent().unwrap();
            let mut tell = |s: &str, d: String| bad.push((s.to_string(), format!("at {at} {:?}: {d}", &t[usize::from(owner.text_range().start())..at])));
            match list.kind() {
                VALUE_ARG_LIST => {
                    let known = call(&owner).and_then(|(name, _, method)| {
                        let decl = named_at(&roots, &one_def(&defs, f, &name)?)?;
                        matches!(decl.kind(), FUN | SPEC_FUN | SPEC_INLINE_FUN).then_some(())?;
                        let mut ps = parameters(&decl)?;
                        if method && !ps.is_empty() {
                            ps.remove(0);
                        }
                        Some(ps)
                    });
                    match (help, known) {
                        (None, Some(ps)) if clean => tell("no help", format!("parameters are {ps:?}")),
                        (Some(h), ps) => {
                            ctx.count("calls_helped", 1);
                            if h.active_parameter != Some(before) {
                                tell("active", format!("active is {:?} of {:?} after {before} commas", h.active_parameter, h.signature));
                            }
                            if let Some(ps) = ps.filter(|_| clean) {
                                ctx.count("signatures_compared", 1);
                                let got: Vec<String> = h.parameter_labels().map(|l| l.split(':').next().unwrap().trim().to_string()).collect();
                                if got != ps || ps.is_empty() && h.signature != "<no arguments>" {
                                    tell("parameters", format!("help has {got:?}, the function {ps:?}"));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                TYPE_ARG_LIST => {
                    if let Some(h) = help {
                        ctx.count("type_arguments_helped", 1);
                        if h.active_parameter != Some(before) {
                            tell("active type", format!("active is {:?} of {:?} after {before} commas", h.active_parameter, h.signature));
                        }
                    }
                }
                _ => {
                    let Some(path) = child(&owner, PATH).filter(|_| clean) else { continue };
                    let Some(name) = path.children().filter(|c| c.kind() == PATH_SEGMENT).last().and_then(|s| child(&s, NAME_REF)).and_then(|n| n.first_token()) else { continue };
                    let Some(decl) = one_def(&defs, f, &name).and_then(|d| named_at(&roots, &d)) else { continue };
                    let Some(fields) = child(&decl, NAMED_FIELD_LIST) else { continue };
                    let names: Vec<String> = fields.children().filter(|c| c.kind() == NAMED_FIELD).filter_map(|c| child(&c, NAME)).map(|n| n.text().to_string()).collect();
                    let given: Vec<Option<String>> = list.children().filter(|c| c.kind() == STRUCT_LIT_FIELD).map(|c| c.descendants_with_tokens().filter_map(|e| e.into_token()).find(|t| t.kind() == IDENT).map(|t| t.text().to_string())).collect();
                    let explicit = |i: usize| list.children().filter(|c| c.kind() == STRUCT_LIT_FIELD).nth(i).is_some_and(|c| c.children_with_tokens().any(|e| e.kind() == COLON));
                    let next = match given.get(before) {
                        Some(Some(x)) if explicit(before) || names.contains(x) => Some(x.clone()),
                        _ => names.iter().find(|n| !given.contains(&Some(n.to_string()))).cloned(),
                    };
                    let want = next.and_then(|n| names.iter().position(|x| *x == n)).unwrap_or(names.len());
                    match help {
                        None => tell("no field help", format!("fields are {names:?}")),
                        Some(h) => {
                            ctx.count("literals_helped", 1);
                            let got: Vec<String> = h.parameter_labels().map(|l| l.split(':').next().unwrap().trim().to_string()).collect();
                            if got != names || h.active_parameter != Some(want) {
                                tell("fields", format!("help has {got:?} at {:?}, the type {names:?} at {want}", h.active_parameter));
                            }
                        }
                    }
                }
            }
        }
        // a name is described like what it leads to
        for (s, ds) in &defs {
            let Some(d) = ds.iter().next().filter(|_| ds.len() == 1) else { continue };
            if s.0 != f || s == d || !l.texts.contains_key(&d.0) {
                continue;
            }
            let word = &t[s.1 as usize..s.2 as usize];
            let kind = |s: &Spot| roots[&s.0].token_at_offset(TextSize::new(s.1)).right_biased().and_then(|t| t.parent()).map(|n| n.kind());
            if word == "result" || kind(s) != Some(NAME_REF) || kind(d) != Some(NAME) {
                continue;
            }
            let here = a.hover(pos(f, s.1)).unwrap().map(|h| (h.range, h.info.doc_string));
            let there = a.hover(pos(d.0, d.1)).unwrap().map(|h| (h.range, h.info.doc_string));
            ctx.eval(vf::hash_of(&(vf::hash_of(t), s.1, 7)), here.is_some());
            ctx.count("hovers_compared", 1);
            let show = |h: &Option<(TextRange, String)>| h.as_ref().map(|h| h.1.clone());
            if show(&here) != show(&there) {
                bad.push(("hover".into(), format!("{word} at {} is {:?} and where it leads {:?}", s.1, show(&here), show(&there))));
            }
            if let Some(h) = &here {
                if spot(f, h.0) != *s {
                    bad.push(("hover range".into(), format!("{word} at {s:?} is described over {:?}", h.0)));
                }
            }
        }
        // declarations are described with their words and their documentation
        for n in roots[&f].descendants().filter(|n| matches!(n.kind(), FUN | SPEC_FUN | STRUCT | ENUM | CONST | MODULE)) {
            let Some(name) = child(&n, NAME) else { continue };
            let start: u32 = name.text_range().start().into();
            let Some(h) = a.hover(pos(f, start)).unwrap() else {
                bad.push(("declaration".into(), format!("{} is not described", name.text())));
                continue;
            };
            ctx.count("declarations_described", 1);
            let doc = &h.info.doc_string;
            if !doc.contains(&name.text().to_string()) {
                bad.push(("declaration".into(), format!("{} is described as {doc:?}", name.text())));
            }
            for p in parameters(&n).unwrap_or_default() {
                if clean && !doc.contains(&p) {
                    bad.push(("declaration".into(), format!("{} is described without its parameter {p}: {doc:?}", name.text())));
                }
            }
            let mut lines = vec![];
            for e in n.children_with_tokens() {
                match e {
                    NodeOrToken::Token(t) if t.kind() == COMMENT => lines.push(t.text().to_string()),
                    NodeOrToken::Token(t) if t.kind() == WHITESPACE => {}
                    _ => break,
                }
            }
            for c in lines {
                let want = c.trim_start_matches('/').trim();
                if c.starts_with("///") && !c.starts_with("////") && !doc.contains(want) {
                    bad.push(("documentation".into(), format!("{} is described without {c:?}: {doc:?}", name.text())));
                }
            }
        }
    }
    bad
}

pub fn signatures(ctx: &Ctx) {
    worlds(ctx, "signatures", ctx.size(1500, 30_000), signatures_of);
}

const LISTED: &[(SyntaxKind, &str)] = &[
    (MODULE, "Module"),
    (FUN, "Function"),
    (SPEC_FUN, "Function"),
    (SPEC_INLINE_FUN, "Function"),
    (CONST, "Const"),
    (STRUCT, "Struct"),
    (ENUM, "Enum"),
    (TYPE_PARAM, "TypeParam"),
    (VARIANT, "EnumVariant"),
    (NAMED_FIELD, "Field"),
    (SCHEMA, "Struct"),
    (GLOBAL_VARIABLE_DECL, "GlobalVariableDecl"),
    (LEMMA, "Lemma"),
    (IDENT_PAT, "Local"),
    (USE_ALIAS, "Local"),
];

/// Each letter in turn, small ones standing for large ones too.
fn matches(query: &str, name: &str) -> bool {
    let mut cs = name.chars();
    query.chars().all(|q| cs.any(|c| c == q || c == q.to_ascii_uppercase()))
}

fn follow_of(ctx: &Ctx, l: &Loaded, rng: &mut Rng) -> Bad {
    let mut bad = vec![];
    let a = l.world.analysis();
    let roots = roots(l);
    let defs = definitions(&a, &l.texts);
    let mut declared: Vec<(String, Spot)> = vec![];
    for (f, t) in &l.texts {
        let f = *f;
        let root = &roots[&f];
        // outline
        let listed = |n: &SyntaxNode| child(n, NAME).and_then(|name| LISTED.iter().find(|k| k.0 == n.kind()).map(|k| (name, k.1)));
        let mut want = vec![];
        for n in root.descendants() {
            if let Some((name, kind)) = listed(&n) {
                let parent = n.ancestors().skip(1).find_map(|p| listed(&p)).map(|(p, _)| p.text_range());
                let kind = if n.parent().is_some_and(|p| p.kind() == SCHEMA_FIELD) { "Field" } else { kind };
                want.push((name.text().to_string(), name.text_range(), n.text_range(), kind.to_string(), parent));
            }
        }
        let nodes = a.file_structure(f).unwrap();
        let got: Vec<_> = nodes.iter().map(|n| (n.label.clone(), n.navigation_range, n.node_range, format!("{:?}", n.kind), n.parent.map(|p| nodes[p].navigation_range))).collect();
        ctx.eval(vf::hash_of(t), !want.is_empty());
        ctx.count("outlined", want.len() as u64);
        if got != want {
            let d: Vec<_> = got.iter().filter(|x| !want.contains(x)).chain(want.iter().filter(|x| !got.contains(x))).collect();
            bad.push(("outline".into(), format!("the outline differs from the declarations in {d:?}")));
        }
        // symbols
        for m in root.descendants().filter(|n| n.kind() == MODULE) {
            for n in m.descendants() {
                // what is in `spec module` is the module's; what is in other specs is local to them
                let local = n.ancestors().find(|a| a.kind() == ITEM_SPEC).is_some_and(|a| !a.children_with_tokens().any(|e| e.kind() == MODULE_KW));
                let direct = !local && matches!(n.kind(), MODULE | FUN | STRUCT | ENUM | CONST | SCHEMA | SPEC_FUN | SPEC_INLINE_FUN | VARIANT | NAMED_FIELD | LEMMA);
                if let (true, Some(name)) = (direct, child(&n, NAME)) {
                    declared.push((name.text().to_string(), spot(f, name.text_range())));
                }
            }
        }
        // colours of a range
        let tags = |hs: &[ide::HlRange]| -> BTreeMap<Spot, String> {
            let mut out = BTreeMap::new();
            for tok in tokens(t) {
                let s = spot(f, tok.text_range());
                if let Some(h) = hs.iter().find(|h| h.range.contains_range(tok.text_range())) {
                    out.insert(s, format!("{:?}", h.highlight.tag));
                }
            }
            out
        };
        let all = tags(&a.highlight(f).unwrap());
        for _ in 0..3 {
            let r = some_range(rng, t);
            let got = tags(&a.highlight_range(FileRange { file_id: f, range: r }).unwrap());
            for (s, c) in &all {
                let w = TextRange::new(s.1.into(), s.2.into());
                if r.intersect(w).is_some_and(|x| !x.is_empty()) {
                    ctx.count("coloured_in_ranges", 1);
                    let solid = !t[s.1 as usize..s.2 as usize].trim().is_empty();
                    if solid && got.get(s) != Some(c) {
                        bad.push(("colours of a range".into(), format!("{:?} at {} is {c}, in {r:?} it is {:?}", &t[s.1 as usize..s.2 as usize], s.1, got.get(s))));
                        break;
                    }
                }
            }
        }
        // a name has the colour of what it leads to
        for (s, ds) in defs.iter().filter(|(s, _)| s.0 == f) {
            let Some(d) = ds.iter().next().filter(|_| ds.len() == 1) else { continue };
            let Some(decl) = named_at(&roots, d) else { continue };
            let here = all.get(s).cloned().unwrap_or_default();
            let kind = LISTED.iter().find(|k| k.0 == decl.kind()).map_or("", |k| k.1);
            let kind = if decl.parent().is_some_and(|p| p.kind() == SCHEMA_FIELD) { "Field" } else { kind };
            let short = roots[&f].token_at_offset(TextSize::new(s.1)).right_biased().is_some_and(|t| t.parent_ancestors().take(4).any(|n| matches!(n.kind(), STRUCT_PAT_FIELD | STRUCT_LIT_FIELD | SCHEMA_LIT_FIELD)));
            ctx.count("colours_compared", 1);
            if here != format!("Symbol({kind})") && !short {
                bad.push(("colour".into(), format!("{} at {} is {here} and leads to a {kind}", &t[s.1 as usize..s.2 as usize], s.1)));
            }
        }
        // the other places of a name
        for s in defs.keys().filter(|s| s.0 == f) {
            if rng.chance(2, 3) {
                continue;
            }
            // shorthands stand for two things
            let short = roots[&f].token_at_offset(TextSize::new(s.1)).right_biased().is_some_and(|t| t.parent_ancestors().take(4).any(|n| matches!(n.kind(), STRUCT_PAT_FIELD | STRUCT_LIT_FIELD | SCHEMA_LIT_FIELD)));
            if short {
                continue;
            }
            let Some(refs) = a.find_all_refs(pos(f, s.1), None).unwrap() else { continue };
            let Some(d) = defs[s].iter().next().filter(|_| defs[s].len() == 1) else { continue };
            let mut want: BTreeSet<(u32, u32)> = refs.references.get(&f).into_iter().flatten().map(|r| (r.start().into(), r.end().into())).collect();
            if d.0 == f {
                want.insert((d.1, d.2));
            }
            let got: Option<BTreeSet<(u32, u32)>> = a.highlight_related(pos(f, s.1)).unwrap().map(|v| v.iter().map(|r| (r.start().into(), r.end().into())).collect());
            ctx.count("related_compared", 1);
            if got.clone().unwrap_or_default() != want {
                bad.push(("related".into(), format!("at {} marked are {got:?}, references {want:?}", s.1)));
            }
        }
        // selections grow
        for _ in 0..6 {
            let mut r = if rng.chance(1, 2) { some_range(rng, t) } else { TextRange::empty((vf::text::boundary(rng, t) as u32).into()) };
            let mut steps = 0;
            while r != TextRange::up_to(TextSize::of(t.as_str())) {
                let next = a.extend_selection(FileRange { file_id: f, range: r }).unwrap();
                steps += 1;
                ctx.count("selections_grown", 1);
                if !next.contains_range(r) || next == r || steps > 2000 {
                    bad.push(("selection".into(), format!("{r:?} grows to {next:?} in a file of {}", t.len())));
                    break;
                }
                r = next;
            }
        }
        lenses_of(ctx, l, f, root, &a, &defs, &roots, &mut bad);
    }
    // symbol search
    let names: Vec<&String> = declared.iter().map(|d| &d.0).collect();
    for _ in 0..4 {
        let query = match rng.below(4) {
            _ if names.is_empty() => String::new(),
            0 => (*rng.pick(&names)).clone(),
            1 => rng.pick(&names).chars().filter(|_| rng.chance(2, 3)).collect(),
            2 => rng.pick(&names).to_lowercase().chars().filter(|_| rng.chance(1, 2)).collect(),
            _ => (0..rng.below(3)).map(|_| *rng.pick(&['a', 'e', '_', 'm', 'T', '1', 'S'])).collect(),
        };
        let want: BTreeSet<Spot> = declared.iter().filter(|(n, _)| matches(&query, n) && (query.starts_with("__") || !n.starts_with("__"))).map(|x| x.1).collect();
        let found = a.symbol_search(ide_db::symbol_index::Query::new(&query, None)).unwrap();
        let mine: Vec<Spot> = found.iter().filter(|n| l.texts.contains_key(&n.file_id)).map(|n| spot(n.file_id, n.focus_or_full_range())).collect();
        let got: BTreeSet<Spot> = mine.iter().copied().collect();
        ctx.count("symbols_found", want.len() as u64);
        if got.len() != mine.len() {
            bad.push(("symbol twice".into(), format!("{query:?} finds something twice: {mine:?}")));
        }
        // broken texts have pieces of items, outside of any
        if got != want && (l.intact() || !got.is_subset(&want)) {
            let word = |s: &Spot| format!("{} at {}", &l.texts[&s.0][s.1 as usize..s.2 as usize], s.1);
            bad.push(("symbols".into(), format!("{query:?} finds also {:?} and not {:?}", got.difference(&want).map(word).collect::<Vec<_>>(), want.difference(&got).map(word).collect::<Vec<_>>())));
        }
        let n = rng.below(5);
        let some = a.symbol_search(ide_db::symbol_index::Query::new(&query, Some(n))).unwrap();
        if some.len() != n.min(found.len()) {
            bad.push(("symbol limit".into(), format!("{query:?} finds {} of {} allowed", some.len(), n)));
        }
    }
    bad
}

#[allow(clippy::too_many_arguments)]
fn lenses_of(ctx: &Ctx, l: &Loaded, f: FileId, root: &SyntaxNode, a: &Analysis, defs: &BTreeMap<Spot, BTreeSet<Spot>>, roots: &BTreeMap<FileId, SyntaxNode>, bad: &mut Bad) {
    let has = |n: &SyntaxNode, word: &str| n.children().filter(|c| c.kind() == ATTR).any(|c| c.children().any(|i| i.kind() == ATTR_ITEM && i.first_token().is_some_and(|t| t.text() == word)));
    let mut want: BTreeSet<(Spot, String)> = BTreeSet::new();
    for m in root.descendants().filter(|n| n.kind() == MODULE) {
        let Some(mname) = child(&m, NAME) else { continue };
        let mut any = false;
        for n in m.children().filter(|n| n.kind() == FUN) {
            let Some(name) = child(&n, NAME) else { continue };
            let s = spot(f, name.text_range());
            if has(&n, "test") {
                any = true;
                want.insert((s, format!("test {}::{}", mname.text(), name.text())));
            } else if n.children_with_tokens().any(|t| t.kind() == ENTRY_KW) {
                want.insert((s, "txn".into()));
            }
        }
        if any {
            want.insert((spot(f, mname.text_range()), format!("test {}::", mname.text())));
        }
    }
    let mut got = BTreeSet::new();
    for r in a.runnables(f).unwrap() {
        let label = r.label();
        if label.starts_with("prove") {
            continue;
        }
        let label = if label.starts_with("txn") { "txn".to_string() } else { label };
        if !got.insert((spot(r.nav_item.file_id, r.nav_item.focus_or_full_range()), label.clone())) {
            bad.push(("lens twice".into(), label));
        }
    }
    ctx.count("runnables", want.len() as u64);
    if got != want && l.intact() {
        bad.push(("runnables".into(), format!("to run {:?} and not {:?}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>())));
    }
    let _ = (defs, roots);
}

pub fn follow(ctx: &Ctx) {
    worlds(ctx, "views", ctx.size(3000, 60_000), follow_of);
}
