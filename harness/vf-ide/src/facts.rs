//! Everything the analysis says about a file, keyed by token so that it can be compared across
//! rewritings of the text.
use crate::expect::HINTS;
use ide::{Analysis, AssistResolveStrategy};
use ide::annotations::{AnnotationConfig, AnnotationKind, AnnotationLocation};
use ide_diagnostics::config::DiagnosticsConfig;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syntax::files::FilePosition;
use syntax::{SyntaxKind, TextRange, TextSize};
use vf_move::{Positions, Source, translate};
use vfs::FileId;

pub type Facts = BTreeMap<String, String>;

/// Which families of facts to collect.
#[derive(Clone, Copy, Default, Debug)]
pub struct Want {
    pub defs: bool,
    pub types: bool,
    pub diags: bool,
    pub hints: bool,
    pub colours: bool,
    pub outline: bool,
    pub hover: bool,
    pub refs: bool,
    pub signature: bool,
    pub lenses: bool,
    pub fixes: bool,
}

impl Want {
    pub const ALL: Want =
        Want { defs: true, types: true, diags: true, hints: true, colours: true, outline: true, hover: true, refs: true, signature: true, lenses: true, fixes: true };
}

/// One file's tokens in a comparison.
pub struct Frame<'a> {
    pub file: FileId,
    pub label: String,
    pub pos: Positions,
    pub source: &'a Source,
}

pub fn frame<'a>(file: FileId, label: &str, source: &'a Source) -> Frame<'a> {
    Frame { file, label: label.to_string(), pos: source.positions(), source }
}

fn at(r: TextRange) -> (u32, u32) {
    (r.start().into(), r.end().into())
}

/// A range by the tokens it starts and ends with.
fn span(p: &Positions, r: TextRange) -> String {
    let (a, b) = at(r);
    if a == b { format!("@{}", p.name_end(a)) } else if p.by_start.range(a..b).next().is_none() && p.name_start(a) != p.name_end(b) { format!("gap {}", p.name_end(b)) } else { format!("{}..{}", p.name_start(a), p.name_end(b)) }
}

pub fn collect(a: &Analysis, frames: &[Frame<'_>], want: Want) -> Facts {
    let mut out = Facts::new();
    let by_file: HashMap<FileId, &Frame<'_>> = frames.iter().map(|f| (f.file, f)).collect();
    let place = |f: FileId, r: TextRange| match by_file.get(&f) {
        Some(fr) => format!("{}:{}", fr.label, span(&fr.pos, r)),
        None => format!("file{}:{:?}", f.index(), r),
    };
    for fr in frames {
        let f = fr.file;
        let k = |what: &str, i: usize| format!("{}:{what} t{i:05}", fr.label);
        let starts: Vec<(usize, u32)> = fr.pos.start.iter().map(|(i, s)| (*i, *s)).collect();
        let kinds: HashMap<usize, (SyntaxKind, &str)> = fr.source.pieces.iter().filter_map(|p| p.orig.map(|o| (o, (p.kind, p.text.as_str())))).collect();
        for (i, s) in &starts {
            let (kind, text) = kinds[i];
            // at its start a keyword competes with what it touches
            let lead = (kind.is_keyword() && text.len() > 1) as u32;
            let pos = FilePosition { file_id: f, offset: TextSize::new(*s + lead) };
            let namey = matches!(kind, SyntaxKind::IDENT | SyntaxKind::QUOTE_IDENT) || kind.is_keyword() || kind == SyntaxKind::INT_NUMBER;
            if namey && want.defs {
                let r = a.goto_definition_multi(pos).unwrap().map(|r| {
                    let mut v: Vec<String> = r
                        .info
                        .iter()
                        .map(|n| format!("{}={:?}@{}<{}", n.name, n.kind, n.focus_range.map(|x| place(n.file_id, x)).unwrap_or_default(), place(n.file_id, n.full_range)))
                        .collect();
                    v.sort();
                    format!("{} -> {}", span(&fr.pos, r.range), v.join(" | "))
                });
                if let Some(r) = r {
                    out.insert(k("def", *i), r);
                }
            }
            if namey && want.refs {
                if let Some(r) = a.find_all_refs(pos, None).unwrap() {
                    let set: BTreeSet<String> = r.references.iter().flat_map(|(f, v)| v.iter().map(|x| place(*f, *x)).collect::<Vec<_>>()).collect();
                    out.insert(k("refs", *i), set.into_iter().collect::<Vec<_>>().join(" "));
                }
            }
            if want.types {
                // between two tokens that touch, the question is about either
                let inside = text.len() > 1;
                let pos = FilePosition { file_id: f, offset: TextSize::new(*s + inside as u32) };
                if text.is_char_boundary(1) && (inside || !fr.pos.by_end.contains_key(s)) {
                    if let Some(t) = a.expr_type_info(pos).unwrap() {
                        out.insert(k(if inside { "type" } else { "type of one" }, *i), t);
                    }
                }
                if inside && namey {
                    if let Some(t) = a.call_expr_type_info(pos).unwrap() {
                        out.insert(k("calltype", *i), t);
                    }
                }
            }
            if namey && want.hover {
                if let Some(h) = a.hover(pos).unwrap() {
                    out.insert(k("hover", *i), squeezed(&h.info.doc_string));
                }
            }
            if want.signature && matches!(text, "(" | "," | "<" | "{" | ":") {
                let pos = FilePosition { file_id: f, offset: TextSize::new(*s + 1) };
                if let Some(h) = a.signature_help(pos).unwrap() {
                    let active = h.active_parameter.and_then(|n| h.parameter_range(n)).map(|r| &h.signature[r]);
                    out.insert(k("sig", *i), format!("{} [{:?} {:?}]", h.signature, h.active_parameter, active));
                }
            }
        }
        if want.diags {
            let r = a.full_file_range(f).unwrap();
            let ds = a.full_diagnostics(&DiagnosticsConfig::test_sample(), AssistResolveStrategy::All, f).unwrap();
            let _ = r;
            let mut n: BTreeMap<String, usize> = BTreeMap::new();
            for d in ds {
                let fixes = match (&d.fixes, want.fixes) {
                    (Some(fs), true) => {
                        let mut v: Vec<String> = fs.iter().map(|x| format!("{}: {} on {}", x.id.0, x.label, span(&fr.pos, x.target))).collect();
                        v.sort();
                        v.join("; ")
                    }
                    _ => String::new(),
                };
                // an error found where nothing is has no token to name it by
                let s = if d.code.as_str() == "syntax-error" { String::new() } else { span(&fr.pos, d.range.range) };
                *n.entry(format!("{} {:?} {s} {} {} [{fixes}]", d.code.as_str(), d.severity, in_order(&d.message), d.unused)).or_default() += 1;
            }
            for (d, c) in n {
                out.insert(format!("{}:diag {d}", fr.label), c.to_string());
            }
        }
        if want.hints {
            for h in a.inlay_hints(&HINTS, f, None).unwrap() {
                let e = out.entry(format!("{}:hint {:?} {:?} {}", fr.label, h.kind, h.position, span(&fr.pos, h.range))).or_default();
                e.push_str(&format!("[{}]", h.label));
            }
        }
        if want.colours {
            let mut hs: Vec<((u32, u32), String)> = a.highlight(f).unwrap().iter().map(|h| (at(h.range), format!("{:?}", h.highlight.tag))).collect();
            hs.sort();
            for (i, st) in &starts {
                let en = st + kinds[i].1.len() as u32;
                let mine: Vec<&str> = hs.iter().filter(|h| h.0.0 <= *st && h.0.1 >= en).map(|h| h.1.as_str()).collect();
                if !mine.is_empty() {
                    out.insert(k("colour", *i), mine.join(","));
                }
            }
        }
        if want.outline {
            let nodes = a.file_structure(f).unwrap();
            for n in &nodes {
                let parent = n.parent.map(|p| span(&fr.pos, nodes[p].navigation_range)).unwrap_or_default();
                out.insert(format!("{}:outline {} {:?} {}", fr.label, n.label, n.kind, span(&fr.pos, n.navigation_range)), format!("in {parent}, whole {}", span(&fr.pos, n.node_range)));
            }
        }
        if want.lenses {
            let cfg = AnnotationConfig { annotate_runnables: true, annotate_fun_specs: true, location: AnnotationLocation::AboveName };
            for x in a.annotations(&cfg, f).unwrap() {
                let x = a.resolve_annotation(x).unwrap();
                let what = match x.kind {
                    AnnotationKind::Runnable(r) => format!("{} / {}", r.label(), without_ids(&format!("{:?}", r.kind))),
                    AnnotationKind::HasSpecs { item_spec_refs, .. } => {
                        let mut v: Vec<String> = item_spec_refs.unwrap_or_default().iter().map(|n| place(n.file_id, n.focus_or_full_range())).collect();
                        v.sort();
                        format!("specs {}", v.join(" "))
                    }
                };
                out.insert(format!("{}:lens {}", fr.label, span(&fr.pos, x.range)), what);
            }
            for (i, s) in &starts {
                // inside of the name: what touches it is not asked about
                if kinds[i].0 == SyntaxKind::IDENT && kinds[i].1.len() > 1 {
                    if let Some(r) = a.goto_specification(FilePosition { file_id: f, offset: TextSize::new(*s + 1) }).unwrap() {
                        let mut v: Vec<String> = r.info.iter().map(|n| place(n.file_id, n.focus_or_full_range())).collect();
                        v.sort();
                        out.insert(k("spec", *i), v.join(" "));
                    }
                }
            }
        }
    }
    out
}

/// The elements a message lists come in the order files are gone through.
fn in_order(message: &str) -> String {
    let Some((a, b)) = message.split_once("(note: resolves to ") else { return message.to_string() };
    let mut v: Vec<&str> = b.trim_end_matches(')').split(", ").collect();
    v.sort();
    format!("{a}(note: resolves to {})", v.join(", "))
}

/// Packages are numbered anew in each world.
fn without_ids(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("Id(") {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        rest = &rest[rest.find(')').map_or(rest.len(), |x| x + 1)..];
    }
    out + rest
}

/// Code without its blanks and comments.
pub fn squeezed(text: &str) -> String {
    let s = Source::new(text);
    s.pieces.iter().filter(|p| p.solid).map(|p| p.text.as_str()).collect::<Vec<_>>().join(" ")
}

/// The facts as a renaming would have them.
pub fn translated(facts: &Facts, map: &BTreeMap<String, String>) -> Facts {
    facts.iter().map(|(k, v)| (translate(map, k), translate(map, v))).collect()
}

/// The first difference.
pub fn difference(want: &Facts, got: &Facts) -> Option<String> {
    let mut out = vec![];
    for (k, v) in want {
        match got.get(k) {
            None if k.contains(":type of one ") => {}
            None => out.push(format!("lost     {k} = {v}")),
            Some(g) if g != v => out.push(format!("changed  {k}\n  from {v}\n  to   {g}")),
            _ => {}
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) && !k.contains(":type of one ") {
            out.push(format!("new      {k} = {v}"));
        }
    }
    if out.is_empty() { None } else { Some(out.into_iter().take(8).collect::<Vec<_>>().join("\n")) }
}
