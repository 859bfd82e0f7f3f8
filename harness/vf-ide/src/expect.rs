//! Worked examples: a source, a question about it, the answer the language (or the feature's
//! documentation) prescribes. Packed from the repository's example suite by tools/mkexpect.py.
use crate::world::*;
use ide::inlay_hints::{InlayFieldsToResolve, InlayHintsConfig};
use ide::{Analysis, Assist, AssistResolveStrategy, NavigationTarget};
use ide_completion::config::CompletionConfig;
use ide_completion::item::CompletionItem;
use ide_db::AllowSnippets;
use ide_db::symbol_index::Query;
use ide_diagnostics::config::DiagnosticsConfig;
use ide_diagnostics::diagnostic::Diagnostic;
use std::sync::OnceLock;
use syntax::files::FilePosition;
use syntax::{AstNode, SyntaxKind, TextRange, TextSize};
use vf::json::J;
use vfs::FileId;

#[derive(Clone, Debug)]
pub struct Example {
    pub kind: String,
    pub name: String,
    pub args: Vec<String>,
}

pub fn examples() -> &'static [Example] {
    static S: OnceLock<Vec<Example>> = OnceLock::new();
    S.get_or_init(|| {
        let p = vf::verif_dir().join("corpus/expect.jsonl");
        let t = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("/harness/ {}: {e}", p.display()));
        t.lines()
            .map(|l| {
                let j = J::parse(l).expect("/harness/ expect.jsonl");
                let Some(J::Arr(a)) = j.get("args") else { panic!("/harness/ args") };
                Example {
                    kind: j.get("kind").unwrap().str().unwrap().to_string(),
                    name: j.get("name").unwrap().str().unwrap().to_string(),
                    args: a.iter().map(|x| x.str().unwrap().to_string()).collect(),
                }
            })
            .collect()
    })
}

pub fn of_kind(kinds: &[&str]) -> Vec<&'static Example> {
    examples().iter().filter(|e| kinds.contains(&e.kind.as_str())).collect()
}

pub struct Mark {
    pub item: u32,
    pub line: usize,
    pub data: String,
}

/// `//^ data` marks: they point at the character two columns on, one line above.
pub fn marks(source: &str, mark: &str) -> Vec<Mark> {
    let mut out = vec![];
    let starts: Vec<usize> = std::iter::once(0).chain(source.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1)).collect();
    for (at, _) in source.match_indices(mark) {
        let line = starts.partition_point(|s| *s <= at) - 1;
        let col = at - starts[line] + 2;
        let eol = source[at..].find('\n').map(|n| at + n).unwrap_or(source.len());
        let data = source[at..eol].trim_start_matches(mark).trim().to_string();
        if line > 0 {
            out.push(Mark { item: (starts[line - 1] + col) as u32, line, data });
        }
    }
    out
}

pub fn without_marks(source: &str, mark: &str) -> String {
    let lines: Vec<usize> = marks(source, mark).iter().map(|m| m.line).collect();
    source.lines().enumerate().filter(|(i, _)| !lines.contains(i)).map(|x| x.1).collect::<Vec<_>>().join("\n")
}

pub fn trim_indent(t: &str) -> String {
    let t = t.strip_prefix('\n').unwrap_or(t);
    let ind = t.lines().filter(|l| !l.trim().is_empty()).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
    t.split_inclusive('\n').map(|l| if l.len() <= ind { l.trim_start_matches(' ') } else { &l[ind..] }).collect()
}

/// The text with `//^^^ message` lines under the ranges, as the examples write them.
pub fn with_marks(source: &str, mut ranges: Vec<(TextRange, String)>) -> String {
    ranges.sort_by_key(|r| r.0.start());
    let m = ranges.into_iter().map(|(r, s)| syntax::pretty_print::SourceMark::at_range(r, s)).collect();
    syntax::pretty_print::apply_source_marks(source, m)
}

pub fn ident_at(a: &Analysis, f: FileId, at: u32) -> Result<TextRange, String> {
    let file = a.parse(f).unwrap();
    file.syntax()
        .token_at_offset(TextSize::new(at))
        .find(|t| matches!(t.kind(), SyntaxKind::IDENT | SyntaxKind::QUOTE_IDENT))
        .map(|t| t.text_range())
        .ok_or_else(|| format!("/harness/ no identifier at mark {at}"))
}

pub fn same(what: &str, want: &str, got: &str) -> Result<(), String> {
    if want == got { Ok(()) } else { Err(format!("{what}\n--- expected\n{want}\n--- got\n{got}\n---")) }
}

pub const HINTS: InlayHintsConfig = InlayHintsConfig {
    render_colons: false,
    type_hints: true,
    tuple_type_hints: true,
    parameter_hints: true,
    range_exclusive_hints: true,
    hide_closure_parameter_hints: false,
    fields_to_resolve: InlayFieldsToResolve::empty(),
};

pub fn diagnostics(a: &Analysis, f: FileId) -> Vec<Diagnostic> {
    let r = a.full_file_range(f).unwrap();
    a.semantic_diagnostics(&DiagnosticsConfig::test_sample(), AssistResolveStrategy::All, r).unwrap()
}

pub fn rendered(src: &str, ds: &[Diagnostic]) -> String {
    with_marks(src, ds.iter().map(|d| (d.range.range, format!("{} {}", d.severity.to_test_ident(), d.message))).collect())
}

pub fn apply_fix(fix: &Assist, src: &str) -> String {
    let mut s = src.to_string();
    for e in fix.source_change.as_ref().unwrap().source_file_edits.values() {
        e.apply(&mut s);
    }
    s
}

fn carets(src: &str) -> (String, u32) {
    let at = src.find("/*caret*/").expect("/harness/ no caret");
    (src.replace("/*caret*/", ""), at as u32)
}

pub fn completion_config(imports: bool) -> CompletionConfig {
    CompletionConfig { allow_snippets: AllowSnippets::new(true), enable_imports_on_the_fly: imports }
}

fn completions(src: &str, at: u32, cfg: &CompletionConfig) -> (World, Vec<CompletionItem>) {
    let w = World::single(src);
    let a = w.analysis();
    let f = w.main();
    let file = a.parse(f).unwrap();
    let mut items = a.completions(cfg, FilePosition { file_id: f, offset: at.into() }, None).unwrap().unwrap_or_default();
    if let Some(t) = file.syntax().token_at_offset(at.into()).left_biased() {
        let word = t.kind().is_keyword() || t.kind() == SyntaxKind::IDENT;
        let start: u32 = t.text_range().start().into();
        let prefix = if word { t.text()[..(at - start) as usize].to_string() } else { String::new() };
        items.retain(|i| i.lookup().split(' ').any(|x| x.starts_with(&prefix)));
    }
    (w, items)
}

fn labels(items: &[CompletionItem]) -> Vec<String> {
    items
        .iter()
        .map(|i| match &i.detail {
            Some(d) => format!("{} -> {d}", i.label.primary),
            None => i.label.primary.clone(),
        })
        .collect()
}

fn single_completion(src: &str, want: &str, imports: bool) -> Result<(), String> {
    let before = trim_indent(src).trim().to_string();
    let (text, at) = carets(&before);
    let cfg = completion_config(imports);
    let (w, mut items) = completions(&text, at, &cfg);
    if items.len() != 1 {
        return Err(format!("{} completions: {:?}", items.len(), labels(&items)));
    }
    let item = items.pop().unwrap();
    let mut res = text.clone();
    item.text_edit.apply(&mut res);
    if let Some((path, scope)) = item.import_to_add {
        let pos = FilePosition { file_id: w.main(), offset: at.into() };
        for e in w.analysis().resolve_completion_edits(&cfg, pos, path, scope).unwrap() {
            e.apply(&mut res);
        }
    }
    let mut res = res.replace("$0", "/*caret*/");
    res.push('\n');
    same("completed text", want, &res)
}

fn targets(a: &Analysis, f: FileId, src: &str, navs: &[NavigationTarget]) -> Result<(), String> {
    let mut rest: Vec<&NavigationTarget> = navs.iter().collect();
    for m in marks(src, "//X") {
        let r = ident_at(a, f, m.item)?;
        match rest.iter().position(|n| n.focus_or_full_range().contains_range(r)) {
            Some(i) => {
                rest.remove(i);
            }
            None => return Err(format!("does not resolve to {:?} (at {r:?}); it resolves to {:?}", &src[r], navs.iter().map(|n| n.focus_range).collect::<Vec<_>>())),
        }
    }
    Ok(())
}

/// Judge one example.
pub fn judge(e: &Example) -> Result<(), String> {
    let arg = |i: usize| e.args[i].as_str();
    match e.kind.as_str() {
        "resolve" => {
            let src = arg(0);
            let m = marks(src, "//^").pop().ok_or("/harness/ no mark")?;
            let w = World::single(src);
            let (a, f) = (w.analysis(), w.main());
            let got = a.goto_definition_multi(FilePosition { file_id: f, offset: m.item.into() }).unwrap().map(|r| r.info);
            let Some(mut navs) = got else {
                return if m.data == "no reference" { Ok(()) } else { Err("no reference where one is expected".into()) };
            };
            navs.retain(|n| n.focus_range.is_some_and(|r| !r.contains(m.item.into())));
            match (navs.is_empty(), m.data == "unresolved") {
                (true, true) => Ok(()),
                (true, false) => Err("unresolved".into()),
                (false, true) => Err(format!("should be unresolved, resolves to {:?}", navs.iter().map(|n| (&n.name, n.focus_range)).collect::<Vec<_>>())),
                (false, false) => targets(&a, f, src, &navs),
            }
        }
        "gotospec" => {
            let src = arg(0);
            let m = marks(src, "//^").pop().ok_or("/harness/ no mark")?;
            let w = World::single(src);
            let (a, f) = (w.analysis(), w.main());
            let navs = a.goto_specification(FilePosition { file_id: f, offset: m.item.into() }).unwrap().ok_or("no specifications")?.info;
            targets(&a, f, src, &navs)
        }
        "exprtype" | "callexprtype" => {
            let src = arg(0);
            let m = marks(src, "//^").pop().ok_or("/harness/ no mark")?;
            let w = World::single(src);
            let pos = FilePosition { file_id: w.main(), offset: m.item.into() };
            let a = w.analysis();
            let got = if e.kind == "exprtype" { a.expr_type_info(pos) } else { a.call_expr_type_info(pos) };
            same("type", &m.data, &got.unwrap().ok_or("no type")?)
        }
        "diag" | "diagfix" | "importfix" | "nofix" => {
            let src = without_marks(&trim_indent(arg(0)), "//^");
            let w = World::single(&src);
            let ds = diagnostics(&w.analysis(), w.main());
            same("diagnostics", arg(0), &trim_indent(&rendered(&src, &ds)))?;
            if e.kind == "diag" {
                return Ok(());
            }
            let import = e.kind != "diagfix";
            let mut fixes: Vec<Assist> = ds.into_iter().filter_map(|d| d.fixes).flatten().filter(|f| !import || f.id.0 == "add-import").collect();
            if e.kind == "nofix" {
                return if fixes.is_empty() { Ok(()) } else { Err("an import is offered".into()) };
            }
            if fixes.len() != 1 {
                return Err(format!("{} fixes offered", fixes.len()));
            }
            let mut after = apply_fix(&fixes.pop().unwrap(), &src);
            after.push('\n');
            same("fixed text", arg(1), &after)
        }
        "completions" | "outcompletions" => {
            let (src, at) = carets(arg(0));
            let (_, mut items) = completions(&src, at, &completion_config(e.kind == "outcompletions"));
            items.sort_by_key(|i| i.relevance.score() ^ 0xFF_FF_FF_FF);
            same("completions", arg(1).trim_end(), &format!("{:#?}", labels(&items)))
        }
        "single" => single_completion(arg(0), arg(1), false),
        "outsingle" => single_completion(arg(0), arg(1), true),
        "nocompletions" => {
            let (src, at) = carets(arg(0));
            let (_, items) = completions(&src, at, &completion_config(false));
            if items.is_empty() { Ok(()) } else { Err(format!("completions offered: {:?}", labels(&items))) }
        }
        "inlay" => {
            let src = without_marks(&trim_indent(arg(0)), "//^");
            let w = World::single(&src);
            let hs = w.analysis().inlay_hints(&HINTS, w.main(), None).unwrap();
            same("inlay hints", arg(0).trim_end(), with_marks(&src, hs.into_iter().map(|h| (h.range, h.label.to_string())).collect()).trim_end())
        }
        "hover" => {
            let src = arg(0);
            let m = marks(src, "//^").pop().ok_or("/harness/ no mark")?;
            let w = World::single(src);
            let h = w.analysis().hover(FilePosition { file_id: w.main(), offset: m.item.into() }).unwrap().ok_or("no hover")?.info;
            same("hover", arg(1), &format!("{}\n", h.doc_string.trim()))
        }
        "usages" => {
            let src = arg(0);
            let m = marks(src, "//^").pop().ok_or("/harness/ no mark")?;
            let w = World::single(src);
            let (a, f) = (w.analysis(), w.main());
            let pos = FilePosition { file_id: f, offset: m.item.into() };
            let mut refs = a.find_all_refs(pos, None).unwrap().ok_or("no declaration")?.references.remove(&f).unwrap_or_default();
            for x in marks(src, "//X") {
                match refs.iter().position(|r| r.contains(x.item.into())) {
                    Some(i) => {
                        refs.remove(i);
                    }
                    None => return Err(format!("the reference at {} is not found", x.item)),
                }
            }
            if refs.is_empty() { Ok(()) } else { Err(format!("extra references {refs:?}")) }
        }
        "rename" => {
            let src = arg(0);
            let m = marks(src, "//^").pop().ok_or("/harness/ no mark")?;
            let w = World::single(src);
            let (a, f) = (w.analysis(), w.main());
            let pos = FilePosition { file_id: f, offset: m.item.into() };
            let want = arg(2);
            match a.rename(pos, arg(1)).unwrap() {
                Ok(c) => {
                    if c.source_file_edits.is_empty() {
                        return Ok(());
                    }
                    let mut s = src.to_string();
                    c.source_file_edits.values().next().unwrap().apply(&mut s);
                    same("renamed", want, &format!("{}\n", s.trim()))
                }
                Err(err) => same("rename error", want.trim(), &format!("// error: {err}")),
            }
        }
        "organize" => {
            let src = trim_indent(arg(0));
            let w = World::single(&src);
            let fix = w.analysis().organize_imports(w.main()).unwrap().ok_or("no assist")?;
            same("organized", arg(1), &trim_indent(&format!("{}\n", apply_fix(&fix, &src).trim_end())))
        }
        "symbols" => {
            let src = arg(0);
            let w = World::single(src);
            let s = w.analysis().symbol_search({
                let (q, n) = arg(1).split_once(':').unwrap();
                Query::new(q, n.parse().ok())
            }).unwrap();
            same("symbols", arg(2), &with_marks(src, s.iter().map(|n| (n.focus_or_full_range(), String::new())).collect()))
        }
        "signature" => {
            let (src, at) = carets(arg(0));
            let w = World::single(&src);
            let h = w.analysis().signature_help(FilePosition { file_id: w.main(), offset: at.into() }).unwrap().ok_or("no signature help")?;
            let mut got = h.signature.clone();
            if let Some(r) = h.active_parameter.and_then(|i| h.parameter_range(i)) {
                got = with_marks(&format!(">>{got}"), vec![(r + TextSize::of(">>"), String::new())]);
            }
            same("signature", arg(1).trim_end_matches('\n'), got.trim_end_matches('\n'))
        }
        "highlight" => {
            let w = World::single(arg(0));
            same("highlighting", arg(1).trim(), w.analysis().highlight_as_html_no_style(w.main()).unwrap().trim())
        }
        "codelens" => codelens(arg(0)),
        k => Err(format!("/harness/ unknown kind {k}")),
    }
}

fn codelens(want: &str) -> Result<(), String> {
    use ide::annotations::{AnnotationConfig, AnnotationKind, AnnotationLocation};
    let src = without_marks(&trim_indent(want), "//^");
    let files: Vec<(String, String)> = vf::corpus::split_files(&src).into_iter().map(|(p, t)| (format!("sources{p}"), t.strip_suffix('\n').unwrap_or(&t).to_string())).collect();
    let pkg = Package { name: "TestPackage".into(), files, ..Default::default() };
    let w = World::packages(&[pkg.clone()]);
    let a = w.analysis();
    let cfg = AnnotationConfig { annotate_runnables: true, annotate_fun_specs: true, location: AnnotationLocation::AboveName };
    let mut files = w.files.clone();
    files.sort();
    let mut out = String::new();
    for (path, id) in files {
        let text = a.file_text(id).unwrap().to_string();
        let marks = a
            .annotations(&cfg, id)
            .unwrap()
            .into_iter()
            .map(|x| a.resolve_annotation(x).unwrap())
            .map(|x| {
                (
                    x.range,
                    match x.kind {
                        AnnotationKind::Runnable(r) => r.label(),
                        AnnotationKind::HasSpecs { .. } => "has specs".to_string(),
                    },
                )
            })
            .collect();
        out.push_str(&format!("//- {}\n{}", path.trim_start_matches("/w/TestPackage/sources"), with_marks(&text, marks)));
    }
    same("code lens", want.trim_end(), out.trim_end())
}
