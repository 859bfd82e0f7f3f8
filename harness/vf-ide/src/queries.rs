//! Ask the analysis everything there is to ask, and check the form of what it answers.
use crate::expect::HINTS;
use ide::Analysis;
use ide::annotations::{AnnotationConfig, AnnotationKind, AnnotationLocation};
use ide_completion::config::CompletionConfig;
use ide_db::assist_config::AssistConfig;
use ide_db::assists::{Assist, AssistResolveStrategy};
use ide_db::source_change::SourceChange;
use ide_db::symbol_index::Query;
use ide_db::text_edit::TextEdit;
use ide_db::AllowSnippets;
use ide_diagnostics::config::DiagnosticsConfig;
use std::collections::HashMap;
use syntax::files::{FilePosition, FileRange};
use syntax::{TextRange, TextSize};
use vf::{Panicked, Rng, guarded};
use vfs::FileId;

/// The texts the analysis was given.
pub struct Texts(pub HashMap<FileId, String>);

/// What the questions turned up.
#[derive(Default)]
pub struct Report {
    pub asked: u64,
    pub answered: u64,
    /// (question, what is wrong with the answer)
    pub bad: Vec<(String, String)>,
    pub panics: Vec<(String, Panicked)>,
}

impl Texts {
    fn range(&self, f: FileId, r: TextRange) -> Result<(), String> {
        let Some(t) = self.0.get(&f) else {
            return Err(format!("range {r:?} in unknown file {f:?}"));
        };
        let (a, b): (usize, usize) = (r.start().into(), r.end().into());
        if b > t.len() || !t.is_char_boundary(a) || !t.is_char_boundary(b) {
            return Err(format!("range {a}..{b} is not a slice of the file ({} bytes)", t.len()));
        }
        Ok(())
    }
    /// The edit applied by hand, or what is wrong with it.
    pub fn edit(&self, f: FileId, e: &TextEdit) -> Result<String, String> {
        let t = self.0.get(&f).ok_or(format!("edit of unknown file {f:?}"))?;
        let mut parts: Vec<(usize, usize, &str)> = e.iter().map(|c| (c.range.start().into(), c.range.end().into(), c.new_text.as_str())).collect();
        parts.sort_by_key(|p| (p.0, p.1));
        let mut out = String::new();
        let mut at = 0;
        for (a, b, new) in parts {
            self.range(f, TextRange::new(TextSize::new(a as u32), TextSize::new(b as u32)))?;
            if a < at {
                return Err(format!("overlapping edits {e:?}"));
            }
            out.push_str(&t[at..a]);
            out.push_str(new);
            at = b;
        }
        out.push_str(&t[at..]);
        Ok(out)
    }
    pub fn change(&self, c: &SourceChange) -> Result<HashMap<FileId, String>, String> {
        c.source_file_edits.iter().map(|(f, e)| Ok((*f, self.edit(*f, e)?))).collect()
    }
    fn assist(&self, f: FileId, a: &Assist) -> Result<(), String> {
        self.range(f, a.target).map_err(|e| format!("target: {e}"))?;
        if let Some(c) = &a.source_change {
            self.change(c).map_err(|e| format!("change: {e}"))?;
        }
        Ok(())
    }
}

pub fn completion_config(imports: bool) -> CompletionConfig {
    CompletionConfig { allow_snippets: AllowSnippets::new(true), enable_imports_on_the_fly: imports }
}

pub const LENSES: AnnotationConfig = AnnotationConfig { annotate_runnables: true, annotate_fun_specs: true, location: AnnotationLocation::AboveName };

impl Report {
    pub fn ask(&mut self, what: &str, f: impl FnOnce() -> Result<bool, String>) {
        self.asked += 1;
        match guarded(f) {
            Ok(Ok(some)) => self.answered += some as u64,
            Ok(Err(e)) => self.bad.push((what.to_string(), e)),
            Err(p) => self.panics.push((what.to_string(), p)),
        }
    }

    /// Questions about a position.
    pub fn at(&mut self, a: &Analysis, t: &Texts, f: FileId, offset: u32) {
        let pos = FilePosition { file_id: f, offset: TextSize::new(offset) };
        self.ask("definition", || {
            let Some(r) = a.goto_definition_multi(pos).unwrap() else { return Ok(false) };
            t.range(f, r.range)?;
            if !r.range.contains_inclusive(pos.offset) {
                return Err(format!("origin {:?} is not at {offset}", r.range));
            }
            for n in &r.info {
                t.range(n.file_id, n.full_range)?;
                if let Some(x) = n.focus_range {
                    t.range(n.file_id, x)?;
                    if !n.full_range.contains_range(x) {
                        return Err(format!("focus {x:?} outside of {:?}", n.full_range));
                    }
                }
            }
            Ok(!r.info.is_empty())
        });
        self.ask("definition (first)", || Ok(a.goto_definition(pos).unwrap().is_some()));
        self.ask("specification", || {
            let Some(r) = a.goto_specification(pos).unwrap() else { return Ok(false) };
            t.range(f, r.range)?;
            for n in &r.info {
                t.range(n.file_id, n.full_range)?;
                t.range(n.file_id, n.focus_or_full_range())?;
            }
            Ok(!r.info.is_empty())
        });
        self.ask("references", || {
            let Some(r) = a.find_all_refs(pos, None).unwrap() else { return Ok(false) };
            for (f, v) in &r.references {
                for x in v {
                    t.range(*f, *x)?;
                }
            }
            Ok(!r.references.is_empty())
        });
        self.ask("hover", || {
            let Some(r) = a.hover(pos).unwrap() else { return Ok(false) };
            t.range(f, r.range)?;
            Ok(!r.info.doc_string.is_empty())
        });
        self.ask("signature help", || {
            let Some(h) = a.signature_help(pos).unwrap() else { return Ok(false) };
            let mut end = 0usize;
            for (i, r) in h.parameter_ranges().iter().enumerate() {
                let (x, y): (usize, usize) = (r.start().into(), r.end().into());
                if x < end || y > h.signature.len() || h.signature.get(x..y).is_none() {
                    return Err(format!("parameter {i} at {x}..{y} of {:?}", h.signature));
                }
                end = y;
            }
            Ok(true)
        });
        self.ask("type", || Ok(a.expr_type_info(pos).unwrap().is_some()));
        self.ask("callable type", || Ok(a.call_expr_type_info(pos).unwrap().is_some()));
        self.ask("occurrences", || {
            let Some(v) = a.highlight_related(pos).unwrap() else { return Ok(false) };
            for x in &v {
                t.range(f, *x)?;
            }
            Ok(!v.is_empty())
        });
        for imports in [false, true] {
            self.ask(if imports { "completion with imports" } else { "completion" }, || {
                let cfg = completion_config(imports);
                let Some(v) = a.completions(&cfg, pos, None).unwrap() else { return Ok(false) };
                for c in &v {
                    t.range(f, c.source_range)?;
                    if !c.source_range.contains_inclusive(pos.offset) {
                        return Err(format!("{:?} replaces {:?}, not at {offset}", c.label.primary, c.source_range));
                    }
                    t.edit(f, &c.text_edit)?;
                    if let Some((path, scope)) = &c.import_to_add {
                        for e in a.resolve_completion_edits(&cfg, pos, path.clone(), *scope).unwrap() {
                            t.edit(f, &e)?;
                        }
                    }
                }
                Ok(!v.is_empty())
            });
        }
        self.ask("prepare rename", || match a.prepare_rename(pos).unwrap() {
            Ok(r) => t.range(f, r.range).map(|_| true),
            Err(_) => Ok(false),
        });
        for new in ["fresh_name", "Fresh", "_", "let", "1x", ""] {
            self.ask("rename", || match a.rename(pos, new).unwrap() {
                Ok(c) => t.change(&c).map(|m| !m.is_empty()),
                Err(_) => Ok(false),
            });
        }
        self.ask("selection", || {
            let mut r = TextRange::empty(pos.offset);
            for _ in 0..100_000 {
                let next = a.extend_selection(FileRange { file_id: f, range: r }).unwrap();
                t.range(f, next)?;
                if !next.contains_range(r) {
                    return Err(format!("{r:?} extends to {next:?}"));
                }
                if next == r {
                    return Ok(true);
                }
                r = next;
            }
            Err("never stops extending".into())
        });
    }

    /// Questions about a range.
    pub fn over(&mut self, a: &Analysis, t: &Texts, f: FileId, r: TextRange) {
        let fr = FileRange { file_id: f, range: r };
        self.ask("assists", || {
            let v = a
                .assists_with_fixes(&AssistConfig { allowed: None }, &DiagnosticsConfig::test_sample(), AssistResolveStrategy::All, fr)
                .unwrap();
            for x in &v {
                t.assist(f, x).map_err(|e| format!("{}: {e}", x.id.0))?;
            }
            Ok(!v.is_empty())
        });
        self.ask("diagnostics of a range", || {
            let v = a.semantic_diagnostics(&DiagnosticsConfig::test_sample(), AssistResolveStrategy::None, fr).unwrap();
            for d in &v {
                t.range(d.range.file_id, d.range.range)?;
            }
            Ok(!v.is_empty())
        });
        self.ask("colours of a range", || {
            let v = a.highlight_range(fr).unwrap();
            for h in &v {
                t.range(f, h.range)?;
            }
            Ok(!v.is_empty())
        });
        self.ask("hints of a range", || {
            let v = a.inlay_hints(&HINTS, f, Some(r)).unwrap();
            for h in &v {
                t.range(f, h.range)?;
            }
            Ok(!v.is_empty())
        });
        self.ask("selection of a range", || {
            let next = a.extend_selection(fr).unwrap();
            t.range(f, next)?;
            if next.contains_range(r) { Ok(true) } else { Err(format!("{r:?} extends to {next:?}")) }
        });
    }

    /// Questions about a file.
    pub fn file(&mut self, a: &Analysis, t: &Texts, f: FileId) {
        self.ask("diagnostics", || {
            let v = a.full_diagnostics(&DiagnosticsConfig::test_sample(), AssistResolveStrategy::All, f).unwrap();
            for d in &v {
                t.range(d.range.file_id, d.range.range).map_err(|e| format!("{} {:?}: {e}", d.code.as_str(), d.message))?;
                for x in d.fixes.iter().flatten() {
                    t.assist(f, x).map_err(|e| format!("{}: {e}", x.id.0))?;
                }
            }
            Ok(!v.is_empty())
        });
        self.ask("hints", || {
            let v = a.inlay_hints(&HINTS, f, None).unwrap();
            for h in &v {
                t.range(f, h.range)?;
            }
            Ok(!v.is_empty())
        });
        self.ask("colours", || {
            let v = a.highlight(f).unwrap();
            let mut end = TextSize::new(0);
            for h in &v {
                t.range(f, h.range)?;
                if h.range.start() < end || h.range.is_empty() {
                    return Err(format!("highlight {:?} out of order (previous ended at {end:?})", h.range));
                }
                end = h.range.end();
            }
            Ok(!v.is_empty())
        });
        self.ask("colours as html", || Ok(!a.highlight_as_html_no_style(f).unwrap().is_empty()));
        self.ask("outline", || {
            let v = a.file_structure(f).unwrap();
            for (i, n) in v.iter().enumerate() {
                t.range(f, n.node_range)?;
                t.range(f, n.navigation_range)?;
                if !n.node_range.contains_range(n.navigation_range) {
                    return Err(format!("{}: name at {:?} outside of {:?}", n.label, n.navigation_range, n.node_range));
                }
                if let Some(p) = n.parent {
                    if p >= i || !v[p].node_range.contains_range(n.node_range) {
                        return Err(format!("{} is not inside of its parent", n.label));
                    }
                }
            }
            Ok(!v.is_empty())
        });
        self.ask("lenses", || {
            let v = a.annotations(&LENSES, f).unwrap();
            for x in &v {
                t.range(f, x.range)?;
            }
            let n = v.len();
            for x in v {
                let x = a.resolve_annotation(x).unwrap();
                if let AnnotationKind::HasSpecs { item_spec_refs: Some(r), .. } = x.kind {
                    for n in r {
                        t.range(n.file_id, n.focus_or_full_range())?;
                    }
                }
            }
            Ok(n > 0)
        });
        self.ask("runnables", || {
            let v = a.runnables(f).unwrap();
            for x in &v {
                t.range(x.nav_item.file_id, x.nav_item.full_range)?;
            }
            Ok(!v.is_empty())
        });
        self.ask("organize imports", || {
            let Some(x) = a.organize_imports(f).unwrap() else { return Ok(false) };
            t.assist(f, &x).map(|_| true)
        });
        self.ask("syntax tree", || Ok(!a.view_syntax_tree(f).unwrap().is_empty()));
        for q in ["", "m", "a", "main"] {
            self.ask("symbols", || {
                let v = a.symbol_search(Query::new(q, None)).unwrap();
                for n in &v {
                    t.range(n.file_id, n.full_range)?;
                    t.range(n.file_id, n.focus_or_full_range())?;
                }
                Ok(!v.is_empty())
            });
        }
    }

    /// Everything: the file, every stride-th position, some ranges.
    pub fn all(&mut self, a: &Analysis, t: &Texts, f: FileId, rng: &mut Rng, stride: usize) {
        self.file(a, t, f);
        let text = &t.0[&f];
        let mut at = rng.below(stride.max(1));
        while at <= text.len() {
            if text.is_char_boundary(at) {
                self.at(a, t, f, at as u32);
            }
            at += 1 + rng.below(2 * stride - 1);
        }
        for _ in 0..3 {
            let (mut x, mut y) = (rng.below(text.len() + 1), rng.below(text.len() + 1));
            while !text.is_char_boundary(x) {
                x -= 1;
            }
            while !text.is_char_boundary(y) {
                y -= 1;
            }
            self.over(a, t, f, TextRange::new(TextSize::new(x.min(y) as u32), TextSize::new(x.max(y) as u32)));
        }
    }
}
