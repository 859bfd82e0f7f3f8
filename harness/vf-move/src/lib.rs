//! Rewritings of Move source that keep its meaning, with a map from old tokens to new ones.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syntax::{AstNode, NodeOrToken, Parse, SourceFile, SyntaxKind, SyntaxNode, SyntaxToken, WalkEvent};
use vf::Rng;

pub fn parse(text: &str) -> Parse {
    SourceFile::parse(text)
}

pub fn leaves(root: &SyntaxNode) -> Vec<SyntaxToken> {
    root.descendants_with_tokens().filter_map(|e| e.into_token()).collect()
}

/// The text with the `&&`s of its `include`s cut out, if it has any.
pub fn no_conjoined_includes(text: &str) -> Option<String> {
    let mut out = String::new();
    let (mut in_include, mut cut) = (false, false);
    let ps = vf::corpus::pieces(text);
    let mut i = 0;
    while i < ps.len() {
        match ps[i] {
            "include" => in_include = true,
            "&" if in_include && ps.get(i + 1) == Some(&"&") => {
                out.push(';');
                cut = true;
                i += 2;
                continue;
            }
            _ => {}
        }
        out.push_str(ps[i]);
        i += 1;
    }
    cut.then_some(out)
}

/// The tree without blanks and comments.
pub fn skeleton(root: &SyntaxNode) -> String {
    let mut out = String::new();
    for ev in root.preorder_with_tokens() {
        match ev {
            WalkEvent::Enter(NodeOrToken::Node(n)) => out.push_str(&format!("({:?} ", n.kind())),
            WalkEvent::Leave(NodeOrToken::Node(_)) => out.push(')'),
            WalkEvent::Enter(NodeOrToken::Token(t)) if !t.kind().is_trivia() => {
                out.push_str(&format!("{:?}:{} ", t.kind(), t.text()))
            }
            _ => {}
        }
    }
    out
}

pub fn blank(rng: &mut Rng) -> String {
    const PARTS: &[&str] = &[
        " ", "  ", "\n", "\n\n", "\t", "\n        ", " // note\n", " /* c */ ", "/* { ( */", "/* fun \" */ ", "/* é日 */", "// \"x\n",
        "/* a /* b */ c */", "// }}}\n", "\n// 日本語 /*\n", "/* x */\n/* y */", "/**/", "//\n", "/* ' */", " /* 😀😀 */ ",
    ];
    let n = 1 + rng.below(3);
    (0..n).map(|_| *rng.pick(PARTS)).collect()
}

pub fn closed_string(t: &str) -> bool {
    let mut it = t.chars().skip(2);
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                it.next();
            }
            '"' => return it.next().is_none(),
            _ => {}
        }
    }
    false
}

/// Whether the text's tokens survive being moved apart: none runs to the end of the file, none is
/// a bad character.
pub fn respaceable(text: &str) -> bool {
    if text.contains(['\r', '\u{b}', '\u{c}']) || !text.is_ascii() {
        return false;
    }
    !leaves(&parse(text).syntax_node()).iter().any(|t| {
        matches!(t.kind(), SyntaxKind::BAD_CHARACTER)
            || (matches!(t.kind(), SyntaxKind::BYTE_STRING | SyntaxKind::HEX_STRING) && !closed_string(t.text()))
            || (t.kind() == SyntaxKind::COMMENT && t.text().starts_with("/*") && !t.text().ends_with("*/"))
    })
}

fn is_doc(t: &str) -> bool {
    t.starts_with("///") || t.starts_with("/**") || t.starts_with("//!") || t.starts_with("/*!")
}

/// A text as pieces; `orig` numbers the solid (not blank, not comment) tokens of the first text.
#[derive(Clone, Debug)]
pub struct Piece {
    pub text: String,
    pub kind: SyntaxKind,
    pub orig: Option<usize>,
    /// The token is a NAME's or NAME_REF's (or such) identifier.
    pub solid: bool,
}

#[derive(Clone, Debug)]
pub struct Source {
    pub pieces: Vec<Piece>,
    /// old name -> new name
    pub renamed: BTreeMap<String, String>,
}

impl Source {
    pub fn new(text: &str) -> Source {
        let mut n = 0;
        let pieces = leaves(&parse(text).syntax_node())
            .into_iter()
            .map(|t| {
                let solid = !t.kind().is_trivia();
                let orig = solid.then(|| {
                    n += 1;
                    n - 1
                });
                Piece { text: t.text().to_string(), kind: t.kind(), orig, solid }
            })
            .collect();
        Source { pieces, renamed: BTreeMap::new() }
    }
    pub fn text(&self) -> String {
        self.pieces.iter().map(|p| p.text.as_str()).collect()
    }
    /// start of each first-text token, end of each
    pub fn positions(&self) -> Positions {
        let mut p = Positions::default();
        let mut at = 0u32;
        for x in &self.pieces {
            let end = at + x.text.len() as u32;
            if let Some(o) = x.orig {
                p.start.insert(o, at);
                p.by_start.insert(at, (o, end));
                p.by_end.insert(end, o);
            }
            at = end;
        }
        p
    }

    /// Rewrite every gap of blanks/comments, and open some where two tokens touch and neither can
    /// glue. Documentation and the blank before '<' stay.
    pub fn respace(&mut self, rng: &mut Rng) {
        let mut out: Vec<Piece> = vec![];
        let toks = std::mem::take(&mut self.pieces);
        let gap_piece = |t: String| Piece { text: t, kind: SyntaxKind::WHITESPACE, orig: None, solid: false };
        let mut i = 0;
        while i < toks.len() {
            let mut gap = false;
            let mut doc = String::new();
            while i < toks.len() && !toks[i].solid {
                gap = true;
                if is_doc(&toks[i].text) {
                    doc.push('\n');
                    doc.push_str(&toks[i].text);
                    doc.push('\n');
                }
                i += 1;
            }
            let prev = out.iter().rev().find(|p| p.solid).cloned();
            if gap {
                if doc.is_empty() {
                    let mut b = blank(rng);
                    // a slash right before a comment would open another one
                    if prev.as_ref().is_some_and(|p| p.text.ends_with('/')) {
                        b.insert(0, ' ');
                    }
                    out.push(gap_piece(b));
                } else {
                    out.push(gap_piece(doc));
                }
            } else if let (Some(p), Some(n)) = (&prev, toks.get(i)) {
                let wordy = |t: &Piece| t.text.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_');
                let open = |t: &Piece| wordy(t) || matches!(t.text.as_str(), "(" | ")" | "{" | "}" | "[" | "]" | "," | ";");
                if open(p) && open(n) && !(wordy(p) && wordy(n)) && !n.text.starts_with('<') && rng.chance(1, 3) {
                    out.push(gap_piece(blank(rng)));
                }
            }
            if let Some(n) = toks.get(i) {
                out.push(n.clone());
                i += 1;
            }
        }
        self.pieces = out;
    }

    /// Rename what the text declares, consistently and injectively.
    pub fn rename(&mut self, rng: &mut Rng, builtin: &BTreeSet<String>) {
        let text = self.text();
        let root = parse(&text).syntax_node();
        let mut names = BTreeSet::new();
        let mut all = BTreeSet::new();
        for t in leaves(&root) {
            if t.kind() == SyntaxKind::IDENT {
                all.insert(t.text().to_string());
                if t.parent().is_some_and(|p| p.kind() == SyntaxKind::NAME) {
                    names.insert(t.text().to_string());
                }
            }
        }
        let mut map: HashMap<String, String> = HashMap::new();
        let mut n = rng.below(50);
        let style = rng.below(10);
        for x in &names {
            if builtin.contains(x) || x == "_" {
                continue;
            }
            loop {
                n += 1;
                // longer, shorter, like others of the file but for the end
                let new = match style {
                    0..=5 => format!("{x}_q{n}z"),
                    6 => format!("{x}_q{n}z_and_the_rest_of_a_rather_long_name_for_such_a_thing_{n}"),
                    7 => format!("{}_{n:04}q", &x[..x.len() - x.trim_start_matches('_').len() + x.trim_start_matches('_').chars().next().map_or(0, |c| c.len_utf8())]),
                    8 => format!("{x}__{n}Q"),
                    _ => format!("{x}{n}x"),
                };
                if !all.contains(&new) {
                    map.insert(x.clone(), new);
                    break;
                }
            }
        }
        for p in &mut self.pieces {
            if p.kind == SyntaxKind::IDENT {
                if let Some(new) = map.get(&p.text) {
                    p.text = new.clone();
                }
            } else if p.kind == SyntaxKind::QUOTE_IDENT {
                if let Some(new) = map.get(p.text.trim_start_matches('\'')) {
                    p.text = format!("'{new}");
                }
            }
        }
        for (k, v) in map {
            self.renamed.insert(k, v);
        }
    }

    /// Swap the order of items in the modules, and of top-level definitions.
    pub fn reorder(&mut self, rng: &mut Rng) {
        let text = self.text();
        let root = parse(&text).syntax_node();
        // the token span of each movable child, grouped by parent, deepest lists first
        let toks = leaves(&root);
        let index: HashMap<(u32, SyntaxKind), usize> =
            toks.iter().enumerate().map(|(i, t)| ((t.text_range().start().into(), t.kind()), i)).collect();
        let mut groups: Vec<Vec<(usize, usize)>> = vec![];
        for list in root.descendants() {
            let movable: Vec<SyntaxNode> = if list.kind() == SyntaxKind::SOURCE_FILE {
                list.children().collect()
            } else if list.kind() == SyntaxKind::MODULE && list.children().all(|c| c.kind() != SyntaxKind::ERROR) {
                list.children().filter(|c| syntax::ast::Item::can_cast(c.kind())).collect()
            } else {
                continue;
            };
            let mut spans = vec![];
            for n in movable {
                let (Some(a), Some(b)) = (n.first_token(), n.last_token()) else { continue };
                let (a, b) = (index[&(a.text_range().start().into(), a.kind())], index[&(b.text_range().start().into(), b.kind())]);
                spans.push((a, b + 1));
            }
            if spans.len() > 1 {
                groups.push(spans);
            }
        }
        // inner groups lie within one span of an outer group, so permute outer ones last
        groups.sort_by_key(|g| g[0].0);
        let mut order: Vec<Piece> = std::mem::take(&mut self.pieces);
        assert_eq!(order.len(), toks.len());
        // positions move as lists are permuted; do the innermost first, in place (spans keep place
        // as whole only if lengths agree), so rebuild recursively instead
        fn build(order: &[Piece], lo: usize, hi: usize, groups: &[Vec<(usize, usize)>], rng: &mut Rng, out: &mut Vec<Piece>, skip: Option<usize>) {
            // the outermost group inside lo..hi
            let mut at = lo;
            while at < hi {
                let g = groups
                    .iter()
                    .enumerate()
                    .find(|(gi, g)| skip != Some(*gi) && g[0].0 >= at && g.last().unwrap().1 <= hi && !(skip.is_some_and(|s| groups[s] == **g)));
                match g {
                    None => {
                        out.extend_from_slice(&order[at..hi]);
                        at = hi;
                    }
                    Some((gi, g)) => {
                        out.extend_from_slice(&order[at..g[0].0]);
                        let mut perm: Vec<usize> = (0..g.len()).collect();
                        for i in (1..perm.len()).rev() {
                            let j = rng.below(i + 1);
                            perm.swap(i, j);
                        }
                        for (k, slot) in perm.iter().enumerate() {
                            let (a, b) = g[*slot];
                            build(order, a, b, groups, rng, out, Some(gi));
                            // the gap that followed the k-th place stays there
                            if k + 1 < g.len() {
                                out.extend_from_slice(&order[g[k].1..g[k + 1].0]);
                            }
                        }
                        at = g.last().unwrap().1;
                    }
                }
            }
        }
        let mut out = vec![];
        let hi = order.len();
        build(&order, 0, hi, &groups, rng, &mut out, None);
        order = out;
        // a line comment that ended up before code on its line must not swallow it
        let mut fixed: Vec<Piece> = vec![];
        for p in order {
            if let Some(l) = fixed.last() {
                if l.kind == SyntaxKind::COMMENT && l.text.starts_with("//") && !p.text.starts_with('\n') {
                    fixed.push(Piece { text: "\n".into(), kind: SyntaxKind::WHITESPACE, orig: None, solid: false });
                }
                let l = fixed.last().unwrap();
                let word = |c: Option<char>| c.is_some_and(|c| c.is_ascii_alphanumeric() || c == '_');
                if l.solid && p.solid && word(l.text.chars().last()) && word(p.text.chars().next()) {
                    fixed.push(Piece { text: " ".into(), kind: SyntaxKind::WHITESPACE, orig: None, solid: false });
                }
            }
            fixed.push(p);
        }
        self.pieces = fixed;
    }

    /// Put unrelated modules before and after.
    pub fn surround(&mut self, before: &str, after: &str) {
        let raw = |t: &str| Piece { text: t.to_string(), kind: SyntaxKind::WHITESPACE, orig: None, solid: false };
        self.pieces.insert(0, raw(before));
        self.pieces.push(raw(after));
    }

    /// `text` as the renaming would have it.
    pub fn translate(&self, text: &str) -> String {
        translate(&self.renamed, text)
    }
}

/// Replace whole words.
pub fn translate(map: &BTreeMap<String, String>, text: &str) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut word = String::new();
    let flush = |word: &mut String, out: &mut String| {
        if let Some(n) = map.get(word.as_str()) {
            out.push_str(n);
        } else if let Some(n) = word.strip_prefix('_').and_then(|w| map.get(w)) {
            out.push('_');
            out.push_str(n);
        } else {
            out.push_str(word);
        }
        word.clear();
    };
    for c in text.chars() {
        if c.is_ascii_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            flush(&mut word, &mut out);
            out.push(c);
        }
    }
    flush(&mut word, &mut out);
    out
}

#[derive(Default, Clone, Debug)]
pub struct Positions {
    pub start: BTreeMap<usize, u32>,
    /// start -> (token, its end), and end -> token
    pub by_start: BTreeMap<u32, (usize, u32)>,
    pub by_end: BTreeMap<u32, usize>,
}

impl Positions {
    /// A start as the token it is at: `t3`, `t3+2` within a token; in a gap, the token after it.
    pub fn name_start(&self, at: u32) -> String {
        if let Some((s, (i, e))) = self.by_start.range(..=at).next_back() {
            if at < *e {
                return if *s == at { format!("t{i}") } else { format!("t{i}+{}", at - s) };
            }
        }
        match self.by_start.range(at..).next() {
            Some((_, (i, _))) => format!("t{i}"),
            None => "end".to_string(),
        }
    }
    /// An end as the token it closes: `t3$`; in a gap, the token before it.
    pub fn name_end(&self, at: u32) -> String {
        if let Some((s, (i, e))) = self.by_start.range(..at).next_back() {
            return if at < *e { format!("t{i}+{}", at - s) } else { format!("t{i}$") };
        }
        "begin".to_string()
    }
}

/// Names that mean something to the language or the analysis: never renamed.
pub fn reserved(builtins: &str) -> BTreeSet<String> {
    let mut s: BTreeSet<String> = leaves(&parse(builtins).syntax_node()).iter().map(|t| t.text().to_string()).collect();
    for w in "vector option string signer object table std aptos_std aptos_framework aptos_token u8 u16 u32 u64 u128 u256 i8 i16 i32 \
              i64 i128 i256 bool address num range bv has invariant spec result global local old self Self to except internal \
              where update schema include apply pragma assume assert requires ensures aborts_if aborts_with modifies emits axiom \
              decreases exists forall choose min with in for is match enum proof lemma split post pre on_abort test test_only \
              expected_failure abort_code location view resource_group resource_group_member event persistent randomness lint skip \
              main borrow borrow_mut length push_back fields key store drop copy friend package public entry native inline acquires \
              phantom move mut while loop if else return abort break continue let as use module script struct const fun true false \
              result_1 result_2 result_3 fixed_point32 error vector_utils contains spec_fun Option String error_code deprecated \
              requires_of aborts_of ensures_of result_of state_label sender TRACE update_field intrinsic opaque verify"
        .split_whitespace()
    {
        s.insert(w.to_string());
    }
    s
}
