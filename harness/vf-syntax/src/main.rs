mod reflex;
use reflex::Class;
use std::collections::BTreeMap;
use syntax::{AstNode, NodeOrToken, Parse, SourceFile, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize, WalkEvent};
use vf::corpus::{self, any_text, mutate};
use vf_move::{blank, closed_string, skeleton};
use vf::{Check, Ctx, Rng, guarded, hash_of};

fn parse(text: &str) -> Parse {
    SourceFile::parse(text)
}

fn leaves(root: &SyntaxNode) -> Vec<SyntaxToken> {
    root.descendants_with_tokens().filter_map(|e| e.into_token()).collect()
}

fn class_of(kind: SyntaxKind, text: &str) -> Class {
    use SyntaxKind::*;
    match kind {
        WHITESPACE => Class::Blank,
        COMMENT => Class::Comment,
        INT_NUMBER => Class::Number,
        QUOTE_IDENT => Class::QuoteIdent,
        BYTE_STRING => Class::ByteStr,
        HEX_STRING => Class::HexStr,
        BAD_CHARACTER => Class::Bad,
        _ if text.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') => Class::Word,
        _ => Class::Punct,
    }
}

/// Report a failing text, shrunk first.
fn refute(ctx: &Ctx, what: &str, text: &str, f: &dyn Fn(&str) -> Result<(), String>) {
    let fails = |t: &str| match guarded(|| f(t)) {
        Ok(Ok(())) => false,
        _ => true,
    };
    let small = vf::shrink(text, fails);
    let why = match guarded(|| f(&small)) {
        Ok(Err(e)) => e,
        Err(p) => format!("panic: {} at {}", p.message, p.location),
        Ok(Ok(())) => "not reproduced after shrinking".to_string(),
    };
    ctx.violation(&format!("{what} {:?}", small.chars().take(160).collect::<String>()), format!("{why}\nshrunk input: {small:?}\noriginal:\n{text}"));
}

/// Judge one text with an oracle, reporting refutations and panics.
fn judge(ctx: &Ctx, what: &str, text: &str, f: &dyn Fn(&str) -> Result<(), String>) -> bool {
    ctx.open(what, text);
    let r = guarded(|| f(text));
    ctx.close();
    match r {
        Ok(Ok(())) => true,
        _ => {
            refute(ctx, what, text, f);
            false
        }
    }
}

// ---------------------------------------------------------------- C04 tokens

fn tokens_match(text: &str) -> Result<(), String> {
    let want = reflex::lex(text);
    let tree = match guarded(|| parse(text).syntax_node()) {
        Ok(t) => t,
        // a text the parser (not the tokeniser) gives up on is C06's business
        Err(p) if !p.location.contains("lexer") => return Ok(()),
        Err(p) => return Err(format!("the tokeniser panicked: {}", p.message)),
    };
    let mut i = 0; // next reference token
    let mut pos = 0usize;
    for t in leaves(&tree) {
        let got_end = pos + t.text().len();
        if i >= want.len() {
            return Err(format!("extra token {:?} {:?} at {pos}", t.kind(), t.text()));
        }
        let class = class_of(t.kind(), t.text());
        let first = want[i];
        let mut end = pos;
        let mut n = 0;
        while end < got_end && i < want.len() {
            end += want[i].1;
            i += 1;
            n += 1;
        }
        if end != got_end {
            return Err(format!(
                "token {:?} {:?} at {pos}..{got_end} does not end where a lexical token ends (reference: {first:?} at {pos})",
                t.kind(),
                t.text()
            ));
        }
        if n > 1 {
            const GLUED: &[&str] = &["&&", "<<", "<=", ">=", ">>", "||", "<<=", ">>=", "<==>"];
            // `*f`, `f*`, `*f*`: a name pattern, which the grammar glues together itself
            let name_pattern = t.kind() == SyntaxKind::WILDCARD_IDENT
                && t.text().chars().all(|c| c == '*' || c == '_' || c.is_ascii_alphanumeric());
            if !GLUED.contains(&t.text()) && !name_pattern {
                return Err(format!("{n} lexical tokens glued into {:?} {:?}", t.kind(), t.text()));
            }
        } else if first.0 != class {
            return Err(format!("token {:?} {:?} at {pos}: reference class {:?}", t.kind(), t.text(), first.0));
        }
        pos = got_end;
    }
    if pos != text.len() {
        return Err(format!("tokens cover {pos} of {} bytes", text.len()));
    }
    Ok(())
}

/// Characters that join the previous one in a grapheme, and carriage returns, are left out: how
/// they split is not a lexical rule of Move.
fn no_joiners(t: &str) -> String {
    t.chars()
        .filter(|c| {
            c.is_ascii() && *c != '\r'
                || matches!(c, 'é' | 'ß' | '日' | '本' | '\u{2028}' | '\u{85}' | '😀' | '\u{800}' | '\u{fffd}' | 'я' | 'Ω')
        })
        .collect()
}

fn lexical_noise(rng: &mut Rng) -> String {
    const P: &[&str] = &[
        "/*", "*/", "//", "/**/", "/***/", "/*/", "é", "日", "😀", "x\"", "b\"", "\"", "\\", "\\\"", "ab", "0x", "0xfF_1", "12_3",
        "u8", "i8", "u16", "u128", "i256", "u64", "u25", "'", "'a", "'_b1", "_", "a1_", "=", "==", "==>", "=>", "<", ">", "!",
        "&", "&&", "|", "||", "+", "-", "*", "/", "%", "^", ":", "::", ".", "..", "...", ";", ",", "(", ")", "{", "}", "[", "]",
        "#", "@", "$", "?", "~", "`", "\n", " ", "\t", "  ", "\0", "\u{2028}", "я", "fun", "module", "spec", "let", "9", "0", "b", "x",
    ];
    let n = rng.range(1, 24);
    (0..n).map(|_| *rng.pick(P)).collect()
}

fn c04(ctx: &Ctx) {
    let one = |t: &str| {
        let ok = judge(ctx, "tokens", t, &tokens_match);
        ctx.eval(hash_of(t), t.len() > 1);
        ok
    };
    ctx.par("corpus", corpus::single().len(), |_, i| {
        let t = no_joiners(&corpus::single()[i].text);
        one(&t);
        ctx.count("tokens_compared", reflex::lex(&t).len() as u64);
    });
    ctx.par("noise", ctx.size(150_000, 6_000_000), |rng, _| {
        let t = lexical_noise(rng);
        ctx.sample(|| format!("{t:?}"));
        one(&t);
        let l = reflex::lex(&t);
        ctx.count("tokens_compared", l.len() as u64);
        ctx.count("block_comments", l.iter().filter(|x| x.0 == Class::Comment).count() as u64);
    });
    ctx.par("mutants", ctx.size(20_000, 600_000), |rng, _| {
        let t = no_joiners(&any_text(rng));
        one(&t);
        ctx.count("tokens_compared", reflex::lex(&t).len() as u64);
    });
    // every two-character text over the printable ASCII set
    ctx.par("pairs", 97 * 97, |_, k| {
        let c = |n: usize| if n < 95 { (0x20 + n as u8) as char } else if n == 95 { '\n' } else { '\t' };
        one(&format!("{}{}", c(k / 97), c(k % 97)));
        one(&format!("a{}{}1", c(k / 97), c(k % 97)));
    });
    ctx.require("tokens_compared", 500_000);
    ctx.require("block_comments", 20_000);
}

// ------------------------------------------------------- C05 lossless trees

fn tree_is_sound(text: &str) -> Result<(), String> {
    let p = match guarded(|| parse(text)) {
        Ok(p) => p,
        Err(p) if p.location.contains("/parse/") => return Ok(()), // C06's business
        Err(p) => return Err(format!("panic: {} at {}", p.message, p.location)),
    };
    let root = p.syntax_node();
    if root.kind() != SyntaxKind::SOURCE_FILE {
        return Err(format!("the root is {:?}", root.kind()));
    }
    if root.text().to_string() != text {
        return Err("the tree's text is not the input".to_string());
    }
    let cat: String = leaves(&root).iter().map(|t| t.text().to_string()).collect();
    if cat != text {
        return Err("the tokens' texts do not concatenate to the input".to_string());
    }
    if usize::from(root.text_range().end()) != text.len() {
        return Err("the root's range is not the whole text".to_string());
    }
    // ranges nest and tile
    for node in root.descendants() {
        let r = node.text_range();
        let mut at = r.start();
        for c in node.children_with_tokens() {
            let cr = c.text_range();
            if cr.start() != at {
                return Err(format!("a child of {:?} starts at {:?}, not {at:?}", node.kind(), cr.start()));
            }
            at = cr.end();
            if let NodeOrToken::Token(t) = &c {
                let (s, e) = (usize::from(cr.start()), usize::from(cr.end()));
                if s == e || text.get(s..e) != Some(t.text()) {
                    return Err(format!("token {:?} at {s}..{e} is not that slice of the text", t.kind()));
                }
            }
        }
        if at != r.end() && node.first_child_or_token().is_some() {
            return Err(format!("the children of {:?} end at {at:?}, not {:?}", node.kind(), r.end()));
        }
    }
    let errors = p.errors();
    for e in &errors {
        let (s, n) = (usize::from(e.range().start()), usize::from(e.range().end()));
        if s > n || n > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(n) {
            return Err(format!("error {e} has range {s}..{n} in a text of {} bytes", text.len()));
        }
    }
    // what is not understood is reported
    if errors.is_empty() {
        if let Some(n) = root.descendants_with_tokens().find(|e| matches!(e.kind(), SyntaxKind::ERROR | SyntaxKind::BAD_CHARACTER)) {
            return Err(format!("no error reported, but the tree holds {:?} at {:?}", n.kind(), n.text_range()));
        }
    }
    // the same text gives the same tree and errors
    let q = parse(text);
    if q != p || q.errors() != errors {
        return Err("parsing twice gave different results".to_string());
    }
    // pointers into the tree find their node again in a fresh tree
    let fresh = q.syntax_node();
    for node in root.descendants().filter(|n| !n.text_range().is_empty()) {
        let ptr = syntax::SyntaxNodePtr::new(&node);
        let back = ptr.to_node(&fresh);
        if back.kind() != node.kind() || back.text_range() != node.text_range() {
            return Err("a node pointer resolved to another node".to_string());
        }
    }
    Ok(())
}

fn c05(ctx: &Ctx) {
    let one = |t: &str| {
        judge(ctx, "tree", t, &tree_is_sound);
        let Ok(p) = guarded(|| parse(t)) else { return };
        let errs = p.errors().len();
        ctx.eval(hash_of(t), t.len() > 3);
        ctx.count(if errs == 0 { "clean_texts" } else { "texts_with_errors" }, 1);
        ctx.count("nodes_checked", p.syntax_node().descendants().count() as u64);
    };
    ctx.par("corpus", corpus::single().len(), |_, i| one(&corpus::single()[i].text));
    ctx.par("mutants", ctx.size(40_000, 1_500_000), |rng, _| {
        let t = any_text(rng);
        ctx.sample(|| t.clone());
        one(&t)
    });
    ctx.par("noise", ctx.size(20_000, 400_000), |rng, _| one(&lexical_noise(rng)));
    ctx.require("clean_texts", 1000);
    ctx.require("texts_with_errors", 10_000);
}

// ------------------------------------------------------------- C06 totality

fn c06(ctx: &Ctx) {
    ctx.cpu_limit.store(40, std::sync::atomic::Ordering::Relaxed);
    let one = |t: &str| {
        let total = |t: &str| {
            guarded(|| {
                let p = parse(t);
                let _ = p.errors();
                p.syntax_node().descendants().count()
            })
        };
        ctx.open("parse", t);
        let r = total(t);
        ctx.close();
        match r {
            Ok(_) => {}
            // one defect is known and lies where it cannot be repaired here; the text tells it from
            // any other marker left open
            Err(p) if p.message.contains("Marker must be") && vf_move::no_conjoined_includes(t).is_some_and(|t| total(&t).is_ok()) => {
                ctx.violation("unfinished conjunction in include", format!("{} at {}\n{t}", p.message, p.location));
            }
            Err(p) => ctx.panicked("parse", t, &p),
        }
        ctx.eval(hash_of(t), t.len() > 1);
    };
    ctx.par("prefixes", corpus::single().len(), |_, i| {
        // every state an editor passes through while a file is being typed, at token granularity
        let t = &corpus::single()[i].text;
        let mut at = 0;
        for p in corpus::pieces(t) {
            at += p.len();
            one(&t[..at]);
        }
        ctx.count("prefixes", 1);
    });
    ctx.par("holes", corpus::single().len(), |_, i| {
        // every file with one token missing
        let t = &corpus::single()[i].text;
        let ps = corpus::pieces(t);
        let mut at = 0;
        for p in ps {
            if !p.trim().is_empty() {
                one(&format!("{}{}", &t[..at], &t[at + p.len()..]));
                ctx.count("holes", 1);
            }
            at += p.len();
        }
    });
    ctx.par("mutants", ctx.size(60_000, 3_000_000), |rng, _| {
        let t = any_text(rng);
        ctx.sample(|| t.clone());
        one(&t);
        ctx.count("mutants", 1);
    });
    ctx.par("noise", ctx.size(60_000, 2_000_000), |rng, _| one(&lexical_noise(rng)));
    // dictionary sequences of two and three tokens in the places an item, a statement, a spec and
    // a type can stand
    const FRAMES: &[(&str, &str)] = &[
        ("", ""),
        ("module 0x1::m { ", " }"),
        ("module 0x1::m { fun f() { ", " } }"),
        ("module 0x1::m { fun f() { let x = ", "; } }"),
        ("module 0x1::m { fun f(x: ", ") {} }"),
        ("module 0x1::m { spec f { ", " } }"),
        ("module 0x1::m { spec schema S { ", " } }"),
        ("module 0x1::m { struct S ", " }"),
        ("module 0x1::m { enum E { ", " } }"),
        ("module 0x1::m { use ", "; }"),
        ("module 0x1::m { fun f() { match (x) { ", " } } }"),
        ("module 0x1::m { ", " fun f() {} }"),
        ("script { fun main() { f(", ") } }"),
        ("#[", "] module 0x1::m {}"),
    ];
    let d = corpus::DICT;
    ctx.par("pairs", FRAMES.len() * d.len(), |_, k| {
        let (pre, post) = FRAMES[k % FRAMES.len()];
        let a = d[k / FRAMES.len()];
        for b in d {
            one(&format!("{pre}{a} {b}{post}"));
            ctx.count("pairs", 1);
        }
        one(&format!("{pre}{a}{post}"));
        one(&format!("{pre}{a}"));
    });
    ctx.par("triples", ctx.size(60_000, 2_000_000), |rng, _| {
        let (pre, post) = *rng.pick(FRAMES);
        let (a, b, c) = (*rng.pick(d), *rng.pick(d), *rng.pick(d));
        one(&format!("{pre}{a} {b} {c}{post}"));
    });
    // nesting as deep as hand-written and generated code gets
    const NEST: &[(&str, &str, &str)] = &[
        ("(", "1", ")"),
        ("{ ", "1", " }"),
        ("if (a) { ", "1", " }"),
        ("f(", "1", ")"),
        ("vector[", "1", "]"),
        ("|x| ", "1", ""),
        ("!", "a", ""),
        ("&", "a", ""),
        ("1 + ", "1", ""),
        ("a.", "b", ""),
        ("S { x: ", "1", " }"),
        ("while (true) { ", "1", " }"),
        ("loop { ", "break", " }"),
        ("match (x) { A => ", "1", " }"),
        ("if (a) b else ", "c", ""),
        ("vector<", "u8", ">"),
        ("/* ", "c", " */"),
        ("a::", "b", ""),
        ("return ", "1", ""),
        ("#[a(", "b", ")]"),
    ];
    let depths: &[usize] = if ctx.quick() { &[1, 2, 7, 30, 100] } else { &[1, 2, 7, 30, 100, 150, 200] };
    ctx.par("nesting", NEST.len() * FRAMES.len() * depths.len(), |_, k| {
        let (o, m, c) = NEST[k % NEST.len()];
        let (pre, post) = FRAMES[(k / NEST.len()) % FRAMES.len()];
        let n = depths[k / NEST.len() / FRAMES.len()];
        one(&format!("{pre}{}{m}{}{post}", o.repeat(n), c.repeat(n)));
        one(&format!("{pre}{}", o.repeat(n)));
        ctx.max("deepest_nesting", n as u64);
    });
    ctx.require("holes", 20_000);
    ctx.require("pairs", 20_000);
    ctx.require("mutants", 5_000);
}

// ------------------------------------------- C07 trivia does not matter

/// Rewrite every gap of blanks/comments, and open some where two tokens touch and neither can glue.
fn reblank(rng: &mut Rng, text: &str) -> String {
    let toks = leaves(&parse(text).syntax_node());
    let mut out = String::new();
    let mut i = 0;
    let mut prev: Option<SyntaxToken> = None;
    while i < toks.len() {
        let mut gap = false;
        let mut doc = String::new();
        while i < toks.len() && toks[i].kind().is_trivia() {
            gap = true;
            // documentation stays where it is
            if toks[i].text().starts_with("///") || toks[i].text().starts_with("/**") || toks[i].text().starts_with("//!") || toks[i].text().starts_with("/*!") {
                doc.push_str("\n");
                doc.push_str(toks[i].text());
                doc.push_str("\n");
            }
            i += 1;
        }
        let next = toks.get(i);
        if gap {
            if doc.is_empty() {
                // a slash right before a comment would open another one
                if out.ends_with('/') {
                    out.push(' ');
                }
                out.push_str(&blank(rng));
            } else {
                out.push_str(&doc);
            }
        } else if let (Some(p), Some(n)) = (&prev, next) {
            let wordy = |t: &SyntaxToken| t.text().starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_');
            let solid = |t: &SyntaxToken| wordy(t) || matches!(t.text(), "(" | ")" | "{" | "}" | "[" | "]" | "," | ";");
            // a '<' right after a name opens type arguments; with a blank before it, it compares
            if solid(p) && solid(n) && !n.text().starts_with('<') && rng.chance(1, 3) {
                out.push_str(&blank(rng));
            }
        }
        if let Some(n) = next {
            out.push_str(n.text());
            prev = Some(n.clone());
            i += 1;
        }
    }
    out
}

fn messages(p: &Parse) -> Vec<String> {
    p.errors().iter().map(|e| e.to_string()).collect()
}

fn c07(ctx: &Ctx) {
    let one = |rng: &mut Rng, text: &str| {
        // Tokens must survive re-spacing for the comparison to mean anything.
        if text.contains(['\r', '\u{b}', '\u{c}']) || !text.is_ascii() {
            return;
        }
        let Ok(p) = guarded(|| parse(text)) else { return }; // C06's business
        let root = p.syntax_node();
        if leaves(&root).iter().any(|t| matches!(t.kind(), SyntaxKind::BAD_CHARACTER) || (matches!(t.kind(), SyntaxKind::BYTE_STRING | SyntaxKind::HEX_STRING) && !closed_string(t.text())) || (t.kind() == SyntaxKind::COMMENT && t.text().starts_with("/*") && !t.text().ends_with("*/"))) {
            return;
        }
        let other = reblank(rng, text);
        ctx.open("respaced", &other);
        let r = guarded(|| {
            let q = parse(&other);
            (skeleton(&q.syntax_node()), messages(&q))
        });
        ctx.close();
        ctx.eval(hash_of(&other), other != text);
        ctx.count(if p.errors().is_empty() { "clean_pairs" } else { "pairs_with_errors" }, 1);
        let want = (skeleton(&root), messages(&p));
        match r {
            Ok(got) if got == want => {}
            Ok(got) => {
                let at = got.0.bytes().zip(want.0.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                let cut = |s: &str| s.chars().skip(at.saturating_sub(60)).take(160).collect::<String>();
                ctx.violation(
                    &format!("respacing {:?}", text.chars().take(100).collect::<String>()),
                    format!("errors {:?} vs {:?}\ntree before: …{}\ntree after:  …{}\n--- original\n{text}\n--- respaced\n{other}", want.1, got.1, cut(&want.0), cut(&got.0)),
                );
            }
            Err(p) => ctx.violation(&format!("respacing panic {}", p.location), format!("{}\n{other}", p.message)),
        }
    };
    ctx.par("corpus", corpus::single().len() * ctx.size(8, 200), |rng, i| {
        let t = &corpus::single()[i % corpus::single().len()].text;
        ctx.sample(|| reblank(&mut rng.clone(), t));
        one(rng, t)
    });
    ctx.par("mutants", ctx.size(15_000, 400_000), |rng, _| {
        let t = any_text(rng);
        one(rng, &t)
    });
    ctx.require("clean_pairs", 5_000);
    ctx.require("pairs_with_errors", 2_000);
}

fn main() {
    vf::main(&[
        Check { id: "C04", rule: "corpus files, every two-character text, random sequences of lexical fragments (unclosed and nested comments and strings, numbers with every suffix, non-ASCII text) and disturbed files. Non-trivial: more than one byte.", assumptions: &["the reference tokeniser is written from the lexical rules; grapheme joiners and carriage returns are left out of its inputs"], run: c04 },
        Check { id: "C05", rule: "corpus files, disturbed files (token deletions, insertions, swaps, splices, truncations, odd characters) and lexical noise. Non-trivial: more than three bytes.", assumptions: &[], run: c05 },
        Check { id: "C06", rule: "every token prefix of every corpus file, every corpus file with one token missing, disturbed files, every pair of dictionary tokens in every syntactic position, nested constructs. Non-trivial: more than one byte.", assumptions: &["non-termination is judged by 40 s of CPU time on one small text"], run: c06 },
        Check { id: "C07", rule: "corpus files and disturbed files with every gap between tokens rewritten with random blanks and comments. Non-trivial: the respaced text differs.", assumptions: &["a blank before '<' is part of the grammar and is left alone; so are documentation comments"], run: c07 },
    ])
}
