mod compat;
mod completion;
mod expect;
mod facts;
mod incremental;
mod monitors;
mod organize;
mod queries;
mod scopes;
mod typed;
mod views;
mod visible;
mod world;
use facts::{Want, collect, difference, frame, translated};
use std::sync::OnceLock;
use vf::{Check, Ctx, Rng, corpus, guarded};
use vf_move::Source;
use world::World;

/// Conformance with the worked examples of some kinds.
fn conform(ctx: &Ctx, kinds: &[&str]) {
    let es = expect::of_kind(kinds);
    ctx.par("examples", es.len(), |_, i| {
        let e = es[i];
        ctx.open(&e.kind, &e.args[0]);
        let r = guarded(|| expect::judge(e));
        ctx.close();
        ctx.eval(vf::hash_of(&e.args), true);
        ctx.count(&format!("examples_{}", e.kind), 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(why)) if why.starts_with("/harness/") => panic!("{why} {}", e.name),
            Ok(Err(why)) => ctx.violation(&format!("example {} {}", e.kind, e.name), format!("{why}\nsource:\n{}", e.args[0])),
            Err(p) => ctx.panicked(&format!("example {}", e.name), &e.args[0], &p),
        }
    });
}

/// Every distinct single-file source at hand.
pub fn sources() -> &'static [String] {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| {
        let mut seen = std::collections::BTreeSet::new();
        let mut v = vec![];
        for s in corpus::single() {
            if seen.insert(s.text.clone()) {
                v.push(s.text.clone());
            }
        }
        v
    })
}

pub fn reserved() -> &'static std::collections::BTreeSet<String> {
    static S: OnceLock<std::collections::BTreeSet<String>> = OnceLock::new();
    S.get_or_init(|| vf_move::reserved(lang::builtins_file::BUILTINS_FILE))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Change {
    Respace,
    Rename,
    Reorder,
    Surround,
}

fn rewritten(rng: &mut Rng, base: &Source, changes: &[Change]) -> Source {
    let mut s = base.clone();
    for c in changes {
        match c {
            Change::Respace => s.respace(rng),
            Change::Rename => s.rename(rng, reserved()),
            Change::Reorder => s.reorder(rng),
            Change::Surround => s.surround(BEFORE, AFTER),
        }
    }
    s
}

/// About the text put around.
fn ours(fact: &str) -> bool {
    fact.contains("qq_") || fact.contains("QQ_") || fact.contains("QqS")
}

const BEFORE: &str = "module 0xdead::qq_before { struct QqS has copy, drop { qq_f: u8 } public fun qq_g(qq_x: u8): u8 { qq_x } spec qq_g { ensures qq_x > 0; } }\n";
const AFTER: &str = "\nmodule 0xdead::qq_after { use 0xdead::qq_before::qq_g; const QQ_C: u64 = 1; public fun qq_h(): u8 { qq_g(1) } #[test] fun qq_t() {} }\n";

/// A program made up for one of the checks, as one file.
pub fn built(rng: &mut Rng) -> String {
    match rng.below(3) {
        0 => {
            let wanted = *rng.pick(&typed::FAULTS);
            typed::program(rng, wanted).files.into_iter().map(|f| f.1).collect::<Vec<_>>().concat()
        }
        _ => scopes::text(rng),
    }
}

/// Facts survive a rewriting that keeps the meaning.
fn invariance(ctx: &Ctx, want: Want, sets: &[&[Change]], mutants: bool, rounds: usize) {
    let one = |rng: &mut Rng, text: &str| {
        if !vf_move::respaceable(text) {
            return;
        }
        let mut base = Source::new(text);
        let changes = *rng.pick(sets);
        let mut text = text;
        let first;
        if changes.contains(&Change::Rename) {
            // start from names that no message of the analysis has a word of
            base.rename(rng, reserved());
            first = base.text();
            text = &first;
            base = Source::new(text);
        }
        // where one broken item ends and the next begins depends on what is around it
        if changes.iter().any(|c| matches!(c, Change::Reorder | Change::Surround)) && !vf_move::parse(text).errors().is_empty() {
            return;
        }
        let other = rewritten(rng, &base, changes);
        let other_text = other.text();
        ctx.open("facts", &other_text);
        let r = guarded(|| {
            let w = World::single(text);
            let f1 = collect(&w.analysis(), &[frame(w.main(), "%", &base)], want);
            let w2 = World::single(&other_text);
            let mut f2 = collect(&w2.analysis(), &[frame(w2.main(), "%", &other)], want);
            let mut f1 = translated(&f1, &other.renamed);
            if changes.iter().any(|c| matches!(c, Change::Respace | Change::Rename)) {
                // which of these are shown goes by the text of the argument
                f1.retain(|k, _| !k.contains(":hint Parameter "));
                f2.retain(|k, _| !k.contains(":hint Parameter "));
            }
            if changes.contains(&Change::Surround) {
                f2.retain(|k, v| f1.contains_key(k) || !(ours(k) || ours(v)));
            }
            (f1, f2)
        });
        ctx.close();
        match r {
            Ok((f1, f2)) => {
                ctx.eval(vf::hash_of(&other_text), f1.len() > 1);
                ctx.count("facts_compared", f1.len() as u64);
                ctx.count(&format!("rewritings_{}", changes.iter().map(|c| format!("{c:?}")).collect::<String>()), 1);
                if let Some(d) = difference(&f1, &f2) {
                    ctx.violation(&format!("{changes:?} {:?}", text.chars().take(100).collect::<String>()), format!("{d}\n--- original\n{text}\n--- rewritten\n{other_text}"));
                }
            }
            Err(p) => ctx.panicked("facts", &other_text, &p),
        }
    };
    let n = sources().len();
    ctx.par("corpus", n * rounds, |rng, i| {
        let t = &sources()[i % n];
        one(rng, t)
    });
    ctx.par("built and rewritten", ctx.size(400, 40_000), |rng, _| {
        let t = built(rng);
        one(rng, &t)
    });
    if mutants {
        ctx.par("mutants", ctx.size(6_000, 300_000), |rng, _| {
            let t = corpus::any_text(rng);
            if guarded(|| vf_move::parse(&t)).is_ok() {
                one(rng, &t)
            }
        });
    }
}

/// Texts that made some question panic.
const FINDINGS: &[&str] = &[
    "module 1::m{{{}}spec{}proof{apply",
    "module m{\n    use 0::string::{S Self}#[test fun t{string::",
    "module M{fun m{borrow_global_mut<S<8\">>(@",
    "module 1::c{spec{include&&&",
    "spec{const R=}module 0::copy",
    "module 0::in { use 0::ol::{|, create_pool  }\n  #[test]\n  fun main() {\n create_pool();\n",
    "module 0::M {}",
    "module 0::m { fun f() { let (.., x) = x; } }",
    "module 0x1::m { fun f(: u8, a) {} fun g() { f(1, 2); } }",
    "struct S { a: u8 } fun f(s: S) { s.a; }",
    "module 0x1::m { spec foo { let a = 1",
];

/// Every question at every position of intact, half-typed and disturbed files.
fn totality(ctx: &Ctx) {
    let one = |rng: &mut Rng, text: &str, stride: usize| {
        ctx.open("analysis", text);
        let mut rep = queries::Report::default();
        // the parser's own failures belong to another property
        if guarded(|| vf_move::parse(text)).is_err() {
            ctx.close();
            return;
        }
        let w = World::single(text);
        let t = queries::Texts([(w.main(), text.to_string()), (world::BUILTINS, lang::builtins_file::BUILTINS_FILE.to_string())].into_iter().collect());
        rep.all(&w.analysis(), &t, w.main(), rng, stride);
        ctx.close();
        ctx.eval(vf::hash_of(text), rep.answered > 0);
        ctx.count("questions", rep.asked);
        ctx.count("answers", rep.answered);
        for (q, p) in rep.panics {
            if ctx.fresh("in analysis", &p) {
                let seed = rng.clone();
                let small = vf::shrink(text, |t| {
                    let mut rep = queries::Report::default();
                    if guarded(|| vf_move::parse(t)).is_err() {
                        return false;
                    }
                    let w = World::single(t);
                    let ts = queries::Texts([(w.main(), t.to_string()), (world::BUILTINS, lang::builtins_file::BUILTINS_FILE.to_string())].into_iter().collect());
                    rep.all(&w.analysis(), &ts, w.main(), &mut seed.clone(), 1);
                    rep.panics.iter().any(|x| x.0 == q && x.1.location == p.location && x.1.message[..4.min(x.1.message.len())] == p.message[..4.min(p.message.len())])
                });
                ctx.panicked("in analysis", &format!("({q})\n{small}"), &p);
            }
        }
        for (q, e) in rep.bad {
            ctx.violation(&format!("{q}: {}", e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>()), format!("{q}: {e}\ntext:\n{text}"));
        }
    };
    ctx.par("findings", FINDINGS.len(), |rng, i| {
        for _ in 0..4 {
            one(rng, FINDINGS[i], 1)
        }
    });
    let n = sources().len();
    ctx.par("corpus", n, |rng, i| one(rng, &sources()[i], if ctx.quick() { 4 } else { 1 }));
    ctx.par("built", ctx.size(300, 60_000), |rng, _| {
        let t = built(rng);
        let n = rng.below(6);
        let t = corpus::mutate(rng, &t, n);
        one(rng, &t, 24)
    });
    ctx.par("disturbed", ctx.size(3_000, 200_000), |rng, _| {
        let t = corpus::any_text(rng);
        one(rng, &t, 8)
    });
}

const FOUR: &[&[Change]] = &[&[Change::Respace], &[Change::Rename], &[Change::Reorder], &[Change::Surround], &[Change::Reorder, Change::Rename, Change::Respace, Change::Surround]];

/// Worked examples of the kinds, and the same facts through rewritings.
fn family(ctx: &Ctx, kinds: &[&str], want: Want, mutants: bool) {
    conform(ctx, kinds);
    invariance(ctx, want, FOUR, false, if ctx.quick() { 10 } else { 150 });
    if mutants {
        invariance(ctx, want, &[&[Change::Respace]], true, 0);
    }
}

const NONE: Want = Want { defs: false, types: false, diags: false, hints: false, colours: false, outline: false, hover: false, refs: false, signature: false, lenses: false, fixes: false };
const EXAMPLES: &str = "the repository's own worked examples of this question";
const REWRITTEN: &str = "every answer compared token by token between a text and its re-spaced, consistently renamed, reordered or surrounded rewriting";

fn main() {
    vf::main(&[
        Check { id: "C08", rule: "no question at any offset panics, all ranges lie in their files, edits apply", assumptions: &[], run: totality },
        Check { id: "C09", rule: "after every change the answers equal those of a host loaded from scratch", assumptions: &[], run: incremental::run },
        Check { id: "C10", rule: "where each name leads", assumptions: &[EXAMPLES, REWRITTEN], run: |ctx| { typed::names(ctx); visible::run(ctx, visible::Judge::Names); scopes::run(ctx, scopes::Judge::Names); family(ctx, &["resolve", "gotospec"], Want { defs: true, ..NONE }, true) } },
        Check { id: "C11", rule: "type of each expression", assumptions: &[EXAMPLES, REWRITTEN], run: |ctx| { typed::types(ctx); family(ctx, &["exprtype", "callexprtype"], Want { types: true, ..NONE }, true) } },
        Check { id: "C12", rule: "diagnostics of each file", assumptions: &[EXAMPLES, REWRITTEN], run: |ctx| { typed::diagnostics(ctx); visible::run(ctx, visible::Judge::Diagnostics); compat::run(ctx); family(ctx, &["diag"], Want { diags: true, ..NONE }, true) } },
        Check { id: "C13", rule: "quick fixes", assumptions: &[EXAMPLES, REWRITTEN], run: |ctx| { monitors::fixes(ctx); family(ctx, &["diagfix", "importfix", "nofix"], Want { diags: true, fixes: true, ..NONE }, false) } },
        Check { id: "C14", rule: "references and renaming", assumptions: &[EXAMPLES, REWRITTEN], run: |ctx| { typed::references(ctx); typed::renames(ctx); scopes::run(ctx, scopes::Judge::References); monitors::references(ctx); monitors::renaming(ctx); family(ctx, &["usages", "rename"], Want { refs: true, ..NONE }, false) } },
        Check { id: "C15", rule: "completion", assumptions: &[EXAMPLES], run: |ctx| { typed::proposals(ctx); visible::run(ctx, visible::Judge::Proposals); scopes::run(ctx, scopes::Judge::Proposals); completion::resolvable(ctx); conform(ctx, &["completions", "outcompletions", "single", "outsingle", "nocompletions"]) } },
        Check { id: "C16", rule: "inlay hints", assumptions: &[EXAMPLES, REWRITTEN], run: |ctx| { typed::hints(ctx); views::hints(ctx); family(ctx, &["inlay"], Want { hints: true, ..NONE }, true) } },
        Check { id: "C17", rule: "hover and signature help", assumptions: &[EXAMPLES, REWRITTEN], run: |ctx| { typed::signatures(ctx); views::signatures(ctx); family(ctx, &["hover", "signature"], Want { hover: true, signature: true, ..NONE }, true) } },
        Check { id: "C18", rule: "highlighting, outline, symbols, lenses", assumptions: &[EXAMPLES, REWRITTEN], run: |ctx| { views::follow(ctx); family(ctx, &["highlight", "symbols", "codelens"], Want { colours: true, outline: true, lenses: true, ..NONE }, true) } },
        Check { id: "C19", rule: "organizing imports", assumptions: &[EXAMPLES], run: |ctx| { typed::imports(ctx); organize::run(ctx); conform(ctx, &["organize"]) } },
    ])
}
