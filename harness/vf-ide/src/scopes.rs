//! Scopes in scopes: whatever may bind a name, nested in whatever may, over few names; what a name means, or that it means
//! nothing, follows from the nesting alone.
use crate::world::{Package, World};
use std::collections::{BTreeMap, BTreeSet};
use vf::{Ctx, Rng, guarded};
use vfs::FileId;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Space {
    Value,
    Type,
    Label,
    /// functions
    Fun,
    Schema,
    Lemma,
}

struct Decl {
    space: Space,
    name: String,
    at: (usize, u32, u32),
}

struct Use {
    space: Space,
    at: (usize, u32, u32),
    means: Option<usize>,
    /// what is in scope, by name
    scope: Vec<(String, usize)>,
    /// of no interest to completion
    dim: bool,
}

#[derive(Clone, Default)]
struct Env {
    bound: Vec<(Space, String, usize)>,
    spec: bool,
    /// statements that leave a loop may stand here
    body: bool,
}

struct Gen<'a> {
    rng: &'a mut Rng,
    files: Vec<String>,
    file: usize,
    decls: Vec<Decl>,
    uses: Vec<Use>,
    env: Env,
    fuel: i32,
    /// items: their declarations, and whether only specs see them. They are seen before they are written.
    items: Vec<(Space, String, bool)>,
    late: BTreeMap<String, usize>,
}

/// The specs of a module may be in a file of their own, beside its own.
const FILES: [&str; 2] = ["sources/m.move", "sources/m.spec.move"];
const VALUES: [&str; 4] = ["a", "b", "c", "d"];
const TYPES: [&str; 3] = ["T", "U", "V"];
const LABELS: [&str; 3] = ["'l", "'m", "'n"];

impl Gen<'_> {
    fn put(&mut self, s: &str) {
        self.files[self.file].push_str(s);
    }

    fn here(&self) -> u32 {
        self.files[self.file].len() as u32
    }

    fn below(&mut self, n: usize) -> usize {
        self.rng.below(n)
    }

    fn chance(&mut self, a: usize, b: usize) -> bool {
        self.rng.chance(a, b)
    }

    fn name(&mut self, s: Space) -> String {
        let pool: &[&str] = match s {
            Space::Value => &VALUES,
            Space::Type => &TYPES,
            Space::Label => &LABELS,
            _ => unreachable!(),
        };
        pool[self.below(pool.len())].to_string()
    }

    /// Writes a declaration, and it is up to the caller when it is in scope.
    fn declare(&mut self, space: Space, name: &str) -> (Space, String, usize) {
        let s = self.here();
        self.put(name);
        self.decls.push(Decl { space, name: name.to_string(), at: (self.file, s, self.here()) });
        (space, name.to_string(), self.decls.len() - 1)
    }

    /// A name not bound yet by what is being bound.
    fn fresh(&mut self, space: Space, with: &[(Space, String, usize)]) -> Option<String> {
        for _ in 0..8 {
            let n = self.name(space);
            if !with.iter().any(|b| b.0 == space && b.1 == n) {
                return Some(n);
            }
        }
        None
    }

    fn mention(&mut self, space: Space, name: &str, dim: bool) {
        let s = self.here();
        self.put(name);
        let mut scope: Vec<(String, usize)> = vec![];
        for (k, n, d) in self.env.bound.iter().rev() {
            if *k == space && !scope.iter().any(|x| x.0 == *n) {
                scope.push((n.clone(), *d));
            }
        }
        let means = scope.iter().find(|x| x.0 == name).map(|x| x.1);
        self.uses.push(Use { space, at: (self.file, s, self.here()), means, scope, dim });
    }

    /// One of the items; those only specs see are sometimes mentioned where they are not seen.
    fn item(&mut self, space: Space) -> Option<usize> {
        let found: Vec<usize> = (0..self.items.len()).filter(|i| self.items[*i].0 == space).collect();
        if found.is_empty() { None } else { Some(found[self.below(found.len())]) }
    }

    fn mention_item(&mut self, i: usize) {
        let (space, name, spec) = self.items[i].clone();
        let s = self.here();
        self.put(&name);
        // resolved when everything is written: the index is of the item
        let seen = !spec || self.env.spec;
        self.uses.push(Use { space, at: (self.file, s, self.here()), means: if seen { Some(usize::MAX - i) } else { None }, scope: vec![], dim: true });
    }

    fn types(&mut self, depth: usize) {
        match self.below(if depth == 0 { 3 } else { 5 }) {
            0 => self.put("u64"),
            1 | 2 => {
                let n = self.name(Space::Type);
                self.mention(Space::Type, &n, false)
            }
            3 => {
                self.put("vector<");
                self.types(depth - 1);
                self.put(">");
            }
            _ => {
                self.put("G<");
                self.types(depth - 1);
                self.put(">");
            }
        }
    }

    fn type_params(&mut self) -> Vec<(Space, String, usize)> {
        let mut out = vec![];
        if self.chance(1, 2) {
            return out;
        }
        self.put("<");
        for i in 0..1 + self.below(2) {
            let Some(n) = self.fresh(Space::Type, &out) else { break };
            if i > 0 {
                self.put(", ");
            }
            out.push(self.declare(Space::Type, &n));
            if self.chance(1, 4) {
                self.put(": copy");
            }
        }
        self.put(">");
        out
    }

    /// `(a: T, b: u64)`
    fn params(&mut self) -> Vec<(Space, String, usize)> {
        let mut out = vec![];
        self.put("(");
        for i in 0..self.below(3) {
            let Some(n) = self.fresh(Space::Value, &out) else { break };
            if i > 0 {
                self.put(", ");
            }
            out.push(self.declare(Space::Value, &n));
            self.put(": ");
            self.types(1);
        }
        self.put(")");
        out
    }

    fn pat(&mut self, depth: usize, out: &mut Vec<(Space, String, usize)>) {
        match self.below(if depth == 0 { 2 } else { 6 }) {
            0 => self.put("_"),
            1 | 2 => match self.fresh(Space::Value, out) {
                Some(n) => {
                    out.push(self.declare(Space::Value, &n));
                }
                None => self.put("_"),
            },
            // no tuples in tuples or fields
            3 if depth == 2 => {
                self.put("(");
                self.pat(depth - 1, out);
                self.put(", ");
                self.pat(depth - 1, out);
                self.put(")");
            }
            3 | 4 => {
                self.put("S { x: ");
                self.pat(depth - 1, out);
                self.put(", y: ");
                self.pat(depth - 1, out);
                self.put(" }");
            }
            _ => {
                self.put("P(");
                self.pat(depth - 1, out);
                self.put(")");
            }
        }
    }

    fn scoped(&mut self, with: Vec<(Space, String, usize)>, f: impl FnOnce(&mut Self)) {
        let was = self.env.clone();
        self.env.bound.extend(with);
        f(self);
        self.env = was;
    }

    /// Where labels do not reach.
    fn barrier(&mut self) {
        self.env.bound.retain(|b| b.0 != Space::Label);
        self.env.body = !self.env.spec;
    }

    fn value(&mut self) {
        let n = self.name(Space::Value);
        self.mention(Space::Value, &n, false);
    }

    fn expr(&mut self, depth: usize) {
        self.fuel -= 1;
        if depth == 0 || self.fuel < 0 {
            return if self.chance(3, 4) { self.value() } else { self.put("1") };
        }
        let d = depth - 1;
        match self.below(if self.env.spec { 17 } else { 14 }) {
            0 | 1 => self.value(),
            2 => {
                self.put("(");
                self.expr(d);
                let op = [" + ", " == ", " && ", " < "][self.below(4)];
                self.put(op);
                self.expr(d);
                self.put(")");
            }
            3 => self.block(d),
            4 | 5 => {
                self.put("(|");
                let mut bs = vec![];
                for i in 0..self.below(3) {
                    let Some(n) = self.fresh(Space::Value, &bs) else { break };
                    if i > 0 {
                        self.put(", ");
                    }
                    bs.push(self.declare(Space::Value, &n));
                    if self.chance(1, 3) {
                        self.put(": ");
                        self.types(1);
                    }
                }
                self.put("| ");
                self.scoped(bs, |g| {
                    g.barrier();
                    g.expr(d)
                });
                self.put(")");
            }
            6 => {
                self.put("(if (");
                self.expr(d);
                self.put(") ");
                self.expr(d);
                self.put(" else ");
                self.expr(d);
                self.put(")");
            }
            7 | 8 => {
                self.put("(match (");
                self.expr(d);
                self.put(") { ");
                for _ in 0..1 + self.below(2) {
                    let mut bs = vec![];
                    self.pat(2, &mut bs);
                    self.scoped(bs, |g| {
                        if g.chance(1, 2) {
                            g.put(" if ");
                            g.expr(d);
                        }
                        g.put(" => ");
                        g.expr(d);
                    });
                    self.put(", ");
                }
                self.put("})");
            }
            9 => {
                let Some(i) = self.item(Space::Fun) else { return self.put("2") };
                self.mention_item(i);
                if self.chance(1, 4) {
                    self.put("<");
                    self.types(1);
                    self.put(">");
                }
                self.put("(");
                self.expr(d);
                self.put(")");
            }
            10 => {
                self.put("(");
                self.expr(d);
                self.put(" as ");
                self.types(0);
                self.put(")");
            }
            11 => {
                self.put("vector<");
                self.types(1);
                self.put(">[");
                self.expr(d);
                self.put("]");
            }
            12 => {
                self.put("S { x: ");
                self.expr(d);
                self.put(", y: ");
                self.expr(d);
                self.put(" }");
            }
            13 => {
                self.value();
                self.put("[");
                self.expr(d);
                self.put("]");
            }
            14 | 15 => {
                let w = if self.chance(1, 2) { "(forall " } else { "(exists " };
                self.put(w);
                let bs = self.quantified(d);
                self.scoped(bs, |g| {
                    // `a {` begins a struct
                    if g.files[g.file].ends_with(')') && g.chance(1, 3) {
                        g.put(" {");
                        g.expr(1);
                        g.put("}");
                    }
                    if g.chance(1, 4) {
                        g.put(" where ");
                        g.expr(d);
                    }
                    g.put(": ");
                    g.expr(d);
                });
                self.put(")");
            }
            _ => {
                self.put("(choose ");
                if self.chance(1, 3) {
                    self.put("min ");
                }
                let bs = self.one_quantified(d, &[]);
                self.scoped(bs, |g| {
                    g.put(" where ");
                    g.expr(d);
                });
                self.put(")");
            }
        }
    }

    fn one_quantified(&mut self, depth: usize, so_far: &[(Space, String, usize)]) -> Vec<(Space, String, usize)> {
        let Some(n) = self.fresh(Space::Value, so_far) else { return vec![] };
        let b = self.declare(Space::Value, &n);
        if self.chance(1, 2) {
            self.put(": ");
            self.types(1);
        } else {
            self.put(" in ");
            // the range sees the variables before
            self.scoped(so_far.to_vec(), |g| {
                g.expr(depth.min(2));
                if g.chance(1, 3) {
                    g.put("..");
                    g.value();
                }
            });
        }
        vec![b]
    }

    fn quantified(&mut self, depth: usize) -> Vec<(Space, String, usize)> {
        let mut out = vec![];
        for i in 0..1 + self.below(2) {
            if i > 0 {
                self.put(", ");
            }
            let b = self.one_quantified(depth, &out);
            out.extend(b);
        }
        out
    }

    fn block(&mut self, depth: usize) {
        self.put("{ ");
        self.scoped(vec![], |g| {
            for _ in 0..g.below(4) {
                if g.env.spec { g.let_(depth) } else { g.stmt(depth) }
            }
            g.expr(depth);
        });
        self.put(" }");
    }

    fn let_(&mut self, depth: usize) {
        self.put("let ");
        let mut bs = vec![];
        self.pat(if self.env.spec { 0 } else { 2 }, &mut bs);
        if self.chance(1, 4) {
            self.put(": ");
            self.types(1);
        }
        self.put(" = ");
        self.expr(depth);
        self.put("; ");
        self.env.bound.extend(bs);
    }

    fn label(&mut self) -> Vec<(Space, String, usize)> {
        if self.chance(1, 2) {
            return vec![];
        }
        let n = self.name(Space::Label);
        if self.env.bound.iter().any(|b| b.0 == Space::Label && b.1 == n) {
            // the compiler refuses a label inside a loop of the same label
            return vec![];
        }
        let b = self.declare(Space::Label, &n);
        self.put(": ");
        vec![b]
    }

    fn conditions(&mut self, depth: usize, words: &[&str]) {
        self.put(" spec { ");
        self.scoped(vec![], |g| {
            g.env.spec = true;
            g.barrier();
            for _ in 0..1 + g.below(2) {
                let w = words[g.below(words.len())];
                g.put(w);
                g.put(" ");
                g.expr(depth);
                g.put("; ");
            }
        });
        self.put("}");
    }

    fn stmt(&mut self, depth: usize) {
        self.fuel -= 1;
        if depth == 0 || self.fuel < 0 {
            return self.let_(0);
        }
        let d = depth - 1;
        match self.below(11) {
            0..=2 => self.let_(d),
            3 => {
                self.value();
                self.put(" = ");
                self.expr(d);
                self.put("; ");
            }
            4 => {
                let l = self.label();
                self.put("while (");
                // whether leaving the loop from its condition is leaving it is not for this oracle to say
                self.scoped(vec![], |g| {
                    g.env.body = false;
                    g.expr(d)
                });
                self.put(") ");
                self.scoped(l, |g| {
                    g.env.body = true;
                    g.stmts(d)
                });
                if self.chance(1, 4) {
                    self.conditions(1, &["invariant"]);
                }
                self.put("; ");
            }
            5 => {
                let l = self.label();
                self.put("loop ");
                self.scoped(l, |g| {
                    g.env.body = true;
                    g.stmts(d)
                });
                self.put("; ");
            }
            6 | 7 => {
                let mut l = self.label();
                self.put("for (");
                let n = self.name(Space::Value);
                let b = self.declare(Space::Value, &n);
                self.put(" in ");
                self.scoped(vec![], |g| {
                    g.env.body = false;
                    g.expr(d.min(2));
                    g.put("..");
                    g.expr(d.min(1));
                });
                if self.chance(1, 4) {
                    self.scoped(vec![b.clone()], |g| g.conditions(1, &["invariant"]));
                }
                self.put(") ");
                l.push(b);
                self.scoped(l, |g| {
                    g.env.body = true;
                    g.stmts(d)
                });
                self.put("; ");
            }
            8 | 9 => {
                if !self.env.body {
                    return self.let_(d);
                }
                self.put("if (");
                self.expr(d.min(1));
                let w = if self.chance(1, 2) { ") break " } else { ") continue " };
                self.put(w);
                let n = self.name(Space::Label);
                self.mention(Space::Label, &n, false);
                self.put("; ");
            }
            _ => {
                self.put("spec { ");
                self.scoped(vec![], |g| {
                    g.env.spec = true;
                    g.barrier();
                    for _ in 0..1 + g.below(2) {
                        let w = ["assert ", "assume "][g.below(2)];
                        g.put(w);
                        g.expr(d);
                        g.put("; ");
                    }
                });
                self.put("}; ");
            }
        }
    }

    fn stmts(&mut self, depth: usize) {
        self.put("{ ");
        self.scoped(vec![], |g| {
            for _ in 0..1 + g.below(3) {
                g.stmt(depth);
            }
        });
        self.put("}");
    }

    /// The members of a spec of a function, a struct, the module, or a schema.
    fn members(&mut self, kind: &str, depth: usize, own: Vec<(Space, String, usize)>) {
        self.put(" {\n");
        self.scoped(own, |g| {
            g.env.spec = true;
            g.barrier();
            // each once: order does not matter to them
            let mut lets: Vec<(Space, String, usize)> = vec![];
            let bound: Vec<_> = g.env.bound.iter().filter(|b| b.0 == Space::Value).map(|b| b.1.clone()).collect();
            if matches!(kind, "fun" | "schema") {
                for _ in 0..g.below(3) {
                    let Some(n) = g.fresh(Space::Value, &lets) else { break };
                    if bound.contains(&n) {
                        continue;
                    }
                    g.put("        let ");
                    let b = g.declare(Space::Value, &n);
                    g.put(" = ");
                    g.expr(depth);
                    g.put(";\n");
                    g.env.bound.push(b.clone());
                    lets.push(b);
                }
            }
            let words: &[&str] = match kind {
                "fun" => &["requires", "ensures", "aborts_if", "include", "decreases", "fun"],
                "schema" => &["requires", "ensures", "aborts_if", "include", "invariant"],
                "struct" => &["invariant", "invariant"],
                _ => &["invariant", "axiom", "apply", "invariant"],
            };
            for _ in 0..1 + g.below(4) {
                let w = words[g.below(words.len())];
                g.put("        ");
                match w {
                    "include" => {
                        let Some(i) = g.item(Space::Schema) else {
                            g.put("ensures true;\n");
                            continue;
                        };
                        g.put("include ");
                        if g.chance(1, 4) {
                            g.expr(1);
                            g.put(" ==> ");
                        }
                        g.mention_item(i);
                        if g.chance(1, 4) {
                            g.put("<");
                            g.types(1);
                            g.put(">");
                        }
                        if g.chance(1, 2) {
                            g.put(" { z: ");
                            g.expr(1);
                            g.put(" }");
                        }
                    }
                    "apply" => {
                        let Some(i) = g.item(Space::Schema) else {
                            g.put("axiom true;\n");
                            continue;
                        };
                        g.put("apply ");
                        // the type parameters come after
                        let n = g.name(Space::Type);
                        let k = g.uses.len();
                        g.mention_item(i);
                        g.put("<");
                        g.mention(Space::Type, &n, true);
                        g.put("> to *<");
                        let m = g.name(Space::Type);
                        let b = g.declare(Space::Type, &m);
                        if m == n {
                            g.uses[k + 1].means = Some(b.2);
                        }
                        g.put(">");
                        if g.chance(1, 3) {
                            g.put(" except f*");
                        }
                    }
                    "fun" => {
                        // a function of its own, unseen by others
                        g.put("fun inner");
                        let k = g.decls.len();
                        g.put(&k.to_string());
                        let tp = g.type_params();
                        g.scoped(tp, |g| {
                            let ps = g.params();
                            g.put(": ");
                            g.types(0);
                            g.put(" { ");
                            g.scoped(ps, |g| g.expr(depth));
                            g.put(" }\n");
                        });
                        continue;
                    }
                    "invariant" | "axiom" if kind == "module" => {
                        g.put(w);
                        let tp = g.type_params();
                        g.put(" ");
                        g.scoped(tp, |g| {
                            g.expr(depth);
                            if g.chance(1, 2) {
                                g.put(" == exists<");
                                g.types(1);
                                g.put(">(@0x1)");
                            }
                        });
                    }
                    _ => {
                        g.put(w);
                        g.put(" ");
                        g.expr(depth);
                        if w == "aborts_if" && g.chance(1, 3) {
                            g.put(" with ");
                            g.expr(1);
                        }
                    }
                }
                g.put(";\n");
            }
        });
        self.put("    }");
    }

    fn proof(&mut self, depth: usize) {
        self.put(" proof { ");
        self.scoped(vec![], |g| {
            g.env.spec = true;
            for i in 0..1 + g.below(3) {
                match g.below(4) {
                    0 if i == 0 => {
                        g.put("let ");
                        let n = g.name(Space::Value);
                        if g.env.bound.iter().any(|b| b.0 == Space::Value && b.1 == n) {
                            g.put("_ = 1; ");
                            continue;
                        }
                        let b = g.declare(Space::Value, &n);
                        g.put(" = ");
                        g.expr(depth);
                        g.put("; ");
                        g.env.bound.push(b);
                    }
                    0 | 1 => {
                        g.put("assert ");
                        g.expr(depth);
                        g.put("; ");
                    }
                    k => {
                        let Some(i) = g.item(Space::Lemma) else {
                            g.put("assert true; ");
                            continue;
                        };
                        let mut bs = vec![];
                        if k == 2 {
                            g.put("forall ");
                            bs = g.quantified(1);
                            g.put(" ");
                        }
                        g.scoped(bs, |g| {
                            g.put("apply ");
                            g.mention_item(i);
                            g.put("(");
                            g.expr(1);
                            g.put("); ");
                        });
                    }
                }
            }
        });
        self.put("}");
    }

    fn fun_rest(&mut self, depth: usize, sep: &str) -> (Vec<(Space, String, usize)>, Vec<(Space, String, usize)>) {
        let tp = self.type_params();
        let mut ps = vec![];
        self.scoped(tp.clone(), |g| {
            ps = g.params();
            g.put(sep);
            g.types(1);
            g.put(" ");
            g.scoped(ps.clone(), |g| g.block(depth));
            g.put("\n");
        });
        (tp, ps)
    }

    /// The declaration of an item by its number.
    fn name_item(&mut self, i: usize) {
        let (space, name, _) = self.items[i].clone();
        let d = self.declare(space, &name);
        self.late.insert(name, d.2);
    }

    fn spec_items(&mut self, mine: &[usize], depth: usize, nested: bool) {
        for i in mine {
            match self.items[*i].0 {
                Space::Fun => {
                    self.put(if nested { "    fun " } else { "    spec fun " });
                    self.name_item(*i);
                    self.scoped(vec![], |g| {
                        g.env.spec = true;
                        g.fun_rest(depth, ": ");
                    });
                }
                Space::Schema => {
                    self.put("    spec schema ");
                    self.name_item(*i);
                    let mut own = self.type_params();
                    self.put(" ");
                    // the fields are seen from all of the schema
                    let mut fields = vec![];
                    let at = self.here();
                    let (f, n) = (self.file, self.decls.len());
                    self.put("{\n");
                    for _ in 0..self.below(3) {
                        let Some(n) = self.fresh(Space::Value, &fields) else { break };
                        self.put("        ");
                        fields.push(self.declare(Space::Value, &n));
                        self.put(": ");
                        self.scoped(own.clone(), |g| g.types(1));
                        self.put(";\n");
                    }
                    let _ = (at, f, n);
                    own.extend(fields);
                    // members write a brace of their own
                    let k = self.files[self.file].len();
                    self.members("schema", depth, own);
                    let t = &mut self.files[self.file];
                    let brace = k + t[k..].find('{').unwrap();
                    t.replace_range(brace..brace + 1, " ");
                    self.put("\n");
                }
                Space::Lemma => {
                    self.put("    spec lemma ");
                    self.name_item(*i);
                    let tp = self.type_params();
                    self.scoped(tp, |g| {
                        g.env.spec = true;
                        let ps = g.params();
                        g.put(" { ensures ");
                        g.scoped(ps, |g| {
                            g.expr(depth);
                            g.put("; }");
                            if g.chance(1, 2) {
                                g.proof(depth);
                            }
                        });
                        g.put("\n");
                    });
                }
                _ => unreachable!(),
            }
        }
    }
}

struct Case {
    files: Vec<String>,
    decls: Vec<Decl>,
    uses: Vec<Use>,
}

fn build(rng: &mut Rng) -> Case {
    let apart = rng.chance(1, 2);
    let mut g = Gen { rng, files: vec![String::new(); if apart { 2 } else { 1 }], file: 0, decls: vec![], uses: vec![], env: Env { body: true, ..Env::default() }, fuel: 160, items: vec![], late: BTreeMap::new() };
    // main functions, then those of specs by place: in the module, in `spec module`, in a spec of the module elsewhere
    let nf = 1 + g.below(2);
    for i in 0..nf {
        g.items.push((Space::Fun, format!("f{i}"), false));
    }
    let mut places: [Vec<usize>; 3] = Default::default();
    for i in 0..g.below(6) {
        let place = [0, 1, 2][g.below(3)];
        let space = [Space::Fun, Space::Schema, Space::Lemma][g.below(if place == 1 { 1 } else { 3 })];
        if space == Space::Lemma && place != 0 {
            continue;
        }
        let n = match space {
            Space::Fun => format!("s{i}"),
            Space::Schema => format!("Sch{i}"),
            _ => format!("lem{i}"),
        };
        g.items.push((space, n, true));
        let k = g.items.len() - 1;
        places[place].push(k);
    }
    let depth = 2 + g.below(3);
    g.put("module 0x1::m {\n    struct S has copy, drop { x: u64, y: u64 }\n    struct P(u64) has copy, drop;\n    struct G<phantom X> has copy, drop { }\n");
    // a struct with its spec
    let mut structs = vec![];
    if g.chance(1, 2) {
        g.put("    struct R");
        let tp = g.type_params();
        g.put(" has key { ");
        let mut fields = vec![];
        g.scoped(tp.clone(), |g| {
            for _ in 0..1 + g.below(2) {
                let Some(n) = g.fresh(Space::Value, &fields) else { break };
                fields.push(g.declare(Space::Value, &n));
                g.put(": ");
                g.types(1);
                g.put(", ");
            }
        });
        g.put("}\n");
        structs.push(tp.into_iter().chain(fields).collect::<Vec<_>>());
    }
    let mut parts: Vec<usize> = (0..nf).collect();
    parts.extend([10, 11]);
    g.rng.shuffle(&mut parts);
    let mut own = vec![];
    for p in parts {
        match p {
            10 => g.spec_items(&places[0], depth, false),
            11 => {
                g.put("    spec module {\n");
                g.spec_items(&places[1], depth, true);
                g.put("    }\n    spec module");
                g.members("module", depth, vec![]);
                g.put("\n");
            }
            i => {
                g.put("    fun ");
                g.name_item(i);
                let (tp, ps) = g.fun_rest(depth, ": ");
                own.push((i, tp.into_iter().chain(ps).collect::<Vec<_>>()));
            }
        }
    }
    let specs = |g: &mut Gen, here: bool| {
        for (i, ps) in own.clone() {
            if g.chance(1, 2) != here {
                continue;
            }
            g.put("    spec ");
            g.mention_item(i);
            g.members("fun", depth, ps.clone());
            if g.chance(1, 4) {
                g.scoped(ps, |g| g.proof(depth));
            }
            g.put("\n");
        }
        for ps in structs.clone() {
            if g.chance(1, 2) != here {
                continue;
            }
            g.put("    spec R");
            g.members("struct", depth, ps);
            g.put("\n");
        }
    };
    specs(&mut g, true);
    g.put("}\n");
    if apart {
        g.file = 1;
    }
    g.put("spec 0x1::m {\n");
    g.env.spec = true;
    g.spec_items(&places[2], depth, false);
    specs(&mut g, false);
    if g.chance(1, 2) {
        g.put("    spec module");
        g.members("module", depth, vec![]);
        g.put("\n");
    }
    g.put("}\n");
    let (items, late) = (std::mem::take(&mut g.items), std::mem::take(&mut g.late));
    for u in g.uses.iter_mut() {
        if let Some(m) = u.means.as_mut().filter(|m| **m > usize::MAX / 2) {
            *m = late[&items[usize::MAX - *m].1];
        }
    }
    Case { files: g.files, decls: g.decls, uses: g.uses }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Names,
    References,
    Proposals,
}

pub fn run(ctx: &Ctx, judge: Judge) {
    ctx.par("scopes in scopes", ctx.size(if judge == Judge::Names { 3_000 } else { 1_000 }, 60_000), |rng, _| {
        let c = build(rng);
        let show = c.files.iter().enumerate().map(|(i, t)| format!("//- /{}\n{t}", FILES[i])).collect::<Vec<_>>().join("");
        ctx.open("scopes in scopes", &show);
        let r = guarded(|| look(ctx, &c, judge, rng));
        ctx.close();
        ctx.eval(vf::hash_of(&show), c.uses.len() > 3);
        match r {
            Ok(bad) => {
                if let Some(b) = bad.first() {
                    ctx.violation(&format!("scopes in scopes: {}", b.split(':').next().unwrap_or("")), format!("{}\n{show}", bad.join("\n")));
                }
            }
            Err(p) => ctx.panicked("scopes in scopes", &show, &p),
        }
    });
}

fn look(ctx: &Ctx, c: &Case, judge: Judge, rng: &mut Rng) -> Vec<String> {
    let pkg = Package { name: "p".into(), files: c.files.iter().enumerate().map(|(i, t)| (FILES[i].to_string(), t.clone())).collect(), ..Default::default() };
    let w = World::packages(&[pkg]);
    let a = w.analysis();
    let ids: Vec<FileId> = (0..c.files.len()).map(|i| w.files.iter().find(|f| f.0 == format!("/w/p/{}", FILES[i])).unwrap().1).collect();
    let spot = |id: FileId, s: u32, e: u32| ids.iter().position(|x| *x == id).map(|i| (i, s, e));
    let pos = |at: (usize, u32, u32)| crate::monitors::pos(ids[at.0], at.1 + 1);
    let line = |at: (usize, u32, u32)| {
        let t = &c.files[at.0];
        format!("f{}:{} `{}` at {}", at.0, t[..at.1 as usize].matches('\n').count() + 1, &t[at.1 as usize..at.2 as usize], at.1)
    };
    let mut bad = vec![];
    for id in &ids {
        for d in a.syntax_diagnostics(&ide_diagnostics::config::DiagnosticsConfig::test_sample(), *id).unwrap() {
            bad.push(format!("syntax: {:?} {}", d.range.range, d.message));
        }
    }
    if !bad.is_empty() {
        return bad;
    }
    match judge {
        Judge::Names => {
            for u in &c.uses {
                let got: BTreeSet<_> = match a.goto_definition_multi(pos(u.at)).unwrap() {
                    Some(r) => r
                        .info
                        .iter()
                        .map(|n| {
                            let r = n.focus_or_full_range();
                            spot(n.file_id, r.start().into(), r.end().into())
                        })
                        .collect(),
                    None => BTreeSet::new(),
                };
                let want: BTreeSet<_> = u.means.iter().map(|d| Some(c.decls[*d].at)).collect();
                ctx.count(&format!("{}_{:?}", if u.means.is_some() { "found" } else { "nowhere" }, u.space), 1);
                if got != want {
                    bad.push(format!("{:?}: {} leads to {:?} and not to {:?}", u.space, line(u.at), got.iter().map(|x| x.map(line)).collect::<Vec<_>>(), want.iter().map(|x| x.map(line)).collect::<Vec<_>>()));
                }
            }
        }
        Judge::References => {
            for (i, d) in c.decls.iter().enumerate().filter(|d| d.1.space != Space::Label) {
                let want: BTreeSet<_> = c.uses.iter().filter(|u| u.means == Some(i)).map(|u| Some(u.at)).collect();
                let got: BTreeSet<_> = match a.find_all_refs(pos(d.at), None).unwrap() {
                    Some(r) => r.references.iter().flat_map(|(f, rs)| rs.iter().map(|r| spot(*f, r.start().into(), r.end().into()))).collect(),
                    None => BTreeSet::new(),
                };
                ctx.count(&format!("references_{:?}", d.space), want.len() as u64);
                let got: BTreeSet<_> = got.into_iter().filter(|x| *x != Some(d.at)).collect();
                if got != want {
                    bad.push(format!("{:?} {}: {} has references {:?} and not {:?}", d.space, d.name, line(d.at), got.iter().map(|x| x.map(line)).collect::<Vec<_>>(), want.iter().map(|x| x.map(line)).collect::<Vec<_>>()));
                }
            }
        }
        Judge::Proposals => {
            let cfg = crate::expect::completion_config(false);
            for u in &c.uses {
                if u.dim || !rng.chance(1, 3) {
                    continue;
                }
                let items = a.completions(&cfg, pos((u.at.0, u.at.1, u.at.2)), None).unwrap().unwrap_or_default();
                let pool: &[&str] = match u.space {
                    Space::Value => &VALUES,
                    Space::Type => &TYPES,
                    _ => &LABELS,
                };
                // what begins as the name does; all of these are single letters
                let mut got: Vec<&str> = items.iter().map(|i| i.lookup.as_str()).filter(|n| pool.contains(n)).collect();
                got.sort();
                let mut want: Vec<&str> = u.scope.iter().map(|x| x.0.as_str()).collect();
                want.sort();
                ctx.count(&format!("proposals_{:?}", u.space), want.len() as u64);
                if got != want {
                    bad.push(format!("{:?}: at {} there is {got:?} and not {want:?}", u.space, line(u.at)));
                }
            }
        }
    }
    bad
}

/// All of a program in one file.
pub fn text(rng: &mut Rng) -> String {
    build(rng).files.concat()
}
