//! Specifications in the known programs: conditions, schemas, spec functions, invariants, quantifiers.
use super::*;

#[derive(Clone, Debug)]
pub(super) struct SpecFun {
    pub module: usize,
    pub decl: usize,
    tparams: Vec<usize>,
    params: Vec<(usize, Ty)>,
    ret: Ty,
    body: bool,
}

#[derive(Clone, Debug)]
pub(super) struct Schema {
    pub module: usize,
    pub decl: usize,
    tparams: Vec<usize>,
    fields: Vec<(usize, Ty)>,
}

pub(super) const NUM: Ty = Ty::Int(6);

/// A type as specifications see it: no references, one type of numbers.
pub(super) fn erase(t: &Ty) -> Ty {
    match t {
        Ty::Int(_) => NUM,
        Ty::Ref(_, i) => erase(i),
        Ty::Vector(i) => Ty::Vector(Box::new(erase(i))),
        Ty::Adt(a, ts) => Ty::Adt(*a, ts.iter().map(erase).collect()),
        Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(erase).collect()),
        t => t.clone(),
    }
}

impl Gen<'_> {
    pub(super) fn plan_specs(&mut self, m: usize) {
        for k in 0..self.below(3) {
            let decl = self.declare(["holds", "total"][k], Kind::SpecFun);
            let tparams = self.plan_tparams(1);
            let mut names: Vec<&str> = LOCALS.to_vec();
            self.rng.shuffle(&mut names);
            let mut params = vec![];
            for n in names.iter().take(self.rng.below(4)) {
                let t = self.spec_type(1, &tparams);
                params.push((self.declare(n, Kind::Param), t));
            }
            for (i, t) in tparams.iter().enumerate() {
                params.push((self.declare(&format!("p{i}"), Kind::Param), Ty::Param(*t)));
            }
            let body = self.chance(4, 5);
            for (d, t) in &params {
                self.out.decls[*d].ty = Some(t.clone());
                self.out.decls[*d].warned = body;
                self.out.decls[*d].spec = true;
            }
            let ret = if self.chance(1, 2) { Ty::Bool } else { self.spec_type(1, &tparams) };
            self.sfuns.push(SpecFun { module: m, decl, tparams, params, ret, body });
        }
        for k in 0..self.below(3) {
            let decl = self.declare(["Grows", "Kept"][k], Kind::Schema);
            let tparams = self.plan_tparams(1);
            let mut names: Vec<&str> = LOCALS.to_vec();
            self.rng.shuffle(&mut names);
            let mut fields = vec![];
            for n in names.iter().take(1 + self.rng.below(3)) {
                let t = self.spec_type(1, &tparams);
                fields.push((self.declare(n, Kind::SchemaField), t));
            }
            for (i, t) in tparams.iter().enumerate() {
                fields.push((self.declare(&format!("p{i}"), Kind::SchemaField), Ty::Param(*t)));
            }
            for (d, t) in &fields {
                self.out.decls[*d].ty = Some(t.clone());
            }
            self.schemas.push(Schema { module: m, decl, tparams, fields });
        }
    }

    fn spec_type(&mut self, depth: usize, tparams: &[usize]) -> Ty {
        if self.chance(1, 3) {
            return NUM;
        }
        self.any_type(depth, tparams, usize::MAX)
    }

    pub(super) fn write_spec(&mut self, m: usize, kind: usize, i: usize) {
        self.b = Body { module: m, spec: true, dim: true, ..Default::default() };
        self.fuel = 40;
        self.put("\n    ");
        match kind {
            3 => {
                let s = self.sfuns[i].clone();
                self.b.tparams = s.tparams.clone();
                self.put(if s.body { "spec fun " } else { "spec native fun " });
                self.put_decl(s.decl);
                self.put_tparams(&s.tparams);
                self.put("(");
                for (i, (d, t)) in s.params.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.put_decl(*d);
                    self.put(": ");
                    self.put_type(t);
                    self.b.locals.push(*d);
                }
                self.put("): ");
                self.put_type(&s.ret);
                if !s.body {
                    return self.put(";\n");
                }
                self.put(" {\n        ");
                // no function calls another one below it: they don't recurse
                self.value(&s.ret, 3, true);
                self.put("\n    }\n");
            }
            4 => {
                let s = self.schemas[i].clone();
                self.b.tparams = s.tparams.clone();
                self.put("spec schema ");
                self.put_decl(s.decl);
                self.put_tparams(&s.tparams);
                self.put(" {\n");
                for (d, t) in &s.fields {
                    self.put("        ");
                    self.put_decl(*d);
                    self.put(": ");
                    self.put_type(t);
                    self.put(";\n");
                    self.b.locals.push(*d);
                }
                self.conditions(&["requires", "ensures", "aborts_if"], None, i);
                self.put("    }\n");
            }
            5 => {
                let s = self.funs[i].clone();
                self.b.tparams = s.tparams.clone();
                self.put("spec ");
                self.put_use(s.decl);
                self.put(" {\n");
                self.b.locals = s.params.iter().map(|p| p.0).collect();
                let ret = Some(s.ret.clone()).filter(|r| !matches!(r, Ty::Unit));
                self.conditions(&["requires", "ensures", "aborts_if", "ensures"], ret, usize::MAX);
                self.put("    }\n");
            }
            6 => {
                let s = self.adts[i].clone();
                self.put("spec ");
                self.put_use(s.decl);
                self.put(" {\n");
                if !s.is_enum && !s.variants[0].1 && s.tparams.is_empty() {
                    for (d, t) in &s.variants[0].2 {
                        self.out.decls[*d].ty = Some(t.clone());
                        self.b.locals.push(*d);
                    }
                    self.conditions(&["invariant"], None, usize::MAX);
                } else {
                    self.put("        pragma bv = b\"0\";\n");
                }
                self.put("    }\n");
            }
            _ => {
                self.put("spec module {\n");
                self.conditions(&["invariant", "axiom"], None, usize::MAX);
                self.put("    }\n");
            }
        }
    }

    /// The members of a spec block. `ret`: what the function returns; `below`: schemas that may be included.
    fn conditions(&mut self, kinds: &[&str], ret: Option<Ty>, below: usize) {
        if self.chance(1, 3) {
            let p = ["pragma opaque;", "pragma aborts_if_is_partial = true, verify = false;", "pragma intrinsic = map;"][self.below(3)];
            self.put("        ");
            self.put(p);
            self.put("\n");
        }
        let fun = kinds.contains(&"requires") && below == usize::MAX;
        let mut pre: Vec<usize> = vec![];
        let mut post: Vec<usize> = vec![];
        let base = self.b.locals.clone();
        let mut names: Vec<&str> = LOCALS.to_vec();
        self.rng.shuffle(&mut names);
        names.retain(|n| !base.iter().any(|d| self.out.decls[*d].name == *n));
        let mut lets = vec![];
        if fun {
            for n in names.iter().take(self.rng.below(4)) {
                let later = self.chance(1, 3);
                // a later state's name is not seen by an earlier one, whatever else it stands for
                let was = base.iter().copied().find(|d| LOCALS.contains(&self.out.decls[*d].name.as_str()));
                let name = match was.filter(|_| later && self.rng.chance(1, 3)) {
                    Some(d) if !post.iter().any(|p| self.out.decls[*p].name == self.out.decls[d].name) => self.name(d),
                    _ => n.to_string(),
                };
                let tps = self.b.tparams.clone();
                let t = erase(&self.any_type(1, &tps, usize::MAX));
                self.put("        let ");
                if later {
                    self.put("post ");
                }
                let d = self.declare(&name, Kind::Local);
                self.put_decl(d);
                self.out.decls[d].warned = true;
                self.out.decls[d].spec = true;
                self.put(" = ");
                self.b.locals = base.iter().chain(&pre).copied().collect();
                if later {
                    self.b.locals.extend(&post);
                    self.b.post = true;
                    self.b.result = ret.clone();
                }
                self.plain(&t, 2, false);
                self.b.post = false;
                self.b.result = None;
                self.put(";\n");
                self.out.decls[d].ty = Some(t);
                if later { post.push(d) } else { pre.push(d) }
                lets.push(d);
            }
        }
        let hidden: Vec<String> = post.iter().map(|d| self.name(*d)).collect();
        let mut includes = false;
        for _ in 0..self.below(4) {
            let kind = kinds[self.below(kinds.len())];
            self.b.locals = base.iter().chain(&pre).copied().collect();
            if kind == "ensures" {
                self.b.locals.extend(&post);
                self.b.post = true;
                self.b.result = ret.clone();
            } else {
                let names = hidden.clone();
                self.b.locals.retain(|d| !names.contains(&self.out.decls[*d].name));
            }
            self.put("        ");
            if below > 0 && kind != "invariant" && kind != "axiom" && self.chance(1, 4) {
                includes |= self.include(below);
            } else {
                self.put(kind);
                self.put(" ");
                let bare = self.here();
                self.value(&Ty::Bool, 3, true);
                let _ = bare;
                if kind == "aborts_if" && self.chance(1, 2) {
                    self.put(" with ");
                    self.operand(&NUM, 0, true);
                }
                self.put(";");
            }
            self.put("\n");
            self.b.post = false;
            self.b.result = None;
        }
        if includes {
            for d in lets {
                self.out.decls[d].warned = false;
            }
        }
        self.b.locals = base;
    }

    fn include(&mut self, below: usize) -> bool {
        let me = self.b.module;
        let ss: Vec<usize> = (0..self.schemas.len().min(below)).filter(|s| self.schemas[*s].module == me).collect();
        if ss.is_empty() {
            return false;
        }
        let i = self.any(&ss);
        let s = self.schemas[i].clone();
        self.put("include ");
        if self.chance(1, 4) {
            self.put("Self::");
        }
        self.put_use(s.decl);
        let mine = self.b.tparams.clone();
        let targs: Vec<Ty> = s.tparams.iter().map(|_| erase(&self.any_type(0, &mine, 0))).collect();
        if !targs.is_empty() {
            self.put_types(&targs);
        }
        self.put(" { ");
        let mut fields = s.fields.clone();
        self.rng.shuffle(&mut fields);
        for (i, (d, t)) in fields.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            self.put_use(*d);
            self.put(": ");
            let t = erase(&substitute(t, &s.tparams, &targs));
            self.value(&t, 1, true);
        }
        self.put(" };");
        true
    }

    pub(super) fn spec_seen_of(&self, t: &Ty) -> Vec<usize> {
        self.seen().into_iter().filter(|d| self.out.decls[*d].ty.as_ref().is_some_and(|x| erase(x) == *t)).collect()
    }

    /// The type of a name in a specification as it is shown.
    pub(super) fn spec_shown(&self, d: usize) -> Option<Ty> {
        self.out.decls[d].ty.as_ref().map(erase)
    }

    pub(super) fn spec_plain(&mut self, t: &Ty, depth: usize) {
        let t = &erase(t);
        self.fuel -= 1;
        let mine = self.spec_seen_of(t);
        if !mine.is_empty() && (depth == 0 || self.fuel < 0 || self.chance(1, 2)) {
            return self.spec_local(&mine);
        }
        if depth > 0 && self.fuel > 0 {
            for _ in 0..3 {
                if self.spec_compound(t, depth - 1) {
                    return;
                }
            }
        }
        self.spec_base(t, depth.saturating_sub(1))
    }

    fn spec_local(&mut self, ds: &[usize]) {
        let d = self.any(ds);
        let old = self.b.post && self.chance(1, 3);
        if old {
            self.put("old(");
        }
        self.put_local(d);
        if old {
            self.put(")");
        }
    }

    fn spec_base(&mut self, t: &Ty, depth: usize) {
        match t {
            Ty::Int(_) | Ty::Bool | Ty::Addr => {
                let cs: Vec<usize> = self.consts.iter().filter(|c| c.module == self.b.module && erase(&c.ty) == *t).map(|c| c.decl).collect();
                if !cs.is_empty() && self.chance(1, 2) {
                    let s = self.here();
                    let d = self.any(&cs);
                    self.put_use(d);
                    let shown = self.spelled(t, true);
                    self.out.typed.push((self.file, s, shown));
                    return;
                }
                if *t == NUM && self.chance(1, 6) {
                    return self.put(["MAX_U64", "MAX_U8", "MAX_U128"][depth % 3]);
                }
                self.literal(t, true)
            }
            Ty::Vector(i) => {
                if self.chance(1, 3) {
                    self.put("vec(");
                    self.plain(i, depth, false);
                    return self.put(")");
                }
                self.put("vector");
                let k = self.below(3);
                if k == 0 || self.chance(1, 4) {
                    self.put("<");
                    self.put_type(i);
                    self.put(">");
                }
                self.put("[");
                for n in 0..k {
                    if n > 0 {
                        self.put(", ");
                    }
                    self.plain(i, depth, false);
                }
                self.put("]");
            }
            Ty::Adt(a, args) => {
                if self.adts[*a].module == self.b.module && self.chance(2, 3) {
                    self.construct(*a, args, depth)
                } else {
                    let f = self.adts[*a].maker;
                    self.call(f, &args.clone(), depth)
                }
            }
            Ty::Param(_) => match self.spec_seen_of(t) {
                ds if !ds.is_empty() => self.spec_local(&ds),
                _ => {
                    // there is one, whichever
                    self.put("(choose ");
                    let free = self.free_names();
                    let d = self.declare(&free[0].clone(), Kind::Local);
                    self.out.decls[d].spec = true;
                    self.bind(d, t.clone(), false);
                    self.put(": ");
                    self.put_type(t);
                    self.put(" where ");
                    self.put_use(d);
                    self.put(" == ");
                    self.put_use(d);
                    self.put(")");
                }
            },
            _ => unreachable!(),
        }
    }

    /// Names that mean nothing here.
    fn free_names(&self) -> Vec<String> {
        let mut v: Vec<String> = LOCALS.iter().map(|n| n.to_string()).collect();
        v.extend((0..9).map(|i| format!("q{i}")));
        v.retain(|n| !self.b.locals.iter().any(|d| self.out.decls[*d].name == *n));
        v
    }

    fn spec_compound(&mut self, t: &Ty, depth: usize) -> bool {
        let me = self.b.module;
        match self.below(12) {
            0 | 1 => match t {
                Ty::Int(_) => {
                    let op = ["+", "-", "*", "/", "%"][self.below(5)];
                    self.operand(t, depth, true);
                    self.put(&format!(" {op} "));
                    self.operand(t, depth, true);
                    true
                }
                Ty::Bool => {
                    match self.below(4) {
                        0 => {
                            self.put("!");
                            self.operand(&Ty::Bool, depth, true);
                        }
                        1 => {
                            self.operand(&Ty::Bool, depth, true);
                            let op = [" && ", " || ", " ==> ", " <==> "][self.below(4)];
                            self.put(op);
                            self.operand(&Ty::Bool, depth, true);
                        }
                        2 => {
                            let o = erase(&self.any_type(1, &self.b.tparams.clone(), usize::MAX));
                            self.operand(&o, depth, false);
                            let op = if self.chance(1, 2) { " == " } else { " != " };
                            self.put(op);
                            self.operand(&o, depth, false);
                        }
                        _ => {
                            self.operand(&NUM, depth, false);
                            let op = [" < ", " > ", " <= ", " >= "][self.below(4)];
                            self.put(op);
                            self.operand(&NUM, depth, true);
                        }
                    }
                    true
                }
                _ => false,
            },
            // quantifiers
            2 | 3 if *t == Ty::Bool => {
                self.put("(");
                let w = ["forall ", "exists "][self.below(2)];
                self.put(w);
                let n = self.b.locals.len();
                let mut names: Vec<&str> = LOCALS.to_vec();
                self.rng.shuffle(&mut names);
                names.truncate(1 + self.rng.below(2));
                // ranges are outside of it
                let outside: Vec<usize> = self.seen().into_iter().filter(|d| !names.contains(&self.out.decls[*d].name.as_str())).collect();
                let mut ds = vec![];
                for (i, name) in names.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    let d = self.declare(name, Kind::Local);
                    self.out.decls[d].spec = true;
                    let vs: Vec<usize> = outside.iter().copied().filter(|d| matches!(self.out.decls[*d].ty.as_ref().map(erase), Some(Ty::Vector(_)))).collect();
                    match self.below(3) {
                        0 => {
                            self.bind(d, NUM, false);
                            self.put(" in 0..");
                            self.literal(&NUM, true);
                        }
                        1 if !vs.is_empty() => {
                            let v = self.any(&vs);
                            let Some(Ty::Vector(i)) = self.out.decls[v].ty.as_ref().map(erase) else { unreachable!() };
                            self.bind(d, *i, false);
                            self.put(" in ");
                            self.put_local(v);
                        }
                        _ => {
                            let tps = self.b.tparams.clone();
                            let t = self.spec_type(1, &tps);
                            self.bind(d, t.clone(), false);
                            self.put(": ");
                            self.put_type(&t);
                        }
                    }
                    ds.push(d);
                }
                self.b.locals.extend(ds);
                if self.chance(1, 4) {
                    self.put(" where ");
                    self.operand(&Ty::Bool, depth, true);
                }
                self.put(": ");
                self.operand(&Ty::Bool, depth, true);
                self.put(")");
                self.b.locals.truncate(n);
                true
            }
            4 => {
                self.put("if (");
                self.value(&Ty::Bool, depth, true);
                self.put(") { ");
                self.plain(t, depth, false);
                self.put(" } else { ");
                self.plain(t, depth, false);
                self.put(" }");
                true
            }
            5 => {
                // nothing in a block of a specification may be shadowed that is used before
                let n = self.b.locals.len();
                let free = self.free_names();
                let name = free[self.below(free.len())].clone();
                let tps = self.b.tparams.clone();
                let lt = erase(&self.any_type(1, &tps, usize::MAX));
                self.put("{ let ");
                let d = self.declare(&name, Kind::Local);
                self.out.decls[d].spec = true;
                self.bind(d, lt.clone(), false);
                self.put(" = ");
                self.plain(&lt, depth.min(1), false);
                self.put("; ");
                self.b.locals.push(d);
                self.plain(t, depth, false);
                self.put(" }");
                self.b.locals.truncate(n);
                true
            }
            6 | 7 => {
                let mut found = vec![];
                for d in self.seen() {
                    let Some(lt) = self.out.decls[d].ty.as_ref().map(erase) else { continue };
                    let Ty::Adt(a, args) = &lt else { continue };
                    let s = &self.adts[*a];
                    if s.is_enum || s.module != me || s.variants[0].1 {
                        continue;
                    }
                    for (fd, ft) in &s.variants[0].2 {
                        if erase(&substitute(ft, &s.tparams, args)) == *t {
                            found.push((d, *fd));
                        }
                    }
                }
                if found.is_empty() {
                    return false;
                }
                let (d, fd) = found[self.below(found.len())];
                self.spec_local(&[d]);
                self.put(".");
                self.put_use(fd);
                true
            }
            8 | 9 => {
                let mut found = vec![];
                for f in 0..self.sfuns.len() {
                    let s = &self.sfuns[f];
                    let mut got = vec![None; s.tparams.len()];
                    if unify(&erase(&s.ret), t, &s.tparams, &mut got) {
                        found.push((f, got));
                    }
                }
                if found.is_empty() || self.chance(1, 3) {
                    return self.spec_call(t, depth);
                }
                let (f, got) = found[self.below(found.len())].clone();
                let mine = self.b.tparams.clone();
                let targs: Vec<Ty> = got.into_iter().map(|x| x.unwrap_or_else(|| erase(&self.any_type(0, &mine, 0)))).collect();
                let s = self.sfuns[f].clone();
                if s.module != me || self.chance(1, 6) {
                    self.put_module(s.module, false);
                }
                self.put_use(s.decl);
                if !targs.is_empty() && self.chance(1, 3) {
                    self.put_types(&targs);
                }
                self.put("(");
                for (i, (_, pt)) in s.params.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    let pt2 = erase(&substitute(pt, &s.tparams, &targs));
                    if mentions(pt, &s.tparams) { self.plain(&pt2, depth, false) } else { self.value(&pt2, depth, true) }
                }
                self.put(")");
                true
            }
            10 => {
                if self.b.result.as_ref().map(erase).as_ref() == Some(t) {
                    self.put("result");
                    return true;
                }
                if let Some(Ty::Tuple(ts)) = self.b.result.clone() {
                    if let Some(i) = ts.iter().position(|x| erase(x) == *t) {
                        self.put(&format!("result_{}", i + 1));
                        return true;
                    }
                }
                false
            }
            _ => {
                if *t == NUM && self.chance(1, 2) {
                    let vs: Vec<usize> = self.seen().into_iter().filter(|d| matches!(self.out.decls[*d].ty.as_ref().map(erase), Some(Ty::Vector(_)))).collect();
                    if !vs.is_empty() {
                        self.put("len(");
                        self.spec_local(&vs);
                        self.put(")");
                        return true;
                    }
                }
                let vs = self.spec_seen_of(&Ty::Vector(Box::new(t.clone())));
                if vs.is_empty() {
                    return false;
                }
                let v = self.any(&vs);
                self.put_local(v);
                self.put("[");
                self.value(&NUM, depth.min(1), true);
                self.put("]");
                true
            }
        }
    }

    /// A call of a function of the code.
    fn spec_call(&mut self, t: &Ty, depth: usize) -> bool {
        let me = self.b.module;
        let mut found = vec![];
        for f in 0..self.funs.len() {
            let s = &self.funs[f];
            let mut got = vec![None; s.tparams.len()];
            if !s.inline && self.callable(f, me, false) && unify(&erase(&s.ret), t, &s.tparams, &mut got) {
                found.push((f, got));
            }
        }
        if found.is_empty() {
            return false;
        }
        let (f, got) = found[self.below(found.len())].clone();
        let mine = self.b.tparams.clone();
        let targs: Vec<Ty> = got.into_iter().map(|x| x.unwrap_or_else(|| erase(&self.any_type(0, &mine, 0)))).collect();
        self.call(f, &targs, depth);
        true
    }

    /// A specification among statements.
    pub(super) fn inline_spec(&mut self) {
        let was = self.b.clone();
        self.b.spec = true;
        self.b.dim = true;
        self.b.locals.retain(|d| !matches!(self.out.decls[*d].ty.as_ref().unwrap(), Ty::Fn(..)));
        // a name of a function value may be seen through what hides it
        let fns: Vec<String> = was.locals.iter().filter(|d| matches!(self.out.decls[**d].ty.as_ref().unwrap(), Ty::Fn(..))).map(|d| self.name(*d)).collect();
        self.b.locals.retain(|d| !fns.contains(&self.out.decls[*d].name));
        self.put("spec { ");
        for _ in 0..1 + self.below(2) {
            let kind = ["assert ", "assume "][self.below(2)];
            self.put(kind);
            self.value(&Ty::Bool, 2, true);
            self.put("; ");
        }
        self.put("};");
        self.b = was;
    }
}
