//! Programs of which everything is known beforehand: what each name means, what type everything has, what is
//! never used, and (if one was asked for) the one mistake in it.
use vf::Rng;

mod specs;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Int(usize),
    Bool,
    Addr,
    Unit,
    Vector(Box<Ty>),
    Adt(usize, Vec<Ty>),
    Ref(bool, Box<Ty>),
    /// a type parameter, by its declaration
    Param(usize),
    Tuple(Vec<Ty>),
    Fn(Vec<Ty>, Box<Ty>),
}

const INTS: [&str; 7] = ["u8", "u16", "u32", "u64", "u128", "u256", "num"];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Module,
    Struct,
    Enum,
    Variant,
    Field,
    Const,
    Fun,
    Param,
    Local,
    TypeParam,
    Label,
    SpecFun,
    Schema,
    SchemaField,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub name: String,
    pub kind: Kind,
    pub place: Option<(usize, u32, u32)>,
    pub ty: Option<Ty>,
    /// how many names lead here
    pub used: usize,
    /// worth a warning if unused
    pub warned: bool,
    /// some name for it is another
    pub aliased: bool,
    /// its type, as it is shown
    pub shown: Option<String>,
    /// and with modules
    pub full: Option<String>,
    /// declared in a specification
    pub spec: bool,
}

#[derive(Clone, Debug)]
pub struct Use {
    pub at: (usize, u32, u32),
    pub decl: usize,
    /// the other declaration that one name stands for: `S { x }`
    pub also: Option<usize>,
}

/// What can be seen from a place.
#[derive(Clone, Debug)]
pub struct View {
    /// a name used as a value there
    pub at: (usize, u32, u32),
    pub locals: Vec<usize>,
    pub module: usize,
    pub test: bool,
    pub tparams: Vec<usize>,
}

/// What may stand in a place: kinds and names.
#[derive(Clone, Debug)]
pub struct Offer {
    pub at: (usize, u32, u32),
    pub kind: &'static str,
    pub want: Vec<String>,
}

/// A call: where its arguments are.
#[derive(Clone, Debug)]
pub struct Call {
    pub fun: usize,
    pub method: bool,
    /// file, then where each argument starts and ends
    pub file: usize,
    pub args: Vec<(u32, u32)>,
    pub close: u32,
    /// what each argument is passed for, and how that is shown
    pub params: Vec<(usize, Ty)>,
    pub shown: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub what: &'static str,
    pub at: (usize, u32, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wanted {
    Nothing,
    UnknownName,
    UnknownType,
    WrongType,
    TooFew,
    TooMany,
    MissingField,
    Hidden,
    UnknownMember,
    ManyTypes,
    UnmentionedField,
    NoSuchField,
    WrongOperand,
}

pub const FAULTS: [Wanted; 12] = [
    Wanted::UnknownName,
    Wanted::UnknownType,
    Wanted::WrongType,
    Wanted::TooFew,
    Wanted::TooMany,
    Wanted::MissingField,
    Wanted::Hidden,
    Wanted::UnknownMember,
    Wanted::ManyTypes,
    Wanted::UnmentionedField,
    Wanted::NoSuchField,
    Wanted::WrongOperand,
];

#[derive(Clone, Debug)]
struct Adt {
    module: usize,
    decl: usize,
    tparams: Vec<usize>,
    /// one entry per variant; a struct has one of its own name. (declaration, tuple-like, fields)
    variants: Vec<(usize, bool, Vec<(usize, Ty)>)>,
    is_enum: bool,
    maker: usize,
}

#[derive(Clone, Debug)]
struct Fun {
    module: usize,
    decl: usize,
    tparams: Vec<usize>,
    params: Vec<(usize, Ty)>,
    ret: Ty,
    method: bool,
    inline: bool,
    test_only: bool,
    /// 0 private, 1 friend, 2 package, 3 public
    vis: usize,
    /// the struct or enum it makes, if that is all it does
    makes: Option<usize>,
}

#[derive(Clone, Debug)]
struct Const {
    module: usize,
    decl: usize,
    ty: Ty,
}

#[derive(Clone, Debug)]
enum Target {
    Module(usize),
    Fun(usize),
    Adt(usize),
}

#[derive(Clone, Debug)]
struct Import {
    target: Target,
    name: String,
    test_only: bool,
    used: std::cell::Cell<bool>,
    /// by something that is not only for tests
    main: std::cell::Cell<bool>,
}

#[derive(Clone, Debug, Default)]
struct Module {
    decl: usize,
    address: &'static str,
    file: usize,
    friends: Vec<usize>,
    imports: Vec<Import>,
    names: Vec<String>,
}

/// The body being written.
#[derive(Clone, Default)]
struct Body {
    module: usize,
    tparams: Vec<usize>,
    locals: Vec<usize>,
    ret: Option<Ty>,
    loops: Vec<Option<usize>>,
    test: bool,
    lambda: bool,
    /// what is seen here is not settled
    dim: bool,
    /// writing a type
    typing: bool,
    /// in a specification
    spec: bool,
    /// of the state after, where `old` means something
    post: bool,
    result: Option<Ty>,
}

pub struct Program {
    pub files: Vec<(String, String)>,
    pub decls: Vec<Decl>,
    pub uses: Vec<Use>,
    /// where a binding without a stated type ends, and its declaration
    pub bindings: Vec<(usize, u32, usize)>,
    /// an expression's first token and its type
    pub typed: Vec<(usize, u32, String)>,
    pub views: Vec<View>,
    pub offers: Vec<Offer>,
    pub calls: Vec<Call>,
    pub sigs: Vec<(usize, Vec<(String, String)>, String)>,
    /// a pattern's name that is a field's and declares a variable
    pub both: Vec<((usize, u32, u32), usize, usize)>,
    /// what each module's own items and imports make visible in it: name, declaration, and whether only to tests
    pub fun_decls: Vec<usize>,
    /// where an import is, whether something uses it, and whether tests only should see it
    pub imports: Vec<((usize, u32, u32), usize, usize, bool, bool)>,
    pub scopes: Vec<Vec<(String, usize, bool)>>,
    /// structs and enums and their modules
    pub owners: BTreeMap<usize, usize>,
    pub fault: Option<Fault>,
}

struct Gen<'a> {
    rng: &'a mut Rng,
    out: Program,
    modules: Vec<Module>,
    adts: Vec<Adt>,
    funs: Vec<Fun>,
    consts: Vec<Const>,
    sfuns: Vec<specs::SpecFun>,
    schemas: Vec<specs::Schema>,
    /// there are specifications
    specs: bool,
    file: usize,
    b: Body,
    wanted: Wanted,
    /// where the latest path of a type began
    path: u32,
    /// how many chances for the fault to let pass
    patience: usize,
    fuel: isize,
}

const LOCALS: [&str; 8] = ["a", "b", "x", "y1", "num", "key", "item", "other"];
const MODULES: [&str; 5] = ["alpha", "beta", "x", "item", "gamma"];
const TYPES: [&str; 7] = ["S", "R", "Coin", "T", "Shape", "Pair", "Node"];
const TPARAMS: [&str; 3] = ["T", "U", "S"];
const ADDRESSES: [&str; 4] = ["0x1", "0x01", "std", "aptos_std"];

pub fn program(rng: &mut Rng, wanted: Wanted) -> Program {
    let out = Program { files: vec![], decls: vec![], uses: vec![], bindings: vec![], typed: vec![], views: vec![], offers: vec![], calls: vec![], sigs: vec![], both: vec![], fun_decls: vec![], imports: vec![], scopes: vec![], owners: BTreeMap::new(), fault: None };
    let patience = if wanted == Wanted::Nothing { 0 } else { rng.below(12) };
    let mut g = Gen { rng, out, modules: vec![], adts: vec![], funs: vec![], consts: vec![], sfuns: vec![], schemas: vec![], specs: false, file: 0, b: Body::default(), wanted, patience, fuel: 0, path: 0 };
    g.plan();
    g.write();
    g.finish()
}

impl Gen<'_> {
    fn chance(&mut self, a: usize, b: usize) -> bool {
        self.rng.chance(a, b)
    }
    fn below(&mut self, n: usize) -> usize {
        self.rng.below(n)
    }
    fn declare(&mut self, name: &str, kind: Kind) -> usize {
        self.out.decls.push(Decl { name: name.to_string(), kind, place: None, ty: None, used: 0, warned: false, aliased: false, shown: None, full: None, spec: false });
        self.out.decls.len() - 1
    }
    fn any(&mut self, ds: &[usize]) -> usize {
        ds[self.rng.below(ds.len())]
    }
    fn name(&self, d: usize) -> String {
        self.out.decls[d].name.clone()
    }
    /// The fault is due here.
    fn due(&mut self, w: Wanted) -> bool {
        if self.wanted != w || self.out.fault.is_some() {
            return false;
        }
        if self.patience > 0 {
            self.patience -= 1;
            return false;
        }
        // one is enough
        self.wanted = Wanted::Nothing;
        true
    }

    // ---- planning

    fn plan(&mut self) {
        let n = 1 + self.below(3);
        let mut names: Vec<&str> = MODULES.to_vec();
        self.rng.shuffle(&mut names);
        let files = 1 + self.below(n);
        for i in 0..files {
            self.out.files.push((format!("sources/f{i}.move"), String::new()));
        }
        for name in names.iter().take(n) {
            let decl = self.declare(name, Kind::Module);
            let file = self.below(files);
            let address = ADDRESSES[self.below(ADDRESSES.len())];
            self.modules.push(Module { decl, file, address, ..Default::default() });
        }
        for m in 0..n {
            for o in 0..n {
                if m != o && self.chance(1, 2) {
                    self.modules[m].friends.push(o);
                }
            }
        }
        for m in 0..n {
            let mut types: Vec<&str> = TYPES.to_vec();
            self.rng.shuffle(&mut types);
            for t in types.iter().take(1 + self.rng.below(3)) {
                self.plan_adt(m, t);
            }
            for k in 0..self.below(3) {
                let decl = self.declare(&format!("{}{k}", ["MAX", "E_LIMIT", "C"][k]), Kind::Const);
                let ty = match self.below(4) {
                    0 => Ty::Bool,
                    1 => Ty::Addr,
                    _ => Ty::Int(self.below(6)),
                };
                self.consts.push(Const { module: m, decl, ty });
            }
        }
        for m in 0..n {
            for k in 0..2 + self.below(4) {
                self.plan_fun(m, k);
            }
        }
        for m in 0..n {
            self.plan_imports(m);
        }
        self.specs = self.chance(1, 2);
        if self.specs {
            for m in 0..n {
                self.plan_specs(m);
            }
        }
    }

    fn plan_tparams(&mut self, most: usize) -> Vec<usize> {
        let mut names: Vec<&str> = TPARAMS.to_vec();
        self.rng.shuffle(&mut names);
        let k = if self.chance(1, 2) { 0 } else { self.below(most + 1) };
        names.iter().take(k).map(|t| self.declare(t, Kind::TypeParam)).collect()
    }

    fn plan_adt(&mut self, m: usize, name: &str) {
        let is_enum = self.chance(1, 3);
        let decl = self.declare(name, if is_enum { Kind::Enum } else { Kind::Struct });
        let tparams = self.plan_tparams(2);
        let me = self.adts.len();
        let mut variants = vec![];
        let k = if is_enum { 1 + self.below(3) } else { 1 };
        for v in 0..k {
            let vd = if is_enum { self.declare(["One", "Two", "Rest"][v], Kind::Variant) } else { decl };
            let tuple = self.chance(1, 4);
            let mut names: Vec<&str> = LOCALS.to_vec();
            self.rng.shuffle(&mut names);
            let mut fields = vec![];
            let mut count = if is_enum { self.below(3) } else { 1 + self.below(3) };
            if v == 0 {
                count = count.max(tparams.len());
            }
            for (i, n) in names.iter().take(count).enumerate() {
                let ty = if v == 0 && i < tparams.len() { Ty::Param(tparams[i]) } else { self.any_type(1, &tparams, me) };
                let fd = if tuple { usize::MAX } else { self.declare(n, Kind::Field) };
                fields.push((fd, ty));
            }
            variants.push((vd, tuple && count > 0, fields));
        }
        let maker = self.funs.len();
        self.adts.push(Adt { module: m, decl, tparams: tparams.clone(), variants: variants.clone(), is_enum, maker });
        // what makes one, for others
        let fd = self.declare(&format!("new_{}", name.to_lowercase()), Kind::Fun);
        let fresh: Vec<usize> = tparams.iter().map(|t| self.declare(&self.name(*t), Kind::TypeParam)).collect();
        let args: Vec<Ty> = fresh.iter().map(|t| Ty::Param(*t)).collect();
        let params = variants[0]
            .2
            .iter()
            .enumerate()
            .map(|(i, (_, t))| {
                let d = self.declare(&format!("p{i}"), Kind::Param);
                let ty = substitute(t, &tparams, &args);
                self.out.decls[d].ty = Some(ty.clone());
                (d, ty)
            })
            .collect();
        self.funs.push(Fun { module: m, decl: fd, tparams: fresh, params, ret: Ty::Adt(me, args), method: false, inline: false, test_only: false, vis: 3, makes: Some(me) });
    }

    fn plan_fun(&mut self, m: usize, k: usize) {
        let decl = self.declare(&["get", "run", "put", "f", "go", "calc"][k].to_string(), Kind::Fun);
        let inline = self.chance(1, 6);
        let tparams = self.plan_tparams(2);
        // one that only the value of the lambda tells
        let told = inline && !tparams.is_empty() && self.chance(2, 3);
        let mut params = vec![];
        let own: Vec<usize> = (0..self.adts.len()).filter(|a| self.adts[*a].module == m).collect();
        let method = !inline && self.chance(1, 3);
        if method {
            let a = own[self.below(own.len())];
            let n = self.adts[a].tparams.len();
            let args = (0..n)
                .map(|_| if !tparams.is_empty() && self.chance(1, 2) { Ty::Param(tparams[self.rng.below(tparams.len())]) } else { self.any_type(0, &[], usize::MAX) })
                .collect();
            let t = Ty::Adt(a, args);
            let t = match self.below(3) {
                0 => t,
                1 => Ty::Ref(false, Box::new(t)),
                _ => Ty::Ref(true, Box::new(t)),
            };
            params.push((self.declare("self", Kind::Param), t));
        }
        for (i, t) in tparams.iter().enumerate().take(tparams.len() - told as usize) {
            params.push((self.declare(&format!("p{i}"), Kind::Param), Ty::Param(*t)));
        }
        let mut names: Vec<&str> = LOCALS.to_vec();
        self.rng.shuffle(&mut names);
        if inline {
            let others = &tparams[..tparams.len() - told as usize];
            let a = self.any_type(1, others, usize::MAX);
            let r = if told { Ty::Param(tparams[tparams.len() - 1]) } else { self.any_type(1, others, usize::MAX) };
            params.push((self.declare("pf", Kind::Param), Ty::Fn(vec![a], Box::new(r))));
        }
        for n in names.iter().take(self.rng.below(4)) {
            let t = self.any_param(&tparams);
            params.push((self.declare(n, Kind::Param), t));
        }
        for (d, t) in &params {
            self.out.decls[*d].ty = Some(t.clone());
            self.out.decls[*d].warned = self.out.decls[*d].name != "self";
        }
        let ret = match self.below(5) {
            0 => Ty::Unit,
            1 => Ty::Tuple(vec![self.any_type(1, &tparams, usize::MAX), self.any_type(1, &tparams, usize::MAX)]),
            _ => self.any_type(2, &tparams, usize::MAX),
        };
        let test_only = self.chance(1, 8);
        let vis = self.below(4);
        self.funs.push(Fun { module: m, decl, tparams, params, ret, method, inline, test_only, vis, makes: None });
    }

    fn plan_imports(&mut self, m: usize) {
        let mut taken: Vec<String> = vec![];
        for f in self.funs.iter().filter(|f| f.module == m) {
            taken.push(self.name(f.decl));
        }
        for a in self.adts.iter().filter(|a| a.module == m) {
            taken.push(self.name(a.decl));
        }
        taken.push(self.name(self.modules[m].decl));
        let mut imports = vec![];
        let mut add = |g: &mut Self, target: Target, own: String, test_only: bool| {
            let mut name = own.clone();
            if taken.contains(&name) || g.chance(1, 5) {
                name = match target {
                    Target::Adt(_) => format!("Aka{}", taken.len()),
                    _ => format!("aka{}", taken.len()),
                };
            }
            taken.push(name.clone());
            imports.push(Import { target, name, test_only, used: Default::default(), main: Default::default() });
        };
        for o in 0..self.modules.len() {
            if o != m && self.chance(1, 2) {
                let n = self.name(self.modules[o].decl);
                add(self, Target::Module(o), n, false);
            }
        }
        for f in 0..self.funs.len() {
            let ok = self.funs[f].module != m && self.funs[f].vis > 0 && self.callable(f, m, true);
            if ok && self.chance(1, 4) {
                let n = self.name(self.funs[f].decl);
                let t = self.funs[f].test_only;
                add(self, Target::Fun(f), n, t);
            }
        }
        for a in 0..self.adts.len() {
            if self.adts[a].module != m && self.chance(1, 4) {
                let n = self.name(self.adts[a].decl);
                add(self, Target::Adt(a), n, false);
            }
        }
        self.rng.shuffle(&mut imports);
        self.modules[m].imports = imports;
        self.modules[m].names = taken;
    }

    fn callable(&self, f: usize, from: usize, test: bool) -> bool {
        let f = &self.funs[f];
        if f.test_only && !test {
            return false;
        }
        f.module == from || f.vis >= 2 || f.vis == 1 && self.modules[f.module].friends.contains(&from)
    }

    fn any_type(&mut self, depth: usize, tparams: &[usize], below: usize) -> Ty {
        match self.below(if depth == 0 { 6 } else { 10 }) {
            0 => Ty::Bool,
            1 => Ty::Addr,
            2 if !tparams.is_empty() => Ty::Param(tparams[self.rng.below(tparams.len())]),
            6 | 7 => Ty::Vector(Box::new(self.any_type(depth - 1, tparams, below))),
            8 | 9 if below.min(self.adts.len()) > 0 => {
                let a = self.below(below.min(self.adts.len()));
                let n = self.adts[a].tparams.len();
                Ty::Adt(a, (0..n).map(|_| self.any_type(depth - 1, tparams, below)).collect())
            }
            _ => Ty::Int(self.below(6)),
        }
    }

    fn any_param(&mut self, tparams: &[usize]) -> Ty {
        let t = self.any_type(2, tparams, usize::MAX);
        match self.below(4) {
            0 => Ty::Ref(false, Box::new(t)),
            1 => Ty::Ref(true, Box::new(t)),
            _ => t,
        }
    }

    // ---- writing

    fn put(&mut self, s: &str) {
        let f = self.file;
        self.out.files[f].1.push_str(s);
    }
    fn here(&self) -> u32 {
        self.out.files[self.file].1.len() as u32
    }
    fn put_decl(&mut self, d: usize) {
        let s = self.here();
        let n = self.name(d);
        self.put(&n);
        self.out.decls[d].place = Some((self.file, s, s + n.len() as u32));
    }
    fn put_use_as(&mut self, d: usize, text: &str) {
        let s = self.here();
        self.put(text);
        self.out.decls[d].used += 1;
        if self.out.decls[d].name != text {
            self.out.decls[d].aliased = true;
        }
        self.out.uses.push(Use { at: (self.file, s, s + text.len() as u32), decl: d, also: None });
    }
    fn put_use(&mut self, d: usize) {
        let n = self.name(d);
        self.put_use_as(d, &n)
    }
    fn put_address(&mut self) {
        let a = ADDRESSES[self.below(ADDRESSES.len())];
        self.put(a);
        self.put("::");
    }
    /// Up to the module of an item, if it has to be or may be said.
    fn put_module(&mut self, m: usize, test: bool) {
        let me = self.b.module;
        if m == me && self.chance(2, 3) {
            return self.put("Self::");
        }
        let d = self.modules[m].decl;
        let named: Vec<usize> = (0..self.modules[me].imports.len())
            .filter(|i| {
                let x = &self.modules[me].imports[*i];
                matches!(x.target, Target::Module(o) if o == m) && (!x.test_only || test)
            })
            .collect();
        if let Some(i) = named.first().copied().filter(|_| self.rng.chance(3, 4)) {
            self.modules[me].imports[i].used.set(true);
            if !self.b.test {
                self.modules[me].imports[i].main.set(true);
            }
            let n = self.modules[me].imports[i].name.clone();
            self.put_use_as(d, &n);
        } else {
            self.put_address();
            self.put_use(d);
        }
        self.put("::");
    }
    fn put_adt(&mut self, a: usize) {
        self.path = self.here();
        let (m, d) = (self.adts[a].module, self.adts[a].decl);
        let me = self.b.module;
        let hidden = |g: &Self, n: &str| g.b.tparams.iter().any(|t| g.out.decls[*t].name == n);
        if m == me && !hidden(self, &self.name(d)) && self.chance(4, 5) {
            return self.put_type_name(d, None);
        }
        let i = self.modules[me].imports.iter().position(|x| matches!(x.target, Target::Adt(y) if y == a));
        if let Some(i) = i.filter(|i| !hidden(self, &self.modules[me].imports[*i].name)) {
            if self.chance(3, 4) {
                self.modules[me].imports[i].used.set(true);
            if !self.b.test {
                self.modules[me].imports[i].main.set(true);
            }
                let n = self.modules[me].imports[i].name.clone();
                return self.put_type_name(d, Some(n));
            }
        }
        self.put_module(m, self.b.test);
        let at = self.here();
        self.put_use(d);
        if self.b.typing && self.chance(1, 6) {
            let want = self.adts.iter().filter(|a| a.module == m).map(|a| format!("{:?} {}", self.out.decls[a.decl].kind, self.name(a.decl))).collect();
            self.offer(at, "type of a module", want);
        }
    }
    fn offer(&mut self, at: u32, kind: &'static str, want: Vec<String>) {
        if self.out.fault.is_none() && !self.b.spec {
            self.out.offers.push(Offer { at: (self.file, at, self.here()), kind, want });
        }
    }
    /// A type that can be seen from here.
    fn put_type_name(&mut self, d: usize, name: Option<String>) {
        let at = self.here();
        match name {
            Some(n) => self.put_use_as(d, &n),
            None => self.put_use(d),
        }
        if !self.b.typing || !self.chance(1, 6) {
            return;
        }
        let me = self.b.module;
        let mut want: Vec<(Kind, String)> = self.b.tparams.iter().map(|t| (Kind::TypeParam, self.name(*t))).collect();
        let hidden: Vec<String> = want.iter().map(|x| x.1.clone()).collect();
        let mut types: Vec<(Kind, String)> = self.adts.iter().filter(|a| a.module == me).map(|a| (self.out.decls[a.decl].kind, self.name(a.decl))).collect();
        for x in &self.modules[me].imports {
            match x.target {
                Target::Adt(a) if !x.test_only || self.b.test => types.push((self.out.decls[self.adts[a].decl].kind, x.name.clone())),
                Target::Module(_) if !x.test_only || self.b.test => want.push((Kind::Module, x.name.clone())),
                _ => (),
            }
        }
        types.retain(|t| !hidden.contains(&t.1));
        want.extend(types);
        let want = want.into_iter().map(|(k, n)| format!("{k:?} {n}")).collect();
        self.offer(at, "type", want);
    }
    fn put_fun(&mut self, f: usize) {
        let (m, d) = (self.funs[f].module, self.funs[f].decl);
        let me = self.b.module;
        if m == me && self.chance(4, 5) {
            return self.put_use(d);
        }
        let i = self.modules[me].imports.iter().position(|x| matches!(x.target, Target::Fun(y) if y == f));
        if let Some(i) = i {
            if (!self.modules[me].imports[i].test_only || self.b.test) && self.chance(3, 4) {
                self.modules[me].imports[i].used.set(true);
            if !self.b.test {
                self.modules[me].imports[i].main.set(true);
            }
                let n = self.modules[me].imports[i].name.clone();
                return self.put_use_as(d, &n);
            }
        }
        self.put_module(m, self.b.test);
        let at = self.here();
        self.put_use(d);
        if self.chance(1, 4) {
            let mut want: Vec<String> = (0..self.funs.len())
                .filter(|f| self.funs[*f].module == m && self.callable(*f, me, self.b.test))
                .map(|f| format!("Fun {}", self.name(self.funs[f].decl)))
                .collect();
            self.offer(at, "function of a module", want);
        }
    }
    /// What may stand behind the dot after a value.
    fn files_end(&self, with: &str) -> bool {
        self.out.files[self.file].1.ends_with(with)
    }

    fn put_member(&mut self, t: &Ty, d: usize) {
        let at = self.here();
        if self.due(Wanted::UnknownMember) {
            self.put("nosuch");
            self.out.fault = Some(Fault { what: "unresolved-reference", at: (self.file, at, self.here()) });
            return;
        }
        self.put_use(d);
        let (r, inner) = match t {
            Ty::Ref(m, i) => (Some(*m), (**i).clone()),
            t => (None, t.clone()),
        };
        let Ty::Adt(a, _) = &inner else { return };
        let a = *a;
        if !self.chance(1, 2) {
            return;
        }
        let me = self.b.module;
        let s = self.adts[a].clone();
        let mut want: Vec<String> = vec![];
        if s.module == me && !s.is_enum && !s.variants[0].1 {
            want.extend(s.variants[0].2.iter().map(|f| format!("Field {}", self.name(f.0))));
        }
        for f in 0..self.funs.len() {
            let s = &self.funs[f];
            if !s.method || !self.callable(f, me, self.b.test) {
                continue;
            }
            let (need, of) = match &s.params[0].1 {
                Ty::Ref(m, i) => (Some(*m), (**i).clone()),
                t => (None, t.clone()),
            };
            let fits = match (r, need) {
                (None, _) => true,
                (Some(m), Some(n)) => m || !n,
                (Some(_), None) => false,
            };
            if fits && loosely(&of, &inner, &s.tparams) {
                want.push(format!("Fun {}", self.name(s.decl)));
            }
        }
        self.offer(at, "member", want);
    }

    fn put_type(&mut self, t: &Ty) {
        match t {
            Ty::Int(k) => self.put(INTS[*k]),
            Ty::Bool => self.put("bool"),
            Ty::Addr => self.put("address"),
            Ty::Unit => self.put("()"),
            Ty::Vector(i) => {
                self.put("vector<");
                self.put_type(i);
                self.put(">");
            }
            Ty::Adt(a, args) => {
                let was = std::mem::replace(&mut self.b.typing, true);
                self.put_adt(*a);
                self.b.typing = was;
                self.put_types(args);
            }
            Ty::Ref(m, i) => {
                self.put(if *m { "&mut " } else { "&" });
                self.put_type(i);
            }
            Ty::Param(d) => {
                let was = std::mem::replace(&mut self.b.typing, true);
                self.put_type_name(*d, None);
                self.b.typing = was;
            }
            Ty::Tuple(ts) => {
                self.put("(");
                for (i, t) in ts.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.put_type(t);
                }
                self.put(")");
            }
            Ty::Fn(ps, r) => {
                self.put("|");
                for (i, t) in ps.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.put_type(t);
                }
                self.put("| ");
                self.put_type(r);
            }
        }
    }
    fn put_types(&mut self, args: &[Ty]) {
        if args.is_empty() {
            return;
        }
        self.put("<");
        for (i, t) in args.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            self.put_type(t);
        }
        if self.due(Wanted::ManyTypes) {
            self.put(", ");
            let at = self.here();
            self.put("u8");
            self.out.fault = Some(Fault { what: "type-arguments-number-mismatch", at: (self.file, at, self.here()) });
        }
        self.put(">");
    }

    pub fn shown(&self, t: &Ty) -> String {
        self.spelled(t, false)
    }
    /// The type, its structs and enums with or without their modules.
    fn spelled(&self, t: &Ty, full: bool) -> String {
        let list = |ts: &[Ty]| ts.iter().map(|t| self.spelled(t, full)).collect::<Vec<_>>().join(", ");
        match t {
            Ty::Int(k) => INTS[*k].to_string(),
            Ty::Bool => "bool".into(),
            Ty::Addr => "address".into(),
            Ty::Unit => "()".into(),
            Ty::Vector(i) => format!("vector<{}>", self.spelled(i, full)),
            Ty::Adt(a, args) => {
                let a = &self.adts[*a];
                let m = &self.modules[a.module];
                let place = if full { format!("{}::{}::", m.address, self.name(m.decl)) } else { String::new() };
                let args = if args.is_empty() { String::new() } else { format!("<{}>", list(args)) };
                format!("{place}{}{args}", self.name(a.decl))
            }
            Ty::Ref(m, i) => format!("{}{}", if *m { "&mut " } else { "&" }, self.spelled(i, full)),
            Ty::Param(d) => self.name(*d),
            Ty::Tuple(ts) => format!("({})", list(ts)),
            Ty::Fn(ps, r) => format!("|{}| -> {}", list(ps), self.spelled(r, full)),
        }
    }

    fn write(&mut self) {
        for m in 0..self.modules.len() {
            self.file = self.modules[m].file;
            self.b = Body { module: m, ..Default::default() };
            self.put("module ");
            self.put(self.modules[m].address);
            self.put("::");
            self.put_decl(self.modules[m].decl);
            self.put(" {\n");
            let friends = self.modules[m].friends.clone();
            let imports = self.modules[m].imports.clone();
            for f in friends {
                self.put("    friend ");
                self.put_address();
                self.put_use(self.modules[f].decl);
                self.put(";\n");
            }
            for (i, x) in imports.iter().enumerate() {
                let at = self.here();
                self.put_import(x);
                self.out.imports.push(((self.file, at, self.here()), m, i, false, false));
            }
            let mut items: Vec<(usize, usize)> = vec![];
            items.extend((0..self.adts.len()).filter(|a| self.adts[*a].module == m).map(|a| (0, a)));
            items.extend((0..self.consts.len()).filter(|c| self.consts[*c].module == m).map(|c| (1, c)));
            items.extend((0..self.funs.len()).filter(|f| self.funs[*f].module == m).map(|f| (2, f)));
            if self.specs {
                items.extend((0..self.sfuns.len()).filter(|f| self.sfuns[*f].module == m).map(|f| (3, f)));
                items.extend((0..self.schemas.len()).filter(|f| self.schemas[*f].module == m).map(|f| (4, f)));
                for f in 0..self.funs.len() {
                    if self.funs[f].module == m && !self.funs[f].inline && !self.funs[f].test_only && self.chance(1, 2) {
                        items.push((5, f));
                    }
                }
                for a in 0..self.adts.len() {
                    if self.adts[a].module == m && self.chance(1, 3) {
                        items.push((6, a));
                    }
                }
                if self.chance(1, 3) {
                    items.push((7, 0));
                }
            }
            self.rng.shuffle(&mut items);
            for (k, i) in items {
                match k {
                    0 => self.write_adt(i),
                    1 => self.write_const(i),
                    2 => self.write_fun(i),
                    k => self.write_spec(m, k, i),
                }
            }
            self.put("}\n\n");
        }
    }

    fn put_import(&mut self, x: &Import) {
        self.put("    ");
        if x.test_only {
            self.put("#[test_only]\n    ");
        }
        self.put("use ");
        self.put_address();
        let (m, item) = match x.target {
            Target::Module(m) => (m, None),
            Target::Fun(f) => (self.funs[f].module, Some(self.funs[f].decl)),
            Target::Adt(a) => (self.adts[a].module, Some(self.adts[a].decl)),
        };
        let d = self.modules[m].decl;
        self.put_use(d);
        let mut own = d;
        let mut braces = false;
        match item {
            Some(i) => {
                braces = self.chance(1, 2);
                self.put(if braces { "::{" } else { "::" });
                self.put_use(i);
                own = i;
            }
            None => match self.below(4) {
                0 => self.put("::Self"),
                1 => {
                    self.put("::{Self");
                    braces = true;
                }
                _ => (),
            },
        }
        if self.name(own) != x.name {
            self.put(" as ");
            self.put(&x.name.clone());
            self.out.decls[own].aliased = true;
        }
        self.put(if braces { "};\n" } else { ";\n" });
    }

    fn put_tparams(&mut self, ts: &[usize]) {
        if ts.is_empty() {
            return;
        }
        self.put("<");
        for (i, t) in ts.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            self.put_decl(*t);
        }
        self.put(">");
    }

    fn write_adt(&mut self, a: usize) {
        let s = self.adts[a].clone();
        self.b = Body { module: s.module, tparams: s.tparams.clone(), ..Default::default() };
        self.put(if s.is_enum { "    enum " } else { "    struct " });
        self.put_decl(s.decl);
        self.put_tparams(&s.tparams);
        let tuple = !s.is_enum && s.variants[0].1;
        if !tuple {
            self.put(" has copy, drop, store");
        }
        if s.is_enum {
            self.put(" {\n");
        }
        for (d, tuple, fields) in &s.variants {
            if s.is_enum {
                self.put("        ");
                self.put_decl(*d);
            }
            if *tuple {
                self.put("(");
                for (i, (_, t)) in fields.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.put_type(t);
                }
                self.put(")");
            } else if !s.is_enum || !fields.is_empty() {
                self.put(" { ");
                for (i, (d, t)) in fields.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.put_decl(*d);
                    self.put(": ");
                    self.put_type(t);
                }
                self.put(" }");
            }
            if s.is_enum {
                self.put(",\n");
            }
        }
        if s.is_enum {
            self.put("    }");
        }
        self.put(if tuple { " has copy, drop, store;\n" } else { "\n" });
        self.b.tparams.clear();
    }

    fn write_const(&mut self, c: usize) {
        let c = self.consts[c].clone();
        self.put("    const ");
        self.put_decl(c.decl);
        self.put(": ");
        self.put_type(&c.ty);
        self.put(" = ");
        self.literal(&c.ty, true);
        self.put(";\n");
    }

    fn write_fun(&mut self, f: usize) {
        let s = self.funs[f].clone();
        let me = s.module;
        self.b = Body { module: me, tparams: s.tparams.clone(), ret: Some(s.ret.clone()), test: s.test_only, ..Default::default() };
        self.put("\n    ");
        if s.test_only {
            self.put("#[test_only]\n    ");
        }
        self.put(["", "public(friend) ", "public(package) ", "public "][s.vis]);
        if s.inline {
            self.put("inline ");
        }
        self.put("fun ");
        self.put_decl(s.decl);
        self.put_tparams(&s.tparams);
        self.put("(");
        for (i, (d, t)) in s.params.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            self.put_decl(*d);
            self.put(": ");
            self.put_type(t);
            self.b.locals.push(*d);
        }
        self.put(")");
        if s.ret != Ty::Unit {
            self.put(": ");
            self.put_type(&s.ret);
        }
        self.put(" {\n");
        self.fuel = 60;
        match s.makes {
            Some(a) => {
                self.put("        ");
                let (d, tuple, fields) = self.adts[a].variants[0].clone();
                self.put_variant(a, d);
                self.put(if tuple { "(" } else { " { " });
                for (i, (fd, _)) in fields.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    if !tuple {
                        self.put_use(*fd);
                        self.put(": ");
                    }
                    self.put_use(s.params[i].0);
                }
                if fields.is_empty() && self.adts[a].is_enum {
                    let f = self.file;
                    let t = &mut self.out.files[f].1;
                    t.truncate(t.len() - if tuple { 1 } else { 3 });
                } else {
                    self.put(if tuple { ")" } else { " }" });
                }
                self.put("\n");
            }
            None => {
                for _ in 0..self.below(6) {
                    self.statement(2);
                }
                if s.ret != Ty::Unit {
                    self.put("        ");
                    self.value(&s.ret, 3, true);
                    self.put("\n");
                }
            }
        }
        self.put("    }\n");
        self.b.locals.clear();
        self.b.tparams.clear();
    }

    /// `S` or `E::V` without type arguments.
    fn put_variant(&mut self, a: usize, d: usize) {
        self.put_adt(a);
        if self.adts[a].is_enum {
            self.put("::");
            self.put_use(d);
        }
    }

    // ---- bodies

    /// Locals that can be seen, the nearest of each name.
    fn seen(&self) -> Vec<usize> {
        let mut names: Vec<&str> = vec![];
        let mut v = vec![];
        for d in self.b.locals.iter().rev() {
            let n = self.out.decls[*d].name.as_str();
            if !names.contains(&n) {
                names.push(n);
                v.push(*d);
            }
        }
        v
    }
    fn seen_of(&self, t: &Ty) -> Vec<usize> {
        self.seen().into_iter().filter(|d| self.out.decls[*d].ty.as_ref() == Some(t)).collect()
    }
    fn put_local(&mut self, d: usize) {
        let s = self.here();
        if self.due(Wanted::UnknownName) {
            self.put("unheard_of");
            self.out.fault = Some(Fault { what: "unresolved-reference", at: (self.file, s, self.here()) });
            // whatever it was is no longer used there
            return;
        }
        self.put_use(d);
        let t = self.out.decls[d].ty.clone().unwrap();
        if !matches!(t, Ty::Fn(..)) && self.out.fault.is_none() {
            if let Some(t) = if self.b.spec { self.spec_shown(d) } else { Some(t) } {
                let shown = self.spelled(&t, true);
                self.out.typed.push((self.file, s, shown));
            }
            if self.chance(1, 6) && !self.b.dim {
                let locals = self.seen();
                let e = self.here();
                self.out.views.push(View { at: (self.file, s, e), locals, module: self.b.module, test: self.b.test, tparams: self.b.tparams.clone() });
            }
        }
    }

    fn literal(&mut self, t: &Ty, known: bool) {
        match t {
            Ty::Int(k) => {
                let n = self.below(200);
                let mut s = if self.chance(1, 4) { format!("{n:#x}") } else { n.to_string() };
                if *k < 6 && (!known || self.chance(1, 4)) {
                    s.push_str(INTS[*k]);
                }
                let at = self.here();
                self.put(&s);
                let _ = at;
            }
            Ty::Bool => {
                let s = if self.chance(1, 2) { "true" } else { "false" };
                self.put(s)
            }
            Ty::Addr => {
                let s = ["@0x1", "@0xcafe", "@std"][self.below(3)];
                self.put(s)
            }
            _ => unreachable!(),
        }
    }

    /// A value of a type; `known`: the place itself says which.
    fn value(&mut self, t: &Ty, depth: usize, known: bool) {
        let start = self.here();
        if known && self.due(Wanted::WrongType) {
            if let Some(other) = self.other_type(t) {
                let s = self.here();
                let post = std::mem::take(&mut self.b.post);
                self.plain(&other, 0, false);
                self.b.post = post;
                self.out.fault = Some(Fault { what: "type-error", at: (self.file, s, self.here()) });
                return;
            }
        }
        self.plain(t, depth, known);
        let _ = start;
    }

    fn other_type(&mut self, t: &Ty) -> Option<Ty> {
        Some(match t {
            Ty::Int(_) if self.b.spec => Ty::Bool,
            Ty::Int(k) => match self.below(3) {
                0 => Ty::Bool,
                1 => Ty::Addr,
                _ => Ty::Int((k + 1 + self.below(5)) % 6),
            },
            Ty::Bool => Ty::Int(self.below(6)),
            Ty::Addr => Ty::Bool,
            Ty::Vector(i) if matches!(**i, Ty::Int(_)) => Ty::Bool,
            Ty::Adt(..) => Ty::Bool,
            Ty::Param(_) => Ty::Bool,
            Ty::Ref(false, i) if matches!(**i, Ty::Bool) => Ty::Bool,
            _ => return None,
        })
    }

    fn plain(&mut self, t: &Ty, depth: usize, known: bool) {
        if self.b.spec {
            return self.spec_plain(t, depth);
        }
        self.fuel -= 1;
        let mine = self.seen_of(t);
        if !mine.is_empty() && (depth == 0 || self.fuel < 0 || self.chance(1, 2)) {
            return { let d = self.any(&mine); self.put_local(d) };
        }
        if depth > 0 && self.fuel > 0 {
            for _ in 0..3 {
                if self.compound(t, depth - 1, known) {
                    return;
                }
            }
        }
        self.base(t, depth.saturating_sub(1), known)
    }

    /// The surest way to a value of a type.
    fn base(&mut self, t: &Ty, depth: usize, known: bool) {
        match t {
            Ty::Int(_) | Ty::Bool | Ty::Addr => {
                let cs: Vec<usize> = self.consts.iter().filter(|c| c.module == self.b.module && c.ty == *t).map(|c| c.decl).collect();
                if !cs.is_empty() && self.chance(1, 2) {
                    let s = self.here();
                    { let d = self.any(&cs); self.put_use(d) };
                    let shown = self.spelled(t, true);
                    self.out.typed.push((self.file, s, shown));
                    return;
                }
                self.literal(t, known)
            }
            Ty::Unit => self.put("()"),
            Ty::Vector(i) => {
                let k = self.below(3);
                let explicit = k == 0 || self.chance(1, 4);
                self.put("vector");
                if explicit {
                    self.put("<");
                    self.put_type(i);
                    self.put(">");
                }
                self.put("[");
                for n in 0..k {
                    if n > 0 {
                        self.put(", ");
                    }
                    self.plain(i, depth, explicit);
                }
                self.put("]");
            }
            Ty::Adt(a, args) => {
                if self.adts[*a].module == self.b.module && self.chance(2, 3) {
                    self.construct(*a, args, depth)
                } else {
                    let f = self.adts[*a].maker;
                    self.call(f, &args.clone(), depth)
                }
            }
            Ty::Ref(m, i) => {
                self.put(if *m { "&mut " } else { "&" });
                let ls = self.seen_of(i);
                if !ls.is_empty() && self.chance(2, 3) {
                    return { let d = self.any(&ls); self.put_local(d) };
                }
                self.operand(i, depth, false)
            }
            Ty::Param(_) => {
                // there's always the parameter of that type, its name is not given to anything else
                if let Some(d) = self.seen_of(t).first().copied() {
                    return self.put_local(d);
                }
                // or one with a value of that type
                let d = self.b.locals.iter().copied().find(|d| matches!(self.out.decls[*d].ty.as_ref(), Some(Ty::Fn(_, r)) if **r == *t)).unwrap();
                let Some(Ty::Fn(ps, _)) = self.out.decls[d].ty.clone() else { unreachable!() };
                self.put_use(d);
                self.put("(");
                for (i, p) in ps.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.plain(p, depth, false);
                }
                self.put(")");
            }
            Ty::Tuple(ts) => {
                self.put("(");
                for (i, t) in ts.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.plain(t, depth, false);
                }
                self.put(")");
            }
            Ty::Fn(..) => unreachable!(),
        }
    }

    /// As what an operator applies to.
    fn operand(&mut self, t: &Ty, depth: usize, known: bool) {
        let s = self.here() as usize;
        self.plain(t, depth, known);
        let f = self.file;
        let text = &self.out.files[f].1[s..];
        if !text.bytes().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'@')) {
            self.wrap(s as u32);
        }
    }

    /// Puts what was written since in parentheses.
    fn wrap(&mut self, s: u32) {
        let f = self.file;
        self.out.files[f].1.insert(s as usize, '(');
        self.put(")");
        let fix = |x: &mut u32| {
            if *x >= s {
                *x += 1
            }
        };
        for u in self.out.uses.iter_mut().rev().take_while(|u| u.at.0 == f && u.at.1 >= s) {
            fix(&mut u.at.1);
            fix(&mut u.at.2);
        }
        for d in self.out.decls.iter_mut() {
            if let Some(p) = d.place.as_mut().filter(|p| p.0 == f && p.1 >= s) {
                fix(&mut p.1);
                fix(&mut p.2);
            }
        }
        for x in self.out.both.iter_mut().filter(|x| x.0.0 == f && x.0.1 >= s) {
            fix(&mut x.0.1);
            fix(&mut x.0.2);
        }
        for x in self.out.bindings.iter_mut().filter(|x| x.0 == f && x.1 > s) {
            fix(&mut x.1);
        }
        for x in self.out.typed.iter_mut().filter(|x| x.0 == f && x.1 >= s) {
            fix(&mut x.1);
        }
        for x in self.out.views.iter_mut().filter(|x| x.at.0 == f && x.at.1 >= s) {
            fix(&mut x.at.1);
            fix(&mut x.at.2);
        }
        for x in self.out.offers.iter_mut().filter(|x| x.at.0 == f && x.at.1 >= s) {
            fix(&mut x.at.1);
            fix(&mut x.at.2);
        }
        for x in self.out.calls.iter_mut().filter(|x| x.file == f && x.close >= s) {
            for a in &mut x.args {
                fix(&mut a.0);
                fix(&mut a.1);
            }
            fix(&mut x.close);
        }
        if let Some(x) = self.out.fault.as_mut().filter(|x| x.at.0 == f && x.at.1 >= s) {
            fix(&mut x.at.1);
            fix(&mut x.at.2);
        }
    }

    fn construct(&mut self, a: usize, args: &[Ty], depth: usize) {
        let s = self.adts[a].clone();
        let v = if args.is_empty() { self.below(s.variants.len()) } else { 0 };
        let (d, tuple, mut fields) = s.variants[v].clone();
        let path = self.here();
        self.put_adt(a);
        let explicit = !args.is_empty() && self.chance(1, 3);
        if s.is_enum {
            if explicit {
                self.put_types(args);
            }
            self.put("::");
            self.put_use(d);
        } else if explicit {
            self.put_types(args);
        }
        if s.is_enum && fields.is_empty() {
            return;
        }
        if !tuple {
            self.rng.shuffle(&mut fields);
        }
        let end = self.here();
        let drop = if !tuple && !fields.is_empty() && args.is_empty() && self.due(Wanted::MissingField) { self.below(fields.len()) } else { usize::MAX };
        if drop != usize::MAX {
            self.out.fault = Some(Fault { what: "missing-lit-fields", at: (self.file, path, end) });
        }
        self.put(if tuple { "(" } else { " { " });
        let mut first = true;
        for (i, (fd, ft)) in fields.iter().enumerate() {
            if i == drop {
                continue;
            }
            if !first {
                self.put(", ");
            }
            first = false;
            let generic = mentions(ft, &s.tparams);
            let t = substitute(ft, &s.tparams, args);
            if !tuple {
                self.put_use(*fd);
                let same = self.seen().into_iter().find(|l| self.name(*l) == self.name(*fd) && self.out.decls[*l].ty.as_ref() == Some(&t));
                if let Some(l) = same.filter(|_| self.rng.chance(2, 3)) {
                    // one name for both
                    self.out.decls[l].used += 1;
                    if l != *fd {
                        self.out.uses.last_mut().unwrap().also = Some(l);
                    }
                    continue;
                }
                self.put(": ");
            }
            if generic {
                self.plain(&t, depth, false)
            } else {
                self.value(&t, depth, true)
            }
        }
        self.put(if tuple { ")" } else { " }" });
    }

    /// A call of a function with these type arguments.
    fn call(&mut self, f: usize, targs: &[Ty], depth: usize) {
        let s = self.funs[f].clone();
        self.put_fun(f);
        if !targs.is_empty() && self.chance(1, 3) {
            self.put_types(targs);
        }
        self.put("(");
        self.arguments(f, &s, targs, 0, depth);
    }

    fn arguments(&mut self, f: usize, s: &Fun, targs: &[Ty], skip: usize, depth: usize) {
        let mut args = vec![];
        let n = s.params.len();
        let few = n > skip && s.tparams.is_empty() && self.due(Wanted::TooFew);
        let many = !few && s.tparams.is_empty() && self.due(Wanted::TooMany);
        let upto = if few { n - 1 } else { n };
        for (i, (_, pt)) in s.params.iter().enumerate().take(upto).skip(skip) {
            if i > skip {
                self.put(", ");
            }
            let at = self.here();
            let t = substitute(pt, &s.tparams, targs);
            if let Ty::Fn(ps, r) = &t {
                self.lambda(ps, r, depth);
            } else if mentions(pt, &s.tparams) {
                self.plain(&t, depth, false)
            } else {
                self.value(&t, depth, true)
            }
            args.push((at, self.here()));
        }
        if many {
            if upto > skip {
                self.put(", ");
            }
            let at = self.here();
            self.put("true");
            self.out.fault = Some(Fault { what: "arguments-number-mismatch", at: (self.file, at, self.here()) });
        }
        if few {
            self.out.fault = Some(Fault { what: "arguments-number-mismatch", at: (self.file, self.here(), self.here() + 1) });
        }
        let close = self.here();
        self.put(")");
        if self.out.fault.is_none() && !self.b.spec {
            let params = s.params.iter().skip(skip).map(|(d, t)| (*d, substitute(t, &s.tparams, targs))).collect();
            self.out.calls.push(Call { fun: f, method: skip == 1, file: self.file, args, close, params, shown: vec![] });
        }
    }

    fn lambda(&mut self, ps: &[Ty], r: &Ty, depth: usize) {
        self.put("|");
        let n = self.b.locals.len();
        let mut ds = vec![];
        for (i, t) in ps.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            let name = LOCALS[self.below(LOCALS.len())];
            let d = self.declare(name, Kind::Local);
            self.out.decls[d].ty = Some(t.clone());
            self.out.decls[d].warned = true;
            self.put_decl(d);
            ds.push(d);
        }
        self.put("| ");
        self.b.locals.extend(ds);
        let loops = std::mem::take(&mut self.b.loops);
        let was = std::mem::replace(&mut self.b.lambda, true);
        self.operand(r, depth, false);
        self.b.lambda = was;
        self.b.loops = loops;
        self.b.locals.truncate(n);
    }

    /// A value of a type, by something with parts. False, and nothing written, if this one does not fit.
    fn compound(&mut self, t: &Ty, depth: usize, known: bool) -> bool {
        let me = self.b.module;
        match self.below(12) {
            // arithmetic
            0 | 1 => match t {
                Ty::Int(_) => {
                    let op = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"][self.below(10)];
                    let bits = matches!(op, "&" | "|" | "^" | "<<" | ">>");
                    if matches!(op, "+" | "-" | "*" | "/" | "%") && self.due(Wanted::WrongOperand) {
                        let at = self.here();
                        self.put("true");
                        self.out.fault = Some(Fault { what: "type-error", at: (self.file, at, self.here()) });
                    } else {
                        self.operand(t, depth, known && !bits);
                    }
                    self.put(&format!(" {op} "));
                    let r = if matches!(op, "<<" | ">>") { Ty::Int(0) } else { t.clone() };
                    self.operand(&r, depth, true);
                    true
                }
                Ty::Bool => {
                    match self.below(4) {
                        0 => {
                            self.put("!");
                            self.operand(&Ty::Bool, depth, true);
                        }
                        1 => {
                            self.operand(&Ty::Bool, depth, true);
                            let op = if self.chance(1, 2) { " && " } else { " || " };
                            self.put(op);
                            self.operand(&Ty::Bool, depth, true);
                        }
                        2 => {
                            let o = self.any_type(1, &self.b.tparams.clone(), usize::MAX);
                            self.operand(&o, depth, false);
                            let op = if self.chance(1, 2) { " == " } else { " != " };
                            self.put(op);
                            self.operand(&o, depth, matches!(o, Ty::Int(_)));
                        }
                        _ => {
                            let o = Ty::Int(self.below(6));
                            self.operand(&o, depth, false);
                            let op = [" < ", " > ", " <= ", " >= "][self.below(4)];
                            self.put(op);
                            self.operand(&o, depth, true);
                        }
                    }
                    true
                }
                _ => false,
            },
            2 => match t {
                Ty::Int(k) => {
                    let o = Ty::Int((k + 1 + self.below(5)) % 6);
                    self.put("(");
                    self.operand(&o, depth, false);
                    self.put(" as ");
                    self.put_type(t);
                    self.put(")");
                    true
                }
                _ => false,
            },
            // if
            3 => {
                if matches!(t, Ty::Tuple(_) | Ty::Ref(..) | Ty::Unit) {
                    return false;
                }
                self.put("if (");
                self.value(&Ty::Bool, depth, true);
                self.put(") { ");
                self.plain(t, depth, known);
                self.put(" } else { ");
                self.plain(t, depth, known);
                self.put(" }");
                let _ = me;
                true
            }
            // block
            4 => {
                if matches!(t, Ty::Tuple(_) | Ty::Unit) {
                    return false;
                }
                let n = self.b.locals.len();
                self.put("{ ");
                self.let_(depth.min(1));
                self.plain(t, depth, known);
                self.put(" }");
                self.b.locals.truncate(n);
                true
            }
            // field of something at hand
            5 | 6 => {
                let mut found = vec![];
                for d in self.seen() {
                    let Some(lt) = &self.out.decls[d].ty else { continue };
                    let inner = if let Ty::Ref(_, i) = lt { (**i).clone() } else { lt.clone() };
                    let Ty::Adt(a, args) = &inner else { continue };
                    let s = &self.adts[*a];
                    if s.is_enum || s.module != me || s.variants[0].1 {
                        continue;
                    }
                    for (fd, ft) in &s.variants[0].2 {
                        if substitute(ft, &s.tparams, args) == *t {
                            found.push((d, *fd));
                        }
                    }
                }
                if found.is_empty() {
                    return false;
                }
                let (d, fd) = found[self.below(found.len())];
                self.put_local(d);
                self.put(".");
                let lt = self.out.decls[d].ty.clone().unwrap();
                self.put_member(&lt, fd);
                true
            }
            // calls
            7 | 8 | 9 => {
                let mut found = vec![];
                for f in 0..self.funs.len() {
                    if !self.callable(f, me, self.b.test) || self.b.lambda && self.funs[f].inline {
                        continue;
                    }
                    if let Some(targs) = self.matching(f, t) {
                        found.push((f, targs));
                    }
                }
                let values: Vec<usize> = self.seen().into_iter().filter(|d| matches!(self.out.decls[*d].ty.as_ref().unwrap(), Ty::Fn(_, r) if **r == *t)).collect();
                if !values.is_empty() && self.chance(2, 3) {
                    let d = values[0];
                    let Ty::Fn(ps, _) = self.out.decls[d].ty.clone().unwrap() else { unreachable!() };
                    self.put_use(d);
                    self.put("(");
                    for (i, p) in ps.iter().enumerate() {
                        if i > 0 {
                            self.put(", ");
                        }
                        self.plain(p, depth, false);
                    }
                    self.put(")");
                    return true;
                }
                if found.is_empty() {
                    return false;
                }
                let (f, targs) = found[self.below(found.len())].clone();
                self.call_somehow(f, &targs, depth);
                true
            }
            // dereference
            10 => {
                if matches!(t, Ty::Ref(..) | Ty::Tuple(_) | Ty::Unit) {
                    return false;
                }
                let mut rs = self.seen_of(&Ty::Ref(false, Box::new(t.clone())));
                rs.extend(self.seen_of(&Ty::Ref(true, Box::new(t.clone()))));
                if rs.is_empty() {
                    return false;
                }
                self.put("*");
                { let d = self.any(&rs); self.put_local(d) };
                true
            }
            // element, or match
            _ => {
                let vs = self.seen_of(&Ty::Vector(Box::new(t.clone())));
                if !vs.is_empty() && self.chance(1, 2) {
                    { let d = self.any(&vs); self.put_local(d) };
                    self.put("[");
                    self.value(&Ty::Int(3), depth.min(1), true);
                    self.put("]");
                    return true;
                }
                if matches!(t, Ty::Tuple(_) | Ty::Ref(..) | Ty::Unit) {
                    return false;
                }
                self.match_(t, depth, known)
            }
        }
    }

    /// As a function or as a method, whichever can be.
    fn call_somehow(&mut self, f: usize, targs: &[Ty], depth: usize) {
        let s = self.funs[f].clone();
        if s.method {
            let st = substitute(&s.params[0].1, &s.tparams, targs);
            let (need, inner) = match &st {
                Ty::Ref(m, i) => (Some(*m), (**i).clone()),
                t => (None, t.clone()),
            };
            let ls: Vec<usize> = self
                .seen()
                .into_iter()
                .filter(|d| match self.out.decls[*d].ty.as_ref().unwrap() {
                    Ty::Ref(m, i) => **i == inner && need.is_some_and(|n| !n || *m),
                    t => *t == inner,
                })
                .collect();
            if !ls.is_empty() && self.chance(3, 4) {
                let l = self.any(&ls);
                self.put_local(l);
                self.put(".");
                let lt = self.out.decls[l].ty.clone().unwrap();
                self.put_member(&lt, s.decl);
                self.put("(");
                return self.arguments(f, &s, targs, 1, depth);
            }
        }
        self.call(f, targs, depth)
    }

    /// Type arguments with which a function returns a type.
    fn matching(&mut self, f: usize, t: &Ty) -> Option<Vec<Ty>> {
        let s = self.funs[f].clone();
        let mut found: Vec<Option<Ty>> = vec![None; s.tparams.len()];
        if !unify(&s.ret, t, &s.tparams, &mut found) {
            return None;
        }
        let mine = self.b.tparams.clone();
        Some(found.into_iter().map(|x| x.unwrap_or_else(|| self.any_type(0, &mine, 0))).collect())
    }

    fn match_(&mut self, t: &Ty, depth: usize, known: bool) -> bool {
        let me = self.b.module;
        let mut found = vec![];
        for d in self.seen() {
            let Some(lt) = self.out.decls[d].ty.clone() else { continue };
            let (r, inner) = match lt {
                Ty::Ref(m, i) => (Some(m), *i),
                t => (None, t),
            };
            if let Ty::Adt(a, args) = inner {
                if self.adts[a].is_enum && self.adts[a].module == me {
                    found.push((d, r, a, args));
                }
            }
        }
        if found.is_empty() {
            return false;
        }
        let (d, r, a, args) = found[self.below(found.len())].clone();
        self.put("match (");
        self.put_local(d);
        self.put(") { ");
        let s = self.adts[a].clone();
        for (vd, tuple, fields) in &s.variants {
            let n = self.b.locals.len();
            self.put_variant(a, *vd);
            // no hints in the arms of a match
            let hinted = self.out.bindings.len();
            self.pattern(*tuple, fields, &s.tparams, &args, r);
            self.out.bindings.truncate(hinted);
            self.put(" => ");
            self.plain(t, depth, known);
            self.put(", ");
            self.b.locals.truncate(n);
        }
        self.put("}");
        true
    }

    /// The fields of a pattern; brings what it binds into scope.
    fn pattern(&mut self, tuple: bool, fields: &[(usize, Ty)], tparams: &[usize], args: &[Ty], r: Option<bool>) {
        if fields.is_empty() {
            return;
        }
        let path = self.path;
        let mut fields = fields.to_vec();
        let rest = !tuple && self.chance(1, 4);
        if (!tuple || fields.len() > 1) && !rest && self.due(Wanted::UnmentionedField) {
            let what = if tuple { "missing-tuple-pat-fields" } else { "missing-pat-fields" };
            let n = if tuple { fields.len() - 1 } else { self.below(fields.len()) };
            fields.remove(n);
            self.out.fault = Some(Fault { what, at: (self.file, self.path, self.here()) });
        }
        if !tuple {
            self.rng.shuffle(&mut fields);
        }
        if rest {
            let n = self.below(fields.len());
            fields.truncate(n);
        }
        self.put(if tuple { "(" } else { " { " });
        let mut bound: Vec<usize> = vec![];
        for (i, (fd, ft)) in fields.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            let ft = substitute(ft, tparams, args);
            let ty = match r {
                Some(m) => Ty::Ref(m, Box::new(ft)),
                None => ft,
            };
            let taken = |g: &Self, n: &str, bound: &[usize]| bound.iter().any(|b| g.out.decls[*b].name == n);
            let name;
            if !tuple {
                let own = self.name(*fd);
                if !taken(self, &own, &bound) && self.chance(1, 2) {
                    let d = self.declare(&own, Kind::Local);
                    let at = self.here();
                    self.bind(d, ty, false);
                    bound.push(d);
                    self.out.decls[*fd].used += 1;
                    self.out.both.push(((self.file, at, self.here()), *fd, d));
                    continue;
                }
                self.put_use(*fd);
                self.put(": ");
            }
            let free: Vec<&str> = LOCALS.iter().copied().filter(|n| !taken(self, n, &bound) && !fields.iter().any(|f| f.0 != usize::MAX && self.out.decls[f.0].name == *n)).collect();
            if free.is_empty() || self.chance(1, 6) {
                self.put("_");
                continue;
            }
            name = free[self.below(free.len())];
            let d = self.declare(name, Kind::Local);
            self.bind(d, ty, true);
            bound.push(d);
        }
        if !tuple && self.due(Wanted::NoSuchField) {
            if !fields.is_empty() {
                self.put(", ");
            }
            let at = self.here();
            self.put("nosuch");
            self.out.fault = Some(Fault { what: "unresolved-reference", at: (self.file, at, self.here()) });
            self.put(": _");
        }
        if rest {
            self.put(if self.files_end("{ ") { ".." } else { ", .." });
        }
        self.put(if tuple { ")" } else { " }" });
        let end = self.here();
        if let Some(x) = self.out.fault.as_mut().filter(|x| x.at.1 == path && matches!(x.what, "missing-pat-fields" | "missing-tuple-pat-fields")) {
            x.at.2 = end;
        }
        self.b.locals.extend(bound);
    }

    /// Writes a binding; it is not in scope yet.
    fn bind(&mut self, d: usize, ty: Ty, hint: bool) {
        self.out.decls[d].ty = Some(ty);
        self.out.decls[d].warned = true;
        self.put_decl(d);
        if hint {
            self.out.bindings.push((self.file, self.here(), d));
        }
    }

    fn let_(&mut self, depth: usize) {
        let tps = self.b.tparams.clone();
        let name = LOCALS[self.below(LOCALS.len())];
        match self.below(9) {
            // with its type
            0 | 1 => {
                let t = self.any_param(&tps);
                let d = self.declare(name, Kind::Local);
                self.put("let ");
                self.bind(d, t.clone(), false);
                self.put(": ");
                self.put_type(&t);
                self.put(" = ");
                self.value(&t, depth, true);
                self.put("; ");
                self.b.locals.push(d);
            }
            // taken apart
            2 => {
                let me = self.b.module;
                let ss: Vec<usize> = (0..self.adts.len()).filter(|a| self.adts[*a].module == me && !self.adts[*a].is_enum).collect();
                if ss.is_empty() {
                    return;
                }
                let a = ss[self.below(ss.len())];
                let s = self.adts[a].clone();
                let args: Vec<Ty> = s.tparams.iter().map(|_| self.any_type(0, &tps, 0)).collect();
                let r = match self.below(3) {
                    0 => Some(self.chance(1, 2)),
                    _ => None,
                };
                let t = Ty::Adt(a, args.clone());
                let t = r.map_or(t.clone(), |m| Ty::Ref(m, Box::new(t)));
                self.put("let ");
                self.put_adt(a);
                let n = self.b.locals.len();
                let (_, tuple, fields) = s.variants[0].clone();
                self.pattern(tuple, &fields, &s.tparams, &args, r);
                let mine = self.b.locals.split_off(n);
                self.put(" = ");
                self.plain(&t, depth, false);
                self.put("; ");
                self.b.locals.extend(mine);
            }
            // a tuple
            3 => {
                let ts = vec![self.any_type(1, &tps, usize::MAX), self.any_type(1, &tps, usize::MAX)];
                self.put("let (");
                let mut mine = vec![];
                for (i, t) in ts.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    let d = self.declare(["left", "right"][i], Kind::Local);
                    self.bind(d, t.clone(), true);
                    mine.push(d);
                }
                self.put(") = ");
                self.plain(&Ty::Tuple(ts), depth, false);
                self.put("; ");
                self.b.locals.extend(mine);
            }
            // a number whose type shows only later
            4 => {
                let t = Ty::Int(self.below(6));
                let d = self.declare(name, Kind::Local);
                self.put("let ");
                self.bind(d, t.clone(), true);
                let n = self.below(100);
                self.put(&format!(" = {n}; "));
                self.put("let ");
                let e = self.declare("_sum", Kind::Local);
                self.bind(e, t.clone(), true);
                self.put(" = ");
                // its type comes from the other operand, so that one cannot be itself
                let all = self.b.locals.clone();
                let mut others = all.clone();
                others.retain(|l| self.out.decls[*l].name != name);
                let first = self.chance(1, 2);
                let dim = std::mem::replace(&mut self.b.dim, true);
                if first {
                    self.b.locals.push(d);
                    self.put_local(d);
                    self.put(" + ");
                }
                self.b.locals = others;
                self.operand(&t, if first { depth } else { 0 }, false);
                self.b.locals = all;
                self.b.locals.push(d);
                if !first {
                    self.put(" * ");
                    self.put_local(d);
                }
                self.b.dim = dim;
                self.put("; ");
                self.b.locals.push(e);
            }
            _ => {
                let t = self.any_param(&tps);
                let d = self.declare(name, Kind::Local);
                self.put("let ");
                self.bind(d, t.clone(), true);
                self.put(" = ");
                self.plain(&t, depth, false);
                self.put("; ");
                self.b.locals.push(d);
            }
        }
    }

    fn statement(&mut self, depth: usize) {
        self.put("        ");
        match self.below(12) {
            0 => {
                // assignment
                let ls: Vec<usize> = self.seen().into_iter().filter(|d| !matches!(self.out.decls[*d].ty.as_ref().unwrap(), Ty::Fn(..))).collect();
                if !ls.is_empty() {
                    let d = ls[self.below(ls.len())];
                    let t = self.out.decls[d].ty.clone().unwrap();
                    match t {
                        Ty::Ref(true, i) if self.chance(1, 2) => {
                            self.put("*");
                            self.put_local(d);
                            self.put(" = ");
                            self.value(&i, depth, true);
                        }
                        t => {
                            self.put_local(d);
                            self.put(" = ");
                            self.value(&t, depth, true);
                        }
                    }
                    self.put(";");
                }
            }
            1 => {
                self.put("if (");
                self.value(&Ty::Bool, depth, true);
                self.put(") {\n");
                self.inner(depth);
                self.put("        };");
            }
            2 => {
                let label = self.label();
                self.put("while (");
                self.value(&Ty::Bool, depth.min(1), true);
                self.put(") {\n");
                self.b.loops.push(label);
                self.inner(depth);
                self.leave();
                self.b.loops.pop();
                self.put("        };");
            }
            3 => {
                // whether the bounds can see the variable is not settled
                let free: Vec<&str> = LOCALS.iter().copied().filter(|n| !self.b.locals.iter().any(|d| self.out.decls[*d].name == *n)).collect();
                if free.is_empty() {
                    return;
                }
                let label = self.label();
                let t = Ty::Int(self.below(6));
                let name = free[self.below(free.len())];
                let d = self.declare(name, Kind::Local);
                self.put("for (");
                self.bind(d, t.clone(), false);
                self.put(" in ");
                self.literal(&t, false);
                self.put("..");
                let dim = std::mem::replace(&mut self.b.dim, true);
                self.operand(&t, depth.min(1), false);
                self.b.dim = dim;
                self.put(") {\n");
                self.b.loops.push(label);
                let n = self.b.locals.len();
                self.b.locals.push(d);
                self.inner(depth);
                self.b.locals.truncate(n);
                self.leave();
                self.b.loops.pop();
                self.put("        };");
            }
            4 => {
                self.put("assert!(");
                self.value(&Ty::Bool, depth, true);
                self.put(", ");
                self.value(&Ty::Int(3), 0, true);
                self.put(");");
            }
            5 => {
                // for its effect
                let me = self.b.module;
                let fs: Vec<usize> = (0..self.funs.len()).filter(|f| self.callable(*f, me, self.b.test) && self.funs[*f].ret == Ty::Unit).collect();
                if !fs.is_empty() {
                    let f = fs[self.below(fs.len())];
                    let mine = self.b.tparams.clone();
                    let n = self.funs[f].tparams.len();
                    let targs: Vec<Ty> = (0..n).map(|_| self.any_type(0, &mine, 0)).collect();
                    self.call_somehow(f, &targs, depth);
                    self.put(";");
                }
            }
            6 => {
                // an unknown or hidden function
                if self.due(Wanted::Hidden) {
                    let me = self.b.module;
                    let fs: Vec<usize> = (0..self.funs.len()).filter(|f| self.funs[*f].module != me && !self.callable(*f, me, self.b.test) && self.funs[*f].tparams.is_empty()).collect();
                    if !fs.is_empty() {
                        let f = fs[self.below(fs.len())];
                        let s = self.funs[f].clone();
                        self.put_address();
                        self.put_use(self.modules[s.module].decl);
                        self.put("::");
                        let at = self.here();
                        self.put(&self.name(s.decl));
                        self.out.fault = Some(Fault { what: "unresolved-reference", at: (self.file, at, self.here()) });
                        self.put("();");
                    }
                }
            }
            7 => {
                if self.due(Wanted::UnknownType) {
                    let d = self.declare("z", Kind::Local);
                    self.put("let ");
                    self.bind(d, Ty::Bool, false);
                    self.put(": ");
                    let at = self.here();
                    self.put("Nowhere");
                    self.out.fault = Some(Fault { what: "unresolved-reference", at: (self.file, at, self.here()) });
                    self.put(" = true;");
                }
            }
            _ => self.let_(depth),
        }
        self.put("\n");
    }

    fn inner(&mut self, depth: usize) {
        let n = self.b.locals.len();
        if self.specs && self.chance(1, 6) {
            self.inline_spec();
            self.put("\n");
        }
        for _ in 0..self.below(3) {
            self.statement(depth.saturating_sub(1));
        }
        self.b.locals.truncate(n);
    }

    fn label(&mut self) -> Option<usize> {
        if !self.chance(1, 3) {
            return None;
        }
        let n = ["outer", "here", "a"][self.below(3)];
        if self.b.loops.iter().flatten().any(|d| self.out.decls[*d].name == format!("'{n}")) {
            // the compiler refuses a label inside a loop of the same label
            return None;
        }
        let d = self.declare(&format!("'{n}"), Kind::Label);
        self.put_decl(d);
        self.put(": ");
        Some(d)
    }

    fn leave(&mut self) {
        if !self.chance(1, 2) {
            return;
        }
        self.put("        if (true) ");
        let w = if self.chance(1, 2) { "break" } else { "continue" };
        self.put(w);
        let mut seen: Vec<String> = vec![];
        let mut can = vec![];
        for d in self.b.loops.clone().into_iter().rev().flatten() {
            let n = self.name(d);
            if !seen.contains(&n) {
                seen.push(n);
                can.push(d);
            }
        }
        if !can.is_empty() && self.chance(2, 3) {
            self.put(" ");
            { let d = self.any(&can); self.put_use(d) };
        }
        self.put(";\n");
    }

    fn finish(mut self) -> Program {
        for d in 0..self.out.decls.len() {
            if self.out.decls[d].spec {
                self.out.decls[d].ty = self.out.decls[d].ty.as_ref().map(specs::erase);
            }
            self.out.decls[d].full = self.out.decls[d].ty.as_ref().map(|t| self.spelled(t, true));
            self.out.decls[d].shown = self.out.decls[d].ty.as_ref().map(|t| self.shown(t));
        }
        for f in self.funs.clone() {
            let ps = f.params.iter().map(|(d, t)| (self.name(*d), self.shown(t))).collect();
            let r = self.shown(&f.ret);
            self.out.sigs.push((f.decl, ps, r));
        }
        for c in 0..self.out.calls.len() {
            let ps = self.out.calls[c].params.clone();
            self.out.calls[c].shown = ps.iter().map(|(d, t)| format!("{}: {}", self.name(*d), self.shown(t))).collect();
        }
        for x in &mut self.out.imports {
            let i = &self.modules[x.1].imports[x.2];
            x.3 = i.used.get();
            x.4 = i.used.get() && !i.main.get() && !i.test_only;
        }
        self.out.fun_decls = self.funs.iter().map(|f| f.decl).collect();
        self.out.owners = self.adts.iter().map(|a| (a.decl, a.module)).collect();
        for (m, x) in self.modules.iter().enumerate() {
            let mut v: Vec<(String, usize, bool)> = vec![];
            let mut own = |d: usize, test: bool| v.push((self.out.decls[d].name.clone(), d, test));
            self.funs.iter().filter(|f| f.module == m).for_each(|f| own(f.decl, f.test_only));
            self.adts.iter().filter(|a| a.module == m).for_each(|a| own(a.decl, false));
            self.consts.iter().filter(|c| c.module == m).for_each(|c| own(c.decl, false));
            for i in &x.imports {
                let d = match i.target {
                    Target::Module(m) => self.modules[m].decl,
                    Target::Fun(f) => self.funs[f].decl,
                    Target::Adt(a) => self.adts[a].decl,
                };
                v.push((i.name.clone(), d, i.test_only));
            }
            self.out.scopes.push(v);
        }
        self.out
    }
}

impl Program {
    fn fun_decl(&self, f: usize) -> usize {
        self.fun_decls[f]
    }
    /// The binding's type as it is shown.
    pub fn text_of(&self, at: (usize, u32, u32)) -> &str {
        &self.files[at.0].1[at.1 as usize..at.2 as usize]
    }
    pub fn show(&self) -> String {
        self.files.iter().map(|(p, t)| format!("//- {p}\n{t}")).collect()
    }
}

fn mentions(t: &Ty, ps: &[usize]) -> bool {
    match t {
        Ty::Param(d) => ps.contains(d),
        Ty::Vector(i) | Ty::Ref(_, i) => mentions(i, ps),
        Ty::Adt(_, ts) | Ty::Tuple(ts) => ts.iter().any(|t| mentions(t, ps)),
        Ty::Fn(ts, r) => mentions(r, ps) || ts.iter().any(|t| mentions(t, ps)),
        _ => false,
    }
}

fn substitute(t: &Ty, ps: &[usize], args: &[Ty]) -> Ty {
    let all = |ts: &[Ty]| ts.iter().map(|t| substitute(t, ps, args)).collect::<Vec<_>>();
    match t {
        Ty::Param(d) => match ps.iter().position(|p| p == d) {
            Some(i) => args[i].clone(),
            None => t.clone(),
        },
        Ty::Vector(i) => Ty::Vector(Box::new(substitute(i, ps, args))),
        Ty::Ref(m, i) => Ty::Ref(*m, Box::new(substitute(i, ps, args))),
        Ty::Adt(a, ts) => Ty::Adt(*a, all(ts)),
        Ty::Tuple(ts) => Ty::Tuple(all(ts)),
        Ty::Fn(ts, r) => Ty::Fn(all(ts), Box::new(substitute(r, ps, args))),
        _ => t.clone(),
    }
}

fn unify(pat: &Ty, t: &Ty, ps: &[usize], found: &mut Vec<Option<Ty>>) -> bool {
    match (pat, t) {
        (Ty::Param(d), _) if ps.contains(d) => {
            if matches!(t, Ty::Ref(..) | Ty::Tuple(_) | Ty::Unit | Ty::Fn(..)) {
                return false;
            }
            let i = ps.iter().position(|p| p == d).unwrap();
            match &found[i] {
                Some(x) => x == t,
                None => {
                    found[i] = Some(t.clone());
                    true
                }
            }
        }
        (Ty::Vector(a), Ty::Vector(b)) => unify(a, b, ps, found),
        (Ty::Ref(m, a), Ty::Ref(n, b)) => m == n && unify(a, b, ps, found),
        (Ty::Adt(a, xs), Ty::Adt(b, ys)) => a == b && xs.iter().zip(ys).all(|(x, y)| unify(x, y, ps, found)),
        (Ty::Tuple(xs), Ty::Tuple(ys)) => xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| unify(x, y, ps, found)),
        _ => pat == t,
    }
}

/// As `unify`, with every mention of a type parameter for itself: that's how members are told.
fn loosely(pat: &Ty, t: &Ty, ps: &[usize]) -> bool {
    match (pat, t) {
        (Ty::Param(d), _) if ps.contains(d) => !matches!(t, Ty::Ref(..) | Ty::Tuple(_) | Ty::Unit | Ty::Fn(..)),
        (Ty::Vector(a), Ty::Vector(b)) => loosely(a, b, ps),
        (Ty::Adt(a, xs), Ty::Adt(b, ys)) => a == b && xs.iter().zip(ys).all(|(x, y)| loosely(x, y, ps)),
        _ => pat == t,
    }
}

// ---- what is asked about them

use crate::expect::HINTS;
use crate::monitors::{Loaded, pos};
use ide::{Analysis, AssistResolveStrategy};
use ide_diagnostics::config::DiagnosticsConfig;
use std::collections::{BTreeMap, BTreeSet};
use vf::{Ctx, guarded};
use vfs::FileId;

struct Known {
    p: Program,
    l: Loaded,
    a: Analysis,
    ids: Vec<FileId>,
}

impl Known {
    fn of(p: Program) -> Known {
        let l = Loaded::files(&p.files);
        let ids = p.files.iter().map(|(f, _)| l.world.files.iter().find(|(x, _)| x.ends_with(f.as_str())).unwrap().1).collect();
        let a = l.world.analysis();
        Known { p, l, a, ids }
    }
    fn at(&self, (f, s, e): (usize, u32, u32)) -> String {
        let t = &self.p.files[f].1;
        let line = t[..s as usize].matches('\n').count() + 1;
        format!("{}:{line} `{}`", self.p.files[f].0, &t[s as usize..e as usize])
    }
    fn place(&self, f: FileId, r: syntax::TextRange) -> Option<(usize, u32, u32)> {
        let i = self.ids.iter().position(|x| *x == f)?;
        Some((i, r.start().into(), r.end().into()))
    }
}

fn each(ctx: &Ctx, phase: &str, n: usize, faults: bool, judge: impl Fn(&Ctx, &Known, &mut Rng) -> Vec<String> + Sync) {
    ctx.par(phase, n, |rng, i| {
        let w = if faults { FAULTS[i % FAULTS.len()] } else { Wanted::Nothing };
        let p = program(rng, w);
        if faults && p.fault.is_none() {
            ctx.count("programs_without_room_for_the_mistake", 1);
            return;
        }
        let show = p.show();
        ctx.open("known program", &show);
        let r = guarded(|| {
            let k = Known::of(p);
            let bad = judge(ctx, &k, rng);
            (bad, k.l.intact())
        });
        ctx.close();
        ctx.eval(vf::hash_of(&show), true);
        ctx.count("known_programs", 1);
        match r {
            Ok((bad, intact)) => {
                assert!(intact, "/harness/ the program does not parse\n{show}");
                if let Some(b) = bad.first() {
                    let each = if std::env::var("VF_EACH").is_ok() { format!(" {}", vf::hash_of(&show)) } else { String::new() };
                    ctx.violation(&format!("known program: {}{each}", b.split(':').next().unwrap_or("")), format!("{}\n{show}", bad.iter().take(8).cloned().collect::<Vec<_>>().join("\n")));
                }
            }
            Err(p) => ctx.panicked("known program", &show, &p),
        }
    });
}

/// Each name leads to the declaration it was written for.
pub fn names(ctx: &Ctx) {
    each(ctx, "known names", ctx.size(1_500, 60_000), false, |ctx, k, rng| {
        let mut bad = vec![];
        for u in &k.p.uses {
            let (f, s, e) = u.at;
            let o = if e - s > 1 { rng.range(s as usize, e as usize - 1) as u32 } else { s };
            let o = if o == s && e - s > 1 { s + 1 } else { o };
            let got: BTreeSet<_> = match k.a.goto_definition_multi(pos(k.ids[f], o)).unwrap() {
                Some(r) => r.info.iter().map(|n| k.place(n.file_id, n.focus_or_full_range())).collect(),
                None => BTreeSet::new(),
            };
            ctx.count("known_names", 1);
            let d = &k.p.decls[u.decl];
            ctx.count(&format!("known_names_{:?}", d.kind), 1);
            let want: BTreeSet<_> = std::iter::once(u.decl).chain(u.also).map(|d| k.p.decls[d].place).collect();
            if got != want {
                let shown: Vec<String> = got.iter().map(|g| g.map_or("elsewhere".to_string(), |g| k.at(g))).collect();
                bad.push(format!("{:?}: {} leads to {:?}, and was written for {}", d.kind, k.at(u.at), shown, k.at(d.place.unwrap())));
            }
        }
        for (at, field, local) in &k.p.both {
            let got: BTreeSet<_> = match k.a.goto_definition_multi(pos(k.ids[at.0], at.1)).unwrap() {
                Some(r) => r.info.iter().map(|n| k.place(n.file_id, n.focus_or_full_range())).collect(),
                None => BTreeSet::new(),
            };
            ctx.count("known_names_both", 1);
            let _ = local;
            let want = BTreeSet::from([k.p.decls[*field].place]);
            if got != want {
                let shown: Vec<String> = got.iter().map(|g| g.map_or("elsewhere".to_string(), |g| k.at(g))).collect();
                bad.push(format!("both: {} leads to {shown:?}, and is the name of a field", k.at(*at)));
            }
        }
        bad
    });
}

/// Each name of a value has its type.
pub fn types(ctx: &Ctx) {
    each(ctx, "known types", ctx.size(1_500, 60_000), false, |ctx, k, _| {
        let mut bad = vec![];
        for (f, s, want) in &k.p.typed {
            let t = &k.p.files[*f].1.as_bytes();
            let s = *s as usize;
            if !t[s + 1].is_ascii_alphanumeric() && t[s + 1] != b'_' {
                continue;
            }
            let got = k.a.expr_type_info(pos(k.ids[*f], s as u32 + 1)).unwrap();
            ctx.count("known_types", 1);
            if got.as_ref() != Some(want) {
                bad.push(format!("type: {} is {got:?}, not {want}", k.at((*f, s as u32, s as u32 + 2))));
            }
        }
        bad
    });
}

/// Bindings are shown with their types.
pub fn hints(ctx: &Ctx) {
    each(ctx, "known bindings", ctx.size(1_500, 60_000), false, |ctx, k, _| {
        let mut bad = vec![];
        for (i, id) in k.ids.iter().enumerate() {
            let hs = k.a.inlay_hints(&HINTS, *id, None).unwrap();
            let mut shown: BTreeMap<u32, String> = BTreeMap::new();
            for h in hs {
                if format!("{:?}", h.kind) == "Type" {
                    shown.insert(u32::from(h.range.end()), h.label.to_string());
                }
            }
            for (f, e, d) in &k.p.bindings {
                let d = &k.p.decls[*d];
                if *f != i || d.name.starts_with('_') {
                    continue;
                }
                ctx.count("known_bindings", 1);
                let want = d.shown.as_ref().unwrap();
                match shown.remove(e) {
                    Some(g) if g.trim_start_matches(": ") == want => {}
                    g => bad.push(format!("binding: {} is shown as {g:?}, and is {want}", k.at(d.place.unwrap()))),
                }
            }
        }
        bad
    });
}

type Found = BTreeMap<(usize, u32, u32), Vec<String>>;

fn found(k: &Known) -> (Found, Found) {
    let mut errors: Found = BTreeMap::new();
    let mut unused: Found = BTreeMap::new();
    for (i, id) in k.ids.iter().enumerate() {
        for d in k.a.full_diagnostics(&DiagnosticsConfig::test_sample(), AssistResolveStrategy::None, *id).unwrap() {
            let r = (i, d.range.range.start().into(), d.range.range.end().into());
            let text = format!("{} {:?} {}", d.code.as_str(), d.severity, d.message);
            if d.code.as_str() == "unused-variable" {
                unused.entry(r).or_default().push(text);
            } else if format!("{:?}", d.severity) == "Error" {
                errors.entry(r).or_default().push(text);
            }
        }
    }
    (errors, unused)
}

/// No error in what has none, what is unused is said to be, and a mistake is reported where it is.
pub fn diagnostics(ctx: &Ctx) {
    each(ctx, "known to be right", ctx.size(1_500, 60_000), false, |ctx, k, _| {
        let (errors, mut unused) = found(k);
        let mut bad: Vec<String> = errors.iter().map(|(r, e)| format!("error: {} {e:?}", k.at(*r))).collect();
        for d in &k.p.decls {
            let Some(p) = d.place.filter(|_| d.warned && d.used == 0 && !d.name.starts_with('_')) else { continue };
            ctx.count("known_unused", 1);
            if unused.remove(&p).is_none() {
                bad.push(format!("unused: {} is used nowhere, and not warned about", k.at(p)));
            }
        }
        bad.extend(unused.iter().map(|(r, e)| format!("used: {} {e:?}", k.at(*r))));
        bad
    });
    each(ctx, "known mistakes", ctx.size(2_100, 60_000), true, |ctx, k, _| {
        let (errors, _) = found(k);
        let fault = k.p.fault.as_ref().unwrap();
        ctx.count(&format!("known_mistakes_{}", fault.what), 1);
        let mut bad = vec![];
        if errors.len() != 1 || *errors.first_key_value().unwrap().0 != fault.at || errors[&fault.at].len() != 1 || !errors[&fault.at][0].starts_with(&format!("{} ", fault.what)) {
            let all: Vec<String> = errors.iter().map(|(r, e)| format!("{} {e:?}", k.at(*r))).collect();
            bad.push(format!("{}: the mistake at {} is reported as {all:?}", fault.what, k.at(fault.at)));
        }
        bad
    });
}

/// What a declaration's name is written for.
fn leading(k: &Known, d: usize) -> BTreeSet<(usize, u32, u32)> {
    let mut v: BTreeSet<_> = k.p.uses.iter().filter(|u| u.decl == d || u.also == Some(d)).map(|u| u.at).collect();
    v.extend(k.p.both.iter().filter(|b| b.1 == d).map(|b| b.0));
    v
}

/// From a declaration and from each of its names all of its names are found.
pub fn references(ctx: &Ctx) {
    each(ctx, "known references", ctx.size(600, 40_000), false, |ctx, k, rng| {
        let mut bad = vec![];
        for (i, d) in k.p.decls.iter().enumerate() {
            let Some(place) = d.place.filter(|_| d.kind != Kind::Label) else { continue };
            let want = leading(k, i);
            let mut from = vec![place];
            // an alias is another name
            let want: BTreeSet<_> = want.into_iter().filter(|x| k.p.text_of(*x) == d.name).collect();
            let whole: Vec<_> = k.p.uses.iter().filter(|u| u.decl == i && u.also.is_none() && k.p.text_of(u.at) == d.name).map(|u| u.at).collect();
            if !whole.is_empty() {
                from.push(*rng.pick(&whole));
            }
            for at in from {
                let got: BTreeSet<_> = match k.a.find_all_refs(pos(k.ids[at.0], at.1), None).unwrap() {
                    Some(r) => r.references.iter().flat_map(|(f, v)| v.iter().map(|x| k.place(*f, *x)).collect::<Vec<_>>()).collect(),
                    None => {
                        bad.push(format!("none {:?}: {} has no references", d.kind, k.at(at)));
                        continue;
                    }
                };
                ctx.count(&format!("known_references_{:?}", d.kind), got.len() as u64);
                let want: BTreeSet<_> = want.iter().map(|x| Some(*x)).collect();
                if got != want {
                    let show = |x: &Option<(usize, u32, u32)>| x.map_or("elsewhere".to_string(), |x| k.at(x));
                    bad.push(format!(
                        "{:?}: the references of {} from {} have {:?} too many and lack {:?}",
                        d.kind,
                        k.at(place),
                        k.at(at),
                        got.difference(&want).map(show).collect::<Vec<_>>(),
                        want.difference(&got).map(show).collect::<Vec<_>>()
                    ));
                }
            }
        }
        bad
    });
}

/// The text after a renaming is known to the letter.
pub fn renames(ctx: &Ctx) {
    each(ctx, "known renames", ctx.size(600, 40_000), false, |ctx, k, rng| {
        let mut bad = vec![];
        for (i, d) in k.p.decls.iter().enumerate() {
            let Some(place) = d.place.filter(|_| d.kind != Kind::Label && !d.name.starts_with('_')) else { continue };
            let new = format!("{}_zq{}", d.name, rng.below(9));
            let mut edits: Vec<((usize, u32, u32), String)> = vec![];
            let mine: Option<(usize, bool)> = k.p.both.iter().position(|b| b.0 == place).map(|b| (b, true));
            match mine {
                Some((b, _)) => edits.push((place, format!("{}: {new}", k.p.decls[k.p.both[b].1].name))),
                None => edits.push((place, new.clone())),
            }
            for b in k.p.both.iter().filter(|b| b.1 == i) {
                edits.push((b.0, format!("{new}: {}", d.name)));
            }
            for u in k.p.uses.iter().filter(|u| u.decl == i || u.also == Some(i)) {
                if k.p.text_of(u.at) != d.name {
                    continue;
                }
                edits.push(match u.also {
                    None => (u.at, new.clone()),
                    Some(l) if l == i => (u.at, format!("{}: {new}", d.name)),
                    Some(_) => (u.at, format!("{new}: {}", d.name)),
                });
            }
            let mut want: Vec<String> = k.p.files.iter().map(|f| f.1.clone()).collect();
            edits.sort_by_key(|e| std::cmp::Reverse((e.0.0, e.0.1)));
            for (at, t) in &edits {
                want[at.0].replace_range(at.1 as usize..at.2 as usize, t);
            }
            let whole: Vec<_> = std::iter::once(place)
                .filter(|_| mine.is_none())
                .chain(k.p.uses.iter().filter(|u| u.decl == i && u.also.is_none() && k.p.text_of(u.at) == d.name).map(|u| u.at))
                .collect();
            if whole.is_empty() {
                continue;
            }
            let at = *rng.pick(&whole);
            let r = match k.a.rename(pos(k.ids[at.0], at.1), &new).unwrap() {
                Ok(r) => r,
                Err(e) => {
                    bad.push(format!("refused {:?}: {} cannot be renamed: {e}", d.kind, k.at(at)));
                    continue;
                }
            };
            let mut got: Vec<String> = k.p.files.iter().map(|f| f.1.clone()).collect();
            for (f, e) in &r.source_file_edits {
                match k.ids.iter().position(|x| x == f) {
                    Some(n) => e.apply(&mut got[n]),
                    None => bad.push(format!("file: renaming {} changes another file", k.at(at))),
                }
            }
            ctx.count(&format!("known_renames_{:?}", d.kind), 1);
            ctx.count("known_renamed_names", edits.len() as u64);
            if got != want {
                let diff: Vec<String> = got.iter().zip(&want).flat_map(|(g, w)| g.lines().zip(w.lines()).filter(|x| x.0 != x.1).map(|(g, w)| format!("\n  got  {g}\n  want {w}")).collect::<Vec<_>>()).take(4).collect();
                bad.push(format!("{:?}: renaming {} to {new} from {}: {}", d.kind, k.at(place), k.at(at), diff.concat()));
            }
        }
        bad
    });
}

/// Where a value stands exactly what can be seen is offered.
pub fn proposals(ctx: &Ctx) {
    let builtin = |n: &str| {
        let t = lang::builtins_file::BUILTINS_FILE;
        ["fun", "const"].iter().any(|w| t.contains(&format!("{w} {n}(")) || t.contains(&format!("{w} {n}<")) || t.contains(&format!("{w} {n}:")))
    };
    each(ctx, "known proposals", ctx.size(600, 40_000), false, |ctx, k, rng| {
        let mut bad = vec![];
        let cfg = crate::expect::completion_config(false);
        for o in &k.p.offers {
            let at = rng.range(o.at.1 as usize, o.at.2 as usize) as u32;
            if k.p.files[o.at.0].1[o.at.2 as usize..].starts_with('(') && o.kind == "member" {
                // nothing is offered there yet
                continue;
            }
            let items = k.a.completions(&cfg, pos(k.ids[o.at.0], at), None).unwrap().unwrap_or_default();
            ctx.count(&format!("known_offers_{}", o.kind.replace(' ', "_")), 1);
            let mut got: Vec<String> = vec![];
            for i in &items {
                let ide_completion::item::CompletionItemKind::SymbolKind(kind) = i.kind else { continue };
                let kind = format!("{kind:?}");
                let kind = if kind == "Function" || kind == "Method" { "Fun".to_string() } else { kind };
                if kind == "Assert" || i.lookup == "Self" || builtin(&i.lookup) || o.kind == "function of a module" && kind != "Fun" {
                    continue;
                }
                got.push(format!("{kind} {}", i.lookup));
            }
            let mut want = o.want.clone();
            got.sort();
            want.sort();
            if got != want {
                let more: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
                let less: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                bad.push(format!("{}: at {} are {} and not {}; too many {more:?}, lacking {less:?}", o.kind, k.at(o.at), got.len(), want.len()));
            }
        }
        for v in &k.p.views {
            let (f, s, e) = v.at;
            if k.p.files[f].1[e as usize..].starts_with('[') {
                // only variables and types are offered as what is indexed
                continue;
            }
            let at = rng.range(s as usize, e as usize) as u32;
            let items = k.a.completions(&cfg, pos(k.ids[f], at), None).unwrap().unwrap_or_default();
            ctx.count("known_views", 1);
            let mut got: Vec<String> = vec![];
            for i in &items {
                let ide_completion::item::CompletionItemKind::SymbolKind(kind) = i.kind else { continue };
                let kind = format!("{kind:?}");
                if matches!(kind.as_str(), "Assert" | "TypeParam" | "EnumVariant") || i.lookup == "Self" || builtin(&i.lookup) {
                    continue;
                }
                let detail = match &i.detail {
                    Some(d) if kind != "Module" => format!(" {d}"),
                    _ => String::new(),
                };
                got.push(format!("{kind} {}{detail}", i.label.primary));
            }
            let mut want: Vec<String> = vec![];
            for l in &v.locals {
                let d = &k.p.decls[*l];
                want.push(format!("Local {} {}", d.name, d.shown.as_ref().unwrap()));
            }
            for (name, d, test) in &k.p.scopes[v.module] {
                if *test && !v.test {
                    continue;
                }
                let kind = k.p.decls[*d].kind;
                // only its own module can make one
                if matches!(kind, Kind::Struct | Kind::Enum) && (k.p.owners.get(d) != Some(&v.module) || v.tparams.iter().any(|t| k.p.decls[*t].name == *name)) {
                    continue;
                }
                want.push(match kind {
                    Kind::Fun => {
                        let (_, ps, r) = k.p.sigs.iter().find(|s| s.0 == *d).unwrap();
                        let ps: Vec<String> = ps.iter().map(|(n, t)| format!("{n}: {t}")).collect();
                        format!("Function {name}({}){}", ps.join(", "), if r == "()" { String::new() } else { format!(" {r}") })
                    }
                    _ => format!("{kind:?} {name}"),
                });
            }
            got.sort();
            want.sort();
            ctx.count("known_proposals", got.len() as u64);
            if got != want {
                let more: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
                let less: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                bad.push(format!("proposals: at {} are {} and not {}; too many {more:?}, lacking {less:?}", k.at(v.at), got.len(), want.len()));
            }
        }
        bad
    });
}

/// Inside a call its parameters are shown, the current one marked; a name's hover tells what it is.
pub fn signatures(ctx: &Ctx) {
    each(ctx, "known signatures", ctx.size(600, 40_000), false, |ctx, k, rng| {
        let mut bad = vec![];
        for c in &k.p.calls {
            let want = &c.shown;
            let places: Vec<(usize, u32)> = if c.args.is_empty() { vec![(0, c.close)] } else { c.args.iter().enumerate().map(|(i, a)| (i, if rng.chance(1, 2) { a.0 } else { a.1 })).collect() };
            for (i, at) in places {
                let t = &k.p.files[c.file].1;
                let line = format!("{}:{}", k.p.files[c.file].0, t[..at as usize].matches('\n').count() + 1);
                let Some(h) = k.a.signature_help(pos(k.ids[c.file], at)).unwrap() else {
                    bad.push(format!("none: no help at {line} in a call with {want:?}"));
                    continue;
                };
                ctx.count("known_signatures", 1);
                let got: Vec<String> = h.parameter_labels().map(|l| l.to_string()).collect();
                if got != *want || h.active_parameter != Some(i) {
                    bad.push(format!("help: at {line}, parameter {i}: {got:?} {:?} and not {want:?}", h.active_parameter));
                }
            }
        }
        for u in &k.p.uses {
            let d = &k.p.decls[u.decl];
            if matches!(d.kind, Kind::TypeParam | Kind::Label | Kind::SpecFun | Kind::Schema | Kind::SchemaField) || u.also.is_some() || !rng.chance(1, 3) {
                continue;
            }
            // the text of the declaration
            let (f, s, e) = d.place.unwrap();
            let rest = &k.p.files[f].1[s as usize..];
            let upto = |ends: &[&str]| ends.iter().filter_map(|x| rest.find(x)).min().map_or(rest, |n| &rest[..n]).trim_end().to_string();
            let within = || {
                let m = k.p.decls.iter().filter(|m| m.kind == Kind::Module && m.place.is_some_and(|p| p.0 == f && p.1 < s)).max_by_key(|m| m.place.unwrap().1).unwrap();
                let t = &k.p.files[f].1[..m.place.unwrap().2 as usize];
                t[t.rfind("module ").unwrap() + 7..].to_string()
            };
            let _ = e;
            let want = match d.kind {
                Kind::Param => format!("\n\nparameter {}: {}\n", d.name, d.full.as_ref().unwrap()),
                Kind::Local => format!(" {}: {}\n", d.name, d.full.as_ref().unwrap()),
                Kind::Field => format!("field {}\n", field_text(rest)),
                Kind::Const => format!("{}\n\nconst {}\n", within(), upto(&[" = "])),
                Kind::Fun => {
                    let before = &k.p.files[f].1[..s as usize];
                    let before = before[before.rfind('\n').unwrap() + 1..].trim();
                    let vis = match before.split([' ']).next().unwrap() {
                        "public" => "public ",
                        "public(friend)" => "friend ",
                        "public(package)" => "package ",
                        _ => "",
                    };
                    let test = if k.p.files[f].1[..s as usize].lines().rev().nth(1).unwrap_or("").contains("#[test_only]") { "#[test_only]\n" } else { "" };
                    let all = upto(&[" {"]);
                    format!("{}\n\n{test}{vis}fun {}{}\n", within(), d.name, &all[all.find('(').unwrap()..])
                }
                Kind::Struct => format!("{}\n\nstruct {}", within(), d.name),
                Kind::Enum => format!("{}\n\nenum {}", within(), d.name),
                Kind::Variant => format!("variant {}", d.name),
                Kind::Module => format!("\n\nmodule {}\n", d.name),
                _ => unreachable!(),
            };
            let h = k.a.hover(pos(k.ids[u.at.0], u.at.1)).unwrap().map(|h| h.info.doc_string);
            ctx.count(&format!("known_hovers_{:?}", d.kind), 1);
            // in specs, any number type is shown either as itself or as `num`
            let nums = |t: &str| if d.spec { INTS.iter().fold(t.to_string(), |t, i| t.replace(i, "num")) } else { t.to_string() };
            if !h.as_ref().is_some_and(|h| nums(h).contains(&nums(&want))) {
                bad.push(format!("hover {:?}: over {} is {h:?}, and should be {want:?}", d.kind, k.at(u.at)));
            }
        }
        bad
    });
}

/// A field up to the end of its type.
fn field_text(t: &str) -> &str {
    let mut depth = 0;
    for (i, c) in t.char_indices() {
        match c {
            '<' | '(' => depth += 1,
            '>' | ')' => depth -= 1,
            ',' | ' ' if depth == 0 && !t[..i].ends_with(':') && !t[..i].ends_with("&mut") => return &t[..i],
            _ => {}
        }
    }
    t
}

/// Exactly the imports nothing uses are reported, and organising drops exactly them.
pub fn imports(ctx: &Ctx) {
    each(ctx, "known imports", ctx.size(1_000, 60_000), false, |ctx, k, _| {
        let mut bad = vec![];
        for (i, id) in k.ids.iter().enumerate() {
            let t = &k.p.files[i].1;
            let said: Vec<(u32, u32, bool)> = k.a.full_diagnostics(&DiagnosticsConfig::test_sample(), AssistResolveStrategy::None, *id)
                .unwrap()
                .into_iter()
                .filter(|d| matches!(d.code.as_str(), "unused-import" | "too-broad-scoped-import"))
                .map(|d| (d.range.range.start().into(), d.range.range.end().into(), d.code.as_str() == "unused-import"))
                .collect();
            let organised = match k.a.organize_imports(*id).unwrap() {
                Some(fix) => {
                    let mut t = t.clone();
                    for (_, e) in &fix.source_change.unwrap().source_file_edits {
                        e.apply(&mut t);
                    }
                    t
                }
                None => t.clone(),
            };
            for (at, _, _, used, tests) in k.p.imports.iter().filter(|x| x.0.0 == i) {
                ctx.count(if *used { "known_used_imports" } else { "known_unused_imports" }, 1);
                let got: Vec<bool> = said.iter().filter(|r| r.0 >= at.1 && r.1 <= at.2).map(|r| r.2).collect();
                let want = if !used { vec![true] } else if *tests { vec![false] } else { vec![] };
                if got != want {
                    bad.push(format!("import: {} is {}{} and is reported as {got:?}", k.at(*at).replace('\n', " "), if *used { "used" } else { "not used" }, if *tests { " in tests" } else { "" }));
                }
            }
            let mut want = t.clone();
            for (at, _, _, used, tests) in k.p.imports.iter().rev().filter(|x| x.0.0 == i) {
                if *tests {
                    want.insert_str(at.1 as usize, "\n#[test_only]\n");
                } else if !used {
                    want.replace_range(at.1 as usize..at.2 as usize, "");
                }
            }
            // `use m::{Self}` may become `use m`, and braces around one name go
            let solid = |t: &str| {
                let mut out = String::new();
                for l in t.lines() {
                    let l = l.trim();
                    let l = if l.starts_with("use ") { l.replace("::{", "::").replace("}", "").replace("::Self", "") } else { l.to_string() };
                    out.extend(l.chars().filter(|c| !c.is_whitespace()));
                }
                out
            };
            if solid(&want) != solid(&organised) {
                let at = solid(&want).chars().zip(solid(&organised).chars()).take_while(|x| x.0 == x.1).count();
                bad.push(format!("organised: {} is otherwise than what it should be\n{organised}", solid(&want).chars().skip(at.saturating_sub(40)).take(80).collect::<String>()));
            }
        }
        bad
    });
}
