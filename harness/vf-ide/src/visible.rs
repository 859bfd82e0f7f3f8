//! Who may use what: every visibility and attribute of a function, from every kind of place.
use crate::world::{Package, World};
use ide_diagnostics::config::DiagnosticsConfig;
use std::collections::BTreeSet;
use vf::{Ctx, Rng, guarded};
use vfs::FileId;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Vis {
    Private,
    Friend,
    Package,
    Public,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Only {
    Main,
    Test,
    Verify,
}

struct Module {
    package: usize,
    address: usize,
    name: &'static str,
}

struct Item {
    name: String,
    vis: Vis,
    only: Only,
    spec: bool,
    method: bool,
    at: (u32, u32),
}

/// what each place is: the body of a function for all, for tests, for the prover, a specification
#[derive(Clone, Copy, PartialEq, Debug)]
enum From {
    Body(Only),
    Spec,
}

struct Use {
    item: usize,
    from: From,
    module: usize,
    /// of the text: name, whole path
    name: (u32, u32),
    whole: (u32, u32),
    text: String,
    method: bool,
}

const MODULES: [Module; 6] = [
    Module { package: 0, address: 1, name: "m" },
    Module { package: 0, address: 2, name: "m" },
    Module { package: 0, address: 1, name: "n" },
    Module { package: 0, address: 2, name: "k" },
    Module { package: 1, address: 3, name: "m" },
    Module { package: 1, address: 3, name: "n" },
];

fn address(rng: &mut Rng, a: usize) -> String {
    match rng.below(4) {
        0 => ["", "a1", "a2", "a3"][a].to_string(),
        1 => format!("0x{a}"),
        2 => format!("0x0{a}"),
        _ => format!("0x{a:064x}"),
    }
}

struct Case {
    pkgs: Vec<Package>,
    declaring: usize,
    friends: BTreeSet<usize>,
    items: Vec<Item>,
    uses: Vec<Use>,
    /// per module the file's place in its package
    files: Vec<usize>,
    /// where functions of the module are asked for: module, place, from
    asked: Vec<(usize, u32, From)>,
}

fn build(rng: &mut Rng, want_asked: bool) -> Case {
    let declaring = rng.below(MODULES.len());
    let d = &MODULES[declaring];
    let mut friends = BTreeSet::new();
    for (i, m) in MODULES.iter().enumerate() {
        if i != declaring && m.package == d.package && rng.chance(1, 3) {
            friends.insert(i);
        }
    }
    // the declaring module
    let mut t = format!("module {}::{} {{\n", address(rng, d.address), d.name);
    for f in &friends {
        if rng.chance(1, 4) && MODULES[*f].name != d.name {
            t.push_str(&format!("    use {}::{} as fr{f};\n    friend fr{f};\n", address(rng, MODULES[*f].address), MODULES[*f].name));
        } else {
            t.push_str(&format!("    friend {}::{};\n", address(rng, MODULES[*f].address), MODULES[*f].name));
        }
    }
    t.push_str("    struct S has copy, drop, store { x: u8 }\n    public fun made(): S { S { x: 1 } }\n");
    let mut items = vec![];
    let n = rng.range(2, 6);
    for i in 0..n {
        let vis = *rng.pick(&[Vis::Private, Vis::Friend, Vis::Package, Vis::Public]);
        let only = *rng.pick(&[Only::Main, Only::Main, Only::Main, Only::Test, Only::Verify]);
        let spec = rng.chance(1, 8);
        let method = !spec && rng.chance(1, 4);
        let name = format!("{}{i}", rng.pick(&["get", "put", "run"]));
        if spec {
            t.push_str("    spec fun ");
        } else {
            match only {
                Only::Main => {}
                Only::Test => t.push_str("    #[test_only]\n"),
                Only::Verify => t.push_str("    #[verify_only]\n"),
            }
            t.push_str("    ");
            t.push_str(match vis {
                Vis::Private => "",
                Vis::Friend => *rng.pick(&["public(friend) ", "friend "]),
                Vis::Package => *rng.pick(&["public(package) ", "package "]),
                Vis::Public => "public ",
            });
            if vis != Vis::Private && rng.chance(1, 6) {
                t.push_str("inline ");
            }
            t.push_str("fun ");
        }
        let s = t.len() as u32;
        t.push_str(&name);
        items.push(Item { name, vis, only, spec, method, at: (s, t.len() as u32) });
        t.push_str(if method { "(self: &S): bool { true }\n" } else { "(): bool { true }\n" });
    }
    let mut texts: Vec<Option<String>> = MODULES.iter().map(|_| None).collect();
    let mut uses: Vec<Use> = vec![];
    let mut asked = vec![];
    for (i, m) in MODULES.iter().enumerate() {
        let own = i == declaring;
        let mut u = if own { std::mem::take(&mut t) } else { format!("module {}::{} {{\n", address(rng, m.address), m.name) };
        let mut alias = None;
        if !own && rng.chance(1, 2) {
            let a = if d.name == m.name || rng.chance(1, 3) { "q".to_string() } else { d.name.to_string() };
            let as_ = if a == d.name { String::new() } else { format!(" as {a}") };
            u.push_str(&match rng.below(3) {
                0 => format!("    use {}::{}{as_};\n", address(rng, d.address), d.name),
                1 => format!("    use {}::{}::Self{as_};\n", address(rng, d.address), d.name),
                _ => format!("    use {}::{}::{{Self{as_}}};\n", address(rng, d.address), d.name),
            });
            alias = Some(a);
        }
        for b in 0..rng.range(1, 4) {
            let from = *rng.pick(&[From::Body(Only::Main), From::Body(Only::Main), From::Body(Only::Test), From::Body(Only::Test), From::Body(Only::Verify), From::Spec]);
            match from {
                From::Body(Only::Main) => u.push_str(&format!("    fun user{b}() {{\n")),
                From::Body(Only::Test) => u.push_str(&format!("    #[{}]\n    fun user{b}() {{\n", rng.pick(&["test_only", "test"]))),
                From::Body(Only::Verify) => u.push_str(&format!("    #[verify_only]\n    fun user{b}() {{\n")),
                From::Spec => u.push_str(&format!("    fun user{b}() {{}}\n    spec user{b} {{\n")),
            }
            if from != From::Spec {
                let made = if own { "made()".to_string() } else { format!("{}::{}::made()", address(rng, d.address), d.name) };
                u.push_str(&format!("        let s = {made};\n"));
            }
            for _ in 0..rng.range(1, 4) {
                let k = rng.below(items.len());
                let it = &items[k];
                u.push_str(if from == From::Spec { "        ensures " } else { "        " });
                let s0 = u.len();
                let as_method = it.method && from != From::Spec;
                if as_method {
                    u.push_str("s.");
                } else {
                    let q = match &alias {
                        Some(a) if rng.chance(1, 2) => a.clone(),
                        _ if own && rng.chance(1, 2) => (*rng.pick(&["Self", ""])).to_string(),
                        _ => format!("{}::{}", address(rng, d.address), d.name),
                    };
                    u.push_str(&q);
                    if !q.is_empty() {
                        u.push_str("::");
                    }
                }
                let s = u.len();
                if want_asked && !as_method && s != s0 {
                    asked.push((i, s as u32, from));
                }
                u.push_str(&it.name);
                let e = u.len();
                let args = if as_method || !it.method {
                    ""
                } else if from == From::Spec {
                    "x"
                } else {
                    "&s"
                };
                uses.push(Use { item: k, from, module: i, name: (s as u32, e as u32), whole: (s0 as u32, e as u32), text: u[s0..e].to_string(), method: as_method });
                u.push_str(&format!("({args});\n"));
            }
            u.push_str("    }\n");
        }
        u.push_str("}\n");
        texts[i] = Some(u);
    }
    let addresses = |v: &[usize]| v.iter().map(|a| (format!("a{a}"), format!("0x{a}"))).collect::<Vec<_>>();
    let mut pkgs = vec![
        Package { name: "app".to_string(), deps: vec![1], addresses: addresses(&[1, 2, 3]), ..Default::default() },
        Package { name: "lib".to_string(), library: rng.chance(1, 2), addresses: addresses(&[1, 2, 3]), ..Default::default() },
    ];
    let mut files = vec![];
    for (i, m) in MODULES.iter().enumerate() {
        files.push(pkgs[m.package].files.len());
        pkgs[m.package].files.push((format!("sources/f{i}.move"), texts[i].take().unwrap()));
    }
    Case { pkgs, declaring, friends, items, uses, files, asked }
}

/// Whether the language lets the item be used there; nothing where it is not for this oracle to say.
fn allowed(c: &Case, it: &Item, module: usize, from: From) -> Option<bool> {
    let (d, u) = (&MODULES[c.declaring], &MODULES[module]);
    if d.package == 0 && u.package == 1 {
        return Some(false);
    }
    let From::Body(from) = from else { return Some(true) };
    if it.spec || it.only != Only::Main && it.only != from {
        return Some(false);
    }
    if module == c.declaring {
        return Some(true);
    }
    match it.vis {
        Vis::Private => Some(false),
        Vis::Public => Some(true),
        Vis::Friend => Some(c.friends.contains(&module)),
        // within the package and across addresses the compiler has more to say
        Vis::Package if u.package == d.package && u.address != d.address => None,
        Vis::Package => Some(u.package == d.package),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Names,
    Diagnostics,
    Proposals,
}

pub fn run(ctx: &Ctx, judge: Judge) {
    ctx.par("who may use what", ctx.size(1_500, 60_000), |rng, _| {
        let c = build(rng, judge == Judge::Proposals);
        let show = c.pkgs.iter().flat_map(|p| p.files.iter().map(move |(f, t)| format!("//- /{}/{f}\n{t}", p.name))).collect::<Vec<_>>().join("");
        ctx.open("who may use what", &show);
        let r = guarded(|| look(ctx, &c, judge, rng));
        ctx.close();
        ctx.eval(vf::hash_of(&show), true);
        match r {
            Ok(bad) => {
                if let Some(b) = bad.first() {
                    ctx.violation(&format!("who may use what: {}", b.split(':').next().unwrap_or("")), format!("{}\n{show}", bad.join("\n")));
                }
            }
            Err(p) => ctx.panicked("who may use what", &show, &p),
        }
    });
}

fn look(ctx: &Ctx, c: &Case, judge: Judge, rng: &mut Rng) -> Vec<String> {
    let w = World::packages(&c.pkgs);
    let a = w.analysis();
    let id = |m: usize| -> FileId {
        let p = &c.pkgs[MODULES[m].package];
        let path = format!("/w/{}/{}", p.name, p.files[c.files[m]].0);
        w.files.iter().find(|f| f.0 == path).unwrap().1
    };
    let text = |m: usize| &c.pkgs[MODULES[m].package].files[c.files[m]].1;
    let mut bad = vec![];
    let pos = |m: usize, o: u32| crate::monitors::pos(id(m), o);
    if judge == Judge::Proposals {
        let cfg = crate::expect::completion_config(false);
        for (m, at, from) in &c.asked {
            if *from == From::Spec || !rng.chance(1, 2) {
                continue;
            }
            let items = a.completions(&cfg, pos(*m, *at), None).unwrap().unwrap_or_default();
            let got: BTreeSet<&str> = items.iter().map(|i| i.lookup.as_str()).collect();
            for it in &c.items {
                let Some(want) = allowed(c, it, *m, *from) else { continue };
                ctx.count(if want { "offered" } else { "not_offered" }, 1);
                if got.contains(it.name.as_str()) != want {
                    bad.push(format!("offer: {} {:?} {:?} is {}offered in {} at {:?}", it.name, it.vis, it.only, if want { "not " } else { "" }, m, &text(*m)[*at as usize..].lines().next()));
                }
            }
        }
        return bad;
    }
    for m in 0..MODULES.len() {
        let diags: Vec<(u32, u32, String)> = if judge == Judge::Diagnostics {
            a.full_diagnostics(&DiagnosticsConfig::test_sample(), ide::AssistResolveStrategy::None, id(m))
                .unwrap()
                .into_iter()
                .filter(|d| d.code.as_str() == "unresolved-reference")
                .map(|d| (d.range.range.start().into(), d.range.range.end().into(), d.message.clone()))
                .collect()
        } else {
            vec![]
        };
        for u in c.uses.iter().filter(|u| u.module == m) {
            let it = &c.items[u.item];
            let Some(want) = allowed(c, it, m, u.from) else { continue };
            let what = format!("{} {:?} {:?} of module {} as `{}` from {:?} of module {m}", it.name, it.vis, it.only, c.declaring, u.text, u.from);
            ctx.count(if want { "may_be_used" } else { "may_not_be_used" }, 1);
            if judge == Judge::Names {
                let got: Vec<(FileId, u32, u32)> = match a.goto_definition_multi(pos(m, u.name.0 + 1)).unwrap() {
                    Some(r) => r
                        .info
                        .iter()
                        .map(|n| {
                            let r = n.focus_or_full_range();
                            (n.file_id, r.start().into(), r.end().into())
                        })
                        .collect(),
                    None => vec![],
                };
                let target = (id(c.declaring), it.at.0, it.at.1);
                if want && got != vec![target] {
                    bad.push(format!("visible: {what} leads to {got:?} and not to {target:?}"));
                }
                if !want && !got.is_empty() {
                    bad.push(format!("hidden: {what} leads to {got:?}, something else"));
                }
            } else {
                let said: Vec<_> = diags.iter().filter(|d| d.0 < u.whole.1 && d.1 > u.whole.0).collect();
                if u.method && !want && MODULES[c.declaring].package == 0 && MODULES[m].package == 1 {
                    // nothing is known about the receiver
                    continue;
                }
                if said.is_empty() != want {
                    bad.push(format!("error: {what} has errors {said:?}"));
                }
                for (_, _, s) in said {
                    let told = |t: &str| s.contains(t);
                    if told("is private") && it.vis != Vis::Private || told("visibility)") && !matches!(it.vis, Vis::Friend | Vis::Package) || told("#[test_only]") && it.only != Only::Test || told("#[verify_only]") && it.only != Only::Verify && !it.spec {
                        bad.push(format!("reason: {what} has the error {s}"));
                    }
                }
            }
        }
    }
    bad
}
