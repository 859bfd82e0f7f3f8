//! What may be given where what is asked for: types against types, and types against the abilities asked of them.
use crate::world::World;
use ide_diagnostics::config::DiagnosticsConfig;
use ide_db::Severity;
use std::collections::BTreeSet;
use vf::{Ctx, Rng, guarded};

#[derive(Clone, PartialEq, Debug)]
enum T {
    Int(&'static str),
    Bool,
    Address,
    Signer,
    Param(usize),
    Vector(Box<T>),
    Adt(usize, Vec<T>),
    Ref(bool, Box<T>),
    Tuple(Vec<T>),
}

const INTS: [&str; 6] = ["u8", "u16", "u32", "u64", "u128", "u256"];
/// name, type parameters; those of other modules are told from ours by their module
const ADTS: [(&str, usize); 6] = [("A", 0), ("B", 0), ("G", 1), ("H", 2), ("0x2::o::A", 0), ("0x2::o::G", 1)];
const ABILITIES: [&str; 4] = ["copy", "drop", "store", "key"];

fn simple(rng: &mut Rng, depth: usize) -> T {
    match rng.below(if depth == 0 { 7 } else { 11 }) {
        0 | 1 | 2 => T::Int(rng.pick(&INTS)),
        3 => T::Bool,
        4 => T::Address,
        5 => T::Param(rng.below(2)),
        6 => T::Adt(*rng.pick(&[0, 1, 4]), vec![]),
        7 | 8 => T::Vector(Box::new(simple(rng, depth - 1))),
        9 => T::Adt(*rng.pick(&[2, 5]), vec![simple(rng, depth - 1)]),
        _ => T::Adt(3, vec![simple(rng, depth - 1), simple(rng, depth - 1)]),
    }
}

fn component(rng: &mut Rng) -> T {
    match rng.below(5) {
        0 => T::Ref(false, Box::new(simple(rng, 2))),
        1 => T::Ref(true, Box::new(simple(rng, 2))),
        2 => T::Signer,
        _ => simple(rng, 2),
    }
}

fn any(rng: &mut Rng) -> T {
    if rng.chance(1, 4) { T::Tuple((0..*rng.pick(&[0, 2, 2, 3, 4])).map(|_| component(rng)).collect()) } else { component(rng) }
}

/// The same, or something a little else.
fn near(rng: &mut Rng, t: &T) -> T {
    match t {
        T::Tuple(ts) => {
            let mut ts = ts.clone();
            match rng.below(5) {
                0 if !ts.is_empty() => {
                    ts.pop();
                }
                1 => ts.push(component(rng)),
                2 if ts.len() > 1 => ts.swap(0, 1),
                _ if !ts.is_empty() => {
                    let i = rng.below(ts.len());
                    ts[i] = near(rng, &ts[i]);
                }
                _ => {}
            }
            if ts.len() == 1 { ts.pop().unwrap() } else { T::Tuple(ts) }
        }
        T::Ref(m, i) => match rng.below(4) {
            0 => T::Ref(!m, i.clone()),
            1 => (**i).clone(),
            2 => T::Ref(!m, Box::new(near(rng, i))),
            _ => T::Ref(*m, Box::new(near(rng, i))),
        },
        T::Vector(i) => match rng.below(4) {
            0 => (**i).clone(),
            _ => T::Vector(Box::new(near(rng, i))),
        },
        T::Adt(a, ts) => {
            let mut ts = ts.clone();
            if ts.is_empty() || rng.chance(1, 2) {
                let same: Vec<usize> = (0..ADTS.len()).filter(|i| ADTS[*i].1 == ts.len()).collect();
                return T::Adt(*rng.pick(&same), ts);
            }
            let i = rng.below(ts.len());
            ts[i] = near(rng, &ts[i]);
            T::Adt(*a, ts)
        }
        _ => match rng.below(4) {
            0 => T::Ref(rng.chance(1, 2), Box::new(t.clone())).unsigned(),
            1 => T::Vector(Box::new(t.clone())).unsigned(),
            _ => simple(rng, 1),
        },
    }
}

impl T {
    /// A signer is nowhere within another type.
    fn unsigned(self) -> T {
        match self {
            T::Ref(_, i) | T::Vector(i) if *i == T::Signer => T::Signer,
            t => t,
        }
    }
    fn show(&self) -> String {
        let all = |ts: &[T]| ts.iter().map(T::show).collect::<Vec<_>>().join(", ");
        match self {
            T::Int(i) => i.to_string(),
            T::Bool => "bool".to_string(),
            T::Address => "address".to_string(),
            T::Signer => "signer".to_string(),
            T::Param(p) => ["T", "U"][*p].to_string(),
            T::Vector(i) => format!("vector<{}>", i.show()),
            T::Adt(a, ts) if ts.is_empty() => ADTS[*a].0.to_string(),
            T::Adt(a, ts) => format!("{}<{}>", ADTS[*a].0, all(ts)),
            T::Ref(m, i) => format!("&{}{}", if *m { "mut " } else { "" }, i.show()),
            T::Tuple(ts) => format!("({})", all(ts)),
        }
    }
    fn fits(&self, want: &T) -> bool {
        match (want, self) {
            (T::Ref(wm, w), T::Ref(m, t)) => (!wm || *m) && w == t,
            (T::Tuple(ws), T::Tuple(ts)) => ws.len() == ts.len() && ws.iter().zip(ts).all(|(w, t)| t.fits(w)),
            _ => self == want,
        }
    }
    fn no_reference(&self) -> bool {
        !matches!(self, T::Ref(..) | T::Tuple(_))
    }
}

/// Which abilities a type has, if the rules need not look at the arguments of a generic one.
fn abilities(t: &T, of: &[Vec<&'static str>]) -> BTreeSet<&'static str> {
    match t {
        T::Int(_) | T::Bool | T::Address => BTreeSet::from(["copy", "drop", "store"]),
        T::Signer => BTreeSet::from(["drop"]),
        T::Param(p) => of[ADTS.len() + p].iter().copied().collect(),
        T::Vector(i) => abilities(i, of).into_iter().filter(|a| *a != "key").collect(),
        T::Adt(a, _) => of[*a].iter().copied().collect(),
        T::Ref(..) => BTreeSet::from(["copy", "drop"]),
        T::Tuple(_) => BTreeSet::new(),
    }
}

fn bounded(name: &str, of: &[&'static str], rng: &mut Rng) -> String {
    let mut of = of.to_vec();
    rng.shuffle(&mut of);
    if of.is_empty() { name.to_string() } else { format!("{name}: {}", of.join(" + ")) }
}

struct Site {
    at: (u32, u32),
    right: bool,
    ability: bool,
    /// abilities the error has to name
    lacks: Vec<&'static str>,
    what: String,
}

fn build(rng: &mut Rng) -> (String, Vec<Site>) {
    let mut of: Vec<Vec<&'static str>> = vec![];
    for i in 0..ADTS.len() + 2 {
        let mut v: Vec<&'static str> = ABILITIES.iter().copied().filter(|_| rng.chance(1, 2)).collect();
        if i >= ADTS.len() && rng.chance(1, 3) {
            v.clear();
        }
        rng.shuffle(&mut v);
        of.push(v);
    }
    let has = |i: usize| if of[i].is_empty() { String::new() } else { format!(" has {}", of[i].join(", ")) };
    let mut t = String::new();
    t.push_str(&format!("module 0x2::o {{\n    struct A{} {{ x: u8 }}\n    struct G<T>{} {{ t: T }}\n}}\n", has(4), has(5)));
    t.push_str("module 0x1::m {\n");
    t.push_str(&format!("    struct A{} {{ x: u8 }}\n    struct B{} {{ x: u8 }}\n    struct G<T>{} {{ t: T }}\n    struct H<T, U>{} {{ t: T, u: U }}\n", has(0), has(1), has(2), has(3)));
    let mut sites = vec![];
    let own = format!("<{}, {}>", bounded("T", &of[ADTS.len()], rng), bounded("U", &of[ADTS.len() + 1], rng));
    for k in 0..rng.range(2, 7) {
        if rng.chance(1, 3) {
            // abilities
            let given = loop {
                let g = simple(rng, 2);
                if g.no_reference() {
                    break g;
                }
            };
            let asked: Vec<&'static str> = ABILITIES.iter().copied().filter(|_| rng.chance(2, 5)).collect();
            let mut order = asked.clone();
            rng.shuffle(&mut order);
            let b = if order.is_empty() { "E".to_string() } else { format!("E: {}", order.join(" + ")) };
            t.push_str(&format!("    native fun make{k}{own}(): {};\n    native fun need{k}<{b}>(x: E);\n    fun in{k}{own}() {{\n        ", given.show()));
            let explicit = rng.chance(1, 2);
            t.push_str(&format!("need{k}"));
            if explicit {
                t.push('<');
            }
            let s = t.len() as u32;
            let (mut a, mut b) = (s, s);
            if explicit {
                t.push_str(&given.show());
                (a, b) = (s, t.len() as u32);
                t.push('>');
            }
            t.push('(');
            let s = t.len() as u32;
            t.push_str(&format!("make{k}<T, U>()"));
            if !explicit {
                (a, b) = (s, t.len() as u32);
            }
            t.push_str(");\n    }\n");
            let mine = abilities(&given, &of);
            let lacks: Vec<&'static str> = asked.iter().copied().filter(|x| !mine.contains(x)).collect();
            sites.push(Site { at: (a, b), right: lacks.is_empty(), ability: true, what: format!("{} where {asked:?} is asked for", given.show()), lacks });
            continue;
        }
        let want = any(rng);
        let got = match rng.below(4) {
            0 => want.clone(),
            1 | 2 => near(rng, &want),
            _ => {
                let g = near(rng, &want);
                near(rng, &g)
            }
        };
        let unit = T::Tuple(vec![]);
        let form = if got == unit || want == unit { 2 } else if matches!(want, T::Tuple(_)) || matches!(got, T::Tuple(_)) { *rng.pick(&[0, 2, 3]) } else { rng.below(7) };
        let (w, g) = (want.show(), got.show());
        t.push_str(&format!("    native fun make{k}{own}(): {g};\n"));
        let m = format!("make{k}<T, U>()");
        let before = match form {
            // a tuple's parts have no names of their own
            0 if matches!(want, T::Tuple(_)) => format!("    fun in{k}{own}(): {w} {{\n        return "),
            0 => format!("    fun in{k}{own}() {{\n        let x: {w} = "),
            1 => format!("    native fun take{k}{own}(a: u8, x: {w});\n    fun in{k}{own}() {{\n        take{k}<T, U>(1, "),
            2 => format!("    fun in{k}{own}(): {w} {{\n        "),
            3 => format!("    fun in{k}{own}(): {w} {{\n        return "),
            4 => format!("    fun in{k}{own}(x: {w}) {{\n        x = "),
            5 if want.no_reference() => format!("    struct W{k}{own} {{ a: u8, x: {w} }}\n    fun in{k}{own}() {{\n        W{k}<T, U> {{ a: 1, x: "),
            5 => format!("    fun in{k}{own}(): {w} {{\n        "),
            _ => format!("    fun in{k}{own}() {{\n        let y = |x: {w}| x;\n        y("),
        };
        let after = match form {
            1 | 6 => ");",
            // a `return` is the value of the body
            2 | 3 => "",
            0 if matches!(want, T::Tuple(_)) => "",
            5 if want.no_reference() => " };",
            5 => "",
            _ => ";",
        };
        t.push_str(&before);
        let s = t.len() as u32;
        t.push_str(&m);
        let e = t.len() as u32;
        t.push_str(after);
        t.push_str("\n    }\n");
        sites.push(Site { at: (s, e), right: got.fits(&want), ability: false, lacks: vec![], what: format!("{g} where {w} is asked for (form {form})") });
    }
    t.push_str("}\n");
    (t, sites)
}

pub fn run(ctx: &Ctx) {
    ctx.par("what fits where", ctx.size(3_000, 300_000), |rng, _| {
        let (text, sites) = build(rng);
        ctx.open("what fits where", &text);
        let r = guarded(|| {
            let w = World::single(&text);
            let mut errors: Vec<((u32, u32), String, String)> = w
                .analysis()
                .full_diagnostics(&DiagnosticsConfig::test_sample(), ide::AssistResolveStrategy::None, w.main())
                .unwrap()
                .into_iter()
                .filter(|d| d.severity == Severity::Error)
                .map(|d| ((d.range.range.start().into(), d.range.range.end().into()), d.code.as_str().to_string(), d.message))
                .collect();
            let mut bad = vec![];
            for s in &sites {
                ctx.count(&format!("{}_{}", if s.ability { "abilities" } else { "types" }, if s.right { "right" } else { "wrong" }), 1);
                let mine: Vec<_> = errors.extract_if(.., |e| e.0 == s.at).collect();
                let code = if s.ability { "missing-ability-on-type-arg" } else { "type-error" };
                if s.right {
                    if !mine.is_empty() {
                        bad.push(format!("fits: {} is {mine:?}", s.what));
                    }
                } else if mine.len() != 1 || mine[0].1 != code {
                    bad.push(format!("misfit: {} is {mine:?}", s.what));
                } else if s.ability {
                    let said: Vec<&str> = ABILITIES.iter().copied().filter(|a| mine[0].2.to_lowercase().split("abilit").nth(1).unwrap_or("").contains(a)).collect();
                    if said != s.lacks {
                        bad.push(format!("lacking: {} lacks {:?}: {}", s.what, s.lacks, mine[0].2));
                    }
                }
            }
            if let Some(e) = errors.first() {
                bad.push(format!("elsewhere: {e:?} at {:?}", &text[e.0.0 as usize..e.0.1 as usize]));
            }
            bad
        });
        ctx.close();
        ctx.eval(vf::hash_of(&text), true);
        match r {
            Ok(bad) => {
                if let Some(b) = bad.first() {
                    ctx.violation(&format!("what fits where: {}", b.split(':').next().unwrap_or("")), format!("{}\n{text}", bad.join("\n")));
                }
            }
            Err(p) => ctx.panicked("what fits where", &text, &p),
        }
    });
}
