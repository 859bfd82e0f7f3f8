//! The common part of every monitor: a supervisor that runs the workload in a child process and
//! judges how it ended, a pool that runs numbered cases, a record of what was observed, and the
//! list of known findings.
//!
//! Verdicts are three-valued. Exit 0: every monitored execution satisfied the property. Exit 1
//! and a VIOLATION line: an oracle refuted it (or the code under test panicked, crashed, or burnt
//! an absurd amount of CPU on one small case). Exit 2: nothing can be concluded.
pub mod corpus;
pub mod json;
pub mod rng;
pub mod text;

pub use json::{J, obj};
pub use rng::Rng;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

const MAX_SLOTS: usize = 64;

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    dir: PathBuf,
    start: Instant,
    budget: Duration,
    evaluations: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    counters: Mutex<BTreeMap<String, u64>>,
    required: Mutex<Vec<(String, u64)>>,
    samples: Mutex<Vec<String>>,
    sample_seen: AtomicU64,
    violations: Mutex<Vec<(String, String)>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    known: Vec<(String, String)>,
    stop: AtomicBool,
    slots: Vec<SlotState>,
    next_slot: AtomicUsize,
    only: Option<(String, u64)>,
    /// CPU seconds one case may burn before the monitor calls it non-terminating.
    pub cpu_limit: AtomicU64,
    pub stack_mb: AtomicUsize,
}

struct SlotState {
    /// Thread CPU clock, its reading when the case began (ns), and the open case.
    clock: AtomicI32,
    begun: AtomicU64,
    open: AtomicBool,
    case: Mutex<String>,
    label: Mutex<String>,
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CASE: RefCell<(String, u64)> = const { RefCell::new((String::new(), 0)) };
}

pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.finish()
}

fn clock_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let rc = unsafe { libc::clock_gettime(clock, &mut ts) };
    if rc != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn thread_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

/// A panic of the code under test.
#[derive(Debug, Clone)]
pub struct Panicked {
    pub message: String,
    pub location: String,
}

/// Run `f`; a panic becomes an error that names the message and the source location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(payload) => {
            let (message, location) =
                PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
                    let m = payload
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_else(|| "resumed unwinding".to_string());
                    (m, "unknown".to_string())
                });
            Err(Panicked { message, location })
        }
    }
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` cases on the quick tier, `t` on the thorough one.
    pub fn size(&self, q: usize, t: usize) -> usize {
        if self.quick() { q } else { t }
    }
    pub fn count(&self, name: &str, n: u64) {
        let mut m = self.counters.lock().unwrap();
        match m.get_mut(name) {
            Some(v) => *v += n,
            None => {
                m.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut m = self.counters.lock().unwrap();
        let e = m.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// The run observed too little to conclude anything unless counter `name` reaches `n`.
    pub fn require(&self, name: &str, n: u64) {
        self.required.lock().unwrap().push((name.to_string(), n));
    }
    pub fn eval(&self, key: u64, nontrivial: bool) {
        self.evaluations.fetch_add(1, Ordering::Relaxed);
        if nontrivial {
            let shard = &self.distinct[(key >> 58) as usize & 15];
            let mut s = shard.lock().unwrap();
            if s.len() < 400_000 {
                s.insert(key);
            }
        }
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        // Keep the 1st, 2nd, 4th, 8th, ... offered.
        let n = self.sample_seen.fetch_add(1, Ordering::Relaxed) + 1;
        if n.is_power_of_two() {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str(" …");
            }
            let mut v = self.samples.lock().unwrap();
            if v.len() < 20 {
                v.push(s);
            }
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed) || self.start.elapsed() > self.budget
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    /// Report a refutation. `sig` identifies the failing input, call site or history; it is what
    /// the known-findings list is keyed on.
    pub fn violation(&self, sig: &str, detail: String) {
        let sig = sig.replace(['\n', '\r'], " ");
        if let Some((_, what)) = self.known.iter().find(|(s, _)| *s == sig) {
            self.known_hit.lock().unwrap().insert(sig.clone(), what.clone());
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.iter().any(|(s, _)| *s == sig) {
            return;
        }
        let n = v.len();
        let (phase, index) = CASE.with(|c| c.borrow().clone());
        let replay = self.dir.join(format!("violation-{n}.json"));
        let doc = obj(vec![
            ("property", self.id.into()),
            ("signature", sig.clone().into()),
            ("seed", self.seed.into()),
            ("phase", phase.clone().into()),
            ("case", index.into()),
            ("detail", detail.clone().into()),
            (
                "rerun",
                format!(
                    "VERIF_SEED={} VERIF_TIER={} VF_ONLY={phase}:{index} bash /verif/check {}",
                    self.seed,
                    if self.quick() { "quick" } else { "thorough" },
                    self.id
                )
                .into(),
            ),
        ]);
        let _ = std::fs::write(&replay, doc.render() + "\n");
        v.push((sig.clone(), replay.display().to_string()));
        eprintln!("--- {} refuted [{sig}] ({phase}:{index})\n{detail}\n", self.id);
        if v.len() >= std::env::var("VF_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(12) {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    /// Whether a panic there would be reported for the first time.
    pub fn fresh(&self, what: &str, p: &Panicked) -> bool {
        let sig = panic_signature(what, p).replace(['\n', '\r'], " ");
        if let Some((_, what)) = self.known.iter().find(|(s, _)| *s == sig) {
            self.known_hit.lock().unwrap().insert(sig.clone(), what.clone());
            return false;
        }
        !self.violations.lock().unwrap().iter().any(|(s, _)| *s == sig)
    }

    /// Note the input of the open case, so that a crash or a hang can be reported with it.
    pub fn open(&self, label: &str, case: &str) {
        let slot = SLOT.with(|s| s.get());
        if slot == usize::MAX {
            return;
        }
        let st = &self.slots[slot];
        {
            let mut c = st.case.lock().unwrap();
            c.clear();
            c.push_str(case);
            let mut l = st.label.lock().unwrap();
            l.clear();
            l.push_str(label);
        }
        st.begun.store(clock_ns(st.clock.load(Ordering::Relaxed)), Ordering::Relaxed);
        st.open.store(true, Ordering::Release);
    }
    pub fn close(&self) {
        let slot = SLOT.with(|s| s.get());
        if slot != usize::MAX {
            self.slots[slot].open.store(false, Ordering::Release);
        }
    }

    /// Run `f` with the case on record; a panic is a violation unless it comes from the harness.
    pub fn probe<T>(&self, what: &str, case: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.open(what, case);
        let r = guarded(f);
        self.close();
        match r {
            Ok(x) => Some(x),
            Err(p) => {
                self.panicked(what, case, &p);
                None
            }
        }
    }

    /// Report a panic of the code under test, by file and message: lines move.
    pub fn panicked(&self, what: &str, case: &str, p: &Panicked) {
        self.violation(
            &panic_signature(what, p),
            format!("{what} panicked: {} at {}\ncase:\n{case}", p.message, p.location),
        );
    }

    fn attach(&self) -> usize {
        let slot = self.next_slot.fetch_add(1, Ordering::Relaxed) % MAX_SLOTS;
        SLOT.with(|s| s.set(slot));
        self.slots[slot].clock.store(thread_clock(), Ordering::Relaxed);
        slot
    }

    /// Run cases 0..n of `phase` on all cores. Case i always sees the same random stream.
    pub fn par(&self, phase: &str, n: usize, f: impl Fn(&mut Rng, usize) + Sync) {
        let threads = std::env::var("VF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        self.par_n(phase, n, threads, f)
    }

    pub fn par_n(&self, phase: &str, n: usize, threads: usize, f: impl Fn(&mut Rng, usize) + Sync) {
        let phase_key = hash_of(phase);
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let body = |i: usize| {
            CASE.with(|c| *c.borrow_mut() = (phase.to_string(), i as u64));
            let mut rng = Rng::derive(self.seed, phase_key, i as u64);
            let r = guarded(|| f(&mut rng, i));
            self.close();
            done.fetch_add(1, Ordering::Relaxed);
            if let Err(p) = r {
                let slot = SLOT.with(|s| s.get());
                let (label, case) = (
                    self.slots[slot].label.lock().unwrap().clone(),
                    self.slots[slot].case.lock().unwrap().clone(),
                );
                if p.location.contains("/harness/") {
                    // A defect of the harness is no verdict on the code.
                    eprintln!("harness panicked: {} at {}", p.message, p.location);
                    self.count("harness_panics", 1);
                    self.stop.store(true, Ordering::Relaxed);
                } else {
                    self.violation(
                        &panic_signature(&label, &p),
                        format!("{label}: panicked: {} at {}\ncase:\n{case}", p.message, p.location),
                    );
                }
            }
        };
        std::thread::scope(|s| {
            for _ in 0..threads.max(1) {
                std::thread::Builder::new()
                    .stack_size(self.stack_mb.load(Ordering::Relaxed) << 20)
                    .spawn_scoped(s, || {
                        self.attach();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            if let Some((p, k)) = &self.only {
                                if p != phase || *k != i as u64 {
                                    continue;
                                }
                            }
                            body(i);
                        }
                        self.close();
                        SLOT.with(|s| s.set(usize::MAX));
                    })
                    .unwrap();
            }
        });
        self.count(&format!("cases_{phase}"), done.load(Ordering::Relaxed));
    }

    fn results(&self, complete: bool) -> J {
        let distinct: usize = self.distinct.iter().map(|s| s.lock().unwrap().len()).sum();
        let violations = self.violations.lock().unwrap();
        obj(vec![
            ("complete", complete.into()),
            ("evaluations", self.evaluations.load(Ordering::Relaxed).into()),
            ("distinct", distinct.into()),
            (
                "counters",
                J::Obj(
                    self.counters
                        .lock()
                        .unwrap()
                        .iter()
                        .map(|(k, v)| (k.clone(), (*v).into()))
                        .collect(),
                ),
            ),
            (
                "required",
                J::Obj(
                    self.required
                        .lock()
                        .unwrap()
                        .iter()
                        .map(|(k, v)| (k.clone(), (*v).into()))
                        .collect(),
                ),
            ),
            (
                "samples",
                self.samples.lock().unwrap().iter().map(|s| J::from(s.clone())).collect::<Vec<_>>().into(),
            ),
            (
                "violations",
                violations
                    .iter()
                    .map(|(s, p)| obj(vec![("sig", s.clone().into()), ("replay", p.clone().into())]))
                    .collect::<Vec<_>>()
                    .into(),
            ),
            (
                "known",
                self.known_hit
                    .lock()
                    .unwrap()
                    .iter()
                    .map(|(s, w)| obj(vec![("sig", s.clone().into()), ("what", w.clone().into())]))
                    .collect::<Vec<_>>()
                    .into(),
            ),
        ])
    }

    fn save(&self, complete: bool) {
        let tmp = self.dir.join(".results.tmp");
        if std::fs::write(&tmp, self.results(complete).render()).is_ok() {
            let _ = std::fs::rename(&tmp, self.dir.join("results.json"));
        }
    }
}

fn strip_repo(loc: &str) -> String {
    // "…/crates/syntax/src/parse/parser.rs:12:3" -> "syntax/src/parse/parser.rs"
    let tail = loc.rsplit_once("crates/").map(|(_, t)| t).unwrap_or(loc);
    tail.split(':').next().unwrap_or(tail).to_string()
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// Lines `known: property=<id> signature=<sig> :: <what fails>` of KNOWN_FINDINGS.txt.
fn known_for(id: &str) -> Vec<(String, String)> {
    let Ok(text) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")) else { return vec![] };
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: property=")?;
            let rest = rest.strip_prefix(id)?.strip_prefix(" signature=")?;
            let (sig, what) = rest.split_once(" :: ")?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

pub fn main(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let (mode, id) = match args.as_slice() {
        [_, m, i, ..] => (m.as_str(), i.as_str()),
        _ => {
            eprintln!("usage: run|worker <id>");
            std::process::exit(2)
        }
    };
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        eprintln!("no check {id} here");
        std::process::exit(2)
    };
    match mode {
        "run" => supervise(check),
        "worker" => worker(check, Path::new(&args[3])),
        _ => std::process::exit(2),
    }
}

fn supervise(check: &Check) -> ! {
    let start = Instant::now();
    let dir = verif_dir().join("evidence").join("replay").join(check.id);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("evidence directory");
    let limit = Duration::from_secs(match std::env::var("VF_WALL").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => if tier() == Tier::Quick { 700 } else { 7200 },
    });
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", check.id])
        .arg(&dir)
        .stdin(Stdio::null())
        .spawn()
        .expect("worker");
    let mut timed_out = false;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        if start.elapsed() > limit {
            timed_out = true;
            let _ = child.kill();
            break child.wait().expect("wait");
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let res = std::fs::read_to_string(dir.join("results.json")).ok().and_then(|s| J::parse(&s));
    let empty = J::Obj(Default::default());
    let res = res.as_ref().unwrap_or(&empty);
    let mut violations: Vec<(String, String)> = vec![];
    if let Some(J::Arr(v)) = res.get("violations") {
        for x in v {
            violations.push((
                x.get("sig").and_then(J::str).unwrap_or("").to_string(),
                x.get("replay").and_then(J::str).unwrap_or("").to_string(),
            ));
        }
    }
    let mut inconclusive: Vec<String> = vec![];
    // How the worker ended is part of what was observed.
    use std::os::unix::process::ExitStatusExt;
    let crash = dir.join("crash.json");
    if timed_out {
        inconclusive.push(format!("the workload did not end within {} s", limit.as_secs()));
    } else if status.code() == Some(97) || status.code() == Some(98) || status.code() == Some(99) {
        // 97: non-termination, 98: abort (stack overflow, allocation failure, sanitizer), 99: fault
        let sig = std::fs::read_to_string(&crash)
            .ok()
            .and_then(|s| J::parse(&s))
            .and_then(|j| j.get("signature").and_then(J::str).map(str::to_string))
            .unwrap_or_else(|| format!("worker ended with {:?}", status.code()));
        if let Some((s, w)) = known_for(check.id).into_iter().find(|(s, _)| *s == sig) {
            println!("KNOWN-FINDING: property={} {w} [{s}]", check.id);
        } else {
            violations.push((sig, crash.display().to_string()));
        }
    } else if let Some(sig) = status.signal() {
        if matches!(sig, libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE) {
            let _ = std::fs::write(&crash, format!("{{\"property\": \"{}\", \"signal\": {sig}}}\n", check.id));
            violations.push((format!("worker killed by signal {sig}"), crash.display().to_string()));
        } else {
            inconclusive.push(format!("worker killed by signal {sig}"));
        }
    } else if status.code() != Some(0) {
        inconclusive.push(format!("worker exited with {:?}", status.code()));
    }
    let complete = matches!(res.get("complete"), Some(J::Bool(true)));
    if violations.is_empty() && inconclusive.is_empty() && !complete {
        inconclusive.push("the worker left no complete record".to_string());
    }
    let num = |j: &J| if let J::Int(n) = j { *n as u64 } else { 0 };
    let counter = |k: &str| res.get("counters").and_then(|c| c.get(k)).map(num).unwrap_or(0);
    if std::env::var("VF_ONLY").is_err() {
        if let Some(J::Obj(req)) = res.get("required") {
            for (k, n) in req {
                let min = num(n);
                if counter(k) < min {
                    inconclusive.push(format!("observed only {} {k}, need {min}", counter(k)));
                }
            }
        }
    }
    if counter("harness_panics") > 0 {
        inconclusive.push("the harness itself panicked".to_string());
    }
    let mut coverage = BTreeMap::new();
    coverage.insert("evaluations".to_string(), J::from(res.get("evaluations").map(num).unwrap_or(0)));
    coverage.insert("distinct_nontrivial".to_string(), J::from(res.get("distinct").map(num).unwrap_or(0)));
    coverage.insert("rule".to_string(), check.rule.into());
    coverage.insert("samples".to_string(), res.get("samples").cloned().unwrap_or(J::Arr(vec![])));
    coverage.insert("observed".to_string(), res.get("counters").cloned().unwrap_or(J::Obj(Default::default())));
    let mut known_lines = vec![];
    if let Some(J::Arr(v)) = res.get("known") {
        for x in v {
            known_lines.push(format!(
                "KNOWN-FINDING: property={} {} [{}]",
                check.id,
                x.get("what").and_then(J::str).unwrap_or(""),
                x.get("sig").and_then(J::str).unwrap_or("")
            ));
        }
    }
    coverage.insert("known_findings_seen".to_string(), J::from(known_lines.len()));
    if !inconclusive.is_empty() {
        coverage.insert(
            "inconclusive".to_string(),
            inconclusive.iter().map(|s| J::from(s.clone())).collect::<Vec<_>>().into(),
        );
    }
    let ev = obj(vec![
        ("property", check.id.into()),
        ("tier", if tier() == Tier::Quick { "quick" } else { "thorough" }.into()),
        ("seed", seed().into()),
        ("level", "exploration".into()),
        ("coverage", J::Obj(coverage)),
        ("assumptions", check.assumptions.iter().map(|s| J::from(*s)).collect::<Vec<_>>().into()),
        ("wall_s", J::Num(start.elapsed().as_secs_f64())),
        ("violations", violations.len().into()),
    ]);
    let out = verif_dir().join("evidence").join(format!("{}.json", check.id));
    std::fs::write(&out, ev.render() + "\n").expect("evidence file");
    for l in known_lines {
        println!("{l}");
    }
    if !violations.is_empty() {
        for (sig, replay) in violations.iter().take(8) {
            println!("VIOLATION property={} replay={}", check.id, replay);
            println!("  {sig}");
        }
        std::process::exit(1);
    }
    if !inconclusive.is_empty() {
        for i in inconclusive {
            println!("INCONCLUSIVE property={} {i}", check.id);
        }
        std::process::exit(2);
    }
    println!(
        "HELD property={} on {} evaluations ({} distinct non-trivial), {:.1} s",
        check.id,
        res.get("evaluations").map(num).unwrap_or(0),
        res.get("distinct").map(num).unwrap_or(0),
        start.elapsed().as_secs_f64()
    );
    std::process::exit(0)
}

static CRASH_CTX: std::sync::OnceLock<Arc<Ctx>> = std::sync::OnceLock::new();

/// The process is lost when this runs, so it may take the risk of not being async-signal-safe;
/// were it to hang, the kernel alarm ends it.
extern "C" fn on_crash(sig: libc::c_int) {
    unsafe { libc::alarm(5) };
    let slot = SLOT.with(|s| s.get());
    if let Some(ctx) = CRASH_CTX.get() {
        write_crash(ctx, slot, if sig == libc::SIGABRT { "abort" } else { "fault" });
    }
    unsafe { libc::_exit(if sig == libc::SIGABRT { 98 } else { 99 }) }
}

fn write_crash(ctx: &Ctx, slot: usize, kind: &str) {
    let (mut label, mut case) = ("outside any case".to_string(), String::new());
    if slot < MAX_SLOTS {
        if let Ok(l) = ctx.slots[slot].label.try_lock() {
            label = l.clone();
        }
        if let Ok(c) = ctx.slots[slot].case.try_lock() {
            case = c.clone();
        }
    }
    let doc = obj(vec![
        ("property", ctx.id.into()),
        ("signature", format!("{kind} {label}").into()),
        ("seed", ctx.seed.into()),
        ("case", case.into()),
    ]);
    if let Ok(mut f) = std::fs::File::create(ctx.dir.join("crash.json")) {
        let _ = f.write_all(doc.render().as_bytes());
        unsafe { libc::fsync(f.as_raw_fd()) };
    }
    ctx.save(false);
}

fn worker(check: &Check, dir: &Path) -> ! {
    if std::env::var("VF_NO_RLIMIT").is_err() {
        let r = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
    }
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &core) };
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".to_string());
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if std::env::var("VF_BACKTRACE").is_ok() {
            eprintln!("{msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
    let quick = tier() == Tier::Quick;
    let budget = std::env::var("VF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 240 } else { 3600 });
    let ctx = Arc::new(Ctx {
        id: check.id,
        tier: tier(),
        seed: seed(),
        dir: dir.to_path_buf(),
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        evaluations: AtomicU64::new(0),
        distinct: (0..16).map(|_| Mutex::new(HashSet::new())).collect(),
        counters: Default::default(),
        required: Default::default(),
        samples: Default::default(),
        sample_seen: AtomicU64::new(0),
        violations: Default::default(),
        known_hit: Default::default(),
        known: known_for(check.id),
        stop: AtomicBool::new(false),
        slots: (0..MAX_SLOTS)
            .map(|_| SlotState {
                clock: AtomicI32::new(0),
                begun: AtomicU64::new(0),
                open: AtomicBool::new(false),
                case: Mutex::new(String::new()),
                label: Mutex::new(String::new()),
            })
            .collect(),
        next_slot: AtomicUsize::new(0),
        only: std::env::var("VF_ONLY")
            .ok()
            .and_then(|s| s.rsplit_once(':').and_then(|(p, i)| Some((p.to_string(), i.parse().ok()?)))),
        cpu_limit: AtomicU64::new(60),
        stack_mb: AtomicUsize::new(64),
    });
    let _ = CRASH_CTX.set(ctx.clone());
    if cfg!(not(miri)) && std::env::var("VF_NO_HANDLER").is_err() {
        unsafe { libc::signal(libc::SIGABRT, on_crash as *const () as libc::sighandler_t) };
    }
    let w = ctx.clone();
    std::thread::spawn(move || {
        let mut ticks = 0u64;
        loop {
            std::thread::sleep(Duration::from_millis(200));
            ticks += 1;
            if ticks % 10 == 0 {
                w.save(false);
            }
            for (n, s) in w.slots.iter().enumerate() {
                if !s.open.load(Ordering::Acquire) {
                    continue;
                }
                let begun = s.begun.load(Ordering::Relaxed);
                let now = clock_ns(s.clock.load(Ordering::Relaxed));
                let limit = w.cpu_limit.load(Ordering::Relaxed) * 1_000_000_000;
                // Same case still open, and it has burnt more CPU than the limit.
                if now > begun + limit && s.open.load(Ordering::Acquire) && s.begun.load(Ordering::Relaxed) == begun {
                    write_crash(&w, n, "no end after the CPU limit:");
                    unsafe { libc::_exit(97) };
                }
            }
        }
    });
    (check.run)(&ctx);
    ctx.save(true);
    unsafe { libc::_exit(0) }
}

fn panic_signature(what: &str, p: &Panicked) -> String {
    format!("panic {what} at {}: {}", strip_repo(&p.location), p.message.chars().take(70).collect::<String>())
}

/// Delete chunks of `text` while `fails` keeps failing.
pub fn shrink(text: &str, mut fails: impl FnMut(&str) -> bool) -> String {
    let mut cur: Vec<char> = text.chars().collect();
    let mut chunk = (cur.len() / 2).max(1);
    let started = Instant::now();
    loop {
        let mut i = 0;
        let mut progressed = false;
        while i < cur.len() && started.elapsed() < Duration::from_secs(8) {
            let mut cand = cur.clone();
            let end = (i + chunk).min(cand.len());
            cand.drain(i..end);
            let s: String = cand.iter().collect();
            if fails(&s) {
                cur = cand;
                progressed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !progressed || started.elapsed() > Duration::from_secs(8) {
            break;
        }
        if !progressed {
            chunk = (chunk / 2).max(1);
        }
    }
    cur.into_iter().collect()
}
