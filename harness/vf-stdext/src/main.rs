mod oracle;
use oracle::*;
use vf::text::*;
use vf::{Check, Ctx, Rng, hash_of};

const ALPHA: &[&str] = &["\r", "\n", "a", "é"];

/// The k-th string of length `len` over ALPHA.
fn nth_string(mut k: usize, len: usize) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(ALPHA[k % ALPHA.len()]);
        k /= ALPHA.len();
    }
    s
}

fn filler(rng: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let kind = rng.below(5);
    while s.len() < n {
        match kind {
            0 => s.push('x'),
            1 => s.push_str("日本語"),
            2 => s.push(odd_char(rng)),
            3 => s.push(any_char(rng)),
            _ => s.push_str(*rng.pick(&["let x = 1;", " ", "\t", "// c", "é", "😀", "\u{2028}"])),
        }
    }
    s
}

/// Texts made of line terminators, near-terminators and runs whose lengths straddle the widths
/// that byte-search loops step by.
fn random_text(rng: &mut Rng, pieces: usize) -> String {
    let mut s = String::new();
    if rng.chance(1, 12) {
        s.push('\u{feff}');
    }
    let style = rng.below(5);
    for _ in 0..pieces {
        match rng.below(12) {
            0 => s.push('\r'),
            1 => s.push('\n'),
            2 => s.push_str("\r\r\n"),
            3 => s.push_str("\n\r"),
            4 => s.push_str("\r\n\r\n"),
            5 => s.push_str("\r\n\n"),
            6 => s.push(odd_char(rng)),
            7 => {
                let w = *rng.pick(&[1usize, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256]);
                let t = filler(rng, w);
                s.push_str(&t)
            }
            8 => {
                let w = rng.below(40);
                let t = filler(rng, w);
                s.push_str(&t)
            }
            _ => s.push_str(match style {
                0 => "\r\n",
                1 => "\n",
                2 => "x\r\n",
                3 => "",
                _ => *rng.pick(&["\r\n", "\n", "\r"]),
            }),
        }
    }
    if rng.chance(1, 6) {
        s.push('\r');
    }
    s
}

fn big_text(rng: &mut Rng, i: usize) -> String {
    // Counts and sizes around the widths counters are kept in.
    let counts = [254, 255, 256, 257, 4095, 4096, 65534, 65535, 65536, 65537, 100_000, 200_001];
    let n = counts[i % counts.len()];
    let mut s = String::new();
    match (i / counts.len()) % 6 {
        0 => {
            for _ in 0..n {
                s.push_str("\r\n");
            }
        }
        1 => {
            for k in 0..n {
                s.push_str(if k % 2 == 0 { "a\r\n" } else { "é\n" });
            }
        }
        2 => {
            for _ in 0..n / 50 + 1 {
                let w = rng.below(300);
                s.push_str(&filler(rng, w));
                s.push_str("\r\n");
            }
        }
        3 => {
            // one CRLF, very late
            s.push_str(&"x".repeat(n * 3));
            s.push_str("\r\n");
            s.push_str(&"y".repeat(rng.below(40)));
        }
        4 => {
            // one CRLF, very early, then LF only
            s.push_str("\r\n");
            for _ in 0..n {
                s.push_str("é\n");
            }
        }
        _ => {
            for _ in 0..n / 40 + 1 {
                let t = random_text(rng, 20);
                s.push_str(&t);
            }
        }
    }
    s
}

fn show(s: &str) -> String {
    if s.len() > 4000 { format!("{} bytes, {:?} …", s.len(), s.chars().take(300).collect::<String>()) } else { format!("{s:?}") }
}

fn drive(ctx: &Ctx, f: fn(&str, usize) -> Result<usize, String>, what: &str) {
    let one = |s: &str, spare: usize| {
        ctx.open(what, s);
        let r = f(s, spare);
        ctx.close();
        match r {
            Ok(n) => {
                ctx.eval(hash_of(s), n > 0);
                n as u64
            }
            Err(e) => {
                let small = vf::shrink(&s.chars().take(20000).collect::<String>(), |t| f(t, spare).is_err());
                let small = if f(&small, spare).is_err() { small } else { s.to_string() };
                ctx.violation(
                    &format!("{what} {:?}", small.chars().take(80).collect::<String>()),
                    format!("{e}\ninput: {}\nshrunk: {} -> {:?}", show(s), show(&small), f(&small, spare)),
                );
                0
            }
        }
    };
    let max_len = ctx.size(8, 10);
    for len in 0..=max_len {
        let total = ALPHA.len().pow(len as u32);
        let chunk = 4096;
        ctx.par(&format!("exhaustive{len}"), total.div_ceil(chunk), |_, i| {
            let mut n = 0;
            for k in i * chunk..((i + 1) * chunk).min(total) {
                n += one(&nth_string(k, len), k % 3);
            }
            ctx.count("terminators_observed", n);
        });
    }
    ctx.par("random", ctx.size(60_000, 3_000_000), |rng, _| {
        let pieces = match rng.below(10) {
            0..=5 => rng.below(12),
            6..=8 => rng.below(60),
            _ => rng.below(600),
        };
        let s = random_text(rng, pieces);
        let spare = *rng.pick(&[0, 0, 1, 17, 4096]);
        ctx.sample(|| show(&s));
        let n = one(&s, spare);
        ctx.count("terminators_observed", n);
        if n > 0 {
            ctx.count("texts_with_terminators", 1);
        }
        if !s.is_ascii() {
            ctx.count("texts_non_ascii", 1);
        }
    });
    ctx.par("big", ctx.size(144, 1440), |rng, i| {
        let s = big_text(rng, i);
        ctx.max("largest_text_bytes", s.len() as u64);
        let n = one(&s, 0);
        ctx.max("most_terminators_in_one_text", n);
        ctx.count("terminators_observed", n);
    });
    ctx.par("huge", ctx.size(6, 24), |rng, i| {
        let mut s = String::new();
        let target = [3usize << 20, 17 << 20, (16 << 20) + 1][i % 3];
        while s.len() < target {
            let t = big_text(rng, rng.clone().below(1000));
            s.push_str(&t);
        }
        ctx.max("largest_text_bytes", s.len() as u64);
        let n = one(&s, 0);
        ctx.max("most_terminators_in_one_text", n);
    });
    ctx.require("texts_with_terminators", 10_000);
    ctx.require("texts_non_ascii", 10_000);
    ctx.require("most_terminators_in_one_text", 65_537);
}

fn c01(ctx: &Ctx) {
    drive(ctx, |s, spare| check_normalize(s, spare), "normalise");
}

fn c03(ctx: &Ctx) {
    drive(ctx, |s, _| check_restore(s), "restore");
}

/// Memory safety: this binary is built with AddressSanitizer for C02, so the workload of C01 runs
/// with red zones around every text; a second copy of a smaller workload runs in Miri.
fn c02(ctx: &Ctx) {
    ctx.count("address_sanitizer_active", cfg!(vf_asan) as u64);
    ctx.require("address_sanitizer_active", 1);
    ctx.par("asan", ctx.size(30_000, 1_000_000), |rng, _| {
        let pieces = rng.below(80);
        let s = random_text(rng, pieces);
        ctx.open("normalise under AddressSanitizer", &s);
        let mut boxed = s.clone();
        match rng.below(3) {
            0 => boxed.shrink_to_fit(),
            1 => boxed.reserve_exact(1),
            _ => boxed.reserve(64),
        }
        let (t, style) = stdext::line_endings::LineEndings::normalize(boxed);
        let valid = std::str::from_utf8(t.as_bytes()).is_ok();
        let fits = t.len() <= t.capacity() && t.len() <= s.len();
        let mut again = t.clone();
        again.push_str("tail");
        let mut grown = t; // exercise the allocation the result lives in
        grown.push('z');
        grown.shrink_to_fit();
        let restored = style.map(grown);
        let valid2 = std::str::from_utf8(restored.as_bytes()).is_ok();
        ctx.close();
        ctx.eval(hash_of(&s), s.contains("\r\n"));
        if !valid || !fits || !valid2 {
            ctx.violation("result is not a well-formed string", format!("valid {valid} fits {fits} restored {valid2}: {}", show(&s)));
        }
        ctx.sample(|| show(&s));
    });
    ctx.par("asan_big", ctx.size(48, 600), |rng, i| {
        let s = big_text(rng, i);
        ctx.open("normalise under AddressSanitizer", &s);
        let n = s.len();
        let (t, _) = stdext::line_endings::LineEndings::normalize(s);
        ctx.close();
        ctx.max("largest_text_bytes", n as u64);
        ctx.eval(i as u64, true);
        if std::str::from_utf8(t.as_bytes()).is_err() || t.len() > n {
            ctx.violation("result is not a well-formed string", format!("big text {i}"));
        }
    });
    // Miri
    let cmd = std::env::var("VF_MIRI").unwrap_or_default();
    if cmd.is_empty() {
        ctx.require("miri_calls", 1);
        return;
    }
    let procs = 8;
    ctx.par_n("miri", procs, procs, |_, i| {
        let out = std::process::Command::new("bash")
            .arg("-c")
            .arg(&cmd)
            .env("VF_SHARD", i.to_string())
            .env("VF_CASES", ctx.size(60, 2500).to_string())
            .output()
            .expect("miri");
        let stdout = String::from_utf8_lossy(&out.stdout).to_string();
        let stderr = String::from_utf8_lossy(&out.stderr).to_string();
        for l in stdout.lines() {
            if let Some(n) = l.strip_prefix("OBSERVED ") {
                ctx.count("miri_calls", n.trim().parse().unwrap_or(0));
            }
        }
        if stderr.contains("Undefined Behavior") {
            let line = stderr.lines().find(|l| l.contains("Undefined Behavior")).unwrap_or("").to_string();
            ctx.violation(&format!("Miri: {line}"), stderr);
        } else if stdout.contains("REFUTED") || stderr.contains("panicked at") && stderr.contains("stdext/src") {
            ctx.violation("Miri: wrong result or panic", format!("{stdout}\n{stderr}"));
        } else if !out.status.success() {
            eprintln!("miri failed: {stderr}");
            ctx.count("miri_errors", 1);
        }
    });
    ctx.require("miri_calls", 300);
}

fn main() {
    vf::main(&[
        Check {
            id: "C01",
            rule: "every string of length <= 8 (thorough: 10) over {CR, LF, a, e-acute}; random texts of line terminators, near-terminators (CR CR LF, LF CR, trailing CR), multi-byte characters and runs of 1..256 bytes; texts with up to 200001 CRLFs and up to 17 MB. Non-trivial: the text holds a CRLF.",
            assumptions: &["the oracle is a character loop that shares no code with the implementation"],
            run: c01,
        },
        Check {
            id: "C02",
            rule: "random texts as in C01, normalised in exact-fit, one-spare and roomy allocations with AddressSanitizer watching, then grown and shrunk in place; a smaller copy in Miri. Non-trivial: the text holds a CRLF.",
            assumptions: &["AddressSanitizer sees red-zone overruns and use after free; Miri sees all undefined behaviour on what it executes"],
            run: c02,
        },
        Check {
            id: "C03",
            rule: "the texts of C01, restored in both styles and sent through normalise/restore/normalise. Non-trivial: the text holds a line terminator.",
            assumptions: &["the oracle is a character loop that shares no code with the implementation"],
            run: c03,
        },
    ])
}
