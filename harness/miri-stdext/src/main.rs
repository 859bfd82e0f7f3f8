//! Run in Miri, one shard per process.
#[path = "../../vf/src/rng.rs"]
mod rng;
#[path = "../../vf-stdext/src/oracle.rs"]
mod oracle;
use rng::Rng;

fn main() {
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let (seed, shard, cases) = (env("VERIF_SEED", 1), env("VF_SHARD", 0), env("VF_CASES", 40));
    let mut observed = 0u64;
    for i in 0..cases {
        let mut r = Rng::derive(seed, 0x6d697269 + shard, i);
        let mut s = String::new();
        let pieces = if i % 40 == 39 { 300 } else { r.below(24) };
        for _ in 0..pieces {
            let t: &str = r.pick(&["\r", "\n", "\r\n", "\r\n", "\r\r\n", "a", "é", "日", "😀", "some text of a line", "\0", "\u{feff}"]);
            s.push_str(t);
            if r.chance(1, 12) {
                let n = *r.pick(&[15usize, 16, 17, 31, 32, 33, 64]);
                s.push_str(&"x".repeat(n));
            }
        }
        let spare = r.below(3);
        if let Err(e) = oracle::check_normalize(&s, spare) {
            println!("REFUTED normalise {s:?}: {e}");
            std::process::exit(1);
        }
        if let Err(e) = oracle::check_restore(&s) {
            println!("REFUTED restore {s:?}: {e}");
            std::process::exit(1);
        }
        observed += 5;
    }
    println!("OBSERVED {observed}");
}
