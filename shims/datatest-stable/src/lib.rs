pub type Result<T> = std::result::Result<T, Box<dyn std::error::Error>>;
pub fn run(name: &str, f: fn(&std::path::Path) -> Result<()>, root: &str, pattern: &str) -> (usize, usize) {
    let re = regex::Regex::new(pattern).unwrap();
    let (mut ok, mut bad) = (0, 0);
    let mut files: Vec<_> = walkdir::WalkDir::new(root).into_iter().flatten().map(|e| e.into_path()).filter(|p| p.is_file()).collect();
    files.sort();
    for p in files {
        if !re.is_match(p.to_str().unwrap()) {
            continue;
        }
        let r = std::panic::catch_unwind(|| f(&p).map_err(|e| e.to_string()));
        match r {
            Ok(Ok(())) => ok += 1,
            _ => {
                bad += 1;
                println!("test {name} {} ... FAILED", p.display());
            }
        }
    }
    println!("{name}: {ok} passed, {bad} failed");
    (ok, bad)
}
#[macro_export]
macro_rules! harness {
    ($({ test = $f:path, root = $root:expr, pattern = $pat:expr $(,)? }),* $(,)?) => {
        fn main() {
            let mut bad = 0;
            $( bad += $crate::run(stringify!($f), $f, &$root, &$pat).1; )*
            if bad > 0 { std::process::exit(101) }
        }
    };
}
