//! Stand-in for rust-analyzer's `stdx` crate.
use std::{cmp::Ordering, ops};
pub extern crate itertools;
mod macros;
pub mod panic_context;
pub mod thread;

#[doc(hidden)]
pub mod assert {
    pub const __FORCE: bool = cfg!(feature = "force-always-assert");
    pub fn __tracing_error(s: &str) {
        tracing::error!("{s}");
    }
    thread_local! {
        /// The harness can count soft-assertion failures instead of panicking.
        pub static FAILURES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    }
}

/// Asserts that the condition is always true and returns its actual value. Panics with debug
/// assertions, logs an error otherwise.
#[macro_export]
macro_rules! always {
    ($cond:expr) => { $crate::always!($cond, "assertion failed: {}", stringify!($cond)) };
    ($cond:expr, $fmt:literal $($arg:tt)*) => {{
        let cond = $cond;
        if cfg!(debug_assertions) || $crate::assert::__FORCE {
            assert!(cond, $fmt $($arg)*);
        }
        if !cond {
            $crate::assert::__tracing_error(&format!($fmt $($arg)*));
        }
        cond
    }};
}
#[macro_export]
macro_rules! never {
    () => {{ $crate::always!(false, "assertion failed: entered unreachable code"); }};
    ($fmt:literal $($arg:tt)*) => {{ $crate::always!(false, $fmt $($arg)*); }};
    ($cond:expr) => {{
        let cond = !$crate::always!(!$cond);
        cond
    }};
    ($cond:expr, $fmt:literal $($arg:tt)*) => {{
        let cond = !$crate::always!(!$cond, $fmt $($arg)*);
        cond
    }};
}

#[inline(always)]
pub const fn is_ci() -> bool {
    option_env!("CI").is_some()
}
pub fn hash_once<Hasher: std::hash::Hasher + Default>(thing: impl std::hash::Hash) -> u64 {
    use std::hash::BuildHasher;
    std::hash::BuildHasherDefault::<Hasher>::default().hash_one(thing)
}
#[must_use]
pub fn timeit(label: &'static str) -> impl Drop {
    let start = std::time::Instant::now();
    defer(move || eprintln!("{}: {:.2?}", label, start.elapsed()))
}
pub trait TupleExt {
    type Head;
    type Tail;
    fn head(self) -> Self::Head;
    fn tail(self) -> Self::Tail;
}
impl<T, U> TupleExt for (T, U) {
    type Head = T;
    type Tail = U;
    fn head(self) -> T {
        self.0
    }
    fn tail(self) -> U {
        self.1
    }
}
impl<T, U, V> TupleExt for (T, U, V) {
    type Head = T;
    type Tail = V;
    fn head(self) -> T {
        self.0
    }
    fn tail(self) -> V {
        self.2
    }
}
pub fn to_lower_snake_case(s: &str) -> String {
    to_snake_case(s, char::to_lowercase)
}
pub fn to_upper_snake_case(s: &str) -> String {
    to_snake_case(s, char::to_uppercase)
}
fn to_snake_case<F, I>(s: &str, change_case: F) -> String
where
    F: Fn(char) -> I,
    I: Iterator<Item = char> + 'static,
{
    let mut buf = String::with_capacity(s.len());
    let mut prev = None;
    for c in s.chars() {
        if c.is_ascii_uppercase() {
            if let Some(prev) = prev {
                let p: char = prev;
                if p.is_ascii_lowercase() {
                    buf.push('_')
                }
            }
        }
        buf.extend(change_case(c));
        prev = Some(c);
    }
    buf
}
pub fn to_camel_case(ident: &str) -> String {
    ident
        .trim_matches('_')
        .split('_')
        .filter(|c| !c.is_empty())
        .map(|c| {
            let mut it = c.chars();
            let first = it.next().unwrap();
            first.to_uppercase().chain(it.flat_map(|c| c.to_lowercase())).collect::<String>()
        })
        .collect()
}
pub fn char_has_case(c: char) -> bool {
    c.is_lowercase() || c.is_uppercase()
}
pub fn is_upper_snake_case(s: &str) -> bool {
    s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())
}
pub fn replace(buf: &mut String, from: char, to: &str) {
    let replace_count = buf.chars().filter(|&ch| ch == from).count();
    if replace_count == 0 {
        return;
    }
    *buf = buf.replace(from, to);
}
/// Removes the common leading whitespace of all lines but an empty first one.
pub fn trim_indent(mut text: &str) -> String {
    if text.starts_with('\n') {
        text = &text[1..];
    }
    let indent = text
        .lines()
        .filter(|it| !it.trim().is_empty())
        .map(|it| it.len() - it.trim_start().len())
        .min()
        .unwrap_or(0);
    text.split_inclusive('\n')
        .map(|line| if line.len() <= indent { line.trim_start_matches(' ') } else { &line[indent..] })
        .collect()
}
pub fn equal_range_by<T, F>(slice: &[T], mut key: F) -> ops::Range<usize>
where
    F: FnMut(&T) -> Ordering,
{
    let start = slice.partition_point(|it| key(it) == Ordering::Less);
    let len = slice[start..].partition_point(|it| key(it) == Ordering::Equal);
    start..start + len
}
#[must_use]
pub fn defer<F: FnOnce()>(f: F) -> impl Drop {
    struct D<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for D<F> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f()
            }
        }
    }
    D(Some(f))
}
#[repr(transparent)]
pub struct JodChild(pub std::process::Child);
impl ops::Deref for JodChild {
    type Target = std::process::Child;
    fn deref(&self) -> &std::process::Child {
        &self.0
    }
}
impl ops::DerefMut for JodChild {
    fn deref_mut(&mut self) -> &mut std::process::Child {
        &mut self.0
    }
}
impl Drop for JodChild {
    fn drop(&mut self) {
        _ = self.0.kill();
        _ = self.0.wait();
    }
}
impl JodChild {
    pub fn spawn(mut command: std::process::Command) -> std::io::Result<Self> {
        command.spawn().map(Self)
    }
    pub fn into_inner(self) -> std::process::Child {
        let me = std::mem::ManuallyDrop::new(self);
        unsafe { std::ptr::read(&me.0) }
    }
}
pub fn iter_eq_by<I, I2, F>(this: I2, other: I, mut eq: F) -> bool
where
    I: IntoIterator,
    I2: IntoIterator,
    F: FnMut(I2::Item, I::Item) -> bool,
{
    let mut other = other.into_iter();
    let mut this = this.into_iter();
    loop {
        let x = match this.next() {
            None => return other.next().is_none(),
            Some(val) => val,
        };
        let y = match other.next() {
            None => return false,
            Some(val) => val,
        };
        if !eq(x, y) {
            return false;
        }
    }
}
pub fn ltrim_prefix<'a>(s: &'a str, p: &str) -> &'a str {
    s.strip_prefix(p).unwrap_or(s)
}
pub fn slice_tails<T>(this: &[T]) -> impl Iterator<Item = &[T]> {
    (0..this.len()).map(|i| &this[i..])
}
