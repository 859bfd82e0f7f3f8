use std::num::NonZeroUsize;
pub fn num_threads() -> Option<NonZeroUsize> {
    std::fs::read_dir("/proc/self/task").ok().and_then(|d| NonZeroUsize::new(d.count()))
}
pub fn is_single_threaded() -> Option<bool> {
    num_threads().map(|n| n.get() == 1)
}
