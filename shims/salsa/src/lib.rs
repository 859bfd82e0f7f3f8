//! Stand-in for the `salsa` incremental computation engine (the part of its surface a
//! rust-analyzer style code base uses). Semantics follow salsa's red-green algorithm:
//!
//! * every write to an input starts a new revision, after cancelling and waiting for every other
//!   handle of the storage (`Cancelled::PendingWrite` is thrown at their next query);
//! * a memo is reused when verified in this revision, or when nothing of its durability changed
//!   since (shallow), or when none of its recorded dependencies changed (deep);
//! * a re-executed query whose value is equal keeps its old `changed_at` (backdating);
//! * reads that go around the engine are not tracked;
//! * a query cycle panics.
//!
//! * of threads that want one memo, one computes it and the others wait; a cycle of waiting threads
//!   is a query cycle.
//!
//! Difference: nothing is ever evicted.
use std::{
    any::Any,
    fmt,
    panic::{self, UnwindSafe},
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Condvar, Mutex,
    },
};

pub use salsa_macros::{db, input, interned, tracked, Update};

pub mod plumbing;

pub use plumbing::{attach, with_attached_database, Id, Revision};

/// Exposed counters so a monitor can tell that the engine was exercised.
pub mod stats {
    use std::sync::atomic::AtomicU64;
    pub static EXECUTED: AtomicU64 = AtomicU64::new(0);
    pub static REUSED: AtomicU64 = AtomicU64::new(0);
    pub static BACKDATED: AtomicU64 = AtomicU64::new(0);
    pub static REVISIONS: AtomicU64 = AtomicU64::new(0);
    pub static CANCELLED: AtomicU64 = AtomicU64::new(0);
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Durability(u8);

impl Durability {
    pub const LOW: Durability = Durability(0);
    pub const MEDIUM: Durability = Durability(1);
    pub const HIGH: Durability = Durability(2);
    pub const NEVER_CHANGE: Durability = Durability(3);
    pub const MIN: Durability = Durability::LOW;
    pub const MAX: Durability = Durability::NEVER_CHANGE;
    pub(crate) const LEN: usize = 4;
    pub fn index(self) -> usize {
        self.0 as usize
    }
}
impl Default for Durability {
    fn default() -> Self {
        Durability::LOW
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
#[non_exhaustive]
pub enum Cancelled {
    Local,
    PendingWrite,
    PropagatedPanic,
}

impl Cancelled {
    #[cold]
    pub(crate) fn throw(self) -> ! {
        stats::CANCELLED.fetch_add(1, Ordering::Relaxed);
        panic::resume_unwind(Box::new(self));
    }

    /// Runs `f`, and catches any salsa cancellation.
    pub fn catch<F, T>(f: F) -> Result<T, Cancelled>
    where
        F: FnOnce() -> T + UnwindSafe,
    {
        match panic::catch_unwind(f) {
            Ok(t) => Ok(t),
            Err(payload) => match payload.downcast() {
                Ok(cancelled) => Err(*cancelled),
                Err(payload) => panic::resume_unwind(payload),
            },
        }
    }
}

impl fmt::Display for Cancelled {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let why = match self {
            Cancelled::Local => "local cancellation request",
            Cancelled::PendingWrite => "pending write",
            Cancelled::PropagatedPanic => "propagated panic",
        };
        f.write_str("cancelled because of ")?;
        f.write_str(why)
    }
}
impl std::error::Error for Cancelled {}

/// The event callback argument; events are not produced by the stand-in.
#[derive(Debug)]
pub struct Event {
    _priv: (),
}

pub trait Database: Send + plumbing::ZalsaDatabase + plumbing::AsDynDatabase {
    fn trigger_lru_eviction(&mut self) {
        let _ = self.__zalsa_mut();
    }
    /// Starts a new revision, as if an input of the given durability had been written.
    fn synthetic_write(&mut self, durability: Durability) {
        let z = self.__zalsa_mut();
        z.new_revision();
        z.report_tracked_write(durability);
    }
    fn trigger_cancellation(&mut self) {
        let _ = self.__zalsa_mut();
    }
    fn report_untracked_read(&self) {
        plumbing::report_untracked_read(self.__zalsa());
    }
    fn unwind_if_revision_cancelled(&self) {
        self.__zalsa().unwind_if_cancelled();
    }
    fn salsa_event(&self, _event: &dyn Fn() -> Event) {}
}

pub trait AsDyn {}

/// Set one field of an input.
pub trait Setter: Sized {
    type FieldTy;
    fn with_durability(self, durability: Durability) -> Self;
    fn to(self, value: Self::FieldTy) -> Self::FieldTy;
}

/// Marker for values that queries may return.
pub trait Update {}

pub(crate) struct Coordinate {
    pub(crate) clones: Mutex<usize>,
    pub(crate) cvar: Condvar,
}

pub struct Storage<Db> {
    // field order: the handle of the data goes first, then the count is decremented
    zalsa: Option<Arc<plumbing::Zalsa>>,
    coordinate: Arc<Coordinate>,
    pub(crate) cancelled: Arc<AtomicBool>,
    _p: std::marker::PhantomData<fn() -> Db>,
}

impl<Db> Default for Storage<Db> {
    fn default() -> Self {
        let cancelled = Arc::new(AtomicBool::new(false));
        Storage {
            zalsa: Some(Arc::new(plumbing::Zalsa::new(cancelled.clone()))),
            coordinate: Arc::new(Coordinate { clones: Mutex::new(1), cvar: Condvar::new() }),
            cancelled,
            _p: std::marker::PhantomData,
        }
    }
}

impl<Db> Storage<Db> {
    pub fn new(_event_callback: Option<Box<dyn Fn(Event) + Send + Sync + 'static>>) -> Self {
        Self::default()
    }
    #[doc(hidden)]
    pub fn zalsa(&self) -> &plumbing::Zalsa {
        self.zalsa.as_ref().unwrap()
    }
    #[doc(hidden)]
    pub fn zalsa_mut(&mut self) -> &mut plumbing::Zalsa {
        self.cancelled.store(true, Ordering::SeqCst);
        let mut clones = self.coordinate.clones.lock().unwrap();
        while *clones != 1 {
            clones = self.coordinate.cvar.wait(clones).unwrap();
        }
        drop(clones);
        self.cancelled.store(false, Ordering::SeqCst);
        Arc::get_mut(self.zalsa.as_mut().unwrap()).expect("another handle of the storage is alive")
    }
}

impl<Db> Clone for Storage<Db> {
    fn clone(&self) -> Self {
        *self.coordinate.clones.lock().unwrap() += 1;
        Storage {
            zalsa: self.zalsa.clone(),
            coordinate: self.coordinate.clone(),
            cancelled: self.cancelled.clone(),
            _p: std::marker::PhantomData,
        }
    }
}

impl<Db> Drop for Storage<Db> {
    fn drop(&mut self) {
        self.zalsa.take();
        *self.coordinate.clones.lock().unwrap() -= 1;
        self.coordinate.cvar.notify_all();
    }
}

impl<T> UnwindSafeMarker for Storage<T> {}
trait UnwindSafeMarker {}
impl<T> panic::UnwindSafe for Storage<T> {}
impl<T> panic::RefUnwindSafe for Storage<T> {}

/// The stack of active queries of the current thread.
pub struct Backtrace(Vec<String>);

impl Backtrace {
    pub fn capture() -> Option<Self> {
        let frames = plumbing::active_query_names();
        if frames.is_empty() {
            None
        } else {
            Some(Backtrace(frames))
        }
    }
}
impl fmt::Display for Backtrace {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        writeln!(f, "query stacktrace:")?;
        for (i, n) in self.0.iter().rev().enumerate() {
            writeln!(f, "{i:>4}: {n}")?;
        }
        Ok(())
    }
}
impl fmt::Debug for Backtrace {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

pub(crate) type AnyBox = Box<dyn Any + Send + Sync>;

pub mod prelude {
    pub use crate::{Database, Setter};
}
