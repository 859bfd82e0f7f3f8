//! Threads that join on drop and carry a QoS intent; a fixed-size pool.
use std::{fmt, io, panic::{self, UnwindSafe}, sync::{atomic::{AtomicUsize, Ordering}, Arc}};
use crossbeam_channel::{Receiver, Sender};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ThreadIntent {
    Worker,
    LatencySensitive,
}

pub fn spawn<F, T>(intent: ThreadIntent, name: String, f: F) -> JoinHandle<T>
where
    F: (FnOnce() -> T) + Send + 'static,
    T: Send + 'static,
{
    Builder::new(intent, name).spawn(f).expect("failed to spawn thread")
}

pub struct Builder {
    inner: jod::Builder,
    allow_leak: bool,
}
mod jod {
    pub type Builder = std::thread::Builder;
}
impl Builder {
    #[must_use]
    pub fn new(_intent: ThreadIntent, name: impl Into<String>) -> Self {
        Self { inner: jod::Builder::new().name(name.into()), allow_leak: false }
    }
    #[must_use]
    pub fn stack_size(self, size: usize) -> Self {
        Self { inner: self.inner.stack_size(size), ..self }
    }
    #[must_use]
    pub fn allow_leak(self, allow_leak: bool) -> Self {
        Self { allow_leak, ..self }
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: (FnOnce() -> T) + Send + 'static,
        T: Send + 'static,
    {
        let inner = self.inner.spawn(f)?;
        Ok(JoinHandle { inner: Some(inner), allow_leak: self.allow_leak })
    }
}

pub struct JoinHandle<T = ()> {
    inner: Option<std::thread::JoinHandle<T>>,
    allow_leak: bool,
}
impl<T> JoinHandle<T> {
    pub fn join(mut self) -> T {
        match self.inner.take().unwrap().join() {
            Ok(v) => v,
            Err(e) => panic::resume_unwind(e),
        }
    }
}
impl<T> Drop for JoinHandle<T> {
    fn drop(&mut self) {
        if let Some(h) = self.inner.take() {
            if !self.allow_leak {
                let r = h.join();
                if !std::thread::panicking() {
                    if let Err(e) = r {
                        panic::resume_unwind(e);
                    }
                }
            } else {
                // dropping it detaches the thread, and glibc's `pthread_detach` may touch a thread's
                // memory after a thread that is just ending has freed it (its bug 19951)
                std::mem::forget(h);
            }
        }
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("JoinHandle { .. }")
    }
}

pub struct Pool {
    // drop order: the sender first, then the handles
    job_sender: Sender<Job>,
    _handles: Box<[JoinHandle]>,
    extant_tasks: Arc<AtomicUsize>,
}
struct Job {
    #[allow(unused)]
    requested_intent: ThreadIntent,
    f: Box<dyn FnOnce() + Send + UnwindSafe + 'static>,
}
impl Pool {
    #[must_use]
    pub fn new(threads: usize) -> Self {
        const STACK_SIZE: usize = 8 * 1024 * 1024;
        let (job_sender, job_receiver): (Sender<Job>, Receiver<Job>) = crossbeam_channel::unbounded();
        let extant_tasks = Arc::new(AtomicUsize::new(0));
        let mut handles = Vec::with_capacity(threads);
        for idx in 0..threads {
            let handle = Builder::new(ThreadIntent::Worker, format!("Worker{idx}"))
                .stack_size(STACK_SIZE)
                .allow_leak(true)
                .spawn({
                    let extant_tasks = Arc::clone(&extant_tasks);
                    let job_receiver: Receiver<Job> = job_receiver.clone();
                    move || {
                        for job in job_receiver {
                            extant_tasks.fetch_add(1, Ordering::SeqCst);
                            // discard the panic, we should've logged the backtrace already
                            drop(panic::catch_unwind(job.f));
                            extant_tasks.fetch_sub(1, Ordering::SeqCst);
                        }
                    }
                })
                .expect("failed to spawn thread");
            handles.push(handle);
        }
        Self { _handles: handles.into_boxed_slice(), extant_tasks, job_sender }
    }
    pub fn spawn<F>(&self, intent: ThreadIntent, f: F)
    where
        F: FnOnce() + Send + UnwindSafe + 'static,
    {
        let f = Box::new(move || f());
        self.job_sender.send(Job { requested_intent: intent, f }).unwrap();
    }
    #[must_use]
    pub fn len(&self) -> usize {
        self.extant_tasks.load(Ordering::SeqCst)
    }
    #[must_use]
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
