//! Environment stub: rayon-core on one thread. `join` runs its first task, then its second, or the other way around if
//! the schedule set by the harness says so; what a parallel bridge hands to which of two workers is up to the schedule too.
use std::fmt;
use std::marker::PhantomData;

#[derive(Debug)]
pub struct FnContext { migrated: bool }
impl FnContext { pub fn migrated(&self) -> bool { self.migrated } }
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    if schedule::pop() { let y = b(); let x = a(); return (x, y); }
    let x = a();
    let y = b();
    (x, y)
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    if schedule::pop() {
        let y = b(FnContext { migrated: false });
        let x = a(FnContext { migrated: false });
        return (x, y);
    }
    let x = a(FnContext { migrated: false });
    let y = b(FnContext { migrated: false });
    (x, y)
}
pub fn current_num_threads() -> usize { schedule::threads() }
pub fn max_num_threads() -> usize { 1 }
pub fn current_thread_index() -> Option<usize> { None }
pub fn current_thread_has_pending_tasks() -> Option<bool> { None }
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { f() }
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) { f() }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { None }
pub fn yield_local() -> Option<Yield> { None }

pub struct Scope<'s>(PhantomData<Box<dyn FnOnce(&Scope<'s>) + Send + Sync + 's>>);
impl<'s> Scope<'s> { pub fn spawn<B: FnOnce(&Scope<'s>) + Send + 's>(&self, b: B) { b(self) } }
pub struct ScopeFifo<'s>(PhantomData<Box<dyn FnOnce(&ScopeFifo<'s>) + Send + Sync + 's>>);
impl<'s> ScopeFifo<'s> { pub fn spawn_fifo<B: FnOnce(&ScopeFifo<'s>) + Send + 's>(&self, b: B) { b(self) } }
pub fn scope<'s, O, R>(o: O) -> R where O: FnOnce(&Scope<'s>) -> R { o(&Scope(PhantomData)) }
pub fn in_place_scope<'s, O, R>(o: O) -> R where O: FnOnce(&Scope<'s>) -> R { o(&Scope(PhantomData)) }
pub fn scope_fifo<'s, O, R>(o: O) -> R where O: FnOnce(&ScopeFifo<'s>) -> R { o(&ScopeFifo(PhantomData)) }
pub fn in_place_scope_fifo<'s, O, R>(o: O) -> R where O: FnOnce(&ScopeFifo<'s>) -> R { o(&ScopeFifo(PhantomData)) }

pub struct BroadcastContext<'a>(PhantomData<&'a ()>);
impl BroadcastContext<'_> { pub fn index(&self) -> usize { 0 } pub fn num_threads(&self) -> usize { 1 } }
pub fn broadcast<O, R>(o: O) -> Vec<R> where O: Fn(BroadcastContext<'_>) -> R + Sync, R: Send { vec![o(BroadcastContext(PhantomData))] }
pub fn spawn_broadcast<O>(o: O) where O: Fn(BroadcastContext<'_>) + Send + Sync + 'static { o(BroadcastContext(PhantomData)) }

pub struct ThreadBuilder(());
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<O: FnOnce() -> R + Send, R: Send>(&self, o: O) -> R { o() }
    pub fn current_num_threads(&self) -> usize { 1 }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join(a, b) }
}
#[derive(Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self(()) }
    pub fn num_threads(self, _: usize) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool(())) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}

/// The schedule: one bit per choice, first choice lowest; all zero (program order) once used up
pub mod schedule {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
    static BITS: AtomicU64 = AtomicU64::new(0);
    static THREADS: AtomicUsize = AtomicUsize::new(1);
    pub fn set(threads: usize, bits: u64) { THREADS.store(threads, Relaxed); BITS.store(bits, Relaxed); }
    pub fn threads() -> usize { THREADS.load(Relaxed) }
    pub fn pop() -> bool { let b = BITS.load(Relaxed); BITS.store(b >> 1, Relaxed); b & 1 == 1 }
}
