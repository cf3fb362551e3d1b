//! Replacement of rayon-core for model checking: the same interface (so the real rayon iterator
//! library runs on top), but jobs become tasks of a controlled scheduler, and whether the second
//! half of a `join` is stolen by another worker is a choice of the explorer. Outside a controlled
//! execution everything runs on the calling thread.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::sync::Arc;

pub mod mc {
    //! Control of the pool.
    use super::*;
    pub(crate) struct Pool { pub n: usize, pub free: BTreeSet<usize>, pub joins: usize, pub steals: usize, pub steal: Box<dyn FnMut(usize) -> bool> }
    thread_local! {
        pub(crate) static POOL: RefCell<Option<Pool>> = RefCell::new(None);
    }
    /// Start a controlled execution with `n` workers; `steal(k)` answers whether the second half of
    /// the k-th join that could be stolen is.
    pub fn start(n: usize, steal: Box<dyn FnMut(usize) -> bool>) {
        mc_sync::reset();
        POOL.with(|p| *p.borrow_mut() = Some(Pool { n, free: (0..n).collect(), joins: 0, steals: 0, steal }));
    }
    /// End it; returns the numbers of joins and steals.
    pub fn stop() -> (usize, usize) { POOL.with(|p| p.borrow_mut().take()).map_or((0, 0), |p| (p.joins, p.steals)) }
    pub(crate) fn on() -> bool { POOL.with(|p| p.borrow().is_some()) }
    pub(crate) fn with<T>(f: impl FnOnce(&mut Pool) -> T) -> T { POOL.with(|p| f(p.borrow_mut().as_mut().unwrap())) }
}
use mc::with;

shuttle::thread_local! {
    static ME: Cell<Option<usize>> = Cell::new(None);
}
thread_local! { static WIDTH: Cell<usize> = Cell::new(0); }

fn me() -> Option<usize> { if mc::on() { ME.with(|m| m.get()) } else { None } }

/// Run `f` as a pool worker.
fn in_worker<R>(f: impl FnOnce() -> R) -> R {
    if me().is_some() { return f(); }
    let id = acquire(None);
    ME.with(|m| m.set(Some(id)));
    let r = f();
    ME.with(|m| m.set(None));
    release(id);
    r
}

fn try_acquire() -> Option<usize> { with(|p| { let i = p.free.iter().next().copied(); if let Some(i) = i { p.free.remove(&i); } i }) }

/// Take a worker (a given one when a job resumes on its thread).
fn acquire(want: Option<usize>) -> usize {
    loop {
        let got = match want {
            Some(i) => with(|p| if p.free.remove(&i) { Some(i) } else { None }),
            None => try_acquire(),
        };
        if let Some(i) = got { return i; }
        shuttle::thread::yield_now();
    }
}
fn release(i: usize) { with(|p| { p.free.insert(i); }); }

type Job<'a> = Box<dyn FnOnce() + 'a>;
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> { fn get(self) -> T { self.0 } }

/// A task of the scheduler on worker `id` (or on the first free one). The caller outlives it.
unsafe fn launch<'a>(id: Option<usize>, job: Job<'a>) -> shuttle::thread::JoinHandle<()> {
    let job: Job<'static> = std::mem::transmute(job);
    let job = AssertSend(job);
    mc_sync::live(1);
    shuttle::thread::spawn(move || {
        let job = job;
        let id = id.unwrap_or_else(|| acquire(None));
        ME.with(|m| m.set(Some(id)));
        job.get()();
        release(id);
        mc_sync::live(-1);
    })
}

/// Wait for a task; meanwhile this worker may run other jobs.
fn wait(h: shuttle::thread::JoinHandle<()>) {
    let id = ME.with(|m| m.get()).expect("waiting worker");
    release(id);
    h.join().expect("task");
    acquire(Some(id));
}

#[derive(Debug)]
pub struct FnContext { migrated: bool, _m: PhantomData<*mut ()> }
impl FnContext {
    fn new(migrated: bool) -> FnContext { FnContext { migrated, _m: PhantomData } }
    pub fn migrated(&self) -> bool { self.migrated }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join_context(|_| a(), |_| b()) }

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    if !mc::on() { let ra = a(FnContext::new(false)); return (ra, b(FnContext::new(false))); }
    in_worker(|| {
        let id = with(|p| {
            if p.free.is_empty() { return None; }
            let k = p.joins;
            p.joins += 1;
            if (p.steal)(k) { p.steals += 1; let i = *p.free.iter().next().unwrap(); p.free.remove(&i); Some(i) } else { None }
        });
        if id.is_none() {
            let ra = a(FnContext::new(false));
            return (ra, b(FnContext::new(false)));
        }
        let mut rb: Option<RB> = None;
        let slot = AssertSend(&mut rb as *mut Option<RB>);
        let h = unsafe { launch(id, Box::new(move || { let s = slot; *s.get() = Some(b(FnContext::new(true))); })) };
        let ra = a(FnContext::new(false));
        wait(h);
        (ra, rb.expect("stolen half finished"))
    })
}

pub fn current_num_threads() -> usize {
    let w = WIDTH.with(|w| w.get());
    if w > 0 { return w; }
    if mc::on() { with(|p| p.n) } else { 1 }
}
pub fn max_num_threads() -> usize { 1 << 15 }
pub fn current_thread_index() -> Option<usize> { me() }
pub fn current_thread_has_pending_tasks() -> Option<bool> { me().map(|_| false) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { me().map(|_| { shuttle::thread::yield_now(); Yield::Idle }) }
pub fn yield_local() -> Option<Yield> { me().map(|_| Yield::Idle) }

/// Jobs of a scope: tasks of their own, or queued when there is only one worker.
struct Jobs { handles: RefCell<Vec<shuttle::thread::JoinHandle<()>>>, queue: RefCell<Vec<Job<'static>>>, fifo: bool }
unsafe impl Sync for Jobs {}
unsafe impl Send for Jobs {}

impl Jobs {
    fn new(fifo: bool) -> Arc<Jobs> { Arc::new(Jobs { handles: RefCell::new(vec![]), queue: RefCell::new(vec![]), fifo }) }
    unsafe fn push<'a>(&self, job: Job<'a>) {
        if mc::on() && with(|p| p.n) > 1 {
            with(|p| p.steals += 1);
            let h = launch(None, job);
            self.handles.borrow_mut().push(h);
        } else {
            let job: Job<'static> = std::mem::transmute(job);
            self.queue.borrow_mut().push(job);
        }
    }
    fn finish(&self) {
        loop {
            let h = self.handles.borrow_mut().pop();
            if let Some(h) = h { if me().is_some() { wait(h); } else { h.join().expect("task"); } continue; }
            let j = { let mut q = self.queue.borrow_mut(); if q.is_empty() { None } else if self.fifo { Some(q.remove(0)) } else { q.pop() } };
            match j { Some(j) => j(), None => return }
        }
    }
}

macro_rules! scope_type {
    ($S:ident, $spawn:ident, $scope:ident, $in_place:ident, $fifo:expr) => {
        pub struct $S<'scope> { jobs: Arc<Jobs>, _m: PhantomData<Box<dyn FnOnce(&$S<'scope>) + Send + Sync + 'scope>> }
        impl<'scope> fmt::Debug for $S<'scope> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(stringify!($S)) } }
        impl<'scope> $S<'scope> {
            pub fn $spawn<B>(&self, body: B) where B: FnOnce(&$S<'scope>) + Send + 'scope {
                let jobs = self.jobs.clone();
                unsafe { self.jobs.push(Box::new(move || body(&$S { jobs, _m: PhantomData }))) }
            }
            pub fn spawn_broadcast<B>(&self, body: B) where B: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope {
                let body = Arc::new(body);
                let n = current_num_threads();
                for index in 0..n {
                    let (jobs, body) = (self.jobs.clone(), body.clone());
                    unsafe { self.jobs.push(Box::new(move || body(&$S { jobs, _m: PhantomData }, BroadcastContext { index, n, _m: PhantomData }))) }
                }
            }
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&$S<'scope>) -> R {
            let jobs = Jobs::new($fifo);
            let r = op(&$S { jobs: jobs.clone(), _m: PhantomData });
            jobs.finish();
            r
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&$S<'scope>) -> R + Send, R: Send {
            if mc::on() { in_worker(|| $in_place(op)) } else { $in_place(op) }
        }
    };
}
scope_type!(Scope, spawn, scope, in_place_scope, false);
scope_type!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo, true);

pub fn spawn<F>(f: F) where F: FnOnce() + Send + 'static {
    if mc::on() && with(|p| p.n) > 1 { unsafe { launch(None, Box::new(f)); } } else { f() }
}
pub fn spawn_fifo<F>(f: F) where F: FnOnce() + Send + 'static { spawn(f) }

pub struct BroadcastContext<'a> { index: usize, n: usize, _m: PhantomData<&'a mut dyn Fn()> }
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize { self.index }
    pub fn num_threads(&self) -> usize { self.n }
}
impl<'a> fmt::Debug for BroadcastContext<'a> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("BroadcastContext") } }

pub fn broadcast<OP, R>(op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send {
    let n = current_num_threads();
    let mut res: Vec<Option<R>> = (0..n).map(|_| None).collect();
    in_place_scope(|s| {
        for (index, slot) in res.iter_mut().enumerate() {
            let op = &op;
            s.spawn(move |_| *slot = Some(op(BroadcastContext { index, n, _m: PhantomData })));
        }
    });
    res.into_iter().map(|r| r.expect("broadcast")).collect()
}
pub fn spawn_broadcast<OP>(op: OP) where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static {
    let op = Arc::new(op);
    let n = current_num_threads();
    for index in 0..n { let op = op.clone(); spawn(move || op(BroadcastContext { index, n, _m: PhantomData })); }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("thread pool") } }
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder { index: usize }
impl ThreadBuilder {
    pub fn index(&self) -> usize { self.index }
    pub fn name(&self) -> Option<&str> { None }
    pub fn stack_size(&self) -> Option<usize> { None }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("ThreadBuilder") } }

#[derive(Default, Debug)]
pub struct ThreadPoolBuilder { n: usize }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool { n: self.n }) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn thread_name<F>(self, _: F) -> Self where F: FnMut(usize) -> String + 'static { self }
    pub fn use_current_thread(self) -> Self { self }
    pub fn panic_handler<H>(self, _: H) -> Self where H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn breadth_first(self) -> Self { self }
    pub fn start_handler<H>(self, _: H) -> Self where H: Fn(usize) + Send + Sync + 'static { self }
    pub fn exit_handler<H>(self, _: H) -> Self where H: Fn(usize) + Send + Sync + 'static { self }
}

#[derive(Debug)]
pub struct ThreadPool { n: usize }
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send {
        let _ = self.n;
        if mc::on() { in_worker(op) } else { op() }
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send { broadcast(op) }
    pub fn current_num_threads(&self) -> usize { current_num_threads() }
    pub fn current_thread_index(&self) -> Option<usize> { current_thread_index() }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> { current_thread_has_pending_tasks() }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join(a, b) }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R where OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send { scope(op) }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R where OP: FnOnce(&ScopeFifo<'scope>) -> R + Send, R: Send { scope_fifo(op) }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R where OP: FnOnce(&Scope<'scope>) -> R { in_place_scope(op) }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R where OP: FnOnce(&ScopeFifo<'scope>) -> R { in_place_scope_fifo(op) }
    pub fn spawn<OP>(&self, op: OP) where OP: FnOnce() + Send + 'static { spawn(op) }
    pub fn spawn_fifo<OP>(&self, op: OP) where OP: FnOnce() + Send + 'static { spawn(op) }
    pub fn spawn_broadcast<OP>(&self, op: OP) where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static { spawn_broadcast(op) }
    pub fn yield_now(&self) -> Option<Yield> { yield_now() }
    pub fn yield_local(&self) -> Option<Yield> { yield_local() }
}
