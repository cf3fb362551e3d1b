//! Runs code of the instrumented library under a controlled scheduler whose decisions are choice
//! points of the explorer.
use mc::Cx;
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

struct Controlled { cx: *mut Cx, left: Rc<Cell<usize>>, free: Cell<usize>, fixed: bool, done: bool, switches: Rc<Cell<u64>> }

impl Scheduler for Controlled {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.done { return None; }
        self.done = true;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, yielding: bool) -> Option<TaskId> {
        let point = mc_sync::take_point();
        let cx = unsafe { &mut *self.cx };
        cx.step();
        mc_sync::runnable(runnable.len());
        let mut ids: Vec<TaskId> = runnable.iter().map(|t| t.id()).collect();
        if ids.len() == 1 { return Some(ids[0]); }
        if self.fixed { // reference execution: go on while possible, otherwise the first
            return Some(match current { Some(c) if ids.contains(&c) && (point || !yielding) => c, Some(c) => *ids.iter().find(|i| **i != c).unwrap(), None => ids[0] });
        }
        let at = current.and_then(|c| ids.iter().position(|i| *i == c));
        let pick = match at {
            // the running task could go on: leaving it costs one preemption
            Some(p) if point || !yielding => {
                ids.swap(0, p);
                let mut left = self.left.get();
                let k = cx.dev(ids.len(), &mut left);
                self.left.set(left);
                k
            }
            // it waits for the others
            Some(p) => { ids.remove(p); self.free(cx, ids.len()) }
            None => self.free(cx, ids.len()),
        };
        if pick > 0 { self.switches.set(self.switches.get() + 1); }
        Some(ids[pick])
    }
    fn next_u64(&mut self) -> u64 { 0 }
}

impl Controlled {
    /// Which task goes on when the running one waits: any, the first but for FREE times.
    fn free(&self, cx: &mut Cx, n: usize) -> usize {
        let mut free = self.free.get();
        let k = cx.dev(n, &mut free);
        self.free.set(free);
        k
    }
}
const FREE: usize = 6;

pub struct Outcome<T> { pub value: T, pub joins: usize, pub steals: usize }

struct Opaque<T>(T);
unsafe impl<T> Send for Opaque<T> {}
unsafe impl<T> Sync for Opaque<T> {}
impl<T> Opaque<T> { fn get(&self) -> &T { &self.0 }
    fn take(self) -> T { self.0 }
}

/// The execution in which nothing is stolen and every task runs as long as it can.
pub fn reference<T>(cx: &mut Cx, workers: usize, f: impl Fn() -> T) -> Outcome<T> { run(cx, workers, 0, true, |_, _| false, f) }

/// Run `f` with `workers` pool workers, at most `preemptions` preemptive switches, and the k-th
/// join stolen where `steal(k)` says so.
pub fn controlled<T>(cx: &mut Cx, workers: usize, preemptions: usize, steal: impl FnMut(&mut Cx, usize) -> bool, f: impl Fn() -> T) -> Outcome<T> {
    run(cx, workers, preemptions, false, steal, f)
}

fn run<T>(cx: &mut Cx, workers: usize, preemptions: usize, fixed: bool, steal: impl FnMut(&mut Cx, usize) -> bool, f: impl Fn() -> T) -> Outcome<T> {
    struct Stop;
    impl Drop for Stop { fn drop(&mut self) { rayon_core::mc::stop(); mc_sync::reset(); } }
    let cx = cx as *mut Cx;
    // the closures do not outlive this call
    let steal: Box<dyn FnMut(&mut Cx, usize) -> bool + '_> = Box::new(steal);
    let mut steal: Box<dyn FnMut(&mut Cx, usize) -> bool + 'static> = unsafe { std::mem::transmute(steal) };
    rayon_core::mc::start(workers, Box::new(move |k| steal(unsafe { &mut *cx }, k)));
    let _stop = Stop;
    let mut config = shuttle::Config::new();
    config.stack_size = 1 << 21;
    config.failure_persistence = shuttle::FailurePersistence::None;
    config.max_steps = shuttle::MaxSteps::FailAfter(300_000);
    config.silence_warnings = true;
    let out: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    let body: Box<dyn Fn() + '_> = { let out = out.clone(); Box::new(move || *out.borrow_mut() = Some(f())) };
    let body: Opaque<Box<dyn Fn() + 'static>> = Opaque(unsafe { std::mem::transmute(body) });
    let s = Controlled { cx, left: Rc::new(Cell::new(preemptions)), free: Cell::new(FREE), fixed, done: false, switches: Rc::new(Cell::new(0)) };
    shuttle::Runner::new(s, config).run(move || (body.get())());
    let (joins, steals) = rayon_core::mc::stop();
    let value = out.borrow_mut().take().expect("execution finished");
    Outcome { value, joins, steals }
}

/// Inside a controlled execution: both calls at once, each in a task of its own that is no worker
/// of the pool.
pub fn both<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
    let (mut ra, mut rb) = (None, None);
    {
        fn task<'t>(f: Box<dyn FnOnce() + 't>) -> shuttle::thread::JoinHandle<()> {
            // joined before anything it borrows goes
            let f: Opaque<Box<dyn FnOnce() + 'static>> = Opaque(unsafe { std::mem::transmute(f) });
            mc_sync::live(1);
            shuttle::thread::spawn(move || { let f = f.take(); f(); mc_sync::live(-1); })
        }
        let h = task(Box::new(|| ra = Some(a())));
        let k = task(Box::new(|| rb = Some(b())));
        h.join().expect("first");
        k.join().expect("second");
    }
    (ra.unwrap(), rb.unwrap())
}
