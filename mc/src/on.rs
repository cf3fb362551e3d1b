//! Runs a call on another thread and waits for it: which thread a caller uses is a choice like any other.
use std::sync::mpsc::{channel, Sender};

type Job = Box<dyn FnOnce() + Send>;
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
impl<T> Sent<T> { fn take(self) -> T { self.0 } }

thread_local! { static HELPERS: std::cell::RefCell<Vec<Sender<Job>>> = std::cell::RefCell::new(vec![]); }

/// `k`: 0 this thread, 1 and 2 two threads that stay alive, 3 a new thread. The caller waits for the end.
pub fn on<R, F: FnOnce() -> R>(k: usize, f: F) -> R {
    if k == 0 { return f(); }
    let mut out: Option<std::thread::Result<R>> = None;
    {
        let slot = Sent(&mut out as *mut Option<std::thread::Result<R>>);
        let f = Sent(f);
        let (done, wait) = channel::<()>();
        let job = move || {
            let (slot, f) = (slot.take(), f.take());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            unsafe { *slot = Some(r); }
            let _ = done.send(());
        };
        let job: Box<dyn FnOnce() + Send> = Box::new(job);
        // the caller waits below until the job has ended
        let job: Job = unsafe { std::mem::transmute(job) };
        if k == 3 {
            std::thread::spawn(job).join().expect("thread ends");
        } else {
            HELPERS.with(|h| {
                let mut h = h.borrow_mut();
                while h.len() < 2 {
                    let (s, r) = channel::<Job>();
                    std::thread::spawn(move || { for j in r { j(); } });
                    h.push(s);
                }
                h[k - 1].send(job).expect("helper lives");
            });
            wait.recv().expect("job ends");
        }
    }
    match out.expect("job ran") { Ok(r) => r, Err(e) => std::panic::resume_unwind(e) }
}
