use crate::hash::H;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub type Family = (&'static str, fn(&mut Cx));

const PAGE: usize = 1 << 16;

/// Miri has no shared mappings: the page is a file, written at the start of each execution.
#[cfg(miri)]
struct Page { file: Option<fs::File>, head: std::cell::Cell<[u32; 3]> }
#[cfg(miri)]
impl Page {
    fn open(path: Option<&str>) -> Page {
        Page { file: path.map(|p| fs::OpenOptions::new().write(true).open(p).unwrap()), head: std::cell::Cell::new([0; 3]) }
    }
    fn set(&self, i: usize, v: u32) { if i < 3 { let mut h = self.head.get(); h[i] = v; self.head.set(h); } }
    fn start(&self, choices: &[u32]) {
        use std::io::{Seek, SeekFrom};
        if let Some(mut f) = self.file.as_ref() {
            let h = self.head.get();
            let b: Vec<u8> = [h[0], h[1], choices.len() as u32].iter().chain(choices).flat_map(|x| x.to_le_bytes()).collect();
            let _ = f.seek(SeekFrom::Start(0)).and_then(|_| f.write_all(&b));
        }
    }
}

#[cfg(not(miri))]
struct Page { ptr: *mut u32 }
#[cfg(not(miri))]
impl Page {
    fn start(&self, _choices: &[u32]) {}
    fn open(path: Option<&str>) -> Page {
        unsafe {
            // in the middle of a large inaccessible region, out of reach of code that writes past its memory
            const GUARD: usize = 1 << 27;
            let base = libc::mmap(std::ptr::null_mut(), 2 * GUARD, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(base != libc::MAP_FAILED);
            let at = (base as *mut u8).add(GUARD) as *mut libc::c_void;
            let ptr = match path {
                Some(p) => {
                    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(p).unwrap();
                    f.set_len(PAGE as u64).unwrap();
                    use std::os::unix::io::AsRawFd;
                    libc::mmap(at, PAGE, libc::PROT_READ | libc::PROT_WRITE,
                               libc::MAP_SHARED | libc::MAP_FIXED, f.as_raw_fd(), 0)
                }
                None => libc::mmap(at, PAGE, libc::PROT_READ | libc::PROT_WRITE,
                                   libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED, -1, 0),
            };
            assert!(ptr != libc::MAP_FAILED);
            Page { ptr: ptr as *mut u32 }
        }
    }
    // [0]=executions (low), [1]=family, [2]=number of choices, [3..]=choices
    fn set(&self, i: usize, v: u32) {
        if i < PAGE / 4 { unsafe { std::ptr::write_volatile(self.ptr.add(i), v) } }
    }
}

pub struct Viol { pub family: String, pub key: String, pub msg: String, pub choices: Vec<u32>, pub count: u64 }

#[derive(Default, Clone)]
struct FamStat { execs: u64, steps: u64, checks: u64, max_depth: u64, complete: bool, skipped: u64, secs: f64 }

/// How far a family is explored: the next choices, and what was counted so far.
#[derive(Default)]
struct Left { choices: Vec<u32>, limits: Vec<u32>, st: FamStat }

pub struct Cx {
    choices: Vec<u32>,
    limits: Vec<u32>,
    pos: usize,
    worker: u64,
    of: u64,
    thorough: bool,
    replay: bool,
    skip: bool,
    mined: bool,
    fam: String,
    page: Page,
    st: FamStat,
    states: HashSet<u64>,
    samples: Vec<(String, String)>,
    viols: BTreeMap<(String, String), Viol>,
    known: Vec<String>,
    nviol: u64,
    this_failed: bool,
    verbose: bool,
    deadline: Instant,
    budget: f64,
    notes: BTreeMap<String, u64>,
}

thread_local! { static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); }

fn basename(s: &str) -> &str { s.rsplit('/').next().unwrap_or(s) }

impl Cx {
    /// A choice point with `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choice point without alternatives");
        let p = self.pos;
        self.pos += 1;
        if p < self.choices.len() {
            if self.limits.len() > p {
                if self.limits[p] != n as u32 {
                    self.fail("nondeterministic-execution",
                              format!("choice point {} had {} alternatives, now {}", p, self.limits[p], n));
                }
            } else { self.limits.push(n as u32); }
            return (self.choices[p] as usize).min(n - 1);
        }
        self.choices.push(0);
        self.limits.push(n as u32);
        self.page.set(3 + p, 0);
        self.page.set(2, self.choices.len() as u32);
        0
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { let i = self.choose(xs.len()); xs[i] }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    /// Choice with default 0; every other alternative uses one unit of `budget`.
    pub fn dev(&mut self, n: usize, budget: &mut usize) -> usize {
        if *budget == 0 { return 0; }
        let c = self.choose(n);
        if c > 0 { *budget -= 1; }
        c
    }
    /// Partition point: true if this worker owns the prefix chosen so far.
    pub fn mine(&mut self) -> bool {
        if self.replay || self.mined { return true; }
        let mut h = H::new(77);
        for &c in &self.choices[..self.pos] { h.u(c as u64); }
        if (h.get() >> 7) % self.of == self.worker { self.mined = true; true } else { self.skip = true; false }
    }
    pub fn thorough(&self) -> bool { self.thorough }
    pub fn replaying(&self) -> bool { self.replay }
    pub fn step(&mut self) { self.st.steps += 1; }
    pub fn steps(&mut self, n: usize) { self.st.steps += n as u64; }
    /// Abandon this choice vector (not part of the family's domain).
    pub fn discard(&mut self) { self.skip = true; }
    pub fn state(&mut self, h: u64) -> bool {
        if self.states.len() < 6_000_000 { self.states.insert(h) } else { false }
    }
    pub fn note(&mut self, k: &str, n: u64) { *self.notes.entry(k.to_string()).or_insert(0) += n; }
    pub fn fail<S: Into<String>>(&mut self, key: &str, msg: S) {
        self.this_failed = true;
        let msg: String = msg.into();
        if self.verbose { eprintln!("FAIL family={} key={} {}", self.fam, key, msg); }
        let n = self.pos.min(self.choices.len());
        let choices = self.choices[..n].to_vec();
        let k = (self.fam.clone(), key.to_string());
        let v = self.viols.entry(k).or_insert(Viol {
            family: self.fam.clone(), key: key.to_string(), msg, choices, count: 0 });
        v.count += 1;
        if !self.known.iter().any(|k| k == key) { self.nviol += 1; }
    }
    pub fn check<F: FnOnce() -> String>(&mut self, ok: bool, key: &str, msg: F) -> bool {
        self.st.checks += 1;
        if !ok { self.fail(key, msg()); }
        ok
    }
    pub fn failed(&self) -> bool { self.this_failed }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        let n = self.samples.iter().filter(|s| s.0 == self.fam).count();
        if n < 2 { let s = f(); self.samples.push((self.fam.clone(), s)); }
    }
    /// Run code that may legitimately panic.
    pub fn guard<T, F: FnOnce() -> T>(&mut self, f: F) -> Result<T, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).map(|(l, m)| format!("{}: {}", l, m))
                          .unwrap_or_else(|| "panic".into())),
        }
    }

    fn exec(&mut self, f: fn(&mut Cx)) {
        self.pos = 0;
        self.skip = false;
        self.mined = false;
        self.this_failed = false;
        crate::alloc::set_fill(0xA5);
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if let Err(_) = r {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "panic in another thread".into()));
            let file = basename(loc.split(':').next().unwrap_or("?")).to_string();
            let short: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(80).collect();
            self.fail(&format!("panic:{}:{}", file, short), format!("panic at {}: {}", loc, msg));
        }
        if crate::alloc::take_corrupt() { self.fail("heap-overflow", "write behind the end of a heap block"); }
        if self.skip { self.st.skipped += 1; } else { self.st.execs += 1; }
        self.st.max_depth = self.st.max_depth.max(self.pos as u64);
    }

    /// Explores a family from where it was left (the start at first) until all is explored or
    /// `until` seconds have passed since the start of the worker.
    fn explore(&mut self, idx: usize, name: &str, f: fn(&mut Cx), left: &mut Left, until: f64) {
        self.fam = name.to_string();
        self.choices = std::mem::take(&mut left.choices);
        self.limits = std::mem::take(&mut left.limits);
        self.st = std::mem::take(&mut left.st);
        self.page.set(1, idx as u32);
        let t0 = Instant::now();
        let mut n: u64 = 0;
        loop {
            self.page.set(2, self.choices.len() as u32);
            if let Some(&c) = self.choices.last() { self.page.set(2 + self.choices.len(), c); }
            n += 1;
            self.page.set(0, n as u32);
            self.page.start(&self.choices);
            self.exec(f);
            // odometer
            self.choices.truncate(self.pos);
            self.limits.truncate(self.pos);
            loop {
                match self.choices.last() {
                    None => { self.st.complete = true; break; }
                    Some(&c) => {
                        if c + 1 < *self.limits.last().unwrap() {
                            *self.choices.last_mut().unwrap() = c + 1;
                            break;
                        }
                        self.choices.pop();
                        self.limits.pop();
                    }
                }
            }
            if self.st.complete { break; }
            if self.nviol > 20 { break; }
            if (n % 16 == 0 || cfg!(miri)) && self.deadline.elapsed().as_secs_f64() > until { break; }
        }
        self.st.secs += t0.elapsed().as_secs_f64();
        *left = Left { choices: std::mem::take(&mut self.choices), limits: std::mem::take(&mut self.limits), st: std::mem::take(&mut self.st) };
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

pub fn main(families: &'static [Family]) {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(256 << 20).build().unwrap();
    let code = pool.install(|| real_main(families));
    std::process::exit(code);
}

fn real_main(families: &'static [Family]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.iter().any(|a| a == "--list") {
        for f in families { println!("{}", f.0); }
        return 0;
    }
    let replay = arg(&args, "--replay-family");
    let budget: f64 = arg(&args, "--budget").map_or(1e9, |s| s.parse().unwrap());
    let mut cx = Cx {
        choices: vec![], limits: vec![], pos: 0,
        worker: arg(&args, "--worker").map_or(0, |s| s.parse().unwrap()),
        of: arg(&args, "--of").map_or(1, |s| s.parse().unwrap()),
        thorough: arg(&args, "--tier") == Some("thorough"),
        replay: replay.is_some(), skip: false, mined: false, fam: String::new(),
        page: Page::open(arg(&args, "--page")),
        st: FamStat::default(), states: HashSet::new(), samples: vec![], viols: BTreeMap::new(),
        known: arg(&args, "--known").map_or(vec![], |f| fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.to_string()).collect()),
        nviol: 0, this_failed: false, verbose: replay.is_some() || args.iter().any(|a| a == "-v"),
        deadline: Instant::now(), budget, notes: BTreeMap::new(),
    };
    // keep our own stdout away from the prints of the code under test
    #[cfg(miri)]
    let out_fd = 1;
    #[cfg(not(miri))]
    let out_fd = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        if !args.iter().any(|a| a == "--show-stdout") { libc::dup2(null, 1); }
        fd
    };
    if let Some(fam) = replay {
        let choices: Vec<u32> = arg(&args, "--choices").unwrap_or("").split(',').filter(|s| !s.is_empty())
            .map(|s| s.parse().unwrap()).collect();
        let f = families.iter().find(|f| f.0 == fam).expect("unknown family").1;
        cx.fam = fam.to_string();
        cx.choices = choices;
        cx.exec(f);
        for (_, v) in &cx.viols { eprintln!("REPLAY family={} key={} {}", v.family, v.key, v.msg); }
        for (f, s) in &cx.samples { eprintln!("SAMPLE {} {}", f, s); }
        return if cx.viols.is_empty() { 0 } else { 1 };
    }
    let only = arg(&args, "--only");
    let mut fam_out = vec![];
    let mut pending: Vec<(usize, Left)> = families.iter().enumerate()
        .filter(|(_, (name, _))| only.map_or(true, |o| o.split(',').any(|x| x == *name)))
        .map(|(i, _)| (i, Left::default())).collect();
    // no family takes all of the time while others wait: what is left is continued afterwards
    let mut all: BTreeMap<usize, FamStat> = BTreeMap::new();
    let mut first = true;
    while !pending.is_empty() && cx.nviol <= 20 {
        let mut next = vec![];
        let count = pending.len();
        for (k, (i, mut left)) in pending.into_iter().enumerate() {
            let (at, waiting) = (cx.deadline.elapsed().as_secs_f64(), count - k - 1 + next.len());
            let rest = (cx.budget - at).max(0.0);
            let until = at + if waiting == 0 { rest } else if first { rest * 0.6 } else { rest / (waiting + 1) as f64 };
            cx.explore(i, families[i].0, families[i].1, &mut left, until);
            all.insert(i, left.st.clone());
            if cx.nviol > 20 { break; }
            if !left.st.complete { next.push((i, left)); }
        }
        first = false;
        pending = next;
        if cx.deadline.elapsed().as_secs_f64() > cx.budget { break; }
    }
    for (i, st) in &all {
        let name = families[*i].0;
        fam_out.push(format!("{}:{{\"execs\":{},\"steps\":{},\"checks\":{},\"max_depth\":{},\"complete\":{},\"skipped\":{},\"secs\":{:.2}}}",
            js(name), st.execs, st.steps, st.checks, st.max_depth, st.complete, st.skipped, st.secs));
    }
    let viols: Vec<String> = cx.viols.values().map(|v| format!(
        "{{\"family\":{},\"key\":{},\"msg\":{},\"count\":{},\"choices\":[{}]}}", js(&v.family), js(&v.key), js(&v.msg), v.count,
        v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))).collect();
    let samples: Vec<String> = cx.samples.iter().map(|(f, s)| format!("{{\"family\":{},\"case\":{}}}", js(f), js(s))).collect();
    let notes: Vec<String> = cx.notes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let out = format!("{{\"families\":{{{}}},\"violations\":[{}],\"samples\":[{}],\"notes\":{{{}}}}}\n",
                      fam_out.join(","), viols.join(","), samples.join(","), notes.join(","));
    match arg(&args, "--out") {
        Some(p) => {
            fs::write(p, out).unwrap();
            let mut b = Vec::with_capacity(cx.states.len() * 8);
            for s in &cx.states { b.extend_from_slice(&s.to_le_bytes()); }
            fs::write(format!("{}.states", p), b).unwrap();
        }
        None => unsafe {
            use std::os::unix::io::FromRawFd;
            let mut f = std::mem::ManuallyDrop::new(fs::File::from_raw_fd(out_fd));
            let _ = f.write_all(out.as_bytes());
        },
    }
    0
}
