//! A Python process that runs programs against the repository's package.
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Py { child: Child, inp: ChildStdin, out: BufReader<ChildStdout> }

#[derive(Clone, PartialEq, Debug)]
pub enum Ans { Ok(Vec<u32>), Exc(String), Text(String), Odd(String), Dead }

fn copy_dir(a: &str, b: &str) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap() {
        let e = e.unwrap();
        let (p, q) = (e.path(), format!("{}/{}", b, e.file_name().to_string_lossy()));
        if p.is_dir() { if e.file_name() != "__pycache__" { copy_dir(&p.to_string_lossy(), &q); } } else { std::fs::copy(&p, &q).unwrap(); }
    }
}

impl Py {
    pub fn start() -> Result<Py, String> {
        let tmp = format!("{}/py{}", std::env::var("MC_TMP").unwrap_or("/tmp".into()), std::process::id());
        let root = std::env::var("MC_ROOT").unwrap_or("/verif".into());
        copy_dir("/repo/python/bitboost", &format!("{}/bitboost", tmp));
        std::fs::copy("/repo/python/bitboost_config.gen.csv", format!("{}/bitboost/bitboost_config.gen.csv", tmp)).map_err(|e| e.to_string())?;
        std::fs::copy(std::env::var("MC_LIB").map_err(|_| "MC_LIB")?, format!("{}/bitboost/libbitboost.so", tmp)).map_err(|e| e.to_string())?;
        let mut child = Command::new("python3-vt").arg("-B").arg(format!("{}/tools/py/service.py", root)).arg(&tmp).arg(format!("{}/tools/py/stubs", root))
            .env("RAYON_NUM_THREADS", "2").env("OMP_NUM_THREADS", "1").env("OPENBLAS_NUM_THREADS", "1")
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let inp = child.stdin.take().unwrap();
        let mut out = BufReader::new(child.stdout.take().unwrap());
        let mut l = String::new();
        out.read_line(&mut l).map_err(|e| e.to_string())?;
        if l.trim() != "READY" { let _ = child.kill(); let _ = child.wait(); return Err(format!("the package cannot be imported: {}", l.trim())); }
        Ok(Py { child, inp, out })
    }
    fn run(&mut self, prog: &str) -> Ans {
        let mut l = String::new();
        if writeln!(self.inp, "{}", crate::engine::js(prog)).is_err() || self.out.read_line(&mut l).is_err() || l.is_empty() { return Ans::Dead; }
        let l = l.trim();
        if let Some(r) = l.strip_prefix("OK") { return Ans::Ok(r.split_whitespace().map(|w| u32::from_str_radix(w, 16).unwrap_or(0)).collect()); }
        if let Some(r) = l.strip_prefix("EXC ") { return Ans::Exc(r.to_string()); }
        if let Some(r) = l.strip_prefix("TXT ") { return Ans::Text(r.to_string()); }
        Ans::Odd(l.to_string())
    }
}

impl Drop for Py { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

thread_local! { static PY: RefCell<Option<Py>> = RefCell::new(None); }

/// Runs a program in this worker's Python process (restarted after it died).
pub fn py(prog: &str) -> Ans {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() { match Py::start() { Ok(x) => *p = Some(x), Err(e) => return Ans::Odd(e) } }
        let a = p.as_mut().unwrap().run(prog);
        if a == Ans::Dead { *p = None; }
        a
    })
}

pub fn stop() { PY.with(|p| *p.borrow_mut() = None); }

/// Python literal of a column.
pub fn words(v: &[f32]) -> String { format!("[{}]", v.iter().map(|x| x.to_bits().to_string()).collect::<Vec<_>>().join(",")) }
