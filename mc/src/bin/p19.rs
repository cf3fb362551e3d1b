//! P19: the C interface is a faithful, panic-proof state machine.
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::tree::AdditiveTree;
use mc::on::on;
use mc::train::*;
use mc::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::c_void;
use std::rc::Rc;

/// Reference of one context.
#[derive(Clone)]
struct Ref { nf: usize, recs: Vec<(String, String)>, data: Option<(usize, Vec<(Vec<f32>, bool)>)>, model: Option<Rc<AdditiveTree>> }

fn config(recs: &[(String, String)]) -> Config {
    let mut c = Config::new();
    for (n, v) in recs { c.parse_record(n, v).expect("accepted before"); }
    c
}

fn data(c: &Config, nf: usize, n: usize, cols: &[(Vec<f32>, bool)]) -> Data {
    let mut d = Data::empty(c, nf, n);
    for (j, (v, cat)) in cols.iter().enumerate() { d.set_feature_data(j, v, *cat).expect("accepted before"); }
    d
}

thread_local! { static CACHE: RefCell<HashMap<u64, Option<Rc<AdditiveTree>>>> = RefCell::new(HashMap::new()); }

impl Ref {
    fn hash(&self) -> u64 {
        let mut h = H::new(19);
        h.n(self.nf);
        for (a, b) in &self.recs { for x in a.bytes().chain(b.bytes()) { h.u(x as u64); } h.u(7); }
        if let Some((n, cols)) = &self.data { h.n(*n); for c in cols { h.fs(&c.0).u(c.1 as u64); } }
        h.get()
    }
    /// Native training; None where the native library refuses.
    fn train(&self) -> Option<Rc<AdditiveTree>> {
        let (n, cols) = self.data.as_ref()?;
        let k = self.hash();
        if let Some(r) = CACHE.with(|c| c.borrow().get(&k).cloned()) { return r; }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let c = config(&self.recs);
            let o = bitboost::objective::objective_from_name(&c.objective);
            let m = bitboost::metric::metrics_from_names(&c.metrics);
            match (o, m) { (Some(mut o), Some(_)) => { let d = data(&c, self.nf, *n, cols); Some(Rc::new(boost(&c, &d, &mut *o).0)) } _ => None }
        })).unwrap_or(None);
        CACHE.with(|c| { let mut c = c.borrow_mut(); if c.len() > 5000 { c.clear(); } c.insert(k, r.clone()); });
        r
    }
    fn predict(&self) -> Option<Vec<u32>> {
        let (n, cols) = self.data.as_ref()?;
        let m = self.model.as_ref()?;
        let c = config(&self.recs);
        Some(bits(&m.predict(&data(&c, self.nf, *n, cols))))
    }
}

fn set(p: *mut c_void, n: &str, v: &str) -> i32 { let (n, v) = (CString::new(n).unwrap(), CString::new(v).unwrap()); bb_set_config_field(p, n.as_ptr(), v.as_ptr()) }

const NOPS: usize = 20;

struct World { ptr: [*mut c_void; 2], r: [Option<Ref>; 2], trace: Vec<String> }

impl World {
    fn new() -> World { World { ptr: [std::ptr::null_mut(); 2], r: [None, None], trace: vec![] } }

    fn op(&mut self, cx: &mut Cx, s: usize, o: usize) -> bool { self.op_on(cx, s, o, 0) }

    /// One call, made on thread `at`.
    fn op_on(&mut self, cx: &mut Cx, s: usize, o: usize, at: usize) -> bool {
        cx.step();
        let p = self.ptr[s];
        let exists = self.r[s].is_some();
        let t = |x: &str| if at == 0 { format!("{}:{}", s, x) } else { format!("{}:{} (thread {})", s, x, at) };
        let (name, got, want): (String, i32, i32) = match o {
            0 => {
                if exists { return true; }
                self.ptr[s] = on(at, || bb_alloc(2));
                self.r[s] = Some(Ref { nf: 2, recs: vec![], data: None, model: None });
                (t("alloc(2)"), if self.ptr[s].is_null() { -1 } else { 0 }, 0)
            }
            1 => {
                let bad = [0, -1][s];
                (t("alloc(bad)"), if on(at, || bb_alloc(bad)).is_null() { 0 } else { -1 }, 0)
            }
            2 => {
                if !exists { return true; }
                let r = on(at, || bb_dealloc(p));
                self.ptr[s] = std::ptr::null_mut();
                self.r[s] = None;
                (t("dealloc"), r, 0)
            }
            3..=8 => {
                let (n, v) = [("niterations", "2"), ("objective", "l1"), ("objective", "nope"), ("max_tree_depth", "x"), ("no_such_field", "1"), ("learning_rate", "0.5")][o - 3];
                let ok = o != 6 && o != 7;
                let legal = match &mut self.r[s] { Some(r) if r.data.is_none() => { if ok { r.recs.push((n.into(), v.into())); } ok } _ => false };
                (t(&format!("set {}={}", n, v)), on(at, || set(p, n, v)), if legal { 0 } else { -1 })
            }
            9 | 10 => {
                let n = [3usize, 5][o - 9];
                let legal = match &mut self.r[s] { Some(r) => { r.data = Some((n, vec![(vec![0.0; n], false); 3])); true } None => false };
                (t(&format!("refresh({})", n)), on(at, || bb_refresh_data(p, n as i32)), if legal { 0 } else { -1 })
            }
            11 => (t("refresh(bad)"), on(at, || bb_refresh_data(p, [0, -3][s])), -1),
            12..=16 => {
                let (j, cat, k) = [(0i32, 0i32, 0usize), (1, 1, 1), (2, 0, 2), (1, 1, 3), ([3, -1][s], 0, 0)][o - 12];
                let full = [[1.5f32, -2.0, 0.25, 8.0, 8.0], [2.0, 0.0, 1.0, 0.0, 2.0], [1.0, 5.0, 2.0, -1.0, 0.5], [1.0, 0.5, 0.0, 2.0, 1.0]][k];
                let mut legal = false;
                if let Some(r) = &mut self.r[s] {
                    if let Some((n, cols)) = &mut r.data { if j >= 0 && j < 3 && k != 3 { cols[j as usize] = (full[..*n].to_vec(), cat != 0); legal = true; } }
                }
                (t(&format!("column {} kind {}", j, k)), on(at, || bb_set_feature_data(p, j, full.as_ptr(), cat)), if legal { 0 } else { -1 })
            }
            // a target for which training must fail: the earlier model stays usable
            19 => {
                let mut col = vec![1.0f32, -1.0, 0.5, 2.0, 0.0];
                col[1] = f32::INFINITY;
                let mut legal = false;
                if let Some(r) = &mut self.r[s] { if let Some((n, cols)) = &mut r.data { cols[2] = (col[..*n].to_vec(), false); legal = true; } }
                (t("infinite target"), on(at, || bb_set_feature_data(p, 2, col.as_ptr(), 0)), if legal { 0 } else { -1 })
            }
            17 => {
                let m = self.r[s].as_ref().and_then(|r| r.train());
                let legal = m.is_some();
                if legal { self.r[s].as_mut().unwrap().model = m; }
                (t("train"), on(at, || bb_train(p)), if legal { 0 } else { -1 })
            }
            _ => {
                let w = self.r[s].as_ref().and_then(|r| r.predict());
                let mut buf = vec![f32::from_bits(0x7fc01234); 8];
                let got = on(at, || bb_predict(p, buf.as_mut_ptr()));
                let n = w.as_ref().map_or(0, |w| w.len());
                self.trace.push(t("predict"));
                let tr = self.trace.join(", ");
                if !cx.check(bits(&buf[n..]).iter().all(|&b| b == 0x7fc01234), "writes-beyond", || format!("{}: {:?}", tr, buf)) { return false; }
                if let Some(w) = &w {
                    let mut h = H::new(191);
                    for b in w { h.u(*b as u64); }
                    let h = h.get();
                    cx.state(h);
                    if got == 0 && !cx.check(bits(&buf[..n]) == *w, "predictions", || format!("{}: {:?} instead of {:?}", tr, &buf[..n], w.iter().map(|b| f32::from_bits(*b)).collect::<Vec<_>>())) { return false; }
                }
                self.trace.pop();
                (t("predict"), got, if w.is_some() { 0 } else { -1 })
            }
        };
        self.trace.push(name);
        let tr = &self.trace;
        cx.check(got == want, "return-code", || format!("{}: returned {} instead of {}", tr.join(", "), got, want))
    }

    fn finish(mut self, cx: &mut Cx) {
        // whatever happened: predictions and all stored settings of what is left are those of the reference
        for s in 0..2 {
            if self.r[s].is_some() {
                if !cx.failed() { self.op(cx, s, 18); }
                if !cx.failed() && self.r[s].as_ref().unwrap().data.is_some() { self.op(cx, s, 17); self.op(cx, s, 18); }
                cx.check(bb_dealloc(self.ptr[s]) == 0, "dealloc", String::new);
            }
        }
        let mut h = H::new(193);
        for r in self.r.iter().flatten() { h.u(r.hash()).u(r.model.is_some() as u64); }
        let h = h.get();
        cx.state(h);
    }
}

const STARTS: [&[usize]; 5] = [&[], &[0], &[0, 3, 9, 12, 13, 14], &[0, 4, 3, 10, 12, 13, 14, 17], &[0, 5, 9, 12, 14]];

/// Every sequence of calls on one context from every kind of state.
fn single(cx: &mut Cx) {
    let st = cx.choose(STARTS.len());
    let a = cx.choose(NOPS);
    let b = cx.choose(NOPS);
    if !cx.mine() { return; }
    let len = if cx.thorough() { 5 } else { 4 };
    for code in 0..NOPS.pow(len - 2) {
        let mut seq = vec![a, b];
        let mut x = code;
        for _ in 2..len { seq.push(x % NOPS); x /= NOPS; }
        let mut w = World::new();
        for &o in STARTS[st] { if !w.op(cx, 0, o) { break; } }
        for &o in &seq { if cx.failed() || !w.op(cx, 0, o) { break; } }
        w.finish(cx);
        if cx.failed() { return; }
    }
}

/// Every interleaving of calls on two contexts from every pair of states.
fn double(cx: &mut Cx) {
    let sa = cx.choose(STARTS.len());
    let sb = cx.choose(STARTS.len());
    let a = cx.choose(2 * NOPS);
    if !cx.mine() { return; }
    let len = if cx.thorough() { 4 } else { 3 };
    for code in 0..(2 * NOPS).pow(len - 1) {
        let mut seq = vec![a];
        let mut x = code;
        for _ in 1..len { seq.push(x % (2 * NOPS)); x /= 2 * NOPS; }
        let mut w = World::new();
        for i in 0..8 { // the starts interleaved
            if let Some(&o) = STARTS[sa].get(i) { if !w.op(cx, 0, o) { break; } }
            if let Some(&o) = STARTS[sb].get(i) { if !w.op(cx, 1, o) { break; } }
        }
        for &o in &seq { if cx.failed() || !w.op(cx, o % 2, o / 2) { break; } }
        w.finish(cx);
        if cx.failed() { return; }
    }
}

/// Every field and value through the interface; trained models equal native ones.
fn settings(cx: &mut Cx) {
    const F: [&str; 25] = ["train", "test", "objective", "metrics", "metric_frequency", "csv_has_header", "csv_delimiter", "categorical_features", "niterations", "learning_rate", "reg_lambda", "min_examples_leaf", "min_gain",
        "huber_alpha", "max_nbins", "discr_nbits", "max_tree_depth", "compression_threshold", "binary_gradient_bound", "random_seed", "feature_fraction", "example_fraction", "sample_freq", "", "Objective"];
    const V: [&str; 22] = ["1", "2", "0.5", "8", "3", "l1", "L2", "huber", "hinge", "Binary", "nope", "", "x", "true", "false", "1,2", "rmse", "rmse,l2", " 1", "-1", "0.9999", "250"];
    let f = cx.pick(&F);
    let v = cx.pick(&V);
    let f2 = cx.pick(&["", "objective", "discr_nbits", "max_tree_depth", "example_fraction", "niterations"]);
    let v2 = if f2.is_empty() { "" } else { cx.pick(&["2", "binary", "0.4", "hinge"]) };
    if !cx.mine() { return; }
    // settings the library does not support: at least one iteration and level
    let p = bb_alloc(3);
    let mut r = Ref { nf: 3, recs: vec![("niterations".into(), "3".into()), ("learning_rate".into(), "0.25".into())], data: None, model: None };
    let what = || format!("{}={} {}={}", f, v, f2, v2);
    let mut ok = true;
    for (n, x) in r.recs.clone() { ok &= set(p, &n, &x) == 0; }
    for (n, x) in [(f, v), (f2, v2)] {
        if n.is_empty() && f2.is_empty() && n == f2 && x == v2 { continue; }
        cx.step();
        let legal = Config::new().parse_record(n, x).is_ok();
        let g = set(p, n, x);
        ok &= cx.check((g == 0) == legal, "setting", || format!("{}: record {}={} gives {}", what(), n, x, g));
        if legal { r.recs.push((n.into(), x.into())); }
    }
    // bytes that are not UTF-8
    let bad = CString::new(vec![0xffu8, 0xfe]).unwrap();
    let name = CString::new("objective").unwrap();
    ok &= cx.check(bb_set_config_field(p, name.as_ptr(), bad.as_ptr()) == -1 && bb_set_config_field(p, bad.as_ptr(), name.as_ptr()) == -1, "utf8", || what());
    let n = 40usize;
    ok &= bb_refresh_data(p, n as i32) == 0;
    let cols: Vec<(Vec<f32>, bool)> = vec![((0..n).map(|i| shaped(3, i, n).0).collect(), false), ((0..n).map(|i| shaped(1, i, n).0).collect(), true), ((0..n).map(|i| shaped(9, i, n).0).collect(), true), ((0..n).map(|i| (i * i % 7 < 3) as u8 as f32).collect(), false)];
    for (j, (x, cat)) in cols.iter().enumerate() { ok &= bb_set_feature_data(p, j as i32, x.as_ptr(), if *cat { 1 + j as i32 } else { 0 }) == 0; }
    cx.check(ok, "data", || what());
    r.data = Some((n, cols));
    let c = config(&r.recs);
    let domain = c.max_tree_depth >= 1 && c.max_tree_depth <= 12 && c.max_nbins >= 1 && c.sample_freq >= 1 && c.min_examples_leaf >= 1 && c.learning_rate > 0.0 && c.learning_rate <= 1.0
        && c.example_fraction > 0.0 && c.feature_fraction > 0.0 && c.reg_lambda >= 0.0 && c.niterations < 300 && c.binary_gradient_bound > 0.0;
    if !domain { bb_dealloc(p); cx.discard(); return; }
    cx.steps(2);
    r.model = r.train();
    let t = bb_train(p);
    if cx.check((t == 0) == r.model.is_some(), "train", || format!("{}: training gives {}, natively possible: {}", what(), t, r.model.is_some())) {
        let mut buf = vec![f32::NAN; n];
        let g = bb_predict(p, buf.as_mut_ptr());
        cx.check((g == 0) == r.model.is_some(), "predict", || format!("{}: {}", what(), g));
        if let Some(w) = r.predict() {
            cx.check(bits(&buf) == w, "settings-predictions", || format!("{}: predictions differ from those of the library", what()));
            let mut h = H::new(192);
            for b in &w { h.u(*b as u64); }
            let h = h.get();
            cx.state(h);
        }
    }
    cx.check(bb_dealloc(p) == 0, "dealloc", || what());
}

/// Sizes of the data; every row and feature arrives at its place.
fn sizes(cx: &mut Cx) {
    let nf = cx.pick(&[1usize, 2, 3, 9, 40]);
    let n = cx.pick(&[1usize, 2, 7, 31, 32, 33, 255, 256, 257, 1000, 4097]);
    let n2 = cx.pick(&[1usize, 5, 64, 300]);
    let o = cx.pick(&["l2", "l1", "huber"]);
    if !cx.mine() { return; }
    let p = bb_alloc(nf as i32);
    let mut r = Ref { nf, recs: vec![("objective".into(), o.into()), ("niterations".into(), "3".into()), ("learning_rate".into(), "0.5".into())], data: None, model: None };
    for (a, b) in r.recs.clone() { set(p, &a, &b); }
    for (round, n) in [(0, n), (1, n2), (2, n)] {
        let cols: Vec<(Vec<f32>, bool)> = (0..=nf).map(|j| if j == nf { ((0..n).map(|i| (i * 13 % 8) as f32 - 3.0).collect(), false) } else { let k = (j * 3) % NSHAPES; ((0..n).map(|i| shaped(k, i + round, n + round).0).collect(), shaped(k, 0, n).1) }).collect();
        let mut ok = bb_refresh_data(p, n as i32) == 0;
        // the buffers handed over can be released or reused right after the call
        for (j, (x, cat)) in cols.iter().enumerate().rev() { let mut t = x.clone(); ok &= bb_set_feature_data(p, j as i32, t.as_ptr(), *cat as i32) == 0; t.iter_mut().for_each(|v| *v = f32::NAN); drop(t); }
        r.data = Some((n, cols));
        cx.steps(3);
        if round != 1 { ok &= bb_train(p) == 0; r.model = r.train(); }
        let mut buf = vec![f32::from_bits(0x7fc01234); n + 3];
        ok &= bb_predict(p, buf.as_mut_ptr()) == 0;
        let w = r.predict();
        if !cx.check(ok && w.is_some() && bits(&buf[..n]) == w.unwrap() && bits(&buf[n..]).iter().all(|&b| b == 0x7fc01234), "sizes", || format!("{} features, {} rows, round {} ({} rows before), {}", nf, n, round, n2, o)) { break; }
        // wrong features are refused and change nothing
        let x = vec![1.0f32; n];
        cx.check(bb_set_feature_data(p, nf as i32 + 1, x.as_ptr(), 0) == -1 && bb_set_feature_data(p, -1, x.as_ptr(), 0) == -1 && bb_set_feature_data(p, i32::MAX, x.as_ptr(), 0) == -1 && bb_set_feature_data(p, i32::MIN, x.as_ptr(), 0) == -1, "feature-range", || format!("{} features", nf));
    }
    cx.check(bb_dealloc(p) == 0, "dealloc", String::new);
}

/// Many rows and many features.
fn large(cx: &mut Cx) {
    let (nf, n) = cx.pick(&[(2usize, 40_001usize), (3, 70_003), (300, 40), (1100, 5)]);
    let n2 = cx.pick(&[3usize, 50_021]);
    let o = cx.pick(&["l2", "l1"]);
    if !cx.mine() { return; }
    if nf * n2 > 300_000 { cx.discard(); return; }
    let p = bb_alloc(nf as i32);
    let mut r = Ref { nf, recs: vec![("objective".into(), o.into()), ("niterations".into(), "2".into()), ("learning_rate".into(), "0.5".into())], data: None, model: None };
    for (a, b) in r.recs.clone() { set(p, &a, &b); }
    for (round, n) in [(0, n), (1, n2), (2, n)] {
        let cols: Vec<(Vec<f32>, bool)> = (0..=nf).map(|j| if j == nf { ((0..n).map(|i| (i * 13 % 8) as f32 - 3.0).collect(), false) } else { let k = (j * 3 + 1) % NSHAPES; ((0..n).map(|i| shaped(k, i + round, n + round).0).collect(), shaped(k, 0, n).1) }).collect();
        let mut ok = bb_refresh_data(p, n as i32) == 0;
        for (j, (x, cat)) in cols.iter().enumerate().rev() { let t = x.clone(); ok &= bb_set_feature_data(p, j as i32, t.as_ptr(), *cat as i32) == 0; }
        r.data = Some((n, cols));
        cx.steps(3);
        if round != 1 { ok &= bb_train(p) == 0; r.model = r.train(); }
        let mut buf = vec![f32::from_bits(0x7fc01234); n + 3];
        ok &= bb_predict(p, buf.as_mut_ptr()) == 0;
        let w = r.predict();
        if !cx.check(ok && w.is_some() && bits(&buf[..n]) == w.unwrap() && bits(&buf[n..]).iter().all(|&b| b == 0x7fc01234), "large", || format!("{} features, {} rows, round {} ({} rows before), {}", nf, n, round, n2, o)) { break; }
    }
    cx.check(bb_dealloc(p) == 0, "dealloc", String::new);
    CACHE.with(|c| c.borrow_mut().clear());
}

/// Many contexts alive at once, and one context reused many times.
fn many(cx: &mut Cx) {
    let n = cx.pick(&[3usize, 40, 260, 1030]);
    let order = cx.choose(3);
    let reuse = cx.choose(2);
    if !cx.mine() { return; }
    let k = if reuse == 1 { 1 } else { n };
    let mut ps: Vec<(*mut c_void, Ref)> = (0..k).map(|i| (bb_alloc(2 + (i % 3) as i32), Ref { nf: 2 + i % 3, recs: vec![("niterations".into(), "1".into())], data: None, model: None })).collect();
    for (p, r) in &ps { for (a, b) in &r.recs { set(*p, a, b); } }
    let what = |i: usize| format!("{} contexts, {} uses, order {}, use {}", k, n, order, i);
    for i in 0..n {
        let q = [i, n - 1 - i, i * 7 % n][order] % k;
        let (p, r) = &mut ps[q];
        let rows = 2 + i % 4;
        let cols: Vec<(Vec<f32>, bool)> = (0..=r.nf).map(|j| ((0..rows).map(|t| ((t * (j + 1) + i) % 5) as f32).collect(), j % 2 == 1 && j < r.nf)).collect();
        let mut ok = bb_refresh_data(*p, rows as i32) == 0;
        for (j, (x, cat)) in cols.iter().enumerate() { ok &= bb_set_feature_data(*p, j as i32, x.as_ptr(), *cat as i32) == 0; }
        r.data = Some((rows, cols));
        cx.steps(3);
        if i % 3 != 1 || r.model.is_none() { ok &= bb_train(*p) == 0; r.model = r.train(); }
        let mut buf = vec![0.0; rows];
        ok &= bb_predict(*p, buf.as_mut_ptr()) == 0;
        let w = r.predict();
        if !cx.check(ok && w.as_ref() == Some(&bits(&buf)), "many", || what(i)) { break; }
    }
    // all of them still hold what they were given
    for i in 0..k {
        let (p, r) = &ps[i];
        if let Some(w) = r.predict() {
            let mut buf = vec![0.0; w.len()];
            let ok = bb_predict(*p, buf.as_mut_ptr()) == 0;
            if !cx.check(ok && bits(&buf) == w, "many-after", || what(i)) { break; }
        }
    }
    let mut left: Vec<usize> = (0..k).collect();
    while !left.is_empty() {
        let q = left.remove([0, left.len() - 1, left.len() / 2][order]);
        cx.check(bb_dealloc(ps[q].0) == 0, "dealloc", || what(q));
        if let Some(&i) = left.get(left.len() / 3) {
            if let Some(w) = ps[i].1.predict() { let mut buf = vec![0.0; w.len()]; let ok = bb_predict(ps[i].0, buf.as_mut_ptr()) == 0; if !cx.check(ok && bits(&buf) == w, "many-dealloc", || what(i)) { break; } }
        }
    }
}

/// Null contexts are refused by every call.
fn null(cx: &mut Cx) {
    let o = cx.choose(NOPS);
    if !cx.mine() { return; }
    let z = std::ptr::null_mut();
    let x = [1.0f32; 8];
    let mut y = [2.0f32; 8];
    cx.step();
    let r = match o { 2 => bb_dealloc(z), 3..=8 => set(z, "objective", "l2"), 9..=11 => bb_refresh_data(z, 3), 12..=16 => bb_set_feature_data(z, 0, x.as_ptr(), 0), 17 | 19 => bb_train(z), 18 => bb_predict(z, y.as_mut_ptr()), _ => -1 };
    cx.check(r == -1 && y == [2.0; 8], "null", || format!("operation {} on a null context gives {}", o, r));
    cx.check(bb_get_numt_nbytes() == 4, "numt", || format!("{}", bb_get_numt_nbytes()));
    for n in [i32::MIN, -1, 0] { cx.check(bb_alloc(n).is_null(), "alloc-range", || format!("{} features", n)); }
}

/// The calls of one or two contexts are made on different threads, one after the other.
fn threads(cx: &mut Cx) {
    const ONE: [usize; 13] = [0, 4, 3, 9, 12, 13, 14, 17, 18, 10, 12, 17, 18];
    let two = cx.choose(3); // a second context: none, one step behind, five steps behind
    let mut left = if two == 0 { if cx.thorough() { 4 } else { 3 } } else { if cx.thorough() { 3 } else { 2 } };
    let mut calls: Vec<(usize, usize)> = vec![];
    for i in 0..ONE.len() + 5 {
        if i < ONE.len() { calls.push((0, ONE[i])); }
        let d = [0, 1, 5][two];
        if two > 0 && i >= d && i - d < ONE.len() { calls.push((1, ONE[i - d])); }
    }
    let places: Vec<usize> = calls.iter().map(|_| cx.dev(4, &mut left)).collect();
    if !cx.mine() { return; }
    let mut w = World::new();
    for (&(s, o), &at) in calls.iter().zip(&places) { if !w.op_on(cx, s, o, at) { break; } }
    w.finish(cx);
}

fn main() { mc::main(&[("null", null), ("threads", threads), ("single", single), ("double", double), ("settings", settings), ("sizes", sizes), ("large", large), ("many", many)]); }
