//! P26: memory taken for data, training and contexts is given back; training needs no more memory
//! for more iterations or nodes than its result.
use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::metrics_from_names;
use bitboost::slice_store::{BitBlockStore, HistStore};
use bitboost::tree::{AdditiveTree, TreeLearnerContext};
use mc::alloc::{live, meter, peak, reset_peak};
use mc::py::*;
use mc::train::*;
use mc::*;
use std::ffi::CString;
use std::os::raw::c_void;

/// Runs a cycle several times: what is in use afterwards must not keep growing.
fn steady<F: FnMut()>(cx: &mut Cx, key: &str, mut cycle: F, what: &dyn Fn() -> String) {
    meter();
    for _ in 0..2 { cycle(); }
    const K: usize = 6;
    let mut l = [0isize; 2 * K];
    for x in l.iter_mut() { cycle(); *x = live(); }
    cx.steps(2 * K + 2);
    let (a, b) = (*l[..K].iter().min().unwrap(), *l[K..].iter().min().unwrap());
    let mut h = H::new(26);
    h.n((b - a) as usize);
    let h = h.get();
    cx.state(h);
    // what merely settles (pools of threads, tables that grow once) stops growing when one goes on
    let (mut leak, mut last) = (b - a >= SLACK, b);
    for &more in &[40, 160] {
        if !leak { break; }
        for _ in 0..more { cycle(); }
        let now = (0..K).map(|_| { cycle(); live() }).min().unwrap();
        leak = now - last >= SLACK;
        last = now;
    }
    cx.check(!leak, key, || format!("{}: {} repetitions keep {} bytes, {} after 200 more: {:?}", what(), K, b - a, last - a, l));
}
const SLACK: isize = 256;

fn set(p: *mut c_void, n: &str, v: &str) -> i32 { let (n, v) = (CString::new(n).unwrap(), CString::new(v).unwrap()); bb_set_config_field(p, n.as_ptr(), v.as_ptr()) }

/// Every sequence of calls through the C interface, on one context or two, released at the end.
fn contexts(cx: &mut Cx) {
    const NOPS: usize = 13;
    let len = if cx.thorough() { 5 } else { 4 };
    let start = cx.choose(3);
    let ops: Vec<usize> = (0..len).map(|_| cx.choose(NOPS)).collect();
    if !cx.mine() { return; }
    let n = 300;
    let cols: Vec<Vec<f32>> = vec![(0..n).map(|i| shaped(3, i, n).0).collect(), (0..n).map(|i| shaped(2, i, n).0).collect(), (0..n).map(|i| (i * 13 % 8) as f32 - 3.0).collect()];
    let long = "x".repeat(500);
    let seq: Vec<usize> = [&[][..], &[5, 7, 8, 9], &[0, 5, 7, 8, 9, 10]][start].iter().cloned().chain(ops.iter().cloned()).collect();
    let what = || format!("alloc, operations {:?}, release", seq);
    let mut buf = vec![0.0f32; n];
    steady(cx, "context", || {
        let p = bb_alloc(2);
        set(p, "niterations", "2");
        set(p, "max_tree_depth", "3");
        let mut rows = 0;
        for &o in &seq {
            match o {
                0 => { set(p, "objective", "huber"); }
                1 => { set(p, "train", &long); }
                2 => { set(p, "metrics", &format!("l2,{}", long)); }
                3 => { set(p, "no_such_field", &long); }
                4 => { set(p, "max_nbins", &long); }
                5 => { bb_refresh_data(p, n as i32); rows = n; }
                6 => { bb_refresh_data(p, n as i32 / 3); rows = n / 3; }
                7 => { bb_set_feature_data(p, 0, cols[0].as_ptr(), 0); }
                8 => { bb_set_feature_data(p, 1, cols[1].as_ptr(), 1); }
                9 => { bb_set_feature_data(p, 2, cols[2].as_ptr(), 0); }
                10 => { bb_train(p); }
                11 => { if rows <= n { bb_predict(p, buf.as_mut_ptr()); } }
                _ => { bb_set_feature_data(p, 1, cols[0].as_ptr(), 1); } // refused
            }
        }
        bb_dealloc(p);
    }, &what);
}

/// The same calls repeated on a context that stays alive: the last of a kind replaces the others.
fn replaced(cx: &mut Cx) {
    const NOPS: usize = 12;
    let len = if cx.thorough() { 4 } else { 3 };
    let ops: Vec<usize> = (0..len).map(|_| cx.choose(NOPS)).collect();
    if !cx.mine() { return; }
    let n = 300;
    let cols: Vec<Vec<f32>> = vec![(0..n).map(|i| shaped(3, i, n).0).collect(), (0..n).map(|i| shaped(2, i, n).0).collect(), (0..n).map(|i| (i * 13 % 8) as f32 - 3.0).collect(), (0..n).map(|i| if i == 7 { f32::INFINITY } else { 1.0 }).collect()];
    let what = || format!("operations {:?} repeated on one context", ops);
    let long = "x".repeat(500);
    let mut buf = vec![0.0f32; n];
    let p = bb_alloc(2);
    set(p, "niterations", "2");
    set(p, "max_tree_depth", "3");
    let early = ops.iter().all(|&o| o >= 10);
    if !early {
        bb_refresh_data(p, n as i32);
        for j in 0..3 { bb_set_feature_data(p, j as i32, cols[j].as_ptr(), (j == 1) as i32); }
        bb_train(p);
    }
    steady(cx, "replaced", || for &o in &ops {
        match o {
            0 => { bb_refresh_data(p, n as i32); }
            1 => { bb_refresh_data(p, n as i32 / 3); }
            2 => { bb_refresh_data(p, -1); }
            3 => { bb_set_feature_data(p, 0, cols[1].as_ptr(), 1); }
            4 => { bb_set_feature_data(p, 1, cols[1].as_ptr(), 1); }
            5 => { bb_set_feature_data(p, 1, cols[0].as_ptr(), 0); }
            6 => { bb_set_feature_data(p, 2, cols[2].as_ptr(), 0); }
            7 => { bb_set_feature_data(p, 2, cols[3].as_ptr(), 0); } // training fails
            8 => { bb_train(p); }
            9 => { bb_predict(p, buf.as_mut_ptr()); }
            10 => { set(p, "train", &long); set(p, "categorical_features", "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19"); set(p, "metrics", "l2,rmse,x"); }
            _ => { set(p, "nope", &long); set(p, "max_nbins", &long); }
        }
    }, &what);
    bb_dealloc(p);
}

/// Data sets, trainers, learner resources and models of the library, with every setting changed.
fn library(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let kind = cx.choose(4);
    let n = cx.pick(&[40usize, 700]);
    let c = knobs(cx, o, 3, if cx.thorough() { 3 } else { 2 });
    if !cx.mine() { return; }
    let mut case = wide_case(7, n, kind);
    if o == "binary" || o == "hinge" { case.target.iter_mut().for_each(|t| *t = (*t > 0.0) as u8 as f32); }
    let text = if kind == 3 { case.csv() } else { String::new() };
    let what = || format!("kind {} {} rows {}", kind, n, show_config(&c));
    steady(cx, "library", || {
        let data = if kind == 3 { Data::from_csv(&c, &text).unwrap() } else { case.data(&c) };
        let (m, s) = boost(&c, &data, &mut *obj(o));
        let p = if kind == 1 { m.predict(&data) } else { s };
        if kind == 2 {
            let mut ctx = TreeLearnerContext::new(&c, &data);
            let mut ds = Dataset::new(&c, &data);
            for k in 0..2 { let g: Vec<f32> = p.iter().map(|x| x.max(-1.0).min(1.0) * (1 - k) as f32).collect(); ds.update(&c, &g, (-1.0, 1.0)); learn(&c, &mut ctx, &mut ds, &g, (-1.0, 1.0)); }
        }
    }, &what);
}

/// Failing calls leave nothing behind.
fn failing(cx: &mut Cx) {
    let k = cx.choose(10);
    let n = cx.pick(&[1usize, 50, 400]);
    let at = cx.choose(3);
    if !cx.mine() { return; }
    if k == 1 && n == 1 { cx.discard(); return; }
    let mut c = Config::new();
    c.csv_has_header = false;
    let row = |i: usize| format!("{},{},{}\n", i % 7, i * 31 % 1000, i % 3);
    let p = [0, n / 2, n - 1][at];
    let mut lines: Vec<String> = (0..n).map(row).collect();
    match k {
        0 => lines[p] = "1,x,2\n".into(),
        1 => lines[p] = "1,2\n".into(),
        2 => { c.categorical_features = vec![1]; lines[p] = "1,-1,2\n".into(); }
        3 => { c.categorical_features = vec![0, 1, 2]; lines[p] = "1,0.5,2\n".into(); }
        4 => lines.clear(),
        _ => {}
    }
    let text = lines.concat();
    let long = "y".repeat(700);
    let what = || format!("failing call {} with {} rows, place {}", k, n, at);
    let good = Data::from_csv(&Config::new(), "a,b,c\n1,2,3\n4,5,6\n").unwrap();
    let mut d = Data::empty(&c, 2, n);
    let bad: Vec<f32> = (0..n).map(|i| if i == p { -1.0 } else { i as f32 }).collect();
    let inf: Vec<f32> = (0..n).map(|i| if i == p { f32::INFINITY } else { i as f32 }).collect();
    let mut accepted = false;
    steady(cx, "failing", || {
        match k {
            0..=4 => accepted |= Data::from_csv(&c, &text).is_ok(),
            5 => accepted |= d.set_feature_data(1, &bad, true).is_ok(),
            6 => accepted |= d.set_feature_data(1, &inf, true).is_ok(),
            7 => accepted |= Config::parse([&format!("test={}", long) as &str, "metrics=a,b,c", "nope=1"].iter().cloned()).is_ok(),
            8 => accepted |= metrics_from_names(&[long.clone(), "l2".into(), "nope".into()]).is_some(),
            _ => { let mut c = Config::new(); let mut r = true; for v in [&long as &str, "1e9x", "a,b"].iter() { r &= c.parse_record("max_nbins", v).is_err() & c.parse_record("categorical_features", v).is_err() & c.parse_record("nope", v).is_err(); } accepted |= !r; }
        }
    }, &what);
    cx.check(!accepted, "accepted", || what());
    drop(good);
}

/// Bytes in use on top of the data at the worst moment of a training, and bytes of its model.
fn cost(c: &Config, data: &Data, metrics: &str) -> (isize, isize) {
    let ms = metrics_from_names(&metrics.split(',').filter(|m| !m.is_empty()).map(|m| m.to_string()).collect::<Vec<_>>()).unwrap();
    let before = live();
    reset_peak();
    let model: AdditiveTree = { let mut o = obj(&c.objective); let m = Booster::new(c, data, &mut *o, &ms).train(); m };
    let top = peak() - before;
    let with = live();
    drop(model);
    (top, with - live())
}

/// Training for longer needs more memory for the trees it adds only.
fn iterations(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n = cx.pick(&[50usize, 3000]);
    let frac = cx.pick(&[1.0f32, 0.6]);
    let freq = cx.pick(&[1usize, 3, 1000]);
    let shape = cx.choose(if cx.thorough() { 5 } else { 3 });
    let metrics = cx.pick(&["", "l2,rmse"]);
    if !cx.mine() { return; }
    meter();
    let mut c = Config::new();
    c.objective = o.into();
    if o == "hinge" { c.discr_nbits = 2; }
    c.learning_rate = 0.1;
    c.max_tree_depth = [3, 6, 1, 4, 8][shape];
    c.compression_threshold = [0.5, 0.1, 0.5, 1.0, 0.0][shape];
    c.example_fraction = frac;
    c.feature_fraction = if shape == 1 { 0.5 } else { 1.0 };
    c.sample_freq = freq;
    let mut case = wide_case(7, n, shape);
    if o == "binary" || o == "hinge" || metrics.is_empty() { case.target.iter_mut().for_each(|t| *t = (*t > 0.0) as u8 as f32); }
    let data = case.data(&c);
    let mut r = vec![];
    let its = [10usize, 20, 40, 80];
    for &it in its.iter() { c.niterations = it; r.push(cost(&c, &data, metrics)); cx.steps(it); }
    let what = || format!("{} rows {} shape {} sample {} / {} metrics {:?}: memory and model {:?} for {:?} iterations", n, o, shape, frac, freq, metrics, r, its);
    // working memory apart from the model: bounded by what the first ten trees may have needed, since
    // pools can double once when a later tree is larger
    let base = r[0].0 - r[0].1;
    for k in 1..4 {
        let work = r[k].0 - r[k].1;
        let list = 4 * std::mem::size_of::<bitboost::tree::Tree>() as isize * its[k] as isize; // the growing list of trees while it is moved
        cx.check(work <= 3 * base + list + 4096, "iterations", || format!("{} iterations: {}", its[k], what()));
        // linear growth would show between the last two
        if k == 3 { let prev = r[2].0 - r[2].1; cx.check(work - prev <= base + list, "iterations-grow", || what()); }
    }
    let mut h = H::new(261);
    h.n(r[3].0 as usize);
    let h = h.get();
    cx.state(h);
}

/// Tree after tree with the same learner resources and data: equal trees need equal memory.
fn trees(cx: &mut Cx) {
    let bits = cx.pick(&[1usize, 2, 4, 8]);
    let comp = cx.pick(&[0.5f32, 0.0, 0.9, 2.0]);
    let n = cx.pick(&[33usize, 700, 20_000]);
    let depth = cx.pick(&[1usize, 3, 6]);
    let kind = cx.choose(if cx.thorough() { 6 } else { 3 });
    if !cx.mine() { return; }
    let mut c = Config::new();
    c.discr_nbits = bits;
    c.compression_threshold = comp;
    c.max_tree_depth = depth;
    let case = wide_case(5, n, kind);
    let data = case.data(&c);
    let mut ctx = TreeLearnerContext::new(&c, &data);
    let mut ds = Dataset::new(&c, &data);
    let g: Vec<f32> = (0..n).map(|i| ((i / (1 + kind * 20) * 37) % 23) as f32 / 11.0 - 1.0).collect();
    let what = || format!("{} rows, {} bits, threshold {}, depth {}, kind {}: trees with the same resources", n, bits, comp, depth, kind);
    let reps = if n > 1000 { 20 } else { 60 };
    let mut first: Option<Vec<u32>> = None;
    let mut same = true;
    let mut grown = 0;
    steady(cx, "trees", || for _ in 0..reps {
        if kind % 2 == 0 || first.is_none() { ds.update(&c, &g, (-1.0, 1.0)); }
        let r = learn(&c, &mut ctx, &mut ds, &g, (-1.0, 1.0));
        grown = grown.max(r.leaves.len());
        let b = mc::train::bits(&r.preds);
        if first.is_none() { first = Some(b); } else { same &= first.as_ref() == Some(&b); }
    }, &what);
    cx.note("leaves", grown as u64);
    cx.check(same, "trees-differ", || what());
}

/// Deep trees: histograms and masks of finished nodes are used again.
fn nodes(cx: &mut Cx) {
    let bits = cx.pick(&[1usize, 2, 4, 8]);
    let n = cx.pick(&[1024usize, 2000, 5000]);
    let m = cx.pick(&[6usize, 20]);
    let comp = cx.pick(&[1.0f32, 2.0]);
    let bins = cx.pick(&[16usize, 64]);
    if !cx.mine() { return; }
    meter();
    let mut c = Config::new();
    c.discr_nbits = bits;
    c.max_nbins = bins;
    c.compression_threshold = comp;
    c.niterations = 1;
    c.min_gain = 0.0;
    let cols: Vec<Col> = (0..m).map(|j| Col { vals: (0..n).map(|i| (i * (2 * j + 1) * 40503 % 65536) as f32).collect(), cat: false }).collect();
    let case = Case { n, cols, target: (0..n).map(|i| ((i * 2654435761) % 1009) as f32).collect() };
    let data = case.data(&c);
    let mut top = vec![];
    let mut leaves = vec![];
    for &d in [2usize, 5, 8, 11].iter() {
        c.max_tree_depth = d;
        let (t, model) = cost(&c, &data, "");
        top.push(t - model);
        cx.step();
        let g: Vec<f32> = case.target.iter().map(|t| t / 1009.0 - 0.5).collect();
        leaves.push(learn_once(&c, &data, &g, (-0.5, 0.5)).leaves.len());
    }
    // one set of histograms and one mask per pending node; at most two nodes are pending per level
    let hist = (m * bins * 8) as isize;
    let mask = (n as isize + 255) / 256 * 32 + 64;
    let per = 2 * 11 * (hist + mask);
    let what = || format!("{} rows, {} features, {} bits, {} bins, threshold {}: {:?} bytes for depth 2, 5, 8, 11 ({:?} leaves)", n, m, bits, bins, comp, top, leaves);
    cx.check(top[3] <= top[0] + 4 * per + 64 * 1024, "nodes", || what());
    cx.note("leaves", leaves[3] as u64);
    let mut h = H::new(262);
    h.n(top[3] as usize);
    let h = h.get();
    cx.state(h);
}

/// Pools: freed slices are used again and a reset pool starts over.
fn pools(cx: &mut Cx) {
    let pat: Vec<usize> = (0..4).map(|_| cx.choose(5)).collect();
    let order = cx.choose(3);
    let reset = cx.flag();
    let kind = cx.choose(2);
    if !cx.mine() { return; }
    meter();
    let what = || format!("requests {:?}, freed in order {}, reset {}, kind {}", pat, order, reset, kind);
    let ord: Vec<usize> = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]][order].to_vec();
    if kind == 0 {
        let mut s = BitBlockStore::new(64);
        steady(cx, "pool", || for _ in 0..40 {
            let r: Vec<_> = pat.iter().map(|&k| if k == 4 { s.alloc_one_bits(3000) } else { s.alloc_zero_blocks([1, 3, 8, 20][k]) }).collect();
            if reset { s.reset(); } else { for &i in &ord { s.free_blocks(r[i]); } }
        }, &what);
    } else {
        let mut s: HistStore<f32> = HistStore::new([5u32, 16, 3].iter().cloned());
        steady(cx, "hist-pool", || for _ in 0..40 {
            let k = 1 + pat[0];
            let r: Vec<_> = (0..k).map(|_| s.alloc_hists()).collect();
            if reset { s.reset(); } else { for i in 0..k { let i = [i, k - 1 - i, (i + pat[1]) % k][order]; s.free_hists(r[i]); } }
        }, &what);
    }
}

/// Estimators and raw objects of the Python package, made, used and dropped again and again.
fn python(cx: &mut Cx) {
    let k = cx.choose(12);
    let shape = cx.choose(2);
    let (n, reps) = if cx.thorough() { (20_000, 100) } else { (20_000, 50) };
    if !cx.mine() { return; }
    let m = [6usize, 20][shape];
    let body = [
        "r = bb.BitBoostRegressor(niterations=1).fit(X, y); r.predict(X)",
        "r = bb.BitBoostClassifier(niterations=1).fit(X, b); r.predict(X)",
        "keep.fit(X, y)",
        "keep.fit(X, y); keep.predict(X); keep.predict(X[:50])",
        "r = Raw(M, 1); r.set_config(dict(niterations=1)); r.set_data(X); r.set_target(y); r.train(); r.predict(); r.dealloc()",
        "r = Raw(M, 1); r.set_data(X); r.set_target(y)",
        "raw.set_data(X); raw.set_target(y); raw.train()",
        "raw.set_data(X); raw.predict()",
        "try:\n        r = bb.BitBoostRegressor(niterations=1, categorical_features=[0]).fit(X - 5, y)\n    except Exception: pass",
        "for _ in range(400): r = Raw(M, 1); r.set_config(dict(objective='x' * 400))",
        "for _ in range(400): r = Raw(M, 1); r.set_config(dict(objective='x' * 400)); r.dealloc()",
        "for _ in range(200):\n        try:\n            r = Raw(M, 1); r.set_config(dict(objective='x' * 800)); r.set_data(X[:3]); r.set_target(y[:3]); r.train()\n        except Exception: pass",
    ][k];
    let allow = if k < 9 { n * 4 * reps / 1024 / 2 } else { 80 * reps }; // half a column, or half the settings, per repetition
    let prog = format!("import gc\nX = ((np.arange({n} * {m}) * 40503) % 65536).astype(np.float32).reshape({n}, {m})\ny = (X[:, 0] % 13).astype(np.float32)\nb = (y > 5).astype(np.float32)\nM = {m}\nkeep = bb.BitBoostRegressor(niterations=1)\nraw = Raw(M, 1)\nraw.set_config(dict(niterations=1))\nif {k} >= 7: raw.set_data(X); raw.set_target(y); raw.train()\ndef once():\n    {body}\ndef kb():\n    gc.collect()\n    return int(open('/proc/self/statm').read().split()[1]) * 4\nfor _ in range({w}): once()\na = [kb()]\nfor more in range(3):\n    for _ in range({reps}): once()\n    a.append(kb())\n    if a[-1] < a[-2] + {allow}: break\nresult = np.array(a, dtype=np.uint32).view(np.float32)\nfor x in ('keep', 'raw', 'X'): del globals()[x]", n = n, m = m, k = k, body = body, w = 10, reps = reps, allow = allow);
    cx.steps(reps);
    let what = || format!("{} times `{}` with {} x {} values", reps, body, n, m);
    match py(&prog) {
        Ans::Ok(w) if w.len() >= 2 => {
            let mut h = H::new(263);
            h.n(k * 2 + shape);
            let h = h.get();
            cx.state(h);
            cx.check(w.len() < 4 || w[3] < w[2] + allow as u32, "python", || format!("{}: {:?} KiB after each", what(), w));
        }
        a => cx.fail("python-answer", format!("{}: {:?}", what(), a)),
    }
}

/// Data sets need memory for their values, whatever text or calls they came from.
fn loading(cx: &mut Cx) {
    let n = cx.pick(&[1usize, 100, 5_000, 40_000]);
    let m = cx.pick(&[1usize, 4, 40]);
    let width = cx.pick(&[1usize, 8, 40]);
    let cat = cx.choose(3);
    let route = cx.choose(4);
    if !cx.mine() { return; }
    if n * m > 200_000 * if cx.thorough() { 8 } else { 1 } || (route == 0 && width > 1) { cx.discard(); return; }
    meter();
    let mut c = Config::new();
    c.csv_has_header = width == 8;
    if cat > 0 { c.categorical_features = if cat == 1 { vec![0] } else { (0..m).collect() }; }
    let val = |i: usize, j: usize| (i * 7 + j * 13) % 300;
    let mut text = String::new();
    if route > 0 {
        if width == 8 { text += &(0..m).map(|j| format!("name{}", j)).collect::<Vec<_>>().join(","); text.push('\n'); }
        for i in 0..n { for j in 0..m { if j > 0 { text.push(','); } text += &format!("{:0w$}", val(i, j), w = width); } text.push('\n'); }
    }
    let file = format!("{}/mem{}.csv", std::env::var("MC_TMP").unwrap_or("/tmp".into()), std::process::id());
    if route == 3 { std::fs::write(&file, &text).unwrap(); }
    let before = live();
    reset_peak();
    let d = match route {
        0 => { let mut d = Data::empty(&c, m.max(2) - 1, n); for j in 0..m { let v: Vec<f32> = (0..n).map(|i| val(i, j) as f32).collect(); for _ in 0..3 { d.set_feature_data(j, &v, cat > j.min(1)).unwrap(); } } d }
        1 => Data::from_csv(&c, &text).unwrap(),
        2 => Data::from_csv_reader(&c, text.as_bytes()).unwrap(),
        _ => Data::from_csv_path(&c, &file).unwrap(),
    };
    let (top, kept) = (peak() - before, live() - before);
    drop(d);
    let left = live() - before;
    if route == 3 { let _ = std::fs::remove_file(&file); }
    let bytes = (n * m.max(2) * 4) as isize;
    let what = || format!("{} x {} values of {} characters, categorical {}, route {}: at most {}, kept {}, left {} bytes; the values are {} bytes, the text {}", n, m, width, cat, route, top, kept, left, bytes, text.len());
    cx.step();
    cx.check(kept <= 3 * bytes + 64 * 1024, "loaded", || what());
    cx.check(top <= 6 * bytes + 5 * text.len() as isize + 512 * 1024, "loading", || what());
    cx.check(left <= 4096, "unloaded", || what());
    let mut h = H::new(264);
    h.n(kept as usize).n(top as usize);
    let h = h.get();
    cx.state(h);
}

/// Twice the rows or columns need about twice the memory.
fn linear(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let kind = cx.choose(3);
    let depth = cx.pick(&[2usize, 6]);
    let bits = cx.pick(&[1usize, 8, 4]);
    let rows = cx.flag();
    if !cx.mine() { return; }
    meter();
    let mut c = Config::new();
    c.objective = o.into();
    c.discr_nbits = if o == "hinge" { 2 } else { bits };
    c.niterations = 3;
    c.learning_rate = 0.2;
    c.max_tree_depth = depth;
    c.compression_threshold = [0.5, 0.0, 2.0][kind];
    c.example_fraction = [1.0, 0.7, 1.0][kind];
    let mut r = vec![];
    for k in 0..4 {
        let (m, n) = if rows { (6, 2000 << k) } else { (6 << k, 2000) };
        let mut case = wide_case(m, n, kind);
        if o == "binary" || o == "hinge" { case.target.iter_mut().for_each(|t| *t = (*t > 0.0) as u8 as f32); }
        let data = case.data(&c);
        let (t, model) = cost(&c, &data, "l2");
        r.push((t, model));
        cx.steps(3);
    }
    let what = || format!("{} kind {} depth {} bits {}: memory and model {:?} for 1, 2, 4, 8 times the {}", o, kind, depth, c.discr_nbits, r, if rows { "rows" } else { "columns" });
    for k in 1..4 { cx.check(r[k].0 <= (r[0].0 << k) * 2 + 128 * 1024, "linear", || what()); }
    let mut h = H::new(265);
    h.n(r[3].0 as usize);
    let h = h.get();
    cx.state(h);
}

/// Every sequence of gradients for one data set: thresholds, categories and samples change all the time.
fn updates(cx: &mut Cx) {
    let len = if cx.thorough() { 4 } else { 3 };
    let pats: Vec<usize> = (0..len).map(|_| cx.choose(6)).collect();
    let kind = cx.choose(3);
    let frac = cx.pick(&[1.0f32, 0.4]);
    let bits = cx.pick(&[8usize, 2]);
    if !cx.mine() { return; }
    let n = 300;
    let mut c = Config::new();
    c.discr_nbits = bits;
    c.max_nbins = [8, 16, 32][kind];
    c.max_tree_depth = 3;
    c.example_fraction = frac;
    c.feature_fraction = if kind == 1 { 0.6 } else { 1.0 };
    c.compression_threshold = 0.2;
    let mut case = wide_case(6, n, kind);
    // values most of which fall together unless the few others have gradients
    case.cols.push(Col { vals: (0..n).map(|i| (i * i % 41) as f32 * if i % 41 == 3 { 20.0 } else { 1.0 }).collect(), cat: false });
    let data = case.data(&c);
    let gs: Vec<Vec<f32>> = (0..6).map(|p| (0..n).map(|i| match p {
        0 => 0.0,
        1 => (i * 7919 % 1009) as f32 / 505.0 - 1.0,
        2 => if i % 41 == 3 { -1.0 } else { 0.0 },
        3 => if i % 7 == 0 { 1.0 } else { 0.01 },
        4 => if i == 77 { 1.0 } else { 0.0 },
        _ => i as f32 / 150.0 - 1.0,
    }).collect()).collect();
    let mut ctx = TreeLearnerContext::new(&c, &data);
    let mut ds = Dataset::new(&c, &data);
    let mut bins = vec![];
    steady(cx, "updates", || for k in 0..24 {
        for (j, &p) in pats.iter().enumerate() {
            ds.update(&c, &gs[p], (-1.0, 1.0));
            if k % 3 == 0 { learn(&c, &mut ctx, &mut ds, &gs[p], (-1.0, 1.0)); }
            if k == 0 && bins.len() < len { bins.push((j, ds.get_nbins(6))); }
        }
    }, &|| format!("gradients {:?}, kind {}, sample {}, bits {}", pats, kind, frac, bits));
    bins.dedup_by_key(|b| b.1);
    cx.note("changes-of-thresholds", bins.len() as u64);
}

fn main() {
    mc::main(&[("pools", pools), ("replaced", replaced), ("failing", failing), ("iterations", iterations), ("trees", trees), ("nodes", nodes), ("python", python), ("loading", loading), ("linear", linear), ("updates", updates), ("contexts", contexts), ("library", library)]);
}
