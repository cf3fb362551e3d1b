//! P25: a model is a function of data and configuration only.
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::objective::Objective;
use bitboost::tree::TreeLearnerContext;
use mc::on::on;
use mc::train::*;
use mc::*;

fn bin(o: &str) -> bool { o == "binary" || o == "hinge" }

fn make(o: &str, n: usize, ks: &[usize], seed: usize) -> Case {
    Case {
        n,
        cols: ks.iter().map(|&k| Col { vals: (0..n).map(|i| shaped(k, i + seed, n + seed).0).collect(), cat: shaped(k, 0, n).1 }).collect(),
        target: (0..n).map(|i| { let i = i + seed; if bin(o) { (i * 7 % 5 < 2) as u8 as f32 } else { (i * 13 % 8) as f32 - 3.0 + seed as f32 } }).collect(),
    }
}

#[derive(PartialEq, Clone)]
struct Res { log: Vec<IterLog>, pred: Vec<u32>, bias: u32, bounds: (u32, u32) }

fn train(c: &Config, case: &Case, t: &mut Tap) -> Res {
    let data = case.data(c);
    t.log.clear();
    let (m, _) = boost(c, &data, t);
    let b = t.bounds();
    Res { log: t.log.clone(), pred: bits(&m.predict(&data)), bias: t.bias().to_bits(), bounds: (b.0.to_bits(), b.1.to_bits()) }
}

fn differs(a: &Res, b: &Res) -> Option<String> {
    if a.bias != b.bias { return Some(format!("start value {} / {}", f32::from_bits(a.bias), f32::from_bits(b.bias))); }
    for i in 0..a.log.len().min(b.log.len()) {
        let (x, y) = (&a.log[i], &b.log[i]);
        if x.grads != y.grads { return Some(format!("gradients of iteration {}", i + 1)); }
        if x.leaves != y.leaves { return Some(format!("leaves of iteration {}", i + 1)); }
        if x != y { return Some(format!("scores of iteration {}", i + 1)); }
    }
    if a.log.len() != b.log.len() { return Some("number of iterations".into()); }
    if a.pred != b.pred { return Some("predictions".into()); }
    if a != b { return Some("gradient bounds".into()); }
    None
}

fn note_state(cx: &mut Cx, r: &Res) {
    let mut h = H::new(25);
    for b in &r.pred { h.u(*b as u64); }
    let h = h.get();
    cx.state(h);
}

/// Sequences of trainings, predictions and releases; each training must give what it gives alone.
fn history(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let depth = if cx.thorough() { 5 } else { 4 };
    let ops: Vec<usize> = (0..depth).map(|_| cx.choose(7)).collect();
    if !cx.mine() { return; }
    let mk = |k: usize| -> (Config, Case) {
        let mut c = Config::new();
        c.objective = o.into();
        c.learning_rate = 0.2;
        c.niterations = 3;
        if o == "hinge" { c.discr_nbits = 2; }
        match k {
            0 => (c, make(o, 40, &[3, 1, 9], 0)),
            1 => { c.example_fraction = 0.5; c.max_nbins = 3; c.random_seed = 9; (c, make(o, 70, &[4, 9, 2], 3)) }
            2 => { c.feature_fraction = 0.5; c.sample_freq = 2; c.example_fraction = 0.7; c.max_tree_depth = 2; (c, make(o, 9, &[0, 8, 10], 1)) }
            3 => { c.compression_threshold = 0.1; c.max_tree_depth = 5; if o != "hinge" { c.discr_nbits = 8; } (c, make(o, 600, &[3, 2, 1, 4], 2)) }
            _ => { c.huber_alpha = 0.5; c.binary_gradient_bound = 0.6; c.reg_lambda = 2.0; (c, make(o, 3, &[0], 5)) }
        }
    };
    let cases: Vec<(Config, Case)> = (0..5).map(mk).collect();
    let mut refs: Vec<Option<Res>> = vec![None; 5];
    for k in 0..5 { if ops.iter().any(|&x| x == k || x >= 5) { refs[k] = Some(train(&cases[k].0, &cases[k].1, &mut Tap::new(o))); } }
    // one objective is kept for the whole sequence (initialised again by every training)
    let mut kept = Tap::new(o);
    let mut last = 0;
    let datas: Vec<Data> = cases.iter().map(|(c, k)| k.data(c)).collect();
    for (i, &op) in ops.iter().enumerate() {
        cx.step();
        let (k, r) = match op {
            0..=4 => (op, train(&cases[op].0, &cases[op].1, &mut kept)),
            5 => {
                // interleave: a second training between two predictions of a first model
                let k = last;
                let mut t = Tap::new(o);
                let (m, _) = boost(&cases[k].0, &datas[k], &mut t);
                let a = bits(&m.predict(&datas[k]));
                let other = (k + 1) % 5;
                let _ = train(&cases[other].0, &cases[other].1, &mut Tap::new(o));
                let mut buf = vec![f32::NAN; cases[k].1.n];
                m.predict_buf(&datas[k], &mut buf);
                cx.check(bits(&buf) == a, "repeated-prediction", || format!("{} case {} in {:?}: second prediction differs", o, k, ops));
                let b = t.bounds();
                (k, Res { log: t.log.clone(), pred: a, bias: t.bias().to_bits(), bounds: (b.0.to_bits(), b.1.to_bits()) })
            }
            _ => {
                // leave memory with arbitrary contents behind
                let mut junk: Vec<Vec<u32>> = (0..20).map(|j| vec![0xdead0000 + (j * i) as u32; 1 << j.min(14)]).collect();
                junk.retain(|v| v.len() % 3 == 1);
                let k = (last + 2) % 5;
                drop(junk);
                (k, train(&cases[k].0, &cases[k].1, &mut Tap::new(o)))
            }
        };
        last = k;
        note_state(cx, &r);
        let d = differs(&r, refs[k].as_ref().unwrap());
        if !cx.check(d.is_none(), "history", || format!("{} case {} as step {} of {:?}: {}", o, k, i + 1, ops, d.unwrap())) { return; }
    }
}

/// An objective used before (other targets, settings, row counts) behaves like a new one.
fn objectives(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n1 = 1 + cx.choose(4);
    let n2 = 1 + cx.choose(4);
    let k = if bin(o) { 2 } else { 3 };
    let val = [0.0f32, 1.0, -3.5];
    let t1: Vec<f32> = (0..n1).map(|_| val[cx.choose(k)]).collect();
    let t2: Vec<f32> = (0..n2).map(|_| val[cx.choose(k)]).collect();
    let set = cx.choose(3);
    if !cx.mine() { return; }
    let mut c1 = Config::new();
    if o == "hinge" { c1.discr_nbits = 2; }
    c1.learning_rate = 0.9;
    c1.huber_alpha = 0.5;
    c1.binary_gradient_bound = 0.7;
    let mut c2 = Config::new();
    if o == "hinge" { c2.discr_nbits = 2; }
    c2.learning_rate = [0.1, 0.5, 1.0][set];
    c2.huber_alpha = [0.95, 0.3, 0.5][set];
    c2.binary_gradient_bound = [1.25, 0.2, 3.0][set];
    let drive = |x: &mut dyn Objective, c: &Config, t: &[f32], rounds: usize| -> Vec<u32> {
        let n = t.len();
        let mut out = vec![];
        x.initialize(c, t);
        for r in 0..rounds {
            x.update(t);
            out.push(x.bias().to_bits());
            out.push(x.bounds().0.to_bits());
            out.push(x.bounds().1.to_bits());
            out.extend(bits(x.gradients()));
            let a: Vec<usize> = (0..n).filter(|i| (i + r) % 2 == 0).collect();
            let b: Vec<usize> = (0..n).filter(|i| (i + r) % 2 == 1).collect();
            for l in [a, b] { if !l.is_empty() { out.push(x.predict_leaf_value(t, &l).to_bits()); } }
            x.update_out_of_bag_prediction(n - 1, 0.25);
            out.extend(bits(x.predictions()));
        }
        out
    };
    for rounds in 0..3 {
        cx.step();
        let mut used = obj(o);
        drive(&mut *used, &c1, &t1, rounds);
        let a = drive(&mut *used, &c2, &t2, 2);
        let b = drive(&mut *obj(o), &c2, &t2, 2);
        let mut h = H::new(253);
        for x in &b { h.u(*x as u64); }
        let h = h.get();
        cx.state(h);
        cx.check(a == b, "objective-reuse", || format!("{} after {:?} ({} rounds) on {:?} setting {}: {:x?} instead of {:x?}", o, t1, rounds, t2, set, a, b));
    }
}

/// Trees learned one after the other with the same resources equal trees learned with new ones.
fn contexts(cx: &mut Cx) {
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let n = cx.pick(&[5usize, 40, 300, 700]);
    let depth = 1 + cx.choose(4);
    let len = if cx.thorough() { 4 } else { 3 };
    let seq: Vec<usize> = (0..len).map(|_| cx.choose(5)).collect();
    if !cx.mine() { return; }
    for sampled in 0..3 {
        let mut c = base_config();
        c.discr_nbits = nbits;
        c.max_tree_depth = depth;
        c.compression_threshold = 0.3;
        if sampled == 1 { c.example_fraction = 0.5; c.feature_fraction = 0.6; }
        if sampled == 2 { c.example_fraction = 0.9; c.sample_freq = 2; }
        let case = make("l2", n, &[3, 1, 9, 2], 0);
        let data = case.data(&c);
        let mut ds = Dataset::new(&c, &data);
        let mut kept = TreeLearnerContext::new(&c, &data);
        for (i, &s) in seq.iter().enumerate() {
            cx.step();
            let g: Vec<f32> = (0..n).map(|j| match s { 0 => if j % 2 == 0 { 1.0 } else { -1.0 }, 1 => (j % 3) as f32 - 1.0, 2 => 0.0, 3 => if j < n / 3 { -1.0 } else { 0.5 }, _ => ((j * j) % 17) as f32 / 8.0 - 1.0 }).collect();
            ds.update(&c, &g, (-1.0, 1.0));
            let a = learn(&c, &mut kept, &mut ds, &g, (-1.0, 1.0));
            let mut fresh = TreeLearnerContext::new(&c, &data);
            let b = learn(&c, &mut fresh, &mut ds, &g, (-1.0, 1.0));
            let mut h = H::new(254);
            h.fs(&b.preds);
            let h = h.get();
            cx.state(h);
            let ok = a.leaves == b.leaves && same_bits(&a.preds, &b.preds) && a.oob == b.oob && same_bits(&a.tree.predict(&data), &b.tree.predict(&data));
            if !cx.check(ok, "context-reuse", || format!("n {} bits {} depth {} sampling {} sequence {:?}: tree {} with used resources has leaves {:?}, with new ones {:?}", n, nbits, depth, sampled, seq, i + 1,
                a.leaves.iter().map(|l| l.len()).collect::<Vec<_>>(), b.leaves.iter().map(|l| l.len()).collect::<Vec<_>>())) { return; }
        }
    }
}

/// Memory handed out with every one of several fill patterns.
fn memory(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n = cx.pick(&[1usize, 2, 9, 33, 130, 256, 300, 700, 2000, 20000]);
    let kind = cx.choose(4);
    let c = knobs(cx, o, 3, if n > 1000 { 0 } else { 1 });
    if !cx.mine() { return; }
    let ks: [usize; 3] = [[3, 1, 9], [4, 0, 2], [9, 7, 8], [2, 10, 6]][kind];
    let case = make(o, n, &ks, 0);
    mc::alloc::set_fill_limit(usize::MAX);
    let mut first: Option<Res> = None;
    for &f in &[0u8, 0xff, 0x7f, 0x55, 0x01] {
        cx.step();
        mc::alloc::set_fill(f);
        let r = cx.guard(|| train(&c, &case, &mut Tap::new(o)));
        mc::alloc::set_fill(0xd5);
        match (r, &first) {
            (Err(e), _) => { cx.fail("panic", format!("{} n {} columns {:?} memory filled with {:#x}: {}", show_config(&c), n, ks, f, e)); break; }
            (Ok(r), None) => { note_state(cx, &r); first = Some(r); }
            (Ok(r), Some(a)) => {
                let d = differs(&r, a);
                if !cx.check(d.is_none(), "memory", || format!("{} n {} columns {:?}: memory filled with {:#x} instead of 0: {}", show_config(&c), n, ks, f, d.unwrap())) { break; }
            }
        }
    }
    mc::alloc::set_fill_limit(8192);
}

/// Constant columns, wherever they are, and column names change nothing.
fn unused(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n = cx.pick(&[2usize, 7, 40]);
    let kind = cx.choose(4);
    let mask = cx.choose(15) + 1; // constant columns before position 0..3
    let cv = cx.choose(4);
    let mut c = knobs(cx, o, 3, 1);
    if !cx.mine() { return; }
    let ks: [usize; 3] = [[3, 1, 9], [4, 0, 2], [9, 7, 8], [2, 10, 1]][kind];
    let case = make(o, n, &ks, 0);
    let base = train(&c, &case, &mut Tap::new(o));
    let mut more = case.clone();
    more.cols.clear();
    for p in 0..4 {
        if mask >> p & 1 == 1 {
            let (v, cat) = [(0.0, false), (0.0, true), (-7.5, false), (5.0, true)][(cv + p) % 4];
            more.cols.push(Col { vals: vec![v; n], cat });
        }
        if p < 3 { more.cols.push(case.cols[p].clone()); }
    }
    cx.step();
    let r = train(&c, &more, &mut Tap::new(o));
    note_state(cx, &r);
    let d = differs(&r, &base);
    if !cx.check(d.is_none(), "constant-columns", || format!("{} n {} columns {:?}: with constant columns (mask {:b}, kind {}): {}", show_config(&c), n, ks, mask, cv, d.unwrap())) { return; }
    if cv == 0 {
        // the same data with three sets of names
        c.categorical_features = (0..more.cols.len()).filter(|&j| more.cols[j].cat).collect();
        for h in 0..3 {
            c.csv_has_header = h > 0;
            let m = more.cols.len();
            let head = match h { 0 => String::new(), 1 => (0..=m).map(|j| format!("c{}", j)).collect::<Vec<_>>().join(",") + "\n", _ => (0..=m).map(|j| format!("{}", m - j)).collect::<Vec<_>>().join(",") + "\n" };
            let data = Data::from_csv(&c, &(head + &more.csv())).expect("valid text");
            cx.step();
            let (model, _) = boost(&c, &data, &mut *obj(o));
            let p = bits(&model.predict(&data));
            cx.check(p == base.pred, "names", || format!("{} n {} columns {:?} header kind {}: predictions differ", show_config(&c), n, ks, h));
        }
    }
}

/// The same training twice, for all pairs of settings.
fn repeat(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let which = cx.choose(4);
    let c = knobs(cx, o, 3, if cx.thorough() { 3 } else { 2 });
    if !cx.mine() { return; }
    let n = [6, 40, 130, 300][which];
    let ks: [usize; 3] = [[3, 1, 9], [4, 0, 2], [9, 7, 8], [2, 10, 3]][which];
    let case = make(o, n, &ks, which);
    cx.steps(2);
    let a = train(&c, &case, &mut Tap::new(o));
    let b = train(&c, &case, &mut Tap::new(o));
    note_state(cx, &a);
    let d = differs(&a, &b);
    cx.check(d.is_none(), "repeat", || format!("{} n {} columns {:?}: {}", show_config(&c), n, ks, d.unwrap()));
    // and the model as a function of the rows does not depend on how many rows are predicted together
    let data = case.data(&c);
    let (m, _) = boost(&c, &data, &mut *obj(o));
    let all = m.predict(&data);
    for i in [0, n / 2, n - 1] {
        let one = Case { n: 1, cols: case.cols.iter().map(|k| Col { vals: vec![k.vals[i]], cat: k.cat }).collect(), target: vec![0.0] };
        let mut cc = Config::new();
        cc.max_nbins = 1 << 20; // low cardinality or not: the routing is that of the model
        let p = m.predict(&one.data(&c));
        // types of the columns of a single row can differ: only compare if they agree
        let d1 = one.data(&c);
        if (0..case.cols.len()).all(|j| d1.feat_type(j) == data.feat_type(j)) {
            cx.check(p[0].to_bits() == all[i].to_bits(), "single-row", || format!("{} n {} columns {:?}: row {} alone {} / {}", show_config(&c), n, ks, i, p[0], all[i]));
        }
    }
}

/// Trainings on different threads of the process, one after the other: each gives what it gives alone.
fn threads(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let kind = cx.choose(4);
    let set = cx.choose(4);
    let len = if cx.thorough() { 4 } else { 3 };
    let seq: Vec<(usize, usize)> = (0..len).map(|_| (cx.choose(2), cx.choose(4))).collect();
    if !cx.mine() { return; }
    let ks: [usize; 3] = [[3, 1, 9], [4, 0, 2], [9, 7, 8], [2, 10, 6]][kind];
    let mk = |k: usize| -> (Config, Case) {
        let mut c = Config::new();
        c.objective = o.into();
        if o == "hinge" { c.discr_nbits = 2; }
        c.niterations = 2 + k;
        c.learning_rate = 0.2;
        c.max_tree_depth = 3;
        match set { 0 => {} 1 => { c.example_fraction = 0.5; c.feature_fraction = 0.7; c.random_seed = 7 + k as u64; } 2 => { c.max_nbins = 3; c.compression_threshold = 0.2; } _ => { c.sample_freq = 2; c.example_fraction = 0.8; c.max_nbins = 5; } }
        let n = if k == 0 { 40 } else { 300 };
        (c, make(o, n, &ks, k))
    };
    let mut first: [Option<Res>; 2] = [None, None];
    for &(k, at) in &seq {
        cx.step();
        let (c, case) = mk(k);
        let r = cx.guard(|| on(at, || train(&c, &case, &mut Tap::new(o))));
        match r {
            Err(e) => { cx.fail("panic", format!("{} columns {:?} trainings and threads {:?}: {}", show_config(&c), ks, seq, e)); return; }
            Ok(r) => {
                note_state(cx, &r);
                match &first[k] {
                    None => first[k] = Some(r),
                    Some(a) => { let d = differs(&r, a); if !cx.check(d.is_none(), "threads", || format!("{} columns {:?} trainings and threads {:?}: {}", show_config(&c), ks, seq, d.unwrap())) { return; } }
                }
            }
        }
    }
}

/// Formats every message and drops it.
struct Listener;
static MESSAGES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(r.args().to_string());
        MESSAGES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    fn flush(&self) {}
}
static LISTENER: Listener = Listener;

/// Whether somebody listens to the messages of the library, and to which, changes nothing.
fn logged(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n = cx.pick(&[1usize, 2, 9, 40, 130, 300, 700]);
    let kind = cx.choose(5);
    let c = knobs(cx, o, 4, if cx.thorough() { 2 } else { 1 });
    if !cx.mine() { return; }
    let ks: [usize; 3] = [[3, 1, 9], [4, 0, 2], [9, 7, 8], [2, 10, 6], [1, 1, 1]][kind];
    let case = make(o, n, &ks, kind);
    let _ = log::set_logger(&LISTENER);
    let levels = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace];
    let mut first: Option<Res> = None;
    for l in levels {
        cx.step();
        let before = MESSAGES.load(std::sync::atomic::Ordering::Relaxed);
        log::set_max_level(l);
        let r = cx.guard(|| train(&c, &case, &mut Tap::new(o)));
        log::set_max_level(log::LevelFilter::Off);
        cx.note("messages", MESSAGES.load(std::sync::atomic::Ordering::Relaxed) - before);
        match (r, &first) {
            (Err(e), _) => { cx.fail("panic-while-logging", format!("{} n {} columns {:?} messages of level {}: {}", show_config(&c), n, ks, l, e)); break; }
            (Ok(r), None) => { note_state(cx, &r); first = Some(r); }
            (Ok(r), Some(a)) => {
                let d = differs(&r, a);
                if !cx.check(d.is_none(), "logging", || format!("{} n {} columns {:?}: messages of level {} are listened to: {}", show_config(&c), n, ks, l, d.unwrap())) { break; }
            }
        }
    }
}

fn main() { mc::main(&[("logged", logged), ("threads", threads), ("objectives", objectives), ("contexts", contexts), ("history", history), ("memory", memory), ("unused", unused), ("repeat", repeat)]); }
