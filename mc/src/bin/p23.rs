//! P23: the command line tool reports what the library computes.
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::{metrics_from_names, Metric};
use bitboost::objective::objective_from_name;
use mc::train::*;
use mc::*;
use std::process::{Command, Stdio};

struct Out { code: Option<i32>, text: String }

thread_local! { static AROUND: std::cell::RefCell<Vec<(&'static str, String)>> = std::cell::RefCell::new(vec![]); }

fn cli(args: &[String]) -> Out {
    let exe = std::env::var("MC_CLI").expect("MC_CLI");
    let mut c = Command::new(exe);
    c.args(args).env("RAYON_NUM_THREADS", "2").stdin(Stdio::null()).stderr(Stdio::null());
    AROUND.with(|a| for (k, v) in a.borrow().iter() { match *k { "cwd" => { c.current_dir(v); } _ => { c.env(k, v); } } });
    let o = c.output().expect("tool starts");
    Out { code: o.status.code(), text: String::from_utf8_lossy(&o.stdout).into_owned() }
}

fn tmp() -> String { std::env::var("MC_TMP").unwrap_or("/tmp".into()) }

#[derive(Default, PartialEq, Debug)]
struct Report { running: Vec<(String, String)>, summary: Vec<(String, String, Option<String>)>, train: Option<Vec<u32>>, test: Option<Vec<u32>> }

fn num(s: &str) -> String { s.trim().parse::<f32>().map(|x| format!("{:.4e}", x)).unwrap_or_else(|_| format!("?{}", s)) }

/// What the tool printed.
fn parse(text: &str) -> Report {
    let mut r = Report::default();
    let preds = |s: &str| -> Vec<u32> { if s.trim().is_empty() { vec![] } else { s.trim().split(',').map(|x| x.parse::<f32>().map(|v| v.to_bits()).unwrap_or(0x7fc0dead)).collect() } };
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("__PREDICTIONS_TRAIN__") { r.train = Some(preds(x)); }
        else if let Some(x) = l.strip_prefix("__PREDICTIONS_TEST__") { r.test = Some(preds(x)); }
        else if let Some(i) = l.find("] eval ") {
            let x = l[i + 7..].trim();
            let (name, rest) = match x.find(char::is_whitespace) { Some(k) => (x[..k].to_string(), x[k..].trim()), None => (x.to_string(), "") };
            if let Some(t) = rest.strip_prefix("train") {
                let (a, b) = match t.find("test") { Some(k) => (t[..k].trim_end_matches(|c: char| c == ',' || c.is_whitespace()), Some(num(&t[k + 4..]))), None => (t, None) };
                r.summary.push((name, num(a), b));
            } else { r.running.push((name, num(rest))); }
        }
    }
    r
}

/// What the library yields for the records of the command line.
fn expected(mode: &str, recs: &[String]) -> Option<Report> {
    let mut c = Config::parse(recs.iter().map(|s| s.as_str())).ok()?;
    objective_from_name(&c.objective)?;
    let ms = metrics_from_names(&c.metrics)?;
    let train = Data::from_csv_path(&c, &c.train).ok()?;
    let test = if c.test.is_empty() { None } else { Some(Data::from_csv_path(&c, &c.test).ok()?) };
    if mode == "tree" { c.niterations = 1; }
    let mut t = Tap::new(&c.objective);
    let (m, _) = boost(&c, &train, &mut t);
    let mut r = Report::default();
    if mode != "tree" {
        for k in 1..=t.log.len() {
            if c.metric_frequency > 0 && k % c.metric_frequency == 0 { for m in &ms { r.running.push((m.name().into(), format!("{:.4e}", m.eval(train.get_target(), &t.scores(k - 1))))); } }
        }
    }
    let p = m.predict(&train);
    let q = test.as_ref().map(|t| m.predict(t));
    if mode == "boost_and_predict_raw" {
        r.train = Some(bits(&p));
        r.test = q.map(|q| bits(&q));
    } else {
        for m in &ms { r.summary.push((m.name().into(), format!("{:.4e}", m.eval(train.get_target(), &p)), q.as_ref().map(|q| format!("{:.4e}", m.eval(test.as_ref().unwrap().get_target(), q))))); }
    }
    Some(r)
}

fn run(cx: &mut Cx, mode: &str, recs: Vec<String>) {
    cx.step();
    let mut args = vec![mode.to_string()];
    args.extend(recs.iter().cloned());
    let o = cli(&args);
    let got = parse(&o.text);
    let known = ["tree", "boost", "boost_and_predict_raw"].contains(&mode);
    let want = match cx.guard(|| if known { expected(mode, &recs) } else { None }) { Ok(w) => w, Err(e) => { cx.fail("panic", format!("{:?}: {}", args, e)); return; } };
    match want {
        Some(w) => {
            if !cx.check(o.code == Some(0), "exit-status", || format!("{:?}: {:?}", args, o.code)) { return; }
            cx.check(got.train == w.train, "train-predictions", || format!("{:?}: {:x?} instead of {:x?}", args, got.train, w.train));
            cx.check(got.test == w.test, "test-predictions", || format!("{:?}: {:x?} instead of {:x?}", args, got.test, w.test));
            cx.check(got.running == w.running, "running-metrics", || format!("{:?}: {:?} instead of {:?}", args, got.running, w.running));
            cx.check(got.summary == w.summary, "summary-metrics", || format!("{:?}: {:?} instead of {:?}", args, got.summary, w.summary));
            let mut h = H::new(23);
            for b in got.train.iter().flatten().chain(got.test.iter().flatten()) { h.u(*b as u64); }
            for (a, b) in &got.running { for x in a.bytes().chain(b.bytes()) { h.u(x as u64); } }
            for (a, b, _) in &got.summary { for x in a.bytes().chain(b.bytes()) { h.u(x as u64); } }
            let h = h.get();
            cx.state(h);
        }
        None => {
            cx.check(o.code.map_or(false, |c| c != 0), "error-status", || format!("{:?}: status {:?}", args, o.code));
            cx.check(got == Report::default(), "error-output", || format!("{:?}: printed {:?}", args, got));
        }
    }
}

fn bin(o: &str) -> bool { o == "binary" || o == "hinge" }

fn text(n: usize, ks: &[usize], o: &str, off: usize, header: bool, d: char) -> String {
    let mut s = String::new();
    if header { for j in 0..ks.len() { s += &format!("col{}{}", j, d); } s += "y\n"; }
    for i in 0..n {
        for &k in ks { s += &format!("{}{}", shaped(k, i + off, n + off).0, d); }
        let i = i + off;
        s += &format!("{}\n", if bin(o) { (i * 7 % 5 < 2) as u8 as f32 } else { (i * 13 % 8) as f32 * 0.5 - 1.0 });
    }
    s
}

fn files(n: usize, ks: &[usize], o: &str, header: bool, d: char) -> (String, String, String) {
    let (a, b) = (format!("{}/train.csv", tmp()), format!("{}/te=st.csv", tmp()));
    std::fs::write(&a, text(n, ks, o, 0, header, d)).unwrap();
    std::fs::write(&b, text(n / 2 + 1, ks, o, 3, header, d)).unwrap();
    let cats = (0..ks.len()).filter(|&j| shaped(ks[j], 0, n).1).map(|j| j.to_string()).collect::<Vec<_>>().join(",");
    (a, b, cats)
}

/// Settings of the tool one at a time (and in pairs in the thorough tier), all modes.
fn settings(cx: &mut Cx) {
    let mode = cx.pick(&["boost_and_predict_raw", "boost", "tree"]);
    let o = cx.pick(&OBJECTIVES);
    let data = cx.choose(3);
    let with_test = cx.flag();
    let mut left = if cx.thorough() { 3 } else { 2 };
    let b = &mut left;
    let mut extra: Vec<String> = vec![];
    const K: [&[&str]; 16] = [&["niterations=1", "niterations=9"], &["learning_rate=0.25", "learning_rate = 1e-1"], &["max_nbins=2", "max_nbins=40"], &["max_tree_depth=1", "max_tree_depth=5"], &["min_examples_leaf=3"],
        &["reg_lambda=2.5"], &["min_gain=0.5"], &["example_fraction=0.5"], &["feature_fraction=0.5"], &["sample_freq=2"], &["random_seed=99"], &["compression_threshold=0"],
        &["discr_nbits=8", "discr_nbits=1"], &["huber_alpha=0.5"], &["binary_gradient_bound=0.5"], &["metrics=rmse,l2", "metrics=binary_error"]];
    for k in K.iter() { let i = cx.dev(k.len() + 1, b); if i > 0 && !(o == "hinge" && k[i - 1].starts_with("discr")) { extra.push(k[i - 1].to_string()); } }
    if !cx.mine() { return; }
    let n = [5usize, 37, 90][data];
    let ks: &[usize] = [&[3usize, 1][..], &[4, 9, 0], &[10, 2, 8, 3]][data];
    let (a, t, cats) = files(n, ks, o, true, ',');
    let mut recs = vec![format!("train={}", a), format!("categorical_features={}", cats), format!("objective={}", o), "niterations=4".into(), "learning_rate=0.2".into(), "example_fraction=0.9".into()];
    if o == "hinge" { recs.push("discr_nbits=2".into()); }
    if with_test { recs.push(format!("test={}", t)); }
    recs.extend(extra);
    run(cx, mode, recs);
}

/// Environment variables, working directories and relative paths change nothing.
fn surroundings(cx: &mut Cx) {
    let mode = cx.pick(&["boost_and_predict_raw", "boost", "tree"]);
    let o = cx.pick(&OBJECTIVES);
    let level = cx.pick(&["", "off", "error", "warn", "info", "debug", "trace", "bitboost=debug", "bitboost::slice_store=warn", "nonsense,,=/"]);
    let threads = cx.pick(&["1", "2", "5", "0", "many"]);
    let relative = cx.flag();
    let locale = cx.flag();
    if !cx.mine() { return; }
    let (a, t, cats) = files(37, &[4, 9, 0], o, true, ',');
    let mut recs = vec![format!("categorical_features={}", cats), format!("objective={}", o), "niterations=4".into(), "learning_rate=0.2".into(), "example_fraction=0.8".into(), "metrics=l2".into(), format!("metric_frequency={}", (relative as usize) * 2)];
    if o == "hinge" { recs.push("discr_nbits=2".into()); }
    let mut around = vec![("RAYON_NUM_THREADS", threads.to_string())];
    if !level.is_empty() { around.push(("RUST_LOG", level.to_string())); }
    if locale { for k in ["LANG", "LC_ALL", "LC_NUMERIC"] { around.push((k, "de_DE.UTF-8".to_string())); } }
    recs.push(format!("train={}", a));
    recs.push(format!("test={}", t));
    if relative {
        // the library of this process reads the same files by their absolute names
        let want = cx.guard(|| expected(mode, &recs));
        let dir = std::path::Path::new(&a).parent().unwrap().to_str().unwrap().to_string();
        let name = |p: &str| std::path::Path::new(p).file_name().unwrap().to_str().unwrap().to_string();
        let n = recs.len();
        recs[n - 2] = format!("train={}", name(&a));
        recs[n - 1] = format!("test=./{}", name(&t));
        around.push(("cwd", dir));
        AROUND.with(|x| *x.borrow_mut() = around.clone());
        cx.step();
        let mut args = vec![mode.to_string()];
        args.extend(recs.iter().cloned());
        let got = cli(&args);
        AROUND.with(|x| x.borrow_mut().clear());
        let r = parse(&got.text);
        cx.check(got.code == Some(0) && want == Ok(Some(r)), "relative-paths", || format!("{:?} with {:?}: status {:?}, or another output than for absolute paths", args, around, got.code));
    } else {
        AROUND.with(|x| *x.borrow_mut() = around);
        run(cx, mode, recs);
        AROUND.with(|x| x.borrow_mut().clear());
    }
}

/// Metrics, their frequency and the number of iterations.
fn metrics(cx: &mut Cx) {
    let mode = cx.pick(&["boost", "boost_and_predict_raw", "tree"]);
    let o = cx.pick(&["l2", "binary"]);
    let ms = cx.pick(&["", "l2", "rmse", "binary_loss", "binary_error", "binaryError01", "l2,rmse", "rmse, l2 ,binaryerror", "L2,l2"]);
    let freq = cx.choose(5);
    let it = cx.pick(&[1usize, 2, 3, 5, 6]);
    let with_test = cx.flag();
    if !cx.mine() { return; }
    let (a, t, cats) = files(23, &[3, 1, 9], o, true, ',');
    let mut recs = vec![format!("metrics={}", ms), format!("metric_frequency={}", freq), format!("niterations={}", it), "learning_rate=0.3".to_string(), format!("objective={}", o), format!("train={}", a), format!("categorical_features={}", cats)];
    if with_test { recs.push(format!("test={}", t)); }
    run(cx, mode, recs);
}

/// Many iterations: the report stays complete.
fn iterations(cx: &mut Cx) {
    let mode = cx.pick(&["boost", "boost_and_predict_raw"]);
    let it = cx.pick(&[100usize, 255, 256, 257, 1001]);
    let freq = cx.pick(&[1usize, 9, 10, 128, 256, 1000]);
    let with_test = cx.flag();
    if !cx.mine() { return; }
    let (a, t, cats) = files(11, &[3, 1, 9], "l2", true, ',');
    let mut recs = vec!["metrics=l2,rmse".to_string(), format!("metric_frequency={}", freq), format!("niterations={}", it), "learning_rate=0.05".to_string(), format!("train={}", a), format!("categorical_features={}", cats)];
    if with_test { recs.push(format!("test={}", t)); }
    run(cx, mode, recs);
}

/// File formats and the spelling of the arguments.
fn formats(cx: &mut Cx) {
    let mode = cx.pick(&["boost_and_predict_raw", "boost"]);
    let header = cx.flag();
    let d = cx.pick(&[',', ';', ' ', '\t']);
    let style = cx.choose(5);
    if !cx.mine() { return; }
    let (a, t, cats) = files(20, &[3, 1, 9], "l2", header, d);
    let mut recs = vec![format!("train={}", a), format!("test={}", t), format!("csv_has_header={}", header), format!("csv_delimiter={}", d as u8), format!("categorical_features={}", cats), "niterations=3".into(), "learning_rate=0.5".into(), "metrics=l2".into()];
    match style {
        1 => for r in recs.iter_mut() { *r = format!(" {} ", r.replacen('=', " = ", 1)); },
        2 => recs.reverse(),
        3 => { recs.insert(0, "niterations=50".into()); recs.insert(0, "test=/nowhere".into()); recs.insert(0, "metrics=".into()); }
        4 => { recs.push("niterations=0".into()); recs.push("metrics=".into()); recs.push("test=".into()); }
        _ => {}
    }
    run(cx, mode, recs);
}

/// Many rows, and many features: everything is printed.
fn long(cx: &mut Cx) {
    let mode = cx.pick(&["boost_and_predict_raw", "boost", "tree"]);
    let n = cx.pick(&[255usize, 256, 257, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8191, 8193, 20_000, 40_001, 70_003]);
    let wide = cx.flag();
    let with_test = cx.flag();
    if !cx.mine() { return; }
    let ks: Vec<usize> = if wide { (0..60).map(|j| j % NSHAPES).collect() } else { vec![3, 1, 9] };
    if wide && n > 1100 { cx.discard(); return; }
    let (a, t, cats) = files(n, &ks, "l2", true, ',');
    let mut recs = vec![format!("train={}", a), format!("categorical_features={}", cats), "niterations=3".into(), "learning_rate=0.5".into(), "metrics=l2".into()];
    if with_test { recs.push(format!("test={}", t)); }
    run(cx, mode, recs);
}

/// One wrong argument or file at every place of an otherwise valid call.
fn errors(cx: &mut Cx) {
    let mode = cx.pick(&["boost_and_predict_raw", "boost", "tree", "predict", "Boost", "boos", ""]);
    let wrong = cx.choose(21);
    let place = cx.choose(4);
    if !cx.mine() { return; }
    let (a, t, cats) = files(12, &[3, 1, 9], "l2", true, ',');
    let mut recs = vec![format!("train={}", a), format!("test={}", t), format!("categorical_features={}", cats), "niterations=2".into()];
    let bad = format!("{}/bad.csv", tmp());
    let w: String = match wrong {
        0 => "niterations=3".into(), // nothing wrong
        1 => "niteration=3".into(),
        2 => "niterations".into(),
        3 => "niterations=x".into(),
        4 => "objective=l3".into(),
        5 => "objective=".into(),
        6 => "metrics=l2,nope".into(),
        7 => "metrics=nope".into(),
        8 => "csv_has_header=1".into(),
        9 => "csv_delimiter=,".into(),
        10 => "".into(),
        11 => "max_nbins=-1".into(),
        12 => "=".into(),
        13 => { std::fs::write(&bad, "a,b\n1,2\n1,x\n").unwrap(); format!("train={}", bad) }
        14 => { std::fs::write(&bad, "a,b\n1,2\n1\n").unwrap(); format!("test={}", bad) }
        15 => { std::fs::write(&bad, "a,b\n").unwrap(); format!("train={}", bad) }
        16 => { std::fs::write(&bad, "").unwrap(); format!("test={}", bad) }
        17 => format!("train={}/missing.csv", tmp()),
        18 => format!("test={}/missing.csv", tmp()),
        19 => format!("train={}", tmp()),
        _ => "train=".into(),
    };
    // files named twice: the last one counts
    let place = if w.starts_with("train=") || w.starts_with("test=") { 4 } else { place };
    recs.insert(place, w);
    run(cx, mode, recs);
    if place == 0 && wrong == 0 {
        let o = cli(&[]);
        cx.check(o.code.map_or(false, |c| c != 0) && parse(&o.text) == Report::default(), "no-mode", || format!("{:?}", o.code));
    }
}

/// The scores metrics are evaluated on, for every frequency and number of iterations.
fn calls(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let it = if cx.flag() { cx.pick(&[255usize, 256, 257, 300, 1030]) } else { cx.choose(8) };
    let freq = if it > 200 { cx.pick(&[0usize, 1, 2, 7, 64, 100, 255, 256, 257, 300, 1000, 70_000]) } else { cx.choose(10) };
    let sampled = cx.flag();
    let nm = 1 + cx.choose(2);
    if !cx.mine() { return; }
    let mut c = Config::new();
    c.objective = o.into();
    if o == "hinge" { c.discr_nbits = 2; }
    c.niterations = it;
    c.learning_rate = 0.2;
    c.metric_frequency = freq;
    if sampled { c.example_fraction = 0.6; }
    let n = 30;
    let case = Case { n, cols: vec![Col { vals: (0..n).map(|i| shaped(3, i, n).0).collect(), cat: false }, Col { vals: (0..n).map(|i| shaped(9, i, n).0).collect(), cat: true }], target: (0..n).map(|i| (i * 7 % 5 < 2) as u8 as f32).collect() };
    let data = case.data(&c);
    cx.step();
    let seen = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let ms: Vec<Box<dyn Metric>> = (0..nm).map(|_| Box::new(MetricTap { seen: seen.clone() }) as Box<dyn Metric>).collect();
    let mut t = Tap::new(o);
    let _ = Booster::new(&c, &data, &mut t, &ms).train();
    let mut want = vec![];
    for k in 1..=it { if freq > 0 && k % freq == 0 { for _ in 0..nm { want.push((bits(&case.target), t.log[k - 1].scores.clone())); } } }
    cx.check(*seen.borrow() == want, "metric-calls", || format!("{} {} iterations, frequency {}, {} metrics: {} evaluations instead of {}, or other scores", o, it, freq, nm, seen.borrow().len(), want.len()));
    let mut h = H::new(231);
    for (_, s) in seen.borrow().iter() { for b in s { h.u(*b as u64); } }
    let h = h.get();
    cx.state(h);
}

fn main() { mc::main(&[("calls", calls), ("errors", errors), ("formats", formats), ("iterations", iterations), ("long", long), ("metrics", metrics), ("settings", settings), ("surroundings", surroundings)]); }
