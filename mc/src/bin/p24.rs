//! P24: the Python package hands data, settings and results over unchanged.
use bitboost::config::Config;
use bitboost::data::Data;
use mc::py::*;
use mc::train::*;
use mc::*;

struct Table { n: usize, cols: Vec<Vec<f32>>, y: Vec<f32> }

impl Table {
    fn mat(&self) -> String { format!("mat({},{})", self.n, words(&self.cols.iter().flatten().cloned().collect::<Vec<_>>())) }
    fn vec(&self) -> String { format!("f32({})", words(&self.y)) }
    fn data(&self, c: &Config, cats: &[usize]) -> Data {
        let m = self.cols.len();
        let mut d = Data::empty(c, m, self.n);
        for (j, v) in self.cols.iter().enumerate() { d.set_feature_data(j, v, cats.contains(&j)).expect("valid column"); }
        d.set_feature_data(m, &self.y, false).expect("valid target");
        d
    }
}

fn config(recs: &[(&str, String)]) -> Option<Config> {
    let mut c = Config::new();
    for (n, v) in recs { if c.parse_record(n, v).is_err() { return None; } }
    Some(c)
}

/// Predictions of the library for rows of `test` (all columns plain numbers, as the package passes them).
fn native(recs: &[(&str, String)], train: &Table, cats: &[usize], tests: &[&Table]) -> Option<Vec<Vec<u32>>> {
    let c = config(recs)?;
    let o = bitboost::objective::objective_from_name(&c.objective);
    let ms = bitboost::metric::metrics_from_names(&c.metrics);
    let (mut o, _) = match (o, ms) { (Some(o), Some(m)) => (o, m), _ => return None };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (m, _) = boost(&c, &train.data(&c, cats), &mut *o);
        tests.iter().map(|t| bits(&m.predict(&t.data(&c, &[])))).collect()
    }));
    r.ok()
}

fn tri(n: usize, off: usize, kinds: &[usize], bin: bool) -> Table {
    Table { n, cols: kinds.iter().map(|&k| (0..n).map(|i| shaped(k, i + off, n + off).0).collect()).collect(),
            y: (0..n).map(|i| { let i = i + off; if bin { (i * i % 7 < 3) as u8 as f32 } else { (i * 13 % 8) as f32 - 3.0 } }).collect() }
}

fn expect(cx: &mut Cx, key: &str, got: &Ans, want: &Option<Vec<u32>>, what: &dyn Fn() -> String) {
    cx.note(&format!("{}-{}", key, if want.is_some() { "predictions" } else { "refused" }), 1);
    match (got, want) {
        (Ans::Ok(g), Some(w)) => {
            let mut h = H::new(24);
            for b in g { h.u(*b as u64); }
            let h = h.get();
            cx.state(h);
            cx.check(g == w, key, || format!("{}: {:x?} instead of {:x?}", what(), &g[..g.len().min(8)], &w[..w.len().min(8)]));
        }
        (Ans::Exc(_), None) => { cx.check(true, key, String::new); }
        (g, w) => cx.fail(key, format!("{}: {:?}, the library gives {}", what(), g, w.as_ref().map_or("an error".to_string(), |w| format!("{} predictions", w.len())))),
    }
}

const LAYOUTS: [&str; 10] = ["C", "F", "strided", "reversed", "mirrored", "readonly", "unaligned", "swapped", "list", "float64"];

/// Every kind of array for X, y and the categorical set through the estimators.
fn arrays(cx: &mut Cx) {
    let class = cx.pick(&["BitBoostRegressor", "BitBoostClassifier", "BitBoost"]);
    let xl = cx.choose(LAYOUTS.len() + 7);
    let yl = cx.choose(LAYOUTS.len() + 4);
    let pl = cx.choose(if cx.thorough() { LAYOUTS.len() } else { 4 });
    let cat = cx.choose(6);
    let n = cx.pick(&[1usize, 2, 13, 70]);
    if !cx.mine() { return; }
    let ints = xl >= LAYOUTS.len();
    let kinds: &[usize] = if ints { &[8, 1, 0] } else { &[3, 1, 8] };
    let (tr, te) = (tri(n, 0, kinds, true), tri(n / 2 + 1, 3, kinds, true));
    let cats: &[usize] = [&[][..], &[1], &[1, 2], &[2, 1], &[1], &[1, 2]][cat];
    let cl = ["[]", "[1]", "(1, 2)", "np.array([2, 1])", "{1}", "frozenset([1, 2])"][cat];
    let x = if ints { ["int64", "int32", "int16", "uint8", "float16", "bool_from", "uint64"][xl - LAYOUTS.len()] } else { LAYOUTS[xl] };
    let xe = match x {
        "bool_from" => "layout(mat_, 'float32')".to_string(),
        "float64" => "(mat_.astype('float64') * (1 + 1e-9))".to_string(), // rounds to the same floats
        k => format!("layout(mat_, '{}')", k),
    };
    let ye = if yl < LAYOUTS.len() { format!("layout(y_, '{}')", LAYOUTS[yl]) } else { ["y_.astype('int64')", "y_.astype('bool')", "layout(y_.astype('float64'), 'strided')", "y_.reshape(-1, 1)"][yl - LAYOUTS.len()].to_string() };
    let prog = format!("mat_ = {}\ny_ = {}\nX = {}\ny = {}\nkeep = np.array(X, dtype='float64')\nm = bb.{}(niterations=3, learning_rate=0.5, categorical_features={})\nm.fit(X, y)\np_ = {}\nresult = m.predict(layout(p_, '{}'))\nif not np.array_equal(keep, np.array(X, dtype='float64')): result = 'input changed'",
        tr.mat(), tr.vec(), xe, ye, class, cl, te.mat(), LAYOUTS[pl]);
    cx.steps(2);
    let cs = cats.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
    let want = cx.guard(|| native(&[("niterations", "3".into()), ("learning_rate", "0.5".into()), ("categorical_features", cs)], &tr, cats, &[&te]).map(|v| v[0].clone())).unwrap_or(None);
    let got = py(&prog);
    expect(cx, "arrays", &got, &want, &|| format!("{} n {} X {} y {} predict {} categorical {}", class, n, x, ye, LAYOUTS[pl], cl));
}

/// (constructor text, records it stands for)
const PARAMS: [(&str, &str, &str); 62] = [
    ("objective", "'l1'", "l1"), ("objective", "'L2'", "L2"), ("objective", "'huber'", "huber"), ("objective", "'binary'", "binary"), ("objective", "'nope'", "nope"), ("objective", "''", ""),
    ("metrics", "['l2', 'rmse']", "l2,rmse"), ("metrics", "'l2'", "l2"), ("metrics", "[]", ""), ("metrics", "('binary_error',)", "binary_error"), ("metrics", "['zzz']", "zzz"),
    ("metric_frequency", "0", "0"), ("metric_frequency", "2", "2"), ("metric_frequency", "-1", "-1"), ("niterations", "1", "1"), ("niterations", "np.int64(7)", "7"), ("niterations", "'4'", "4"), ("niterations", "2.5", "2.5"), ("niterations", "None", "None"),
    ("learning_rate", "0.25", "0.25"), ("learning_rate", "np.float32(0.75)", "0.75"), ("learning_rate", "np.float64(0.1)", "0.1"), ("learning_rate", "1", "1"), ("learning_rate", "'x'", "x"), ("learning_rate", "1e-5", "1e-05"),
    ("reg_lambda", "10", "10"), ("reg_lambda", "0.5", "0.5"), ("min_examples_leaf", "4", "4"), ("min_examples_leaf", "-4", "-4"), ("min_examples_leaf", "2**40", "1099511627776"),
    ("min_gain", "5.0", "5"), ("min_gain", "1e-9", "1e-09"), ("min_gain", "0", "0"), ("huber_alpha", "0.5", "0.5"), ("max_nbins", "2", "2"), ("max_nbins", "np.uint8(5)", "5"), ("max_nbins", "True", "True"),
    ("discr_nbits", "8", "8"), ("discr_nbits", "1", "1"), ("discr_nbits", "3", "3"), ("max_tree_depth", "1", "1"), ("max_tree_depth", "2", "2"), ("max_tree_depth", "[2]", "[2]"),
    ("compression_threshold", "0.0", "0"), ("compression_threshold", "0.9", "0.9"), ("binary_gradient_bound", "0.5", "0.5"), ("random_seed", "7", "7"), ("random_seed", "2**63", "9223372036854775808"), ("random_seed", "2**64", "18446744073709551616"), ("random_seed", "np.uint64(12345678901234567890)", "12345678901234567890"),
    ("feature_fraction", "0.5", "0.5"), ("feature_fraction", "0.34", "0.34"), ("example_fraction", "0.5", "0.5"), ("example_fraction", "np.float32(0.25)", "0.25"), ("sample_freq", "2", "2"), ("sample_freq", "3", "3"),
    ("categorical_features", "[0, 2]", "0,2"), ("categorical_features", "range(3)", "0,1,2"), ("categorical_features", "{2}", "2"), ("categorical_features", "[]", ""), ("categorical_features", "np.array([0])", "0"), ("niterations", "0", "0"),
];

/// Every parameter and value, alone and in pairs, through the constructor, set_params and the raw class.
fn params(cx: &mut Cx) {
    let a = cx.choose(PARAMS.len());
    let b = cx.choose(PARAMS.len());
    let route = cx.choose(4);
    if !cx.mine() { return; }
    if a > b || (PARAMS[a].0 == PARAMS[b].0 && a != b) { cx.discard(); return; }
    let bin = PARAMS[a].1 == "'binary'" || PARAMS[b].1 == "'binary'";
    let (tr, te) = (tri(60, 0, &[1, 4, 8], bin), tri(11, 5, &[1, 4, 8], bin));
    let mut given: Vec<(&str, &str, &str)> = vec![("niterations", "3", "3"), ("learning_rate", "0.5", "0.5"), ("example_fraction", "0.8", "0.8")];
    for p in [PARAMS[a], PARAMS[b]] { given.retain(|g| g.0 != p.0); given.push(p); }
    let recs: Vec<(&str, String)> = given.iter().map(|g| (g.0, g.2.to_string())).collect();
    let cats: Vec<usize> = given.iter().filter(|g| g.0 == "categorical_features").flat_map(|g| g.2.split(',').filter_map(|x| x.parse().ok()).collect::<Vec<usize>>()).collect();
    let kw = given.iter().map(|g| format!("{}={}", g.0, g.1)).collect::<Vec<_>>().join(", ");
    let cls = ["BitBoostRegressor", "BitBoostClassifier"][a % 2];
    let (x, y, t) = (tr.mat(), tr.vec(), te.mat());
    let prog = match route {
        0 => format!("m = bb.{}({})\nresult = m.fit({}, {}).predict({})", cls, kw, x, y, t),
        1 => format!("m = bb.{}()\nm.set_params({})\nm = type(m)(**m.get_params())\nm.fit({}, {})\nresult = m.predict({})", cls, kw, x, y, t),
        2 => format!("cf = dict({}).get('categorical_features', set())\nm = Raw(3, 60)\nm.set_config(dict({}))\nm.set_data({}, cf)\nm.set_target({})\nm.train()\nm.set_data({})\nresult = m.predict()", kw, kw, x, y, t),
        _ => format!("kw = dict({})\nm = Raw(3, 1)\nfor k in reversed(list(kw)): m.set_config_field(k, kw[k])\ncf = kw.get('categorical_features', ())\nX = {}\nm.set_data(X)\nfor j in (2, 0, 1): m.set_feature_data(j, X[:, j], j in cf)\nm.set_target({})\nm.train()\nm.set_data({})\nresult = m.predict()\nm.dealloc()", kw, x, y, t),
    };
    cx.steps(2);
    let want = cx.guard(|| native(&recs, &tr, &cats, &[&te]).map(|v| v[0].clone())).unwrap_or(None);
    let got = py(&prog);
    expect(cx, "params", &got, &want, &|| format!("route {} {}", route, kw));
}

/// Numeric settings of many digits, on targets small enough for the last of them to matter.
fn digits(cx: &mut Cx) {
    const NAMES: [&str; 8] = ["learning_rate", "reg_lambda", "min_gain", "huber_alpha", "compression_threshold", "binary_gradient_bound", "feature_fraction", "example_fraction"];
    const VALS: [(&str, &str); 14] = [("1/3", "0.3333333333333333"), ("0.123456789", "0.123456789"), ("1e-7", "1e-07"), ("2.5e-9", "2.5e-09"), ("0.99999994", "0.99999994"), ("np.float32(1)/np.float32(3)", "0.33333334"),
        ("np.float64(0.7000000001)", "0.7000000001"), ("1e-12", "1e-12"), ("0.5000001", "0.5000001"), ("'0.10000001'", "0.10000001"), ("5e-5", "5e-05"), ("0.0001234567", "0.0001234567"), ("np.float16(0.1)", "0.1"), ("1e-3", "0.001")];
    let name = cx.pick(&NAMES);
    let (v, s) = cx.pick(&VALS);
    let scale = cx.pick(&[1.0f32, 1e-3, 3e-5]);
    let o = cx.pick(&["l2", "huber", "binary"]);
    let route = cx.choose(3);
    if !cx.mine() { return; }
    let (mut tr, te) = (tri(60, 0, &[1, 4, 8], o == "binary"), tri(11, 5, &[1, 4, 8], o == "binary"));
    if o != "binary" { for y in tr.y.iter_mut() { *y *= scale; } } else if scale != 1.0 { cx.discard(); return; }
    let mut given: Vec<(&str, String, String)> = [("niterations", "3"), ("learning_rate", "0.5")].iter().map(|g| (g.0, g.1.to_string(), g.1.to_string())).collect();
    given.push(("objective", format!("'{}'", o), o.to_string()));
    given.retain(|g| g.0 != name);
    given.push((name, v.to_string(), s.to_string()));
    let recs: Vec<(&str, String)> = given.iter().map(|g| (g.0, g.2.clone())).collect();
    let kw = given.iter().map(|g| format!("{}={}", g.0, g.1)).collect::<Vec<_>>().join(", ");
    let (x, y, t) = (tr.mat(), tr.vec(), te.mat());
    let prog = match route {
        0 => format!("m = bb.BitBoostRegressor({})\nresult = m.fit({}, {}).predict({})", kw, x, y, t),
        1 => format!("m = bb.BitBoostClassifier()\nm.set_params({})\nm.fit({}, {})\nresult = m.predict({})", kw, x, y, t),
        _ => format!("kw = dict({})\nm = Raw(3, 60)\nfor k in kw: m.set_config_field(k, kw[k])\nm.set_data({})\nm.set_target({})\nm.train()\nm.set_data({})\nresult = m.predict()", kw, x, y, t),
    };
    cx.steps(2);
    let want = cx.guard(|| native(&recs, &tr, &[], &[&te]).map(|v| v[0].clone())).unwrap_or(None);
    let got = py(&prog);
    expect(cx, "digits", &got, &want, &|| format!("route {} {} target scale {}", route, kw, scale));
}

/// Names and defaults of the constructor.
fn signature(cx: &mut Cx) {
    let class = cx.pick(&["BitBoostRegressor", "BitBoostClassifier", "BitBoost"]);
    if !cx.mine() { return; }
    const D: [(&str, &str); 20] = [("binary_gradient_bound", "1.25"), ("categorical_features", "[]"), ("compression_threshold", "0.5"), ("discr_nbits", "4"), ("example_fraction", "1"), ("feature_fraction", "1"), ("huber_alpha", "0.95"), ("learning_rate", "1"),
        ("max_nbins", "16"), ("max_tree_depth", "6"), ("metric_frequency", "1"), ("metrics", "[]"), ("min_examples_leaf", "1"), ("min_gain", "1e-06"), ("niterations", "100"), ("objective", "'L2'"), ("random_seed", "1"), ("reg_lambda", "0"), ("sample_freq", "1"), ("", "")];
    let want = D.iter().filter(|d| !d.0.is_empty()).map(|d| format!("{}={}", d.0, d.1)).collect::<Vec<_>>().join(";");
    cx.step();
    let a = py(&format!("m = bb.{}()\np = m.get_params()\nresult = ';'.join('%s=%r' % (k, int(p[k]) if isinstance(p[k], float) and p[k] == int(p[k]) else p[k]) for k in sorted(p))", class));
    cx.check(a == Ans::Text(want.clone()), "signature", || format!("{}: {:?} instead of {}", class, a, want));
    // defaults are those of the library
    let (tr, te) = (tri(30, 0, &[1, 4, 8], false), tri(7, 2, &[1, 4, 8], false));
    let a = py(&format!("result = bb.{}().fit({}, {}).predict({})", class, tr.mat(), tr.vec(), te.mat()));
    let want = native(&[], &tr, &[], &[&te]).map(|v| v[0].clone());
    expect(cx, "defaults", &a, &want, &|| class.to_string());
}

/// Histories of two estimators.
fn estimators(cx: &mut Cx) {
    let ops: Vec<usize> = (0..if cx.thorough() { 5 } else { 4 }).map(|_| cx.choose(14)).collect();
    if !cx.mine() { return; }
    let t: Vec<Table> = vec![tri(20, 0, &[1, 4], true), tri(9, 4, &[3, 8, 0], true), tri(5, 2, &[1, 4], true), tri(31, 1, &[3, 8, 0], true)];
    let vals = |k: usize| format!("X = {}\ny = {}", t[k].mat(), t[k].vec());
    // the model an estimator has, and whether its last training failed: it then has the model of
    // before or none
    #[derive(Clone)]
    enum St { New, Fit(usize, Vec<(&'static str, String)>, bool) }
    let mut st = [St::New, St::New];
    let mut extra: [Vec<(&'static str, String)>; 2] = [vec![], vec![("objective", "l1".into())]];
    let a0 = py("objs.clear()\nobjs[0] = bb.BitBoostRegressor(niterations=2, learning_rate=0.5)\nobjs[1] = bb.BitBoostClassifier(niterations=2, learning_rate=0.5, objective='l1')");
    if !cx.check(a0 == Ans::Ok(vec![]), "construct", || format!("{:?}", a0)) { return; }
    for (i, &op) in ops.iter().enumerate() {
        let (s, o) = (op % 2, op / 2);
        cx.step();
        let recs = |s: usize, extra: &[Vec<(&'static str, String)>; 2]| { let mut r: Vec<(&'static str, String)> = vec![("niterations", "2".into()), ("learning_rate", "0.5".into())]; r.extend(extra[s].iter().cloned()); r };
        let what = || format!("history {:?} step {}", ops, i + 1);
        match o {
            0 | 1 => { // fit
                let bad = extra[s].iter().any(|e| e.1 == "nope");
                let a = py(&format!("{}\nobjs[{}].fit(X, y)", vals(o), s));
                if bad { cx.check(matches!(a, Ans::Exc(_)), "fit", || format!("{}: {:?}", what(), a)); if let St::Fit(_, _, failed) = &mut st[s] { *failed = true; } }
                else { cx.check(a == Ans::Ok(vec![]), "fit", || format!("{}: {:?}", what(), a)); st[s] = St::Fit(o, recs(s, &extra), false); }
            }
            2..=4 => { // predict
                let k = [2, 3, 0][o - 2];
                let a = py(&format!("{}\nresult = objs[{}].predict(X)", vals(k), s));
                if let (St::Fit(_, _, true), Ans::Exc(_)) = (&st[s], &a) { continue; }
                let want = match &st[s] { St::Fit(f, r, _) if t[*f].cols.len() == t[k].cols.len() => native(r, &t[*f], &[], &[&t[k]]).map(|v| v[0].clone()), _ => None };
                expect(cx, "estimator", &a, &want, &what);
            }
            5 => { // change a parameter
                let bad = extra[s].iter().any(|e| e.1 == "nope");
                let v = if bad { "huber" } else { "nope" };
                let a = py(&format!("objs[{}].set_params(objective='{}')", s, v));
                cx.check(a == Ans::Ok(vec![]), "set-params", || format!("{}: {:?}", what(), a));
                extra[s] = vec![("objective", v.into())];
            }
            _ => { // rejected input
                let a = py(&format!("{}\nobjs[{}].fit(X, y[1:])", vals(0), s));
                cx.check(matches!(a, Ans::Exc(_)), "bad-input", || format!("{}: {:?}", what(), a));
            }
        }
        if cx.failed() { return; }
    }
}

/// Histories of two raw objects, calls that must be refused included.
fn raw(cx: &mut Cx) {
    let start = cx.choose(3);
    let ops: Vec<usize> = (0..if cx.thorough() { 4 } else { 3 }).map(|_| cx.choose(20)).collect();
    if !cx.mine() { return; }
    let t = [tri(20, 0, &[1, 4], true), tri(7, 4, &[1, 4], true)];
    #[derive(Clone, Default)]
    struct R { recs: Vec<(&'static str, String)>, rows: Option<usize>, cols: Vec<(Vec<f32>, bool)>, model: Option<std::rc::Rc<bitboost::tree::AdditiveTree>>, gone: bool }
    let mut rs: [R; 2] = Default::default();
    let a0 = py("objs.clear()\nobjs[0] = Raw(2, 20)\nobjs[1] = Raw(2, 1)");
    if !cx.check(a0 == Ans::Ok(vec![]), "construct", || format!("{:?}", a0)) { return; }
    let data = |r: &R| -> Data {
        let c = config(&r.recs).unwrap();
        let mut d = Data::empty(&c, 2, r.rows.unwrap());
        for (j, (v, cat)) in r.cols.iter().enumerate() { d.set_feature_data(j, v, *cat).unwrap(); }
        d
    };
    let pre: &[usize] = [&[][..], &[0, 6, 14], &[0, 6, 14, 16]][start];
    let seq: Vec<usize> = pre.iter().cloned().chain(ops.iter().cloned()).collect();
    for (i, &op) in seq.iter().enumerate() {
        let (s, o) = (op % 2, op / 2);
        cx.step();
        let r = &mut rs[s];
        let (prog, legal): (String, bool) = match o {
            0 => { let ok = r.rows.is_none() && !r.gone; if ok { r.recs.push(("niterations", "3".into())); } (format!("objs[{}].set_config_field('niterations', 3)", s), ok) }
            1 => { let ok = r.rows.is_none() && !r.gone; if ok { r.recs.push(("objective", "l1".into())); } (format!("objs[{}].set_config({{'objective': 'l1'}})", s), ok) }
            2 => (format!("objs[{}].set_config_field({})", s, ["'learning_rate', 'q'", "'unknown', 1"][i % 2]), false),
            3 | 4 => {
                let k = o - 3;
                let ok = !r.gone;
                if ok { r.rows = Some(t[k].n); r.cols = t[k].cols.iter().enumerate().map(|(j, c)| (c.clone(), j == 0)).collect(); r.cols.push((vec![0.0; t[k].n], false)); }
                (format!("objs[{}].set_data(layout({}, '{}'), {{0}})", s, t[k].mat(), ["F", "strided"][k]), ok)
            }
            5 => (format!("X = {}\nobjs[{}].set_data({})", t[0].mat(), s, ["X.astype('float64')", "X[:, :1]", "X[:, 0]", "X.tolist()"][(i + s) % 4]), false),
            6 => { // a category that does not exist: the column keeps its zeros
                let ok = false;
                if !r.gone { r.rows = Some(t[0].n); r.cols = vec![(t[0].cols[0].clone(), false), (vec![0.0; t[0].n], false), (vec![0.0; t[0].n], false)]; }
                (format!("objs[{}].set_data({}, [1])", s, t[0].mat()), ok)
            }
            7 => {
                let ok = !r.gone && r.rows == Some(t[0].n);
                if ok { r.cols[2] = (t[0].y.clone(), false); }
                (format!("objs[{}].set_target({})", s, t[0].vec()), ok)
            }
            8 => {
                let c = config(&r.recs).unwrap();
                let ok = !r.gone && r.rows.is_some();
                if ok { let mut o = obj(&c.objective); r.model = Some(std::rc::Rc::new(boost(&c, &data(r), &mut *o).0)); }
                (format!("objs[{}].train()", s), ok)
            }
            _ => {
                let gone = i % 5 == 4 && !r.gone;
                if gone { r.gone = true; (format!("objs[{}].dealloc()", s), true) } else { ("".into(), true) }
            }
        };
        let what = |p: &str| format!("operations {:?} step {} ({})", seq, i + 1, &p[..p.len().min(60)]);
        if !prog.is_empty() {
            let a = py(&prog);
            let ok = if legal { a == Ans::Ok(vec![]) } else { matches!(a, Ans::Exc(_)) };
            if !cx.check(ok, "raw-call", || format!("{}: {:?}", what(&prog), a)) { return; }
        }
        let r = &rs[s];
        let a = py(&format!("result = objs[{}].predict()", s));
        let want = if r.gone || r.rows.is_none() { None } else { r.model.as_ref().map(|m| bits(&m.predict(&data(r)))) };
        expect(cx, "raw-predict", &a, &want, &|| what("predict"));
        if cx.failed() { return; }
    }
    let _ = py("objs.clear()");
}

/// Histories in which the caller reuses and changes its own arrays and lists: what counts is what
/// they hold when they are handed over.
fn shared(cx: &mut Cx) {
    let depth = if cx.thorough() { 5 } else { 4 };
    let order = cx.pick(&["C", "F"]);
    let start: &[usize] = [&[][..], &[1], &[3, 4]][cx.choose(3)];
    let ops: Vec<usize> = start.iter().cloned().chain((0..depth).map(|_| cx.choose(9))).collect();
    if !cx.mine() { return; }
    if !ops.iter().any(|o| matches!(o, 2 | 5 | 8)) { cx.discard(); return; }
    let t = [tri(20, 0, &[1, 4], false), tri(20, 3, &[1, 8], false), tri(20, 7, &[1, 0], false)];
    let recs: Vec<(&'static str, String)> = vec![("niterations", "2".into()), ("learning_rate", "0.5".into())];
    let c = config(&recs).unwrap();
    let a0 = py(&format!("objs.clear()\nobjs[3] = np.array({}, order='{}')\nobjs[4] = np.array({})\nobjs[5] = [0]\nobjs[0] = bb.BitBoostRegressor(niterations=2, learning_rate=0.5, categorical_features=objs[5])\nobjs[1] = Raw(2, 20)\nobjs[1].set_config(dict(niterations=2, learning_rate=0.5))\nobjs[6] = dict(niterations=2)", t[0].mat(), order, t[0].vec()));
    if !cx.check(a0 == Ans::Ok(vec![]), "construct", || format!("{:?}", a0)) { return; }
    let (mut x, mut y, mut cats) = (0, 0, vec![0usize]);
    let mut est: Option<(usize, usize, Vec<usize>)> = None;
    let mut raw: Option<(usize, usize, Vec<usize>)> = None; // what the raw object's data set was filled with
    let mut model: Option<(usize, usize, Vec<usize>)> = None;
    let preds = |m: &(usize, usize, Vec<usize>), xs: usize, pcats: &[usize]| -> Option<Vec<u32>> {
        let tr = Table { n: 20, cols: t[m.0].cols.clone(), y: t[m.1].y.clone() };
        let (m, _) = boost(&c, &tr.data(&c, &m.2), &mut *obj("l2"));
        Some(bits(&m.predict(&t[xs].data(&c, pcats))))
    };
    for (i, &op) in ops.iter().enumerate() {
        cx.step();
        let what = || format!("{} order, history {:?} step {}", order, ops, i + 1);
        let ok = |cx: &mut Cx, prog: &str| { let a = py(prog); cx.check(a == Ans::Ok(vec![]), "shared-call", || format!("{} ({}): {:?}", what(), &prog[..prog.len().min(60)], a)) };
        match op {
            0 => { x = (x + 1) % 3; if !ok(cx, &format!("objs[3][:] = {}", t[x].mat())) { return; } }
            1 => { if !ok(cx, "objs[0].fit(objs[3], objs[4])") { return; } est = Some((x, y, cats.clone())); }
            2 => {
                let a = py("result = objs[0].predict(objs[3])");
                let want = est.as_ref().and_then(|m| preds(m, x, &[]));
                expect(cx, "shared-estimator", &a, &want, &what);
            }
            3 => { if !ok(cx, "objs[1].set_data(objs[3], objs[5])\nobjs[1].set_target(objs[4])") { return; } raw = Some((x, y, cats.clone())); }
            4 => {
                let a = py("objs[1].train()");
                if let Some(r) = &raw {
                    cx.check(a == Ans::Ok(vec![]), "shared-train", || format!("{}: {:?}", what(), a));
                    model = Some(r.clone());
                } else { cx.check(matches!(a, Ans::Exc(_)), "shared-train", || format!("{}: {:?}", what(), a)); }
            }
            5 => {
                let a = py("result = objs[1].predict()");
                let want = match (&model, &raw) { (Some(m), Some(r)) => preds(m, r.0, &r.2), _ => None };
                expect(cx, "shared-raw", &a, &want, &what);
            }
            6 => { cats = if cats.is_empty() { vec![0] } else { vec![] }; if !ok(cx, &format!("objs[5][:] = {:?}", cats)) { return; } }
            7 => { y = (y + 1) % 3; if !ok(cx, &format!("objs[4][:] = {}", t[y].vec())) { return; } }
            _ => { // an estimator made from the parameters of the first
                let a = py("m = bb.BitBoostRegressor(**objs[0].get_params())\nm.fit(objs[3], objs[4])\nresult = m.predict(objs[3])");
                let want = preds(&(x, y, cats.clone()), x, &[]);
                expect(cx, "shared-copy", &a, &want, &what);
            }
        }
        if cx.failed() { return; }
    }
    let _ = py("objs.clear()");
}

/// Columns and targets of another length than the data are refused.
fn lengths(cx: &mut Cx) {
    let n = cx.pick(&[1usize, 2, 5, 40]);
    let k = cx.pick(&[0usize, 1, 2, 4, 5, 6, 39, 41, 400]);
    let j = cx.choose(3);
    let via = cx.choose(3);
    if !cx.mine() { return; }
    let t = tri(n, 0, &[1, 4], false);
    let v: Vec<f32> = (0..k).map(|i| (i % 3) as f32).collect();
    let call = match via { 0 => format!("m.set_feature_data({}, f32({}), False)", j, words(&v)), 1 => format!("m.set_target(f32({}))", words(&v)), _ => format!("m.set_feature_data({}, np.tile(f32({}), (2, 1)).T[:, 0], True)", j, words(&v)) };
    let prog = format!("m = Raw(2, {})\nm.set_config(dict(niterations=2, learning_rate=0.5))\nm.set_data({})\nm.set_target({})\n{}\nm.train()\nresult = m.predict()", n, t.mat(), t.vec(), call);
    cx.step();
    let want = if k != n { None } else {
        let mut c = Config::new();
        c.niterations = 2;
        c.learning_rate = 0.5;
        let mut d = t.data(&c, &[]);
        d.set_feature_data(if via == 1 { 2 } else { j }, &v, via == 2).unwrap();
        Some(bits(&boost(&c, &d, &mut *obj("l2")).0.predict(&d)))
    };
    let a = py(&prog);
    expect(cx, "length", &a, &want, &|| format!("{} rows, column {} of {} values via {}", n, j, k, via));
    if k != n {
        // refused, and the data loaded before is still there
        let prog = prog.replace(&call, &format!("try: {}\nexcept Exception: pass", call));
        let c = config(&[("niterations", "2".into()), ("learning_rate", "0.5".into())]).unwrap();
        let d = t.data(&c, &[]);
        let want = Some(bits(&boost(&c, &d, &mut *obj("l2")).0.predict(&d)));
        let a = py(&prog);
        expect(cx, "length-refused", &a, &want, &|| format!("{} rows, column {} of {} values via {}", n, j, k, via));
    }
}

/// Many rows and many columns.
fn large(cx: &mut Cx) {
    let (m, n) = cx.pick(if cx.thorough() { &[(3usize, 257usize), (2, 40_001), (3, 70_001), (2, 131_101), (260, 40), (1030, 9), (300, 300)][..] } else { &[(3usize, 257usize), (2, 40_001), (3, 70_001), (260, 40), (1030, 9)][..] });
    let order = cx.pick(&["C", "F"]);
    let dt = cx.pick(&["float32", "float64", "int32"]);
    let cat = cx.choose(3);
    let via = cx.choose(2);
    if !cx.mine() { return; }
    let val = |i: usize, j: usize| ((i * (j % 13 + 3) + i / 7 + j) % (5 + j % 11)) as f32;
    let (tn, to) = (n / 2 + 1, 3usize);
    let tab = |n: usize, off: usize| Table { n, cols: (0..m).map(|j| (0..n).map(|i| val(i + off, j)).collect()).collect(), y: (0..n).map(|i| ((i + off) * 13 % 8) as f32 - 3.0).collect() };
    let (tr, te) = (tab(n, 0), tab(tn, to));
    let cats: Vec<usize> = match cat { 0 => vec![], 1 => vec![m - 1, 0], _ => (0..m).filter(|j| j % 3 == 1).rev().collect() };
    let mk = |n: usize, off: usize| format!("np.array((I({n}, {off}) * (J({m}) % 13 + 3) + I({n}, {off}) // 7 + J({m})) % (5 + J({m}) % 11), dtype='{dt}', order='{order}')", n = n, off = off, m = m, dt = dt, order = order);
    let head = format!("I = lambda n, o: np.arange(o, n + o).reshape(-1, 1)\nJ = lambda m: np.arange(m).reshape(1, -1)\nX = {}\nT = {}\ny = (np.arange({}) * 13 % 8 - 3).astype('float32')\n", mk(n, 0), mk(tn, to), n);
    let prog = if via == 0 { format!("{}m = bb.BitBoostRegressor(niterations=2, learning_rate=0.5, categorical_features={:?})\nm.fit(X, y)\nm.predict(X)\nresult = m.predict(T)", head, cats) }
        else { format!("{}m = Raw({}, 1)\nm.set_config(dict(niterations=2, learning_rate=0.5, categorical_features={:?}))\nm.set_data(np.asarray(X, dtype='float32'), set({:?}))\nm.set_target(y)\nm.train()\nm.set_data(np.asarray(T, dtype='float32'))\nresult = m.predict()", head, m, cats, cats) };
    cx.steps(2);
    let cs = cats.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
    let want = cx.guard(|| native(&[("niterations", "2".into()), ("learning_rate", "0.5".into()), ("categorical_features", cs)], &tr, &cats, &[&te]).map(|v| v[0].clone())).unwrap_or(None);
    let got = py(&prog);
    expect(cx, "large", &got, &want, &|| format!("{} columns, {} rows, {} {} categorical {} via {}", m, n, dt, order, cat, via));
}

fn main() { mc::main(&[("signature", signature), ("lengths", lengths), ("large", large), ("arrays", arrays), ("digits", digits), ("params", params), ("estimators", estimators), ("raw", raw), ("shared", shared)]); }
