//! P16: row and feature samples over all outcomes of the random generator.
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use bitboost::dataset::Dataset;
use bitboost::objective::Objective;
use bitboost::tree::TreeLearnerContext;
use mc::train::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Depth-first enumeration of the answers to the library's bounded random draws.
#[derive(Default)]
struct Draws { path: Vec<u64>, ranges: Vec<u64>, pos: usize }

struct Outcomes { d: Rc<RefCell<Draws>>, started: bool }

impl Outcomes {
    fn new() -> Outcomes { Outcomes { d: Rc::new(RefCell::new(Draws::default())), started: false } }
    /// Prepare the next outcome; false when all were seen.
    fn next(&mut self) -> bool {
        let mut d = self.d.borrow_mut();
        if self.started {
            let n = d.pos;
            d.path.truncate(n);
            d.ranges.truncate(n);
            loop {
                match d.path.last().copied() {
                    None => return false,
                    Some(c) => {
                        if c + 1 < *d.ranges.last().unwrap() { *d.path.last_mut().unwrap() = c + 1; break; }
                        d.path.pop();
                        d.ranges.pop();
                    }
                }
            }
        }
        self.started = true;
        d.pos = 0;
        true
    }
    /// Run with the library's generator under control.
    fn run<T>(&self, f: impl FnOnce() -> T) -> T {
        struct Off;
        impl Drop for Off { fn drop(&mut self) { rand::mc_hook::set(None); } }
        let d = self.d.clone();
        rand::mc_hook::set(Some(Box::new(move |range| {
            let mut d = d.borrow_mut();
            let p = d.pos;
            d.pos += 1;
            if p < d.path.len() { return d.path[p].min(range - 1); }
            d.path.push(0);
            d.ranges.push(range);
            0
        })));
        let _off = Off;
        f()
    }
    fn draws(&self) -> usize { self.d.borrow().pos }
    fn weight(&self) -> f64 { let d = self.d.borrow(); d.ranges[..d.pos].iter().map(|&r| 1.0 / r as f64).product() }
    fn show(&self) -> String { let d = self.d.borrow(); format!("draws {:?} out of ranges {:?}", &d.path[..d.pos], &d.ranges[..d.pos]) }
}

fn binom(n: usize, k: usize) -> f64 { (0..k).fold(1.0, |r, i| r * (n - i) as f64 / (i + 1) as f64) }

/// Sizes `fraction` of `n` may be rounded to (single or double precision product).
fn sizes(n: usize, fraction: f32, least: usize) -> Vec<usize> {
    if !(fraction < 1.0) { return vec![n, n]; }
    let mut v = vec![(n as f32 * fraction).round() as usize, (n as f64 * fraction as f64).round() as usize];
    for x in v.iter_mut() { *x = (*x).max(least).min(n); }
    v
}

fn refreshes(t: usize, freq: usize) -> bool { t == 1 || t % freq == 0 }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { LoCard, HiCard, Num, Const, CatConst }

fn column(k: Kind, n: usize, salt: usize) -> Col {
    let vals = (0..n).map(|i| match k {
        Kind::LoCard => ((i + salt) % 3) as f32,
        Kind::HiCard => ((i * 5 + salt) % 23) as f32,
        Kind::Num => (i * 7 % 11) as f32 - 2.5,
        Kind::Const => 4.5,
        Kind::CatConst => 2.0,
    }).collect();
    Col { vals, cat: matches!(k, Kind::LoCard | Kind::HiCard | Kind::CatConst) }
}

fn make(n: usize, kinds: &[Kind]) -> Case {
    Case { n, cols: kinds.iter().enumerate().map(|(s, &k)| column(k, n, s)).collect(), target: (0..n).map(|i| (i % 4) as f32 - 1.0).collect() }
}

/// Features with more than one value, in ascending order, from the data itself.
fn useful(case: &Case) -> Vec<usize> {
    (0..case.cols.len()).filter(|&j| case.cols[j].vals.iter().any(|v| *v != case.cols[j].vals[0])).collect()
}

#[derive(Clone, PartialEq, Debug)]
struct Seen { rows: Vec<usize>, feats: Vec<usize> }

#[derive(Clone, PartialEq, Debug)]
struct Prepared { bins: Vec<usize>, splits: Vec<u32>, words: Vec<u32> }

fn prepared(ds: &Dataset) -> Prepared {
    let mut p = Prepared { bins: vec![], splits: vec![], words: vec![] };
    for &f in ds.active_features() {
        p.bins.push(ds.get_nbins(f));
        for s in 0..ds.get_nbins(f) {
            p.splits.push(ds.get_split_value(f, s).to_bits());
            p.words.extend_from_slice(ds.get_bitvec(f, s).cast::<u32>());
        }
    }
    p
}

/// Well-formedness of the present sample.
fn look(cx: &mut Cx, ds: &Dataset, n: usize, useful: &[usize], c: &Config, who: &dyn Fn() -> String) -> Option<Seen> {
    cx.step();
    let want = sizes(n, c.example_fraction, 1);
    let mut local = vec![];
    let mut rows = vec![];
    ds.active_examples_iter(|i, j| { local.push(i); rows.push(j); });
    if !cx.check(want.contains(&rows.len()) && ds.nactive_examples() == rows.len(), "row-count",
                 || format!("{} rows (reported {}) of {} at fraction {}; {}", rows.len(), ds.nactive_examples(), n, c.example_fraction, who())) { return None; }
    if !cx.check(local.iter().copied().eq(0..rows.len()), "row-positions", || format!("positions {:?}; {}", local, who())) { return None; }
    if !cx.check(rows.windows(2).all(|w| w[0] < w[1]) && rows.iter().all(|&r| r < n), "rows-malformed",
                 || format!("rows {:?} of {}; {}", rows, n, who())) { return None; }
    let sampling = ds.example_sampling_enabled();
    if !cx.check(sampling || rows.len() == n, "rows-missing", || format!("no sampling, but rows {:?} of {}; {}", rows, n, who())) { return None; }
    if sampling {
        if !cx.check((0..rows.len()).all(|i| ds.map_index(i) == rows[i]), "map-index",
                     || format!("map_index disagrees with rows {:?}; {}", rows, who())) { return None; }
        let out: Vec<usize> = ds.inactive_examples_iter().take(n + 1).collect();
        let want: Vec<usize> = (0..n).filter(|i| rows.binary_search(i).is_err()).collect();
        if !cx.check(out == want, "left-out-rows", || format!("left out {:?} of {} for sample {:?}; {}", out, n, rows, who())) { return None; }
    }
    let feats = ds.active_features().to_vec();
    let want = sizes(useful.len(), c.feature_fraction, 0);
    if !cx.check(want.contains(&feats.len()) && ds.nactive_features() == feats.len(), "feature-count",
                 || format!("{} features (reported {}) of {} at fraction {}; {}", feats.len(), ds.nactive_features(), useful.len(), c.feature_fraction, who())) { return None; }
    if !cx.check(feats.windows(2).all(|w| w[0] < w[1]) && feats.iter().all(|f| useful.contains(f)), "features-malformed",
                 || format!("features {:?} of useful {:?}; {}", feats, useful, who())) { return None; }
    if !cx.check(feats.len() == useful.len() || ds.feature_sampling_enabled(), "feature-flag", || format!("feature sampling not reported; {}", who())) { return None; }
    Some(Seen { rows, feats })
}

/// Joint probability of every sequence of samples; must be the product of uniform draws.
fn uniform(cx: &mut Cx, dist: &BTreeMap<Vec<Vec<usize>>, f64>, each: &[f64], who: &dyn Fn() -> String) {
    let want: f64 = each.iter().map(|x| 1.0 / x).product();
    let number: f64 = each.iter().product();
    for (k, p) in dist {
        if !cx.check((p - want).abs() <= 1e-9 * want, "unfair",
                     || format!("samples {:?} have probability {:.6}, must be {:.6}; {}", k, p, want, who())) { return; }
    }
    cx.check((dist.len() as f64 - number).abs() < 0.5, "unreachable-sample",
             || format!("{} of {} possible sequences of samples occur; {}", dist.len(), number, who()));
}

const FRACTIONS: [f32; 9] = [1.0, 0.5, 0.01, 0.34, 0.67, 0.9, 0.25, 0.999, 0.7];

fn hash_seen(h: &mut H, s: &Seen) { h.u(s.rows.len() as u64); for &r in &s.rows { h.u(r as u64); } for &f in &s.feats { h.u(100 + f as u64); } }

/// A data set of its own through every outcome of up to three refreshes.
fn dataset(cx: &mut Cx) {
    use Kind::*;
    let sets: [&[Kind]; 9] = [
        &[LoCard], &[LoCard, LoCard, LoCard], &[Num], &[HiCard, Num], &[Const, LoCard, CatConst, LoCard, Num],
        &[LoCard, LoCard, LoCard, LoCard, LoCard], &[Num, Const, Num, HiCard], &[LoCard, LoCard, LoCard, LoCard, LoCard, LoCard, CatConst], &[Const, CatConst],
    ];
    let kinds = cx.pick(&sets);
    let n = 1 + cx.choose(if cx.thorough() { 8 } else { 7 });
    let ef = cx.pick(&FRACTIONS);
    let ff = cx.pick(&FRACTIONS);
    let freq = 1 + cx.choose(4);
    if !cx.mine() { return; }
    let mut c = base_config();
    c.example_fraction = ef;
    c.feature_fraction = ff;
    c.sample_freq = freq;
    c.max_nbins = 4;
    let case = make(n, kinds);
    let feats = useful(&case);
    let (k, kf) = (sizes(n, ef, 1)[1], sizes(feats.len(), ff, 0)[1]);
    // outcomes of one refresh, and how many refreshes fit the bound
    let one = (0..k).map(|i| if ef < 1.0 { (n - i) as f64 } else { 1.0 }).product::<f64>()
        * (0..kf).map(|i| if kf < feats.len() { (feats.len() - i) as f64 } else { 1.0 }).product::<f64>();
    let bound = if cx.thorough() { 60_000.0 } else { 6_000.0 };
    if one > bound { cx.discard(); return; }
    let mut many = 1;
    while many < 3 && one.powi(many + 1) <= bound { many += 1; }
    let mut updates = 1;
    while (1..=updates + 1).filter(|&t| refreshes(t, freq)).count() <= many as usize && updates < 9 { updates += 1; }
    let data = case.data(&c);
    let mut out = Outcomes::new();
    let mut dist: BTreeMap<Vec<Vec<usize>>, f64> = BTreeMap::new();
    let desc = format!("n {} columns {:?} fractions {} {} every {} updates", n, kinds, ef, ff, freq);
    let raw = rand::mc_hook::raw_draws();
    let mut each = vec![];
    let mut runs = 0;
    while out.next() {
        runs += 1;
        if runs > 400_000 { cx.note("outcome-bound-hit", 1); return; }
        let mut log: Vec<Vec<usize>> = vec![];
        each.clear();
        let mut ds = out.run(|| Dataset::new(&c, &data));
        let mut last: Option<(Seen, Prepared)> = None;
        let mut h = H::new(16);
        h.u(n as u64).u(kinds.len() as u64);
        for t in 1..=updates {
            let grads: Vec<f32> = (0..n).map(|i| ((i * 3 + t * 5) % 7) as f32 - 3.0).collect();
            out.run(|| ds.update(&c, &grads, (-3.0, 3.0)));
            let shown = out.d.clone();
            let who = || { let d = shown.borrow(); format!("{}, update {}, draws {:?} of {:?}", desc, t, &d.path[..d.pos], &d.ranges[..d.pos]) };
            let Some(s) = look(cx, &ds, n, &feats, &c, &who) else { return };
            let p = prepared(&ds);
            hash_seen(&mut h, &s);
            if refreshes(t, freq) {
                if t == 1 || ef < 1.0 || kf < feats.len() {
                    log.push(s.rows.clone());
                    log.push(s.feats.clone());
                }
                each.push(binom(n, s.rows.len()));
                each.push(binom(feats.len(), s.feats.len()));
            } else if let Some((ls, lp)) = &last {
                if !cx.check(*ls == s, "changed-between-refreshes", || format!("sample {:?} became {:?}; {}", ls, s, who())) { return; }
                if !cx.check(*lp == p, "prepared-between-refreshes", || format!("candidates changed: {:?} became {:?}; {}", lp, p, who())) { return; }
            }
            last = Some((s, p));
        }
        let hv = h.get();
        cx.state(hv);
        *dist.entry(log).or_insert(0.0) += out.weight();
    }
    cx.note("outcomes", runs);
    if rand::mc_hook::raw_draws() != raw { cx.note("raw-draws", 1); return; }
    uniform(cx, &dist, &each, &|| desc.clone());
    cx.sample(|| format!("{}: {} outcomes of {} updates, {} sequences of samples, each of probability {:.6}", desc, runs, updates, dist.len(), 1.0 / dist.len() as f64));
}

/// Records the rows of each tree.
struct Rows { n: usize, zeros: Vec<f32>, scores: Vec<f32>, grads: Vec<f32>, iter: usize, log: Vec<(Vec<usize>, Vec<usize>)>, skew: bool }

impl Objective for Rows {
    fn name(&self) -> &'static str { "rows" }
    fn gradients(&self) -> &[f32] { &self.grads }
    fn predictions(&self) -> &[f32] { &self.scores }
    fn bounds(&self) -> (f32, f32) { (-8.0, 8.0) }
    fn bias(&self) -> f32 { 0.0 }
    fn initialize(&mut self, _: &Config, _: &[f32]) { self.scores = self.zeros.clone(); }
    fn update(&mut self, target: &[f32]) {
        self.iter += 1;
        let s = if self.skew && self.iter % 2 == 0 { -1.0 } else { 1.0 };
        self.grads = target.iter().map(|t| t * s).collect();
        self.log.push((vec![], vec![]));
    }
    fn predict_leaf_value(&mut self, _: &[f32], e: &[usize]) -> f32 { self.log.last_mut().unwrap().0.extend_from_slice(e); 1.0 }
    fn update_out_of_bag_prediction(&mut self, i: usize, _: f32) { self.log.last_mut().unwrap().1.push(i); }
}

/// Training as a whole: the rows every tree is fitted on, over every outcome.
fn training(cx: &mut Cx) {
    use Kind::*;
    let sets: [&[Kind]; 4] = [&[LoCard], &[Num, LoCard], &[HiCard, Const, Num], &[Const]];
    let kinds = cx.pick(&sets);
    let n = 2 + cx.choose(if cx.thorough() { 5 } else { 4 });
    let ef = cx.pick(&[0.5f32, 1.0, 0.01, 0.34, 0.67, 0.9]);
    let ff = cx.pick(&[1.0f32, 0.5]);
    let freq = 1 + cx.choose(4);
    let iters = 1 + cx.choose(5);
    let depth = cx.pick(&[1usize, 3]);
    let skew = cx.flag();
    if !cx.mine() { return; }
    let mut c = base_config();
    c.example_fraction = ef;
    c.feature_fraction = ff;
    c.sample_freq = freq;
    c.niterations = iters;
    c.max_tree_depth = depth;
    c.min_examples_leaf = 1;
    c.max_nbins = 4;
    let case = make(n, kinds);
    let feats = useful(&case);
    let (k, kf) = (sizes(n, ef, 1)[1], sizes(feats.len(), ff, 0)[1]);
    let nref = (1..=iters).filter(|&t| refreshes(t, freq)).count();
    let one = (0..k).map(|i| if ef < 1.0 { (n - i) as f64 } else { 1.0 }).product::<f64>()
        * (0..kf).map(|i| if kf < feats.len() { (feats.len() - i) as f64 } else { 1.0 }).product::<f64>();
    if one.powi(nref as i32) > if cx.thorough() { 60_000.0 } else { 6_000.0 } { cx.discard(); return; }
    let data = case.data(&c);
    let desc = format!("n {} columns {:?} fractions {} {} every {} of {} iterations depth {}", n, kinds, ef, ff, freq, iters, depth);
    let mut out = Outcomes::new();
    let mut dist: BTreeMap<Vec<Vec<usize>>, f64> = BTreeMap::new();
    let mut each = vec![];
    let raw = rand::mc_hook::raw_draws();
    let mut runs = 0;
    while out.next() {
        runs += 1;
        let mut o = Rows { n, zeros: vec![0.0; n], scores: vec![], grads: vec![0.0; n], iter: 0, log: vec![], skew };
        out.run(|| boost(&c, &data, &mut o));
        let who = || format!("{}, {}", desc, out.show());
        if !cx.check(o.log.len() == iters, "iterations", || format!("{} iterations; {}", o.log.len(), who())) { return; }
        let mut log = vec![];
        each.clear();
        let mut h = H::new(17);
        for t in 1..=iters {
            cx.step();
            let (mut rows, outs) = o.log[t - 1].clone();
            rows.sort();
            if !cx.check(sizes(n, ef, 1).contains(&rows.len()) && rows.windows(2).all(|w| w[0] < w[1]) && rows.iter().all(|&r| r < o.n), "tree-rows",
                         || format!("iteration {} fits rows {:?}; {}", t, rows, who())) { return; }
            let mut all = rows.clone();
            all.extend(&outs);
            all.sort();
            if !cx.check(all.iter().copied().eq(0..n), "tree-left-out",
                         || format!("iteration {} fits rows {:?} and scores {:?} as left out; {}", t, rows, outs, who())) { return; }
            if refreshes(t, freq) {
                each.push(binom(n, rows.len()));
                log.push(rows.clone());
            } else {
                let same = { let mut p = o.log[t - 2].0.clone(); p.sort(); p == rows };
                if !cx.check(same, "tree-rows-changed", || format!("iteration {} uses other rows than the one before: {:?}; {}", t, rows, who())) { return; }
            }
            h.u(t as u64);
            for &r in &rows { h.u(r as u64); }
        }
        let hv = h.get();
        cx.state(hv);
        *dist.entry(log).or_insert(0.0) += out.weight();
    }
    cx.note("training-outcomes", runs);
    if rand::mc_hook::raw_draws() != raw { cx.note("raw-draws", 1); return; }
    uniform(cx, &dist, &each, &|| desc.clone());
}

/// Which feature the trees split on, over every outcome: feature j separates the gradients better
/// than feature j+1, so a depth 1 tree shows the best feature of the sample.
fn feature_use(cx: &mut Cx) {
    let m = 2 + cx.choose(if cx.thorough() { 5 } else { 4 });
    let ff = cx.pick(&[0.5f32, 0.34, 0.67, 0.9, 0.25, 0.2]);
    let freq = 1 + cx.choose(3);
    let iters = 1 + cx.choose(3);
    let kind = cx.choose(3);
    let useless = cx.flag();
    if !cx.mine() { return; }
    let kf = sizes(m, ff, 0)[1];
    if sizes(m, ff, 0)[0] != kf || kf == 0 || kf == m { cx.discard(); return; }
    let n = 1 << (m + 1);
    let mut c = base_config();
    c.feature_fraction = ff;
    c.sample_freq = freq;
    c.niterations = iters;
    c.max_tree_depth = 1;
    c.max_nbins = if kind == 1 { 4 } else { 16 };
    c.min_examples_leaf = 1;
    c.discr_nbits = 8;
    // target: rows with i >= 2^j are told apart by feature j; the gradient is +1 for the upper half
    let target: Vec<f32> = (0..n).map(|i| if i >= n / 2 { 6.0 } else { -6.0 }).collect();
    let mut cols = vec![];
    for j in 0..m {
        // feature j misplaces j rows of the upper half and j rows of the lower half
        let vals: Vec<f32> = (0..n).map(|i| {
            let up = i >= n / 2;
            let wrong = if up { i - n / 2 < j } else { i < j };
            let b = (up != wrong) as usize;
            match kind { 0 => b as f32, 1 => (b * 100 + 3) as f32, _ => b as f32 * 2.5 - 1.0 }
        }).collect();
        if useless { cols.push(Col { vals: vec![3.0; n], cat: j % 2 == 0 }); }
        cols.push(Col { vals, cat: kind < 2 });
    }
    let case = Case { n, cols, target };
    let data = case.data(&c);
    let at: Vec<usize> = (0..m).map(|j| if useless { 2 * j + 1 } else { j }).collect();
    let desc = format!("{} features of kind {} fraction {} every {} of {} iterations", m, kind, ff, freq, iters);
    let mut out = Outcomes::new();
    let mut dist: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
    let raw = rand::mc_hook::raw_draws();
    let nref = (1..=iters).filter(|&t| refreshes(t, freq)).count();
    let one: f64 = (0..kf).map(|i| (m - i) as f64).product();
    if one.powi(nref as i32) > if cx.thorough() { 200_000.0 } else { 40_000.0 } { cx.discard(); return; }
    while out.next() {
        cx.step();
        let mut ds = out.run(|| Dataset::new(&c, &data));
        let mut seq = vec![];
        let mut ctx = TreeLearnerContext::new(&c, &data);
        for t in 1..=iters {
            let g: Vec<f32> = case.target.clone();
            out.run(|| ds.update(&c, &g, (-8.0, 8.0)));
            let run = learn(&c, &mut ctx, &mut ds, &g, (-8.0, 8.0));
            // the split feature, seen from outside: the leaf row sets
            let mut got = None;
            for (j, &f) in at.iter().enumerate() {
                let lo = case.cols[f].vals.iter().cloned().fold(f32::INFINITY, f32::min);
                let a: Vec<usize> = (0..n).filter(|&i| case.cols[f].vals[i] == lo).collect();
                let b: Vec<usize> = (0..n).filter(|&i| case.cols[f].vals[i] != lo).collect();
                let mut leaves: Vec<Vec<usize>> = run.leaves.clone();
                for l in leaves.iter_mut() { l.sort(); }
                if leaves.len() == 2 && ((leaves[0] == a && leaves[1] == b) || (leaves[0] == b && leaves[1] == a)) { got = Some(j); break; }
            }
            let Some(j) = got else {
                cx.fail("no-split", format!("tree of iteration {} does not split on one feature: {} leaves; {} {}", t, run.leaves.len(), desc, out.show()));
                return;
            };
            // only sampled features may be used
            if !cx.check(ds.active_features().contains(&at[j]), "unsampled-feature", || format!("iteration {} splits on feature {}, sample {:?}; {}", t, at[j], ds.active_features(), desc)) { return; }
            if refreshes(t, freq) { seq.push(j); }
            else if !cx.check(*seq.last().unwrap() == j, "features-between-refreshes", || format!("iteration {} splits on {}; {} {}", t, j, desc, out.show())) { return; }
        }
        *dist.entry(seq).or_insert(0.0) += out.weight();
    }
    if rand::mc_hook::raw_draws() != raw { cx.note("raw-draws", 1); return; }
    // P(best of sample = j) = C(m-1-j, kf-1) / C(m, kf)
    for (seq, p) in &dist {
        let want: f64 = seq.iter().map(|&j| if m - 1 - j < kf - 1 { 0.0 } else { binom(m - 1 - j, kf - 1) / binom(m, kf) }).product();
        if !cx.check((p - want).abs() <= 1e-9, "unfair-features", || format!("split features {:?} have probability {:.6}, must be {:.6}; {}", seq, p, want, desc)) { return; }
        let mut h = H::new(18);
        h.u(m as u64).u(kf as u64).u(kind as u64);
        for &j in seq { h.u(j as u64); }
        let hv = h.get();
        cx.state(hv);
    }
    cx.sample(|| format!("{}: split feature distribution {:?}", desc, dist));
}

/// The library's own generator: every seed of a range, larger data, every update.
fn seeds(cx: &mut Cx) {
    use Kind::*;
    let n = cx.pick(&[1usize, 2, 3, 7, 31, 32, 33, 100, 1000, 4097]);
    let ef = cx.pick(&[0.5f32, 1.0, 0.01, 0.1, 0.3, 0.7, 0.9, 0.999, 0.99999994]);
    let ff = cx.pick(&[1.0f32, 0.5, 0.1, 0.9]);
    let freq = cx.pick(&[1usize, 2, 3, 7, 1000]);
    let seed = cx.choose(if cx.thorough() { 64 } else { 6 }) as u64;
    if !cx.mine() { return; }
    let kinds: &[Kind] = if n > 500 { &[LoCard, Const, LoCard, LoCard] } else { &[LoCard, Num, Const, HiCard, LoCard, CatConst, LoCard] };
    let mut c = base_config();
    c.example_fraction = ef;
    c.feature_fraction = ff;
    c.sample_freq = freq;
    c.random_seed = seed * 0x1_0000_0001;
    let case = make(n, kinds);
    let feats = useful(&case);
    let data: Data = case.data(&c);
    let mut ds = Dataset::new(&c, &data);
    let mut last: Option<Seen> = None;
    let mut refreshed = 0;
    let mut distinct = std::collections::BTreeSet::new();
    for t in 1..=if freq > 100 { 4 } else { (2 * freq + 2).max(5) } {
        let grads: Vec<f32> = (0..n).map(|i| ((i * 3 + t * 5) % 7) as f32 - 3.0).collect();
        ds.update(&c, &grads, (-3.0, 3.0));
        let who = || format!("n {} fractions {} {} every {} seed {} update {}", n, ef, ff, freq, c.random_seed, t);
        let Some(s) = look(cx, &ds, n, &feats, &c, &who) else { return };
        if refreshes(t, freq) { refreshed += 1; distinct.insert((s.rows.clone(), s.feats.clone())); }
        else if let Some(l) = &last {
            if !cx.check(*l == s, "changed-between-refreshes", || format!("sample changed; {}", who())) { return; }
        }
        let mut h = H::new(19);
        h.u(n as u64);
        hash_seen(&mut h, &s);
        let hv = h.get();
        cx.state(hv);
        last = Some(s);
    }
    // with more than 10^9 possible samples two equal refreshes mean that nothing was refreshed
    let k = last.unwrap().rows.len();
    let lots = n >= 100 && k >= 10 && n - k >= 10;
    if lots { cx.check(distinct.len() == refreshed, "not-refreshed", || format!("{} refreshes gave {} different samples of {} out of {}; every {}", refreshed, distinct.len(), k, n, freq)); }
    let _ = FeatType::LoCardCat;
}

/// Many thousands of updates: the schedule goes on as it began, and every refresh draws another sample.
fn long(cx: &mut Cx) {
    use Kind::*;
    let freq = cx.pick(&[1usize, 2, 3, 5, 7, 10, 100, 250, 257, 1000, 65_537]);
    let (ef, ff) = cx.pick(&[(0.4f32, 1.0f32), (0.4, 0.5), (1.0, 0.5)]);
    let seed = cx.pick(&[0u64, 5]);
    if !cx.mine() { return; }
    let n = 80;
    let many = if ff < 1.0 { 60 } else { 2 };
    let mut c = base_config();
    c.example_fraction = ef;
    c.feature_fraction = ff;
    c.sample_freq = freq;
    c.random_seed = seed;
    let case = make(n, &vec![LoCard; many]);
    let feats = useful(&case);
    let data: Data = case.data(&c);
    let mut ds = Dataset::new(&c, &data);
    let grads: Vec<f32> = (0..n).map(|i| ((i * 3) % 7) as f32 - 3.0).collect();
    let mut last: Option<Seen> = None;
    let top = if cx.thorough() { 3 * 65_536 + 1000 } else { 66_000 };
    for t in 1..=top {
        ds.update(&c, &grads, (-3.0, 3.0));
        let fresh = refreshes(t, freq);
        // the full look at every refresh and around every power of two
        if !fresh && last.is_some() && !(t + 1).is_power_of_two() && !t.is_power_of_two() && !(t - 1).is_power_of_two() {
            let l = last.as_ref().unwrap();
            let same = ds.active_features() == &l.feats[..] && ds.nactive_examples() == l.rows.len() && (!ds.example_sampling_enabled() || l.rows.iter().enumerate().all(|(i, &r)| ds.map_index(i) == r));
            cx.step();
            if !cx.check(same, "changed-between-refreshes", || format!("sample changed at update {}; fractions {} {} every {} seed {}", t, ef, ff, freq, seed)) { return; }
            continue;
        }
        let who = || format!("fractions {} {} every {} seed {} update {}", ef, ff, freq, seed, t);
        let Some(s) = look(cx, &ds, n, &feats, &c, &who) else { return };
        if let Some(l) = &last {
            // (80 choose 32 and 60 choose 30 are more than 10^17)
            let rows = ef == 1.0 || (s.rows != l.rows) == fresh;
            let cols = ff == 1.0 || (s.feats != l.feats) == fresh;
            if !cx.check(rows && cols, "schedule", || format!("sample {}; {}", if fresh { "not refreshed" } else { "changed" }, who())) { return; }
        }
        if t < 100 || fresh && t % 97 == 0 { let mut h = H::new(20); h.u(n as u64); hash_seen(&mut h, &s); let hv = h.get(); cx.state(hv); }
        last = Some(s);
    }
}

/// Frequencies over the first seeds: every seed must count. (The generator itself is not explored
/// here; the bound is eight standard deviations.)
fn seed_frequencies(cx: &mut Cx) {
    let n = 3 + cx.choose(4);
    let ef = cx.pick(&[0.5f32, 0.34, 0.7]);
    let second = cx.flag();
    let stride = cx.pick(&[1u64, 2, 1 << 20, 1 << 33, 1 << 48]);
    if !cx.mine() { return; }
    let case = make(n, &[Kind::LoCard]);
    let mut c = base_config();
    c.example_fraction = ef;
    let data = case.data(&c);
    let total = if cx.thorough() { 60_000 } else { 6_000 };
    let mut dist: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
    let mut k = 0;
    for s in 0..total {
        cx.step();
        c.random_seed = s as u64 * stride;
        let mut ds = Dataset::new(&c, &data);
        let g = vec![1.0; n];
        ds.update(&c, &g, (-3.0, 3.0));
        if second { ds.update(&c, &g, (-3.0, 3.0)); }
        let (rows, _) = sampled_rows(&ds, n);
        k = rows.len();
        *dist.entry(rows).or_insert(0) += 1;
    }
    let each = total as f64 / binom(n, k);
    for (rows, count) in &dist {
        if !cx.check((*count as f64 - each).abs() <= 8.0 * each.sqrt(), "seed-frequency",
                     || format!("rows {:?} of {} drawn for {} of {} seeds (multiples of {}), expected {:.0}", rows, n, count, total, stride, each)) { return; }
    }
    cx.check(dist.len() as f64 == binom(n, k), "seed-coverage", || format!("only {} samples of {} out of {} occur over {} seeds", dist.len(), k, n, total));
}

/// Larger data over the first seeds: how often each row, each pair of neighbouring or distant rows,
/// and each block of rows is drawn, at the first and the third refresh, and how much two samples share.
/// (Eight standard deviations of the respective count.)
fn row_frequencies(cx: &mut Cx) {
    let n = cx.pick(&[40usize, 100, 300, 1000, 1500, 3000, 5000, 9000]);
    let ef = cx.pick(&[0.5f32, 0.1, 0.9, 0.25]);
    let freq = cx.pick(&[1usize, 3]);
    let base = cx.pick(&[0u64, 1 << 40]);
    if !cx.mine() { return; }
    let case = make(n, &[Kind::LoCard]);
    let mut c = base_config();
    c.example_fraction = ef;
    c.sample_freq = freq;
    let data = case.data(&c);
    let total: usize = if cx.thorough() { 20_000 } else { 1_500 };
    let at = if freq == 1 { [1, 3] } else { [1, 6] };
    let blocks = 8;
    let mut rows = vec![vec![0u32; n]; 2];
    let mut near = vec![vec![0u32; n]; 2];
    let mut far = vec![vec![0u32; n]; 2];
    let mut block = vec![vec![(0f64, 0f64); blocks]; 2];
    let mut shared = vec![(0f64, 0f64); 1];
    let mut k = 0;
    let g = vec![1.0; n];
    for s in 0..total {
        cx.step();
        c.random_seed = base + s as u64;
        let mut ds = Dataset::new(&c, &data);
        let mut kept: Vec<Vec<bool>> = vec![];
        for t in 1..=at[1] {
            ds.update(&c, &g, (-3.0, 3.0));
            if !at.contains(&t) { continue; }
            let (drawn, _) = sampled_rows(&ds, n);
            k = drawn.len();
            let mut is = vec![false; n];
            for r in drawn { is[r] = true; }
            kept.push(is);
        }
        for (w, is) in kept.iter().enumerate() {
            let mut count = [0usize; 8];
            for i in 0..n {
                if !is[i] { continue; }
                rows[w][i] += 1;
                if is[(i + 1) % n] { near[w][i] += 1; }
                if is[(i + n / 2) % n] { far[w][i] += 1; }
                count[i * blocks / n] += 1;
            }
            for b in 0..blocks { block[w][b].0 += count[b] as f64; block[w][b].1 += (count[b] * count[b]) as f64; }
        }
        let both = (0..n).filter(|&i| kept[0][i] && kept[1][i]).count() as f64;
        shared[0].0 += both;
        shared[0].1 += both * both;
    }
    let (nf, kf, tf) = (n as f64, k as f64, total as f64);
    let who = format!("{} of {} rows at fraction {}, refreshed every {} updates, {} seeds from {}", k, n, ef, freq, total, base);
    let mut count = |cx: &mut Cx, c: u32, p: f64, key: &str, what: &str, i: usize, t: usize| -> bool {
        let sd = (tf * p * (1.0 - p)).sqrt().max(1.0);
        cx.check((c as f64 - tf * p).abs() <= 8.0 * sd + 4.0, key, || format!("{} {} drawn {} times at update {}, expected {:.0} +- {:.0}; {}", what, i, c, t, tf * p, sd, who))
    };
    let pair = kf * (kf - 1.0) / (nf * (nf - 1.0));
    for w in 0..2 {
        for i in 0..n {
            if !count(cx, rows[w][i], kf / nf, "row-frequency", "row", i, at[w]) { return; }
            if !count(cx, near[w][i], pair, "neighbour-frequency", "a row and the next one", i, at[w]) { return; }
            if !count(cx, far[w][i], pair, "pair-frequency", "a row and one far away", i, at[w]) { return; }
        }
        for b in 0..blocks {
            let m = (0..n).filter(|i| i * blocks / n == b).count() as f64;
            let (mean, var) = (kf * m / nf, kf * (m / nf) * (1.0 - m / nf) * (nf - kf) / (nf - 1.0));
            let got = block[w][b].0 / tf;
            let gvar = block[w][b].1 / tf - got * got;
            if !cx.check((got - mean).abs() <= 8.0 * (var / tf).sqrt() + 1e-9, "block-frequency", || format!("block {} holds {:.3} rows on average, expected {:.3}; {}", b, got, mean, who)) { return; }
            // the kurtosis of a hypergeometric count is at most a little above that of a normal one
            if !cx.check((gvar / var - 1.0).abs() <= 8.0 * (2.2 / tf + 1.0 / (var * tf)).sqrt(), "block-spread", || format!("rows in block {} have variance {:.3}, expected {:.3}; {}", b, gvar, var, who)) { return; }
        }
    }
    let (mean, var) = (kf * kf / nf, kf * (kf / nf) * (1.0 - kf / nf) * (nf - kf) / (nf - 1.0));
    let got = shared[0].0 / tf;
    cx.check((got - mean).abs() <= 8.0 * (var / tf).sqrt() + 1e-9, "refreshes-related", || format!("two samples share {:.3} rows on average, expected {:.3}; {}", got, mean, who));
    let mut h = H::new(20);
    h.u(n as u64).u(k as u64).u(freq as u64).u(base);
    let hv = h.get();
    cx.state(hv);
}

/// The same for features, of which a data set can have many.
fn feature_frequencies(cx: &mut Cx) {
    let m = cx.pick(&[3usize, 10, 40, 200, 1200]);
    let ff = cx.pick(&[0.5f32, 0.1, 0.9]);
    let ef = cx.pick(&[1.0f32, 0.5]);
    let useless = cx.flag();
    if !cx.mine() { return; }
    let n = 6;
    let kinds: Vec<Kind> = (0..m).map(|j| if useless && j % 3 == 1 { Kind::CatConst } else { Kind::LoCard }).collect();
    let case = make(n, &kinds);
    let feats = useful(&case);
    let mut c = base_config();
    c.feature_fraction = ff;
    c.example_fraction = ef;
    let data = case.data(&c);
    let total: usize = if cx.thorough() { 12_000 } else { 1_200 };
    let mut seen = vec![vec![0u32; m]; 2];
    let mut near = vec![vec![0u32; m]; 2];
    let (mut k, mut both) = (0, 0f64);
    for s in 0..total {
        cx.step();
        c.random_seed = s as u64;
        let mut ds = Dataset::new(&c, &data);
        let mut last: Vec<bool> = vec![];
        for t in 0..2 {
            ds.update(&c, &vec![1.0; n], (-3.0, 3.0));
            let mut is = vec![false; m];
            for &f in ds.active_features() { is[f] = true; seen[t][f] += 1; }
            k = ds.active_features().len();
            for (a, &f) in feats.iter().enumerate() { if is[f] && is[feats[(a + 1) % feats.len()]] { near[t][f] += 1; } }
            if t == 1 { both += (0..m).filter(|&f| is[f] && last[f]).count() as f64; }
            last = is;
        }
    }
    let (nf, kf, tf) = (feats.len() as f64, k as f64, total as f64);
    let who = format!("{} of {} useful features, {} seeds", k, feats.len(), total);
    let pair = if nf > 1.0 { kf * (kf - 1.0) / (nf * (nf - 1.0)) } else { 1.0 };
    for t in 0..2 {
        for &f in &feats {
            for (c, p, what) in [(seen[t][f], kf / nf, "feature"), (near[t][f], pair, "a feature and the next one")] {
                let sd = (tf * p * (1.0 - p)).max(0.0).sqrt();
                if !cx.check((c as f64 - tf * p).abs() <= 8.0 * sd + 4.0, "feature-frequency", || format!("{} {} drawn {} times at update {}, expected {:.0} +- {:.0}; {}", what, f, c, t + 1, tf * p, sd, who)) { return; }
            }
        }
    }
    if nf > 1.0 {
        let (mean, var) = (kf * kf / nf, kf * (kf / nf) * (1.0 - kf / nf) * (nf - kf) / (nf - 1.0));
        let got = both / tf;
        cx.check((got - mean).abs() <= 8.0 * (var / tf).sqrt() + 1e-9, "feature-refreshes-related", || format!("two samples share {:.3} features on average, expected {:.3}; {}", got, mean, who));
    }
    let mut h = H::new(21);
    h.u(m as u64).u(k as u64).u(useless as u64).u((ef < 1.0) as u64);
    let hv = h.get();
    cx.state(hv);
}

/// Many rows: no stretch, residue class or neighbourhood of the rows is preferred, and the samples
/// of two refreshes have nothing to do with each other.
fn many_rows(cx: &mut Cx) {
    let n = if cx.thorough() { cx.pick(&[33_001usize, 70_001, 150_011, 300_017, 1_000_003]) } else { cx.pick(&[33_001usize, 70_001, 150_011]) };
    let ef = cx.pick(&[0.5f32, 0.1, 0.9, 0.01]);
    let seed = cx.choose(if cx.thorough() { 12 } else { 3 }) as u64;
    if !cx.mine() { return; }
    let case = make(n, &[Kind::LoCard]);
    let mut c = base_config();
    c.example_fraction = ef;
    c.random_seed = seed * 7_919;
    let data = case.data(&c);
    let g = vec![1.0; n];
    let mut ds = Dataset::new(&c, &data);
    let mut before: Vec<bool> = vec![];
    for t in 1..=3 {
        ds.update(&c, &g, (-3.0, 3.0));
        cx.step();
        let (drawn, _) = sampled_rows(&ds, n);
        let (nf, kf) = (n as f64, drawn.len() as f64);
        let mut is = vec![false; n];
        for &r in &drawn { is[r] = true; }
        let who = |what: &str| format!("{} of {} rows at fraction {}, seed {}, update {}: {}", drawn.len(), n, ef, c.random_seed, t, what);
        // every class of rows holds its share
        for classes in [2usize, 3, 8, 32, 64, 256] {
            for stretch in [true, false] {
                let of = |i: usize| if stretch { i * classes / n } else { i % classes };
                let (mut size, mut got) = (vec![0f64; classes], vec![0f64; classes]);
                for i in 0..n { size[of(i)] += 1.0; if is[i] { got[of(i)] += 1.0; } }
                for b in 0..classes {
                    let m = size[b] / nf;
                    let (mean, var) = (kf * m, kf * m * (1.0 - m) * (nf - kf) / (nf - 1.0));
                    if !cx.check((got[b] - mean).abs() <= 8.0 * var.sqrt() + 8.0, "share-of-rows", || who(&format!("{} {} of {} holds {} drawn rows, expected {:.1} +- {:.1}", if stretch { "stretch" } else { "class" }, b, classes, got[b], mean, var.sqrt()))) { return; }
                }
            }
        }
        // neighbours near and far are drawn together as often as any two rows
        let pair = kf * (kf - 1.0) / (nf * (nf - 1.0));
        for gap in [1usize, 2, 3, 31, 32, 64, 255, 256, 1024, 32_768, n / 2] {
            let got = (0..n).filter(|&i| is[i] && is[(i + gap) % n]).count() as f64;
            let sd = (2.0 * nf * pair * (1.0 - pair)).sqrt();
            if !cx.check((got - nf * pair).abs() <= 8.0 * sd + 8.0, "pairs-of-rows", || who(&format!("{} pairs {} apart, expected {:.1} +- {:.1}", got, gap, nf * pair, sd))) { return; }
        }
        if !before.is_empty() {
            let got = (0..n).filter(|&i| is[i] && before[i]).count() as f64;
            let (mean, var) = (kf * kf / nf, kf * (kf / nf) * (1.0 - kf / nf) * (nf - kf) / (nf - 1.0));
            if !cx.check((got - mean).abs() <= 8.0 * var.sqrt() + 8.0, "many-refreshes-related", || who(&format!("shares {} rows with the one before, expected {:.1} +- {:.1}", got, mean, var.sqrt()))) { return; }
        }
        let mut h = H::new(77);
        h.u(n as u64);
        h.us(&drawn);
        cx.state(h.get());
        before = is;
    }
}

fn main() {
    mc::main(&[("many_rows", many_rows), ("dataset", dataset), ("training", training), ("feature_use", feature_use), ("seeds", seeds), ("long", long), ("seed_frequencies", seed_frequencies),
               ("row_frequencies", row_frequencies), ("feature_frequencies", feature_frequencies)]);
}
