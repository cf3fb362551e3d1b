//! Shared pieces for checks that train trees: cases, a scripted objective, the recovered tree, and
//! generators of bounded input spaces.
use crate::engine::Cx;
use crate::hash::H;
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use bitboost::dataset::Dataset;
use bitboost::metric::Metric;
use bitboost::objective::{objective_from_name, Objective};
use bitboost::tree::{AdditiveTree, Tree, TreeLearner, TreeLearnerContext};

#[derive(Clone, Debug)]
pub struct Col { pub vals: Vec<f32>, pub cat: bool }

#[derive(Clone, Debug)]
pub struct Case { pub n: usize, pub cols: Vec<Col>, pub target: Vec<f32> }

impl Case {
    pub fn data(&self, config: &Config) -> Data {
        let mut d = Data::empty(config, self.cols.len(), self.n);
        for (j, c) in self.cols.iter().enumerate() {
            d.set_feature_data(j, &c.vals, c.cat).expect("valid column rejected");
        }
        d.set_feature_data(self.cols.len(), &self.target, false).expect("valid target rejected");
        d
    }
    pub fn csv(&self) -> String {
        let mut s = String::new();
        for i in 0..self.n {
            for c in &self.cols { s.push_str(&format!("{},", c.vals[i])); }
            s.push_str(&format!("{}\n", self.target[i]));
        }
        s
    }
    pub fn hash(&self) -> u64 {
        let mut h = H::new(1);
        for c in &self.cols { h.u(c.cat as u64).fs(&c.vals); }
        h.fs(&self.target);
        h.get()
    }
    pub fn show(&self) -> String {
        if self.n <= 16 { format!("{:?}", self) } else { format!("Case n={} cols={} (see choices)", self.n, self.cols.len()) }
    }
}

/// Objective with given gradients and bounds; records the row sets the learner asks values for and
/// returns 1, 2, 3, ... as leaf values, which identifies the leaf in the finished tree.
pub struct Spy {
    pub grads: Vec<f32>,
    pub bounds: (f32, f32),
    pub preds: Vec<f32>,
    pub leaves: Vec<Vec<usize>>,
    pub oob: Vec<(usize, f32)>,
}

impl Spy {
    pub fn new(grads: &[f32], bounds: (f32, f32)) -> Spy {
        Spy { grads: grads.to_vec(), bounds, preds: vec![0.0; grads.len()], leaves: vec![], oob: vec![] }
    }
}

impl Objective for Spy {
    fn name(&self) -> &'static str { "spy" }
    fn gradients(&self) -> &[f32] { &self.grads }
    fn predictions(&self) -> &[f32] { &self.preds }
    fn bounds(&self) -> (f32, f32) { self.bounds }
    fn bias(&self) -> f32 { 0.0 }
    fn initialize(&mut self, _: &Config, _: &[f32]) {}
    fn update(&mut self, _: &[f32]) {}
    fn predict_leaf_value(&mut self, _: &[f32], examples: &[usize]) -> f32 {
        self.leaves.push(examples.to_vec());
        let v = self.leaves.len() as f32;
        for &i in examples { self.preds[i] += v; }
        v
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, value: f32) {
        self.preds[i] += value;
        self.oob.push((i, value));
    }
}

pub struct Run { pub tree: Tree, pub leaves: Vec<Vec<usize>>, pub preds: Vec<f32>, pub oob: Vec<(usize, f32)> }

/// One tree on the current state of `dataset`.
pub fn learn(config: &Config, ctx: &mut TreeLearnerContext, dataset: &mut Dataset, grads: &[f32], bounds: (f32, f32)) -> Run {
    let mut spy = Spy::new(grads, bounds);
    let supercats = dataset.get_supercats().clone();
    let tree = {
        let learner = TreeLearner::new(ctx, dataset, supercats, &mut spy);
        learner.train()
    };
    let _ = config;
    Run { tree, leaves: spy.leaves, preds: spy.preds, oob: spy.oob }
}

pub fn learn_once(config: &Config, data: &Data, grads: &[f32], bounds: (f32, f32)) -> Run {
    let mut ds = Dataset::new(config, data);
    ds.update(config, grads, bounds);
    let mut ctx = TreeLearnerContext::new(config, data);
    learn(config, &mut ctx, &mut ds, grads, bounds)
}

pub struct Node { pub id: usize, pub depth: usize, pub leaf: Option<usize>, pub rows: Vec<usize>, pub l: usize, pub r: usize }

/// Rebuild the structure of a tree trained with `Spy` (index 0 is the root).
pub fn recover(tree: &Tree, leaves: &[Vec<usize>]) -> Result<Vec<Node>, String> {
    fn go(tree: &Tree, leaves: &[Vec<usize>], id: usize, depth: usize, out: &mut Vec<Node>, seen: &mut Vec<bool>) -> Result<usize, String> {
        if id >= tree.max_nnodes() { return Err(format!("node {} beyond the {} nodes of the tree", id, tree.max_nnodes())); }
        let v = tree.node_value(id);
        let me = out.len();
        out.push(Node { id, depth, leaf: None, rows: vec![], l: 0, r: 0 });
        if v != 0.0 {
            let k = v as usize;
            if k < 1 || k > leaves.len() || k as f32 != v { return Err(format!("node {} has value {} which no leaf was given", id, v)); }
            if seen[k - 1] { return Err(format!("leaf value {} appears twice", v)); }
            seen[k - 1] = true;
            out[me].leaf = Some(k - 1);
            let mut rows = leaves[k - 1].clone();
            rows.sort();
            out[me].rows = rows;
        } else {
            if depth > 20 { return Err("tree too deep".into()); }
            let l = go(tree, leaves, tree.left_child(id), depth + 1, out, seen)?;
            let r = go(tree, leaves, tree.right_child(id), depth + 1, out, seen)?;
            let mut rows = out[l].rows.clone();
            rows.extend(out[r].rows.iter());
            rows.sort();
            out[me].l = l;
            out[me].r = r;
            out[me].rows = rows;
        }
        Ok(me)
    }
    let mut out = vec![];
    let mut seen = vec![false; leaves.len()];
    go(tree, leaves, 0, 0, &mut out, &mut seen)?;
    if seen.iter().any(|s| !s) { return Err(format!("{} leaves were fitted, {} are in the tree", leaves.len(), seen.iter().filter(|s| **s).count())); }
    if out.len() != tree.nnodes() { return Err(format!("tree reports {} nodes, {} found", tree.nnodes(), out.len())); }
    Ok(out)
}

/// Sampled rows (ascending) and left-out rows.
pub fn sampled_rows(ds: &Dataset, n: usize) -> (Vec<usize>, Vec<usize>) {
    let mut ins = vec![];
    ds.active_examples_iter(|_, j| ins.push(j));
    let mut inb = vec![false; n];
    for &j in &ins { if j < n { inb[j] = true; } }
    let outs = (0..n).filter(|&j| !inb[j]).collect();
    (ins, outs)
}

/// Rows (global ids) among `rows` which satisfy candidate `split` of `feat` by its public definition.
pub fn candidate_test(ds: &Dataset, supercats: &[Vec<u32>], feat: usize, split: usize, row: usize) -> bool {
    let v = ds.data().get_feature(feat)[row];
    let s = ds.get_split_value(feat, split);
    match ds.data().feat_type(feat) {
        FeatType::LoCardCat => v == s,
        FeatType::Numerical => v < s,
        FeatType::HiCardCat => {
            let c = v as usize;
            c < supercats[feat].len() && supercats[feat][c] as f32 <= s
        }
    }
}

pub fn obj(name: &str) -> Box<dyn Objective> { objective_from_name(name).expect("objective exists") }

/// Boost; returns the model and the objective's own scores.
pub fn boost(config: &Config, data: &Data, o: &mut dyn Objective) -> (AdditiveTree, Vec<f32>) {
    let ms: Vec<Box<dyn Metric>> = vec![];
    let model = {
        let b = Booster::new(config, data, o, &ms);
        b.train()
    };
    let p = o.predictions().to_vec();
    (model, p)
}

pub fn bits(v: &[f32]) -> Vec<u32> { v.iter().map(|x| x.to_bits()).collect() }

pub fn same_bits(a: &[f32], b: &[f32]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()) }

// ---------------------------------------------------------------------------------------------
// generators

/// A multiset of `n` elements of 0..k in non-decreasing order (row order symmetry reduction).
pub fn multiset(cx: &mut Cx, n: usize, k: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(n);
    let mut lo = 0;
    for _ in 0..n {
        let c = lo + cx.choose(k - lo);
        v.push(c);
        lo = c;
    }
    v
}

/// Exact gradient levels: bounds and the `2^b` real level values for b bits. The bounds are powers of
/// two times the level range, so that all sums are (nearly) exact.
pub fn levels(b: usize) -> ((f32, f32), Vec<f32>) {
    let m = (1usize << b) - 1;
    let lo = -(m as f32);
    ((lo, m as f32), (0..=m).map(|i| lo + 2.0 * i as f32).collect())
}

pub fn base_config() -> Config {
    let mut c = Config::new();
    c.niterations = 1;
    c.learning_rate = 0.5;
    c
}

/// Row patterns for block-structured data: value of row i.
pub fn pattern(kind: usize, p: usize, i: usize) -> bool {
    match kind {
        0 => i < 32 * p,                 // blocks below p
        1 => (i / 32) % (p + 2) == 0,    // every (p+2)th block
        2 => i % (p + 2) == 0,           // strided rows
        3 => i == p * 37 + 5,            // a single row
        4 => (i / 256) % (p + 2) == 0,   // every (p+2)th 256 bit block
        5 => (i / 32) % 8 == p % 8,      // one lane of each 256 bit block
        6 => i % 32 == (p * 5) % 32,     // one bit of each block
        _ => ((i / 32) ^ (i / 256)) % 2 == p % 2,
    }
}

/// Many columns of all kinds: constant, binary, few and many categories, all sorts of numbers.
pub fn wide_case(m: usize, n: usize, salt: usize) -> Case {
    let cols = (0..m).map(|j| {
        let k = (j * 5 + salt + j / 11) % 11;
        let a = 1 + (j * 3 + salt) % 7;
        let vals = (0..n).map(|i| match k {
            0 => pattern(j % 8, a, i) as usize as f32,
            1 => ((i * a + j) % (3 + a)) as f32,
            2 => ((i * i + j) % (30 + 9 * a)) as f32,
            3 => (i * (j + 1) % 97) as f32 * 0.37 - 11.0,
            4 => 7.0,
            5 => ((i / a + j) % 2) as f32,
            6 => -((i + j) as f32) * 0.125 * a as f32,
            7 => ((i / 32 + j) % (4 + a)) as f32,
            8 => ((i * 7919 + j * 31) % 1009) as f32,
            9 => ((i ^ j) % 16) as f32,
            _ => (i % (2 + a)) as f32 - 1.5,
        }).collect();
        Col { vals, cat: matches!(k, 0 | 1 | 2 | 4 | 5 | 7 | 9) }
    }).collect();
    Case { n, cols, target: (0..n).map(|i| ((i * 37 + salt) % 23) as f32 - 9.0 + 6.0 * pattern(salt % 8, 1, i) as usize as f32).collect() }
}

/// More than 2^16 columns, nearly all of which say little: constants, parities and two-valued
/// columns; the informative ones are at both ends and around the 16 bit limit.
pub fn far_case(m: usize, n: usize, salt: usize) -> Case {
    let cols = (0..m).map(|j| {
        let strong = j + 3 >= m || (65_535..65_538).contains(&j);
        let k = if strong { [3, 8, 4, 10, 9, 2][(j + salt) % 6] } else { [5, 6, 0][(j + salt) % 3] };
        Col { vals: (0..n).map(|i| if k == 0 { (i % 2) as f32 } else { shaped(k, if strong { i * (1 + j % 3) % n } else { i }, n).0 }).collect(), cat: shaped(k, 0, n).1 }
    }).collect();
    Case { n, cols, target: (0..n).map(|i| ((i * 37 + salt) % 23) as f32 - 9.0).collect() }
}

pub const OBJECTIVES: [&str; 5] = ["l2", "l1", "huber", "binary", "hinge"];

/// A valid configuration for `objective`: the base values with at most `budget` of the knobs changed.
pub fn knobs(cx: &mut Cx, objective: &str, base_iters: usize, budget: usize) -> Config {
    let mut left = budget;
    let b = &mut left;
    let mut c = Config::new();
    let hinge = objective == "hinge";
    c.objective = objective.to_string();
    c.niterations = [base_iters, 1, 2, 12][cx.dev(4, b)];
    c.learning_rate = if hinge { [0.05, 0.1, 0.02, 0.25, 0.2][cx.dev(5, b)] } else { [0.5, 1.0, 0.1, 0.9, 0.01][cx.dev(5, b)] };
    c.max_nbins = [16, 1, 2, 3, 64, 300][cx.dev(6, b)];
    c.discr_nbits = if hinge { 2 } else { [4, 1, 2, 8][cx.dev(4, b)] };
    c.max_tree_depth = [3, 1, 2, 6, 9][cx.dev(5, b)];
    c.min_examples_leaf = [1, 2, 3, 100][cx.dev(4, b)];
    c.reg_lambda = [0.0, 1.0, 100.0][cx.dev(3, b)];
    c.min_gain = [1e-6, 0.0, 1.0][cx.dev(3, b)];
    let (ef, sf) = [(1.0, 1), (0.5, 1), (0.01, 1), (0.5, 2), (0.9, 3), (0.999, 1)][cx.dev(6, b)];
    c.example_fraction = ef;
    c.sample_freq = sf;
    c.feature_fraction = [1.0, 0.5, 0.01, 0.99][cx.dev(4, b)];
    c.compression_threshold = [0.5, 0.0, 0.9, 1.0][cx.dev(4, b)];
    if objective == "huber" { c.huber_alpha = [0.95, 0.5, 0.01, 0.999][cx.dev(4, b)]; }
    if objective == "binary" { c.binary_gradient_bound = [1.25, 0.1, 2.0][cx.dev(3, b)]; }
    c.random_seed = [1, 2, 77, 0, u64::MAX][cx.dev(5, b)];
    c
}

pub fn show_config(c: &Config) -> String {
    format!("{} iters {} lr {} nbins {} bits {} depth {} minleaf {} lambda {} mingain {} rows {}/{} features {} compr {} alpha {} bound {} seed {}",
        c.objective, c.niterations, c.learning_rate, c.max_nbins, c.discr_nbits, c.max_tree_depth, c.min_examples_leaf, c.reg_lambda, c.min_gain,
        c.example_fraction, c.sample_freq, c.feature_fraction, c.compression_threshold, c.huber_alpha, c.binary_gradient_bound, c.random_seed)
}

pub fn config_hash(c: &Config) -> u64 {
    let mut h = H::new(77);
    for b in show_config(c).bytes() { h.u(b as u64); }
    h.get()
}

/// n-th element of a column of `kind`; categories for kinds below 3.
pub fn shaped(kind: usize, i: usize, n: usize) -> (f32, bool) {
    match kind {
        0 => ((i % 2) as f32, true),
        1 => ((i * 7 % 5) as f32, true),
        2 => ((i * i % 101 * 3) as f32, true),
        3 => (i as f32 / n as f32 - 0.3, false),
        4 => (((i * 2654435761) % 1000) as f32 * 0.01, false),
        5 => (-4.25, false),
        6 => (3.0, true),
        7 => (if i + 1 == n { 1e6 } else { i as f32 * 1e-3 }, false),
        8 => ((i % 7) as f32, true),
        9 => ((i * 31 % n.max(1)) as f32, true),
        _ => ((i % 3) as f32 - 1.0, false),
    }
}
pub const NSHAPES: usize = 11;

/// What an objective sees in one iteration.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct IterLog { pub grads: Vec<u32>, pub leaves: Vec<(Vec<usize>, u32)>, pub oob: Vec<(usize, u32)>, pub scores: Vec<u32> }

/// Forwards to a library objective and records every call.
pub struct Tap { pub inner: Box<dyn Objective>, pub log: Vec<IterLog>, pub inits: usize }

impl Tap {
    pub fn new(name: &str) -> Tap { Tap { inner: obj(name), log: vec![], inits: 0 } }
    pub fn scores(&self, i: usize) -> Vec<f32> { self.log[i].scores.iter().map(|b| f32::from_bits(*b)).collect() }
    fn close(&mut self) { let s = bits(self.inner.predictions()); if let Some(l) = self.log.last_mut() { l.scores = s; } }
}

impl Objective for Tap {
    fn name(&self) -> &'static str { self.inner.name() }
    fn gradients(&self) -> &[f32] { self.inner.gradients() }
    fn predictions(&self) -> &[f32] { self.inner.predictions() }
    fn bounds(&self) -> (f32, f32) { self.inner.bounds() }
    fn bias(&self) -> f32 { self.inner.bias() }
    fn initialize(&mut self, c: &Config, t: &[f32]) { self.inits += 1; self.inner.initialize(c, t) }
    fn update(&mut self, t: &[f32]) {
        self.inner.update(t);
        self.log.push(IterLog { grads: bits(self.inner.gradients()), scores: bits(self.inner.predictions()), ..Default::default() });
    }
    fn predict_leaf_value(&mut self, t: &[f32], examples: &[usize]) -> f32 {
        let v = self.inner.predict_leaf_value(t, examples);
        self.log.last_mut().expect("leaf before the first update").leaves.push((examples.to_vec(), v.to_bits()));
        self.close();
        v
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, value: f32) {
        self.inner.update_out_of_bag_prediction(i, value);
        self.log.last_mut().expect("row before the first update").oob.push((i, value.to_bits()));
        self.log.last_mut().unwrap().scores[i] = self.inner.predictions()[i].to_bits();
    }
}

/// Records the arguments of every evaluation.
pub struct MetricTap { pub seen: std::rc::Rc<std::cell::RefCell<Vec<(Vec<u32>, Vec<u32>)>>> }

impl Metric for MetricTap {
    fn name(&self) -> &'static str { "tap" }
    fn eval(&self, targets: &[f32], predictions: &[f32]) -> f32 {
        self.seen.borrow_mut().push((bits(targets), bits(predictions)));
        0.0
    }
}
