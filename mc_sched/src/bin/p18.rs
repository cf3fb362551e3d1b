//! P18: training under every schedule of the parallel histogram tasks (bounded).
use bitboost_inst::boost::Booster;
use bitboost_inst::config::Config;
use bitboost_inst::data::Data;
use bitboost_inst::objective::{objective_from_name, Objective};
use mc::{Cx, H};
use mc_sched::{both, controlled, reference};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Debug, Default)]
struct Log { leaves: Vec<(Vec<usize>, u32)>, oob: Vec<(usize, u32)>, scores: Vec<u32>, pred: Vec<u32>, nodes: Vec<usize> }

struct Tap { inner: Box<dyn Objective>, log: Log }

impl Objective for Tap {
    fn name(&self) -> &'static str { self.inner.name() }
    fn gradients(&self) -> &[f32] { self.inner.gradients() }
    fn predictions(&self) -> &[f32] { self.inner.predictions() }
    fn bounds(&self) -> (f32, f32) { self.inner.bounds() }
    fn bias(&self) -> f32 { self.inner.bias() }
    fn initialize(&mut self, c: &Config, t: &[f32]) { self.inner.initialize(c, t) }
    fn update(&mut self, t: &[f32]) { self.inner.update(t) }
    fn predict_leaf_value(&mut self, t: &[f32], e: &[usize]) -> f32 {
        let v = self.inner.predict_leaf_value(t, e);
        self.log.leaves.push((e.to_vec(), v.to_bits()));
        v
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, v: f32) {
        self.log.oob.push((i, v.to_bits()));
        self.inner.update_out_of_bag_prediction(i, v);
    }
}

struct Case { name: &'static str, n: usize, cols: Vec<(Vec<f32>, bool)>, target: Vec<f32>, c: Config }

fn case(k: usize, objective: &str, iters: usize) -> Case {
    let mut c = Config::new();
    c.objective = objective.into();
    c.niterations = iters;
    c.learning_rate = 0.3;
    c.max_tree_depth = 2;
    c.max_nbins = 4;
    c.discr_nbits = 4;
    c.min_examples_leaf = 1;
    c.reg_lambda = 0.0;
    let f = |n: usize, g: &dyn Fn(usize) -> f32| (0..n).map(g).collect::<Vec<f32>>();
    let (name, n, cols): (&'static str, usize, Vec<(Vec<f32>, bool)>) = match k {
        0 => ("three categories x 3", 24, (0..3).map(|j| (f(24, &|i| ((i + j * i / 5) % 3) as f32), true)).collect()),
        1 => ("equal columns", 20, vec![(f(20, &|i| (i % 3) as f32), true), (f(20, &|i| (i * 7 % 20) as f32), false),
                                        (f(20, &|i| (i % 3) as f32), true), (f(20, &|i| (i * 7 % 20) as f32), false)]),
        2 => ("one of each kind", 40, vec![(f(40, &|i| (i * 11 % 37) as f32), true), (f(40, &|i| (i * i % 23) as f32 * 0.7), false), (f(40, &|i| (i % 4) as f32), true)]),
        3 => { c.max_nbins = 8; c.max_tree_depth = 3; ("two numbers", 64, vec![(f(64, &|i| (i * 29 % 64) as f32), false), (f(64, &|i| (i * i % 61) as f32), false)]) }
        4 => ("yes/no x 4", 16, (0..4).map(|j| (f(16, &|i| ((i >> j) & 1) as f32), true)).collect()),
        5 => { c.example_fraction = 0.6; c.feature_fraction = 0.7; ("sampled", 30, (0..4).map(|j| (f(30, &|i| ((i * (j + 3)) % 5) as f32), j % 2 == 0)).collect()) }
        6 => { c.compression_threshold = 0.1; c.max_tree_depth = 3; ("compressed", 600, vec![(f(600, &|i| (i / 290) as f32), true), (f(600, &|i| (i % 7) as f32), false), (f(600, &|i| (i / 100) as f32), true)]) }
        7 => { c.max_nbins = 1; ("one feature", 12, vec![(f(12, &|i| (i * 5 % 12) as f32), false)]) }
        // features that split equally well but differently: the choice must not depend on timing
        8 => ("tied yes/no x 4", 16, (0..4).map(|j| (f(16, &|i| ((i >> j) & 1) as f32), true)).collect()),
        9 => { c.max_nbins = 8; ("tied mixture", 64, (0..6).map(|j| (f(64, &|i| (((i >> j) & 1) * 3) as f32), j % 2 == 0)).collect()) }
        _ => ("tied categories", 27, (0..3).map(|j| (f(27, &|i| (i / 3usize.pow(j) % 3) as f32), true)).collect()),
    };
    let binary = objective == "binary" || objective == "hinge";
    if objective == "hinge" { c.discr_nbits = 2; c.learning_rate = 0.1; }
    let target = f(n, &|i| if k >= 8 {
        let ones: f32 = cols.iter().map(|(v, _)| v[i]).sum();
        if binary { (ones > cols.iter().map(|(v, _)| v[n - 1]).sum::<f32>() / 2.0) as u8 as f32 } else { ones }
    } else if binary { (i * 7 % 5 < 2) as u8 as f32 } else { (i * 13 % 11) as f32 * 0.37 - 1.3 + cols[0].0[i] * 0.9 });
    Case { name, n, cols, target, c }
}
const NCASES: usize = 11;

fn train(k: &Case) -> Log {
    let mut data = Data::empty(&k.c, k.cols.len(), k.n);
    for (j, (v, cat)) in k.cols.iter().enumerate() { data.set_feature_data(j, v, *cat).expect("column"); }
    data.set_feature_data(k.cols.len(), &k.target, false).expect("target");
    let mut t = Tap { inner: objective_from_name(&k.c.objective).expect("objective"), log: Log::default() };
    let m = Booster::new(&k.c, &data, &mut t, &[]).train();
    let mut log = std::mem::take(&mut t.log);
    log.scores = t.predictions().iter().map(|x| x.to_bits()).collect();
    log.pred = m.predict(&data).iter().map(|x| x.to_bits()).collect();
    log
}

fn difference(a: &Log, b: &Log) -> Option<String> {
    if a == b { return None; }
    for (i, (x, y)) in a.leaves.iter().zip(&b.leaves).enumerate() {
        if x.0 != y.0 { return Some(format!("leaf {} gets rows {:?} instead of {:?}", i, y.0, x.0)); }
        if x.1 != y.1 { return Some(format!("leaf {} gets value {} instead of {}", i, f32::from_bits(y.1), f32::from_bits(x.1))); }
    }
    if a.leaves.len() != b.leaves.len() { return Some(format!("{} leaves instead of {}", b.leaves.len(), a.leaves.len())); }
    Some("scores or predictions differ".into())
}

thread_local! { static BASE: RefCell<HashMap<(usize, String, usize, usize), (Log, usize)>> = RefCell::new(HashMap::new()); }

/// Steals at most `s` joins and preempts at most `p` times.
fn schedules(cx: &mut Cx, cases: &[usize], objectives: &[&str], iters: &[usize], workers: &[usize], s: usize, p: usize) {
    let k = cx.pick(cases);
    let o = cx.pick(objectives);
    let it = cx.pick(iters);
    let w = cx.pick(workers);
    let kase = case(k, o, it);
    let key = (k, o.to_string(), it, w);
    let base = BASE.with(|b| b.borrow().get(&key).cloned());
    let (want, joins) = match base {
        Some(b) => b,
        None => {
            // nothing stolen: the sequential execution with one worker, and the number of joins with w
            let one = reference(cx, 1, || train(&kase));
            let b = reference(cx, w, || train(&kase));
            if let Some(d) = difference(&one.value, &b.value) {
                cx.fail("pool-size", format!("{} {} {} iterations: {} workers, nothing stolen: {}", kase.name, o, it, w, d));
            }
            let r = (one.value, b.joins);
            BASE.with(|m| m.borrow_mut().insert(key, r.clone()));
            r
        }
    };
    let first = cx.choose(joins + 1);
    if !cx.mine() { return; }
    let mut left = s.saturating_sub(1);
    let points = mc_sync::points();
    let out = controlled(cx, w, p, |cx, j| {
        if j < first { false } else if j == first { true } else { cx.dev(2, &mut left) == 1 }
    }, || train(&kase));
    cx.note("joins", out.joins as u64);
    cx.note("stolen", out.steals as u64);
    cx.note("points", mc_sync::points() - points);
    cx.check(difference(&want, &out.value).is_none(), "schedule-changes-model", || {
        format!("{} {} {} iterations {} workers, {} of {} joins stolen (first: {}): {}", kase.name, o, it, w, out.steals, out.joins, first,
                difference(&want, &out.value).unwrap())
    });
    let mut h = H::new(18);
    h.u(k as u64).u(it as u64).u(w as u64).u(first as u64).u(out.joins as u64).u(out.steals as u64);
    for x in &out.value.pred { h.u(*x as u64); }
    let h = h.get();
    cx.state(h);
    cx.sample(|| format!("{} {} {} iterations {} workers: {} joins, {} stolen, {} leaves as in the sequential run", kase.name, o, it, w, out.joins, out.steals, want.leaves.len()));
}

const ALL: [usize; NCASES] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];

/// Which halves are stolen, in any number, each stolen half run at the next wait.
fn steals(cx: &mut Cx) {
    let s = if cx.thorough() { 5 } else { 3 };
    schedules(cx, &ALL, &["l2"], &[1, 2], &[2, 3, 4], s, 0)
}
/// One preemption anywhere.
fn one_preemption(cx: &mut Cx) {
    let s = if cx.thorough() { 4 } else { 2 };
    schedules(cx, &ALL, &["l2", "binary"], &[1], &[2, 4], s, 1)
}
/// Two or more preemptions on the smaller cases.
fn preemptions(cx: &mut Cx) {
    if cx.thorough() { schedules(cx, &[4, 8, 7, 0, 1, 2, 5, 10], &["l2"], &[1], &[2, 3], 3, 3) } else { schedules(cx, &[4, 8, 7, 0, 1, 2], &["l2"], &[1], &[2, 3], 2, 2) }
}
fn objectives(cx: &mut Cx) {
    schedules(cx, &[0, 2, 5, 8], &["l1", "huber", "hinge", "binary"], &[2], &[3], 1, 1)
}

/// Two trainings at once, in threads that share the pool: each gets the model it gets alone.
fn two_trainings(cx: &mut Cx, pairs: &[(usize, usize)], objectives: &[(&str, &str)], workers: &[usize], s: usize, p: usize) {
    let (a, b) = cx.pick(pairs);
    let (oa, ob) = cx.pick(objectives);
    let w = cx.pick(workers);
    let (ka, kb) = (case(a, oa, 1), case(b, ob, 1));
    let mut alone = |k: usize, o: &str, kase: &Case| {
        let key = (k, o.to_string(), 1, 0);
        let base = BASE.with(|m| m.borrow().get(&key).cloned());
        base.unwrap_or_else(|| {
            let r = reference(cx, 1, || train(kase));
            let r = (r.value, r.joins);
            BASE.with(|m| m.borrow_mut().insert(key, r.clone()));
            r
        }).0
    };
    let (want_a, want_b) = (alone(a, oa, &ka), alone(b, ob, &kb));
    let mut left = s;
    let points = mc_sync::points();
    let out = controlled(cx, w, p, |cx, _| cx.dev(2, &mut left) == 1, || both(|| train(&ka), || train(&kb)));
    if !cx.mine() { return; }
    cx.note("joins", out.joins as u64);
    cx.note("stolen", out.steals as u64);
    cx.note("points", mc_sync::points() - points);
    for (which, want, got, k, o) in [("first", &want_a, &out.value.0, &ka, oa), ("second", &want_b, &out.value.1, &kb, ob)] {
        cx.check(difference(want, got).is_none(), "trainings-at-once", || {
            format!("{} {} and {} {} trained at once with {} workers ({} stolen): the {} ({} {}): {}", ka.name, oa, kb.name, ob, w, out.steals,
                    which, k.name, o, difference(want, got).unwrap())
        });
    }
    let mut h = H::new(1818);
    h.u(a as u64).u(b as u64).u(w as u64).u(out.joins as u64).u(out.steals as u64);
    for x in out.value.0.pred.iter().chain(&out.value.1.pred) { h.u(*x as u64); }
    let h = h.get();
    cx.state(h);
    cx.sample(|| format!("{} and {} at once, {} workers: {} joins, {} stolen, both as alone", ka.name, kb.name, w, out.joins, out.steals));
}
fn at_once(cx: &mut Cx) {
    let pairs: &[(usize, usize)] = if cx.thorough() { &[(7, 7), (4, 8), (7, 4), (1, 3), (2, 6), (5, 0)] } else { &[(7, 7), (4, 8), (7, 5)] };
    two_trainings(cx, pairs, &[("l2", "l2"), ("l2", "binary"), ("huber", "l1")], &[1, 2], 0, 1)
}
fn at_once_switching(cx: &mut Cx) {
    if cx.thorough() { two_trainings(cx, &[(7, 7), (7, 4), (4, 8)], &[("l2", "l2"), ("hinge", "l2")], &[1, 2], 1, 3) }
    else { two_trainings(cx, &[(7, 7), (7, 4)], &[("l2", "l2")], &[2], 0, 2) }
}

fn main() { mc::main(&[("steals", steals), ("one_preemption", one_preemption), ("objectives", objectives), ("at_once", at_once), ("at_once_switching", at_once_switching), ("preemptions", preemptions)]); }
