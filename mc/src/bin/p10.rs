//! P10: start value, gradients and bounds of every loss.
use bitboost::config::Config;
use mc::lossref::*;
use mc::train::*;
use mc::*;

const REG: [&str; 3] = ["l2", "l1", "huber"];
const CLS: [&str; 2] = ["binary", "hinge"];
const TARGETS: [f32; 7] = [0.0, 1.0, -1.0, 0.25, 3.5, -10.0, 1000.0];
const MOVES: [f32; 6] = [0.0, 1.0, -1.0, 0.3, -2.75, 8.0];
const ALPHAS: [f32; 5] = [0.95, 0.5, 0.05, 0.75, 0.999];
const BOUNDS: [f32; 3] = [1.25, 2.0, 0.5];

fn setup(name: &str, t: &[f32], alpha: f32, bound: f32, cx: &mut Cx) -> Box<dyn bitboost::objective::Objective> {
    let mut c = Config::new();
    c.discr_nbits = if name == "hinge" { 2 } else { 4 };
    c.huber_alpha = alpha;
    c.binary_gradient_bound = bound;
    c.learning_rate = 0.5;
    let mut o = obj(name);
    o.initialize(&c, t);
    let (a, b) = bias_range(name, t);
    let bias = o.bias();
    cx.check(bias.is_finite() && (bias as f64) >= a && (bias as f64) <= b, &format!("start-{}", name),
             || format!("targets {:?}: start value {}, expected in [{}, {}]", short(t), bias, a, b));
    let p = o.predictions();
    cx.check(p.len() == t.len() && p.iter().all(|x| x.to_bits() == bias.to_bits()), &format!("start-scores-{}", name),
             || format!("targets {:?}: start value {} scores {:?}", short(t), bias, short(o.predictions())));
    o
}

fn short(v: &[f32]) -> &[f32] { &v[..v.len().min(12)] }

fn judge(cx: &mut Cx, name: &str, o: &mut dyn bitboost::objective::Objective, t: &[f32], alpha: f32, bound: f32) {
    let before = o.predictions().to_vec();
    let bias = o.bias();
    o.update(t);
    cx.step();
    if let Err((k, m)) = check_update(name, o, t, alpha, bound) { cx.fail(&k, format!("targets {:?} scores {:?}: {}", short(t), short(&before), m)); }
    cx.check(same_bits(&before, o.predictions()), "update-changes-scores", || format!("{}: update changed the scores", name));
    cx.check(bias == o.bias(), "update-changes-start", || format!("{}: {} became {}", name, bias, o.bias()));
}

/// All target vectors x score offsets of a few rows.
fn small_regression(cx: &mut Cx) {
    let name = cx.pick(&REG);
    let n = 1 + cx.choose(3);
    let (tn, mn) = if n == 3 && !cx.thorough() { (6, 4) } else { (7, 6) };
    let t: Vec<f32> = (0..n).map(|_| cx.pick(&TARGETS[..tn])).collect();
    let alpha = if name == "huber" { cx.pick(&ALPHAS) } else { 0.95 };
    if !cx.mine() { return; }
    let o0 = setup(name, &t, alpha, 1.25, cx);
    drop(o0);
    let mut idx = vec![0; n];
    loop {
        let mut o = setup(name, &t, alpha, 1.25, cx);
        for i in 0..n { o.update_out_of_bag_prediction(i, MOVES[idx[i]]); }
        cx.state(H::new(1).s(name).fs(&t).fs(o.predictions()).f(alpha).get());
        judge(cx, name, o.as_mut(), &t, alpha, 1.25);
        judge(cx, name, o.as_mut(), &t, alpha, 1.25); // idempotent
        let mut k = 0;
        while k < n { idx[k] += 1; if idx[k] < mn { break; } idx[k] = 0; k += 1; }
        if k == n { break; }
    }
    cx.sample(|| format!("{} targets {:?} alpha {} with {} score offsets per row", name, t, alpha, mn));
}

fn small_class(cx: &mut Cx) {
    let name = cx.pick(&CLS);
    let n = 1 + cx.choose(if cx.thorough() { 5 } else { 4 });
    let t: Vec<f32> = (0..n).map(|_| cx.choose(2) as f32).collect();
    let bound = if name == "binary" { cx.pick(&BOUNDS) } else { 1.25 };
    if !cx.mine() { return; }
    let mut idx = vec![0; n];
    let mv = [0.0f32, 1.0, -1.0, 0.3, -2.75, 8.0];
    loop {
        let mut o = setup(name, &t, 0.95, bound, cx);
        for i in 0..n { o.update_out_of_bag_prediction(i, mv[idx[i]]); }
        cx.state(H::new(2).s(name).fs(&t).fs(o.predictions()).f(bound).get());
        judge(cx, name, o.as_mut(), &t, 0.95, bound);
        let mut k = 0;
        let m = if n >= 4 { 4 } else { 6 };
        while k < n { idx[k] += 1; if idx[k] < m { break; } idx[k] = 0; k += 1; }
        if k == n { break; }
    }
    cx.sample(|| format!("{} labels {:?} bound {}", name, t, bound));
}

/// Exact margins for hinge: scores exactly at, just inside and just outside +-1.
fn margins(cx: &mut Cx) {
    let m = cx.pick(&[1.0f32, -1.0]);
    let d = cx.pick(&[0.0f32, 1e-6, -1e-6, 0.5, -0.5]);
    let lab = cx.choose(4);
    if !cx.mine() { return; }
    let t = vec![(lab & 1) as f32, (lab >> 1) as f32];
    let mut o = setup("hinge", &t, 0.95, 1.25, cx);
    for i in 0..2 { let b = o.predictions()[i]; o.update_out_of_bag_prediction(i, m + d - b); }
    cx.state(H::new(3).fs(&t).fs(o.predictions()).get());
    judge(cx, "hinge", o.as_mut(), &t, 0.95, 1.25);
}

/// Larger problems in blocks: class counts a of n, two-valued and ramp targets; several updates after
/// leaf fits.
fn blocks(cx: &mut Cx) {
    let all = ["l2", "l1", "huber", "binary", "hinge"];
    let name = cx.pick(&all);
    let sizes = [8usize, 17, 33, 64, 100, 257, 1000, 20_011, 70_001, 300_007, 1_200_003];
    let n = cx.pick(&sizes[..if cx.thorough() { 11 } else { 9 }]);
    let k = cx.choose(12);
    let kind = cx.choose(if name == "binary" || name == "hinge" { 1 } else { 4 });
    let alpha = if name == "huber" { cx.pick(&ALPHAS) } else { 0.95 };
    if !cx.mine() { return; }
    let a = [0, 1, 2, n / 8, n / 4, n / 3, n / 2, n / 2 + 1, 3 * n / 4, n - 2, n - 1, n][k].min(n);
    let t: Vec<f32> = (0..n).map(|i| match kind {
        0 => if i < a { 1.0 } else { 0.0 },
        1 => if i % 3 == 0 && i < 3 * a { -5.0 } else { 7.5 },
        2 => (i as f32) * 0.37 - a as f32,
        _ => if i == a { 1e4 } else { (i % 7) as f32 },
    }).collect();
    let mut o = setup(name, &t, alpha, 1.25, cx);
    for round in 0..4 {
        cx.state(H::new(4).s(name).fs(&t).fs(o.predictions()).f(alpha).get());
        judge(cx, name, o.as_mut(), &t, alpha, 1.25);
        let rows: Vec<usize> = (0..n).filter(|i| i % (round + 2) == 0).collect();
        o.predict_leaf_value(&t, &rows);
        for i in 0..n { if i % (round + 2) == 1 { o.update_out_of_bag_prediction(i, 0.125 * round as f32); } }
    }
    cx.sample(|| format!("{} {} rows, kind {} split at {}", name, n, kind, a));
}

/// An objective object used again starts afresh.
fn reuse(cx: &mut Cx) {
    let all = ["l2", "l1", "huber", "binary", "hinge"];
    let name = cx.pick(&all);
    let (n1, n2) = (1 + cx.choose(4), 1 + cx.choose(4));
    let (b1, b2) = (cx.choose(1 << n1), cx.choose(1 << n2));
    if !cx.mine() { return; }
    let v = if name == "binary" || name == "hinge" { [0.0f32, 1.0] } else { [-2.0f32, 5.0] };
    let t1: Vec<f32> = (0..n1).map(|i| v[b1 >> i & 1]).collect();
    let t2: Vec<f32> = (0..n2).map(|i| v[b2 >> i & 1]).collect();
    let mut c = Config::new();
    c.discr_nbits = 2;
    let mut o = obj(name);
    o.initialize(&c, &t1);
    o.update(&t1);
    o.predict_leaf_value(&t1, &(0..n1).collect::<Vec<_>>());
    o.update(&t1);
    c.learning_rate = 0.25;
    o.initialize(&c, &t2);
    o.update(&t2);
    let mut f = obj(name);
    f.initialize(&c, &t2);
    f.update(&t2);
    cx.step();
    cx.state(H::new(5).s(name).fs(&t1).fs(&t2).get());
    let rows: Vec<usize> = (0..n2).collect();
    let (a, b) = (o.predict_leaf_value(&t2, &rows), f.predict_leaf_value(&t2, &rows));
    cx.check(o.bias().to_bits() == f.bias().to_bits() && same_bits(o.gradients(), f.gradients()) && o.bounds() == f.bounds()
             && same_bits(o.predictions(), f.predictions()) && a.to_bits() == b.to_bits(), &format!("reuse-{}", name),
             || format!("after {:?}, {:?}: {} {:?} {} fresh {} {:?} {}", t1, t2, o.bias(), o.gradients(), a, f.bias(), f.gradients(), b));
}

fn main() {
    mc::main(&[("small_regression", small_regression), ("small_class", small_class), ("margins", margins), ("blocks", blocks), ("reuse", reuse)]);
}
