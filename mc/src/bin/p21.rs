//! P21: boosting only adds trees and never worsens the squared training loss.
use bitboost::config::Config;
use bitboost::objective::Objective;
use mc::train::*;
use mc::*;

fn trained(c: &Config, case: &Case) -> (Tap, Vec<f32>) {
    let data = case.data(c);
    let mut t = Tap::new(&c.objective);
    let (m, _) = boost(c, &data, &mut t);
    (t, m.predict(&data))
}

fn prefixes(cx: &mut Cx, c: &mut Config, case: &Case, upto: usize, every: bool) {
    let what = |c: &Config, k: usize| format!("{}; {} versus {} iterations: ", case.show(), show_config(c), k);
    c.niterations = upto;
    cx.step();
    let (long, _) = trained(c, case);
    if !cx.check(long.log.len() == upto, "iterations", || format!("{}; {}: {} iterations run", case.show(), show_config(c), long.log.len())) { return; }
    let mut h = H::new(21);
    for l in &long.log { for b in &l.scores { h.u(*b as u64); } }
    let h = h.get();
    cx.state(h);
    let ks: Vec<usize> = if every { (0..upto).collect() } else { vec![0, 1, upto / 2, upto - 1] };
    for k in ks {
        c.niterations = k;
        cx.step();
        let (short, p) = trained(c, case);
        if !cx.check(short.log.len() == k, "iterations", || format!("{}{} iterations run", what(c, k), short.log.len())) { return; }
        for i in 0..k {
            let same = short.log[i] == long.log[i];
            if !cx.check(same, "prefix", || {
                let (a, b) = (&short.log[i], &long.log[i]);
                let part = if a.grads != b.grads { "gradients" } else if a.leaves != b.leaves { "leaves" } else if a.oob != b.oob { "left-out rows" } else { "scores" };
                format!("{}{} of iteration {} differ from those of {} iterations", what(c, k), part, i + 1, upto) }) { return; }
        }
        if k > 0 {
            let ok = bits(&p) == long.log[k - 1].scores;
            if !cx.check(ok, "model-of-prefix", || format!("{}the model of {} iterations does not predict the scores after {} of {} iterations", what(c, k), k, k, upto)) { return; }
        }
    }
    c.niterations = upto;
}

fn mse(t: &[f32], s: &[f32]) -> f64 { t.iter().zip(s).map(|(a, b)| { let d = *a as f64 - *b as f64; d * d }).sum::<f64>() / t.len() as f64 }

fn monotone(cx: &mut Cx, c: &Config, case: &Case) {
    cx.step();
    let data = case.data(c);
    let mut t = Tap::new("l2");
    let (m, _) = boost(c, &data, &mut t);
    let bias = t.bias();
    let scale = case.target.iter().fold(0f32, |a, b| a.max(b.abs())) as f64;
    let mut prev = mse(&case.target, &vec![bias; case.n]);
    let eps = scale * 1e-6;
    for i in 0..t.log.len() {
        let now = mse(&case.target, &t.scores(i));
        let tol = 4.0 * eps * prev.sqrt() + 4.0 * eps * eps;
        if !cx.check(now <= prev + tol, "loss-grows", || format!("{}; {}: squared loss {} after iteration {}, {} before", case.show(), show_config(c), now, i + 1, prev)) { return; }
        prev = now;
    }
    let fin = mse(&case.target, &m.predict(&data));
    cx.check(fin <= prev + 4.0 * eps * prev.sqrt() + 4.0 * eps * eps, "final-loss", || format!("{}; {}: squared loss of the model {}, of the last iteration {}", case.show(), show_config(c), fin, prev));
    let mut h = H::new(212);
    h.u(prev.to_bits());
    let h = h.get();
    cx.state(h);
}

fn bin(o: &str) -> bool { o == "binary" || o == "hinge" }

/// All small data sets: every prefix of a run, for every loss.
fn prefix_small(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n = 2 + cx.choose(if cx.thorough() { 4 } else { 3 });
    let cat = cx.flag();
    let vals: Vec<f32> = multiset(cx, n, 3).into_iter().map(|v| v as f32).collect();
    let target: Vec<f32> = (0..n).map(|_| { let k = cx.choose(if bin(o) { 2 } else { 3 }); if bin(o) { k as f32 } else { [0.0, 1.0, -3.5][k] } }).collect();
    if !cx.mine() { return; }
    let mut c = knobs(cx, o, 4, if cx.thorough() { 1 } else { 0 });
    if !cx.thorough() {
        let s = cx.choose(5);
        if s == 1 { c.example_fraction = 0.5; }
        if s == 2 { c.example_fraction = 0.7; c.sample_freq = 2; }
        if s == 3 { c.example_fraction = 0.5; c.sample_freq = 4; }
        if s == 4 { c.example_fraction = 0.7; c.sample_freq = 9; }
    }
    prefixes(cx, &mut c, &Case { n, cols: vec![Col { vals, cat }], target }, 5, true);
}

/// Larger rows and up to two changed settings.
fn prefix_settings(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let which = cx.choose(4);
    let mut c = knobs(cx, o, 6, if cx.thorough() { 3 } else { 2 });
    if !cx.mine() { return; }
    let n = [6, 40, 130, 300][which];
    let ks: [usize; 3] = [[3, 1, 9], [4, 0, 2], [9, 7, 8], [2, 10, 3]][which];
    let cols = ks.iter().map(|&k| Col { vals: (0..n).map(|i| shaped(k, i, n).0).collect(), cat: shaped(k, 0, n).1 }).collect();
    let target = (0..n).map(|i| if bin(o) { (i * 7 % 5 < 2) as u8 as f32 } else { (i * 13 % 8) as f32 - 3.0 }).collect();
    let k = c.niterations;
    prefixes(cx, &mut c, &Case { n, cols, target }, k.max(2), false);
}

/// All small data sets: the squared loss after every iteration.
fn loss_small(cx: &mut Cx) {
    let n = 2 + cx.choose(if cx.thorough() { 5 } else { 4 });
    let cat = cx.flag();
    let vals: Vec<f32> = multiset(cx, n, 3).into_iter().map(|v| v as f32).collect();
    let target: Vec<f32> = (0..n).map(|_| [0.0, 1.0, -3.5, 100.0][cx.choose(4)]).collect();
    if !cx.mine() { return; }
    for lr in [1.0, 0.5, 0.9, 0.1] {
        for bits in [4, 1, 2, 8] {
            for (nb, ml, la) in [(16, 1, 0.0), (2, 2, 1.0), (1, 1, 30.0)] {
                let mut c = Config::new();
                c.objective = "l2".into();
                c.niterations = 8;
                c.learning_rate = lr;
                c.discr_nbits = bits;
                c.max_nbins = nb;
                c.min_examples_leaf = ml;
                c.reg_lambda = la;
                c.max_tree_depth = 1 + (nb % 3);
                monotone(cx, &c, &Case { n, cols: vec![Col { vals: vals.clone(), cat }], target: target.clone() });
            }
        }
    }
}

fn loss_settings(cx: &mut Cx) {
    let which = cx.choose(12);
    let tk = cx.choose(5);
    let mut c = knobs(cx, "l2", 12, if cx.thorough() { 3 } else { 2 });
    if c.example_fraction < 1.0 { cx.discard(); return; }
    if !cx.mine() { return; }
    c.niterations = if cx.thorough() { 60 } else { 20 };
    let n = [3, 17, 33, 64, 100, 257, 300, 40, 9, 513, 128, 70][which];
    let ks = [which % NSHAPES, (which * 5 + 3) % NSHAPES, (which * 3 + 7) % NSHAPES];
    let cols = ks.iter().map(|&k| Col { vals: (0..n).map(|i| shaped(k, i, n).0).collect(), cat: shaped(k, 0, n).1 }).collect();
    let target = (0..n).map(|i| match tk { 0 => (i * 13 % 8) as f32 - 3.0, 1 => (i == n - 1) as u8 as f32 * 1000.0, 2 => i as f32 + 1e4, 3 => ((i * i) % 97) as f32 * 1e-4, _ => (i % 2) as f32 * 2.0 - 1.0 }).collect();
    monotone(cx, &c, &Case { n, cols, target });
}

fn shaped_case(o: &str, n: usize, ks: [usize; 3], tk: usize) -> Case {
    let cols = ks.iter().map(|&k| Col { vals: (0..n).map(|i| shaped(k, i, n).0).collect(), cat: shaped(k, 0, n).1 }).collect();
    let target = (0..n).map(|i| if bin(o) { (i * 7 % 5 < 2) as u8 as f32 } else { match tk { 0 => (i * 13 % 8) as f32 - 3.0, _ => ((i % 991 * (i % 991)) % 97) as f32 * 0.25 - 3.0 } }).collect();
    Case { n, cols, target }
}

/// Many iterations or many rows.
fn scale(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let many = cx.choose(4);
    let frac = cx.pick(&[1.0f32, 0.5]);
    let freq = cx.pick(&[1usize, 3, 50]);
    if !cx.mine() { return; }
    let mut c = Config::new();
    c.objective = o.into();
    c.learning_rate = if o == "hinge" { 0.05 } else { 0.1 };
    c.discr_nbits = if o == "hinge" { 2 } else { 4 };
    c.example_fraction = frac;
    c.sample_freq = freq;
    c.max_tree_depth = 4;
    match many {
        0 | 1 => {
            let upto = [258, if cx.thorough() { 5000 } else { 1100 }][many];
            let case = shaped_case(o, 60, [3, 1, 9], 1);
            prefixes(cx, &mut c, &case, upto, false);
            c.niterations = upto;
            if o == "l2" && frac == 1.0 { monotone(cx, &c, &case); }
        }
        _ => {
            let n = [20_011, if cx.thorough() { 300_007 } else { 70_001 }][many - 2];
            let case = shaped_case(o, n, [4, 2, 8], 1);
            c.learning_rate *= 5.0;
            prefixes(cx, &mut c, &case, 4, true);
            c.niterations = 6;
            if o == "l2" && frac == 1.0 { monotone(cx, &c, &case); }
        }
    }
}

fn main() { mc::main(&[("scale", scale), ("prefix-small", prefix_small), ("prefix-settings", prefix_settings), ("loss-small", loss_small), ("loss-settings", loss_settings)]); }
