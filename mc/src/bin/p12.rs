//! P12: metrics equal their definition; names resolve.
use bitboost::metric::*;
use bitboost::objective::objective_from_name;
use mc::*;

const PREDS: [f32; 11] = [0.0, 0.5, 1.0, -1.0, 0.4999, 0.75, 2.0, -2.5, 5.0, -0.0, -1e-6];
const LABELS: [f32; 2] = [0.0, 1.0];
const TARGETS: [f32; 6] = [0.0, 1.0, -1.5, 3.25, 10.0, 0.125];
const NAMES: [&str; 8] = ["l2", "rmse", "binaryloss", "binary_loss", "binaryerror", "binary_error", "binaryerror01", "binary_error01"];

fn reference(kind: usize, t: &[f32], p: &[f32]) -> f64 {
    let n = t.len() as f64;
    let s: f64 = t.iter().zip(p).map(|(&t, &p)| {
        let (t, p) = (t as f64, p as f64);
        match kind {
            0 | 1 => (t - p) * (t - p),
            2 => { let y = 2.0 * t - 1.0; let z = -2.0 * y * p; if z > 0.0 { z + (-z).exp().ln_1p() } else { z.exp().ln_1p() } }
            3 => if (t < 0.5) == (p < 0.0) { 0.0 } else { 1.0 },
            _ => if (t < 0.5) == (p < 0.5) { 0.0 } else { 1.0 },
        }
    }).sum();
    if kind == 1 { (s / n).sqrt() } else { s / n }
}

fn kind_of(name: &str) -> usize {
    match name { "l2" => 0, "rmse" => 1, "binaryloss" | "binary_loss" => 2, "binaryerror" | "binary_error" => 3, _ => 4 }
}

fn close(a: f32, b: f64, n: usize) -> bool {
    let a = a as f64;
    a.is_finite() && (a - b).abs() <= 1e-6 + b.abs() * (4e-6 + n as f64 * 1.2e-7)
}

fn judge(cx: &mut Cx, t: &[f32], p: &[f32], binary: bool) {
    for name in NAMES.iter() {
        let k = kind_of(name);
        if k >= 2 && !binary { continue; }
        let m = match metric_from_name(name) { Some(m) => m, None => { cx.fail("name-missing", *name); continue; } };
        let got = m.eval(t, p);
        let want = reference(k, t, p);
        cx.step();
        cx.check(close(got, want, t.len()), &format!("value-{}", name), || if t.len() < 12 { format!("{} of targets {:?} predictions {:?} is {}, not {}", name, t, p, got, want) }
                 else { format!("{} of {} rows is {}, not {}", name, t.len(), got, want) });
    }
}

/// All small binary problems.
fn small_binary(cx: &mut Cx) {
    let n = 1 + cx.choose(if cx.thorough() { 4 } else { 3 });
    let ps: Vec<f32> = (0..n).map(|_| cx.pick(&PREDS)).collect();
    if !cx.mine() { return; }
    for bits in 0..1usize << n {
        let t: Vec<f32> = (0..n).map(|i| LABELS[bits >> i & 1]).collect();
        cx.state(H::new(1).fs(&t).fs(&ps).get());
        judge(cx, &t, &ps, true);
    }
    cx.sample(|| format!("predictions {:?}, all {} label vectors", ps, 1 << n));
}

/// All small regression problems.
fn small_regression(cx: &mut Cx) {
    let n = 1 + cx.choose(if cx.thorough() { 3 } else { 2 });
    let ts: Vec<f32> = (0..n).map(|_| cx.pick(&TARGETS)).collect();
    if !cx.mine() { return; }
    let mut idx = vec![0usize; n];
    loop {
        let ps: Vec<f32> = idx.iter().map(|&i| PREDS[i]).collect();
        cx.state(H::new(2).fs(&ts).fs(&ps).get());
        judge(cx, &ts, &ps, false);
        let mut k = 0;
        while k < n { idx[k] += 1; if idx[k] < PREDS.len() { break; } idx[k] = 0; k += 1; }
        if k == n { break; }
    }
}

/// Every length up to a bound and one odd row at every position: nothing is skipped or counted twice.
fn lengths(cx: &mut Cx) {
    let n = 1 + cx.choose(if cx.thorough() { 1100 } else { 300 });
    if !cx.mine() { return; }
    for odd in 0..n {
        if n > 64 && !(odd < 3 || odd + 3 >= n || odd % 8 == 0 || odd % 32 == 31) { continue; }
        let t: Vec<f32> = (0..n).map(|i| if i == odd { 1.0 } else { 0.0 }).collect();
        let p: Vec<f32> = (0..n).map(|i| if i == odd { -1.0 } else { -0.25 }).collect();
        cx.state(H::new(3).n(n).n(odd).get());
        judge(cx, &t, &p, true);
        // the same rows in reverse order
        let (mut t2, mut p2) = (t.clone(), p.clone());
        t2.reverse();
        p2.reverse();
        judge(cx, &t2, &p2, true);
    }
}

/// Order of the rows: all permutations of 4 rows.
fn permutations(cx: &mut Cx) {
    let mut left: Vec<usize> = (0..5).collect();
    let mut perm = vec![];
    while !left.is_empty() { let i = cx.choose(left.len()); perm.push(left.remove(i)); }
    if !cx.mine() { return; }
    let t = [0.0, 1.0, 1.0, 0.0, 1.0];
    let p = [0.5, -0.75, 3.0, -4.0, 0.25];
    let (t1, p1): (Vec<f32>, Vec<f32>) = (perm.iter().map(|&i| t[i]).collect(), perm.iter().map(|&i| p[i]).collect());
    cx.state(H::new(4).us(&perm).get());
    judge(cx, &t1, &p1, true);
}

/// Scores over the whole range in which the binary loss can be computed, magnitudes over many decades, and lengths
/// across the widths of the small integer types.
fn ranges(cx: &mut Cx) {
    match cx.choose(3) {
        0 => {
            // a score in -42 .. 42, in steps of an eighth
            let k = cx.choose(673) as i32 - 336;
            let t = cx.pick(&LABELS);
            if !cx.mine() { return; }
            let p = k as f32 / 8.0;
            cx.state(H::new(7).f(t).f(p).get());
            judge(cx, &[t], &[p], true);
            judge(cx, &[0.0, t, 1.0], &[0.5, p, 0.25], true);
        }
        1 => {
            let (a, b) = (cx.choose(25) as i32 - 12, cx.choose(25) as i32 - 12);
            let (sa, sb) = (cx.pick(&[1.0f32, -1.0]), cx.pick(&[1.0f32, -1.0]));
            if !cx.mine() { return; }
            let (t, p) = (sa * 10f32.powi(a), sb * 10f32.powi(b));
            cx.state(H::new(8).f(t).f(p).get());
            // a squared error is judged relative to its own size
            for (name, k) in [("l2", 0), ("rmse", 1)].iter() {
                let got = metric_from_name(name).unwrap().eval(&[t, t, 0.0], &[p, p, 0.0]);
                let want = reference(*k, &[t, t, 0.0], &[p, p, 0.0]);
                cx.step();
                cx.check(got.is_finite() && (got as f64 - want).abs() <= want * 1e-5 + 1e-36, "value-decades", || format!("{} of target {} and prediction {} is {}, not {}", name, t, p, got, want));
            }
        }
        _ => {
            let n = cx.pick(&[1023usize, 1025, 4097, 5001, 10_007, 32_769, 65_535, 65_537, 131_073]);
            let odd = cx.choose(6);
            if !cx.mine() { return; }
            // a block of rows that differ, wherever it is: at least a hundredth of the rows
            let (lo, hi) = (odd * n / 6, (odd + 1) * n / 6);
            let t: Vec<f32> = (0..n).map(|i| if i >= lo && i < hi { 1.0 } else { 0.0 }).collect();
            let p: Vec<f32> = (0..n).map(|i| if i >= lo && i < hi { -1.0 } else { -0.25 }).collect();
            cx.state(H::new(9).n(n).n(odd).get());
            for name in NAMES.iter() {
                let k = kind_of(name);
                let got = metric_from_name(name).unwrap().eval(&t, &p) as f64;
                let want = reference(k, &t, &p);
                cx.step();
                // (single precision sums of this many terms are only good to about a thousandth)
                cx.check((got - want).abs() <= 4e-3 * want, "value-many-rows", || format!("{} of {} rows (rows {}..{} wrong) is {}, not {}", name, n, lo, hi, got, want));
            }
            // every other row
            for step in [2usize, 3, 64].iter() {
                let t: Vec<f32> = (0..n).map(|i| if i % step == odd % step { 1.0 } else { 0.0 }).collect();
                let p: Vec<f32> = (0..n).map(|i| if i % step == odd % step { -1.0 } else { -0.25 }).collect();
                for name in NAMES.iter() {
                    let k = kind_of(name);
                    let got = metric_from_name(name).unwrap().eval(&t, &p) as f64;
                    let want = reference(k, &t, &p);
                    cx.step();
                    cx.check((got - want).abs() <= 4e-3 * want, "value-many-rows", || format!("{} of {} rows (every {}th wrong) is {}, not {}", name, n, step, got, want));
                }
            }
        }
    }
}

fn same_metric(m: &dyn Metric, k: usize) -> bool {
    let (t, p) = ([0.0f32, 1.0, 1.0, 0.0, 0.0], [0.25f32, 0.25, 3.0, -1.0, 0.75]);
    close(m.eval(&t, &p), reference(k, &t, &p), 5)
}

/// Letter cases of all names.
fn cases(cx: &mut Cx) {
    let name = cx.pick(&NAMES);
    let letters: Vec<usize> = name.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|x| x.0).collect();
    let mut mask = vec![false; name.len()];
    for (k, &i) in letters.iter().enumerate() { if k < 11 || cx.thorough() { mask[i] = cx.flag(); } }
    if !cx.mine() { return; }
    let s: String = name.chars().enumerate().map(|(i, c)| if mask[i] { c.to_ascii_uppercase() } else { c }).collect();
    cx.step();
    cx.state(H::new(5).s(&s).get());
    match metric_from_name(&s) {
        Some(m) => { cx.check(same_metric(m.as_ref(), kind_of(name)), "wrong-metric", || format!("{:?} gives another metric", s)); }
        None => cx.fail("name-rejected", format!("metric {:?} not found", s)),
    }
    let list = vec!["l2".to_string(), s.clone(), "rmse".to_string()];
    match metrics_from_names(&list) {
        Some(v) => { cx.check(v.len() == 3 && same_metric(v[0].as_ref(), 0) && same_metric(v[1].as_ref(), kind_of(name)) && same_metric(v[2].as_ref(), 1),
                      "list-order", || format!("list {:?} resolved to other metrics", list)); }
        None => cx.fail("list-rejected", format!("list {:?} rejected", list)),
    }
}

fn obj_cases(cx: &mut Cx) {
    let names = ["l2", "l1", "huber", "binary", "hinge"];
    let name = cx.pick(&names);
    let s: String = name.chars().map(|c| if c.is_ascii_alphabetic() && cx.flag() { c.to_ascii_uppercase() } else { c }).collect();
    if !cx.mine() { return; }
    cx.step();
    cx.state(H::new(6).s(&s).get());
    match objective_from_name(&s) {
        Some(mut o) => {
            // told apart by start value and gradients on skewed data
            let mut c = bitboost::config::Config::new();
            c.discr_nbits = 2;
            c.huber_alpha = 0.5;
            let t = [0.0f32, 0.0, 0.0, 1.0];
            o.initialize(&c, &t);
            o.update(&t);
            let b = o.bias();
            let g = o.gradients()[3];
            let bd = o.bounds();
            let ok = match name {
                "l2" => (b - 0.25).abs() < 1e-6 && (g + 0.75).abs() < 1e-6,
                "l1" => b.abs() < 0.01 && g == -1.0 && bd == (-1.0, 1.0),
                "huber" => b.abs() < 0.01 && g.abs() < 0.01 && bd.1 < 0.01,
                "binary" => (b - 0.5 * (1.0f32 / 3.0).ln()).abs() < 1e-5 && bd == (-1.25, 1.25),
                _ => (b + 0.5).abs() < 1e-6 && g == -1.0 && bd == (-1.0, 2.0),
            };
            cx.check(ok, "wrong-objective", || format!("{:?}: bias {} gradient {} bounds {:?}", s, b, g, bd));
        }
        None => cx.fail("objective-rejected", format!("objective {:?} not found", s)),
    }
}

/// Near misses (one edit) and all short strings over a small alphabet are rejected.
fn rejects(cx: &mut Cx) {
    let mode = cx.choose(2);
    let s: String = if mode == 0 {
        let all = ["l2", "rmse", "binaryloss", "binary_loss", "binaryerror", "binary_error", "binaryerror01", "binary_error01", "l1", "huber", "binary", "hinge"];
        let name: Vec<char> = cx.pick(&all).chars().collect();
        let op = cx.choose(3);
        let abc: Vec<char> = "abl12_ r0 x".chars().collect();
        let mut v = name.clone();
        match op {
            0 => { let i = cx.choose(v.len()); v.remove(i); }
            1 => { let i = cx.choose(v.len() + 1); let c = cx.pick(&abc); v.insert(i, c); }
            _ => { let i = cx.choose(v.len()); let c = cx.pick(&abc); v[i] = c; }
        }
        v.into_iter().collect()
    } else {
        let abc: Vec<char> = "lL12rm".chars().collect();
        let n = cx.choose(4);
        (0..n).map(|_| cx.pick(&abc)).collect()
    };
    if !cx.mine() { return; }
    cx.step();
    cx.state(H::new(7).s(&s).get());
    let low = s.to_lowercase();
    let is_m = NAMES.contains(&low.as_str());
    let is_o = ["l2", "l1", "huber", "binary", "hinge"].contains(&low.as_str());
    cx.check(metric_from_name(&s).is_some() == is_m, "metric-name", || format!("metric name {:?}: found {}", s, !is_m));
    cx.check(objective_from_name(&s).is_some() == is_o, "objective-name", || format!("objective name {:?}: found {}", s, !is_o));
    if !is_m {
        for pos in 0..3 {
            let mut l = vec!["l2".to_string(), "rmse".to_string()];
            l.insert(pos, s.clone());
            cx.check(metrics_from_names(&l).is_none(), "list-with-unknown", || format!("list {:?} accepted", l));
        }
    }
}

fn main() {
    mc::main(&[("small_binary", small_binary), ("small_regression", small_regression), ("lengths", lengths),
               ("permutations", permutations), ("ranges", ranges), ("cases", cases), ("obj_cases", obj_cases), ("rejects", rejects)]);
}
