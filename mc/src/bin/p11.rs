//! P11: leaf values optimise their loss and are booked on exactly the rows of the leaf.
use bitboost::config::Config;
use bitboost::objective::Objective;
use mc::lossref::*;
use mc::train::*;
use mc::*;

const ALL: [&str; 5] = ["l2", "l1", "huber", "binary", "hinge"];
const RATES: [f32; 4] = [1.0, 0.5, 0.1, 0.0];

struct Snap { p: Vec<f32>, g: Vec<f32>, bd: (f32, f32) }
fn snap(o: &dyn Objective) -> Snap { Snap { p: o.predictions().to_vec(), g: o.gradients().to_vec(), bd: o.bounds() } }

fn class(name: &str) -> bool { name == "binary" || name == "hinge" }

/// Fit one leaf and judge the value and the booking.
fn fit(cx: &mut Cx, name: &str, o: &mut dyn Objective, t: &[f32], rows: &[usize], lr: f32, lim: (f64, f64)) {
    let s = snap(o);
    let v = o.predict_leaf_value(t, rows);
    cx.step();
    let (a, b) = leaf_range(name, t, &s.p, &s.g, s.bd.1, lim, rows);
    let (la, lb) = (lr as f64 * a, lr as f64 * b);
    let e = 1e-6 * (la.abs() + lb.abs()) + 1e-12;
    cx.check(v.is_finite() && (v as f64) >= la - e && (v as f64) <= lb + e, &format!("leaf-value-{}", name), || format!(
        "targets {:?} scores {:?} rows {:?} learning rate {}: {}, expected in [{}, {}]", sh(t), sh(&s.p), &rows[..rows.len().min(12)], lr, v, la, lb));
    let now = o.predictions();
    let mut inl = vec![false; t.len()];
    for &i in rows { inl[i] = true; }
    let mut bad = None;
    for i in 0..t.len() {
        let want = if inl[i] { s.p[i] + v } else { s.p[i] };
        if now[i].to_bits() != want.to_bits() && !(now[i] == 0.0 && want == 0.0) { bad = Some((i, now[i], want)); }
    }
    cx.check(bad.is_none(), &format!("booking-{}", name), || format!("rows {:?} value {}: row {:?} (row, score, expected)", &rows[..rows.len().min(12)], v, bad));
    let g = o.gradients();
    cx.check(same_bits(g, &s.g) && o.bounds() == s.bd, &format!("gradients-touched-{}", name), || "fitting a leaf changed the gradients or bounds".to_string());
}

fn sh(v: &[f32]) -> &[f32] { &v[..v.len().min(12)] }

fn start(name: &str, t: &[f32], lr: f32, alpha: f32) -> Box<dyn Objective> {
    let mut c = Config::new();
    c.discr_nbits = if name == "hinge" { 2 } else { 4 };
    c.learning_rate = lr;
    c.huber_alpha = alpha;
    let mut o = obj(name);
    o.initialize(&c, t);
    o
}

fn lims(o: &dyn Objective, t: &[f32]) -> (f64, f64) { minmax(&residuals(t, o.predictions())) }

/// All targets, score offsets, and all partitions of the rows into leaf / other leaf / left out, with the
/// leaves fitted one after the other on the same gradients.
fn small(cx: &mut Cx) {
    let name = cx.pick(&ALL);
    let n = 1 + cx.choose(if cx.thorough() { 4 } else { 3 });
    let vals: &[f32] = if class(name) { &[0.0, 1.0] } else { &[0.0, 1.0, -3.0, 10.0, 0.3] };
    let t: Vec<f32> = (0..n).map(|_| cx.pick(vals)).collect();
    let part: Vec<usize> = (0..n).map(|_| cx.choose(3)).collect();
    if !cx.mine() { return; }
    let lr = cx.pick(&RATES);
    let alpha = if name == "huber" { cx.pick(&[0.95f32, 0.5, 0.1]) } else { 0.95 };
    let mv: &[f32] = if class(name) { &[0.0, 1.0, -2.5] } else { &[0.0, 2.0, -0.75] };
    let mut idx = vec![0usize; n];
    loop {
        let mut o = start(name, &t, lr, alpha);
        for i in 0..n { o.update_out_of_bag_prediction(i, mv[idx[i]]); }
        o.update(&t);
        let lim = lims(o.as_ref(), &t);
        cx.state(H::new(1).s(name).fs(&t).fs(o.predictions()).us(&part).f(lr).get());
        for leaf in 0..2 {
            let rows: Vec<usize> = (0..n).filter(|&i| part[i] == leaf).collect();
            if !rows.is_empty() { fit(cx, name, o.as_mut(), &t, &rows, lr, lim); }
        }
        for i in (0..n).filter(|&i| part[i] == 2) { oob(cx, name, o.as_mut(), i, 0.375); }
        let mut k = 0;
        while k < n { idx[k] += 1; if idx[k] < mv.len() { break; } idx[k] = 0; k += 1; }
        if k == n { break; }
    }
    cx.sample(|| format!("{} targets {:?} leaves {:?} learning rate {}", name, t, part, lr));
}

fn oob(cx: &mut Cx, name: &str, o: &mut dyn Objective, i: usize, v: f32) {
    let s = snap(o);
    o.update_out_of_bag_prediction(i, v);
    let mut want = s.p.clone();
    want[i] += v;
    cx.step();
    cx.check(same_bits(&want, o.predictions()), &format!("out-of-bag-{}", name), || format!("row {} += {}: {:?}, not {:?}", i, v, sh(o.predictions()), sh(&want)));
    cx.check(same_bits(&s.g, o.gradients()) && o.bounds() == s.bd, &format!("out-of-bag-gradients-{}", name), || "changed".into());
}

/// Larger leaves: every (start, stride, length) row pattern, in several rounds of boosting.
fn large(cx: &mut Cx) {
    let name = cx.pick(&ALL);
    let n = if cx.thorough() { cx.pick(&[40usize, 300, 1500, 12_003, 70_001, 140_001, 600_001]) } else { cx.pick(&[40usize, 300, 1500, 12_003, 70_001, 140_001]) };
    let big = n > 2000;
    let stride = 1 + cx.choose(if big { 2 } else { 4 });
    let off = if big { 0 } else { cx.choose(4) };
    let kind = cx.choose(if class(name) { 3 } else { 7 });
    let lr = if big { 1.0 } else { cx.pick(&[1.0f32, 0.3]) };
    if !cx.mine() { return; }
    let t: Vec<f32> = (0..n).map(|i| if class(name) { match kind { 0 => (i % 2) as f32, 1 => if i % 5 == 0 { 1.0 } else { 0.0 }, _ => if i < n / 3 { 0.0 } else { 1.0 } } }
        else { match kind { 0 => (i % 11) as f32, 1 => (i as f32).sqrt(), 2 => if i % 9 == 0 { 500.0 } else { 0.5 }, 3 => -(i as f32) * 0.01, 4 => if i % 2 == 0 { 1.0 } else { 10.0 }, 5 => if i < n / 3 { 7.5 } else { -1.0 }, _ => ((i * i) % 101) as f32 * 0.1 - 4.0 } }).collect();
    // the hinge step is only stable for small learning rates
    let lr = if name == "hinge" { lr * 0.1 } else { lr };
    let mut o = start(name, &t, lr, 0.9);
    for round in 0..3 {
        o.update(&t);
        let lim = lims(o.as_ref(), &t);
        cx.state(H::new(2).s(name).fs(&t).fs(o.predictions()).n(stride).n(off).get());
        let a: Vec<usize> = (off..n).step_by(stride + round).collect();
        let mut ina = vec![false; n];
        for &i in &a { ina[i] = true; }
        let b: Vec<usize> = (0..n).filter(|&i| !ina[i] && i % 7 != 3).collect();
        fit(cx, name, o.as_mut(), &t, &a, lr, lim);
        if !b.is_empty() { fit(cx, name, o.as_mut(), &t, &b, lr, lim); }
        for i in (0..n).filter(|&i| !ina[i] && i % 7 == 3).take(5) { oob(cx, name, o.as_mut(), i, -0.25); }
    }
    cx.sample(|| format!("{} {} rows, every {}th row from {}, targets kind {}", name, n, stride, off, kind));
}

fn main() { mc::main(&[("small", small), ("large", large)]); }
