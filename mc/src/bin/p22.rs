//! P22: training on valid input never aborts and always predicts finite numbers.
use bitboost::config::Config;
use mc::train::*;
use mc::*;

fn run(cx: &mut Cx, c: &Config, case: &Case, test: Option<&Case>) {
    cx.step();
    let r = cx.guard(|| {
        let data = case.data(c);
        let mut o = obj(&c.objective);
        let (model, scores) = boost(c, &data, &mut *o);
        let p = model.predict(&data);
        let t = test.map(|t| model.predict(&t.data(c)));
        (p, scores, t, o.gradients().to_vec(), o.bias())
    });
    // the recorded finding: boosting the hinge loss with a learning rate beyond its
    // stability limit makes the scores grow until they are not finite
    let unstable = c.objective == "hinge" && c.learning_rate > 0.25;
    let key = |k: &'static str| if unstable { "hinge-diverges-for-learning-rate-above-0.25" } else { k };
    match r {
        Err(e) => cx.fail(if e.contains("is_finite") { key("not-finite") } else { "panic" }, format!("{}; {}: {}", case.show(), show_config(c), e)),
        Ok((p, s, t, g, bias)) => {
            let mut h = H::new(22);
            h.fs(&p);
            let h = h.get();
            cx.state(h);
            cx.check(bias.is_finite(), key("bias"), || format!("{}; {}: bias {}", case.show(), show_config(c), bias));
            cx.check(p.len() == case.n && p.iter().all(|x| x.is_finite()), key("prediction"), || format!("{}; {}: predictions {:?}", case.show(), show_config(c), &p[..p.len().min(16)]));
            cx.check(s.iter().all(|x| x.is_finite()), key("score"), || format!("{}; {}: scores", case.show(), show_config(c)));
            cx.check(g.iter().all(|x| x.is_finite()), key("gradient"), || format!("{}; {}: gradients", case.show(), show_config(c)));
            if let Some(t) = t {
                cx.check(t.len() == test.unwrap().n && t.iter().all(|x| x.is_finite()), key("test-prediction"), || format!("{}; {}: predictions on other rows {:?}", case.show(), show_config(c), &t[..t.len().min(16)]));
            }
        }
    }
}

fn binary(o: &str) -> bool { o == "binary" || o == "hinge" }

const NUM: [f32; 4] = [0.0, 1.0, -2.5, 1e5];
const CAT: [f32; 4] = [0.0, 1.0, 2.0, 500.0];
const TGT: [f32; 4] = [0.0, 1.0, -3.5, 2e4];

/// All data sets of up to 3 rows and one column over small alphabets, up to two changed settings.
fn tiny(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n = 1 + cx.choose(3);
    let cat = cx.flag();
    let k = if cx.thorough() { 4 } else { 3 };
    let vals: Vec<f32> = (0..n).map(|_| if cat { CAT[cx.choose(k)] } else { NUM[cx.choose(k)] }).collect();
    let kt = if binary(o) { 2 } else { k };
    let target: Vec<f32> = multiset(cx, n, kt).into_iter().map(|i| TGT[i]).collect();
    if !cx.mine() { return; }
    let dev = if n < 3 || cx.thorough() { 2 } else { 1 };
    let c = knobs(cx, o, 3, dev);
    let case = Case { n, cols: vec![Col { vals, cat }], target };
    let test = Case { n: 3, cols: vec![Col { vals: if cat { vec![0.0, 7.0, 1000.0] } else { vec![-1e6, 0.5, 1e6] }, cat }], target: vec![0.0; 3] };
    run(cx, &c, &case, Some(&test));
}

/// Two settings changed at once on a handful of small data sets of every degenerate kind.
fn settings(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let which = cx.choose(6);
    let c = knobs(cx, o, 3, if cx.thorough() { 4 } else { 3 });
    if !cx.mine() { return; }
    let n = [1, 2, 5, 9, 33, 40][which];
    let ks: &[usize] = [&[5usize][..], &[0, 3], &[1, 4, 5, 6], &[9, 7], &[2, 4, 0], &[6]][which];
    let cols = ks.iter().map(|&k| Col { vals: (0..n).map(|i| shaped(k, i, n).0).collect(), cat: shaped(k, 0, n).1 }).collect();
    let target = (0..n).map(|i| if binary(o) { (i * 7 % 3 == 0) as u8 as f32 } else { (i * 13 % 8) as f32 - 3.0 }).collect();
    let test = Case { n: 2, cols: ks.iter().map(|&k| Col { vals: vec![0.0, 900.0], cat: shaped(k, 0, n).1 }).collect(), target: vec![0.0, 1.0] };
    run(cx, &c, &Case { n, cols, target }, Some(&test));
}

/// Pairs of columns and target shapes at row counts around the block sizes.
fn shapes(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n = cx.pick(&[1usize, 2, 3, 7, 31, 32, 33, 64, 255, 256, 257, 300, 513, 1025]);
    let k1 = cx.choose(NSHAPES);
    let t = cx.choose(5);
    if !cx.mine() { return; }
    let k2 = if cx.thorough() { cx.choose(NSHAPES) } else { (k1 * 3 + n + t) % NSHAPES };
    let c = knobs(cx, o, 3, if n < 300 { 1 } else { 0 });
    let cols = [k1, k2].iter().map(|&k| Col { vals: (0..n).map(|i| shaped(k, i, n).0).collect(), cat: shaped(k, 0, n).1 }).collect();
    let target = (0..n).map(|i| match t {
        0 => if binary(o) { 1.0 } else { 5.5 },
        1 => if binary(o) { 0.0 } else { -1e5 },
        2 => (i + 1 == n) as u8 as f32,
        3 => (i % 2) as f32,
        _ => if binary(o) { (i * i % 7 < 3) as u8 as f32 } else { ((i * 37) % 101) as f32 * 0.25 - 9.0 },
    }).collect();
    run(cx, &c, &Case { n, cols, target }, None);
}

/// Magnitudes, signs and near-equal values of features and targets.
fn magnitudes(cx: &mut Cx) {
    let o = cx.pick(&["l2", "l1", "huber"]);
    let f = cx.pick(&[1e-30f32, 1e-6, 1.0, 16777216.0, 1e6, 1e15]);
    let off = cx.pick(&[0.0f32, 1.0, -1000.0, 1e6]);
    let tm = cx.pick(&[1e-30f32, 1e-6, 1.0, 1e6, 1e9]);
    let toff = cx.pick(&[0.0f32, 1.0, -1e4, 1e6]);
    if !cx.mine() { return; }
    let n = cx.pick(&[2usize, 5, 12]);
    let c = knobs(cx, o, 4, if cx.thorough() { 2 } else { 1 });
    let vals = (0..n).map(|i| off + f * ((i * 5 % 7) as f32 - 3.0)).collect();
    let target = (0..n).map(|i| toff + tm * ((i * 3 % 5) as f32 - 1.0)).collect();
    run(cx, &c, &Case { n, cols: vec![Col { vals, cat: false }], target }, None);
}

/// Cardinalities of categorical columns around every limit, with few and many rows.
fn cards(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let card = cx.pick(&[1usize, 2, 3, 15, 16, 17, 255, 256, 257, 4000, 65000]);
    let n = cx.pick(&[1usize, 2, 3, 40]);
    let place = cx.choose(3);
    if !cx.mine() { return; }
    let c = knobs(cx, o, 2, 1);
    if card > 4000 && !cx.thorough() && (c.niterations > 2 || c.max_nbins > 64) { cx.discard(); return; }
    let vals = (0..n).map(|i| match place {
        0 => if i + 1 == n { card - 1 } else { i % card },
        1 => card - 1,
        _ => (i * (card / 3 + 1)) % card,
    } as f32).collect();
    let target = (0..n).map(|i| if binary(o) { (i % 3 == 0) as u8 as f32 } else { i as f32 * 0.7 }).collect();
    let test = Case { n: 3, cols: vec![Col { vals: vec![0.0, card as f32, 65535.0], cat: true }], target: vec![0.0; 3] };
    run(cx, &c, &Case { n, cols: vec![Col { vals, cat: true }], target }, Some(&test));
}

/// Long runs: scores stay finite however many trees are added.
fn long(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let lr = cx.pick(&[1.0f32, 0.75, 0.5, 0.3, 0.25, 0.1, 0.05]);
    let n = cx.pick(&[1usize, 2, 4, 9, 40]);
    let t = cx.choose(6);
    let k = cx.choose(5);
    if !cx.mine() { return; }
    let sampled = cx.flag();
    let mut c = Config::new();
    c.objective = o.to_string();
    if o == "hinge" { c.discr_nbits = 2; }
    c.learning_rate = lr;
    c.niterations = if cx.thorough() { 4000 } else { 500 };
    c.max_tree_depth = 1 + t % 3;
    if sampled { c.example_fraction = 0.5; c.feature_fraction = 0.5; }
    let cols = [k, 4].iter().map(|&k| Col { vals: (0..n).map(|i| shaped(k, i, n).0).collect(), cat: shaped(k, 0, n).1 }).collect();
    let target = (0..n).map(|i| { let b = match t { 0 => false, 1 => i == 0, 2 => i % 2 == 0, 3 => i % 4 != 0, 4 => i * i % 7 < 3, _ => true }; if binary(o) { b as u8 as f32 } else { b as u8 as f32 * 10.0 + i as f32 } }).collect();
    run(cx, &c, &Case { n, cols, target }, None);
}

/// Many columns of all kinds with any setting changed.
fn wide(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let m = cx.pick(&[17usize, 40, 130, 66_003]);
    let n = cx.pick(&[1usize, 40, 300]);
    let salt = cx.choose(3);
    if m > 1000 {
        if n > 40 || !cx.thorough() && (salt > 0 || n == 1) { cx.discard(); return; }
        if !cx.mine() { return; }
        let mut c = knobs(cx, o, 2, 0);
        c.max_nbins = 3;
        let mut case = far_case(m, n, salt);
        if binary(o) { case.target.iter_mut().for_each(|t| *t = (*t > 0.0) as u8 as f32); }
        run(cx, &c, &case, None);
        return;
    }
    if !cx.mine() { return; }
    let c = knobs(cx, o, 3, if cx.thorough() { 2 } else { 1 });
    let mut case = wide_case(m, n, salt);
    if binary(o) { case.target.iter_mut().for_each(|t| *t = (*t > 0.0) as u8 as f32); }
    run(cx, &c, &case, None);
}

/// Many rows.
fn large(cx: &mut Cx) {
    let o = cx.pick(&OBJECTIVES);
    let n = cx.pick(&[33_001usize, 70_003]);
    let t = cx.choose(5);
    let depth = cx.pick(&[1usize, 4, 10]);
    if !cx.mine() { return; }
    let k = t * 2 + depth + n % 7;
    let n = if cx.thorough() { n * 3 } else { n };
    let mut c = knobs(cx, o, 2, if cx.thorough() { 1 } else { 0 });
    if o == "hinge" { c.discr_nbits = 2; }
    c.max_tree_depth = depth;
    let cols = [k % NSHAPES, (k + 4) % NSHAPES, (k + 7) % NSHAPES].iter().map(|&k| Col { vals: (0..n).map(|i| shaped(k, i, n).0).collect(), cat: shaped(k, 0, n).1 }).collect();
    let target = (0..n).map(|i| match t {
        0 => if binary(o) { 1.0 } else { 5.5 },
        1 => (i + 1 == n) as u8 as f32,
        2 => (i % 2) as f32,
        3 => if binary(o) { (i * 2 > n) as u8 as f32 } else { i as f32 * 1000.0 },
        _ => if binary(o) { (i % 97 * (i % 97) % 7 < 3) as u8 as f32 } else { ((i * 37) % 1013) as f32 * 0.25 - 90.0 },
    }).collect();
    run(cx, &c, &Case { n, cols, target }, None);
}

fn main() { mc::main(&[("tiny", tiny), ("settings", settings), ("shapes", shapes), ("magnitudes", magnitudes), ("cards", cards), ("long", long), ("wide", wide), ("large", large)]); }
