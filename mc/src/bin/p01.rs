//! P01: every training row is scored by the leaf it was trained in; trainer scores = predictions.
use bitboost::config::Config;
use bitboost::dataset::Dataset;
use bitboost::tree::TreeLearnerContext;
use mc::train::*;
use mc::*;

/// Train one tree with the scripted objective on the current dataset and judge it.
fn judge_tree(cx: &mut Cx, c: &Config, ctx: &mut TreeLearnerContext, ds: &mut Dataset, n: usize, g: &[f32], b: (f32, f32), what: &dyn Fn() -> String) {
    let (ins, outs) = sampled_rows(ds, n);
    let run = learn(c, ctx, ds, g, b);
    cx.step();
    let mut seen = vec![0usize; n];
    for (k, leaf) in run.leaves.iter().enumerate() {
        cx.check(!leaf.is_empty(), "empty-leaf", || what());
        for &i in leaf {
            if !cx.check(i < n, "row-out-of-range", || format!("{}: row {}", what(), i)) { return; }
            seen[i] += 1;
            let p = run.tree.predict_single(ds.data(), i);
            cx.check(p == (k + 1) as f32, "other-leaf", || format!("{}: row {} was fitted in leaf {} but is predicted {}", what(), i, k + 1, p));
        }
    }
    for &i in &ins { cx.check(seen[i] == 1, "not-partitioned", || format!("{}: sampled row {} is in {} leaves", what(), i, seen[i])); }
    for &i in &outs { cx.check(seen[i] == 0, "foreign-row", || format!("{}: left-out row {} is in {} leaves", what(), i, seen[i])); }
    // left-out rows: each once, with the tree's own prediction
    let mut oseen = vec![0usize; n];
    for &(i, v) in &run.oob {
        if !cx.check(i < n, "oob-out-of-range", || format!("{}: row {}", what(), i)) { return; }
        oseen[i] += 1;
        let p = run.tree.predict_single(ds.data(), i);
        cx.check(p.to_bits() == v.to_bits(), "oob-value", || format!("{}: left-out row {} booked with {} but predicted {}", what(), i, v, p));
    }
    for &i in &outs { cx.check(oseen[i] == 1, "oob-missing", || format!("{}: left-out row {} booked {} times", what(), i, oseen[i])); }
    for &i in &ins { cx.check(oseen[i] == 0, "oob-sampled", || format!("{}: sampled row {} booked as left out", what(), i)); }
    let full = run.tree.predict(ds.data());
    cx.check(same_bits(&full, &run.preds), "scores", || format!("{}: scores {:?} predictions {:?}", what(), &run.preds[..n.min(12)], &full[..n.min(12)]));
    cx.note("leaves", run.leaves.len() as u64);
    if c.max_tree_depth > 15 { if let Ok(nodes) = recover(&run.tree, &run.leaves) { let d = nodes.iter().map(|x| x.depth).max().unwrap_or(0); if d >= 16 { cx.note("trees deeper than 15", 1); } } }
    let mut h = H::new(11);
    for l in &run.leaves { h.us(l); }
    let h = h.get();
    cx.state(h);
}

fn tree_case(cx: &mut Cx, c: &Config, case: &Case, grads: &[f32], b: (f32, f32), refreshes: usize) {
    let data = case.data(c);
    let what = |r: usize| format!("{} gradients {:?} nbits {} max_nbins {} depth {} fraction {} compress {} refresh {}",
        case.show(), &grads[..case.n.min(16)], c.discr_nbits, c.max_nbins, c.max_tree_depth, c.example_fraction, c.compression_threshold, r);
    let mut ds = Dataset::new(c, &data);
    let mut ctx = TreeLearnerContext::new(c, &data);
    for r in 0..refreshes {
        ds.update(c, grads, b);
        judge_tree(cx, c, &mut ctx, &mut ds, case.n, grads, b, &|| what(r));
        if cx.failed() { return; }
    }
    cx.sample(|| what(0));
}

/// All multisets of rows over a small alphabet: numeric and categorical columns, gradient levels.
fn small(cx: &mut Cx) {
    let max_nbins = cx.pick(&[1usize, 2, 4]); // 2 makes the three categories a high-cardinality feature
    let n = 1 + cx.choose(if cx.thorough() { 6 } else { 5 });
    let frac = cx.pick(&[1.0f32, 0.6]);
    let nums = [0.0f32, 1.0, 2.5];
    let gs = [-1.0f32, 1.0 / 3.0, 1.0];
    let rows = multiset(cx, n, 27);
    if !cx.mine() { return; }
    let case = Case { n, cols: vec![
        Col { vals: rows.iter().map(|r| nums[r % 3]).collect(), cat: false },
        Col { vals: rows.iter().map(|r| (r / 3 % 3) as f32).collect(), cat: true }],
        target: vec![0.0; n] };
    let g: Vec<f32> = rows.iter().map(|r| gs[r / 9]).collect();
    let mut c = base_config();
    c.max_nbins = max_nbins;
    c.discr_nbits = 2;
    c.max_tree_depth = 2;
    c.example_fraction = frac;
    tree_case(cx, &c, &case, &g, (-1.0, 1.0), if frac < 1.0 { 3 } else { 1 });
}

/// Real boosting on all small multisets, every loss: trainer scores = predictions, bit for bit.
fn small_boost(cx: &mut Cx) {
    let loss = cx.choose(5);
    let frac = cx.pick(&[1.0f32, 0.5]);
    let ffrac = cx.pick(&[1.0f32, 0.5]);
    let n = 1 + cx.choose(if cx.thorough() { 5 } else { 4 });
    let rows = multiset(cx, n, 27);
    if !cx.mine() { return; }
    let nums = [0.0f32, 1.0, 2.5];
    let ts = if loss < 3 { [-1.5f32, 0.25, 4.0] } else { [0.0, 1.0, 1.0] };
    let case = Case { n, cols: vec![
        Col { vals: rows.iter().map(|r| nums[r % 3]).collect(), cat: false },
        Col { vals: rows.iter().map(|r| (r / 3 % 3) as f32).collect(), cat: true }],
        target: rows.iter().map(|r| ts[r / 9]).collect() };
    let mut c = base_config();
    c.max_nbins = 2;
    c.max_tree_depth = 2;
    c.niterations = 3;
    c.example_fraction = frac;
    c.feature_fraction = ffrac;
    c.discr_nbits = if loss == 4 { 2 } else { 4 };
    c.sample_freq = 1 + (rows[0] % 2);
    boost_case(cx, &c, &case, ["l2", "l1", "huber", "binary", "hinge"][loss]);
}

fn boost_case(cx: &mut Cx, c: &Config, case: &Case, loss: &str) {
    let data = case.data(c);
    let mut o = obj(loss);
    let (model, scores) = boost(c, &data, &mut *o);
    let p = model.predict(&data);
    cx.step();
    cx.check(same_bits(&p, &scores), "ensemble-scores", || {
        let k = (0..case.n).find(|&i| p[i].to_bits() != scores[i].to_bits()).unwrap_or(0);
        format!("{} {} iterations {} lr {} fraction {} ffraction {}: row {}: trainer {} prediction {}", loss, case.show(), c.niterations, c.learning_rate,
                c.example_fraction, c.feature_fraction, k, scores[k], p[k]) });
    let mut h = H::new(12);
    h.fs(&scores);
    let h = h.get();
    cx.state(h);
}

fn up(x: f32) -> f32 { if x == 0.0 { f32::from_bits(1) } else if x > 0.0 { f32::from_bits(x.to_bits() + 1) } else { f32::from_bits(x.to_bits() - 1) } }
fn down(x: f32) -> f32 { -up(-x) }

/// Values on and next to every bin edge of a numeric column; splits at chosen places.
fn edges(cx: &mut Cx) {
    let (lo, hi) = cx.pick(&[(0.0f32, 1.0f32), (-1.0, 1.0), (0.0, 100.0), (-3.5, 12.25), (0.1, 0.3), (1000.0, 1001.0), (-0.7, -0.1), (1e-3, 2e-3), (-1e6, 1e6), (0.0, 512.0), (-256.0, 256.0), (1.0, 1.00001)]);
    let max_nbins = cx.pick(&[1usize, 3, 16, 64]);
    let kind = cx.choose(6);
    let frac = cx.pick(&[1.0f32, 0.7]);
    if !cx.mine() { return; }
    let w = (hi as f64 - lo as f64) / 512.0;
    let mut v = vec![lo, hi];
    for k in 0..=512 {
        let e = (lo as f64 + k as f64 * w) as f32;
        v.extend_from_slice(&[down(e), e, up(e)]);
    }
    v.retain(|x| *x >= lo && *x <= hi);
    let n = v.len();
    let at = (lo as f64 + (hi as f64 - lo as f64) * [0.5, 0.25, 0.003, 0.998, 0.37, 0.75][kind]) as f32;
    let g: Vec<f32> = v.iter().enumerate().map(|(i, &x)| {
        let s = if x < at { -1.0 } else { 1.0 };
        s * (1.0 / 3.0 + 2.0 / 3.0 * ((i / (1 + kind * 7)) % 2) as f32)
    }).collect();
    let mut c = base_config();
    c.max_nbins = max_nbins;
    c.max_tree_depth = 5;
    c.discr_nbits = 2;
    c.example_fraction = frac;
    let case = Case { n, cols: vec![Col { vals: v, cat: false }], target: vec![0.0; n] };
    tree_case(cx, &c, &case, &g, (-1.0, 1.0), if frac < 1.0 { 2 } else { 1 });
}

/// Few rows around single edges: values of two adjacent edges, all gradient combinations.
fn edge_rows(cx: &mut Cx) {
    let (lo, hi) = cx.pick(&[(0.0f32, 1.0f32), (-1.0, 1.0), (0.1, 0.3), (-3.5, 12.25), (1000.0, 1001.0)]);
    let edge = cx.choose(513);
    if !cx.mine() { return; }
    let w = (hi as f64 - lo as f64) / 512.0;
    let e = (lo as f64 + edge as f64 * w) as f32;
    let mut v = vec![lo, down(down(e)), down(e), e, up(e), up(up(e)), hi];
    v.iter_mut().for_each(|x| *x = x.max(lo).min(hi));
    let n = v.len();
    let case = Case { n, cols: vec![Col { vals: v, cat: false }], target: vec![0.0; n] };
    for nb in [1usize, 2, 5] {
        for m in 0..(1 << n) {
            let g: Vec<f32> = (0..n).map(|i| if m >> i & 1 == 1 { 1.0 } else { -1.0 / 3.0 }).collect();
            let mut c = base_config();
            c.max_nbins = nb;
            c.max_tree_depth = 3;
            c.discr_nbits = 2;
            tree_case(cx, &c, &case, &g, (-1.0, 1.0), 1);
            if cx.failed() { return; }
        }
    }
}

/// Many rows, structured by blocks; repeated compression, sampling, all widths, all feature types.
fn blocks(cx: &mut Cx) {
    let n = cx.pick(&[250usize, 257, 600, 1300, 2561]);
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let frac = cx.pick(&[1.0f32, 0.8, 0.1]);
    let thr = cx.pick(&[0.0f32, 0.5]);
    let f1 = cx.choose(8);
    let f2 = cx.choose(8);
    if !cx.mine() { return; }
    let case = block_case(n, f1, f2);
    let (b, lv) = levels(nbits);
    for gk in 0..if cx.thorough() { 6 } else { 2 } {
        let g: Vec<f32> = (0..n).map(|i| {
            let x = pattern(f1, 1, i) as usize + 2 * pattern(f2, 1, i) as usize + 4 * pattern(gk, 2, i) as usize;
            lv[(x * 5 + i / 64 * (gk + 1)) % lv.len()]
        }).collect();
        let mut c = base_config();
        c.discr_nbits = nbits;
        c.example_fraction = frac;
        c.compression_threshold = thr;
        c.max_tree_depth = 6;
        c.max_nbins = 8;
        tree_case(cx, &c, &case, &g, b, if frac < 1.0 { 2 } else { 1 });
        if cx.failed() { return; }
    }
}

fn block_case(n: usize, f1: usize, f2: usize) -> Case {
    Case { n, cols: vec![
        Col { vals: (0..n).map(|i| pattern(f1, 1, i) as usize as f32 + 2.0 * (pattern(f2, 3, i) as usize as f32)).collect(), cat: true },
        Col { vals: (0..n).map(|i| pattern(f2, 1, i) as usize as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| ((i * 7 + i / 32) % 40) as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| ((i * 31) % 97) as f32 * 0.25 + (pattern(f1, 2, i) as usize as f32) * 30.0).collect(), cat: false }],
        target: (0..n).map(|i| (i % 7) as f32 - 3.0 + 5.0 * (pattern(f1, 1, i) as usize as f32) - 2.0 * (pattern(f2, 1, i) as usize as f32)).collect() }
}

/// High-cardinality categories: categories that occur only among the left-out rows or not at all.
fn hicard(cx: &mut Cx) {
    let ncat = cx.pick(&[3usize, 5, 9]);
    let max_nbins = cx.pick(&[1usize, 2, 4]);
    let n = cx.pick(&[4usize, 6, 12]);
    let seed = cx.choose(6);
    let step = cx.pick(&[1usize, 2, 5]);
    if !cx.mine() { return; }
    if ncat <= max_nbins { return; }
    let vals: Vec<f32> = (0..n).map(|i| ((i * step) % ncat) as f32).collect();
    if vals.iter().all(|&v| v < max_nbins as f32) { return; }
    let case = Case { n, cols: vec![Col { vals, cat: true }], target: vec![0.0; n] };
    let m = n.min(if cx.thorough() { 8 } else { 6 });
    for k in 0..3usize.pow(m as u32) {
        let g: Vec<f32> = (0..n).map(|i| [-1.0f32, 1.0 / 3.0, 1.0][k / 3usize.pow((i % m) as u32) % 3]).collect();
        for frac in [0.5f32, 1.0] {
            let mut c = base_config();
            c.max_nbins = max_nbins;
            c.discr_nbits = 2;
            c.max_tree_depth = 3;
            c.example_fraction = frac;
            c.random_seed = seed as u64;
            tree_case(cx, &c, &case, &g, (-1.0, 1.0), if frac < 1.0 { 2 } else { 1 });
            if cx.failed() { return; }
        }
    }
}

/// Boosting on the block-structured data, every loss and sampling scheme.
fn big_boost(cx: &mut Cx) {
    let loss = cx.choose(5);
    let n = cx.pick(&[40usize, 300, 1300]);
    let frac = cx.pick(&[1.0f32, 0.7, 0.05]);
    let ffrac = cx.pick(&[1.0f32, 0.5]);
    let freq = cx.pick(&[1usize, 3]);
    let f1 = cx.choose(4);
    let lr = cx.pick(&[0.1f32, 1.0]);
    if !cx.mine() { return; }
    let f2 = (f1 * 3 + 1) % 8;
    let mut case = block_case(n, f1, f2);
    if loss >= 3 { case.target.iter_mut().for_each(|t| *t = if *t > 0.0 { 1.0 } else { 0.0 }); }
    let mut c = base_config();
    c.niterations = 8;
    c.learning_rate = if loss == 4 { lr * 0.1 } else { lr };
    c.example_fraction = frac;
    c.feature_fraction = ffrac;
    c.sample_freq = freq;
    c.max_tree_depth = 4;
    c.max_nbins = 8;
    c.discr_nbits = if loss == 4 { 2 } else { [1, 2, 4, 8][(f1 + freq) % 4] };
    boost_case(cx, &c, &case, ["l2", "l1", "huber", "binary", "hinge"][loss]);
}

/// Many columns of all kinds, single trees and boosting.
fn wide(cx: &mut Cx) {
    let m = cx.pick(&[17usize, 40, 130]);
    let n = cx.pick(&[40usize, 300, 1500]);
    let salt = cx.choose(if cx.thorough() { 24 } else { 6 });
    let max_nbins = cx.pick(&[8usize, 100]);
    let ffrac = cx.pick(&[1.0f32, 0.4]);
    let frac = cx.pick(&[1.0f32, 0.6]);
    if !cx.mine() { return; }
    let nbits = [1usize, 2, 4, 8][(salt + m) % 4];
    let (b, lv) = levels(nbits);
    let case = wide_case(m, n, salt);
    let g: Vec<f32> = (0..n).map(|i| lv[(i * i * (salt + 3) + i / 32 * 5 + pattern(salt % 8, 2, i) as usize * 7) % lv.len()]).collect();
    let mut c = base_config();
    c.discr_nbits = nbits;
    c.max_nbins = max_nbins;
    c.max_tree_depth = 6;
    c.feature_fraction = ffrac;
    c.example_fraction = frac;
    tree_case(cx, &c, &case, &g, b, 2);
    if cx.failed() { return; }
    c.niterations = 6;
    c.sample_freq = 1 + salt % 3;
    boost_case(cx, &c, &case, ["l2", "l1", "huber"][salt % 3]);
}

/// Many rows, deep trees, many iterations: nothing depends on the width of a counter.
fn scale(cx: &mut Cx) {
    let kind = cx.choose(5);
    match kind {
        3 => { // more than 2^16 columns
            let n = cx.pick(&[33usize, 64]);
            let salt = cx.choose(if cx.thorough() { 6 } else { 2 });
            let max_nbins = cx.pick(&[2usize, 3]);
            if !cx.mine() { return; }
            let (b, lv) = levels(2);
            let case = far_case(66_003, n, salt);
            let g: Vec<f32> = (0..n).map(|i| lv[(i * i * (salt + 3) + i * i / 7 * 5) % lv.len()]).collect();
            let mut c = base_config();
            c.discr_nbits = 2;
            c.max_nbins = max_nbins;
            c.max_tree_depth = 4;
            tree_case(cx, &c, &case, &g, b, 1);
            if cx.failed() { return; }
            c.niterations = 2;
            boost_case(cx, &c, &case, ["l2", "l1", "huber"][salt % 3]);
        }
        4 => { // very deep trees: every row in a leaf of its own
            let depth = cx.pick(&[16usize, 17, 18, 20]);
            let n = cx.pick(&[40usize, 700]);
            let salt = cx.choose(if cx.thorough() { 6 } else { 2 });
            if !cx.mine() { return; }
            let (b, lv) = levels(4);
            // the largest gradients are peeled off one row at a time, so that the trees are lopsided
            let case = Case { n, cols: vec![
                Col { vals: (0..n).map(|i| if salt % 2 == 0 { i as f32 } else { -(i as f32) }).collect(), cat: false },
                Col { vals: (0..n).map(|i| ((i * 7919 + salt) % 1009) as f32).collect(), cat: false }], target: vec![0.0; n] };
            let g: Vec<f32> = (0..n).map(|i| if salt / 2 % 2 == 0 { lv[i % 2 * (lv.len() - 1)] } else { lv[(i * i + salt) % lv.len()] }).collect();
            let mut c = base_config();
            c.discr_nbits = 4;
            c.max_nbins = 500;
            c.max_tree_depth = depth;
            c.min_gain = 0.0;
            tree_case(cx, &c, &case, &g, b, 1);
        }
        0 => { // one tree
            let n = if cx.thorough() { cx.pick(&[9_001usize, 70_001, 150_011, 300_017]) } else { cx.pick(&[9_001usize, 70_001, 150_011]) };
            let depth = if cx.thorough() { cx.pick(&[5usize, 9, 12, 16, 17]) } else { cx.pick(&[5usize, 9, 12, 16]) };
            let salt = cx.choose(if cx.thorough() { 8 } else { 2 });
            let frac = cx.pick(&[1.0f32, 0.6]);
            if !cx.mine() { return; }
            let nbits = [1usize, 2, 4, 8][(salt + depth) % 4];
            let (b, lv) = levels(nbits);
            let case = wide_case(5 + salt, n, salt);
            let g: Vec<f32> = (0..n).map(|i| lv[(i % 1009 * (i % 1009) * (salt + 3) + i / 32 * 5 + pattern(salt % 8, 2, i) as usize * 7) % lv.len()]).collect();
            let mut c = base_config();
            c.discr_nbits = nbits;
            c.max_nbins = [16, 40][salt % 2];
            c.max_tree_depth = depth;
            c.example_fraction = frac;
            tree_case(cx, &c, &case, &g, b, if frac < 1.0 { 2 } else { 1 });
        }
        1 => { // boosting on many rows
            let n = cx.pick(&[20_011usize, 70_001]);
            let loss = cx.choose(5);
            let frac = cx.pick(&[1.0f32, 0.3]);
            if !cx.mine() { return; }
            let mut case = block_case(n, loss, loss + 2);
            if loss >= 3 { case.target.iter_mut().for_each(|t| *t = if *t > 0.0 { 1.0 } else { 0.0 }); }
            let mut c = base_config();
            c.niterations = 3;
            c.learning_rate = 0.1;
            c.example_fraction = frac;
            c.max_tree_depth = 8;
            c.discr_nbits = if loss == 4 { 2 } else { 4 };
            boost_case(cx, &c, &case, ["l2", "l1", "huber", "binary", "hinge"][loss]);
        }
        _ => { // many iterations
            let it = if cx.thorough() { cx.pick(&[257usize, 1100, 66_000]) } else { cx.pick(&[257usize, 1100]) };
            let loss = cx.choose(5);
            let frac = cx.pick(&[1.0f32, 0.5]);
            if !cx.mine() { return; }
            let n = if it > 10_000 { 9 } else { 37 };
            let mut case = block_case(n, loss, loss + 2);
            if loss >= 3 { case.target.iter_mut().for_each(|t| *t = if *t > 0.0 { 1.0 } else { 0.0 }); }
            let mut c = base_config();
            c.niterations = it;
            c.learning_rate = 0.01;
            c.example_fraction = frac;
            c.sample_freq = 7;
            c.max_tree_depth = 3;
            c.discr_nbits = if loss == 4 { 2 } else { 4 };
            boost_case(cx, &c, &case, ["l2", "l1", "huber", "binary", "hinge"][loss]);
        }
    }
}

fn main() {
    mc::main(&[("scale", scale), ("small", small), ("small_boost", small_boost), ("edges", edges), ("edge_rows", edge_rows), ("blocks", blocks), ("hicard", hicard), ("big_boost", big_boost), ("wide", wide)]);
}
