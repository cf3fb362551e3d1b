//! P02: every split is the best admissible candidate; nodes are split exactly when they must be.
use bitboost::config::Config;
use bitboost::dataset::Dataset;
use bitboost::tree::TreeLearnerContext;
use mc::train::*;
use mc::*;

struct Cand { feat: usize, split: usize, sat: Vec<bool> }

/// The real value of the level a gradient is discretised to.
fn discretise(g: f32, (lo, hi): (f32, f32), nbits: usize) -> f64 {
    let max = ((1usize << nbits) - 1) as f64;
    let (l, h) = (lo as f64, hi as f64);
    let v = (g as f64).max(l).min(h);
    l + ((v - l) / (h - l) * max).round() / max * (h - l)
}

fn judge(cx: &mut Cx, c: &Config, ctx: &mut TreeLearnerContext, ds: &mut Dataset, n: usize, g: &[f32], b: (f32, f32), what: &dyn Fn() -> String) {
    let (ins, _) = sampled_rows(ds, n);
    let supercats = ds.get_supercats().clone();
    let mut cands: Vec<Cand> = vec![];
    for &f in ds.active_features() {
        for s in 0..ds.get_nbins(f) {
            let mut sat = vec![false; n];
            for &i in &ins { sat[i] = candidate_test(ds, &supercats, f, s, i); }
            cands.push(Cand { feat: f, split: s, sat });
        }
    }
    let run = learn(c, ctx, ds, g, b);
    cx.step();
    let nodes = match recover(&run.tree, &run.leaves) {
        Ok(x) => x,
        Err(e) => { cx.fail("malformed-tree", format!("{}: {}", what(), e)); return; }
    };
    let gd: Vec<f64> = g.iter().map(|&x| discretise(x, b, c.discr_nbits)).collect();
    let lambda = c.reg_lambda as f64;
    let loss = |s: f64, k: usize| -0.5 * s * s / (k as f64 + lambda);
    let mag = (b.0.abs().max(b.1.abs())) as f64;
    // rows of all ancestors: a sum obtained by subtraction carries the rounding of the sums it came from
    let mut above = vec![0usize; nodes.len()];
    for k in 0..nodes.len() {
        if nodes[k].leaf.is_none() {
            let a = above[k] + nodes[k].rows.len();
            above[nodes[k].l] = a;
            above[nodes[k].r] = a;
        }
    }
    for (k, nd) in nodes.iter().enumerate() {
        cx.check(nd.depth <= c.max_tree_depth, "too-deep", || format!("{}: node {} at depth {}", what(), nd.id, nd.depth));
        if nd.depth == 0 {
            cx.check(nd.rows == ins, "root-rows", || format!("{}: root covers {:?}, sampled {:?}", what(), &nd.rows[..nd.rows.len().min(12)], &ins[..ins.len().min(12)]));
        }
        if nd.depth >= c.max_tree_depth && nd.leaf.is_some() { continue; }
        let (ps, pn) = (nd.rows.iter().map(|&i| gd[i]).sum::<f64>(), nd.rows.len());
        // rounding of the f32 sums (relative to the sum of magnitudes) and of the losses
        let ds_err = 6e-7 * mag * 2.0 * pn as f64 + 1.2e-7 * mag * above[k] as f64;
        let mut best = f64::MIN;
        let mut best_c = None;
        let mut chosen = f64::MIN;
        let mut chosen_tol = 0.0;
        let mut found = false;
        let mut best_tol = 0.0f64;
        let left: Option<Vec<bool>> = if nd.leaf.is_none() {
            let mut l = vec![false; n];
            for &i in &nodes[nd.l].rows { l[i] = true; }
            Some(l)
        } else { None };
        for cd in &cands {
            let (mut ls, mut ln) = (0.0f64, 0usize);
            let mut same = true;
            for &i in &nd.rows {
                if cd.sat[i] { ls += gd[i]; ln += 1; }
                if let Some(l) = &left { same &= l[i] == cd.sat[i]; }
            }
            let rn = pn - ln;
            let same = left.is_some() && same;
            if ln < c.min_examples_leaf as usize || rn < c.min_examples_leaf as usize {
                continue;
            }
            if lambda == 0.0 && (ln == 0 || rn == 0) { continue; }
            let rs = ps - ls;
            let gain = loss(ps, pn) - loss(ls, ln) - loss(rs, rn);
            let tol = 1e-6 * (loss(ps, pn).abs() + loss(ls, ln).abs() + loss(rs, rn).abs())
                + ds_err * (ps.abs() / pn as f64 + ls.abs() / ln.max(1) as f64 + rs.abs() / rn.max(1) as f64)
                + ds_err * ds_err / ln.min(rn).max(1) as f64 + 1e-30;
            if same { found = true; if gain > chosen { chosen = gain; chosen_tol = tol; } }
            if gain > best { best = gain; best_c = Some((cd.feat, cd.split, ln, rn)); best_tol = best_tol.max(tol); }
        }
        cx.steps(cands.len());
        let mg = c.min_gain as f64;
        let desc = |s: &str| format!("{}: node {} depth {} with {} rows, gradient sum {}: {}; best candidate {:?} gain {}", what(), nd.id, nd.depth, pn, ps, s, best_c, best);
        if nd.leaf.is_none() {
            if nd.depth >= c.max_tree_depth { cx.fail("split-too-deep", desc("split")); return; }
            if !cx.check(found, "not-a-candidate", || desc("its split is no admissible candidate of an active feature")) { return; }
            cx.check(chosen > mg - chosen_tol, "split-without-gain", || desc(&format!("split with gain {}", chosen)));
            cx.check(chosen >= best - chosen_tol - best_tol, "not-the-best", || desc(&format!("split with gain {}", chosen)));
            cx.check(nodes[nd.l].rows.len() >= c.min_examples_leaf as usize && nodes[nd.r].rows.len() >= c.min_examples_leaf as usize, "small-leaf", || desc("child too small"));
            cx.note("splits", 1);
        } else {
            cx.check(best <= mg + best_tol, "not-split", || desc("not split"));
            cx.note("early_leaves", 1);
        }
        if cx.failed() { return; }
    }
    let mut h = H::new(2);
    for l in &run.leaves { h.us(l); }
    let h = h.get();
    cx.state(h);
}

fn tree_case(cx: &mut Cx, c: &Config, case: &Case, g: &[f32], b: (f32, f32), refreshes: usize) {
    let data = case.data(c);
    let what = |r: usize| format!("{} gradients {:?} bounds {:?} nbits {} max_nbins {} depth {} lambda {} min_examples {} min_gain {} fractions {} {} compress {} refresh {}",
        case.show(), &g[..case.n.min(16)], b, c.discr_nbits, c.max_nbins, c.max_tree_depth, c.reg_lambda, c.min_examples_leaf, c.min_gain,
        c.example_fraction, c.feature_fraction, c.compression_threshold, r);
    let mut ds = Dataset::new(c, &data);
    let mut ctx = TreeLearnerContext::new(c, &data);
    for r in 0..refreshes {
        ds.update(c, g, b);
        judge(cx, c, &mut ctx, &mut ds, case.n, g, b, &|| what(r));
        if cx.failed() { return; }
    }
    cx.sample(|| what(0));
}

fn knobs(c: &mut Config, k: usize) {
    c.reg_lambda = [0.0, 1.0, 0.25][k % 3];
    c.min_examples_leaf = [1, 2, 3][k / 3 % 3];
    c.min_gain = [1e-6, 0.7, 5.0][k / 9 % 3];
}

/// All multisets of rows: a numeric column, a category, a 2-bit gradient level.
fn small(cx: &mut Cx) {
    let n = 1 + cx.choose(if cx.thorough() { 6 } else { 5 });
    let rows = multiset(cx, n, 36);
    if !cx.mine() { return; }
    let (b, lv) = levels(2);
    let case = Case { n, cols: vec![
        Col { vals: rows.iter().map(|r| (r % 3) as f32).collect(), cat: false },
        Col { vals: rows.iter().map(|r| (r / 3 % 3) as f32).collect(), cat: true }],
        target: vec![0.0; n] };
    let g: Vec<f32> = rows.iter().map(|r| lv[r / 9]).collect();
    let ks: Vec<usize> = if n <= 3 { (0..27).collect() } else if n == 4 { vec![0, 1, 4, 13] } else { vec![rows[0] % 27] };
    for k in ks {
        let mut c = base_config();
        c.discr_nbits = 2;
        c.max_nbins = 4;
        c.max_tree_depth = 1 + (k + rows[0]) % 3;
        knobs(&mut c, k);
        tree_case(cx, &c, &case, &g, b, 1);
        if cx.failed() { return; }
    }
}

/// Three binary features, the full truth table (and a part of it twice), all gradient assignments.
fn truth_table(cx: &mut Cx) {
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let depth = 1 + cx.choose(3);
    let k = cx.choose(27);
    let dup = cx.choose(3);
    let l1 = cx.choose(4);
    if !cx.mine() { return; }
    let thorough = cx.thorough();
    let (b, lv) = levels(nbits);
    let m = lv.len();
    let pick = [lv[0], lv[m / 2], lv[m - 1], lv[m / 3]];
    let extra = [0usize, 2, 5][dup];
    let n = 8 + extra;
    let row = |i: usize| if i < 8 { i } else { (i - 8) * 3 % 8 };
    let case = Case { n, cols: (0..3).map(|f| Col { vals: (0..n).map(|i| (row(i) >> f & 1) as f32).collect(), cat: f != 1 }).collect(), target: vec![0.0; n] };
    for code in 0..4usize.pow(7) {
        if !thorough && code % 8 != (k + dup + depth) % 8 { continue; }
        let g: Vec<f32> = (0..n).map(|i| pick[if i == 7 { l1 } else { code / 4usize.pow((i % 8 % 7) as u32) % 4 + i / 8 } % 4]).collect();
        let mut c = base_config();
        c.discr_nbits = nbits;
        c.max_nbins = 4;
        c.max_tree_depth = depth;
        knobs(&mut c, k);
        c.min_gain *= (m - 1) as f32;
        tree_case(cx, &c, &case, &g, b, 1);
        if cx.failed() { return; }
    }
}

/// Gradients anywhere between the levels (not at midpoints) and beyond the bounds, odd bounds.
fn off_level(cx: &mut Cx) {
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let b = cx.pick(&[(-1.0f32, 1.0f32), (-1.25, 1.25), (-1.0, 2.0), (-0.37, 0.37), (-55.5, 55.5), (-1e-3, 1e-3)]);
    let n = 2 + cx.choose(if cx.thorough() { 4 } else { 3 });
    let rows = multiset(cx, n, 20);
    if !cx.mine() { return; }
    let w = b.1 - b.0;
    // fifths of the range and beyond: fractions that are no midpoints for 1, 2, 4, 8 bits
    let fr = [-0.3f32, 0.011, 0.27, 0.731, 1.9];
    let case = Case { n, cols: vec![
        Col { vals: rows.iter().map(|r| (r % 4 / 2) as f32).collect(), cat: true },
        Col { vals: rows.iter().map(|r| (r % 2) as f32).collect(), cat: true }], target: vec![0.0; n] };
    let g: Vec<f32> = rows.iter().map(|r| b.0 + w * fr[r / 4]).collect();
    for k in 0..3 {
        let mut c = base_config();
        c.discr_nbits = nbits;
        c.max_nbins = 4;
        c.max_tree_depth = 3;
        c.min_gain = 1e-6 * w * w;
        c.reg_lambda = [0.0, 1.0, 10.0][k];
        tree_case(cx, &c, &case, &g, b, 1);
        if cx.failed() { return; }
    }
}

/// Sampling of rows and features, high-cardinality categories, several refreshes.
fn sampled(cx: &mut Cx) {
    let n = cx.pick(&[6usize, 9, 14]);
    let frac = cx.pick(&[0.5f32, 0.8, 1.0]);
    let ffrac = cx.pick(&[1.0f32, 0.5, 0.3]);
    let max_nbins = cx.pick(&[1usize, 2, 3, 8]);
    let seed = cx.choose(if cx.thorough() { 20 } else { 5 });
    let a = cx.choose(4);
    let d = cx.choose(4);
    if !cx.mine() { return; }
    let (b, lv) = levels(2);
    let case = Case { n, cols: vec![
        Col { vals: (0..n).map(|i| ((i * (a + 1)) % 5) as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| ((i * i + d) % 7) as f32 * 0.5).collect(), cat: false },
        Col { vals: (0..n).map(|i| ((i + a) / 2 % 2) as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| ((i * (d + 2)) % 11) as f32).collect(), cat: false }], target: vec![0.0; n] };
    for gk in 0..64usize {
        let g: Vec<f32> = (0..n).map(|i| lv[(gk / 4usize.pow((i % 3) as u32) + i * i / 3 + (i / 2) * (gk % 3)) % 4]).collect();
        let mut c = base_config();
        c.discr_nbits = 2;
        c.max_nbins = max_nbins;
        c.max_tree_depth = 3;
        c.example_fraction = frac;
        c.feature_fraction = ffrac;
        c.random_seed = seed as u64;
        knobs(&mut c, gk % 27);
        tree_case(cx, &c, &case, &g, b, if frac < 1.0 || ffrac < 1.0 { 3 } else { 1 });
        if cx.failed() { return; }
    }
}

/// Many rows, structured by blocks: subtraction and compression many levels deep.
fn blocks(cx: &mut Cx) {
    let n = cx.pick(&[256usize, 300, 1280, 2561, 4100]);
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let thr = cx.pick(&[0.0f32, 0.3, 0.5, 2.0]);
    let f1 = cx.choose(8);
    let f2 = cx.choose(8);
    let frac = cx.pick(&[1.0f32, 0.7]);
    if !cx.mine() { return; }
    let (b, lv) = levels(nbits);
    let case = Case { n, cols: vec![
        Col { vals: (0..n).map(|i| pattern(f1, 1, i) as usize as f32 + 2.0 * (pattern(f2, 3, i) as usize as f32)).collect(), cat: true },
        Col { vals: (0..n).map(|i| pattern(f2, 1, i) as usize as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| ((i * 7 + i / 32) % 20) as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| (i / 8 % 50) as f32).collect(), cat: false },
        Col { vals: (0..n).map(|i| (i / 128) as f32).collect(), cat: false }],
        target: vec![0.0; n] };
    for gk in 0..if cx.thorough() { 8 } else { 2 } {
        let g: Vec<f32> = (0..n).map(|i| {
            let x = pattern(f1, 1, i) as usize + 2 * pattern(f2, 1, i) as usize + 4 * pattern(gk, 2, i) as usize;
            lv[(x * (3 + gk) + i / 64 * (gk + 1) + (i * 7919 % 13) / 9) % lv.len()]
        }).collect();
        let mut c = base_config();
        c.discr_nbits = nbits;
        c.compression_threshold = thr;
        c.example_fraction = frac;
        c.max_tree_depth = 6;
        c.max_nbins = 8;
        c.min_examples_leaf = [1, 5, 40][gk % 3];
        c.reg_lambda = [0.0, 1.0][gk % 2];
        c.min_gain = 0.1 * (lv.len() * lv.len()) as f32;
        tree_case(cx, &c, &case, &g, b, 1);
        if cx.failed() { return; }
    }
}

/// Many columns of all kinds: the histograms of a node outgrow the initial store.
fn wide(cx: &mut Cx) {
    let m = cx.pick(&[17usize, 40, 130]);
    let n = cx.pick(&[40usize, 300, 1500]);
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let salt = cx.choose(if cx.thorough() { 16 } else { 4 });
    let max_nbins = cx.pick(&[8usize, 100]);
    let ffrac = cx.pick(&[1.0f32, 0.4]);
    if !cx.mine() { return; }
    if max_nbins > 8 && n > 300 { cx.discard(); return; }
    let (b, lv) = levels(nbits);
    let case = wide_case(m, n, salt);
    let g: Vec<f32> = (0..n).map(|i| lv[(i * i * (salt + 3) + i / 32 * 5 + pattern(salt % 8, 2, i) as usize * 7) % lv.len()]).collect();
    let mut c = base_config();
    c.discr_nbits = nbits;
    c.max_nbins = max_nbins;
    c.max_tree_depth = 5;
    c.feature_fraction = ffrac;
    c.min_examples_leaf = [1, 4][salt % 2];
    c.reg_lambda = [0.0, 1.0][salt / 2 % 2];
    c.min_gain = 0.1 * (lv.len() * lv.len()) as f32;
    tree_case(cx, &c, &case, &g, b, if ffrac < 1.0 { 2 } else { 1 });
}

/// Many rows and deep trees: sums and counts far beyond the small integer types.
fn scale(cx: &mut Cx) {
    if cx.flag() { // more than 2^16 columns
        let n = cx.pick(&[33usize, 64]);
        let salt = cx.choose(if cx.thorough() { 6 } else { 2 });
        let nbits = cx.pick(&[1usize, 4]);
        if !cx.mine() { return; }
        let (b, lv) = levels(nbits);
        let case = far_case(66_003, n, salt);
        let g: Vec<f32> = (0..n).map(|i| lv[(i * i * (salt + 3) + i * i / 7 * 5) % lv.len()]).collect();
        let mut c = base_config();
        c.discr_nbits = nbits;
        c.max_nbins = 2 + salt % 2;
        c.max_tree_depth = 4;
        c.min_gain = 0.1 * (lv.len() * lv.len()) as f32;
        tree_case(cx, &c, &case, &g, b, 1);
        return;
    }
    let n = if cx.thorough() { cx.pick(&[20_011usize, 70_001, 150_011, 400_009]) } else { cx.pick(&[20_011usize, 70_001, 150_011]) };
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let depth = if cx.thorough() { cx.pick(&[4usize, 9, 13]) } else { cx.pick(&[4usize, 9, 13]) };
    let salt = cx.choose(if cx.thorough() { 8 } else { 1 });
    let frac = cx.pick(&[1.0f32, 0.6]);
    if !cx.mine() { return; }
    let (b, lv) = levels(nbits);
    let case = wide_case(5 + salt, n, salt + nbits);
    let g: Vec<f32> = (0..n).map(|i| lv[(i % 1009 * (i % 1009) * (salt + 3) + i / 32 * 5 + pattern(salt % 8, 2, i) as usize * 7) % lv.len()]).collect();
    let mut c = base_config();
    c.discr_nbits = nbits;
    c.max_nbins = [16, 40][salt % 2];
    c.max_tree_depth = depth;
    c.example_fraction = frac;
    c.min_examples_leaf = [1, 300][(salt + nbits) / 2 % 2];
    c.min_gain = 0.1 * (lv.len() * lv.len()) as f32;
    tree_case(cx, &c, &case, &g, b, 1);
}

fn main() {
    mc::main(&[("scale", scale), ("small", small), ("truth_table", truth_table), ("off_level", off_level), ("sampled", sampled), ("blocks", blocks), ("wide", wide)]);
}
