//! P03: the compression threshold never changes the model.
use bitboost::config::Config;
use bitboost::dataset::Dataset;
use bitboost::tree::TreeLearnerContext;
use mc::train::*;
use mc::*;

const THR: [f32; 6] = [2.0, 0.0, 0.3, 0.5, 0.9, 0.99]; // the first never compresses

/// Node id -> rows, values and predictions of the trees of `refreshes` updates.
fn signature(c: &Config, case: &Case, g: &[f32], b: (f32, f32), refreshes: usize) -> Result<Vec<(Vec<(usize, Vec<usize>)>, Vec<u32>)>, String> {
    let data = case.data(c);
    let mut ds = Dataset::new(c, &data);
    let mut ctx = TreeLearnerContext::new(c, &data);
    let mut res = vec![];
    for _ in 0..refreshes {
        ds.update(c, g, b);
        let run = learn(c, &mut ctx, &mut ds, g, b);
        let nodes = recover(&run.tree, &run.leaves)?;
        let leaves = nodes.iter().filter_map(|nd| nd.leaf.map(|l| (nd.id, run.leaves[l].clone()))).collect();
        let p = run.tree.predict(&data);
        let mut pb = bits(&p);
        pb.extend(bits(&run.preds));
        res.push((leaves, pb));
    }
    Ok(res)
}

fn compare(cx: &mut Cx, c: &mut Config, case: &Case, g: &[f32], b: (f32, f32), refreshes: usize, what: &dyn Fn() -> String) {
    let mut first = None;
    for &t in &THR {
        c.compression_threshold = t;
        cx.step();
        let s = match signature(c, case, g, b, refreshes) {
            Ok(s) => s,
            Err(e) => { cx.fail("malformed-tree", format!("{} threshold {}: {}", what(), t, e)); return; }
        };
        match &first {
            None => {
                let mut h = H::new(3);
                for (l, _) in &s { for (id, r) in l { h.n(*id); h.us(r); } }
                cx.note("leaves", s.iter().map(|x| x.0.len() as u64).sum());
                let h = h.get();
                cx.state(h);
                first = Some(s);
            }
            Some(f) => {
                for r in 0..refreshes {
                    let same = f[r].0 == s[r].0;
                    if !cx.check(same, "leaf-rows", || {
                        let k = (0..f[r].0.len().max(s[r].0.len())).find(|&k| f[r].0.get(k) != s[r].0.get(k)).unwrap();
                        let d = |x: Option<&(usize, Vec<usize>)>| x.map(|(i, v)| format!("node {} with {} rows {:?}", i, v.len(), &v[..v.len().min(8)]));
                        format!("{} threshold {}: leaf {:?}, without compression {:?}", what(), t, d(s[r].0.get(k)), d(f[r].0.get(k))) }) { return; }
                    let same = f[r].1 == s[r].1;
                    if !cx.check(same, "predictions", || format!("{} threshold {}", what(), t)) { return; }
                }
            }
        }
    }
}

/// Sixteen 32-row blocks in eight lanes; the split pattern of every lane is enumerated.
fn lanes(cx: &mut Cx) {
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let nblk = cx.pick(&[9usize, 16, 19]);
    let extra = cx.pick(&[0usize, 7, 31]);
    let gk = cx.choose(3);
    let top = cx.choose(16);
    if !cx.mine() { return; }
    let n = nblk * 32 - extra;
    let (b, lv) = levels(nbits);
    for code in 0..4096usize {
        if !cx.thorough() && (code + top * 5 + gk + nblk) % 32 != 0 { continue; }
        let code = code * 16 + top;
        let lane = |i: usize| code >> (2 * ((i / 32) % 8)) & 3;
        // the upper part of the rows is mirrored: blocks of one lane differ
        let cls = |i: usize| if i / 256 % 2 == 0 { lane(i) } else { lane(i + 96) };
        let case = Case { n, cols: vec![
            Col { vals: (0..n).map(|i| (cls(i) & 1) as f32).collect(), cat: true },
            Col { vals: (0..n).map(|i| (cls(i) >> 1) as f32).collect(), cat: true },
            Col { vals: (0..n).map(|i| (i / 32 % 5) as f32).collect(), cat: true },
            Col { vals: (0..n).map(|i| (i % 3) as f32).collect(), cat: true }], target: vec![0.0; n] };
        let g: Vec<f32> = (0..n).map(|i| lv[match gk { 0 => cls(i) * 5 + i % 3, 1 => cls(i) + (i / 32) * 3, _ => (cls(i) * 7 + i / 32 % 5) * (1 + i % 2) } % lv.len()]).collect();
        let mut c = base_config();
        c.discr_nbits = nbits;
        c.max_tree_depth = 5;
        c.max_nbins = 8;
        compare(cx, &mut c, &case, &g, b, 1, &|| format!("{} blocks -{} rows, lanes {:x}, nbits {} gradients {}", nblk, extra, code, nbits, gk));
        if cx.failed() { return; }
    }
}

fn block_case(n: usize, f1: usize, f2: usize) -> Case {
    Case { n, cols: vec![
        Col { vals: (0..n).map(|i| pattern(f1, 1, i) as usize as f32 + 2.0 * (pattern(f2, 3, i) as usize as f32)).collect(), cat: true },
        Col { vals: (0..n).map(|i| pattern(f2, 1, i) as usize as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| ((i * 7 + i / 32) % 20) as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| (i / 8 % 50) as f32).collect(), cat: false },
        Col { vals: (0..n).map(|i| (i / 128) as f32).collect(), cat: false }],
        target: (0..n).map(|i| (i % 7) as f32 - 3.0 + 5.0 * (pattern(f1, 1, i) as usize as f32) - 2.0 * (pattern(f2, 1, i) as usize as f32) + (i / 200) as f32 * 0.25).collect() }
}

fn blocks(cx: &mut Cx) {
    let n = cx.pick(&[257usize, 300, 1280, 2561, 4100, 9000]);
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let f1 = cx.choose(8);
    let f2 = cx.choose(8);
    let frac = cx.pick(&[1.0f32, 0.7]);
    if !cx.mine() { return; }
    let (b, lv) = levels(nbits);
    let case = block_case(n, f1, f2);
    for gk in 0..if cx.thorough() { 8 } else { 2 } {
        let g: Vec<f32> = (0..n).map(|i| {
            let x = pattern(f1, 1, i) as usize + 2 * pattern(f2, 1, i) as usize + 4 * pattern(gk, 2, i) as usize;
            lv[(x * (3 + gk) + i / 64 * (gk + 1) + (i * 7919 % 13) / 9) % lv.len()]
        }).collect();
        let mut c = base_config();
        c.discr_nbits = nbits;
        c.example_fraction = frac;
        c.max_tree_depth = 8;
        c.max_nbins = 8;
        compare(cx, &mut c, &case, &g, b, if frac < 1.0 { 2 } else { 1 }, &|| format!("{} rows, patterns {} {}, nbits {} fraction {} gradients {}", n, f1, f2, nbits, frac, gk));
        if cx.failed() { return; }
    }
    cx.sample(|| format!("{} rows, patterns {} {}, nbits {} fraction {}", n, f1, f2, nbits, frac));
}

/// Nested halving: every level of the tree cuts the remaining blocks again.
fn nested(cx: &mut Cx) {
    let nblk = cx.pick(&[10usize, 24, 33, 64, 100, 257]);
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let order = cx.choose(4);
    let rest = cx.pick(&[0usize, 1, 30]);
    let ratio = cx.pick(&[2usize, 3, 4]);
    if !cx.mine() { return; }
    let n = nblk * 32 - rest;
    let (b, lv) = levels(nbits);
    let rank = |i: usize| -> usize { let k = i / 32; match order { 0 => k, 1 => nblk - 1 - k, 2 => (k * 7) % nblk, _ => k / 2 + (k % 2) * (nblk / 2) } };
    // column j cuts what is left after j cuts
    let cols = (0..6).map(|j| { let cut = nblk / ratio.pow(j as u32 + 1); Col { vals: (0..n).map(|i| (rank(i) < cut.max(1)) as usize as f32).collect(), cat: j % 2 == 0 } }).collect();
    let case = Case { n, cols, target: vec![0.0; n] };
    let g: Vec<f32> = (0..n).map(|i| { let mut d = 0; let mut x = rank(i) + 1; while x < nblk { x *= ratio; d += 1; } lv[(d * (lv.len() / 2 + 1) + i % 2) % lv.len()] }).collect();
    let mut c = base_config();
    c.discr_nbits = nbits;
    c.max_tree_depth = 7;
    c.min_gain = 1e-3;
    compare(cx, &mut c, &case, &g, b, 1, &|| format!("{} blocks -{}, order {} ratio {} nbits {}", nblk, rest, order, ratio, nbits));
}

/// Real losses: models and scores are identical bit for bit after several iterations.
fn boosted(cx: &mut Cx) {
    let loss = cx.choose(5);
    let n = cx.pick(&[300usize, 1300, 2700]);
    let frac = cx.pick(&[1.0f32, 0.6]);
    let f1 = cx.choose(8);
    let f2 = cx.choose(8);
    if !cx.mine() { return; }
    let mut case = block_case(n, f1, f2);
    if loss >= 3 { case.target.iter_mut().for_each(|t| *t = if *t > 0.0 { 1.0 } else { 0.0 }); }
    let mut first: Option<(Vec<u32>, Vec<u32>)> = None;
    for &t in &THR {
        let mut c = base_config();
        c.compression_threshold = t;
        c.niterations = 5;
        c.learning_rate = if loss == 4 { 0.05 } else { 0.4 };
        c.example_fraction = frac;
        c.sample_freq = 2;
        c.max_tree_depth = 6;
        c.max_nbins = 8;
        c.discr_nbits = if loss == 4 { 2 } else { [1, 2, 4, 8][(f1 + f2) % 4] };
        let data = case.data(&c);
        let mut o = obj(["l2", "l1", "huber", "binary", "hinge"][loss]);
        let (m, s) = boost(&c, &data, &mut *o);
        cx.step();
        let got = (bits(&m.predict(&data)), bits(&s));
        match &first {
            None => first = Some(got),
            Some(f) => {
                let same = *f == got;
                cx.check(same, "boosted-model", || format!("loss {} rows {} patterns {} {} fraction {} threshold {}: other predictions than without compression", loss, n, f1, f2, frac, t));
            }
        }
    }
}

/// Many rows, deep trees: block indices and counts beyond the small integer types.
fn scale(cx: &mut Cx) {
    let n = if cx.thorough() { cx.pick(&[20_011usize, 70_001, 150_011, 2_200_003]) } else { cx.pick(&[20_011usize, 70_001, 150_011]) };
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let depth = if cx.thorough() { cx.pick(&[4usize, 9, 14]) } else { cx.pick(&[4usize, 9, 13]) };
    let kind = cx.choose(if cx.thorough() { 8 } else { 2 });
    let frac = cx.pick(&[1.0f32, 0.6]);
    if !cx.mine() { return; }
    if n > 1_000_000 && (kind > 1 || depth > 9) { cx.discard(); return; }
    let (b, lv) = levels(nbits);
    // every other case has columns that cut the rows into few, large and many, small stretches
    let case = if kind % 2 == 0 { wide_case(6, n, kind + nbits) } else { block_case(n, kind, nbits) };
    let g: Vec<f32> = (0..n).map(|i| lv[(i % 1009 * (i % 1009) * (kind + 3) + i / (n / 19) * 5 + pattern(kind, 2, i) as usize * 7) % lv.len()]).collect();
    let mut c = base_config();
    c.discr_nbits = nbits;
    c.example_fraction = frac;
    c.max_tree_depth = depth;
    c.max_nbins = 16;
    compare(cx, &mut c, &case, &g, b, 1, &|| format!("{} rows, kind {}, depth {} nbits {} fraction {}", n, kind, depth, nbits, frac));
}

fn main() { mc::main(&[("scale", scale), ("lanes", lanes), ("blocks", blocks), ("nested", nested), ("boosted", boosted)]); }
