//! P17: split candidates are faithful to the data and follow the gradients.
use bitboost::config::Config;
use bitboost::data::FeatType;
use bitboost::dataset::Dataset;
use mc::train::*;
use mc::*;

/// First distinct value (ascending) whose cumulative weight exceeds q.
fn quantile(sorted: &[(f64, f64)], q: f64) -> f64 {
    let mut acc = 0.0;
    for &(v, w) in sorted { acc += w; if acc > q { return v; } }
    sorted.last().unwrap().0
}

fn judge(cx: &mut Cx, c: &Config, ds: &mut Dataset, n: usize, g: &[f32], b: (f32, f32), what: &dyn Fn() -> String) {
    let mut ins = vec![];
    let mut ok = true;
    ds.active_examples_iter(|i, j| { ok &= i == ins.len() && j < n; ins.push(j); });
    cx.check(ok && ins.len() == ds.nactive_examples(), "sample-indices", || what());
    let supercats = ds.get_supercats().clone();
    let active = ds.active_features().to_vec();
    for &f in &active {
        let nb = ds.get_nbins(f);
        let ft = ds.data().feat_type(f);
        let card = ds.data().feat_card(f);
        let col = ds.data().get_feature(f).to_vec();
        let fw = |s: String| format!("{} feature {} ({:?}, {} candidates): {}", what(), f, ft, nb, s);
        match ft {
            FeatType::LoCardCat => { cx.check(nb == if card == 2 { 1 } else { card }, "candidate-count", || fw(format!("cardinality {}", card))); }
            _ => { cx.check(nb >= 1 && nb <= c.max_nbins, "candidate-count", || fw(String::new())); }
        }
        let mut prev: Option<Vec<u32>> = None;
        for s in 0..nb {
            let bv = ds.get_bitvec(f, s);
            let words = bv.cast::<u32>().to_vec();
            cx.step();
            if !cx.check(words.len() * 32 >= ins.len(), "candidate-length", || fw(format!("{} words", words.len()))) { return; }
            let mut bad = None;
            for (i, &j) in ins.iter().enumerate() {
                let bit = words[i / 32] >> (i % 32) & 1 == 1;
                if bit != candidate_test(ds, &supercats, f, s, j) { bad = Some((i, j, bit)); }
            }
            cx.check(bad.is_none(), "candidate-rows", || { let (i, j, bit) = bad.unwrap(); fw(format!("candidate {} (value {}): sampled row {} = row {} with value {} has bit {}", s, ds.get_split_value(f, s), i, j, col[j], bit)) });
            let tail = (ins.len()..words.len() * 32).all(|i| words[i / 32] >> (i % 32) & 1 == 0);
            cx.check(tail, "tail-bits", || fw(format!("candidate {} has bits beyond the {} sampled rows", s, ins.len())));
            if ft != FeatType::LoCardCat {
                if let Some(p) = &prev {
                    let nested = p.iter().zip(&words).all(|(a, b)| a & !b == 0);
                    cx.check(nested, "nested", || fw(format!("candidate {} does not contain its predecessor", s)));
                    if ft == FeatType::Numerical {
                        let (t0, t1) = (ds.get_split_value(f, s - 1), ds.get_split_value(f, s));
                        cx.check(t0 <= t1, "thresholds-ascend", || fw(format!("{} then {}", t0, t1)));
                    }
                }
                prev = Some(words);
            }
        }
        if ft == FeatType::Numerical {
            let (lo, hi) = ds.data().feat_limits(f);
            let w = (hi as f64 - lo as f64) / 512.0;
            let tol = w * 1e-3 + lo.abs().max(hi.abs()) as f64 * 1e-6;
            let mut sw: Vec<(f64, f64)> = ins.iter().map(|&j| (col[j] as f64, g[j].abs() as f64 + f32::EPSILON as f64)).collect();
            sw.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let total: f64 = sw.iter().map(|x| x.1).sum();
            let slack = total * (1e-5 + 2e-7 * ins.len() as f64) + 2e-7 * ins.len() as f64;
            let ts: Vec<f64> = (0..nb).map(|s| ds.get_split_value(f, s) as f64).collect();
            let mut ranges = vec![];
            for k in 1..=c.max_nbins {
                let q = k as f64 * total / (c.max_nbins + 1) as f64;
                let (a, z) = (quantile(&sw, q - slack), quantile(&sw, q + slack));
                ranges.push((a - w - tol, z + w + tol));
                let hit = ts.iter().any(|&t| t >= a - w - tol && t <= z + w + tol);
                cx.check(hit, "quantile-missed", || fw(format!("no threshold within {} of the {}-th weighted quantile in [{}, {}]: {:?}", w, k, a, z, ts)));
            }
            for &t in &ts {
                let hit = ranges.iter().any(|r| t >= r.0 && t <= r.1);
                cx.check(hit, "not-a-quantile", || fw(format!("threshold {} is near none of the {} weighted quantiles {:?}", t, c.max_nbins, ranges)));
            }
        }
        if ft == FeatType::HiCardCat {
            let w = (b.1 as f64 - b.0 as f64) / 512.0;
            let sc = &supercats[f];
            cx.check(sc.len() == card, "supercat-count", || fw(format!("{} groups for {} categories", sc.len(), card)));
            let mut stat = vec![(0.0f64, 0usize); card];
            for &j in &ins { let e = &mut stat[col[j] as usize]; e.0 += g[j] as f64; e.1 += 1; }
            let mut cats: Vec<(f64, usize, usize)> = (0..card).filter(|&k| stat[k].1 > 0).map(|k| (stat[k].0 / stat[k].1 as f64, stat[k].1, k)).collect();
            cats.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let tol = w * 1e-2 + 1e-6 * b.0.abs().max(b.1.abs()) as f64;
            for x in 0..cats.len() {
                for y in 0..cats.len() {
                    if cats[x].0 + tol < cats[y].0 {
                        let (a, b) = (sc[cats[x].2], sc[cats[y].2]);
                        cx.check(a <= b, "category-order", || fw(format!("category {} (mean {}) in group {}, category {} (mean {}) in group {}", cats[x].2, cats[x].0, a, cats[y].2, cats[y].0, b)));
                    }
                }
            }
            // boundaries of the groups: count quantiles of the categories ordered by mean
            let at_rank = |r: usize| -> f64 { let mut acc = 0; for &(m, k, _) in &cats { acc += k; if acc > r { return m; } } cats.last().unwrap().0 };
            let mut marks: Vec<(f64, f64)> = vec![]; // range of the category mean at each quantile
            for k in 1..=c.max_nbins {
                let x = k as f64 * ins.len() as f64 / (c.max_nbins + 1) as f64;
                let near = ((x - x.floor()) - 0.5).abs() < 1e-3;
                let (r0, r1) = if near { (x.floor() as usize, x.floor() as usize + 1) } else { (x.round() as usize, x.round() as usize) };
                marks.push((at_rank(r0.saturating_sub(1)), at_rank(r1.saturating_sub(1))));
            }
            for &(m0, m1) in &marks {
                if m1 - m0 > tol { continue; }
                for x in &cats {
                    if (x.0 - m0).abs() > tol { continue; }
                    for y in &cats {
                        if y.0 > m0 + w + 2.0 * tol && m0 >= b.0 as f64 && y.0 <= b.1 as f64 + tol {
                            let (a, z) = (sc[x.2], sc[y.2]);
                            cx.check(a < z, "group-not-cut", || fw(format!("category {} with mean {} is at a quantile but shares group {} with category {} with mean {}", x.2, x.0, a, y.2, y.0)));
                        }
                    }
                }
            }
            for p in cats.windows(2) {
                if sc[p[0].2] != sc[p[1].2] {
                    let hit = marks.iter().any(|m| m.1 + w + tol >= p[0].0 && m.0 <= p[1].0 + tol) || p[1].0 - p[0].0 <= tol;
                    cx.check(hit, "group-cut-elsewhere", || fw(format!("categories {} and {} (means {} {}) are separated, quantile means {:?}", p[0].2, p[1].2, p[0].0, p[1].0, marks)));
                }
            }
            let top = cats.iter().map(|x| sc[x.2]).max().unwrap_or(0) as usize;
            cx.check(top <= nb, "group-range", || fw(format!("group {} of {}", top, nb)));
            cx.note("hicard", 1);
        }
        if cx.failed() { return; }
    }
}

fn run_case(cx: &mut Cx, c: &Config, case: &Case, gs: &[Vec<f32>], b: (f32, f32), show: &str) {
    let data = case.data(c);
    let mut ds = Dataset::new(c, &data);
    let mut at = 0;
    for (u, g) in gs.iter().enumerate() {
        ds.update(c, g, b);
        // candidates are renewed at update 1 and at the multiples of sample_freq
        if u == 0 || (u + 1) % c.sample_freq == 0 { at = u; }
        judge(cx, c, &mut ds, case.n, &gs[at], b, &|| format!("{} {} gradients {:?} max_nbins {} fraction {} update {}", show, case.show(), &gs[at][..case.n.min(12)], c.max_nbins, c.example_fraction, u + 1));
        if cx.failed() { return; }
    }
    let mut h = H::new(17);
    for &f in ds.active_features() { for s in 0..ds.get_nbins(f) { h.f(ds.get_split_value(f, s)); for &x in ds.get_bitvec(f, s).cast::<u64>() { h.u(x); } } }
    let h = h.get();
    cx.state(h);
    cx.sample(|| format!("{} {} max_nbins {} fraction {} {} updates", show, case.show(), c.max_nbins, c.example_fraction, gs.len()));
}

/// All small columns: numeric values and categories with gradients.
fn small(cx: &mut Cx) {
    let n = 1 + cx.choose(if cx.thorough() { 6 } else { 5 });
    let rows = multiset(cx, n, 40);
    if !cx.mine() { return; }
    let nums = [0.0f32, 1.0, 1.01, 10.0];
    let cats = [0.0f32, 3.0, 1.0, 2.0];
    let gs = [-1.0f32, -0.1, 0.0, 0.4, 1.0];
    let g: Vec<f32> = rows.iter().map(|r| gs[r / 8]).collect();
    let case = Case { n, cols: vec![
        Col { vals: rows.iter().map(|r| nums[r % 4]).collect(), cat: false },
        Col { vals: rows.iter().map(|r| cats[(r + r / 4 + r / 8) % 4]).collect(), cat: true }], target: vec![0.0; n] };
    for max_nbins in [1usize, 2, 3, 5] {
        for frac in [1.0f32, 0.5] {
            if frac < 1.0 && n < 2 { continue; }
            let mut c = base_config();
            c.max_nbins = max_nbins;
            c.example_fraction = frac;
            let g2: Vec<f32> = g.iter().rev().cloned().collect();
            run_case(cx, &c, &case, &[g.clone(), g2], (-1.0, 1.0), "small");
            if cx.failed() { return; }
        }
    }
}

fn num_col(kind: usize, n: usize) -> Vec<f32> {
    (0..n).map(|i| match kind {
        0 => i as f32,
        1 => (i * i) as f32,
        2 => (n - i) as f32 * 0.1,
        3 => ((i * 37) % 101) as f32 - 50.0,
        4 => if i == 0 { 1000.0 } else { (i % 13) as f32 },        // an outlier squeezes the rest into few bins
        5 => (i % 2) as f32,
        6 => 1.0 / (1.0 + i as f32),
        7 => 1e6 + (i % 100) as f32,
        8 => (i / 32) as f32 * if i % 2 == 0 { 1.0 } else { -1.0 },
        _ => if i + 1 == n { 1e5 } else { -(i as f32) },
    }).collect()
}

fn grads(kind: usize, n: usize, u: usize) -> Vec<f32> {
    (0..n).map(|i| match (kind + u) % 7 {
        0 => if i % 2 == 0 { 1.0 } else { -1.0 },
        1 => 0.0,
        2 => (i as f32 / n as f32) * 2.0 - 1.0,
        3 => if i < n / 8 { -1.0 } else { 0.01 },
        4 => if i == n / 2 { 1.0 } else { 0.0 },
        5 => ((i * 29 % 31) as f32 / 15.5) - 1.0,
        _ => if i * 3 > n * 2 { 0.9 } else { -0.3 },
    }).collect()
}

fn medium(cx: &mut Cx) {
    let n = cx.pick(&[2usize, 7, 33, 256, 700, 1500]);
    let kind = cx.choose(10);
    let gk = cx.choose(7);
    let frac = cx.pick(&[1.0f32, 0.6, 0.05]);
    let freq = cx.pick(&[1usize, 2, 3]);
    if !cx.mine() { return; }
    for max_nbins in [1usize, 2, 4, 16, 64, 200] {
        let mut c = base_config();
        c.max_nbins = max_nbins;
        c.example_fraction = frac;
        c.sample_freq = freq;
        c.random_seed = (kind + gk) as u64;
        let case = Case { n, cols: vec![
            Col { vals: num_col(kind, n), cat: false },
            Col { vals: (0..n).map(|i| ((i * (kind + 1) + i / 5) % (max_nbins + 1 + kind)) as f32).collect(), cat: true },
            Col { vals: (0..n).map(|i| ((i * 7 + kind) % 3) as f32).collect(), cat: true },
            Col { vals: num_col((kind + 3) % 10, n), cat: false },
            Col { vals: (0..n).map(|i| ((i * i) % 301) as f32).collect(), cat: true }], target: vec![0.0; n] };
        let gs: Vec<Vec<f32>> = (0..5).map(|u| grads(gk, n, u)).collect();
        run_case(cx, &c, &case, &gs, (-1.0, 1.0), &format!("medium column kind {} gradient kind {} sample_freq {}", kind, gk, freq));
        if cx.failed() { return; }
    }
}

/// High-cardinality columns: all assignments of means to categories and of counts.
fn hicard(cx: &mut Cx) {
    let card = 3 + cx.choose(if cx.thorough() { 4 } else { 3 });
    let max_nbins = cx.pick(&[1usize, 2, 3, 4]);
    let bounds = cx.pick(&[(-1.0f32, 1.0f32), (-4.0, 4.0), (0.0, 1.0), (-1.0, 2.0)]);
    let ck = cx.choose(4);
    if !cx.mine() || card <= max_nbins { return; }
    let counts: Vec<usize> = (0..card).map(|k| [1, 1 + k % 2 * 3, 1 + (card - k), 1 + k * k][ck]).collect();
    let mut vals = vec![];
    for r in 0..*counts.iter().max().unwrap() { for k in 0..card { if r < counts[k] { vals.push(k as f32); } } }
    let n = vals.len();
    let w = bounds.1 - bounds.0;
    let fr = [0.0f32, 0.3, 0.302, 0.6, 1.0];
    for code in 0..5usize.pow(card as u32) {
        let mean = |k: usize| bounds.0 + w * fr[code / 5usize.pow(k as u32) % 5];
        let g: Vec<f32> = vals.iter().map(|&v| mean(v as usize)).collect();
        let case = Case { n, cols: vec![Col { vals: vals.clone(), cat: true }], target: vec![0.0; n] };
        let mut c = base_config();
        c.max_nbins = max_nbins;
        run_case(cx, &c, &case, &[g], bounds, "hicard");
        if cx.failed() { return; }
    }
}

/// Samples and features change over the updates; stale candidates must not survive a refresh.
fn histories(cx: &mut Cx) {
    let n = cx.pick(&[5usize, 12, 300]);
    let frac = cx.pick(&[1.0f32, 0.4]);
    let ffrac = cx.pick(&[1.0f32, 0.5]);
    let freq = 1 + cx.choose(4);
    let seed = cx.choose(4);
    if !cx.mine() { return; }
    let depth = if cx.thorough() { 6 } else { 4 };
    for code in 0..3usize.pow(depth) {
        let gs: Vec<Vec<f32>> = (0..depth as usize).map(|u| grads(2 * (code / 3usize.pow(u as u32) % 3), n, 0)).collect();
        let case = Case { n, cols: vec![
            Col { vals: num_col(3, n), cat: false },
            Col { vals: (0..n).map(|i| (i % 6) as f32).collect(), cat: true },
            Col { vals: (0..n).map(|i| (i % 3) as f32).collect(), cat: true },
            Col { vals: num_col(0, n), cat: false }], target: vec![0.0; n] };
        let mut c = base_config();
        c.max_nbins = 4;
        c.example_fraction = frac;
        c.feature_fraction = ffrac;
        c.sample_freq = freq;
        c.random_seed = seed as u64;
        run_case(cx, &c, &case, &gs, (-1.0, 1.0), &format!("history {} ffraction {} sample_freq {}", code, ffrac, freq));
        if cx.failed() { return; }
    }
}

/// Many rows and many categories.
fn scale(cx: &mut Cx) {
    let n = if cx.thorough() { cx.pick(&[20_011usize, 70_001, 150_011]) } else { cx.pick(&[20_011usize, 70_001]) };
    let kind = cx.choose(if cx.thorough() { 10 } else { 4 });
    let gk = cx.choose(if cx.thorough() { 7 } else { 3 });
    let frac = cx.pick(&[1.0f32, 0.6]);
    let max_nbins = cx.pick(&[3usize, 40, 300]);
    if !cx.mine() { return; }
    let (kind, gk) = if cx.thorough() { (kind, gk) } else { ((kind * 3 + 1) % 10, (gk * 2 + kind) % 7) };
    let mut c = base_config();
    c.max_nbins = max_nbins;
    c.example_fraction = frac;
    let case = Case { n, cols: vec![
        Col { vals: num_col(kind, n), cat: false },
        Col { vals: (0..n).map(|i| ((i * (kind + 1) + i / 5) % (max_nbins + 1 + kind)) as f32).collect(), cat: true },
        Col { vals: (0..n).map(|i| ((i * 7 + kind) % max_nbins.min(50)) as f32).collect(), cat: true },
        Col { vals: num_col((kind + 3) % 10, n), cat: false },
        Col { vals: (0..n).map(|i| ((i % 3001 * (i % 3001)) % 701) as f32).collect(), cat: true }], target: vec![0.0; n] };
    let gs: Vec<Vec<f32>> = (0..2).map(|u| grads(gk, n, u)).collect();
    run_case(cx, &c, &case, &gs, (-1.0, 1.0), &format!("many rows: column kind {} gradient kind {}", kind, gk));
}

fn main() { mc::main(&[("scale", scale), ("small", small), ("medium", medium), ("hicard", hicard), ("histories", histories)]); }
