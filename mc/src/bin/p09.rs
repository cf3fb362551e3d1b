//! P09: binning is monotone, rank queries return the bin holding the rank.
use bitboost::binner::Binner;
use mc::*;

const NB: [usize; 9] = [1, 2, 3, 4, 7, 16, 100, 512, 1024];
const LIM: [(f32, f32); 24] = [
    (0.0, 1.0), (-1.0, 1.0), (0.0, 100.0), (-3.5, 12.25), (1e-3, 2e-3), (-1e6, 1e6), (1000.0, 1001.0), (0.1, 0.3),
    (-0.7, -0.1), (1.0, 1.0), (-2.5, -2.5), (0.0, 0.0), (16777216.0, 16777220.0), (1.0, 1.0000001), (-1e-30, 1e-30), (3.0, 1e9),
    (0.0, 1e-37), (1e-38, 3e-38), (-1e-40, 2e-40), (0.0, 1e-44), (-1e38, 1e38), (0.0, 3e38), (-1.5e38, 1.5e38), (2e38, 3.4e38)];

fn up(x: f32) -> f32 { if x == 0.0 { f32::from_bits(1) } else if x > 0.0 { f32::from_bits(x.to_bits() + 1) } else { f32::from_bits(x.to_bits() - 1) } }
fn down(x: f32) -> f32 { -up(-x) }

/// All values around the edge of every bin, for a window of bins (the engine's choice).
fn edges(cx: &mut Cx) {
    let lim = cx.pick(&LIM);
    let nb = cx.pick(&NB);
    if !cx.mine() { return; }
    let mut bins = vec![0u32; nb];
    let (lo, hi) = lim;
    let width = (hi as f64 - lo as f64) / nb as f64;
    let mut vals: Vec<f32> = vec![];
    for k in 0..=nb {
        let e = (lo as f64 + k as f64 * width) as f32;
        let mut v = e;
        for _ in 0..3 { v = down(v); vals.push(v); }
        let mut v = e;
        vals.push(e);
        for _ in 0..3 { v = up(v); vals.push(v); }
        vals.push((lo as f64 + (k as f64 + 0.5) * width) as f32);
        vals.push((lo as f64 + (k as f64 + 0.25) * width) as f32);
    }
    for m in [1.0f32, 10.0, 1e6, 1e20, 3e38] { vals.push(-m); vals.push(m); vals.push(lo - m); vals.push(hi + m); }
    vals.retain(|v| v.is_finite());
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut binner = Binner::new(&mut bins, lim);
    let got: Vec<usize> = vals.iter().map(|&v| binner.get_bin(v)).collect();
    let mag = lo.abs().max(hi.abs()) as f64;
    let tol = mag * 4e-7 + width * 1e-5 + nb as f64 * 1.5e-45; // the last: rounding of a denormal bin width
    for i in 0..vals.len() {
        let (v, b) = (vals[i], got[i]);
        cx.step();
        cx.state(hash::H::new(9).f(lo).f(hi).n(nb).n(b).get());
        cx.check(b < nb, "bin-range", || format!("limits {:?} {} bins: value {} in bin {}", lim, nb, v, b));
        if i > 0 { cx.check(got[i - 1] <= b, "monotone", || format!("limits {:?} {} bins: {} in bin {}, {} in bin {}", lim, nb, vals[i - 1], got[i - 1], v, b)); }
        if v < lo { cx.check(b == 0, "below", || format!("limits {:?} {} bins: {} in bin {}", lim, nb, v, b)); }
        if v > hi { cx.check(b == nb - 1, "above", || format!("limits {:?} {} bins: {} in bin {}", lim, nb, v, b)); }
        if v >= lo && v <= hi {
            let x = v as f64 - lo as f64;
            if width > 0.0 {
                cx.check(x >= b as f64 * width - tol && (x <= (b + 1) as f64 * width + tol), "wrong-bin",
                         || format!("limits {:?} {} bins: value {} in bin {}", lim, nb, v, b));
            }
            let r = binner.bin_representative(b) as f64;
            cx.check((v as f64 - r).abs() <= width + tol, "representative",
                     || format!("limits {:?} {} bins: value {} in bin {}, representative {}", lim, nb, v, b, r));
        }
    }
    // representatives ascend by the bin width; the last bin repeats
    for b in 0..nb {
        let r = binner.bin_representative(b) as f64;
        cx.check((r - (lo as f64 + b as f64 * width)).abs() <= tol, "representative-value", || format!("limits {:?} {} bins: representative of {} is {}", lim, nb, b, r));
    }
    let (a, b) = (binner.bin_representative(nb - 1), binner.bin_representative(nb + 5));
    cx.check(a == b, "representative-clamp", || format!("limits {:?} {} bins: {} {}", lim, nb, a, b));
    // insertion uses the same assignment and touches only that bin
    let mut want = vec![0u32; nb];
    for (i, &v) in vals.iter().enumerate() {
        binner.insert(v, (i % 5 + 1) as u32, |x, y| *x += y);
        want[got[i]] += (i % 5 + 1) as u32;
    }
    for b in 0..nb {
        let g = binner.bin_value(b);
        cx.check(g == want[b], "insert", || format!("limits {:?} {} bins: bin {} holds {} not {}", lim, nb, b, g, want[b]));
    }
    cx.sample(|| format!("limits {:?}, {} bins, {} values", lim, nb, vals.len()));
}

/// All bin contents and all ascending rank sequences within bounds.
fn ranks(cx: &mut Cx) {
    let nb = 1 + cx.choose(if cx.thorough() { 8 } else { 6 });
    let top = if nb <= 5 { 4 } else { 3 };
    let w: Vec<u32> = (0..nb).map(|_| cx.choose(top) as u32).collect();
    if !cx.mine() { return; }
    let total: u32 = w.iter().sum();
    let mut b1 = w.clone();
    let mut b2: Vec<f32> = w.iter().map(|&x| x as f32 * 0.5).collect();
    let bi = Binner::new(&mut b1, (0.0, 1.0));
    let bf = Binner::new(&mut b2, (0.0, 1.0));
    let want = |r: u32| { let mut a = 0; for b in 0..nb { a += w[b]; if a > r { return b; } } nb - 1 };
    cx.state(hash::H::new(10).u(w.iter().fold(1, |a, &x| a * 7 + x as u64)).get());
    for r in 0..=total {
        let g = bi.bin_with_rank(r, |&x| x);
        cx.step();
        cx.check(g == want(r), "rank", || format!("bins {:?} rank {}: bin {}, not {}", w, r, g, want(r)));
    }
    // ascending sequences of length 1..=3 (4 for few bins), repeats allowed
    let m = total + 1; // ranks beyond the total weight are outside the domain
    let mut seqs: Vec<Vec<u32>> = vec![];
    for a in 0..m { seqs.push(vec![a]); for b in a..m { seqs.push(vec![a, b]); for c in b..m { seqs.push(vec![a, b, c]); } } }
    seqs.push((0..m).collect());
    seqs.push((0..m).flat_map(|x| vec![x, x]).collect());
    for s in &seqs {
        let g: Vec<usize> = bi.rank_iter(s.iter().cloned(), |&x| x).collect();
        let e: Vec<usize> = s.iter().map(|&r| want(r)).collect();
        cx.step();
        cx.check(g == e, "rank-sequence", || format!("bins {:?} ranks {:?}: bins {:?}, not {:?}", w, s, g, e));
        // the weight up to the bin, without and with it
        let mut it = bi.rank_iter(s.iter().cloned(), |&x| x);
        for &r in s {
            let b = it.next().unwrap();
            let (before, with) = (w[..b].iter().sum::<u32>(), w[..=b].iter().sum::<u32>());
            cx.check(it.accum() == (before, with), "rank-weights", || format!("bins {:?} ranks {:?}: at rank {} in bin {} the weights are {:?}, not {:?}", w, s, r, b, it.accum(), (before, with)));
        }
        cx.check(it.next().is_none(), "rank-list-end", || format!("bins {:?} ranks {:?}", w, s));
        let g: Vec<usize> = bf.rank_iter(s.iter().map(|&r| r as f32 * 0.5), |&x| x).collect();
        cx.check(g == e, "rank-sequence-float", || format!("bins {:?}/2 ranks {:?}/2: bins {:?}, not {:?}", w, s, g, e));
        // half steps between the ranks select the same bin
        if s[s.len() - 1] >= total { continue; }
        let g: Vec<usize> = bf.rank_iter(s.iter().map(|&r| r as f32 * 0.5 + 0.25), |&x| x).collect();
        cx.check(g == e, "rank-between", || format!("bins {:?}/2 ranks {:?}/2+.25: bins {:?}, not {:?}", w, s, g, e));
    }
    cx.sample(|| format!("bins {:?}, {} rank sequences", w, seqs.len()));
}

/// Many bins: a few occupied ones at every position.
fn sparse(cx: &mut Cx) {
    let nb = cx.pick(&[512usize, 1024]);
    let stepw = if cx.thorough() { 7 } else { 31 };
    let np = nb / stepw;
    let a = cx.choose(np);
    if !cx.mine() { return; }
    for b in a..np {
        let (i, j) = (a * stepw, b * stepw + stepw - 1);
        let mut v = vec![0u32; nb];
        v[i] += 2;
        v[j.min(nb - 1)] += 3;
        let j = j.min(nb - 1);
        let bi = Binner::new(&mut v, (0.0, 1.0));
        let s = [0u32, 1, 1, 2, 4, 5];
        let g: Vec<usize> = bi.rank_iter(s.iter().cloned(), |&x| x).collect();
        let e = vec![i, i, i, j, j, nb - 1];
        cx.step();
        cx.state(hash::H::new(11).n(nb).n(i).n(j).get());
        cx.check(g == e, "rank-sparse", || format!("{} bins, 2 at {}, 3 at {}: {:?}", nb, i, j, g));
    }
}

/// Bins, weights and rank lists of all sizes.
fn large(cx: &mut Cx) {
    let nb = cx.pick(&[255usize, 256, 257, 4096, 65_535, 65_536, 65_537, 100_003]);
    let kind = cx.choose(6);
    let unit = cx.pick(&[1u32, 255, 256, 65_537, 20_000]);
    if !cx.mine() { return; }
    let w: Vec<u32> = (0..nb).map(|i| unit * match kind {
        0 => 1,
        1 => (i.is_power_of_two() || i + 1 == nb) as u32 * 3,
        2 => (i + 1 == nb) as u32,
        3 => (i == 0) as u32 * 5,
        4 => (i % 97 == 96) as u32 * 2 + (i % 2) as u32,
        _ => (i == nb / 2 || i == nb / 2 + 1) as u32 * 7,
    }).collect();
    let mut cum: Vec<u64> = vec![];
    let mut a = 0u64;
    for &x in &w { a += x as u64; cum.push(a); }
    if a > u32::MAX as u64 || a == 0 { cx.discard(); return; }
    let total = a as u32;
    let want = |r: u32| -> usize { cum.partition_point(|&c| c <= r as u64).min(nb - 1) };
    let mut b1 = w.clone();
    let bi = Binner::new(&mut b1, (-3.0, 5.0));
    cx.state(hash::H::new(12).n(nb).n(kind).n(unit as usize).get());
    let mut ranks: Vec<u32> = vec![0, 1, total / 2, total - 1, total];
    for k in 0..32 { for d in [-1i64, 0, 1] { let r = (1i64 << k) + d; if r >= 0 && r <= total as i64 { ranks.push(r as u32); } } }
    for k in 0..300u64 { ranks.push((total as u64 * k / 300) as u32); }
    for k in [0usize, 1, 2, nb / 3, nb / 2, nb - 2, nb - 1] { for d in [-1i64, 0, 1] { let r = cum[k] as i64 + d; if r >= 0 && r <= total as i64 { ranks.push(r as u32); } } }
    ranks.sort();
    let what = |r: u32| format!("{} bins, weights kind {} times {}, rank {} of {}", nb, kind, unit, r, total);
    for &r in ranks.iter().step_by(if nb > 5000 { 5 } else { 1 }) {
        let g = bi.bin_with_rank(r, |&x| x);
        cx.step();
        cx.check(g == want(r), "rank-large", || format!("{}: bin {}, not {}", what(r), g, want(r)));
    }
    let g: Vec<usize> = bi.rank_iter(ranks.iter().cloned(), |&x| x).collect();
    cx.step();
    cx.check(g.len() == ranks.len(), "rank-list-length", || format!("{}: {} bins for {} ranks", what(0), g.len(), ranks.len()));
    for (k, &r) in ranks.iter().enumerate() { if !cx.check(g[k] == want(r), "rank-list", || format!("{}: bin {}, not {}", what(r), g[k], want(r))) { return; } }
    // every bin as a rank of its own
    if kind == 0 && unit == 1 {
        let g: Vec<usize> = bi.rank_iter(0..total, |&x| x).collect();
        cx.check(g.iter().cloned().eq(0..nb), "rank-all", || what(0));
    }
    // values at the middle of every bin
    let mut b2 = vec![0u32; nb];
    let mut bv = Binner::new(&mut b2, (0.0, 1024.0));
    if nb.is_power_of_two() {
        for i in 0..nb {
            let v = (i as f32 + 0.5) * (1024.0 / nb as f32);
            let g = bv.get_bin(v);
            bv.insert(v, i as u32 + 1, |x, y| *x += y);
            cx.step();
            if !cx.check(g == i && bv.bin_value(i) == i as u32 + 1, "middle-of-bin", || format!("{} bins over 0..1024: value {} in bin {}, not {}", nb, v, g, i)) { return; }
        }
    }
}

fn main() { mc::main(&[("large", large), ("edges", edges), ("ranks", ranks), ("sparse", sparse)]); }
