//! P08: gradients are discretised to the nearest level, sums of levels are projected exactly.
use bitboost::bitslice as own;
use bitboost::bitslice::BitsliceLayout;
use bitboost::slice_store as pool;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout};
use mc::*;

const B: [(f32, f32); 26] = [
    (0.0, 1.0), (-1.0, 1.0), (-1.25, 1.25), (-1.0, 2.0), (-3.0, 3.0), (0.0, 255.0), (-7.5, 0.0), (1.0, 2.0), (-0.1, 0.3),
    (-1e-3, 1e-3), (-1e6, 1e6), (-1e-20, 1e-20), (-3.5, 12.25), (1000.0, 1001.0), (-123.456, 78.9), (-1e30, 1e30), (0.1, 0.7),
    (-5.0, -4.0), (-0.3333333, 0.6666667), (-65535.0, 65535.0), (-2.0, 1.0), (-1e-5, 1.0), (-0.9, 0.9), (-17.0, 17.0), (-0.05, 0.05), (-1.0, 1e3)];

fn up(x: f32) -> f32 { if x == 0.0 { f32::from_bits(1) } else if x > 0.0 { f32::from_bits(x.to_bits() + 1) } else { f32::from_bits(x.to_bits() - 1) } }
fn down(x: f32) -> f32 { -up(-x) }

fn values((lo, hi): (f32, f32), levels: usize, fine: usize) -> Vec<f32> {
    let mut v = vec![];
    let (l, h) = (lo as f64, hi as f64);
    let n = (levels - 1) * fine;
    for k in 0..=n {
        let x = (l + (h - l) * k as f64 / n as f64) as f32;
        let (mut a, mut b) = (x, x);
        v.push(x);
        for _ in 0..3 { a = up(a); b = down(b); v.push(a); v.push(b); }
    }
    let w = hi - lo;
    for m in [1e-6f32, 1e-3, 0.5, 1.0, 10.0, 1e6] { v.push(lo - m * w); v.push(hi + m * w); v.push(lo - m); v.push(hi + m); }
    v.extend_from_slice(&[0.0, -0.0, 1e30, -1e30, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE]);
    v.retain(|x| x.is_finite());
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

struct R<'a> { what: &'a str, bounds: (f32, f32), levels: usize }

/// Judges one sorted series of stored levels and read values.
fn judge(cx: &mut Cx, r: &R, vals: &[f32], ret: &[u8], got: &[u8], back: &[f32]) {
    let (lo, hi) = (r.bounds.0 as f64, r.bounds.1 as f64);
    let max = (r.levels - 1) as f64;
    let step = (hi - lo) / max;
    let mag = lo.abs().max(hi.abs());
    let tol = 4.0 * mag * 1.2e-7 + step * 1e-4;
    for i in 0..vals.len() {
        cx.step();
        let v = (vals[i] as f64).max(lo).min(hi);
        let real = lo + step * got[i] as f64;
        let s = || format!("{} {} levels bounds {:?}: value {:e} stored as level {} (returned {}), read back as {:e}", r.what, r.levels, r.bounds, vals[i], got[i], ret[i], back[i]);
        cx.check(ret[i] == got[i], "returned-level", s);
        cx.check((got[i] as usize) < r.levels, "level-range", s);
        cx.check((v - real).abs() <= step / 2.0 + tol, "nearest-level", s);
        cx.check((back[i] as f64 - real).abs() <= tol, "level-value", s);
        if vals[i] as f64 <= lo { cx.check(got[i] == 0, "below-bounds", s); }
        if vals[i] as f64 >= hi { cx.check(got[i] as usize == r.levels - 1, "above-bounds", s); }
        if i > 0 { cx.check(got[i - 1] <= got[i], "monotone", s); }
        cx.state(H::new(8).n(r.levels).f(r.bounds.0).f(r.bounds.1).n(got[i] as usize).get());
    }
}

fn pooled<L: BitSliceLayout>(cx: &mut Cx, bounds: (f32, f32), vals: &[f32]) {
    let mut store = BitBlockStore::new(4);
    let r = store.alloc_zero_bitslice::<L>(vals.len());
    let mut s = store.get_bitslice_mut::<L>(r);
    let ret: Vec<u8> = vals.iter().enumerate().map(|(i, &v)| s.set_scaled_value(i, v, bounds)).collect();
    let got: Vec<u8> = (0..vals.len()).map(|i| s.get_value(i)).collect();
    let back: Vec<f32> = (0..vals.len()).map(|i| s.get_scaled_value(i, bounds)).collect();
    judge(cx, &R { what: "pooled", bounds, levels: 1 << L::width() }, vals, &ret, &got, &back);
    // overwriting: the old level must not shine through
    for i in 0..vals.len().min(300) { s.set_scaled_value(i, vals[vals.len() - 1 - i], bounds); }
    for i in 0..vals.len().min(300) {
        let j = vals.len() - 1 - i;
        let g = s.get_value(i);
        cx.check(g == ret[j], "overwrite", || format!("pooled width {} bounds {:?} index {}: {} stored over {} gives level {}, fresh {}", L::width(), bounds, i, vals[j], vals[i], g, ret[j]));
    }
}

fn owned<L: BitsliceLayout>(cx: &mut Cx, bounds: (f32, f32), vals: &[f32]) {
    let mut b = own::Bitslice::new();
    let mut s = b.with_layout_mut::<L>();
    s.resize(vals.len());
    let ret: Vec<u8> = vals.iter().enumerate().map(|(i, &v)| s.set_scaled_value(i, v, bounds)).collect();
    let got: Vec<u8> = (0..vals.len()).map(|i| s.get_value(i)).collect();
    let back: Vec<f32> = (0..vals.len()).map(|i| s.get_scaled_value(i, bounds)).collect();
    judge(cx, &R { what: "owned", bounds, levels: 1 << L::width() }, vals, &ret, &got, &back);
}

fn grid(cx: &mut Cx) {
    let bounds = cx.pick(&B);
    let w = cx.choose(4);
    let own_one = cx.flag();
    if !cx.mine() { return; }
    let fine = if cx.thorough() { 256 } else { 32 };
    let vals = values(bounds, 1 << (1 << w), fine);
    match (w, own_one) {
        (0, false) => pooled::<pool::BitSliceLayout1>(cx, bounds, &vals),
        (1, false) => pooled::<pool::BitSliceLayout2>(cx, bounds, &vals),
        (2, false) => pooled::<pool::BitSliceLayout4>(cx, bounds, &vals),
        (3, false) => pooled::<pool::BitSliceLayout8>(cx, bounds, &vals),
        (0, true) => owned::<own::BitsliceLayout1>(cx, bounds, &vals),
        (1, true) => owned::<own::BitsliceLayout2>(cx, bounds, &vals),
        (2, true) => owned::<own::BitsliceLayout4>(cx, bounds, &vals),
        _ => owned::<own::BitsliceLayout8>(cx, bounds, &vals),
    }
    let n = vals.len();
    cx.sample(|| format!("bounds {:?} width {} {}: {} values around every level, midpoint and bound", bounds, 1 << w, if own_one { "owned" } else { "pooled" }, n));
}

/// Containers of more values than small integer types can count.
fn large(cx: &mut Cx) {
    let bounds = cx.pick(&[(-1.0f32, 1.0f32), (-1.25, 1.25), (-1.0, 2.0), (-123.456, 78.9)]);
    let w = cx.choose(4);
    let own_one = cx.flag();
    if !cx.mine() { return; }
    let levels = 1usize << (1 << w);
    let vals = values(bounds, levels, if cx.thorough() { 300_000 } else { 24_000 } / (levels - 1));
    match (w, own_one) {
        (0, false) => pooled::<pool::BitSliceLayout1>(cx, bounds, &vals),
        (1, false) => pooled::<pool::BitSliceLayout2>(cx, bounds, &vals),
        (2, false) => pooled::<pool::BitSliceLayout4>(cx, bounds, &vals),
        (3, false) => pooled::<pool::BitSliceLayout8>(cx, bounds, &vals),
        (0, true) => owned::<own::BitsliceLayout1>(cx, bounds, &vals),
        (1, true) => owned::<own::BitsliceLayout2>(cx, bounds, &vals),
        (2, true) => owned::<own::BitsliceLayout4>(cx, bounds, &vals),
        _ => owned::<own::BitsliceLayout8>(cx, bounds, &vals),
    }
    let n = vals.len();
    cx.sample(|| format!("bounds {:?} width {} {}: {} values", bounds, 1 << w, if own_one { "owned" } else { "pooled" }, n));
}

/// Every level is a fixed point: storing its real value keeps it.
fn fixpoint<L: BitSliceLayout>(cx: &mut Cx, bounds: (f32, f32)) {
    let mut store = BitBlockStore::new(4);
    let n = 1usize << L::width();
    let r = store.alloc_zero_bitslice::<L>(n);
    let mut s = store.get_bitslice_mut::<L>(r);
    for k in 0..n {
        s.set_value(k, k as u8);
        let x = s.get_scaled_value(k, bounds);
        let back = s.set_scaled_value(k, x, bounds);
        cx.step();
        cx.check(back as usize == k, "fixed-point", || format!("width {} bounds {:?}: level {} reads {:e}, which is stored as {}", L::width(), bounds, k, x, back));
        if k == 0 { cx.check((x - bounds.0).abs() <= bounds.0.abs() * 3e-7, "lowest-level", || format!("{:?} {}", bounds, x)); }
        if k == n - 1 { cx.check((x - bounds.1).abs() <= bounds.0.abs().max(bounds.1.abs()) * 3e-7, "highest-level", || format!("{:?} {}", bounds, x)); }
    }
}

fn fixpoints(cx: &mut Cx) {
    let bounds = cx.pick(&B);
    let w = cx.choose(4);
    if !cx.mine() { return; }
    match w {
        0 => fixpoint::<pool::BitSliceLayout1>(cx, bounds),
        1 => fixpoint::<pool::BitSliceLayout2>(cx, bounds),
        2 => fixpoint::<pool::BitSliceLayout4>(cx, bounds),
        _ => fixpoint::<pool::BitSliceLayout8>(cx, bounds),
    }
}

/// Projection of a sum of levels = sum of the projected levels.
fn projection(cx: &mut Cx) {
    let bounds = cx.pick(&B);
    let w = cx.choose(4);
    if !cx.mine() { return; }
    let max = (1usize << (1 << w)) - 1;
    let (lo, hi) = (bounds.0 as f64, bounds.1 as f64);
    let step = (hi - lo) / max as f64;
    let counts: Vec<usize> = (0..=33).chain([64, 100, 255, 256, 1000, 4096, 65535]).collect();
    for &c in &counts {
        let total = c * max;
        let stride = (total / 400).max(1);
        let mut sums: Vec<usize> = (0..=total).step_by(stride).collect();
        sums.extend((0..=20.min(total)).chain(total - 20.min(total)..=total));
        for s in sums {
            let (a, b) = match w {
                0 => (pool::BitSliceLayout1::linproj(s as f32, c as f32, bounds), own::BitsliceLayout1::linproj(s as f32, c as f32, bounds)),
                1 => (pool::BitSliceLayout2::linproj(s as f32, c as f32, bounds), own::BitsliceLayout2::linproj(s as f32, c as f32, bounds)),
                2 => (pool::BitSliceLayout4::linproj(s as f32, c as f32, bounds), own::BitsliceLayout4::linproj(s as f32, c as f32, bounds)),
                _ => (pool::BitSliceLayout8::linproj(s as f32, c as f32, bounds), own::BitsliceLayout8::linproj(s as f32, c as f32, bounds)),
            };
            let want = c as f64 * lo + s as f64 * step;
            let tol = 5e-7 * (c as f64 * lo.abs() + s as f64 * step) + 1e-40;
            cx.step();
            cx.check((a as f64 - want).abs() <= tol, "projection", || format!("width {} bounds {:?}: {} rows with level sum {} projected to {:e}, expected {:e}", 1 << w, bounds, c, s, a, want));
            cx.check((b as f64 - want).abs() <= tol, "projection-owned", || format!("width {} bounds {:?}: {} rows with level sum {} projected to {:e}, expected {:e}", 1 << w, bounds, c, s, b, want));
        }
    }
    cx.state(H::new(81).f(bounds.0).f(bounds.1).n(w).get());
}

/// Masked scaled sums of one 32-row block equal the sum of the values read one by one.
fn masked<L: BitSliceLayout>(cx: &mut Cx, bounds: (f32, f32), fill: usize, index: usize) {
    let mut store = BitBlockStore::new(4);
    let n = 1100;
    let r = store.alloc_zero_bitslice::<L>(n);
    let mut s = store.get_bitslice_mut::<L>(r);
    let top = (1usize << L::width()) - 1;
    for i in 0..n {
        let v = match fill { 0 => 0, 1 => top, 2 => i % (top + 1), _ => (i * 37 + i / 32 * 11 + 5) % (top + 1) };
        s.set_value(i, v as u8);
    }
    let mut masks: Vec<u32> = vec![0, !0, 1, 1 << 31, 0x5555_5555, 0xAAAA_AAAA, 0x0000_FFFF, 0xFFFF_0000, 0x8000_0001];
    for b in 0..32 { masks.push(1 << b); masks.push(!(1 << b)); }
    for m in masks {
        let (sum, count) = s.sum_scaled_masked(index, m, bounds);
        let mut want = 0.0f64;
        let mut mag = 0.0f64;
        let mut lev = 0u32;
        for b in 0..32 {
            if m >> b & 1 == 1 {
                let x = s.get_scaled_value(index * 32 + b, bounds) as f64;
                want += x;
                mag += bounds.0.abs().max(bounds.1.abs()) as f64;
                lev += s.get_value(index * 32 + b) as u32;
            }
        }
        let isum = s.sum_masked(index, m);
        cx.step();
        cx.check(count == m.count_ones(), "masked-count", || format!("width {} index {} mask {:x}: {}", L::width(), index, m, count));
        cx.check(isum == lev, "masked-level-sum", || format!("width {} index {} mask {:x}: {} instead of {}", L::width(), index, m, isum, lev));
        cx.check((sum as f64 - want).abs() <= mag * 2e-6 + 1e-40, "masked-scaled-sum", || format!("width {} bounds {:?} index {} mask {:x}: {} instead of {}", L::width(), bounds, index, m, sum, want));
    }
}

fn masked_sums(cx: &mut Cx) {
    let bounds = cx.pick(&B);
    let w = cx.choose(4);
    let fill = cx.choose(4);
    if !cx.mine() { return; }
    for index in [0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 33] {
        match w {
            0 => masked::<pool::BitSliceLayout1>(cx, bounds, fill, index),
            1 => masked::<pool::BitSliceLayout2>(cx, bounds, fill, index),
            2 => masked::<pool::BitSliceLayout4>(cx, bounds, fill, index),
            _ => masked::<pool::BitSliceLayout8>(cx, bounds, fill, index),
        }
    }
}

/// All multisets of levels: the sum through the projection equals the sum of the single values.
fn sums_of_levels(cx: &mut Cx) {
    let bounds = cx.pick(&B);
    let w = cx.choose(3);
    let max = (1usize << (1 << w)) - 1;
    let n = [10, 6, 3][w];
    if !cx.mine() { return; }
    let v = train::multiset(cx, n, max + 1);
    let (sum, one): (usize, Vec<f32>) = (v.iter().sum(), v.iter().map(|&x| match w {
        0 => pool::BitSliceLayout1::linproj(x as f32, 1.0, bounds),
        1 => pool::BitSliceLayout2::linproj(x as f32, 1.0, bounds),
        _ => pool::BitSliceLayout4::linproj(x as f32, 1.0, bounds) }).collect());
    let got = match w {
        0 => pool::BitSliceLayout1::linproj(sum as f32, n as f32, bounds),
        1 => pool::BitSliceLayout2::linproj(sum as f32, n as f32, bounds),
        _ => pool::BitSliceLayout4::linproj(sum as f32, n as f32, bounds) };
    let want: f64 = one.iter().map(|&x| x as f64).sum();
    let mag = n as f64 * bounds.0.abs().max(bounds.1.abs()) as f64;
    cx.step();
    cx.check((got as f64 - want).abs() <= 2e-6 * mag + 1e-40, "sum-of-levels", || format!("width {} bounds {:?} levels {:?}: {} instead of {}", 1 << w, bounds, v, got, want));
}

/// All finite f32 bit patterns (quick: every 512th mantissa, and 512 ulps around the ends of each chunk).
fn every_float(cx: &mut Cx) {
    let bounds = cx.pick(&[(-1.0f32, 1.0f32), (-1.25, 1.25), (0.0, 1.0), (-123.456, 78.9), (-1.0, 2.0)]);
    let w = cx.choose(4);
    let chunk = cx.choose(4096) as u32;
    if !cx.mine() { return; }
    let stride = if cx.thorough() { 1u32 } else { 512 };
    match w {
        0 => floats::<pool::BitSliceLayout1>(cx, bounds, chunk, stride),
        1 => floats::<pool::BitSliceLayout2>(cx, bounds, chunk, stride),
        2 => floats::<pool::BitSliceLayout4>(cx, bounds, chunk, stride),
        _ => floats::<pool::BitSliceLayout8>(cx, bounds, chunk, stride),
    }
}

fn floats<L: BitSliceLayout>(cx: &mut Cx, bounds: (f32, f32), chunk: u32, stride: u32) {
    let mut store = BitBlockStore::new(4);
    let r = store.alloc_zero_bitslice::<L>(64);
    let mut s = store.get_bitslice_mut::<L>(r);
    let (lo, hi) = (bounds.0 as f64, bounds.1 as f64);
    let max = ((1usize << L::width()) - 1) as f64;
    let step = (hi - lo) / max;
    let tol = 4.0 * lo.abs().max(hi.abs()) * 1.2e-7 + step * 1e-4;
    let base = chunk << 20;
    let (mut bad, mut n, mut prev): (Option<(f32, u8)>, usize, Option<u8>) = (None, 0, None);
    let mut one = |x: f32, prev: &mut Option<u8>| -> bool {
        if !x.is_finite() { return true; }
        let l = s.set_scaled_value(5, x, bounds);
        let v = (x as f64).max(lo).min(hi);
        let ok = (v - (lo + step * l as f64)).abs() <= step / 2.0 + tol;
        // bit patterns of negative numbers descend
        let mono = prev.map_or(true, |p| if x.is_sign_negative() { l <= p } else { l >= p });
        *prev = Some(l);
        n += 1;
        if !(ok && mono) { bad = Some((x, l)); }
        ok && mono
    };
    let mut k = 0u64;
    while k < 1 << 20 {
        if !one(f32::from_bits(base + k as u32), &mut prev) { break; }
        k += if k < 512 || k >= (1 << 20) - 512 { 1 } else { stride as u64 };
    }
    cx.steps(n);
    cx.check(bad.is_none(), "nearest-or-monotone", || format!("width {} bounds {:?}: {:?}", L::width(), bounds, bad));
}

/// Equal bounds (all gradients equal): everything is stored and read as that value, without panic.
fn degenerate(cx: &mut Cx) {
    let c = cx.pick(&[0.0f32, 1.0, -2.5, 1e-20, 1e20]);
    let v = cx.pick(&[0.0f32, 1.0, -2.5, 1e-20, 1e20, -1e20, 7.0]);
    if !cx.mine() { return; }
    let mut store = BitBlockStore::new(4);
    let r = store.alloc_zero_bitslice::<pool::BitSliceLayout4>(10);
    let mut s = store.get_bitslice_mut::<pool::BitSliceLayout4>(r);
    s.set_scaled_value(3, v, (c, c));
    let x = s.get_scaled_value(3, (c, c));
    cx.step();
    cx.check(x == c, "degenerate-bounds", || format!("bounds ({0},{0}): {1} read back as {2}", c, v, x));
}

/// Bounds of every magnitude: the least differences of bounds a float can hold to the greatest.
fn magnitudes(cx: &mut Cx) {
    let e = cx.choose(255) as i32 - 140;
    let shape = cx.choose(5);
    let w = cx.choose(4);
    if !cx.mine() { return; }
    let u = 2f64.powi(e);
    let b = match shape { 0 => (-u, u), 1 => (0.0, u), 2 => (-1.75 * u, 1.25 * u), 3 => (u, 1.5 * u), _ => (-u, -0.5 * u) };
    let bounds = (b.0 as f32, b.1 as f32);
    let w2 = bounds.1 - bounds.0;
    if !(w2.is_finite() && w2 > 0.0) || (bounds.0 as f64, bounds.1 as f64) != b { cx.discard(); return; }
    match w {
        0 => magnitude::<pool::BitSliceLayout1>(cx, bounds),
        1 => magnitude::<pool::BitSliceLayout2>(cx, bounds),
        2 => magnitude::<pool::BitSliceLayout4>(cx, bounds),
        _ => magnitude::<pool::BitSliceLayout8>(cx, bounds),
    }
}

fn magnitude<L: BitSliceLayout>(cx: &mut Cx, bounds: (f32, f32)) {
    let (lo, hi) = (bounds.0 as f64, bounds.1 as f64);
    let max = ((1usize << L::width()) - 1) as f64;
    let step = (hi - lo) / max;
    let fine = 24;
    let n = max as usize * fine + 1;
    let mut store = BitBlockStore::new(4);
    let r = store.alloc_zero_bitslice::<L>(n);
    let mut s = store.get_bitslice_mut::<L>(r);
    // what single precision arithmetic can tell apart at this magnitude
    let tiny = f32::from_bits(1) as f64;
    let tol = 4.0 * lo.abs().max(hi.abs()) * 1.2e-7 + step * 1e-4 + 4.0 * tiny;
    let mut last = 0;
    for i in 0..n {
        let x = (lo + (hi - lo) * i as f64 / (n - 1) as f64) as f32;
        let l = s.set_scaled_value(i, x, bounds);
        let got = s.get_value(i);
        let back = s.get_scaled_value(i, bounds) as f64;
        let real = lo + step * got as f64;
        let d = || format!("width {} bounds {:?}: value {:e} stored as level {}, read back as {:e}", L::width(), bounds, x, got, back);
        cx.check(l == got, "returned-level", d);
        cx.check(((x as f64).max(lo).min(hi) - real).abs() <= step / 2.0 + tol, "nearest-level", d);
        // a step that single precision cannot hold precisely is off by up to half the least float per level
        cx.check((back - real).abs() <= tol + max * tiny, "level-value", d);
        cx.check(i == 0 || last <= got, "monotone", d);
        last = got;
        if cx.failed() { return; }
    }
    cx.steps(n);
    for (x, want) in [(bounds.0, 0u8), (bounds.1, max as u8), (f32::MIN, 0), (f32::MAX, max as u8)] {
        let l = s.set_scaled_value(0, x, bounds);
        cx.check(l == want, "out-of-bounds", || format!("width {} bounds {:?}: {:e} stored as level {} instead of {}", L::width(), bounds, x, l, want));
    }
    cx.state(H::new(82).f(bounds.0).f(bounds.1).n(L::width()).get());
}

fn main() {
    mc::main(&[("large", large), ("grid", grid), ("fixpoints", fixpoints), ("projection", projection), ("masked_sums", masked_sums), ("sums_of_levels", sums_of_levels), ("degenerate", degenerate), ("magnitudes", magnitudes), ("every_float", every_float)]);
}
