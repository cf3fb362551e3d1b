//! P06: index iteration lists exactly the set positions, ascending block by block.
use bitboost::slice_store::{BitBlockStore, BitVec, BitVecRef, SliceRange};
use mc::*;

struct Fix { store: BitBlockStore, v: SliceRange, m: SliceRange, ix: SliceRange, nb: usize, mb: usize }

impl Fix {
    fn new(nb: usize, mb: usize) -> Fix {
        let mut store = BitBlockStore::new(4);
        let v = store.alloc_zero_blocks(nb);
        let m = store.alloc_zero_blocks(mb);
        let ix = store.alloc_zero_blocks(nb);
        Fix { store, v, m, ix, nb, mb }
    }
    fn u32s(&mut self, r: SliceRange, vals: &[u32]) {
        let mut b = self.store.get_bitvec_mut(r);
        let s = b.cast_mut::<u32>();
        s.copy_from_slice(vals);
    }
}

/// Position sets: eight positions of a vector of nb blocks around the boundaries of words.
fn positions(kind: usize, nb: usize) -> Vec<usize> {
    let n = nb * 256;
    let mut p: Vec<usize> = match kind {
        0 => vec![0, 1, 31, 32, 63, 64, 127, 128],
        1 => vec![0, 30, 31, 32, 33, 95, 96, 255],
        2 => vec![0, n - 1, n - 2, n - 32, n - 33, n - 64, n - 65, n - 128],
        3 => (0..8).map(|i| (i * 37 + 5) % n).collect(),
        4 => vec![255, 256 % n, 257 % n, 287 % n, 288 % n, 511 % n, 512 % n, n - 1],
        5 => (0..8).map(|i| i * 32 + 31).collect(),
        6 => (0..8).map(|i| n - 256 + i * 32).collect(),
        _ => (0..8).map(|i| 64 + i * 9).collect(),
    };
    p.sort();
    p.dedup();
    p
}

fn index_map(kind: usize, n: usize, m: usize) -> Vec<u32> {
    (0..n).map(|i| (match kind {
        0 => i,
        1 => m - 1 - i,
        2 => (i * 3 + 1) % m,
        3 => i / 2,
        4 => (i + 5) % m,
        5 => 0,
        6 => m - 1,
        _ => m - n + i,
    }) as u32).collect()
}

fn ones(v: &[u32]) -> Vec<(usize, u32)> {
    let mut r = vec![];
    for (i, &w) in v.iter().enumerate() { for b in 0..32 { if w >> b & 1 == 1 { r.push((i, b)); } } }
    r
}

/// Run a visitor which stops after `k` items (never for k = usize::MAX).
fn visit<F: FnOnce(&mut dyn FnMut(usize) -> bool)>(k: usize, f: F) -> Vec<usize> {
    let mut got = vec![];
    f(&mut |i| { got.push(i); got.len() >= k });
    got
}

fn compare(cx: &mut Cx, what: &str, got: &[usize], want: &[usize], ctx: &dyn Fn() -> String) {
    cx.step();
    cx.check(got == want, what, || {
        if got.len().max(want.len()) <= 600 { return format!("{}: got {:?}, expected {:?}", ctx(), got, want); }
        let k = (0..).find(|&k| got.get(k) != want.get(k)).unwrap();
        format!("{}: item {}: got {:?}, expected {:?}; {} items, expected {}", ctx(), k, got.get(k), want.get(k), got.len(), want.len())
    });
}

fn check_all(cx: &mut Cx, v: &[u32], m: &[u32], ix: &[u32], bv: &BitVecRef, bm: &BitVecRef, bi: &BitVecRef, full: bool) {
    let ctx = || if v.len() <= 700 { format!("bits {:x?} mask {:x?} index {:?}", v, m, ix) }
        else { format!("{} words {:x?}.. mask {} words {:x?}.. index {:?}..", v.len(), &v[..16], m.len(), &m[..16], &ix[..16]) };
    let pos = ones(v);
    let plain: Vec<usize> = pos.iter().map(|&(i, b)| i * 32 + b as usize).collect();
    let compr: Vec<usize> = pos.iter().map(|&(i, b)| ix[i] as usize * 32 + b as usize).collect();
    let mset = |i: usize, b: u32| m[i] >> b & 1 == 1;
    let same = v.len() == m.len();
    let and: Vec<usize> = pos.iter().filter(|&&(i, b)| mset(i, b)).map(|&(i, b)| i * 32 + b as usize).collect();
    let andnot: Vec<usize> = pos.iter().filter(|&&(i, b)| !mset(i, b)).map(|&(i, b)| i * 32 + b as usize).collect();
    let andc: Vec<usize> = pos.iter().filter(|&&(i, b)| mset(ix[i] as usize, b)).map(|&(i, b)| ix[i] as usize * 32 + b as usize).collect();
    let andnotc: Vec<usize> = pos.iter().filter(|&&(i, b)| !mset(ix[i] as usize, b)).map(|&(i, b)| ix[i] as usize * 32 + b as usize).collect();
    compare(cx, "index_iter", &bv.index_iter().collect::<Vec<_>>(), &plain, &ctx);
    compare(cx, "index_iter_compr", &bv.index_iter_compr(bi).collect::<Vec<_>>(), &compr, &ctx);
    compare(cx, "index_iter_and_compr", &bv.index_iter_and_compr(bm, bi).collect::<Vec<_>>(), &andc, &ctx);
    compare(cx, "index_iter_andnot_compr", &bv.index_iter_andnot_compr(bm, bi).collect::<Vec<_>>(), &andnotc, &ctx);
    if same {
        compare(cx, "index_iter_and", &bv.index_iter_and(bm).collect::<Vec<_>>(), &and, &ctx);
        compare(cx, "index_iter_andnot", &bv.index_iter_andnot(bm).collect::<Vec<_>>(), &andnot, &ctx);
    }
    // an exhausted iterator stays exhausted
    {
        let mut it = bv.index_iter_and_compr(bm, bi);
        while it.next().is_some() {}
        cx.check(it.next().is_none(), "iterator-resumes", || ctx());
    }
    let stops = |n: usize| -> Vec<usize> {
        let mut s = vec![usize::MAX];
        if full { s.extend(1..=n); } else if n > 0 { s.push(1); s.push(n); s.push((n + 1) / 2); }
        s
    };
    for k in stops(plain.len()) {
        let g = visit(k, |f| bv.for_each_index(|i| f(i)));
        compare(cx, "for_each_index", &g, &plain[..k.min(plain.len())], &ctx);
    }
    for k in stops(compr.len()) {
        let g = visit(k, |f| bv.for_each_index_compr(bi, |i| f(i)));
        compare(cx, "for_each_index_compr", &g, &compr[..k.min(compr.len())], &ctx);
    }
    if same {
        for k in stops(and.len()) {
            let g = visit(k, |f| bv.for_each_index_and(bm, |i| f(i)));
            compare(cx, "for_each_index_and", &g, &and[..k.min(and.len())], &ctx);
        }
    }
    for k in stops(andc.len()) {
        let g = visit(k, |f| bv.for_each_index_and_compr(bm, bi, |i| f(i)));
        compare(cx, "for_each_index_and_compr", &g, &andc[..k.min(andc.len())], &ctx);
    }
    cx.state(H::new(6).n(plain.len()).n(and.len()).n(andnot.len()).us(&andc).get());
}

/// All combinations of bit and mask bit at eight positions.
fn combos(cx: &mut Cx) {
    let nb = 1 + cx.choose(3);
    let mb = nb + cx.choose(2);
    let pk = cx.choose(8);
    let mk = cx.choose(8);
    let background = cx.choose(2); // other mask bits 0 or 1
    if !cx.mine() { return; }
    let mut fx = Fix::new(nb, mb);
    let pos = positions(pk, nb);
    let map = index_map(mk, nb * 8, mb * 8);
    fx.u32s(fx.ix, &map.clone());
    let np = pos.len();
    let thorough = cx.thorough();
    for c in 0..4usize.pow(np as u32) {
        // quick: in the larger vectors only every pattern with at most five positions occupied
        if !thorough && (nb > 1 || mb > nb) && (0..np).filter(|&i| c >> (2 * i) & 3 != 0).count() > 4 { continue; }
        let mut v = vec![0u32; nb * 8];
        let mut m = vec![if background == 1 { !0u32 } else { 0 }; mb * 8];
        for (i, &p) in pos.iter().enumerate() {
            let k = c >> (2 * i) & 3;
            if k & 1 == 1 { v[p / 32] |= 1 << (p % 32); }
            // the mask bit, in plain and in mapped coordinates
            if k & 2 == 2 {
                for w in [p / 32, map[p / 32] as usize] {
                    if background == 0 { m[w] |= 1 << (p % 32); } else { m[w] &= !(1 << (p % 32)); }
                }
            }
        }
        let (rv, rm, ri) = (fx.v, fx.m, fx.ix);
        fx.u32s(rv, &v);
        fx.u32s(rm, &m);
        let (bv, bm, bi) = (fx.store.get_bitvec(rv), fx.store.get_bitvec(rm), fx.store.get_bitvec(ri));
        check_all(cx, &v, &m, &map, &bv, &bm, &bi, c % 5 == 0);
        if cx.failed() { return; }
    }
    let s = format!("{} block(s), mask of {} block(s), positions {:?}, index map {:?}, mask background {}", fx.nb, fx.mb, pos, &map[..8], background);
    cx.sample(|| s);
}

/// Dense patterns: every word one of a few, every position of the vector covered.
fn dense(cx: &mut Cx) {
    let nb = 1 + cx.choose(3);
    let mb = nb + cx.choose(3);
    let vk = cx.choose(8);
    let mk = cx.choose(8);
    let xk = cx.choose(8);
    if !cx.mine() { return; }
    let word = |k: usize, i: usize| -> u32 {
        match k {
            0 => 0, 1 => !0, 2 => 0x8000_0001, 3 => 0xAAAA_AAAA, 4 => 0x5555_5555, 5 => if i % 2 == 0 { !0 } else { 0 },
            6 => (i as u32 + 1).wrapping_mul(0x9E37_79B1), _ => 1 << (i % 32),
        }
    };
    let mut fx = Fix::new(nb, mb);
    let v: Vec<u32> = (0..nb * 8).map(|i| word(vk, i)).collect();
    let m: Vec<u32> = (0..mb * 8).map(|i| word(mk, i + 3)).collect();
    let map = index_map(xk, nb * 8, mb * 8);
    let (rv, rm, ri) = (fx.v, fx.m, fx.ix);
    fx.u32s(rv, &v);
    fx.u32s(rm, &m);
    fx.u32s(ri, &map);
    let (bv, bm, bi) = (fx.store.get_bitvec(rv), fx.store.get_bitvec(rm), fx.store.get_bitvec(ri));
    check_all(cx, &v, &m, &map, &bv, &bm, &bi, true);
}

/// One set bit at every position, mapped to every block of the mask.
fn single(cx: &mut Cx) {
    let nb = 1 + cx.choose(3);
    let mb = nb + cx.choose(3);
    let entry = cx.choose(nb * 8);
    if !cx.mine() { return; }
    let mut fx = Fix::new(nb, mb);
    let (rv, rm, ri) = (fx.v, fx.m, fx.ix);
    for target in 0..mb * 8 {
        let map: Vec<u32> = (0..nb * 8).map(|i| if i == entry { target as u32 } else { (i % (mb * 8)) as u32 }).collect();
        fx.u32s(ri, &map);
        for bit in 0..32 {
            for mask in 0..2 {
                let mut v = vec![0u32; nb * 8];
                v[entry] = 1 << bit;
                let mut m = vec![0u32; mb * 8];
                if mask == 1 { m[target] = 1 << bit; } else { for (i, x) in m.iter_mut().enumerate() { if i != target { *x = !0; } else { *x = !(1 << bit); } } }
                fx.u32s(rv, &v);
                fx.u32s(rm, &m);
                let (bv, bm, bi) = (fx.store.get_bitvec(rv), fx.store.get_bitvec(rm), fx.store.get_bitvec(ri));
                check_all(cx, &v, &m, &map, &bv, &bm, &bi, true);
            }
        }
    }
}

/// Lengths: 1..=40 blocks with a bit at the first and last position of every 32-bit word.
fn lengths(cx: &mut Cx) {
    let nb = 1 + cx.choose(if cx.thorough() { 80 } else { 40 });
    let k = cx.choose(3);
    if !cx.mine() { return; }
    let mut fx = Fix::new(nb, nb);
    let v: Vec<u32> = (0..nb * 8).map(|i| match k { 0 => 0x8000_0001, 1 => if i + 1 == nb * 8 || i == 0 { !0 } else { 0 }, _ => 1 << (i % 32) }).collect();
    let m: Vec<u32> = (0..nb * 8).map(|i| if i % 3 == 0 { !0 } else { 1 }).collect();
    let map: Vec<u32> = (0..nb * 8).map(|i| (nb * 8 - 1 - i) as u32).collect();
    let (rv, rm, ri) = (fx.v, fx.m, fx.ix);
    fx.u32s(rv, &v);
    fx.u32s(rm, &m);
    fx.u32s(ri, &map);
    let (bv, bm, bi): (BitVec<_>, BitVec<_>, BitVec<_>) = (fx.store.get_bitvec(rv), fx.store.get_bitvec(rm), fx.store.get_bitvec(ri));
    check_all(cx, &v, &m, &map, &bv, &bm, &bi, false);
}

/// Vectors of many blocks: dense, with long gaps, with a single bit; positions beyond the small integer types.
fn large(cx: &mut Cx) {
    let nb = if cx.thorough() { cx.pick(&[257usize, 2049, 8193, 16_385, 65_537, 131_075]) } else { cx.pick(&[257usize, 2049, 8193, 65_537]) };
    let extra = cx.pick(&[0usize, 9]);
    let vk = cx.choose(6);
    let mk = cx.choose(4);
    let xk = cx.pick(&[0usize, 1, 2, 7]);
    if !cx.mine() { return; }
    if nb > 10_000 && vk == 0 && (mk > 1 || extra > 0) { cx.discard(); return; }
    let mb = nb + extra;
    let n = nb * 8;
    let v: Vec<u32> = (0..n).map(|i| match vk {
        0 => (i as u32 + 1).wrapping_mul(0x9E37_79B1),
        1 => if i % 1000 == 999 { 0x8000_0001 } else { 0 },
        2 => if i + 1 == n { 0x8000_0000 } else { 0 },
        3 => if i == 0 || i == n / 2 { 1 } else { 0 },
        4 => if i > n - 20 || i < 3 { !0 } else { 0 },
        _ => if (i + 1).is_power_of_two() || i.is_power_of_two() { 0x8421_0842 } else { 0 },
    }).collect();
    let m: Vec<u32> = (0..mb * 8).map(|i| match mk { 0 => !0, 1 => if i % 3 == 0 { 0 } else { 0xFFFF_0000 }, 2 => if i * 2 < mb * 8 { 0 } else { !0 }, _ => (i as u32).wrapping_mul(0x85EB_CA6B) }).collect();
    let map = index_map(xk, n, mb * 8);
    let mut fx = Fix::new(nb, mb);
    let (rv, rm, ri) = (fx.v, fx.m, fx.ix);
    fx.u32s(rv, &v);
    fx.u32s(rm, &m);
    fx.u32s(ri, &map);
    let (bv, bm, bi) = (fx.store.get_bitvec(rv), fx.store.get_bitvec(rm), fx.store.get_bitvec(ri));
    check_all(cx, &v, &m, &map, &bv, &bm, &bi, false);
}

fn main() { mc::main(&[("large", large), ("combos", combos), ("dense", dense), ("single", single), ("lengths", lengths)]); }
