//! P04: bit-parallel counts and masked sums equal their scalar definition.
use bitboost::bitblock::BitBlocks;
use bitboost::bitset::Bitset;
use bitboost::bitslice as own;
use bitboost::bitslice::BitsliceLayout;
use bitboost::count_and_sum::*;
use bitboost::simd;
use bitboost::slice_store as pool;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout, SliceRange};
use mc::*;

/// Width 0 stands for plain counts.
const WIDTHS: [usize; 5] = [0, 1, 2, 4, 8];

/// One vector of values, its masks and index map in both containers.
struct Rig {
    w: usize,
    compr: bool,
    store: BitBlockStore,
    slice: SliceRange,
    nm: SliceRange,
    fm: SliceRange,
    idx: SliceRange,
    oslice: own::Bitslice,
    onm: Bitset,
    ofm: Bitset,
    oidx: BitBlocks,
}

impl Rig {
    /// `mb` blocks of 256 rows; the feature mask has `fb` blocks.
    fn new(w: usize, compr: bool, mb: usize, fb: usize, map: &[u32]) -> Rig {
        let n = mb * 256;
        let mut store = BitBlockStore::new(8);
        let mut oslice = own::Bitslice::new();
        let slice = match w {
            0 => store.alloc_zero_blocks(1),
            1 => { oslice.with_layout_mut::<own::BitsliceLayout1>().resize(n); store.alloc_zero_bitslice::<pool::BitSliceLayout1>(n) }
            2 => { oslice.with_layout_mut::<own::BitsliceLayout2>().resize(n); store.alloc_zero_bitslice::<pool::BitSliceLayout2>(n) }
            4 => { oslice.with_layout_mut::<own::BitsliceLayout4>().resize(n); store.alloc_zero_bitslice::<pool::BitSliceLayout4>(n) }
            _ => { oslice.with_layout_mut::<own::BitsliceLayout8>().resize(n); store.alloc_zero_bitslice::<pool::BitSliceLayout8>(n) }
        };
        let nm = store.alloc_zero_blocks(mb);
        let fm = store.alloc_zero_blocks(fb);
        let idx = store.alloc_from_iter(mb * 8, map.iter().cloned());
        Rig { w, compr, store, slice, nm, fm, idx, oslice, onm: Bitset::zeros(n), ofm: Bitset::zeros(fb * 256),
              oidx: BitBlocks::from_iter(mb * 8, map.iter().cloned()) }
    }
    fn new_plain(w: usize, mb: usize) -> Rig {
        let map: Vec<u32> = vec![0; 8];
        let mut r = Rig::new(w, false, 1, 1, &map);
        let n = mb * 256;
        match w {
            0 => {}
            1 => { r.oslice.with_layout_mut::<own::BitsliceLayout1>().resize(n); r.slice = r.store.alloc_zero_bitslice::<pool::BitSliceLayout1>(n) }
            2 => { r.oslice.with_layout_mut::<own::BitsliceLayout2>().resize(n); r.slice = r.store.alloc_zero_bitslice::<pool::BitSliceLayout2>(n) }
            4 => { r.oslice.with_layout_mut::<own::BitsliceLayout4>().resize(n); r.slice = r.store.alloc_zero_bitslice::<pool::BitSliceLayout4>(n) }
            _ => { r.oslice.with_layout_mut::<own::BitsliceLayout8>().resize(n); r.slice = r.store.alloc_zero_bitslice::<pool::BitSliceLayout8>(n) }
        }
        r.nm = r.store.alloc_zero_blocks(mb);
        r.fm = r.store.alloc_zero_blocks(mb);
        r.onm = Bitset::zeros(n);
        r.ofm = Bitset::zeros(n);
        r
    }
    fn set_val(&mut self, i: usize, v: u8) {
        match self.w {
            0 => {}
            1 => { self.store.get_bitslice_mut::<pool::BitSliceLayout1>(self.slice).set_value(i, v); self.oslice.with_layout_mut::<own::BitsliceLayout1>().set_value(i, v) }
            2 => { self.store.get_bitslice_mut::<pool::BitSliceLayout2>(self.slice).set_value(i, v); self.oslice.with_layout_mut::<own::BitsliceLayout2>().set_value(i, v) }
            4 => { self.store.get_bitslice_mut::<pool::BitSliceLayout4>(self.slice).set_value(i, v); self.oslice.with_layout_mut::<own::BitsliceLayout4>().set_value(i, v) }
            _ => { self.store.get_bitslice_mut::<pool::BitSliceLayout8>(self.slice).set_value(i, v); self.oslice.with_layout_mut::<own::BitsliceLayout8>().set_value(i, v) }
        }
    }
    fn set_nm(&mut self, i: usize, b: bool) { self.store.get_bitvec_mut(self.nm).set_bit(i, b); self.onm.set_bit(i, b); }
    fn set_fm(&mut self, i: usize, b: bool) { self.store.get_bitvec_mut(self.fm).set_bit(i, b); self.ofm.set_bit(i, b); }
    fn fill_nm(&mut self, b: bool) {
        for x in self.store.get_bitvec_mut(self.nm).cast_mut::<u64>() { *x = if b { !0 } else { 0 }; }
        for x in self.onm.cast_mut::<u64>() { *x = if b { !0 } else { 0 }; }
    }
    fn fill_fm(&mut self, b: bool) {
        for x in self.store.get_bitvec_mut(self.fm).cast_mut::<u64>() { *x = if b { !0 } else { 0 }; }
        for x in self.ofm.cast_mut::<u64>() { *x = if b { !0 } else { 0 }; }
    }
    /// Values of the pooled and the owned kernel.
    fn eval(&self) -> (u64, u64) {
        let (nm, fm, ix) = (self.store.get_bitvec(self.nm), self.store.get_bitvec(self.fm), self.store.get_bitvec(self.idx));
        macro_rules! ps { ($l:ident) => {{
            let s = self.store.get_bitslice::<pool::$l>(self.slice);
            if self.compr { s.sum_all_masked2_compr(&ix, &nm, &fm) } else { s.sum_all_masked2(&nm, &fm) }
        }} }
        let ob = self.oslice.as_bitblocks();
        match (self.w, self.compr) {
            (0, false) => (nm.count_ones_and(&fm), count_and2_c00(&self.onm, &self.ofm)),
            (0, true) => (nm.count_ones_and_compr(&ix, &fm), count_and2_c10(&self.oidx, &self.onm, &self.ofm)),
            (1, false) => (ps!(BitSliceLayout1), sum_and3_w1_c00(ob, &self.onm, &self.ofm)),
            (2, false) => (ps!(BitSliceLayout2), sum_and3_w2_c00(ob, &self.onm, &self.ofm)),
            (4, false) => (ps!(BitSliceLayout4), sum_and3_w4_c00(ob, &self.onm, &self.ofm)),
            (8, false) => (ps!(BitSliceLayout8), sum_and3_w8_c00(ob, &self.onm, &self.ofm)),
            (1, true) => (ps!(BitSliceLayout1), sum_and3_w1_c10(ob, &self.oidx, &self.onm, &self.ofm)),
            (2, true) => (ps!(BitSliceLayout2), sum_and3_w2_c10(ob, &self.oidx, &self.onm, &self.ofm)),
            (4, true) => (ps!(BitSliceLayout4), sum_and3_w4_c10(ob, &self.oidx, &self.onm, &self.ofm)),
            _ => (ps!(BitSliceLayout8), sum_and3_w8_c10(ob, &self.oidx, &self.onm, &self.ofm)),
        }
    }
    fn check(&self, cx: &mut Cx, want: u64, what: &dyn Fn() -> String) {
        let (p, o) = self.eval();
        cx.step();
        let name = if self.w == 0 { "count" } else { "sum" };
        cx.check(p == want, &format!("pooled-{}-w{}{}", name, self.w, if self.compr { "-compressed" } else { "" }), || format!("{}: {} instead of {}", what(), p, want));
        cx.check(o == want, &format!("owned-{}-w{}{}", name, self.w, if self.compr { "-compressed" } else { "" }), || format!("{}: {} instead of {}", what(), o, want));
    }
}

fn vmax(w: usize) -> u8 { if w == 8 { 255 } else { ((1u16 << w.max(1)) - 1) as u8 } }

/// The adder tree sees, per bit column, a stream of bits. All 2^16 inputs of one round of 16 blocks are
/// combined with all 16 carry states left by the round before it. The column is toggled either
/// through the value, the node mask or the feature mask.
fn column(cx: &mut Cx) {
    let w = cx.pick(&WIDTHS);
    let compr = cx.flag();
    let via = cx.choose(3); // value, node mask, feature mask
    if via == 0 && w == 0 { cx.discard(); return; }
    let carry = cx.choose(17);
    let full = cx.choose(if cx.thorough() { 16 } else { 1 });
    if !cx.mine() { return; }
    let wd = w.max(1);
    let mb = (32 + wd - 1) / wd; // 32 blocks of values
    let per = 256 / wd; // rows per block of values
    let col = [37 % per, 0, per - 1, 8 % per, 31 % per, 32 % per, 63 % per, 64 % per, 100 % per, 127 % per, 128 % per, 129 % per, 191 % per, 192 % per, 200 % per, 254 % per][full];
    let lane = full % wd;
    let v: u8 = if w == 0 { 1 } else if via == 0 { 1 << lane } else { vmax(w) };
    let map: Vec<u32> = if compr { (0..mb as u32 * 8).rev().collect() } else { (0..mb as u32 * 8).collect() };
    let mut rig = Rig::new(w, compr, mb, mb, &map);
    let g = |i: usize| if compr { map[i / 32] as usize * 32 + i % 32 } else { i };
    let rows: Vec<usize> = (0..32).map(|b| b * per + col).collect();
    rig.fill_nm(true);
    rig.fill_fm(true);
    if via != 0 { for &r in &rows { rig.set_val(r, v); } if via == 1 { rig.fill_nm(false) } else { rig.fill_fm(false) } }
    let set = |rig: &mut Rig, k: usize, on: bool| match via {
        0 => rig.set_val(rows[k], if on { v } else { 0 }),
        1 => rig.set_nm(rows[k], on),
        _ => rig.set_fm(g(rows[k]), on),
    };
    // mask toggles in block 0..16 leave `carry` ones behind
    for k in 0..carry.min(16) { set(&mut rig, (k * 5) % 16, true); }
    let mut cur = 0u32;
    let weight = if w == 0 { 1 } else { v as u64 };
    for k in 0..(1u32 << 16) {
        let gray = k ^ (k >> 1);
        let d = gray ^ cur;
        if d != 0 { let b = d.trailing_zeros() as usize; set(&mut rig, 16 + b, gray >> b & 1 == 1); }
        cur = gray;
        let want = weight * (carry.min(16) as u64 + gray.count_ones() as u64);
        rig.check(cx, want, &|| format!("width {} column {} lane {} via {} carry {} pattern {:016b}", w, col, lane, via, carry, gray));
    }
    cx.state(H::new(4).n(w).n(compr as usize).n(via).n(carry).n(full).get());
    cx.sample(|| format!("width {} {} via {} carry {}: 65536 column patterns", w, compr, via, carry));
}

/// Every bit column with sparse and nearly full streams of up to 3 (2) deviations over two rounds and a
/// remainder.
fn allcols(cx: &mut Cx) {
    let w = cx.pick(&WIDTHS);
    let compr = cx.flag();
    let inv = cx.flag();
    let nv = cx.pick(&[16usize, 24, 40]); // blocks of values
    let lane = cx.choose(w.max(1));
    let part = cx.choose(8);
    if !cx.mine() { return; }
    let wd = w.max(1);
    let mb = nv / wd;
    let nv = mb * wd;
    let per = 256 / wd;
    let map: Vec<u32> = if compr { (0..mb as u32 * 8).map(|i| i ^ 5).collect() } else { (0..mb as u32 * 8).collect() };
    let mut rig = Rig::new(w, compr, mb, mb, &map);
    rig.fill_nm(true);
    rig.fill_fm(w != 0);
    let v = 1u8 << lane;
    let weight = if w == 0 { 1 } else { v as u64 };
    for col in (0..per).filter(|c| c % 8 == part) {
        let rows: Vec<usize> = (0..nv).map(|b| b * per + col).collect();
        let set = |rig: &mut Rig, k: usize, on: bool| {
            let i = rows[k];
            if w == 0 { let j = map[i / 32] as usize * 32 + i % 32; let j = if compr { j } else { i }; rig.set_fm(j, on) } else { rig.set_val(i, if on { v } else { 0 }) }
        };
        if inv { for k in 0..nv { set(&mut rig, k, true); } }
        for a in 0..nv {
            set(&mut rig, a, !inv);
            for b in a..nv {
                if b > a { set(&mut rig, b, !inv); }
                let c = 1 + (b > a) as u64;
                let want = weight * if inv { nv as u64 - c } else { c };
                rig.check(cx, want, &|| format!("width {} lane {} {} blocks column {} inverted {} positions {} {}", w, lane, nv, col, inv, a, b));
                if b > a { set(&mut rig, b, inv); }
            }
            set(&mut rig, a, inv);
        }
        if inv { for k in 0..nv { set(&mut rig, k, false); } }
    }
    cx.state(H::new(5).n(w).n(compr as usize).n(inv as usize).n(nv).n(lane).n(part).get());
}

/// Every length, every row, the truth table of the three operands with an empty and a full background.
fn position(cx: &mut Cx) {
    let w = cx.pick(&WIDTHS);
    let compr = cx.flag();
    let wd = w.max(1);
    let maxb = if cx.thorough() { 64 } else { 36 };
    let mb = 1 + cx.choose((maxb / wd).max(3));
    let back = cx.choose(3);
    let part = cx.choose(4);
    if !cx.mine() { return; }
    let n = mb * 256;
    let fb = mb + (compr as usize); // larger feature vector
    let map: Vec<u32> = if compr { let m = fb as u32 * 8; (0..mb as u32 * 8).map(|i| (i + 5) % m).collect() } else { (0..mb as u32 * 8).collect() };
    let mut rig = Rig::new(w, compr, mb, fb, &map);
    let full = vmax(w);
    if back >= 1 { for i in 0..n { rig.set_val(i, full); } }
    if back == 1 { rig.fill_nm(true); rig.fill_fm(true); }
    if back == 2 { rig.fill_nm(true); }
    let base: u64 = if back == 1 { n as u64 * if w == 0 { 1 } else { full as u64 } } else { 0 };
    let bg = if back >= 1 { full } else { 0 };
    let (bn, bf) = (back >= 1, back == 1);
    let vals: Vec<u8> = if w == 0 { vec![1] } else { (0..w).map(|k| 1u8 << k).chain(vec![0, full, 0x5A & full]).collect() };
    let own0 = if back == 1 { if w == 0 { 1 } else { full as u64 } } else { 0 };
    for i in (0..n).filter(|i| (i / 32 + i) % 4 == part) {
        let j = if compr { map[i / 32] as usize * 32 + i % 32 } else { i };
        for &v in &vals {
            rig.set_val(i, v);
            for t in 0..4 {
                let (a, b) = (t & 1 == 1, t & 2 == 2);
                rig.set_nm(i, a);
                rig.set_fm(j, b);
                let want = base - own0 + if a && b { if w == 0 { 1 } else { v as u64 } } else { 0 };
                rig.check(cx, want, &|| format!("width {} {} rows, row {} value {} masks {} {} background {}", w, n, i, v, a, b, back));
            }
        }
        rig.set_val(i, bg);
        rig.set_nm(i, bn);
        rig.set_fm(j, bf);
    }
    cx.state(H::new(6).n(w).n(compr as usize).n(mb).n(back).n(part).get());
    cx.sample(|| format!("width {} compressed {} {} rows background {}", w, compr, n, back));
}

/// Long vectors: sizes around every power of two, so that no partial counter may be too narrow.
fn large(cx: &mut Cx) {
    let w = cx.pick(&WIDTHS);
    let compr = cx.flag();
    let top = if w == 0 || cx.thorough() { 19 } else { 15 };
    let k = 6 + cx.choose(top - 5);
    let off = cx.choose(3);
    if !cx.mine() { return; }
    let wd = w.max(1);
    let mb = (1usize << k) + off - 1;
    let n = mb * 256;
    let fb = mb + 3 * (compr as usize);
    let words = (fb * 8) as u32;
    let map: Vec<u32> = if compr { (0..mb as u32 * 8).map(|i| (i * 3 + 1) % words).collect() } else { vec![0; 8] };
    let mut rig = if compr { Rig::new(w, true, mb, fb, &map) } else { Rig::new_plain(w, mb) };
    let max = if w == 0 { 1 } else { vmax(w) as u64 };
    // all values at their maximum
    if w > 0 {
        for x in rig.store.get_bitvec_mut(rig.slice).cast_mut::<u64>() { *x = !0; }
        macro_rules! ones { ($l:ident) => {{ let mut v = rig.oslice.with_layout_mut::<own::$l>(); for b in 0..n / 32 { for k in 0..w { *v.get_block_mut(b, k) = !0; } } }} }
        match w { 1 => ones!(BitsliceLayout1), 2 => ones!(BitsliceLayout2), 4 => ones!(BitsliceLayout4), _ => ones!(BitsliceLayout8) }
    }
    let what = |m: usize| format!("width {} compressed {} {} blocks, mask {}", w, compr, mb, m);
    rig.fill_nm(true);
    rig.fill_fm(true);
    rig.check(cx, max * n as u64, &|| what(0));
    // one bit of each 32, in one of the eight 32 bit lanes, and all bits of one 64 bit lane of a block
    for m in 1..=12usize {
        let word = |i: usize| -> u64 { match m {
            1..=4 => if i % 4 == m - 1 { !0 } else { 0 },
            5..=8 => if i % 4 == m - 5 { 0xFFFF_FFFF } else { 0 },
            9 => 0x8000_0001_0000_0000, 10 => 1, 11 => if i % (4 * wd) == 4 * wd - 1 { 0xFFFF_FFFF_0000_0000 } else { 0 },
            _ => if i < mb * 2 { !0 } else { 0 },
        } };
        let mut c = 0u64;
        for (i, x) in rig.store.get_bitvec_mut(rig.nm).cast_mut::<u64>().iter_mut().enumerate() { *x = word(i); c += x.count_ones() as u64; }
        for (i, x) in rig.onm.cast_mut::<u64>().iter_mut().enumerate() { *x = word(i); }
        rig.check(cx, max * c, &|| what(m));
    }
    // feature masks that tell the places apart (through the map, if there is one)
    rig.fill_nm(true);
    for m in 1..=4usize {
        let word = |j: usize| -> u32 { match m { 1 => (j as u32).wrapping_mul(0x9E37_79B9), 2 => if j >= fb * 4 { !0 } else { 0 }, 3 => if j == fb * 8 - 1 { !0 } else { 0 }, _ => if (j >> 8) % 3 == 1 { 0x0F0F_FF01 } else { 0 } } };
        for (j, x) in rig.store.get_bitvec_mut(rig.fm).cast_mut::<u32>().iter_mut().enumerate() { *x = word(j); }
        for (j, x) in rig.ofm.cast_mut::<u32>().iter_mut().enumerate() { *x = word(j); }
        let c: u64 = (0..mb * 8).map(|i| word(if compr { map[i] as usize } else { i }).count_ones() as u64).sum();
        rig.check(cx, max * c, &|| format!("{} feature mask {}", what(0), m));
    }
    cx.state(H::new(61).n(w).n(compr as usize).n(mb).get());
    cx.sample(|| format!("width {} compressed {} {} rows", w, compr, n));
}

/// Every entry of the index map can point everywhere.
fn indexmap(cx: &mut Cx) {
    let w = cx.pick(&WIDTHS);
    let mb = 1 + cx.choose(if cx.thorough() { 3 } else { 2 });
    let fb = cx.pick(&[1usize, 2, 5, 17]);
    let other = cx.choose(3);
    if !cx.mine() { return; }
    let (m, f) = (mb * 8, fb * 8);
    for e in 0..m {
        for t in 0..f {
            let map: Vec<u32> = (0..m).map(|i| if i == e { t as u32 } else { match other { 0 => (i % f) as u32, 1 => ((m - 1 - i) % f) as u32, _ => (f - 1) as u32 } }).collect();
            let mut rig = Rig::new(w, true, mb, fb, &map);
            // contents that depend on row and block
            let mut want = 0u64;
            for i in 0..m * 32 {
                let v = if w == 0 { 1 } else { ((i * 7 + i / 32) as u8) & vmax(w) };
                rig.set_val(i, v);
                let nb = (i + i / 64) % 3 != 0;
                rig.set_nm(i, nb);
                let j = map[i / 32] as usize * 32 + i % 32;
                let fbit = (j / 32 * 5 + j % 32 + j / 256) % 4 < 2;
                if nb && fbit { want += v as u64; }
            }
            for j in 0..f * 32 { rig.set_fm(j, (j / 32 * 5 + j % 32 + j / 256) % 4 < 2); }
            rig.check(cx, want, &|| format!("width {} map {:?}", w, map));
        }
    }
    cx.state(H::new(7).n(w).n(mb).n(fb).n(other).get());
}

/// Both sides compressed: all pairs of sets of non-empty blocks.
fn merge(cx: &mut Cx) {
    let k = 8; // blocks in the universe
    let extra = cx.choose(3); // further blocks on both sides, to fill more than one 256 bit block
    let s1 = cx.choose(1 << k);
    if !cx.mine() { return; }
    for s2 in 0..1usize << k {
        let tail: Vec<u32> = match extra { 0 => vec![], 1 => (10..15).collect(), _ => (20..37).collect() };
        let l1: Vec<u32> = (0..k as u32).filter(|i| s1 >> i & 1 == 1).chain(tail.iter().cloned()).collect();
        let l2: Vec<u32> = (0..k as u32).filter(|i| s2 >> i & 1 == 1).chain(tail.iter().cloned().filter(|t| t % 2 == 0)).collect();
        if l1.is_empty() || l2.is_empty() { continue; }
        let m1: Vec<u32> = l1.iter().map(|&i| 0xF0F0_FF00u32.rotate_left(i)).collect();
        let m2: Vec<u32> = l2.iter().map(|&i| 0x00FF_0FFFu32.rotate_left(i * 3)).collect();
        let (i1, i2) = (BitBlocks::from_iter(l1.len(), l1.iter().cloned()), BitBlocks::from_iter(l2.len(), l2.iter().cloned()));
        let (b1, b2) = (BitBlocks::from_iter(m1.len(), m1.iter().cloned()), BitBlocks::from_iter(m2.len(), m2.iter().cloned()));
        let mut cnt = 0u64;
        let mut sums = [0u64; 4];
        for (p, a) in l1.iter().enumerate() {
            if let Some(q) = l2.iter().position(|b| b == a) {
                let m = m1[p] & m2[q];
                cnt += m.count_ones() as u64;
                for r in 0..32 { if m >> r & 1 == 1 { for (x, w) in [1usize, 2, 4, 8].iter().enumerate() { sums[x] += (val(p * 32 + r) & vmax(*w)) as u64; } } }
            }
        }
        fn val(i: usize) -> u8 { (i * 37 + 11 + i / 32 * 3) as u8 }
        cx.step();
        let g = count_and2_c11(&i1, &b1, &i2, &b2);
        cx.check(g == cnt, "owned-count-both-compressed", || format!("{:?} {:?}: {} instead of {}", l1, l2, g, cnt));
        macro_rules! go { ($l:ident, $f:ident, $x:expr) => {{
            let mut s = own::Bitslice::new();
            let n = i1.block_len::<u32>() * 32;
            let mut v = s.with_layout_mut::<own::$l>();
            v.resize(n);
            for i in 0..n { v.set_value(i, val(i) & vmax(own::$l::width())); }
            let g = $f(s.as_bitblocks(), &i1, &b1, &i2, &b2);
            cx.check(g == sums[$x], "owned-sum-both-compressed", || format!("width {} {:?} {:?}: {} instead of {}", own::$l::width(), l1, l2, g, sums[$x]));
        }} }
        if extra == 0 || s1 % 8 == s2 % 8 {
            go!(BitsliceLayout1, sum_and3_w1_c11, 0);
            go!(BitsliceLayout2, sum_and3_w2_c11, 1);
            go!(BitsliceLayout4, sum_and3_w4_c11, 2);
            go!(BitsliceLayout8, sum_and3_w8_c11, 3);
        }
    }
    cx.state(H::new(8).n(extra).n(s1).get());
}

/// Sum over one 32-row block: each block, each bit, every mask over 16 rows, every value.
fn masked<L: BitSliceLayout + 'static>(cx: &mut Cx, nb: usize, b: usize, fill: usize) {
    let w = L::width();
    let n = nb * 256;
    let mut store = BitBlockStore::new(8);
    let r = store.alloc_zero_bitslice::<L>(n);
    let val = |i: usize| -> u8 { (match fill { 0 => i % 32 * 7 + 3, 1 => 255, 2 => 1 << (i % w), _ => i / 32 + i } as u8) & vmax(w) };
    for i in 0..n { store.get_bitslice_mut::<L>(r).set_value(i, val(i)); }
    let s = store.get_bitslice::<L>(r);
    let bounds = (-2.0f32, 3.0f32);
    let mut pre = [0u32; 33];
    for k in 0..32 { pre[k + 1] = pre[k] + val(b * 32 + k) as u32; }
    let one = |cx: &mut Cx, m: u32| {
        let mut want = 0u32;
        let mut x = m;
        while x != 0 { let k = x.trailing_zeros() as usize; want += val(b * 32 + k) as u32; x &= x - 1; }
        let g = s.sum_masked(b, m);
        cx.step();
        cx.check(g == want, "block-sum", || format!("width {} block {} mask {:08x} fill {}: {} instead of {}", w, b, m, fill, g, want));
        let (sc, c) = s.sum_scaled_masked(b, m, bounds);
        let e = want as f64 / (L::nunique_values() - 1) as f64 * 5.0 - 2.0 * m.count_ones() as f64;
        cx.check(c == m.count_ones() && (sc as f64 - e).abs() <= 1e-4 * (1.0 + e.abs()), "block-scaled-sum",
                 || format!("width {} block {} mask {:08x} fill {}: {} {} instead of {} {}", w, b, m, fill, sc, c, e, m.count_ones()));
    };
    for m in 0..1u32 << 12 { one(cx, m); one(cx, m << 20); one(cx, m << 10); one(cx, !(m << 10)); }
    for i in 0..32 { for j in i..32 { let m = (1u32 << i) | (1 << j); one(cx, m); one(cx, !m); } }
    cx.state(H::new(9).n(w).n(nb).n(b).n(fill).get());
}

fn block_sums(cx: &mut Cx) {
    let w = cx.choose(4);
    let nb = 1 + cx.choose(3);
    let b = cx.choose(nb * 8);
    let fill = cx.choose(4);
    if !cx.mine() { return; }
    match w {
        0 => masked::<pool::BitSliceLayout1>(cx, nb, b, fill),
        1 => masked::<pool::BitSliceLayout2>(cx, nb, b, fill),
        2 => masked::<pool::BitSliceLayout4>(cx, nb, b, fill),
        _ => masked::<pool::BitSliceLayout8>(cx, nb, b, fill),
    }
}

/// Element-wise OR: truth table at every position, neighbours untouched.
fn or(cx: &mut Cx) {
    let nb = 1 + cx.choose(5);
    let back = cx.choose(4);
    if !cx.mine() { return; }
    let (fa, fb): (u64, u64) = [(0, 0), (!0, 0), (0, !0), (0xAAAA_AAAA_AAAA_AAAA, 0xCCCC_CCCC_CCCC_CCCC)][back];
    let mut store = BitBlockStore::new(8);
    let (a, b) = (store.alloc_zero_blocks(nb), store.alloc_zero_blocks(nb));
    for i in 0..nb * 256 {
        for t in 0..4 {
            for x in store.get_bitvec_mut(a).cast_mut::<u64>() { *x = fa; }
            for x in store.get_bitvec_mut(b).cast_mut::<u64>() { *x = fb; }
            store.get_bitvec_mut(a).set_bit(i, t & 1 == 1);
            store.get_bitvec_mut(b).set_bit(i, t & 2 == 2);
            let va: Vec<u64> = store.get_bitvec(a).cast::<u64>().to_vec();
            let vb: Vec<u64> = store.get_bitvec(b).cast::<u64>().to_vec();
            {
                let (mut x, y) = store.get_two_bitvecs_mut(a, b);
                unsafe { simd::or_assign(&mut x, &y); }
            }
            cx.step();
            let (ra, rb) = (store.get_bitvec(a), store.get_bitvec(b));
            let ok = ra.cast::<u64>().iter().zip(va.iter().zip(vb.iter())).all(|(g, (x, y))| *g == x | y) && rb.cast::<u64>() == &vb[..];
            cx.check(ok, "or", || format!("{} blocks, position {}, operands {}", nb, i, t));
        }
    }
    cx.state(H::new(10).n(nb).n(back).get());
}

fn main() {
    mc::main(&[("position", position), ("column", column), ("allcols", allcols), ("large", large), ("indexmap", indexmap), ("merge", merge), ("block_sums", block_sums), ("or", or)]);
}
