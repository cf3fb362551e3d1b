//! P27: no call on valid input reads memory which was never written, touches memory outside of its
//! allocations, accesses memory with the wrong alignment or releases memory twice. The families contain no
//! oracle of their own: every execution runs under a memory monitor (Miri, AddressSanitizer).
use bitboost::binner::Binner;
use bitboost::bitblock::{BitBlock, BitBlocks};
use bitboost::bitset::Bitset;
use bitboost::bitslice as own;
use bitboost::bitslice::BitsliceLayout;
use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::count_and_sum::*;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::*;
use bitboost::objective::objective_from_name;
use bitboost::simd;
use bitboost::slice_store as pool;
use bitboost::slice_store::*;
use mc::*;
use std::ffi::CString;
use std::hint::black_box;

/// Miri executes some hundred times slower than the processor: the same families over smaller ranges.
const TINY: bool = cfg!(miri);

fn by(tiny: usize, large: usize) -> usize { if TINY { tiny } else { large } }

/// Every element is read; what they are is not judged here.
macro_rules! eat { ($s:expr) => {{ let mut h = 0u64; for x in $s.iter() { h = h.rotate_left(5) ^ (*x as u64); } black_box(h); }} }

/// A stop with a message is no memory fault, and judged by other properties.
fn run<F: FnOnce()>(cx: &mut Cx, f: F) {
    cx.step();
    cx.check(true, "monitor", String::new); // the monitor ends the process otherwise
    if let Err(m) = cx.guard(f) {
        if cx.replaying() { eprintln!("ended in a panic: {}", m); }
        cx.note("executions which ended in a panic", 1);
        if std::env::var("MC_PANICS").is_ok() { cx.note(&m, 1); }
    }
}

/// Lengths around the boundaries of words and blocks.
fn lengths() -> Vec<usize> {
    if TINY { vec![1, 8, 31, 33, 64, 65, 127, 192, 255, 256, 257, 511, 512, 513, 1025] } else { (1..1300).collect() }
}

// ---- blocks -------------------------------------------------------------------------------------

fn views(b: &mut BitBlocks) {
    macro_rules! view { ($t:ty) => {{
        eat!(b.cast::<$t>());
        let n = b.block_len::<$t>();
        for x in b.cast_mut::<$t>() { *x = x.wrapping_mul(3).wrapping_add(1); }
        for i in [0, n / 2, n - 1] { let v = *b.get::<$t>(i); b.set::<$t>(i, v.wrapping_add(5)); unsafe { let v = *b.get_unchecked::<$t>(i); b.set_unchecked::<$t>(i, v ^ 1); } }
    }} }
    view!(u8); view!(u16); view!(u32); view!(u64); view!(u128); view!(i32);
    for k in 0..b.len() { black_box((b[k].is_zero(), b[k].count_ones())); }
}

fn construct(kind: usize, n: usize) -> BitBlocks {
    match kind {
        0 => BitBlocks::zero_bits(n),
        1 => BitBlocks::one_bits(n),
        2 => BitBlocks::zero_blocks((n + 255) / 256),
        3 => BitBlocks::one_blocks((n + 255) / 256),
        4 => BitBlocks::from_bool_iter(n, (0..n).map(|i| i % 3 == 0)),
        5 => BitBlocks::from_iter(n, (0..n).map(|i| i as u8)),
        6 => BitBlocks::from_iter(n, (0..n).map(|i| i as u16)),
        7 => BitBlocks::from_iter(n, (0..n).map(|i| i as u32)),
        8 => BitBlocks::from_iter(n, (0..n).map(|i| i as u64)),
        // an iterator which ends early or goes on
        9 => BitBlocks::from_iter(n, (0..n / 2).map(|i| i as u32)),
        10 => BitBlocks::from_iter(n, (0..2 * n).map(|i| i as u64)),
        _ => BitBlocks::from_bool_iter(n, (0..n / 2).map(|i| i % 5 == 1)),
    }
}

/// Vectors of blocks: constructors, typed views, growing and shrinking.
fn blocks(cx: &mut Cx) {
    let kind = cx.choose(12);
    let n = cx.pick(&lengths());
    if !cx.mine() { return; }
    run(cx, || {
        let mut b = construct(kind, n);
        views(&mut b);
        b.reset();
        for k in [1usize, 5, 2, 3] { b.resize(k); views(&mut b); }
        let mut s = if kind % 2 == 0 { Bitset::zeros(n) } else { Bitset::ones(n) };
        for i in [0, n / 2, n - 1] { let v = s.get_bit(i); s.set_bit(i, !v); s.disable_bit(i); s.enable_bit(i); }
        views(&mut s);
        let mut one = BitBlock::from(n as u64);
        for i in [0usize, 7, 8, 100, 255] { let v = one.get_bit(i); one.set_bit(i, !v); one.disable_bit(i); one.enable_bit(i); }
        eat!(one.cast::<u32>()); eat!(BitBlock::from_slice(&[1u8, 2, 3]).cast::<u64>()); eat!(BitBlock::from_4u64(1, 2, 3, 4).cast::<u8>());
    });
    cx.state(H::new(1).n(kind).n(n).get());
    cx.sample(|| format!("constructor {} with {} values", kind, n));
}

/// An index outside of a container is refused by the checked accessors.
fn outside(cx: &mut Cx) {
    let n = cx.pick(&if TINY { vec![1usize, 256, 300] } else { (1..600).collect::<Vec<_>>() });
    let over = cx.pick(&[0usize, 1, 7, 31, 32, 255, 256, 4096, 1 << 20]);
    let op = cx.choose(16);
    if !cx.mine() { return; }
    let nb = (n + 255) / 256;
    run(cx, || {
        let mut b = BitBlocks::zero_bits(n);
        let mut s = Bitset::zeros(n);
        let mut st = BitBlockStore::new(nb);
        let r = st.alloc_zero_bits(n);
        let i = nb * 256 + over;
        match op {
            0 => { black_box(b.get::<u32>(i / 32)); }
            1 => { b.set::<u64>(i / 64, 1); }
            2 => { black_box(b.get::<u8>(i / 8)); }
            3 => { black_box(s.get_bit(i)); }
            4 => { s.set_bit(i, true); }
            5 => { s.disable_bit(i); }
            6 => { black_box(st.get_bitvec(r).get_bit(i)); }
            7 => { st.get_bitvec_mut(r).enable_bit(i); }
            8 => { st.get_bitvec_mut(r).set_bit(i, false); }
            9 => { black_box(st.get_bitvec(r).get::<u32>(i / 32)); }
            10 => { st.get_bitvec_mut(r).set::<u8>(i / 8, 3); }
            11 => { black_box(st.get_bitslice::<pool::BitSliceLayout1>(r).get_value(i)); }
            12 => { st.get_bitslice_mut::<pool::BitSliceLayout1>(r).set_value(i, 1); }
            13 => { black_box(st.get_bitslice::<pool::BitSliceLayout1>(r).sum_masked(i / 32, !0)); }
            14 => { let mut o = own::Bitslice::new(); let mut w = o.with_layout_mut::<own::BitsliceLayout4>(); w.resize(n); w.set_value(i, 9); black_box(w.get_value(i)); }
            _ => { black_box(st.get_bitslice::<pool::BitSliceLayout1>(r).sum_scaled_masked(i / 32, !0, (0.0, 1.0))); }
        }
    });
    cx.state(H::new(2).n(n).n(over).n(op).get());
}

// ---- pools --------------------------------------------------------------------------------------

trait Elem: Clone + Default { fn make(k: u64) -> Self; fn word(&self) -> u64; }
impl Elem for f32 { fn make(k: u64) -> f32 { k as f32 } fn word(&self) -> u64 { self.to_bits() as u64 } }
impl Elem for u64 { fn make(k: u64) -> u64 { k } fn word(&self) -> u64 { *self } }
impl Elem for u8 { fn make(k: u64) -> u8 { k as u8 } fn word(&self) -> u64 { *self as u64 } }
impl Elem for (f32, u64) { fn make(k: u64) -> (f32, u64) { (k as f32, k) } fn word(&self) -> u64 { self.1 ^ self.0.to_bits() as u64 } }

fn all<T: Elem>(s: &[T]) { let mut h = 0; for x in s { h ^= x.word(); } black_box(h); }

/// All histories of allocations, releases, growth and resets of a pool: every live element is read and written.
fn pool_of<T: Elem>(cx: &mut Cx, cap: usize, align: usize, lens: &[u32], depth: usize) {
    let mut st: SliceStore<T> = if align == 0 { SliceStore::new(cap) } else { SliceStore::aligned(cap, align) };
    let mut live: Vec<SliceRange> = vec![];
    let mut hist: Vec<usize> = vec![];
    for d in 0..depth {
        let na = lens.len();
        let k = cx.choose(na + live.len() + 2);
        if d == 1 && !cx.mine() { return; }
        hist.push(k);
        if k < na { live.push(st.alloc_slice(lens[k], T::make(d as u64))); }
        else if k < na + live.len() { let r = live.remove(k - na); st.free_slice(r); }
        else if k == na + live.len() { st.reset(); live.clear(); }
        else { live.push(st.alloc_slice_default(lens[0] + 1)); }
        cx.step();
        for &r in &live { all(st.get_slice(r)); for x in st.get_slice_mut(r) { *x = T::make(d as u64 + 3); } }
        for a in 0..live.len() { for b in 0..live.len() { if a != b && (!TINY || a.max(b) + 1 == live.len()) {
            let (x, y) = st.get_two_slices_mut(live[a], live[b]);
            let (n, m) = (x.len() - 1, y.len() - 1);
            x[0] = T::make(1); y[0] = T::make(2); x[n] = T::make(3); y[m] = T::make(4);
        } } }
    }
    let mut h = H::new(3);
    h.n(cap).n(align);
    for l in &live { h.n(l.0 as usize).n(l.1 as usize); }
    let h = h.get();
    cx.state(h);
    cx.sample(|| format!("operations {:?} (allocations of {:?}, releases, reset, default)", hist, lens));
}

fn pools_f32(cx: &mut Cx) { let c = cx.pick(&[1usize, 5]); let d = by(4, 7); pool_of::<f32>(cx, c, 0, &[1, 6], d) }
fn pools_u64(cx: &mut Cx) { let (c, a) = cx.pick(&[(1usize, 0usize), (5, 32), (8, 64)]); let d = by(3, 6); pool_of::<u64>(cx, c, a, &[1, 4, 9], d) }
fn pools_u8(cx: &mut Cx) { let (c, a) = cx.pick(&[(1usize, 0usize), (64, 64)]); let d = by(3, 6); pool_of::<u8>(cx, c, a, &[2, 70], d) }
fn pools_mixed(cx: &mut Cx) { let (c, a) = cx.pick(&[(1usize, 0usize), (2, 64)]); let d = by(3, 6); pool_of::<(f32, u64)>(cx, c, a, &[1, 3], d) }

/// Histograms: sets for a node are taken, filled, subtracted and given back.
fn histograms(cx: &mut Cx) {
    const LAYOUTS: [&[u32]; 6] = [&[3], &[1, 2, 4], &[2, 0, 3], &[], &[0, 0], &[700, 1, 300]];
    let lay = if TINY { cx.pick(&[&[3u32][..], &[2, 0, 3], &[], &[70, 1, 30]]) } else { cx.pick(&LAYOUTS) };
    let depth = by(4, 6);
    let mut hs: HistStore<f32> = HistStore::new(lay.iter().cloned());
    let mut live: Vec<SliceRange> = vec![];
    for d in 0..depth {
        let k = cx.choose(3 + live.len());
        if d == 1 && !cx.mine() { return; }
        if k == 0 { live.push(hs.alloc_hists()); }
        else if k == 1 { if live.len() > 2 { let (a, b, c) = (live[0], live[1], live[2]); hs.hists_subtract(a, b, c); hs.hists_subtract(c, a, b); } }
        else if k == 2 { hs.reset(); live.clear(); }
        else { let r = live.remove(k - 3); hs.free_hists(r); }
        cx.step();
        for &r in &live { for f in 0..lay.len() { all(hs.get_hist(r, f)); for x in hs.get_hist_mut(r, f) { *x += 1.0; } } }
    }
    let mut h = H::new(4);
    h.n(lay.len());
    for l in &live { h.n(l.0 as usize).n(l.1 as usize); }
    let h = h.get();
    cx.state(h);
}

/// Pools of blocks: all kinds of vectors in every order, typed views, two at a time.
fn block_pools(cx: &mut Cx) {
    let cap = cx.pick(if TINY { &[1usize] } else { &[1usize, 2, 8] });
    let depth = by(3, 5);
    let n = cx.pick(if TINY { &[1usize, 257] } else { &[1usize, 256, 257, 700] });
    let mut st = BitBlockStore::new(cap);
    let mut live: Vec<SliceRange> = vec![];
    for d in 0..depth {
        let k = cx.choose(9 + live.len());
        if d == 1 && !cx.mine() { return; }
        match k {
            0 => live.push(st.alloc_zero_bits(n)),
            1 => live.push(st.alloc_one_bits(n)),
            2 => live.push(st.alloc_from_iter((n + 7) / 8, (0..n).map(|i| i as u8))),
            3 => live.push(st.alloc_from_iter((n + 31) / 32, (0..n).map(|i| i as u32))),
            4 => live.push(st.alloc_from_bits_iter(n, (0..n).map(|i| i % 7 == 2))),
            5 => live.push(st.alloc_zero_bitslice::<pool::BitSliceLayout2>(n)),
            6 => live.push(st.alloc_one_blocks((n + 255) / 256)),
            7 => live.push(st.alloc_zero_blocks(2 * ((n + 255) / 256))),
            _ if k == 8 => { st.reset(); live.clear(); }
            _ => { let r = live.remove(k - 9); st.free_blocks(r); }
        }
        cx.step();
        for &r in &live {
            { let v = st.get_bitvec(r); if !TINY { eat!(v.cast::<u8>()); eat!(v.cast::<u128>()); } eat!(v.cast::<u64>()); black_box(v.get_bit(0)); }
            let mut v = st.get_bitvec_mut(r);
            for x in v.cast_mut::<u64>() { *x ^= 0x55; }
            let m = v.block_len::<u16>();
            v.set::<u16>(m - 1, 77);
            v.enable_bit(m * 16 - 1);
            v.set_bit(0, false);
        }
        for a in 0..live.len() { for b in 0..live.len() { if a != b {
            let (mut x, mut y) = st.get_two_bitvecs_mut(live[a], live[b]);
            x.set_bit(0, true); y.set_bit(0, true);
            if x.len() == y.len() { unsafe { simd::or_assign(&mut x, &y); } }
            eat!(x.cast::<u64>()); eat!(y.cast::<u64>());
        } } }
    }
    let mut h = H::new(5);
    h.n(cap).n(n);
    for l in &live { h.n(l.0 as usize).n(l.1 as usize); }
    let h = h.get();
    cx.state(h);
}

// ---- vectors: every operand is alone in a pool without spare room --------------------------------

struct Alone { st: BitBlockStore, r: SliceRange }
impl Alone {
    fn words(nb: usize, f: impl Fn(usize) -> u32) -> Alone {
        let mut st = BitBlockStore::new(nb);
        let r = st.alloc_from_iter(nb * 8, (0..nb * 8).map(f));
        Alone { st, r }
    }
    fn zero(nb: usize) -> Alone { Alone::words(nb, |_| 0) }
    fn v(&self) -> BitVecRef { self.st.get_bitvec(self.r) }
}

const PATTERNS: [u32; 5] = [0, !0, 1, 1 << 31, 0x8421_1248];

/// The index iterators and visitors over every length, patterns of bits and index maps.
fn iterate(cx: &mut Cx) {
    let nb = 1 + cx.choose(by(3, 18));
    let mb = nb + cx.choose(by(2, 6)); // shorter masks are refused
    let pat = cx.pick(&PATTERNS);
    let sparse = cx.choose(3); // all words, only the last word, none but the first
    let map = cx.choose(3);
    if !cx.mine() { return; }
    let words = nb * 8;
    let v = Alone::words(nb, |i| match sparse { 0 => pat, 1 => if i + 1 == words { pat } else { 0 }, _ => if i == 0 { pat } else { 0 } });
    let m = Alone::words(mb, |i| if i % 2 == 0 { !0 } else { 0x0f0f });
    let m1 = Alone::words(nb, |i| if i % 2 == 0 { !0 } else { 0x0f0f });
    let mw = mb * 8;
    let ix = Alone::words(nb, |i| (match map { 0 => i % mw, 1 => mw - 1 - i % mw, _ => mw - 1 }) as u32);
    run(cx, || {
        let (v, m, m1, ix) = (v.v(), m.v(), m1.v(), ix.v());
        black_box(v.index_iter().count());
        black_box(v.index_iter_compr(&ix).count());
        black_box(v.index_iter_and(&m1).count());
        black_box(v.index_iter_andnot(&m1).count());
        black_box(v.index_iter_and_compr(&m, &ix).count());
        black_box(v.index_iter_andnot_compr(&m, &ix).count());
        for stop in [1usize, 3, usize::MAX] {
            let mut k = 0;
            v.for_each_index(|i| { black_box(i); k += 1; k >= stop });
            k = 0;
            v.for_each_index_compr(&ix, |i| { black_box(i); k += 1; k >= stop });
            k = 0;
            v.for_each_index_and(&m1, |i| { black_box(i); k += 1; k >= stop });
            k = 0;
            v.for_each_index_and_compr(&m, &ix, |i| { black_box(i); k += 1; k >= stop });
        }
    });
    cx.state(H::new(6).n(nb).n(mb).u(pat as u64).n(sparse).n(map).get());
    cx.sample(|| format!("{} blocks, mask of {} blocks, pattern {:x}", nb, mb, pat));
}

fn slices_of<L: BitSliceLayout, O: BitsliceLayout>(n: usize, k: usize) {
    let nb = (n + 255) / 256 * L::width();
    let mut st = BitBlockStore::new(nb);
    let r = st.alloc_zero_bitslice::<L>(n);
    let mut os = BitBlockStore::new(nb);
    let q = os.alloc_zero_bitslice::<L>(n);
    let words = (n + 31) / 32;
    {
        let mut s = st.get_bitslice_mut::<L>(r);
        for i in (0..n).step_by(k).chain([n - 1]) { s.set_value(i, i as u8); black_box(s.get_value(i)); s.set_scaled_value(i, 0.3, (-1.0, 2.0)); black_box(s.get_scaled_value(i, (-1.0, 2.0))); }
        let o = os.get_bitslice::<L>(q);
        for w in 0..words { s.copy_block_from::<u32, _>(&o, w, words - 1 - w); }
    }
    let s = st.get_bitslice::<L>(r);
    for w in 0..words { black_box(s.sum_masked(w, !0)); black_box(s.sum_scaled_masked(w, 0x5555, (0.0, 1.0))); unsafe { black_box(s.sum_masked_unsafe(w, 3)); } }
    for b in s.iter() { eat!(b.cast::<u32>()); }
    // both in one pool
    let mut st = BitBlockStore::new(1);
    let (a, b) = (st.alloc_zero_bitslice::<L>(n), st.alloc_zero_bitslice::<L>(n + 300));
    let (mut x, y) = st.get_two_bitslices_mut::<L>(a, b);
    for w in 0..words { x.copy_block_from::<u32, _>(&y, w, w); }
    let mut o = own::Bitslice::new();
    let mut s = o.with_layout_mut::<O>();
    s.resize(n);
    for i in (0..n).step_by(k).chain([n - 1]) { s.set_value(i, i as u8); black_box(s.get_value(i)); s.set_scaled_value(i, 0.3, (-1.0, 2.0)); black_box(s.get_scaled_value(i, (-1.0, 2.0))); }
    for w in 0..words { for l in 0..O::width() { black_box(s.get_block(w, l)); *s.get_block_mut(w, l) ^= 1; unsafe { black_box(s.get_block_unchecked(w, l)); *s.get_block_unchecked_mut(w, l) |= 2; } } }
    s.resize(2 * n);
    s.set_value(2 * n - 1, 1);
    s.resize(1);
    black_box(s.get_value(0));
}

/// Bit-sliced values of every width and length.
fn bitslices(cx: &mut Cx) {
    let w = cx.choose(4);
    let n = cx.pick(&lengths());
    if !cx.mine() { return; }
    let k = if TINY { 29 } else { 1 };
    run(cx, || match w {
        0 => slices_of::<pool::BitSliceLayout1, own::BitsliceLayout1>(n, k),
        1 => slices_of::<pool::BitSliceLayout2, own::BitsliceLayout2>(n, k),
        2 => slices_of::<pool::BitSliceLayout4, own::BitsliceLayout4>(n, k),
        _ => slices_of::<pool::BitSliceLayout8, own::BitsliceLayout8>(n, k),
    });
    cx.state(H::new(7).n(w).n(n).get());
}

/// The vectorised counts and sums: every operand is alone in an allocation of exactly its size.
fn kernels(cx: &mut Cx) {
    let w = cx.pick(&[0usize, 1, 2, 4, 8]);
    let compr = cx.flag();
    let mb = 1 + cx.choose(by(17, 70)); // masks
    let fb = if compr { 1 + cx.choose(by(3, 20)) } else { 1 };
    let map = if compr { cx.choose(3) } else { 0 };
    if !cx.mine() { return; }
    let fb = if compr { fb } else { mb };
    let fw = fb * 8;
    let ixf = |i: usize| (match map { 0 => i % fw, 1 => fw - 1 - i % fw, _ => fw - 1 }) as u32;
    let nb = mb * w.max(1);
    run(cx, || {
        let slice = Alone::words(nb, |i| (i as u32).wrapping_mul(0x9e37_79b9));
        let nm = Alone::words(mb, |i| !(i as u32));
        let fm = Alone::words(fb, |i| (i as u32).wrapping_mul(77));
        let ix = Alone::words(mb, ixf);
        macro_rules! p { ($l:ident) => {{ let s = slice.st.get_bitslice::<pool::$l>(slice.r);
            if compr { black_box(s.sum_all_masked2_compr(&ix.v(), &nm.v(), &fm.v())); } else { black_box(s.sum_all_masked2(&nm.v(), &fm.v())); } }} }
        match w {
            0 => { if compr { black_box(nm.v().count_ones_and_compr(&ix.v(), &fm.v())); } else { black_box(nm.v().count_ones_and(&fm.v())); } }
            1 => p!(BitSliceLayout1), 2 => p!(BitSliceLayout2), 4 => p!(BitSliceLayout4), _ => p!(BitSliceLayout8),
        }
        let os = BitBlocks::from_iter(nb * 8, (0..nb * 8).map(|i| i as u32));
        let onm = BitBlocks::from_iter(mb * 8, (0..mb * 8).map(|i| i as u32));
        let ofm = BitBlocks::from_iter(fb * 8, (0..fb * 8).map(|i| i as u32));
        let oix = BitBlocks::from_iter(mb * 8, (0..mb * 8).map(ixf));
        black_box(match (w, compr) {
            (0, false) => count_and2_c00(&onm, &ofm),
            (0, true) => count_and2_c10(&oix, &onm, &ofm),
            (1, false) => sum_and3_w1_c00(&os, &onm, &ofm),
            (2, false) => sum_and3_w2_c00(&os, &onm, &ofm),
            (4, false) => sum_and3_w4_c00(&os, &onm, &ofm),
            (_, false) => sum_and3_w8_c00(&os, &onm, &ofm),
            (1, true) => sum_and3_w1_c10(&os, &oix, &onm, &ofm),
            (2, true) => sum_and3_w2_c10(&os, &oix, &onm, &ofm),
            (4, true) => sum_and3_w4_c10(&os, &oix, &onm, &ofm),
            (_, true) => sum_and3_w8_c10(&os, &oix, &onm, &ofm),
        });
        if compr {
            // two compressed vectors: ascending lists of words
            let ia = BitBlocks::from_iter(mb * 8, (0..mb * 8).map(|i| 2 * i as u32 + 1));
            let ib = BitBlocks::from_iter(fb * 8, (0..fb * 8).map(|i| 3 * i as u32));
            black_box(match w {
                0 => count_and2_c11(&ia, &onm, &ib, &ofm),
                1 => sum_and3_w1_c11(&os, &ia, &onm, &ib, &ofm),
                2 => sum_and3_w2_c11(&os, &ia, &onm, &ib, &ofm),
                4 => sum_and3_w4_c11(&os, &ia, &onm, &ib, &ofm),
                _ => sum_and3_w8_c11(&os, &ia, &onm, &ib, &ofm),
            });
        }
    });
    cx.state(H::new(8).n(w).n(compr as usize).n(mb).n(fb).n(map).get());
    cx.sample(|| format!("width {} {} blocks of masks, feature mask of {} blocks, compressed {}", w, mb, fb, compr));
}

/// Binning: every number of bins, values on, between and at the ends of the limits.
fn bins(cx: &mut Cx) {
    let n = 1 + cx.choose(by(12, 600));
    let lim = cx.pick(&[(0.0f32, 1.0f32), (-3.0, 5.0), (1e6, 1e6 + 8.0), (-1e-3, 1e-3)]);
    let fill = cx.choose(4);
    if !cx.mine() { return; }
    run(cx, || {
        let mut b = vec![0u32; n];
        let mut binner = Binner::new(&mut b, lim);
        let at = |k: usize| lim.0 + (lim.1 - lim.0) * k as f32 / 16.0;
        for k in 0..17 {
            let x = at(if fill == 0 { k } else if fill == 1 { 0 } else if fill == 2 { 16 } else { k / 4 }).max(lim.0).min(lim.1);
            binner.insert(x, 1, |b, d| *b += d);
            let i = binner.get_bin(x);
            black_box(binner.bin_value(i));
            black_box(binner.bin_representative(i + 1));
        }
        black_box(binner.rank_iter(0..17u32, |&x| x).count());
        for r in 0..17 { black_box(binner.bin_with_rank(r, |&x| x)); }
        eat!(binner.bins_mut());
    });
    cx.state(H::new(9).n(n).f(lim.0).n(fill).get());
}

// ---- training -----------------------------------------------------------------------------------

#[derive(Clone, Copy)]
struct Point { n: usize, nbits: usize, shapes: &'static [usize], mode: usize }
struct Setup { n: usize, cfg: Vec<(&'static str, String)>, cols: Vec<(Vec<f32>, bool)>, what: String }

/// Cell of a column of one of five shapes.
fn cell(shape: usize, i: usize, n: usize, salt: usize) -> f32 {
    let h = ((i * 2654435761 + salt * 40503) >> 7) % 1000;
    match shape {
        0 => (h % 3) as f32,                 // few categories
        1 => (i % (n / 2).max(2)) as f32,    // many categories
        2 => if i % 9 == salt % 9 { (1 + h % 2) as f32 } else { 0.0 }, // sparse
        3 => h as f32 / 8.0 - 20.0,          // numeric
        _ => if i < n / 2 { 1.0 } else { 0.0 }, // whole words empty
    }
}

fn point(cx: &mut Cx, salt: u64, part: u64) -> Option<Point> {
    let n = cx.pick(&if TINY { vec![1usize, 2, 33, 70, 260] } else { vec![1usize, 2, 3, 31, 32, 33, 70, 255, 256, 257, 600, 1500] });
    let nbits = cx.pick(&[1usize, 2, 4, 8]);
    let shapes = cx.pick(&[&[0usize, 4][..], &[1, 0], &[2, 2], &[3], &[0, 1, 2, 3, 4]]);
    let mode = cx.choose(6);
    if TINY && H::new(salt).n(n).n(nbits).us(shapes).n(mode).get() % part != 0 { cx.discard(); return None; }
    if !cx.mine() { return None; }
    Some(Point { n, nbits, shapes, mode })
}

fn setup(Point { n, nbits, shapes, mode }: Point) -> Setup {
    let mut cfg: Vec<(&'static str, String)> = vec![("discr_nbits", nbits.to_string()), ("niterations", by(2, 3).to_string()), ("max_tree_depth", "3".into())];
    match mode {
        0 => cfg.push(("compression_threshold", "0.1".into())),
        1 => { cfg.push(("compression_threshold", "1.5".into())); cfg.push(("max_nbins", "3".into())); }
        2 => { cfg.push(("example_fraction", "0.6".into())); cfg.push(("compression_threshold", "0.01".into())); }
        3 => { cfg.push(("feature_fraction", "0.5".into())); cfg.push(("max_nbins", "2".into())); cfg.push(("min_examples_leaf", "3".into())); }
        4 => { cfg.push(("example_fraction", "0.3".into())); cfg.push(("sample_freq", "2".into())); cfg.push(("max_tree_depth", "5".into())); }
        _ => { cfg.push(("optimize_leaf_values", "false".into())); cfg.push(("compression_threshold", "0.5".into())); cfg.push(("max_nbins", "1".into())); }
    }
    let obj = ["l2", "l1", "huber", "binary", "hinge", "l2"][(mode + nbits + n) % 6];
    let obj = if obj == "hinge" && nbits != 2 { "l1" } else { obj };
    cfg.push(("objective", obj.to_string()));
    let mut cols: Vec<(Vec<f32>, bool)> = shapes.iter().enumerate().map(|(j, &s)| ((0..n).map(|i| cell(s, i, n, j)).collect(), s != 3)).collect();
    let target: Vec<f32> = (0..n).map(|i| if obj == "binary" || obj == "hinge" { ((i / 3) % 2) as f32 } else { (i * 13 % 8) as f32 - 3.0 }).collect();
    cols.push((target, false));
    let what = format!("{} rows, columns {:?}, {:?}", n, shapes, cfg);
    Setup { n, cfg, cols, what }
}

fn config(s: &Setup) -> Config {
    let mut c = Config::new();
    for (k, v) in &s.cfg { let _ = c.parse_record(k, v); }
    c
}

fn table(c: &Config, s: &Setup) -> Data {
    let mut d = Data::empty(c, s.cols.len() - 1, s.n);
    for (j, (col, cat)) in s.cols.iter().enumerate() { d.set_feature_data(j, col, *cat).unwrap(); }
    d
}

/// Training and predicting: objectives, widths, shapes of columns, sampling and compression.
fn training(cx: &mut Cx) {
    let part = if cx.thorough() { 2 } else { 14 };
    let s = match point(cx, 1, part) { Some(p) => setup(p), None => return };
    cx.state(H::new(10).s(&s.what).get());
    cx.sample(|| s.what.clone());
    run(cx, || {
        let c = config(&s);
        let d = table(&c, &s);
        let mut o = objective_from_name(&c.objective).unwrap();
        let ms = metrics_from_names(&["l2".to_string()]).unwrap();
        let m = Booster::new(&c, &d, o.as_mut(), &ms).train();
        let p = m.predict(&d);
        for x in &p { black_box(x.to_bits()); }
        // other rows than those of the training
        let t = Setup { n: s.n + 5, cfg: s.cfg.clone(), cols: s.cols.iter().map(|(v, k)| ((0..s.n + 5).map(|i| v[(i * 7) % s.n]).collect(), *k)).collect(), what: String::new() };
        let d2 = table(&c, &t);
        let mut buf = vec![0.0f32; t.n];
        m.predict_buf(&d2, &mut buf);
        for x in &buf { black_box(x.to_bits()); }
        black_box(metric_from_name("l2").unwrap().eval(d2.get_target(), &buf));
    });
}

/// The view of the data a tree is learned on: updates, masks of all splits, rows in and out of the sample.
fn datasets(cx: &mut Cx) {
    let part = if cx.thorough() { 2 } else { 10 };
    let s = match point(cx, 2, part) { Some(p) => setup(p), None => return };
    cx.state(H::new(11).s(&s.what).get());
    run(cx, || {
        let c = config(&s);
        let d = table(&c, &s);
        let mut ds = Dataset::new(&c, &d);
        let grad: Vec<f32> = (0..s.n).map(|i| (i % 5) as f32 - 2.0).collect();
        for _ in 0..by(2, 4) {
            ds.update(&c, &grad, (-2.0, 2.0));
            for &f in ds.active_features() {
                for k in 0..ds.get_nbins(f) { eat!(ds.get_bitvec(f, k).cast::<u64>()); black_box(ds.get_split_value(f, k)); }
            }
            let mut k = 0;
            ds.active_examples_iter(|i, j| k ^= i + j);
            if ds.example_sampling_enabled() { for i in ds.inactive_examples_iter() { k ^= i; } }
            if ds.example_sampling_enabled() { for i in 0..ds.nactive_examples() { k ^= ds.map_index(i); } }
            black_box(k);
        }
    });
}

/// Two or more threads build the histograms.
fn threads(cx: &mut Cx) {
    let n = cx.pick(&if TINY { vec![33usize, 300] } else { vec![33usize, 300, 1500] });
    let nbits = cx.pick(&[1usize, 8]);
    let nt = cx.pick(&[2usize, 3]);
    if !cx.mine() { return; }
    let cols: Vec<(Vec<f32>, bool)> = (0..5).map(|j| ((0..n).map(|i| cell([0, 2, 4, 1, 0][j], i, n, j)).collect(), true)).chain([((0..n).map(|i| (i * 13 % 8) as f32).collect(), false)]).collect();
    let s = Setup { n, cfg: vec![("discr_nbits", nbits.to_string()), ("niterations", "2".into()), ("max_tree_depth", "2".into()), ("compression_threshold", "0.1".into()), ("objective", "l2".into())], cols, what: String::new() };
    run(cx, || {
        let p = rayon::ThreadPoolBuilder::new().num_threads(nt).build().unwrap();
        p.install(|| {
            let c = config(&s);
            let d = table(&c, &s);
            let mut o = objective_from_name("l2").unwrap();
            let m = Booster::new(&c, &d, o.as_mut(), &[]).train();
            for x in m.predict(&d) { black_box(x.to_bits()); }
        });
    });
    cx.state(H::new(12).n(n).n(nbits).n(nt).get());
}

// ---- interfaces ---------------------------------------------------------------------------------

/// Histories of calls of the C interface; every buffer of the caller has exactly the size of the column.
fn calls(cx: &mut Cx) {
    const OPS: usize = 10;
    let start = if TINY && !cx.thorough() { 1 + cx.choose(2) } else { cx.choose(3) };
    let len = by(2, 3) + cx.thorough() as usize;
    let ops: Vec<usize> = (0..len).map(|_| cx.choose(OPS)).collect();
    if !cx.mine() { return; }
    let seq: Vec<usize> = [&[][..], &[2, 4, 5, 6, 7], &[0, 1, 3, 4, 5, 6, 7]][start].iter().cloned().chain(ops).chain([8usize]).collect();
    cx.state(H::new(13).us(&seq).get());
    cx.sample(|| format!("operations {:?}", seq));
    run(cx, || {
        let p = bb_alloc(2);
        let set = |n: &str, v: &str| { let (n, v) = (CString::new(n).unwrap(), CString::new(v).unwrap()); bb_set_config_field(p, n.as_ptr(), v.as_ptr()); };
        set("niterations", "2");
        set("max_tree_depth", "2");
        let mut rows = 0;
        for o in seq {
            match o {
                0 => set("discr_nbits", "8"),
                1 => { set("objective", "huber"); set("no_such_field", "1"); set("metrics", "l2,rmse"); }
                2 => { rows = by(33, 40); bb_refresh_data(p, rows as i32); }
                3 => { rows = by(40, 300); bb_refresh_data(p, rows as i32); }
                4 | 5 | 6 => {
                    let f = o - 4;
                    let col: Box<[f32]> = (0..rows).map(|i| cell([0, 2, 0][f], i, rows, f)).collect();
                    bb_set_feature_data(p, f as i32, col.as_ptr(), (f != 2) as i32);
                }
                7 => { bb_train(p); }
                8 => { let mut b: Box<[f32]> = vec![0.0; rows].into(); bb_predict(p, b.as_mut_ptr()); for x in b.iter() { black_box(x.to_bits()); } }
                _ => { let col: Box<[f32]> = vec![0.5; rows].into(); bb_set_feature_data(p, 7, col.as_ptr(), 0); bb_refresh_data(p, -3); }
            }
        }
        bb_dealloc(p);
    });
}

/// Reading tables from text.
fn texts(cx: &mut Cx) {
    let rows = cx.choose(by(4, 40));
    let cols = 1 + cx.choose(by(2, 5));
    let tail = cx.choose(4);
    let head = cx.flag();
    let (cats, sep) = cx.pick(if TINY { &[(false, false), (true, true)] } else { &[(false, false), (true, true), (true, false), (false, true)] });
    if !cx.mine() { return; }
    let d = if sep { ";" } else { "," };
    let mut text = String::new();
    if head { text.push_str(&(0..cols).map(|j| format!("c{}", j)).collect::<Vec<_>>().join(d)); text.push('\n'); }
    for i in 0..rows {
        text.push_str(&(0..cols).map(|j| format!("{}", (i * 3 + j) % 4)).collect::<Vec<_>>().join(d));
        if i + 1 < rows || tail % 2 == 0 { text.push('\n'); }
    }
    if tail == 2 { text.push_str("1"); }
    if tail == 3 { text.push_str(&format!("1{}x", d)); }
    run(cx, || {
        let mut c = Config::new();
        let _ = c.parse_record("csv_has_header", if head { "true" } else { "false" });
        let _ = c.parse_record("csv_delimiter", d);
        if cats { let _ = c.parse_record("categorical_features", "0"); }
        if let Ok(d) = Data::from_csv(&c, &text) {
            for f in 0..=d.nfeatures() { for x in d.get_feature(f) { black_box(x.to_bits()); } black_box((d.feat_limits(f), d.feat_card(f), d.feat_name(f).len())); }
        }
    });
    cx.state(H::new(14).s(&text).n(cats as usize).get());
}

macro_rules! families { ($($f:ident),*) => {
    #[cfg(miri)]
    const FAMILIES: &[Family] = &[$((concat!("miri_", stringify!($f)), $f)),*];
    #[cfg(not(miri))]
    const FAMILIES: &[Family] = &[$((stringify!($f), $f)),*];
} }

// The slow ones come last: a loaded machine ends them first.
families!(outside, blocks, pools_f32, pools_u64, pools_u8, pools_mixed, histograms, block_pools, bins, iterate, bitslices, kernels, texts, datasets, calls, threads, training);

fn main() { mc::main(FAMILIES) }
