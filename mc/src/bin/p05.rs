//! P05: bit containers behave like plain arrays of bits and values.
use bitboost::bitblock::{self, BitBlock, BitBlocks};
use bitboost::bitset::Bitset;
use bitboost::bitslice as own;
use bitboost::bitslice::BitsliceLayout;
use bitboost::slice_store as pool;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout};
use mc::*;

const EDGE: [usize; 16] = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 191, 192, 255];

fn fnv(b: &[bool]) -> u64 { let mut h = H::new(5); let mut x = 0u64; for (i, &v) in b.iter().enumerate() { x = x << 1 | v as u64; if i % 64 == 63 { h.u(x); x = 0; } } h.u(x); h.get() }

fn word(bits: &[bool], i: usize, w: usize) -> u128 { (0..w).map(|k| (bits[i * w + k] as u128) << k).sum() }

fn same_block(cx: &mut Cx, b: &BitBlock, bits: &[bool], what: &dyn Fn() -> String) {
    for i in 0..256 { if !cx.check(b.get_bit(i) == bits[i], "block-get-bit", || format!("{}: bit {}", what(), i)) { return; } }
    macro_rules! c { ($t:ty, $w:expr) => {
        cx.check(b.cast::<$t>().len() == 256 / $w && b.cast::<$t>().iter().enumerate().all(|(i, &x)| x as u128 == word(bits, i, $w)), "block-cast", || format!("{}: as {} bit words", what(), $w));
    } }
    c!(u8, 8); c!(u16, 16); c!(u32, 32); c!(u64, 64); c!(u128, 128);
    let n = bits.iter().filter(|x| **x).count();
    cx.check(b.count_ones() as usize == n, "block-count", || format!("{}: {} ones", what(), b.count_ones()));
    cx.check(b.is_zero() == (n == 0), "block-is-zero", || what());
}

fn start(kind: usize) -> (BitBlock, Vec<bool>) {
    match kind {
        0 => (BitBlock::zeros(), vec![false; 256]),
        1 => (BitBlock::ones(), vec![true; 256]),
        2 => (BitBlock::default(), vec![false; 256]),
        _ => (BitBlock::from_4u64(0x0123_4567_89AB_CDEF, !0, 0, 0x8000_0000_0000_0001),
              (0..256).map(|i| [0x0123_4567_89AB_CDEFu64, !0, 0, 0x8000_0000_0000_0001][i / 64] >> (i % 64) & 1 == 1).collect()),
    }
}

fn op(b: &mut BitBlock, bits: &mut Vec<bool>, kind: usize, p: usize) {
    match kind {
        0 => { b.enable_bit(p); bits[p] = true; }
        1 => { b.disable_bit(p); bits[p] = false; }
        2 => { b.set_bit(p, true); bits[p] = true; }
        3 => { b.set_bit(p, false); bits[p] = false; }
        4 => { b.cast_mut::<u8>()[p / 8] = 0xA5; for k in 0..8 { bits[p / 8 * 8 + k] = 0xA5u32 >> k & 1 == 1; } }
        5 => { b.cast_mut::<u16>()[p / 16] = 0x8001; for k in 0..16 { bits[p / 16 * 16 + k] = 0x8001u32 >> k & 1 == 1; } }
        6 => { b.cast_mut::<u32>()[p / 32] = 0xC000_0013; for k in 0..32 { bits[p / 32 * 32 + k] = 0xC000_0013u32 >> k & 1 == 1; } }
        _ => { b.cast_mut::<u64>()[p / 64] = 0x8000_0001_0000_0007; for k in 0..64 { bits[p / 64 * 64 + k] = 0x8000_0001_0000_0007u64 >> k & 1 == 1; } }
    }
}

/// Every single operation at every position; all sequences of three at word boundaries.
fn block(cx: &mut Cx) {
    let kind = cx.choose(4);
    let k1 = cx.choose(8);
    let deep = cx.flag();
    let p1 = if deep { cx.pick(&EDGE) } else { cx.choose(256) };
    if !cx.mine() { return; }
    let (mut b, mut bits) = start(kind);
    same_block(cx, &b, &bits, &|| format!("start {}", kind));
    op(&mut b, &mut bits, k1, p1);
    cx.step();
    cx.state(fnv(&bits));
    same_block(cx, &b, &bits, &|| format!("start {}, op {} at {}", kind, k1, p1));
    if !deep { return; }
    for k2 in 0..8 { for &p2 in &EDGE {
        let (mut b2, mut bits2) = (b.clone(), bits.clone());
        op(&mut b2, &mut bits2, k2, p2);
        cx.step();
        same_block(cx, &b2, &bits2, &|| format!("start {}, ops {} at {}, {} at {}", kind, k1, p1, k2, p2));
        if cx.thorough() || k2 < 4 {
            for k3 in 0..4 { for &p3 in &EDGE {
                let (mut b3, mut bits3) = (b2.clone(), bits2.clone());
                op(&mut b3, &mut bits3, k3, p3);
                cx.step();
                let ok = (0..256).all(|i| b3.get_bit(i) == bits3[i]);
                cx.check(ok, "block-sequence", || format!("start {}, ops {} at {}, {} at {}, {} at {}", kind, k1, p1, k2, p2, k3, p3));
            } }
        }
    } }
    cx.sample(|| format!("start {}, operation {} at {}", kind, k1, p1));
}

/// The free functions on machine words.
fn words(cx: &mut Cx) {
    if !cx.mine() { return; }
    macro_rules! t { ($t:ty, $w:expr) => {
        for x in [0 as $t, !0, 0x5A as $t, (1 as $t) << ($w - 1), 1] {
            for p in 0..$w as u8 {
                let b = x >> p & 1 == 1;
                cx.step();
                cx.check(bitblock::get_bit(x, p) == b, "word-get", || format!("{} bit {}", x, p));
                for v in [false, true] {
                    let want = if v { x | 1 << p } else { x & !(1 << p) };
                    cx.check(bitblock::set_bit(x, p, v) == want, "word-set", || format!("{} bit {} to {}", x, p, v));
                }
                cx.check(bitblock::enable_bit(x, p) == x | 1 << p, "word-enable", || format!("{} bit {}", x, p));
                cx.check(bitblock::disable_bit(x, p) == x & !(1 << p), "word-disable", || format!("{} bit {}", x, p));
            }
        }
        for i in 0..1000usize {
            cx.check(bitblock::get_blockpos::<$t>(i) == i / $w && bitblock::get_bitpos::<$t>(i) as usize == i % $w, "word-position", || format!("{}", i));
        }
    } }
    t!(u8, 8); t!(u16, 16); t!(u32, 32); t!(u64, 64);
    for n in 0..3000 { cx.check(BitBlock::blocks_required_for(n) == (n + 255) / 256, "blocks-required", || format!("{}", n)); }
    cx.check(BitBlock::nbits() == 256 && BitBlock::nbytes() == 32, "block-size", || String::new());
    cx.state(1);
}

struct Count<I> { it: I, n: std::rc::Rc<std::cell::Cell<usize>> }
impl<I: Iterator> Iterator for Count<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { let r = self.it.next(); if r.is_some() { self.n.set(self.n.get() + 1); } r } }
fn counted<I: Iterator>(it: I) -> (Count<I>, std::rc::Rc<std::cell::Cell<usize>>) { let n = std::rc::Rc::new(std::cell::Cell::new(0)); (Count { it, n: n.clone() }, n) }

/// Lengths beyond the small integer types.
const LONG: [usize; 8] = [4099, 32_769, 65_535, 65_537, 131_073, 1_048_577, 4_194_305, 16_777_217];

fn ints(i: usize) -> u64 { (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1 }

/// Every length of every constructor from iterators of integers and bits.
fn construct(cx: &mut Cx) {
    let k = cx.choose(if cx.thorough() { 1100 + LONG.len() } else { 600 + LONG.len() });
    let len = if k < LONG.len() { LONG[k] } else { k - LONG.len() };
    if len > if cx.thorough() { 5_000_000 } else { 1_000_000 } { cx.discard(); return; }
    if !cx.mine() { return; }
    macro_rules! t { ($t:ty, $w:expr) => {{
        let cap = 256 / $w;
        let mut it = (0..len).map(|i| ints(i) as $t);
        let (done, b) = BitBlock::from_iter(&mut it);
        let k = len.min(cap);
        cx.step();
        cx.check(done == (len < cap), "block-from-iter-done", || format!("{} of {}", len, cap));
        cx.check(b.cast::<$t>().iter().enumerate().all(|(i, &x)| x == if i < k { ints(i) as $t } else { 0 }), "block-from-iter", || format!("{} of {}", len, cap));
        cx.check(it.next() == if len > cap { Some(ints(cap) as $t) } else { None }, "block-from-iter-consumed", || format!("{} of {}", len, cap));
        let v: Vec<$t> = (0..len).map(|i| ints(i) as $t).collect();
        let b = BitBlock::from_slice(&v);
        cx.check(b.cast::<$t>().iter().enumerate().all(|(i, &x)| x == if i < k { ints(i) as $t } else { 0 }), "block-from-slice", || format!("{} of {}", len, cap));
        let b = BitBlock::from(ints(len) as $t);
        cx.check(b.cast::<$t>().iter().enumerate().all(|(i, &x)| x == if i == 0 { ints(len) as $t } else { 0 }), "block-from-value", || format!("{}", len));
        if len > 0 {
            for extra in [0usize, 1, 5] {
                // `nvalues` announced, `extra` more offered or missing
                let offered = len + extra;
                let (it, n) = counted((0..offered).map(|i| ints(i) as $t));
                let bs = BitBlocks::from_iter(len, it);
                let blocks = (len * $w + 255) / 256;
                let k = n.get();
                cx.check(bs.len() == blocks && bs.block_len::<$t>() == blocks * cap, "blocks-from-iter-size", || format!("{} {} bit values: {} blocks", len, $w, bs.len()));
                cx.check(k >= len && bs.cast::<$t>().iter().enumerate().all(|(i, &x)| x == if i < k { ints(i) as $t } else { 0 }), "blocks-from-iter", || format!("{} {} bit values, {} consumed", len, $w, k));
                let mut st = BitBlockStore::new(2);
                st.alloc_one_blocks(1);
                let (it, n) = counted((0..offered).map(|i| ints(i) as $t));
                let r = st.alloc_from_iter(len, it);
                let bs = st.get_bitvec(r);
                let k = n.get();
                cx.check(bs.len() == blocks && bs.block_len::<$t>() == blocks * cap, "pool-from-iter-size", || format!("{} {} bit values: {} blocks", len, $w, bs.len()));
                cx.check(k >= len && bs.cast::<$t>().iter().enumerate().all(|(i, &x)| x == if i < k { ints(i) as $t } else { 0 }), "pool-from-iter", || format!("{} {} bit values, {} consumed", len, $w, k));
                let short = len.saturating_sub(extra);
                let bs = BitBlocks::from_iter(len, (0..short).map(|i| ints(i) as $t));
                cx.check(bs.len() == blocks && bs.cast::<$t>().iter().enumerate().all(|(i, &x)| x == if i < short { ints(i) as $t } else { 0 }), "blocks-from-short-iter", || format!("{} {} bit values", len, $w));
            }
        }
    }} }
    t!(u8, 8); t!(u16, 16); t!(u32, 32); t!(u64, 64);
    let f = |i: usize| (i * 7 + i / 13) % 3 != 1;
    let mut it = (0..len).map(f);
    let (done, b) = BitBlock::from_bool_iter(&mut it);
    cx.check(done == (len < 256) && (0..256).all(|i| b.get_bit(i) == (i < len && f(i))), "block-from-bits", || format!("{}", len));
    cx.check(it.next() == if len > 256 { Some(f(256)) } else { None }, "block-from-bits-consumed", || format!("{}", len));
    if len > 0 {
        let blocks = (len + 255) / 256;
        let b = BitBlocks::from_bool_iter(len, (0..len).map(f));
        cx.check(b.len() == blocks && (0..blocks * 256).all(|i| b[i / 256].get_bit(i % 256) == (i < len && f(i))), "blocks-from-bits", || format!("{}", len));
        let mut st = BitBlockStore::new(1);
        let r0 = st.alloc_one_bits(len);
        st.free_blocks(r0);
        let r = st.alloc_from_bits_iter(len, (0..len).map(f));
        let v = st.get_bitvec(r);
        cx.check(v.len() == blocks && (0..blocks * 256).all(|i| v.get_bit(i) == (i < len && f(i))), "pool-from-bits", || format!("{}", len));
    }
    cx.state(H::new(3).n(len).get());
    cx.sample(|| format!("{} items", len));
}

/// Fresh vectors of every length: zeros, ones, tails.
fn fresh(cx: &mut Cx) {
    let k = cx.choose(if cx.thorough() { 2100 + LONG.len() } else { 1100 + LONG.len() });
    let len = if k < LONG.len() { LONG[k] } else { k - LONG.len() + 1 };
    if !cx.thorough() && len > 2_000_000 { cx.discard(); return; }
    if !cx.mine() { return; }
    let blocks = (len + 255) / 256;
    for ones in [false, true] {
        let want = |i: usize| ones && i < len;
        let b = if ones { BitBlocks::one_bits(len) } else { BitBlocks::zero_bits(len) };
        cx.step();
        cx.check(b.len() == blocks && (0..blocks * 256).all(|i| b[i / 256].get_bit(i % 256) == want(i)), "blocks-fresh", || format!("{} bits ones={}", len, ones));
        let b = if ones { Bitset::ones(len) } else { Bitset::zeros(len) };
        cx.check(b.len() == blocks && (0..blocks * 256).all(|i| b.get_bit(i) == want(i)), "bitset-fresh", || format!("{} bits ones={}", len, ones));
        // pooled: fresh memory, and memory used before
        let mut st = BitBlockStore::new(1 + len % 3);
        for used in 0..3 {
            let r = if ones { st.alloc_one_bits(len) } else { st.alloc_zero_bits(len) };
            let v = st.get_bitvec(r);
            cx.check(v.len() == blocks && (0..blocks * 256).all(|i| v.get_bit(i) == want(i)), "pool-fresh", || format!("{} bits ones={} reuse {}", len, ones, used));
            for x in st.get_bitvec_mut(r).cast_mut::<u64>() { *x = 0x55AA_55AA_55AA_55AA; }
            if used == 0 { st.free_blocks(r); } else { st.reset(); }
        }
        let b = if ones { BitBlocks::one_blocks(blocks) } else { BitBlocks::zero_blocks(blocks) };
        cx.check(b.len() == blocks && b.cast::<u64>().iter().all(|&x| x == if ones { !0 } else { 0 }), "blocks-whole", || format!("{} blocks ones={}", blocks, ones));
        let r = if ones { st.alloc_one_blocks(blocks) } else { st.alloc_zero_blocks(blocks) };
        let v = st.get_bitvec(r);
        cx.check(v.len() == blocks && v.cast::<u64>().iter().all(|&x| x == if ones { !0 } else { 0 }), "pool-whole", || format!("{} blocks ones={}", blocks, ones));
    }
    cx.state(H::new(4).n(len).get());
}

/// Bit sets, bit vectors and block arrays: sequences of bit and word writes.
fn vectors(cx: &mut Cx) {
    let len = cx.pick(&[1usize, 64, 255, 256, 257, 511, 513, 800]);
    let ones = cx.flag();
    let full = cx.flag();
    let n = (len + 255) / 256 * 256;
    let p1 = if full { cx.choose(n) } else { cx.pick(&EDGE) * n / 256 };
    let k1 = cx.choose(6);
    if !cx.mine() { return; }
    let mut shadow: Vec<bool> = (0..n).map(|i| ones && i < len).collect();
    let mut set = if ones { Bitset::ones(len) } else { Bitset::zeros(len) };
    let mut st = BitBlockStore::new(2);
    let r = if ones { st.alloc_one_bits(len) } else { st.alloc_zero_bits(len) };
    fn go(set: &mut Bitset, st: &mut BitBlockStore, r: (u32, u32), sh: &mut Vec<bool>, k: usize, p: usize) {
        let mut v = st.get_bitvec_mut(r);
        match k {
            0 => { set.set_bit(p, true); v.set_bit(p, true); sh[p] = true; }
            1 => { set.set_bit(p, false); v.set_bit(p, false); sh[p] = false; }
            2 => { set.enable_bit(p); v.enable_bit(p); sh[p] = true; }
            3 => { set.disable_bit(p); v.set_bit(p, false); sh[p] = false; }
            4 => { let x = 0x8003_0001u32; set.set::<u32>(p / 32, x); v.set::<u32>(p / 32, x); for b in 0..32 { sh[p / 32 * 32 + b] = x >> b & 1 == 1; } }
            _ => { let x = 0x9u8 << 4 | 1; unsafe { set.set_unchecked::<u8>(p / 8, x); v.set_unchecked::<u8>(p / 8, x); } for b in 0..8 { sh[p / 8 * 8 + b] = x >> b & 1 == 1; } }
        }
    }
    fn same(cx: &mut Cx, set: &Bitset, st: &BitBlockStore, r: (u32, u32), sh: &[bool], what: &dyn Fn() -> String) {
        let v = st.get_bitvec(r);
        cx.step();
        cx.check((0..sh.len()).all(|i| set.get_bit(i) == sh[i]), "bitset", || what());
        cx.check((0..sh.len()).all(|i| v.get_bit(i) == sh[i]), "bitvec", || what());
        cx.check(set.cast::<u32>().iter().enumerate().all(|(i, &x)| x as u128 == word(sh, i, 32) && *set.get::<u32>(i) == x && unsafe { *set.get_unchecked::<u32>(i) } == x), "bitset-words", || what());
        cx.check(v.cast::<u64>().iter().enumerate().all(|(i, &x)| x as u128 == word(sh, i, 64) && *v.get::<u64>(i) == x && unsafe { *v.get_unchecked::<u64>(i) } == x), "bitvec-words", || what());
        cx.check(v.block_len::<u16>() == sh.len() / 16 && set.block_len::<u16>() == sh.len() / 16, "words-length", || what());
    }
    go(&mut set, &mut st, r, &mut shadow, k1, p1);
    same(cx, &set, &st, r, &shadow, &|| format!("{} bits ones={} op {} at {}", len, ones, k1, p1));
    cx.state(fnv(&shadow));
    if full { return; }
    let base = shadow.clone();
    for k2 in 0..6 { for e in &EDGE {
        let p2 = e * n / 256;
        for i in 0..n { set.set_bit(i, base[i]); st.get_bitvec_mut(r).set_bit(i, base[i]); }
        let mut sh = base.clone();
        go(&mut set, &mut st, r, &mut sh, k2, p2);
        same(cx, &set, &st, r, &sh, &|| format!("{} bits ones={} ops {} at {}, {} at {}", len, ones, k1, p1, k2, p2));
    } }
}

/// Resizing and clearing owned blocks.
fn resize(cx: &mut Cx) {
    let a = 1 + cx.choose(4);
    let b = 1 + cx.choose(5);
    let c = 1 + cx.choose(5);
    let clear = cx.flag();
    if !cx.mine() { return; }
    let mut x = BitBlocks::empty();
    cx.check(x.is_empty() && x.len() == 0, "empty", || String::new());
    let mut want: Vec<u64> = vec![];
    for (k, n) in [a, b, c].iter().enumerate() {
        if clear && k == 2 { x.reset(); want.clear(); cx.check(x.is_empty(), "reset", || String::new()); }
        x.resize(*n);
        want.resize(n * 4, 0);
        cx.step();
        cx.check(x.len() == *n && x.cast::<u64>() == &want[..] && !x.is_empty(), "resize", || format!("{} {} {} clear {}", a, b, c, clear));
        for (i, w) in want.iter_mut().enumerate() { *w = (i + k * 1000 + 1) as u64; }
        x.cast_mut::<u64>().copy_from_slice(&want);
    }
    cx.state(H::new(6).n(a).n(b).n(c).n(clear as usize).get());
}

fn vmax(w: usize) -> u8 { ((1u16 << w) - 1) as u8 }

/// Packed values: every write at every position leaves all other values alone.
fn packed_pool<L: BitSliceLayout + 'static>(cx: &mut Cx, n: usize, back: usize, part: usize) {
    let w = L::width();
    let mut st = BitBlockStore::new(4);
    st.alloc_one_blocks(1);
    let r = st.alloc_zero_bitslice::<L>(n);
    let after = st.alloc_zero_blocks(1);
    let cap = (n + 255) / 256 * 256;
    let mut sh = vec![0u8; cap];
    cx.check((0..cap).all(|i| st.get_bitslice::<L>(r).get_value(i) == 0), "packed-fresh", || format!("width {} n {}", w, n));
    if back > 0 {
        for i in 0..cap { sh[i] = if back == 1 { vmax(w) } else { (i * 11 + i / 32) as u8 & vmax(w) }; st.get_bitslice_mut::<L>(r).set_value(i, sh[i]); }
        cx.check((0..cap).all(|i| st.get_bitslice::<L>(r).get_value(i) == sh[i]), "packed-fill", || format!("width {} n {}", w, n));
    }
    let vals: Vec<u8> = (0..w).map(|k| 1u8 << k).chain(vec![0, vmax(w), 0xA5 & vmax(w)]).collect();
    for i in (0..cap).filter(|i| i % 16 == part) {
        for &v in &vals {
            st.get_bitslice_mut::<L>(r).set_value(i, v);
            cx.step();
            let s = st.get_bitslice::<L>(r);
            let lo = i.saturating_sub(70);
            let hi = (i + 70).min(cap);
            cx.check((lo..hi).all(|j| s.get_value(j) == if j == i { v } else { sh[j] }), "packed-write", || format!("width {} value {} at {} of {}", w, v, i, n));
        }
        let s = st.get_bitslice::<L>(r);
        let last = *vals.last().unwrap();
        cx.check((0..cap).all(|j| s.get_value(j) == if j == i { last } else { sh[j] }), "packed-write-far", || format!("width {} at {} of {}", w, i, n));
        st.get_bitslice_mut::<L>(r).set_value(i, sh[i]);
    }
    cx.check(st.get_bitvec(after).cast::<u64>().iter().all(|&x| x == 0), "packed-neighbour", || format!("width {} n {}", w, n));
}

fn packed_own<L: BitsliceLayout>(cx: &mut Cx, n: usize, back: usize, part: usize) {
    let w = L::width();
    let mut x = own::Bitslice::new();
    let mut s = x.with_layout_mut::<L>();
    s.resize(n);
    let cap = (n + 255) / 256 * 256;
    cx.check(s.nblocks() == cap / 256 * w, "packed-own-size", || format!("width {} n {} blocks {}", w, n, s.nblocks()));
    let mut sh = vec![0u8; cap];
    if back > 0 { for i in 0..cap { sh[i] = if back == 1 { vmax(w) } else { (i * 11 + i / 32) as u8 & vmax(w) }; s.set_value(i, sh[i]); } }
    let vals: Vec<u8> = (0..w).map(|k| 1u8 << k).chain(vec![0, vmax(w), 0xA5 & vmax(w)]).collect();
    for i in (0..cap).filter(|i| i % 16 == part) {
        for &v in &vals {
            s.set_value(i, v);
            cx.step();
            let (lo, hi) = (i.saturating_sub(70), (i + 70).min(cap));
            cx.check((lo..hi).all(|j| s.get_value(j) == if j == i { v } else { sh[j] }), "packed-own-write", || format!("width {} value {} at {} of {}", w, v, i, n));
            // the blocks of each significance agree with the values
            let b = i / 32;
            for lane in 0..w {
                let want: u32 = (0..32).map(|k| (((if b * 32 + k == i { v } else { sh[b * 32 + k] }) >> lane & 1) as u32) << k).sum();
                cx.check(s.get_block(b, lane) == want && unsafe { s.get_block_unchecked(b, lane) } == want, "packed-own-block", || format!("width {} block {} lane {}", w, b, lane));
            }
        }
        cx.check((0..cap).all(|j| j == i || s.get_value(j) == sh[j]), "packed-own-far", || format!("width {} at {} of {}", w, i, n));
        // writing through a block
        let (b, lane) = (i / 32, i % w);
        let was: Vec<u8> = (0..32).map(|k| s.get_value(b * 32 + k)).collect();
        *s.get_block_mut(b, lane) = 0x8000_0101;
        cx.check((0..32).all(|k| s.get_value(b * 32 + k) == (was[k] & !(1 << lane)) | ((0x8000_0101u32 >> k & 1) as u8) << lane), "packed-own-block-write", || format!("width {} block {} lane {}", w, b, lane));
        unsafe { *s.get_block_unchecked_mut(b, lane) = 0x4000_0011; }
        cx.check((0..32).all(|k| s.get_value(b * 32 + k) == (was[k] & !(1 << lane)) | ((0x4000_0011u32 >> k & 1) as u8) << lane), "packed-own-block-write", || format!("width {} block {} lane {} unchecked", w, b, lane));
        for k in 0..32 { s.set_value(b * 32 + k, sh[b * 32 + k]); }
    }
    // growing keeps the values
    s.resize(n + 300);
    cx.check((0..cap).all(|j| s.get_value(j) == sh[j]), "packed-own-grow", || format!("width {} n {}", w, n));
    let nb = s.nblocks();
    drop(s);
    cx.check(x.nblocks() == nb && x.as_bitblocks().len() == nb, "packed-own-size", || format!("width {}", w));
}

fn packed(cx: &mut Cx) {
    let w = cx.choose(4);
    let n = cx.pick(&[1usize, 31, 256, 257, 600]);
    let back = cx.choose(3);
    let part = cx.choose(16);
    if !cx.mine() { return; }
    match w {
        0 => { packed_pool::<pool::BitSliceLayout1>(cx, n, back, part); packed_own::<own::BitsliceLayout1>(cx, n, back, part) }
        1 => { packed_pool::<pool::BitSliceLayout2>(cx, n, back, part); packed_own::<own::BitsliceLayout2>(cx, n, back, part) }
        2 => { packed_pool::<pool::BitSliceLayout4>(cx, n, back, part); packed_own::<own::BitsliceLayout4>(cx, n, back, part) }
        _ => { packed_pool::<pool::BitSliceLayout8>(cx, n, back, part); packed_own::<own::BitsliceLayout8>(cx, n, back, part) }
    }
    cx.state(H::new(7).n(w).n(n).n(back).n(part).get());
    cx.sample(|| format!("width index {} {} values background {}", w, n, back));
}

/// Copying one block of 32 packed values: every source and destination block.
fn copy<L: BitSliceLayout + 'static>(cx: &mut Cx, nf: usize, nt: usize, from: usize) {
    let w = L::width();
    let mut st = BitBlockStore::new(4);
    let a = st.alloc_zero_bitslice::<L>(nf * 256);
    let b = st.alloc_zero_bitslice::<L>(nt * 256);
    let va = |i: usize| (i * 13 + 5 + i / 32) as u8 & vmax(w);
    let vb = |i: usize| !((i * 7 + i / 64) as u8) & vmax(w);
    for i in 0..nf * 256 { st.get_bitslice_mut::<L>(a).set_value(i, va(i)); }
    for to in 0..nt * 8 {
        for i in 0..nt * 256 { st.get_bitslice_mut::<L>(b).set_value(i, vb(i)); }
        for swap in [false, true] {
            if swap {
                let (mut y, x) = st.get_two_bitslices_mut::<L>(b, a);
                y.copy_block_from::<u32, _>(&x, from, to);
            } else {
                let (x, mut y) = st.get_two_bitslices_mut::<L>(a, b);
                y.copy_block_from::<u32, _>(&x, from, to);
            }
            cx.step();
            let y = st.get_bitslice::<L>(b);
            cx.check((0..nt * 256).all(|i| y.get_value(i) == if i / 32 == to { va(from * 32 + i % 32) } else { vb(i) }), "packed-copy", || format!("width {} block {} to {}", w, from, to));
            let x = st.get_bitslice::<L>(a);
            cx.check((0..nf * 256).all(|i| x.get_value(i) == va(i)), "packed-copy-source", || format!("width {} block {} to {}", w, from, to));
        }
    }
}

fn copies(cx: &mut Cx) {
    let w = cx.choose(4);
    let (nf, nt) = (1 + cx.choose(3), 1 + cx.choose(3));
    let from = cx.choose(nf * 8);
    if !cx.mine() { return; }
    match w {
        0 => copy::<pool::BitSliceLayout1>(cx, nf, nt, from),
        1 => copy::<pool::BitSliceLayout2>(cx, nf, nt, from),
        2 => copy::<pool::BitSliceLayout4>(cx, nf, nt, from),
        _ => copy::<pool::BitSliceLayout8>(cx, nf, nt, from),
    }
    cx.state(H::new(8).n(w).n(nf).n(nt).n(from).get());
}

fn main() {
    mc::main(&[("words", words), ("block", block), ("construct", construct), ("fresh", fresh), ("vectors", vectors), ("resize", resize), ("packed", packed), ("copies", copies)]);
}
