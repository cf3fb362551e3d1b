//! P07: pooled storage: histories of allocations, frees, growth and resets against plain vectors.
use bitboost::slice_store::*;
use mc::*;
use std::collections::BTreeMap;
use std::fmt::Debug;

#[derive(Clone)]
struct Live<T> { r: SliceRange, want: Vec<T> }

trait Elem: Clone + PartialEq + Debug + Default + 'static { fn make(k: u64) -> Self; }
impl Elem for f32 { fn make(k: u64) -> f32 { k as f32 + 0.5 } }
impl Elem for u64 { fn make(k: u64) -> u64 { k.wrapping_mul(0x1_0000_0001) + 7 } }
impl Elem for u8 { fn make(k: u64) -> u8 { (k % 251) as u8 + 1 } }
impl Elem for (u32, u32) { fn make(k: u64) -> (u32, u32) { (k as u32, !(k as u32)) } }
impl Elem for (f32, u64) { fn make(k: u64) -> (f32, u64) { (k as f32, k << 20) } }

fn fresh<T: Elem>(seq: &mut u64) -> T { *seq += 1; T::make(*seq) }

fn check_store<T: Elem>(cx: &mut Cx, st: &mut SliceStore<T>, live: &[Live<T>], align: usize, hist: &str) {
    for (a, l) in live.iter().enumerate() {
        let got = st.get_slice(l.r);
        let ok = got.len() == l.want.len();
        let ad = got.as_ptr() as usize;
        let same = got == &l.want[..];
        cx.check(ok, "length", || format!("{}: slice {} {:?} has length {}, want {}", hist, a, l.r, l.want.len(), l.want.len()));
        cx.check(ad % align == 0, "alignment", || format!("{}: slice {} {:?} is not aligned to {} bytes", hist, a, l.r, align));
        if !cx.check(same, "contents", || format!("{}: slice {} {:?} lost its contents", hist, a, l.r)) { return; }
        for m in live.iter().take(a) {
            cx.check(l.r.1 <= m.r.0 || m.r.1 <= l.r.0, "overlap", || format!("{}: {:?} and {:?} are both live", hist, l.r, m.r));
        }
    }
    for a in 0..live.len() {
        for b in 0..live.len() {
            if a == b { continue; }
            let (s1, s2) = st.get_two_slices_mut(live[a].r, live[b].r);
            let ok = s1 == &live[a].want[..] && s2 == &live[b].want[..];
            cx.check(ok, "two-slices", || format!("{}: borrowing {:?} and {:?} together", hist, live[a].r, live[b].r));
        }
    }
    cx.step();
}

fn histories<T: Elem>(cx: &mut Cx, cap: usize, align: usize, lens: &[u32], depth: usize) {
    let mut st: SliceStore<T> = if align == 0 { SliceStore::new(cap) } else { SliceStore::aligned(cap, align) };
    let al = if align == 0 { std::mem::align_of::<T>() } else { align };
    let mut live: Vec<Live<T>> = vec![];
    let mut seq = 0u64;
    let mut hist = String::new();
    for d in 0..depth {
        let na = lens.len();
        let k = cx.choose(na + 2 * live.len() + 2);
        if d == 1 && !cx.mine() { return; }
        if k < na {
            let v: T = fresh(&mut seq);
            let len = lens[k];
            let r = st.alloc_slice(len, v.clone());
            hist.push_str(&format!("alloc({})={:?} ", len, r));
            cx.check((r.1 - r.0) >= len, "too-short", || hist.clone());
            let n = (r.1 - r.0) as usize;
            let init = st.get_slice(r).iter().all(|x| *x == v);
            cx.check(init, "initial-contents", || format!("{}: contents after allocation", hist));
            let mut l = Live { r, want: vec![v; n] };
            // others must not be touched by the initialisation
            live.push(l.clone());
            check_store(cx, &mut st, &live, al, &hist);
            live.pop();
            for (i, x) in st.get_slice_mut(r).iter_mut().enumerate() { let w: T = fresh(&mut seq); *x = w.clone(); l.want[i] = w; }
            live.push(l);
        } else if k < na + live.len() {
            let l = live.remove(k - na);
            hist.push_str(&format!("free({:?}) ", l.r));
            st.free_slice(l.r);
        } else if k < na + 2 * live.len() {
            // a holder that only uses the front of its slice frees it by the shortened range
            let l = live.remove(k - na - live.len());
            let short = (l.r.0, l.r.0 + (l.r.1 - l.r.0 + 1) / 2);
            hist.push_str(&format!("free({:?} of {:?}) ", short, l.r));
            st.free_slice(short);
        } else if k == na + 2 * live.len() {
            st.reset();
            hist.push_str("reset ");
            live.clear();
        } else {
            let r = st.alloc_slice_default(lens[0] + 1);
            hist.push_str(&format!("alloc_default({})={:?} ", lens[0] + 1, r));
            let ok = st.get_slice(r).iter().all(|x| *x == T::default()) && r.1 - r.0 >= lens[0] + 1;
            cx.check(ok, "default-contents", || hist.clone());
            let want = st.get_slice(r).to_vec();
            live.push(Live { r, want });
        }
        check_store(cx, &mut st, &live, al, &hist);
        if cx.failed() { return; }
    }
    let mut h = H::new(7); h.n(cap).n(align);
    for l in &live { h.n(l.r.0 as usize).n(l.r.1 as usize); }
    let h = h.get();
    cx.state(h);
    cx.sample(|| hist.clone());
}

fn slices_f32(cx: &mut Cx) { let d = if cx.thorough() { 9 } else { 8 }; let c = cx.pick(&[1usize, 2, 16]); histories::<f32>(cx, c, 0, &[1, 5], d) }
fn slices_aligned(cx: &mut Cx) { let d = if cx.thorough() { 8 } else { 7 }; let c = cx.pick(&[1usize, 3, 64]); histories::<f32>(cx, c, 64, &[3, 16, 17], d) }
fn slices_u64(cx: &mut Cx) { let d = if cx.thorough() { 8 } else { 7 }; let (c, a) = cx.pick(&[(1usize, 0usize), (5, 32), (4, 8)]); histories::<u64>(cx, c, a, &[1, 4, 9], d) }
fn slices_u8(cx: &mut Cx) { let d = if cx.thorough() { 8 } else { 7 }; let (c, a) = cx.pick(&[(1usize, 0usize), (64, 64)]); histories::<u8>(cx, c, a, &[2, 70], d) }
fn slices_pair(cx: &mut Cx) { let d = if cx.thorough() { 8 } else { 7 }; let c = cx.pick(&[1usize, 8]); histories::<(u32, u32)>(cx, c, 0, &[1, 2, 7], d) }
fn slices_mixed(cx: &mut Cx) { let d = if cx.thorough() { 8 } else { 6 }; let (c, a) = cx.pick(&[(1usize, 0usize), (2, 64)]); histories::<(f32, u64)>(cx, c, a, &[1, 3, 6], d) }

/// Long first-fit histories: free lists with several candidates of different lengths.
fn free_lists(cx: &mut Cx) {
    let a = if cx.flag() { 64 } else { 0 };
    let lens: Vec<u32> = (0..5).map(|_| cx.pick(&[1u32, 4, 20])).collect();
    let free = cx.choose(32);
    let order = cx.flag();
    if !cx.mine() { return; }
    let reall: Vec<u32> = (0..3).map(|_| if cx.thorough() { cx.pick(&[1u32, 3, 4, 6, 20]) } else { cx.pick(&[3u32, 4, 20]) }).collect();
    let again = cx.choose(8);
    let mut st: SliceStore<u64> = if a == 0 { SliceStore::new(4) } else { SliceStore::aligned(4, a) };
    let al = if a == 0 { 8 } else { a };
    let mut seq = 0;
    let mut live: Vec<Live<u64>> = vec![];
    let mut put = |st: &mut SliceStore<u64>, live: &mut Vec<Live<u64>>, len: u32, cx: &mut Cx| {
        let v: u64 = fresh(&mut seq);
        let r = st.alloc_slice(len, v);
        let ok = r.1 - r.0 >= len && st.get_slice(r).iter().all(|x| *x == v);
        cx.check(ok, "initial-contents", || format!("alloc({}) = {:?}", len, r));
        let mut want = vec![];
        for x in st.get_slice_mut(r).iter_mut() { let w: u64 = fresh(&mut seq); *x = w; want.push(w); }
        live.push(Live { r, want });
    };
    for &l in &lens { put(&mut st, &mut live, l, cx); }
    let mut ids: Vec<usize> = (0..5).filter(|i| free >> i & 1 == 1).collect();
    let hist = format!("align {} alloc {:?} free {:?} (reversed: {}) alloc {:?} free {:b} alloc again", a, lens, ids, order, reall, again);
    if order { ids.reverse(); }
    for &i in &ids { st.free_slice(live[i].r); }
    ids.sort();
    for &i in ids.iter().rev() { live.remove(i); }
    check_store(cx, &mut st, &live, al, &hist);
    let base = live.len();
    for &l in &reall { put(&mut st, &mut live, l, cx); }
    check_store(cx, &mut st, &live, al, &hist);
    for i in (0..3).rev() { if again >> i & 1 == 1 { let l = live.remove(base + i); st.free_slice(l.r); } }
    for &l in reall.iter().rev() { put(&mut st, &mut live, l, cx); }
    check_store(cx, &mut st, &live, al, &hist);
    cx.sample(|| hist.clone());
    let mut h = H::new(8); h.n(a);
    for l in &live { h.n(l.r.0 as usize).n(l.r.1 as usize); }
    let h = h.get();
    cx.state(h);
}

// --------------------------------------------------------------------------------------------

/// Histogram sets: alloc, write, free, subtract, reset.
fn hists(cx: &mut Cx) {
    let layouts: [&[u32]; 8] = [&[4, 6, 16], &[1], &[0], &[], &[0, 3, 0], &[2, 0, 2], &[3000, 1], &[9000]];
    let lk = cx.choose(layouts.len());
    let lay = layouts[lk];
    let total: u32 = lay.iter().sum();
    let big = total > 100;
    let depth = if big { 5 } else if cx.thorough() { 9 } else { 8 };
    let mut st: HistStore<i64> = HistStore::new(lay.iter().cloned());
    let mut live: Vec<(SliceRange, Vec<i64>)> = vec![];
    let mut seq = 0i64;
    let mut hist = format!("layout {:?}: ", lay);
    for d in 0..depth {
        let n = live.len();
        let triples = if n >= 3 { n * (n - 1) * (n - 2) } else { 0 };
        let k = cx.choose(1 + n + triples.min(24) + 1);
        if d == 1 && !cx.mine() { return; }
        if k == 0 {
            let r = st.alloc_hists();
            hist.push_str(&format!("alloc={:?} ", r));
            let mut want = vec![];
            for f in 0..lay.len() {
                let h = st.get_hist(r, f).to_vec();
                cx.check(h.len() == lay[f] as usize, "hist-length", || format!("{} feature {} has {} bins", hist, f, h.len()));
                cx.check(h.iter().all(|x| *x == 0), "hist-initial", || hist.clone());
            }
            cx.check(live.iter().all(|l| l.0 != r), "hist-duplicate", || hist.clone());
            for f in 0..lay.len() {
                for x in st.get_hist_mut(r, f).iter_mut() { seq += 1; *x = seq * seq; want.push(*x); }
            }
            live.push((r, want));
        } else if k < 1 + n {
            let l = live.remove(k - 1);
            hist.push_str(&format!("free({:?}) ", l.0));
            st.free_hists(l.0);
        } else if k < 1 + n + triples.min(24) {
            let mut t = k - 1 - n;
            let p = t % n;
            t /= n;
            let mut rest: Vec<usize> = (0..n).filter(|&i| i != p).collect();
            let l = rest.remove(t % rest.len());
            t /= n - 1;
            let r = rest[t % rest.len()];
            hist.push_str(&format!("subtract({:?} - {:?} -> {:?}) ", live[p].0, live[l].0, live[r].0));
            st.hists_subtract(live[p].0, live[l].0, live[r].0);
            let diff: Vec<i64> = live[p].1.iter().zip(&live[l].1).map(|(a, b)| a - b).collect();
            live[r].1 = diff;
        } else {
            st.reset();
            hist.push_str("reset ");
            live.clear();
        }
        for (r, want) in &live {
            let mut o = 0;
            for f in 0..lay.len() {
                let h = st.get_hist(*r, f);
                let w = &want[o..o + lay[f] as usize];
                o += lay[f] as usize;
                let ok = h == w;
                cx.check(ok, "hist-contents", || format!("{}: histogram {} of {:?}", hist, f, r));
            }
            for (q, _) in &live { cx.check(q == r || q.1 <= r.0 || r.1 <= q.0, "hist-overlap", || hist.clone()); }
        }
        cx.step();
        if cx.failed() { return; }
    }
    cx.sample(|| hist.clone());
    let mut h = H::new(9); h.n(lk);
    for l in &live { h.n(l.0 .0 as usize); }
    let h = h.get();
    cx.state(h);
}

// --------------------------------------------------------------------------------------------

fn bit(seq: usize, i: usize) -> bool { ((i as u64 + 1).wrapping_mul(seq as u64 * 2 + 0x9E37_79B9_7F4A_7C15) >> 40) & 1 == 1 }

fn bits_of(st: &BitBlockStore, r: SliceRange) -> Vec<bool> {
    let v = st.get_bitvec(r);
    (0..(r.1 - r.0) as usize * 256).map(|i| v.get_bit(i)).collect()
}

/// Bit vectors of all construction kinds, with reuse of dirty memory.
fn bitblocks(cx: &mut Cx) {
    let cap = cx.pick(&[1usize, 4]);
    let depth = if cx.thorough() { 6 } else { 5 };
    let mut st = BitBlockStore::new(cap);
    let mut live: BTreeMap<usize, (SliceRange, Vec<bool>)> = BTreeMap::new();
    let mut hist = String::new();
    for d in 0..depth {
        let kinds = 11;
        let k = cx.choose(kinds + live.len() + 1);
        if d == 1 && !cx.mine() { return; }
        if k < kinds {
            let (name, r, want): (&str, SliceRange, Vec<bool>) = match k {
                0 => ("zero_blocks(2)", st.alloc_zero_blocks(2), vec![false; 512]),
                1 => ("zero_bits(257)", st.alloc_zero_bits(257), vec![false; 512]),
                2 => ("one_blocks(1)", st.alloc_one_blocks(1), vec![true; 256]),
                3 => ("one_bits(1)", st.alloc_one_bits(1), (0..256).map(|i| i < 1).collect()),
                4 => ("one_bits(192)", st.alloc_one_bits(192), (0..256).map(|i| i < 192).collect()),
                5 => ("one_bits(512)", st.alloc_one_bits(512), vec![true; 512]),
                6 => ("one_bits(449)", st.alloc_one_bits(449), (0..512).map(|i| i < 449).collect()),
                7 => { let v: Vec<u32> = (0..11).map(|i| (0..32).fold(0, |a, b| a | (bit(d, i * 32 + b) as u32) << b)).collect();
                       ("from_iter(11 u32)", st.alloc_from_iter(11, v.into_iter()), (0..512).map(|i| i < 352 && bit(d, i)).collect()) }
                8 => ("from_bits(300)", st.alloc_from_bits_iter(300, (0..300).map(|i| bit(d, i))), (0..512).map(|i| i < 300 && bit(d, i)).collect()),
                9 => ("zero_bitslice4(3)", st.alloc_zero_bitslice::<BitSliceLayout4>(3), vec![false; 1024]),
                _ => { let v: Vec<u8> = (0..5).map(|i| (0..8).fold(0, |a, b| a | (bit(d, i * 8 + b) as u8) << b)).collect();
                       ("from_iter(5 u8)", st.alloc_from_iter(5, v.into_iter()), (0..256).map(|i| i < 40 && bit(d, i)).collect()) }
            };
            hist.push_str(&format!("{}={:?} ", name, r));
            let got = bits_of(&st, r);
            let ok = got == want;
            cx.check(ok, "bits-initial", || format!("{}: got bits {:?}, expected {:?}", hist,
                (0..got.len()).filter(|&i| got[i]).collect::<Vec<_>>(), (0..want.len()).filter(|&i| want[i]).collect::<Vec<_>>()));
            let ptr = st.get_bitvec(r).as_ptr() as usize;
            cx.check(ptr % 32 == 0, "bits-alignment", || hist.clone());
            for (_, (q, _)) in &live { cx.check(q.1 <= r.0 || r.1 <= q.0, "bits-overlap", || hist.clone()); }
            // overwrite with a pattern of this step
            let mut want = want;
            let n = want.len();
            for i in (0..n).step_by(3) {
                let b = bit(d + 100, i);
                st.get_bitvec_mut(r).set_bit(i, b);
                want[i] = b;
            }
            live.insert(d, (r, want));
        } else if k < kinds + live.len() {
            let key = *live.keys().nth(k - kinds).unwrap();
            let (r, _) = live.remove(&key).unwrap();
            hist.push_str(&format!("free({:?}) ", r));
            st.free_blocks(r);
        } else {
            hist.push_str("reset ");
            st.reset();
            live.clear();
        }
        for (_, (r, want)) in &live {
            let ok = bits_of(&st, *r) == *want;
            cx.check(ok, "bits-contents", || format!("{}: {:?} changed", hist, r));
        }
        let rs: Vec<SliceRange> = live.values().map(|l| l.0).collect();
        for a in 0..rs.len() {
            for b in 0..rs.len() {
                if a == b { continue; }
                let pa = st.get_bitvec(rs[a]).as_ptr() as usize;
                let pb = st.get_bitvec(rs[b]).as_ptr() as usize;
                let (x, y) = st.get_two_bitvecs_mut(rs[a], rs[b]);
                let ok = x.as_ptr() as usize == pa && y.as_ptr() as usize == pb
                    && x.len() == (rs[a].1 - rs[a].0) as usize && y.len() == (rs[b].1 - rs[b].0) as usize;
                cx.check(ok, "two-bitvecs", || format!("{}: {:?} {:?}", hist, rs[a], rs[b]));
                let (x, y) = st.get_two_bitslices_mut::<BitSliceLayout1>(rs[a], rs[b]);
                let ok = x.as_ptr() as usize == pa && y.as_ptr() as usize == pb
                    && x.len() == (rs[a].1 - rs[a].0) as usize && y.len() == (rs[b].1 - rs[b].0) as usize;
                cx.check(ok, "two-bitslices", || format!("{}: {:?} {:?}", hist, rs[a], rs[b]));
            }
        }
        cx.step();
        if cx.failed() { return; }
    }
    cx.sample(|| hist.clone());
    let mut h = H::new(10); h.n(cap);
    for (k, l) in &live { h.n(*k).n(l.0 .0 as usize).n(l.0 .1 as usize); }
    let h = h.get();
    cx.state(h);
}

/// All-ones vectors of every length, in fresh and in reused dirty memory; constructions of every length.
fn lengths(cx: &mut Cx) {
    let n = 1 + cx.choose(if cx.thorough() { 2100 } else { 1100 });
    let dirty = cx.flag();
    if !cx.mine() { return; }
    let mut st = BitBlockStore::new(1);
    let nb = (n + 255) / 256;
    for kind in 0..5 {
        if dirty { let r = st.alloc_one_blocks(nb + 1); st.free_blocks(r); }
        let (r, want): (SliceRange, Vec<bool>) = match kind {
            0 => (st.alloc_one_bits(n), (0..nb * 256).map(|i| i < n).collect()),
            1 => (st.alloc_zero_bits(n), vec![false; nb * 256]),
            2 => (st.alloc_from_bits_iter(n, (0..n).map(|i| bit(n, i))), (0..nb * 256).map(|i| i < n && bit(n, i)).collect()),
            3 => { let m = (n + 15) / 16; let v: Vec<u16> = (0..m).map(|i| (0..16).fold(0, |a, b| a | (bit(n, i * 16 + b) as u16) << b)).collect();
                   (st.alloc_from_iter(m, v.into_iter()), (0..(m * 16 + 255) / 256 * 256).map(|i| i < m * 16 && bit(n, i)).collect()) }
            _ => { let m = (n + 63) / 64; let v: Vec<u64> = (0..m).map(|i| (0..64).fold(0, |a, b| a | (bit(n, i * 64 + b) as u64) << b)).collect();
                   (st.alloc_from_iter(m, v.into_iter()), (0..(m * 64 + 255) / 256 * 256).map(|i| i < m * 64 && bit(n, i)).collect()) }
        };
        let got = bits_of(&st, r);
        let ok = got == want;
        cx.check(ok, "construction", || format!("kind {} n {} dirty {}", kind, n, dirty));
        cx.step();
        st.free_blocks(r);
    }
    cx.state(H::new(11).n(n).get());
}

/// Contents and disjointness of many slices (checked in one pass over the sorted ranges).
fn check_many<T: Elem>(cx: &mut Cx, st: &SliceStore<T>, live: &[Live<T>], align: usize, hist: &str) -> bool {
    let mut rs: Vec<SliceRange> = live.iter().map(|l| l.r).collect();
    rs.sort();
    for w in rs.windows(2) {
        if !cx.check(w[0].1 <= w[1].0, "overlap", || format!("{}: {:?} and {:?} are both live", hist, w[0], w[1])) { return false; }
    }
    for (a, l) in live.iter().enumerate() {
        let got = st.get_slice(l.r);
        if !cx.check(got == &l.want[..], "contents", || format!("{}: slice {} {:?} lost its contents", hist, a, l.r)) { return false; }
        if !cx.check(got.as_ptr() as usize % align == 0, "alignment", || format!("{}: slice {} {:?} is not aligned to {} bytes", hist, a, l.r, align)) { return false; }
    }
    cx.step();
    true
}

/// Many slices at once, freed in many patterns, allocated again with and without a reset between.
fn many_of<T: Elem>(cx: &mut Cx, cap: usize, align: usize, n: usize, sizes: usize, frees: usize, between: usize) {
    let mut st: SliceStore<T> = if align == 0 { SliceStore::new(cap) } else { SliceStore::aligned(cap, align) };
    let al = if align == 0 { std::mem::align_of::<T>() } else { align };
    let mut seq = 0u64;
    let mut live: Vec<Live<T>> = vec![];
    let len = |round: usize, i: usize| -> u32 {
        (match (sizes + round) % 5 { 0 => 4, 1 => 1 + i % 7, 2 => 1 + (n - i) % 13, 3 => 1 + (i * 37 + round) % 19, _ => if i % 5 == 0 { 40 } else { 2 } }) as u32
    };
    let hist = format!("capacity {} align {} {} slices, size pattern {} free pattern {} then {}", cap, align, n, sizes, frees, ["go on", "reset", "free the rest and reset"][between]);
    for round in 0..4 {
        for i in 0..n {
            let v: T = fresh(&mut seq);
            let want_len = len(round, i);
            let r = st.alloc_slice(want_len, v.clone());
            let at = || format!("{}: round {}, alloc {} of {} = {:?}", hist, round, i, want_len, r);
            if !cx.check(r.1 >= r.0 + want_len, "too-short", at) { return; }
            let init = st.get_slice(r).iter().all(|x| *x == v);
            if !cx.check(init, "initial-contents", at) { return; }
            let mut want = vec![];
            for x in st.get_slice_mut(r).iter_mut() { let w: T = fresh(&mut seq); *x = w.clone(); want.push(w); }
            live.push(Live { r, want });
        }
        if !check_many(cx, &st, &live, al, &hist) { return; }
        let m = live.len();
        let gone = |i: usize| match frees { 0 => false, 1 => i % 2 == 0, 2 => i % 3 != 1, 3 => i < m / 2, 4 => i >= m / 2, 5 => true, _ => i * i % 7 < 3 };
        let mut order: Vec<usize> = (0..m).filter(|&i| gone(i)).collect();
        if round % 2 == 1 { order.reverse(); }
        for &i in &order { st.free_slice(live[i].r); }
        let mut i = 0;
        live.retain(|_| { i += 1; !gone(i - 1) });
        if !check_many(cx, &st, &live, al, &hist) { return; }
        if between == 2 { for l in &live { st.free_slice(l.r); } }
        if between > 0 { st.reset(); live.clear(); }
    }
    let mut h = H::new(12); h.n(cap).n(align).n(n).n(sizes).n(frees).n(between);
    for l in live.iter().take(50) { h.n(l.r.0 as usize).n(l.r.1 as usize); }
    let h = h.get();
    cx.state(h);
}

fn many(cx: &mut Cx) {
    let ns: Vec<usize> = if cx.thorough() { (1..=140).chain([255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2050, 4100]).collect() }
        else { vec![2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025] };
    let n = cx.pick(&ns);
    let sizes = cx.choose(5);
    let frees = cx.choose(7);
    let between = cx.choose(3);
    let (cap, align) = cx.pick(&[(1usize, 0usize), (64, 64), (5000, 0)]);
    if !cx.mine() { return; }
    match n % 3 { 0 => many_of::<f32>(cx, cap, align, n, sizes, frees, between), 1 => many_of::<u64>(cx, cap, align, n, sizes, frees, between), _ => many_of::<(u32, u32)>(cx, cap, align, n, sizes, frees, between) }
}

/// Many histogram sets: the store grows often; sets freed in many orders.
fn many_hists(cx: &mut Cx) {
    let layouts: [&[u32]; 4] = [&[4, 6, 16], &[100, 1], &[1], &[512, 512, 3]];
    let lay = cx.pick(&layouts);
    let n = cx.pick(if cx.thorough() { &[1usize, 2, 3, 5, 8, 13, 21, 34, 64, 65, 100, 128, 129, 300, 500] } else { &[1usize, 2, 5, 17, 33, 65, 129, 200] });
    let frees = cx.choose(5);
    let reset = cx.flag();
    if !cx.mine() { return; }
    let mut st: HistStore<i64> = HistStore::new(lay.iter().cloned());
    let mut live: Vec<(SliceRange, Vec<i64>)> = vec![];
    let mut seq = 0i64;
    let hist = format!("layout {:?} {} sets free pattern {} reset {}", lay, n, frees, reset);
    for round in 0..4 {
        for i in 0..n {
            let r = st.alloc_hists();
            let zero = (0..lay.len()).all(|f| st.get_hist(r, f).len() == lay[f] as usize && st.get_hist(r, f).iter().all(|x| *x == 0));
            if !cx.check(zero, "hist-initial", || format!("{}: round {} set {} = {:?}", hist, round, i, r)) { return; }
            let mut want = vec![];
            for f in 0..lay.len() { for x in st.get_hist_mut(r, f).iter_mut() { seq += 1; *x = seq * 3; want.push(*x); } }
            live.push((r, want));
        }
        // the last three: parent minus left
        if live.len() >= 3 {
            let m = live.len();
            st.hists_subtract(live[m - 1].0, live[m - 2].0, live[m - 3].0);
            let diff: Vec<i64> = live[m - 1].1.iter().zip(&live[m - 2].1).map(|(a, b)| a - b).collect();
            live[m - 3].1 = diff;
        }
        for _ in 0..2 {
            for (r, want) in &live {
                let mut o = 0;
                for f in 0..lay.len() {
                    let ok = st.get_hist(*r, f) == &want[o..o + lay[f] as usize];
                    o += lay[f] as usize;
                    if !cx.check(ok, "hist-contents", || format!("{}: round {} histogram {} of {:?}", hist, round, f, r)) { return; }
                }
            }
            cx.step();
            let m = live.len();
            let gone = |i: usize| match frees { 0 => i % 2 == 0, 1 => i < m / 2, 2 => i > m / 2, 3 => i % 3 == 0, _ => true };
            for i in 0..m { if gone(i) { st.free_hists(live[i].0); } }
            let mut i = 0;
            live.retain(|_| { i += 1; !gone(i - 1) });
        }
        if reset { st.reset(); live.clear(); }
    }
    let mut h = H::new(13); h.n(n).n(frees).n(reset as usize).n(lay.len());
    let h = h.get();
    cx.state(h);
}

/// Requests of very different lengths, from a few elements to millions, in every order.
fn huge(cx: &mut Cx) {
    let all: &[u32] = if cx.thorough() { &[1, 100, 65_535, 65_537, 131_073, 200_003, 1_048_575, 1_048_577, 3_000_001] } else { &[1, 100, 65_535, 65_537, 200_003, 1_048_577] };
    let kind = cx.choose(3);
    let cap = cx.pick(&[1usize, 4096, 100_001]);
    let k = 3;
    let lens: Vec<u32> = (0..k).map(|_| cx.pick(all)).collect();
    let free = cx.flag(); // the first one before the last
    if !cx.mine() { return; }
    fn go<T: Elem>(cx: &mut Cx, mut st: SliceStore<T>, align: usize, lens: &[u32], free: bool, hist: &str) {
        let mut seq = 0u64;
        let mut live: Vec<(SliceRange, u64, T)> = vec![];
        for (i, &n) in lens.iter().enumerate() {
            if free && i + 1 == lens.len() { let l = live.remove(0); st.free_slice(l.0); }
            let v: T = fresh(&mut seq);
            let r = st.alloc_slice(n, v.clone());
            if !cx.check(r.1 - r.0 >= n, "too-short", || format!("{}: {:?} for {}", hist, r, n)) { return; }
            // the memory up to the end belongs to the store: the slice lies within its buffer
            let res = cx.guard(|| st.get_slice(r).iter().all(|x| *x == v));
            if !cx.check(res.as_ref().ok() == Some(&true), "initial-contents", || format!("{}: slice {} {:?}: {:?}", hist, i, r, res)) { return; }
            cx.check(st.get_slice(r).as_ptr() as usize % align == 0, "alignment", || hist.to_string());
            for (q, at, w) in &live {
                if !cx.check(q.1 <= r.0 || r.1 <= q.0, "overlap", || format!("{}: {:?} {:?}", hist, q, r)) { return; }
                let s = st.get_slice(*q);
                let ok = s.iter().enumerate().all(|(i, x)| *x == if i as u64 == *at { T::make(u32::max_value() as u64) } else { w.clone() });
                if !cx.check(ok, "contents", || format!("{}: {:?} changed", hist, q)) { return; }
            }
            // mark the last element
            let at = r.1 - r.0 - 1;
            st.get_slice_mut(r)[at as usize] = T::make(u32::max_value() as u64);
            live.push((r, at as u64, v));
            cx.step();
        }
        let mut h = H::new(14);
        for l in &live { h.n(l.0 .0 as usize).n(l.0 .1 as usize); }
        let h = h.get();
        cx.state(h);
    }
    let hist = format!("kind {} capacity {} requests {:?}{}", kind, cap, lens, if free { ", the first is freed before the last" } else { "" });
    match kind {
        0 => go::<f32>(cx, SliceStore::new(cap), 4, &lens, free, &hist),
        1 => go::<(f32, u64)>(cx, SliceStore::new(cap), 8, &lens, free, &hist),
        _ => go::<u8>(cx, SliceStore::aligned(cap, 64), 64, &lens, free, &hist),
    }
}

fn main() {
    mc::main(&[("huge", huge), ("many", many), ("many_hists", many_hists), ("free_lists", free_lists), ("slices_f32", slices_f32), ("slices_aligned", slices_aligned), ("slices_u64", slices_u64),
        ("slices_u8", slices_u8), ("slices_pair", slices_pair), ("slices_mixed", slices_mixed), ("hists", hists), ("bitblocks", bitblocks), ("lengths", lengths)]);
}
