//! P20: tree and ensemble evaluation follow their definition.
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::tree::{AdditiveTree, SplitCrit, SplitType, Tree};
use mc::*;

const NUMS: [f32; 6] = [0.0, 0.5, -1.0, 1.0, 0.50000006, -0.0];
const SUPER: usize = 3; // categories the trees know

#[derive(Clone, Debug)]
struct Crit { feat: usize, kind: u8, val: f32 } // kind 0 num, 1 category, 2 category group

fn crit(cx: &mut Cx) -> Crit {
    let kind = cx.choose(3) as u8;
    match kind {
        0 => Crit { feat: cx.choose(2) * 3, kind, val: cx.pick(&NUMS) },
        1 => Crit { feat: 1, kind, val: cx.choose(4) as f32 },
        _ => Crit { feat: 2, kind, val: cx.choose(SUPER) as f32 },
    }
}

fn real(c: &Crit) -> SplitCrit {
    let split_type = match c.kind { 0 => SplitType::NumLt, 1 => SplitType::LoCardCatEq, _ => SplitType::HiCardCatLt };
    SplitCrit { split_type, feature_id: c.feat, split_value: c.val }
}

fn left(c: &Crit, supers: &[u32], row: &[f32; 4]) -> bool {
    let v = row[c.feat];
    match c.kind {
        0 => v < c.val,
        1 => v == c.val,
        _ => { let k = v as usize; k < supers.len() && supers[k] as f32 <= c.val }
    }
}

/// Data with all combinations of interesting values: columns num, locard, hicard, num, target.
fn rows() -> Vec<[f32; 4]> {
    let mut r = vec![];
    for &a in &NUMS { for b in 0..5 { for c in 0..6 { r.push([a, b as f32, c as f32, NUMS[(b + c) % 6]]); } } }
    r
}

fn data(rows: &[[f32; 4]]) -> Data {
    let c = Config::new();
    let mut d = Data::empty(&c, 4, rows.len());
    for f in 0..4 {
        let col: Vec<f32> = rows.iter().map(|r| r[f]).collect();
        d.set_feature_data(f, &col, f == 1 || f == 2).unwrap();
    }
    d
}

/// Reference tree: heap numbered.
#[derive(Clone)]
struct Ref { crit: Vec<Option<Crit>>, value: Vec<f32> }
impl Ref {
    fn new(depth: usize) -> Ref { let n = (1 << (depth + 1)) - 1; Ref { crit: vec![None; n], value: vec![0.0; n] } }
    fn leaf(&self, supers: &[u32], row: &[f32; 4]) -> usize {
        let mut i = 0;
        while let Some(c) = &self.crit[i] { i = if left(c, supers, row) { 2 * i + 1 } else { 2 * i + 2 }; }
        i
    }
}

/// All trees of depth <= 2 with all criteria of the alphabet (quick: fewer for the right child).
fn routing(cx: &mut Cx) {
    let depth = 1 + cx.choose(2);
    let supers: Vec<u32> = (0..SUPER).map(|_| cx.choose(3) as u32).collect();
    let mut r = Ref::new(depth);
    let c0 = crit(cx);
    r.crit[0] = Some(c0);
    if depth == 2 {
        let shape = cx.choose(3); // which children are split
        if shape != 1 { r.crit[1] = Some(crit(cx)); }
        if shape == 1 { r.crit[2] = Some(crit(cx)); }
        if shape == 2 { r.crit[2] = Some(Crit { feat: 0, kind: 0, val: 0.5 }); }
    }
    if !cx.mine() { return; }
    let n = r.value.len();
    for i in 0..n { r.value[i] = if r.crit[i].is_none() { 1.5 + i as f32 } else { 0.0 }; }
    let mut sc = vec![vec![]; 4];
    sc[2] = supers.clone();
    let mut t = Tree::new(depth, sc);
    for i in 0..n { if let Some(c) = &r.crit[i] { t.split_node(i, real(c)); } }
    for i in 0..n { if r.crit[i].is_none() { t.set_value(i, r.value[i]); } }
    let rows = rows();
    let d = data(&rows);
    let got = t.predict(&d);
    let mut buf = vec![7.0; rows.len()];
    t.predict_buf(&d, &mut buf);
    cx.state(H::new(1).s(&format!("{:?}{:?}", r.crit, supers)).get());
    for (i, row) in rows.iter().enumerate() {
        let want = r.value[r.leaf(&supers, row)];
        cx.step();
        let one = t.predict_single(&d, i);
        cx.check(got[i] == want && one == want && buf[i] == want, "routing",
                 || format!("criteria {:?} groups {:?} row {:?}: predict {} single {} buf {}, not {}", r.crit, supers, row, got[i], one, buf[i], want));
    }
    let ni = r.crit.iter().filter(|c| c.is_some()).count();
    cx.check(t.ninternal() == ni && t.nleafs() == ni + 1 && t.nnodes() == 2 * ni + 1, "counts",
             || format!("{} internal nodes: ninternal {} nleafs {} nnodes {}", ni, t.ninternal(), t.nleafs(), t.nnodes()));
    for sc in 0..SUPER { cx.check(t.get_supercat(2, sc) == supers[sc], "get-supercat", || format!("group of {}", sc)); }
    cx.sample(|| format!("{:?} groups {:?}", r.crit, supers));
}

/// Histories of split_node / set_value calls on a tree, legal and illegal ones.
fn accounting(cx: &mut Cx) {
    let depth = 1 + cx.choose(3);
    let nops = if cx.thorough() { 6 } else { 5 };
    let mut r = Ref::new(depth);
    let n = r.value.len();
    let mut t = Tree::new(depth, vec![vec![]; 4]);
    let mut hist = vec![];
    cx.check(t.max_depth() == depth && t.max_nleafs() == 1 << depth && t.max_ninternal() == (1 << depth) - 1 && t.max_nnodes() == (1 << (depth + 1)) - 1,
             "limits", || format!("depth {}: {} {} {} {}", depth, t.max_depth(), t.max_nleafs(), t.max_ninternal(), t.max_nnodes()));
    let c = Crit { feat: 0, kind: 0, val: 0.5 };
    let d = data(&rows());
    for step in 0..nops {
        // nodes of the current tree
        let nodes: Vec<usize> = (0..n).filter(|&i| i == 0 || r.crit[(i - 1) / 2].is_some()).collect();
        let op = cx.choose(5);
        let node = if op < 4 { cx.pick(&nodes) } else { 0 };
        if step == 1 && !cx.mine() { return; }
        match op {
            0 => {
                let legal = r.crit[node].is_none() && node < (1 << depth) - 1;
                let cr = c.clone();
                let res = cx.guard(|| t.split_node(node, real(&cr)));
                cx.check(res.is_ok() == legal, "split-legality", || format!("history {:?}: splitting node {} {:?}", hist, node, res));
                if legal { r.crit[node] = Some(c.clone()); }
            }
            1 => {
                let res = cx.guard(|| t.split_node(node, SplitCrit::no_split()));
                cx.check(res.is_err(), "no-split-accepted", || format!("history {:?}: node {} split by 'no split'", hist, node));
            }
            2 => { let v = 2.0 + step as f32; t.set_value(node, v); r.value[node] = v; }
            3 => {
                let v = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY][step % 3];
                let res = cx.guard(|| t.set_value(node, v));
                cx.check(res.is_err(), "non-finite-accepted", || format!("history {:?}: node {} value {}", hist, node, v));
            }
            _ => { let u = t.clone(); t = u; }
        }
        hist.push((op, node));
        cx.step();
        let ni = r.crit.iter().filter(|c| c.is_some()).count();
        cx.check(t.ninternal() == ni && t.nleafs() == ni + 1 && t.nnodes() == 2 * ni + 1, "counts",
                 || format!("history {:?}: ninternal {} nleafs {} nnodes {}", hist, t.ninternal(), t.nleafs(), t.nnodes()));
        for i in 0..n {
            cx.check(t.node_value(i) == r.value[i], "node-value", || format!("history {:?}: node {} has value {}", hist, i, t.node_value(i)));
            cx.check(t.is_max_leaf_node(i) == (i >= (1 << depth) - 1), "max-leaf", || format!("depth {} node {}", depth, i));
            cx.check(t.left_child(i) == 2 * i + 1 && t.right_child(i) == 2 * i + 2 && t.parent(t.left_child(i)) == i && t.parent(t.right_child(i)) == i,
                     "numbering", || format!("children of {}", i));
        }
        for (row, i) in [([0.0f32, 0.0, 0.0, 0.0], 0usize), ([1.0, 0.0, 0.0, 0.0], 3 * 30)] {
            let got = t.predict_single(&d, i);
            let want = r.value[r.leaf(&[], &row)];
            cx.check(got == want, "history-prediction", || format!("history {:?}: row {:?} scored {} not {}", hist, row, got, want));
        }
        cx.state(H::new(2).n(depth).s(&format!("{:?}", r.crit.iter().map(|c| c.is_some()).collect::<Vec<_>>())).fs(&r.value).get());
    }
}

/// Ensembles: bias plus trees, each with its shrinkage and bias, all exact dyadic numbers.
fn ensemble(cx: &mut Cx) {
    let nt = cx.choose(if cx.thorough() { 5 } else { 4 });
    let bias = cx.pick(&[0.0f32, 1.25, -3.5]);
    let mut specs = vec![];
    for _ in 0..nt { specs.push((cx.pick(&[0.0f32, 0.5, 2.0]), cx.pick(&[1.0f32, 0.5, 0.25]), cx.pick(&[0.0f32, -1.5]), cx.choose(4))); }
    if !cx.mine() { return; }
    let rows = rows();
    let d = data(&rows);
    let mut a = AdditiveTree::new();
    let order = cx.choose(2);
    if order == 0 { a.set_bias(bias); }
    let mut want = vec![bias; rows.len()];
    for (k, &(v, s, b, shape)) in specs.iter().enumerate() {
        // shape: one split, one split of two possible, never split, two equal leaves
        let mut t = Tree::new(1 + shape % 2, vec![vec![]; 4]);
        let c = Crit { feat: (k % 2) * 3, kind: 0, val: NUMS[k % 6] };
        let vals = if shape < 2 { [v, v - 4.0] } else { [v, v] };
        if shape == 2 { t.set_value(0, v); } else {
            t.split_node(0, real(&c));
            t.set_value(1, vals[0]);
            t.set_value(2, vals[1]);
        }
        if s != 1.0 { t.set_shrinkage(s); if shape == 1 { t.set_shrinkage(0.5); } }
        t.set_bias(b);
        let s = if s != 1.0 && shape == 1 { s * 0.5 } else { s };
        let single = t.predict(&d);
        for (i, r) in rows.iter().enumerate() {
            let x = s * ((if left(&c, &[], r) { vals[0] } else { vals[1] }) + b);
            cx.check(single[i] == x, "tree-score", || format!("leaf {:?} shrinkage {} bias {}: {} not {}", vals, s, b, single[i], x));
            want[i] += x;
        }
        a.push_tree(t);
    }
    if order == 1 { a.set_bias(bias); }
    let got = a.predict(&d);
    let mut buf = vec![99.0; rows.len()];
    a.predict_buf(&d, &mut buf);
    let b2 = a.clone().predict(&d);
    cx.state(H::new(3).f(bias).s(&format!("{:?}", specs)).get());
    for i in 0..rows.len() {
        cx.step();
        cx.check(got[i] == want[i] && buf[i] == want[i] && b2[i] == want[i], "ensemble-score",
                 || format!("bias {} trees {:?} row {:?}: {} {} {} not {}", bias, specs, rows[i], got[i], buf[i], b2[i], want[i]));
    }
    cx.sample(|| format!("bias {} trees (value, shrinkage, bias, depth-1) {:?}", bias, specs));
}

/// Numbers of rows and trees around every size that code may treat in pieces.
fn sizes(cx: &mut Cx) {
    let ns: Vec<usize> = if cx.thorough() { (0..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 65535, 65536, 65537, 100_000]).collect() }
        else { (0..=70).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 8193, 65537]).collect() };
    let n = cx.pick(&ns);
    let nt = cx.pick(&[0usize, 1, 2, 3, 7, 8, 9, 31, 32, 33, 64, 65, 100, 257, 66_000]);
    let depth = cx.pick(&[1usize, 2, 5]);
    if nt > 300 && n > 8 { cx.discard(); return; }
    if n * nt > 4_000_000 { cx.discard(); return; }
    if n == 0 { cx.discard(); return; }
    if !cx.mine() { return; }
    let all = rows();
    let rows: Vec<[f32; 4]> = (0..n).map(|i| all[(i * 7 + i / 180) % all.len()]).collect();
    let d = data(&rows);
    let mut a = AdditiveTree::new();
    a.set_bias(0.5);
    let mut want = vec![0.5f32; n];
    for k in 0..nt {
        let mut t = Tree::new(depth, vec![vec![]; 4]);
        let mut r = Ref::new(depth);
        // a chain of splits, alternating sides
        let mut node = 0;
        for l in 0..depth {
            let c = if (k + l) % 3 == 1 { Crit { feat: 1, kind: 1, val: (k % 4) as f32 } } else { Crit { feat: (k + l) % 2 * 3, kind: 0, val: NUMS[(k + l) % 6] } };
            t.split_node(node, real(&c));
            r.crit[node] = Some(c);
            let (go, stay) = if (k + l) % 2 == 0 { (2 * node + 1, 2 * node + 2) } else { (2 * node + 2, 2 * node + 1) };
            r.value[stay] = (k % 8) as f32 * 0.25 - l as f32;
            t.set_value(stay, r.value[stay]);
            node = go;
        }
        r.value[node] = k as f32 % 16.0;
        t.set_value(node, r.value[node]);
        let s = [1.0f32, 0.5, 0.25][k % 3];
        t.set_shrinkage(s);
        for i in 0..n { want[i] += s * r.value[r.leaf(&[], &rows[i])]; }
        if k < 2 {
            let mut buf = vec![3.0; n];
            t.predict_buf(&d, &mut buf);
            let ok = (0..n).all(|i| buf[i] == s * r.value[r.leaf(&[], &rows[i])]);
            cx.check(ok, "tree-size", || format!("{} rows, tree {} of depth {}", n, k, depth));
        }
        a.push_tree(t);
    }
    let got = a.predict(&d);
    let mut buf = vec![99.0; n];
    a.predict_buf(&d, &mut buf);
    cx.steps(n);
    let bad = (0..n).find(|&i| got.get(i) != Some(&want[i]) || buf[i] != want[i]);
    cx.check(bad.is_none() && got.len() == n, "ensemble-size", || format!("{} rows, {} trees of depth {}: {} scores, row {:?} is {:?} instead of {:?}", n, nt, depth, got.len(), bad, bad.map(|i| (got.get(i), buf[i])), bad.map(|i| want[i])));
    cx.state(H::new(5).n(n).n(nt).n(depth).get());
}

/// A chain of splits down to every depth: only the last one may be refused.
fn deep(cx: &mut Cx) {
    let depth = cx.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 16, 17, 18, 20]);
    let side = if depth <= 6 { cx.choose(1 << depth) } else { cx.pick(&[0usize, 1, 2, 3, 63, 62, 42]) };
    if !cx.mine() { return; }
    let mut t = Tree::new(depth, vec![vec![]; 4]);
    let mut node = 0;
    let c = Crit { feat: 0, kind: 0, val: 0.5 };
    let mut leaves = vec![];
    for k in 0..depth {
        t.split_node(node, real(&c));
        cx.step();
        let (l, r) = (t.left_child(node), t.right_child(node));
        let (go, stay) = if side >> (k % 6) & 1 == 0 { (l, r) } else { (r, l) };
        t.set_value(stay, 10.0 + k as f32);
        leaves.push(stay);
        node = go;
        cx.check(t.is_max_leaf_node(node) == (k + 1 == depth), "max-leaf", || format!("depth {} level {}", depth, k + 1));
    }
    t.set_value(node, 5.0);
    let res = cx.guard(|| t.split_node(node, real(&c)));
    cx.check(res.is_err(), "too-deep", || format!("split below the maximal depth {} accepted", depth));
    cx.check(t.nleafs() == depth + 1 && t.nnodes() == 2 * depth + 1, "counts", || format!("chain of {}", depth));
    cx.state(H::new(4).n(depth).n(side).get());
    let d = data(&rows());
    for (i, v) in [(0usize, 0.0f32), (90, 1.0)] {
        let mut k = 0;
        // follow the single path
        let want = loop {
            if k == depth { break 5.0; }
            let go_left = side >> (k % 6) & 1 == 0;
            if (v < 0.5) != go_left { break 10.0 + k as f32; }
            k += 1;
        };
        let got = t.predict_single(&d, i);
        cx.check(got == want, "deep-score", || format!("depth {} path {:b}: {} not {}", depth, side, got, want));
    }
}

/// Categories, groups, thresholds and feature numbers far beyond the small ones of `routing`.
fn wide(cx: &mut Cx) {
    const CATS: [u32; 19] = [0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 4095, 4096, 32768, 65535];
    const VALS: [f32; 24] = [0.0, 1.0, -1.0, 255.0, 256.0, 257.0, 511.0, 512.0, -256.0, 65535.0, 65536.0, 16777216.0, 16777217.0, 16777218.0, 1e-45, -1e-45, 1e-38, 3e38, -3e38, 2147483648.0, 4294967296.0, 0.1, 0.100000024, 1e15];
    let kind = cx.choose(3);
    let nfeat = cx.pick(&[1usize, 2, 3, 65, 257, 300, 66_001]);
    let feat = cx.choose(4) * (nfeat - 1) / 3;
    if nfeat > 300 && !cx.thorough() && feat == 0 { cx.discard(); return; }
    let split = match kind { 0 => cx.pick(&VALS), 1 => cx.pick(&CATS) as f32, _ => cx.pick(&[0u32, 1, 2, 15, 255, 256, 300]) as f32 };
    // category -> group of the third kind, for `known` categories
    let known = if kind == 2 { cx.pick(&[1usize, 3, 256, 257, 300, 4097, 65536]) } else { 0 };
    let map = if kind == 2 { cx.choose(3) } else { 0 };
    if kind == 2 && split as usize >= known { cx.discard(); return; } // a trained tree splits on a group that exists
    if !cx.mine() { return; }
    let supers: Vec<u32> = (0..known).map(|c| match map { 0 => c as u32 % 300, 1 => 299 - c as u32 % 300, _ => (c * 7 % 11) as u32 }).collect();
    let vals: Vec<f32> = if kind == 0 { VALS.to_vec() } else { CATS.iter().map(|&c| c as f32).collect() };
    let c = Config::new();
    let mut d = Data::empty(&c, nfeat, vals.len());
    for f in 0..nfeat {
        let col: Vec<f32> = (0..vals.len()).map(|i| if f == feat { vals[i] } else { vals[(i + 1 + f % 5) % vals.len()] }).collect();
        d.set_feature_data(f, &col, kind != 0).unwrap();
    }
    let mut sc = vec![vec![]; nfeat];
    if kind == 2 { sc[feat] = supers.clone(); }
    let mut t = Tree::new(1, sc);
    t.split_node(0, real(&Crit { feat, kind: kind as u8, val: split }));
    t.set_value(1, 1.0);
    t.set_value(2, 2.0);
    let got = t.predict(&d);
    let mut a = AdditiveTree::new();
    a.push_tree(t.clone());
    let all = a.predict(&d);
    for i in 0..vals.len() {
        let v = vals[i];
        let left = match kind { 0 => v < split, 1 => v == split, _ => (v as usize) < known && supers[v as usize] as f32 <= split };
        let want = if left { 1.0 } else { 2.0 };
        let one = t.predict_single(&d, i);
        cx.step();
        cx.check(got[i] == want && one == want && all[i] == want, "wide-routing",
                 || format!("kind {} feature {} of {} split {} value {} ({} known, map {}): {} {} {} not {}", kind, feat, nfeat, split, v, known, map, got[i], one, all[i], want));
    }
    if kind == 2 { for k in 0..known { cx.check(t.get_supercat(feat, k) == supers[k], "get-supercat", || format!("group of {}", k)); } }
    cx.state(H::new(6).n(kind).n(nfeat).n(feat).f(split).n(known).n(map).get());
}

fn main() { mc::main(&[("wide", wide), ("routing", routing), ("accounting", accounting), ("ensemble", ensemble), ("sizes", sizes), ("deep", deep)]); }
