//! P14: column-wise loading equals CSV loading; the last write of a column wins.
use bitboost::config::Config;
use bitboost::data::Data;
use mc::train::*;
use mc::*;

fn csv_of(c: &mut Config, cols: &[(Vec<f32>, bool)], n: usize) -> String {
    c.csv_has_header = true;
    c.categorical_features = (0..cols.len()).filter(|&j| cols[j].1).collect();
    let mut s = (0..cols.len()).map(|j| format!("feat{:04}", j)).collect::<Vec<_>>().join(",") + "\n";
    for i in 0..n { s += &(cols.iter().map(|c| format!("{}", c.0[i])).collect::<Vec<_>>().join(",") + "\n"); }
    s
}

fn same(cx: &mut Cx, a: &Data, b: &Data, what: &dyn Fn() -> String) -> bool {
    let mut ok = cx.check(a.nfeatures() == b.nfeatures() && a.nexamples() == b.nexamples() && a.target_id() == b.target_id(), "shape", || what());
    if !ok { return false; }
    let mut h = H::new(14);
    for j in 0..=a.nfeatures() {
        h.fs(b.get_feature(j)).n(b.feat_card(j));
        ok &= cx.check(same_bits(a.get_feature(j), b.get_feature(j)), "values", || format!("{}: column {} {:?} / {:?}", what(), j, a.get_feature(j), b.get_feature(j)));
        ok &= cx.check(a.feat_limits(j) == b.feat_limits(j), "limits", || format!("{}: column {} {:?} / {:?}", what(), j, a.feat_limits(j), b.feat_limits(j)));
        ok &= cx.check(a.feat_type(j) == b.feat_type(j), "type", || format!("{}: column {} {:?} / {:?}", what(), j, a.feat_type(j), b.feat_type(j)));
        ok &= cx.check(a.feat_card(j) == b.feat_card(j), "cardinality", || format!("{}: column {} {} / {}", what(), j, a.feat_card(j), b.feat_card(j)));
        ok &= cx.check(a.max_nbins(j) == b.max_nbins(j), "max-nbins", || format!("{}: column {} {} / {}", what(), j, a.max_nbins(j), b.max_nbins(j)));
        ok &= cx.check(a.feat_name(j) == b.feat_name(j), "name", || format!("{}: column {} {} / {}", what(), j, a.feat_name(j), b.feat_name(j)));
    }
    ok &= cx.check(same_bits(a.get_target(), b.get_target()), "target", || what());
    let h = h.get();
    cx.state(h);
    ok
}

fn models(cx: &mut Cx, c: &mut Config, a: &Data, b: &Data, what: &dyn Fn() -> String) {
    for k in 0..2 {
        c.objective = ["l2", "l1"][k].into();
        c.niterations = 2;
        c.learning_rate = 0.5;
        c.max_tree_depth = 2;
        c.example_fraction = [1.0, 0.7][k];
        cx.step();
        let r = cx.guard(|| {
            let (ma, sa) = boost(c, a, &mut *obj(&c.objective));
            let (mb, sb) = boost(c, b, &mut *obj(&c.objective));
            (bits(&ma.predict(b)), bits(&sa), bits(&mb.predict(a)), bits(&sb))
        });
        match r {
            Err(e) => cx.fail("panic", format!("{}: {}", what(), e)),
            Ok((pa, sa, pb, sb)) => { cx.check(pa == pb && sa == sb, "model", || format!("{}: predictions differ: {:x?} {:x?}", what(), pa, pb)); }
        }
    }
}

fn content(n: usize, k: usize) -> (Vec<f32>, bool, bool) { // values, categorical, valid
    let pal: [&[f32]; 9] = [&[1.0, 0.0, 3.0], &[2.5, -1.0, 0.0], &[1.0, 1.0, 0.0], &[0.0, 5.0, 40.0], &[-7.0, -7.0, -8.0], &[0.0, 0.0, 0.0], &[1.0, -1.0, 2.0], &[3.0, 1.0, 0.5], &[2.0, f32::INFINITY, 1.0]];
    let cat = [true, false, true, true, false, true, true, true, true][k];
    let v: Vec<f32> = pal[k][..n].to_vec();
    let ok = !cat || v.iter().all(|x| *x >= 0.0 && x.fract() == 0.0 && x.is_finite());
    (v, cat, ok)
}

/// All sequences of column writes, rejected ones included.
fn writes(cx: &mut Cx) {
    let m = 1 + cx.choose(2);
    let n = 1 + cx.choose(3);
    let len = if cx.thorough() { 4 } else { 3 };
    let ops: Vec<(usize, usize)> = (0..len).map(|_| (cx.choose(m + 1), cx.choose(9))).collect();
    if !cx.mine() { return; }
    let mut c = Config::new();
    c.max_nbins = 4;
    let mut d = Data::empty(&c, m, n);
    let mut cols = vec![(vec![0.0; n], false); m + 1];
    let what = |i: usize| format!("{} features, {} rows, writes {:?} (first {})", m, n, ops, i);
    for (i, &(j, k)) in ops.iter().enumerate() {
        let (v, cat, ok) = content(n, k);
        cx.step();
        match cx.guard(|| d.set_feature_data(j, &v, cat).is_ok()) {
            Err(e) => { cx.fail("panic", format!("{}: {}", what(i + 1), e)); return; }
            Ok(r) => if !cx.check(r == ok, "acceptance", || format!("{}: accepted {}", what(i + 1), r)) { return; },
        }
        if ok { cols[j] = (v, cat); }
    }
    let t = csv_of(&mut c, &cols, n);
    let want = match Data::from_csv(&c, &t) { Ok(w) => w, Err(e) => { cx.fail("csv", format!("{:?}: {}", t, e)); return; } };
    if same(cx, &d, &want, &|| what(ops.len())) {
        // the target of a model is a plain column
        models(cx, &mut c, &d, &want, &|| what(ops.len()));
    }
}

/// Every order of filling, each column first with other contents of another kind.
fn orders(cx: &mut Cx) {
    let n = cx.pick(&[1usize, 2, 31, 33, 257, 600]);
    let ks: Vec<usize> = (0..3).map(|_| cx.choose(NSHAPES)).collect();
    let before = cx.choose(NSHAPES + 1);
    let nb = cx.pick(&[16usize, 2, 5]);
    if !cx.mine() { return; }
    let mut c = Config::new();
    c.max_nbins = nb;
    let full: Vec<(Vec<f32>, bool)> = (0..4).map(|j| if j < 3 { ((0..n).map(|i| shaped(ks[j], i, n).0).collect(), shaped(ks[j], 0, n).1) } else { ((0..n).map(|i| (i * 13 % 8) as f32 - 3.0).collect(), false) }).collect();
    let t = csv_of(&mut c, &full, n);
    let want = Data::from_csv(&c, &t).expect("valid text");
    let perms = [[0usize, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]];
    for p in perms.iter() {
        let mut d = Data::empty(&c, 3, n);
        cx.steps(8);
        if before < NSHAPES {
            for j in 0..4 { let k = (before + j) % NSHAPES; let v: Vec<f32> = (0..n).map(|i| shaped(k, i + 7, n + 7).0).collect(); d.set_feature_data(j, &v, shaped(k, 0, n).1).expect("valid column"); }
        }
        for &j in p { d.set_feature_data(j, &full[j].0, full[j].1).expect("valid column"); }
        let what = || format!("{} rows, columns {:?} written in order {:?} over kind {} (max_nbins {})", n, ks, p, before, nb);
        if !same(cx, &d, &want, &what) { return; }
        if p[0] == (before + ks[0]) % 4 { models(cx, &mut c, &d, &want, &what); }
    }
}

/// Two data sets filled alternately do not influence each other.
fn alternating(cx: &mut Cx) {
    let ops: Vec<usize> = (0..if cx.thorough() { 6 } else { 5 }).map(|_| cx.choose(8)).collect();
    if !cx.mine() { return; }
    let mut c = Config::new();
    c.max_nbins = 4;
    let n = [2, 3];
    let mut d = [Data::empty(&c, 1, 2), Data::empty(&c, 1, 3)];
    let mut cols: Vec<Vec<(Vec<f32>, bool)>> = n.iter().map(|&n| vec![(vec![0.0; n], false); 2]).collect();
    for &o in &ops {
        let (s, j, k) = (o & 1, o >> 1 & 1, [0, 4][o >> 2]);
        let (v, cat, _) = content(n[s], if j == 0 { k } else { 1 });
        d[s].set_feature_data(j, &v, cat).expect("valid column");
        cols[s][j] = (v, cat);
        cx.step();
    }
    for s in 0..2 {
        let t = csv_of(&mut c, &cols[s], n[s]);
        let want = Data::from_csv(&c, &t).expect("valid text");
        same(cx, &d[s], &want, &|| format!("alternating {:?} data set {}", ops, s));
    }
}

/// Many rows or many columns, filled in different orders, some of them twice.
fn large(cx: &mut Cx) {
    let sizes: &[(usize, usize)] = if cx.thorough() { &[(260, 5), (1030, 3), (3, 40_001), (2, 66_001), (2, 131_101), (300, 300)] } else { &[(260, 5), (1030, 3), (3, 40_001), (2, 66_001)] };
    let (m, n) = cx.pick(sizes);
    let k = cx.choose(NSHAPES);
    let ord = cx.choose(if cx.thorough() { 6 } else { 3 });
    let twice = cx.choose(2);
    if !cx.mine() { return; }
    let mut c = Config::new();
    c.max_nbins = [16, 2, 300][ord % 3];
    let full: Vec<(Vec<f32>, bool)> = (0..=m).map(|j| if j < m { let q = (k + j) % NSHAPES; ((0..n).map(|i| shaped(q, i, n).0).collect(), shaped(q, 0, n).1) } else { ((0..n).map(|i| (i * 13 % 8) as f32 - 3.0).collect(), false) }).collect();
    let t = csv_of(&mut c, &full, n);
    let want = Data::from_csv(&c, &t).expect("valid text");
    let mut d = Data::empty(&c, m, n);
    let step = [1usize, 7, 11, 13, 17, 19][ord];
    let order: Vec<usize> = if (m + 1) % step == 0 && step > 1 { (0..=m).rev().collect() } else { (0..=m).map(|j| j * step % (m + 1)).collect() };
    if twice == 1 { for &j in order.iter().rev() { let q = (j + 3) % NSHAPES; let v: Vec<f32> = (0..n).map(|i| shaped(q, i + 5, n + 5).0).collect(); d.set_feature_data(j, &v, shaped(q, 0, n).1).expect("valid column"); } }
    for &j in &order { d.set_feature_data(j, &full[j].0, full[j].1).expect("valid column"); }
    cx.steps((m + 1) * (1 + twice));
    let what = || format!("{} rows, {} columns from kind {} written in steps of {} (twice {}, max_nbins {})", n, m, k, step, twice, [16, 2, 300][ord % 3]);
    if same(cx, &d, &want, &what) && (k + ord) % 3 == 0 { models(cx, &mut c, &d, &want, &what); }
}

fn main() { mc::main(&[("large", large), ("writes", writes), ("orders", orders), ("alternating", alternating)]); }
