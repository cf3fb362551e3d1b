//! P18: the real thread pool, free running, with 1 to 8 threads.
use bitboost::config::Config;
use mc::train::*;
use mc::*;

fn make(k: usize, n: usize, o: &str) -> Case {
    let bin = o == "binary" || o == "hinge";
    if k == 4 {
        // features that split equally well but differently: the choice must not depend on timing
        let b = n.next_power_of_two().trailing_zeros() as usize;
        let ones = |i: usize| i.count_ones() as f32;
        return Case {
            n: 1 << b,
            cols: (0..b).map(|j| Col { vals: (0..1 << b).map(|i: usize| (i >> j & 1) as f32).collect(), cat: j % 3 != 0 }).collect(),
            target: (0..1 << b).map(|i| if bin { (2.0 * ones(i) > b as f32) as u8 as f32 } else { ones(i) }).collect(),
        };
    }
    let kinds: Vec<usize> = match k { 0 => vec![0, 1, 2, 3], 1 => (0..NSHAPES).collect(), 2 => vec![3, 3, 3], _ => (0..24).map(|j| j % NSHAPES).collect() };
    Case {
        n,
        cols: kinds.iter().enumerate().map(|(j, &k)| Col { vals: (0..n).map(|i| shaped(k, i + j / NSHAPES, n + j / NSHAPES).0).collect(), cat: shaped(k, 0, n).1 }).collect(),
        target: (0..n).map(|i| if bin { (i * 7 % 5 < 2) as u8 as f32 } else { (i * 13 % 11) as f32 * 0.37 - 1.3 }).collect(),
    }
}

/// The same training on pools of 1 to 8 threads, several times each.
fn pools(cx: &mut Cx) {
    let o = cx.pick(&["l2", "binary", "l1"]);
    let k = cx.choose(5);
    let n = cx.pick(&[30usize, 700, 5000]);
    let sampled = cx.flag();
    if !cx.mine() { return; }
    let mut c = Config::new();
    c.objective = o.into();
    c.niterations = 4;
    c.max_tree_depth = 4;
    c.learning_rate = 0.3;
    if sampled { c.example_fraction = 0.6; c.feature_fraction = 0.7; }
    let case = make(k, n, o);
    let run = |threads: usize| {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("pool");
        pool.install(|| {
            let data = case.data(&c);
            let mut t = Tap::new(o);
            let (m, _) = boost(&c, &data, &mut t);
            (t.log, bits(&m.predict(&data)))
        })
    };
    let want = run(1);
    for round in 0..if cx.thorough() { 40 } else { 6 } {
        for threads in [2usize, 3, 4, 8] {
            cx.step();
            let got = run(threads);
            if !cx.check(got == want, "pool-changes-model", || format!("{} n {} columns {} sampled {}: {} threads, round {}: model or scores differ from one thread", o, n, k, sampled, threads, round)) { return; }
        }
    }
    let mut h = H::new(118);
    for x in &want.1 { h.u(*x as u64); }
    let h = h.get();
    cx.state(h);
    cx.sample(|| format!("{} n {} columns {}: same bits on 1, 2, 3, 4 and 8 threads", o, n, k));
}

fn main() { mc::main(&[("pools", pools)]); }
