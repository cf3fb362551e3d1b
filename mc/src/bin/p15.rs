//! P15: configuration records set exactly the named field or are rejected.
use bitboost::config::Config;
use mc::*;
use std::io::Write;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { Str, Strs, Uint(u64), Bool, Uints, Num }
const U: T = T::Uint(u64::MAX);

/// Name, type name in the table, type, default in the table, default as shown by `show`.
const FIELDS: [(&str, &str, T, &str, &str); 23] = [
    ("train", "String", T::Str, "\"\"", ""), ("test", "String", T::Str, "\"\"", ""), ("objective", "String", T::Str, "\"L2\"", "L2"),
    ("metrics", "Vec<String>", T::Strs, "[]", "[]"), ("metric_frequency", "usize", U, "1", "1"), ("csv_has_header", "bool", T::Bool, "True", "true"),
    ("csv_delimiter", "u8", T::Uint(255), "44", "44"), ("categorical_features", "Vec<usize>", T::Uints, "[]", "[]"), ("niterations", "usize", U, "100", "100"),
    ("learning_rate", "NumT", T::Num, "1", "1"), ("reg_lambda", "NumT", T::Num, "0", "0"), ("min_examples_leaf", "u32", T::Uint(u32::MAX as u64), "1", "1"),
    ("min_gain", "NumT", T::Num, "0.000001", "0.000001"), ("huber_alpha", "NumT", T::Num, "0.95", "0.95"), ("max_nbins", "usize", U, "16", "16"),
    ("discr_nbits", "usize", U, "4", "4"), ("max_tree_depth", "usize", U, "6", "6"), ("compression_threshold", "NumT", T::Num, "0.5", "0.5"),
    ("binary_gradient_bound", "NumT", T::Num, "1.25", "1.25"), ("random_seed", "u64", U, "1", "1"), ("feature_fraction", "NumT", T::Num, "1", "1"),
    ("example_fraction", "NumT", T::Num, "1", "1"), ("sample_freq", "usize", U, "1", "1"),
];

fn show(c: &Config) -> Vec<String> {
    vec![c.train.clone(), c.test.clone(), c.objective.clone(), format!("{:?}", c.metrics), c.metric_frequency.to_string(), c.csv_has_header.to_string(),
         c.csv_delimiter.to_string(), format!("{:?}", c.categorical_features), c.niterations.to_string(), c.learning_rate.to_string(), c.reg_lambda.to_string(), c.min_examples_leaf.to_string(),
         c.min_gain.to_string(), c.huber_alpha.to_string(), c.max_nbins.to_string(), c.discr_nbits.to_string(), c.max_tree_depth.to_string(), c.compression_threshold.to_string(),
         c.binary_gradient_bound.to_string(), c.random_seed.to_string(), c.feature_fraction.to_string(), c.example_fraction.to_string(), c.sample_freq.to_string()]
}

fn defaults() -> Vec<String> { FIELDS.iter().map(|f| f.4.to_string()).collect() }

fn uint(s: &str, max: u64) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u128 = 0;
    for b in s.bytes() { v = v * 10 + (b - b'0') as u128; if v > max as u128 { return None; } }
    Some(v as u64)
}

fn num(s: &str) -> Option<f32> {
    let t = s.strip_prefix('-').unwrap_or(s);
    let (m, e) = match t.find(|c| c == 'e' || c == 'E') { Some(i) => (&t[..i], Some(&t[i + 1..])), None => (t, None) };
    let digits = m.bytes().filter(|b| b.is_ascii_digit()).count();
    if digits == 0 || m.bytes().filter(|b| *b == b'.').count() > 1 || !m.bytes().all(|b| b.is_ascii_digit() || b == b'.') { return None; }
    if let Some(e) = e { let e = e.strip_prefix('-').unwrap_or(e); if e.is_empty() || !e.bytes().all(|b| b.is_ascii_digit()) { return None; } }
    s.parse::<f64>().ok().map(|x| x as f32)
}

/// The value of a field after a record with this (trimmed) value; None: rejected.
fn value(t: T, v: &str) -> Option<String> {
    match t {
        T::Str => Some(v.to_string()),
        T::Uint(m) => uint(v, m).map(|x| x.to_string()),
        T::Bool => match v { "true" => Some("true".into()), "false" => Some("false".into()), _ => None },
        T::Num => num(v).map(|x| x.to_string()),
        T::Strs => Some(if v.is_empty() { "[]".into() } else { format!("{:?}", v.split(',').map(|s| s.trim().to_string()).collect::<Vec<_>>()) }),
        T::Uints => if v.is_empty() { Some("[]".into()) } else {
            let r: Option<Vec<u64>> = v.split(',').map(|s| uint(s.trim(), u64::MAX)).collect();
            r.map(|r| format!("{:?}", r))
        },
    }
}

/// Reference of one line: field and value, or rejection.
fn line(l: &str) -> Option<(usize, String)> {
    let i = l.find('=')?;
    let (n, v) = (l[..i].trim(), l[i + 1..].trim());
    let f = FIELDS.iter().position(|f| f.0 == n)?;
    value(FIELDS[f].2, v).map(|v| (f, v))
}

fn check_lines(cx: &mut Cx, lines: &[&str]) {
    cx.step();
    let mut want = Some(defaults());
    for l in lines {
        match (line(l), &mut want) { (Some((f, v)), Some(w)) => w[f] = v, (None, _) => { want = None; break; } _ => {} }
    }
    match cx.guard(|| Config::parse(lines.iter().cloned()).map(|c| show(&c))) {
        Err(e) => cx.fail("panic", format!("{:?}: {}", lines, e)),
        Ok(r) => match (r, want) {
            (Ok(g), Some(w)) => {
                let mut h = H::new(15);
                for s in &g { for b in s.bytes() { h.u(b as u64); } h.u(999); }
                let h = h.get();
                cx.state(h);
                cx.check(g == w, "values", || { let d = (0..w.len()).find(|&i| g[i] != w[i]).unwrap(); format!("{:?}: {} is {:?} instead of {:?}", lines, FIELDS[d].0, g[d], w[d]) });
            }
            (Ok(_), None) => cx.fail("accepted", format!("{:?} was accepted", lines)),
            (Err(e), Some(_)) => cx.fail("rejected", format!("{:?}: {}", lines, e)),
            (Err(_), None) => { cx.check(true, "", String::new); }
        },
    }
    // record by record: a rejected record changes nothing
    let r = cx.guard(|| {
        let mut c = Config::new();
        let mut w = defaults();
        for l in lines {
            if let Some(i) = l.find('=') {
                let ok = c.parse_record(l[..i].trim(), l[i + 1..].trim()).is_ok();
                let e = line(l);
                if ok != e.is_some() { return Err(format!("{:?}: record {:?} accepted: {}", lines, l, ok)); }
                if let Some((f, v)) = e { w[f] = v; }
                let g = show(&c);
                if g != w { return Err(format!("{:?}: after record {:?} (accepted {}) {:?} instead of {:?}", lines, l, ok, g, w)); }
            }
        }
        Ok(())
    });
    match r {
        Err(e) => cx.fail("panic", format!("{:?}: {}", lines, e)),
        Ok(r) => { cx.check(r.is_ok(), "record", || r.unwrap_err()); }
    }
}

const VALUES: [&str; 76] = ["", "0", "1", "2", "16", "007", "255", "256", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-1", "-0", "1.5", "0.25", ".5", "5.", "1e3", "1e-6", "2E2", "1e", "e1", ".", "-", "--1", "1_000", "0x10", "1 2", "1,2", "1, 2 ,3", "1,,2", ",", "1,", ",1", "1;2", "a", "true", "false", "True", "TRUE", "yes", "1,a", "a,b", "a , b c", "l2", "L2", "a=b", "=", "==", "a=b=c", "k=1,2", "/data/x=1/y.csv", "\"x\"", "'1'", "0.1", "3.4e38", "1.0.0",
    "#", "a #b", "1 #2", "2#", "run #3.csv", "a;b", "1;", "//x", "1 // x", "$HOME/x", "~/x", "%41", "a\\nb", "C:\\d\\e.csv", "\"a b\"", "a  b", "[1,2]", "(1)"];

/// Every field with every value in every spelling of the record.
fn records(cx: &mut Cx) {
    let f = cx.choose(FIELDS.len());
    let v = cx.pick(&VALUES);
    if !cx.mine() { return; }
    let n = FIELDS[f].0;
    for l in [format!("{}={}", n, v), format!(" {}={}", n, v), format!("{} = {}", n, v), format!("\t{}  =\t{} \n", n, v), format!("{}={}\r\n", n, v)] {
        check_lines(cx, &[&l]);
        // before and after records of other fields
        for g in 0..FIELDS.len() {
            let other = match FIELDS[g].2 { T::Str => "q", T::Strs => "m,n", T::Uint(_) => "9", T::Bool => "false", T::Uints => "4,5", T::Num => "0.75" };
            let o = format!("{}={}", FIELDS[g].0, other);
            check_lines(cx, &[&o, &l]);
            check_lines(cx, &[&l, &o]);
        }
    }
}

/// Sequences of records, repeated fields included.
fn sequences(cx: &mut Cx) {
    const L: [&str; 26] = ["train=a", "train=b=c", "test = t", "test=", "objective=l1", "metrics=l2, rmse", "metrics=", "metrics=x", "metric_frequency=5", "csv_has_header=false", "csv_has_header=true",
        "csv_delimiter=59", "csv_delimiter=300", "categorical_features=1, 2,3", "categorical_features=0", "categorical_features=1,x", "niterations=10", "learning_rate=0.1", "learning_rate=x", "max_nbins=3",
        "min_gain=1e-3", "random_seed=18446744073709551615", "unknown=1", "nosign", "", "discr_nbits = 8"];
    let len = if cx.thorough() { 5 } else { 4 };
    let a = cx.choose(26);
    let b = cx.choose(26);
    if !cx.mine() { return; }
    for code in 0..26usize.pow(len - 2) {
        let mut v = vec![L[a], L[b]];
        let mut x = code;
        for _ in 2..len { v.push(L[x % 26]); x /= 26; }
        for k in 0..=v.len() { if k == v.len() || (k >= 2 && code == 0) || (k < 2 && code == 0 && b == 0) { check_lines(cx, &v[..k]); } }
    }
}

/// Names one edit away from a field name, and other foreign names.
fn names(cx: &mut Cx) {
    let f = cx.choose(FIELDS.len());
    let kind = cx.choose(6);
    if !cx.mine() { return; }
    let n = FIELDS[f].0;
    let ok = match FIELDS[f].2 { T::Str => "q", T::Strs => "m,n", T::Uint(_) => "9", T::Bool => "false", T::Uints => "4,5", T::Num => "0.75" };
    for p in 0..=n.len() {
        let m: Vec<String> = match kind {
            0 => if p < n.len() { vec![format!("{}{}", &n[..p], &n[p + 1..])] } else { vec![] },
            1 => "a_-. 0".chars().map(|c| format!("{}{}{}", &n[..p], c, &n[p..])).collect(),
            2 => if p < n.len() { "x_-A".chars().map(|c| format!("{}{}{}", &n[..p], c, &n[p + 1..])).collect() } else { vec![] },
            3 => if p < n.len() { vec![format!("{}{}{}", &n[..p], n[p..p + 1].to_uppercase(), &n[p + 1..])] } else { vec![n.to_uppercase(), n.replace('_', "-"), n.replace('_', "")] },
            4 => if p + 1 < n.len() { vec![format!("{}{}{}{}", &n[..p], &n[p + 1..p + 2], &n[p..p + 1], &n[p + 2..])] } else { vec![] },
            _ => vec![n[..p].to_string(), n[p..].to_string()],
        };
        for x in m { check_lines(cx, &[&format!("{}={}", x, ok)]); }
    }
}

/// Every short line over the characters of the record syntax.
fn lines(cx: &mut Cx) {
    const A: [&str; 7] = ["=", " ", ",", "test", "1", "metrics", "\t"];
    let a = cx.choose(7);
    let b = cx.choose(7);
    if !cx.mine() { return; }
    let len = if cx.thorough() { 8 } else { 7 };
    for n in 2..=len {
        for code in 0..7usize.pow(n as u32 - 2) {
            let mut s = format!("{}{}", A[a], A[b]);
            let mut x = code;
            for _ in 2..n { s.push_str(A[x % 7]); x /= 7; }
            check_lines(cx, &[&s]);
        }
    }
}

/// Short lines over characters that other formats treat specially.
fn odd_lines(cx: &mut Cx) {
    const A: [&str; 9] = ["=", "#", " ", "test", ";", "\"", "\\", "%", "/"];
    let a = cx.choose(9);
    let b = cx.choose(9);
    if !cx.mine() { return; }
    let len = if cx.thorough() { 6 } else { 5 };
    for n in 2..=len {
        for code in 0..9usize.pow(n as u32 - 2) {
            let mut s = format!("{}{}", A[a], A[b]);
            let mut x = code;
            for _ in 2..n { s.push_str(A[x % 9]); x /= 9; }
            check_lines(cx, &[&s]);
            check_lines(cx, &["test=x", &s, "train=y"]);
            check_lines(cx, &[&format!("test={}", s)]);
            check_lines(cx, &[&format!("metrics=a,{}", s)]);
        }
    }
}

/// Long values, long lists and many records.
fn long(cx: &mut Cx) {
    let len = cx.pick(&[15usize, 16, 63, 64, 127, 128, 255, 256, 257, 1000, 4096, 65_535, 65_537, 300_001]);
    let kind = cx.choose(9);
    if !cx.mine() { return; }
    let words = ["train", "a=b", "no,pe", "x y", "#1"];
    let l = match kind {
        0 => format!("train={}", "/path/x=1".chars().cycle().take(len).collect::<String>()),
        1 => format!("metrics={}", (0..len).map(|i| format!("m{}", i)).collect::<Vec<_>>().join(",")),
        2 => format!("categorical_features={}", (0..len).map(|i| (i * 7).to_string()).collect::<Vec<_>>().join(", ")),
        3 => format!("{}={}test={}{}", "", "", " ".repeat(len), "v").trim_start_matches('=').to_string(),
        4 => format!("{}max_nbins{}={}33{}", " ".repeat(len), " ".repeat(len / 2), "\t".repeat(len / 3), " ".repeat(len)),
        5 => format!("niterations={}12", "0".repeat(len)),
        6 => format!("learning_rate=0.{}1", "0".repeat(len.min(30))),
        7 => format!("categorical_features={},x", (0..len).map(|i| i.to_string()).collect::<Vec<_>>().join(",")),
        _ => format!("{}=1", "niterations".repeat(len.min(70_000) / 11 + 2)),
    };
    let short = ["test=q", "metrics=a, b", "niterations=5"];
    check_lines(cx, &[&l]);
    for s in short.iter() { check_lines(cx, &[s, &l]); check_lines(cx, &[&l, s]); }
    // many records: the last one of a field counts, whatever their number
    if kind < FIELDS.len() {
        let n = len.min(if cx.thorough() { 5000 } else { 1001 });
        for f in [kind, kind + 9, (kind + 18) % FIELDS.len()].iter() {
            let val = |i: usize| match FIELDS[*f].2 { T::Str => words[i % 5].to_string(), T::Strs => format!("m{},n{}", i, i + 1), T::Uint(m) => (i as u64 % m.min(100_000)).to_string(), T::Bool => (i % 3 == 0).to_string(), T::Uints => format!("{}, {}", i, i / 2), T::Num => format!("{}.5", i) };
            let mut recs: Vec<String> = (0..n).map(|i| if i % 10 == 9 { format!("{}={}", FIELDS[(*f + 5) % FIELDS.len()].0, match FIELDS[(*f + 5) % FIELDS.len()].2 { T::Bool => "false", T::Uint(_) | T::Uints | T::Num => "7", _ => "z" }) } else { format!("{} = {}", FIELDS[*f].0, val(i)) }).collect();
            let mut w = defaults();
            for l in &recs { let (f, v) = line(l).expect("legal record"); w[f] = v; }
            cx.steps(n);
            match cx.guard(|| Config::parse(recs.iter().map(|s| s.as_str())).map(|c| show(&c))) {
                Err(e) => cx.fail("panic", format!("{} records of {}: {}", n, FIELDS[*f].0, e)),
                Ok(Err(e)) => cx.fail("rejected", format!("{} records of {}: {}", n, FIELDS[*f].0, e)),
                Ok(Ok(g)) => { cx.check(g == w, "values", || { let d = (0..w.len()).find(|&i| g[i] != w[i]).unwrap(); format!("{} records of {}: {} is {:?} instead of {:?}", n, FIELDS[*f].0, FIELDS[d].0, g[d], w[d]) }); }
            }
            recs.push("nope=1".into());
            let r = cx.guard(|| Config::parse(recs.iter().map(|s| s.as_str())).is_ok());
            cx.check(r == Ok(false), "accepted", || format!("{} records and an unknown field: {:?}", n, r));
        }
    }
}

struct Cut { left: usize, out: Vec<u8> }
impl Write for Cut {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        let k = b.len().min(self.left);
        self.out.extend_from_slice(&b[..k]);
        self.left -= k;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Rows of a parameter table: name, default, type.
fn table(text: &str) -> Vec<(String, String, String)> {
    text.lines().skip(1).map(|l| {
        let p: Vec<&str> = l.splitn(3, ',').collect();
        // a default can contain commas inside brackets or quotes
        let name = p[0].to_string();
        let rest = &l[name.len() + 1..];
        let t = rest.find(",\"").map(|i| if i == 0 { rest[1..].find(",\"").unwrap() + 1 } else { i }).unwrap_or(0);
        let ty = rest[t + 2..].split('"').next().unwrap_or("").to_string();
        (name, rest[..t].to_string(), ty)
    }).collect()
}

/// The parameter table: written, shipped and produced by the generator, and its defaults.
fn doc(cx: &mut Cx) {
    let part = cx.choose(4);
    if !cx.mine() { return; }
    let mut full = vec![];
    Config::write_doc_csv(&mut full).unwrap();
    let text = String::from_utf8(full.clone()).unwrap();
    let want: Vec<(String, String, String)> = FIELDS.iter().map(|f| (f.0.into(), f.3.into(), f.1.into())).collect();
    let diff = |t: &str| -> Option<String> {
        if t.lines().next() != Some("name,default,type,description") { return Some(format!("head {:?}", t.lines().next())); }
        let g = table(t);
        if g.len() != want.len() { return Some(format!("{} rows instead of {}", g.len(), want.len())); }
        (0..g.len()).find(|&i| g[i] != want[i]).map(|i| format!("{:?} instead of {:?}", g[i], want[i]))
    };
    match part {
        0 => {
            let d = diff(&text);
            cx.check(d.is_none(), "table", || d.unwrap());
            let d = show(&Config::new());
            cx.check(d == defaults(), "defaults", || format!("{:?}", d));
            cx.steps(2);
        }
        1 => {
            let shipped = std::fs::read_to_string("/repo/python/bitboost_config.gen.csv").unwrap_or_default();
            let d = diff(&shipped);
            cx.check(d.is_none(), "shipped-table", || d.unwrap());
            let rows = |t: &str| t.lines().map(|l| l.to_string()).collect::<Vec<_>>();
            cx.check(rows(&shipped).len() == rows(&text).len(), "shipped-table", || "number of lines".into());
            cx.step();
        }
        2 => for n in 0..=full.len() {
            cx.step();
            let mut w = Cut { left: n, out: vec![] };
            let r = cx.guard(|| Config::write_doc_csv(&mut w).is_ok());
            cx.check(r == Ok(n == full.len()) && w.out[..] == full[..n], "failing-writer", || format!("room for {} of {} bytes: {:?}", n, full.len(), r));
        },
        _ => if let Ok(exe) = std::env::var("MC_GENCSV") {
            let tmp = std::env::var("MC_TMP").unwrap();
            let path = format!("{}/gen.csv", tmp);
            cx.step();
            let st = std::process::Command::new(&exe).arg(&path).stderr(std::process::Stdio::null()).status().unwrap();
            let got = std::fs::read(&path).unwrap_or_default();
            let _ = std::fs::remove_file(&path);
            cx.check(st.success() && got == full, "generator", || format!("{:?}, {} bytes instead of {}", st, got.len(), full.len()));
            let st = std::process::Command::new(&exe).stderr(std::process::Stdio::null()).status().unwrap();
            cx.check(!st.success(), "generator-without-path", || format!("{:?}", st));
            let st = std::process::Command::new(&exe).arg(format!("{}/no/such/dir", tmp)).stderr(std::process::Stdio::null()).status().unwrap();
            cx.check(!st.success(), "generator-bad-path", || format!("{:?}", st));
        },
    }
}

fn main() { mc::main(&[("doc", doc), ("records", records), ("long", long), ("names", names), ("sequences", sequences), ("lines", lines), ("odd_lines", odd_lines)]); }
