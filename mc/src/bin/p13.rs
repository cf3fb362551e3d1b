//! P13: CSV loading keeps every record or fails with an error.
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use mc::*;
use std::io::Read;

/// What a text holds: `None` where the text must be rejected.
struct Want { names: Vec<String>, cols: Vec<Vec<f32>> }

fn valid_cat(v: f32) -> bool { v >= 0.0 && v.is_finite() && v.fract() == 0.0 }

/// The data set against the cells of the text.
fn judge(cx: &mut Cx, c: &Config, got: &Result<Data, String>, want: &Option<Want>, what: &dyn Fn() -> String) {
    let want = match want {
        Some(w) if (0..w.cols.len()).all(|j| !c.categorical_features.contains(&j) || w.cols[j].iter().all(|&v| valid_cat(v))) => Some(w),
        _ => None,
    };
    match (got, want) {
        (Err(_), None) => { cx.check(true, "rejected", || String::new()); }
        (Err(e), Some(_)) => cx.fail("rejected", format!("{}: valid text rejected: {}", what(), e)),
        (Ok(d), None) => cx.fail("accepted", format!("{}: invalid text accepted with {} rows and {} features", what(), d.nexamples(), d.nfeatures())),
        (Ok(d), Some(w)) => {
            let m = w.cols.len();
            let n = w.cols[0].len();
            if !cx.check(d.nfeatures() + 1 == m && d.target_id() + 1 == m && d.nexamples() == n, "shape", || format!("{}: {} features, {} rows instead of {}, {}", what(), d.nfeatures(), d.nexamples(), m - 1, n)) { return; }
            let mut h = H::new(13);
            for j in 0..m {
                let col = &w.cols[j];
                h.fs(col).n(j);
                let g = d.get_feature(j);
                cx.check(train::same_bits(g, col), "values", || format!("{}: column {} is {:?} instead of {:?}", what(), j, &g[..g.len().min(8)], &col[..n.min(8)]));
                cx.check(d.feat_name(j) == w.names[j], "name", || format!("{}: column {} is called {:?} instead of {:?}", what(), j, d.feat_name(j), w.names[j]));
                let lo = col.iter().cloned().fold(f32::INFINITY, |a, b| if b < a { b } else { a });
                let hi = col.iter().cloned().fold(f32::NEG_INFINITY, |a, b| if b > a { b } else { a });
                let l = d.feat_limits(j);
                cx.check(l.0 == lo && l.1 == hi, "limits", || format!("{}: column {} has limits {:?} instead of {:?}", what(), j, l, (lo, hi)));
                let cat = c.categorical_features.contains(&j);
                let card = if cat { hi as usize + 1 } else { 0 };
                cx.check(d.feat_card(j) == card, "cardinality", || format!("{}: column {} has cardinality {} instead of {}", what(), j, d.feat_card(j), card));
                let t = if !cat { FeatType::Numerical } else if card > c.max_nbins { FeatType::HiCardCat } else { FeatType::LoCardCat };
                cx.check(d.feat_type(j) == t, "type", || format!("{}: column {} (cardinality {}, max_nbins {}) has type {:?}", what(), j, card, c.max_nbins, d.feat_type(j)));
                let nb = match t { FeatType::LoCardCat => match card { 1 => 0, 2 => 1, k => k }, _ => c.max_nbins };
                cx.check(d.max_nbins(j) == nb, "max-nbins", || format!("{}: column {} has up to {} candidates instead of {}", what(), j, d.max_nbins(j), nb));
            }
            cx.check(train::same_bits(d.get_target(), &w.cols[m - 1]), "target", || format!("{}: target {:?}", what(), d.get_target()));
            let h = h.get();
            cx.state(h);
        }
    }
}

// cell texts with their value (None: not a number)
const CELLS: [(&str, Option<f32>); 22] = [
    ("0", Some(0.0)), ("1", Some(1.0)), ("2.5", Some(2.5)), ("-1", Some(-1.0)), ("x", None), ("", None),
    ("3", Some(3.0)), ("1e3", Some(1000.0)), ("\"2\"", Some(2.0)), (" 1", None), ("1 ", None), ("-0", Some(-0.0)),
    (".5", Some(0.5)), ("17", Some(17.0)), ("0x1", None), ("1_0", None), ("\"\"", None), ("0.1", Some(0.1)), ("16777217", Some(16777216.0)), ("--1", None), ("#1", None), ("'1'", None),
];

/// All small tables over an alphabet of cells, with every delimiter, line ending and setting.
fn tables(cx: &mut Cx) {
    let m = 1 + cx.choose(3);
    let n = cx.choose(4);
    let k = match n * m { 0..=2 => CELLS.len(), 3 => if cx.thorough() { 22 } else { 9 }, 4 => if cx.thorough() { 9 } else { 6 }, 6 => if cx.thorough() { 5 } else { 4 }, _ => if cx.thorough() { 3 } else { 2 } };
    let cells: Vec<usize> = (0..n * m).map(|_| cx.choose(k)).collect();
    if !cx.mine() { return; }
    let header = cx.choose(6); // 0: none, 1: matching, 2: quoted names, 3: one name too many, 4 and 5: odd names
    let delim = cx.pick(&[b',', b';', b'\t']);
    let eol = cx.choose(5);
    let cat = cx.choose(4);
    let mut c = Config::new();
    c.csv_has_header = header > 0;
    c.csv_delimiter = delim;
    c.max_nbins = [16, 1, 3, 18][(cells.iter().sum::<usize>() + cat) % 4];
    c.categorical_features = match cat { 0 => vec![], 1 => vec![0], 2 => vec![m - 1, 7], _ => vec![2, 0, 1] };
    let (sep, last) = [("\n", true), ("\n", false), ("\r\n", true), ("\n\n", true), ("\n", true)][eol];
    let mut text = String::new();
    if eol == 4 { text.push('\n'); }
    let d = (delim as char).to_string();
    let names: Vec<String> = (0..m).map(|j| match header { 0 => String::new(), 4 => ["#id", " x ", "0"][j].into(), 5 => ["\u{e9} //", "", "'q'"][j].into(), 2 => format!("a \"{}\",;", j), _ => format!("n{}", j) }).collect();
    if header > 0 {
        let mut w: Vec<String> = names.iter().map(|s| if header == 2 { format!("\"{}\"", s.replace('"', "\"\"")) } else { s.clone() }).collect();
        if header == 3 { w.push("more".into()); }
        text.push_str(&w.join(&d));
        if n > 0 || last { text.push_str(sep); }
    }
    let mut blank = false;
    for i in 0..n {
        let row: Vec<&str> = (0..m).map(|j| CELLS[cells[i * m + j]].0).collect();
        let l = row.join(&d);
        blank |= l.is_empty();
        text.push_str(&l);
        if i + 1 < n || last { text.push_str(sep); }
    }
    if blank { cx.discard(); return; } // an empty cell alone on a line is a blank line
    let vals: Option<Vec<Vec<f32>>> = (0..m).map(|j| (0..n).map(|i| CELLS[cells[i * m + j]].1).collect()).collect();
    let want = if n == 0 || header == 3 { None } else { vals.map(|cols| Want { names, cols }) };
    cx.step();
    match cx.guard(|| Data::from_csv(&c, &text)) {
        Err(e) => cx.fail("panic", format!("{:?} categorical {:?}: {}", text, c.categorical_features, e)),
        Ok(r) => judge(cx, &c, &r, &want, &|| format!("{:?} header {} delimiter {:?} categorical {:?}", text, c.csv_has_header, delim as char, c.categorical_features)),
    }
}

/// Independent reading of a text without quotes.
fn read_plain(text: &str, header: bool, delim: char) -> Option<Want> {
    let mut recs: Vec<Vec<&str>> = text.split(|c| c == '\n' || c == '\r').filter(|l| !l.is_empty()).map(|l| l.split(delim).collect()).collect();
    if recs.is_empty() { return None; }
    let m = recs[0].len();
    if recs.iter().any(|r| r.len() != m) { return None; }
    let names = if header { recs.remove(0).iter().map(|s| s.to_string()).collect() } else { vec![String::new(); m] };
    if recs.is_empty() { return None; }
    let mut cols = vec![vec![]; m];
    for r in &recs { for j in 0..m { cols[j].push(number(r[j])?); } }
    Some(Want { names, cols })
}

/// Decimal numbers of few digits, exactly.
fn number(s: &str) -> Option<f32> {
    let (neg, t) = if let Some(t) = s.strip_prefix('-') { (true, t) } else { (false, s) };
    let (a, b) = match t.find('.') { Some(i) => (&t[..i], &t[i + 1..]), None => (t, "") };
    if a.is_empty() && b.is_empty() { return None; }
    if !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) { return None; }
    let mut v = 0f64;
    for c in a.bytes().chain(b.bytes()) { v = v * 10.0 + (c - b'0') as f64; }
    let v = (v / 10f64.powi(b.len() as i32)) as f32;
    Some(if neg { -v } else { v })
}

/// Every text up to a length over the characters that matter.
fn texts(cx: &mut Cx) {
    const A: [char; 9] = ['0', '7', ',', '\n', '-', '.', 'x', '\r', '"'];
    let maxlen = if cx.thorough() { 8 } else { 7 };
    let a = cx.choose(9);
    let b = cx.choose(9);
    let c0 = cx.choose(9);
    if !cx.mine() { return; }
    for len in 0..=maxlen {
        if len < 3 && !(c0 == 0 && (len == 2 || (b == 0 && (len == 1 || a == 0)))) { continue; }
        let free = if len > 3 { len - 3 } else { 0 };
        for code in 0..9usize.pow(free as u32) {
            let mut s = String::new();
            for (i, k) in [a, b, c0].iter().enumerate() { if i < len { s.push(A[*k]); } }
            let mut x = code;
            for _ in 0..free { s.push(A[x % 9]); x /= 9; }
            for header in [false, true] {
                let mut c = Config::new();
                c.csv_has_header = header;
                c.categorical_features = if code % 3 == 0 { vec![0] } else { vec![] };
                cx.step();
                match cx.guard(|| Data::from_csv(&c, &s)) {
                    Err(e) => { cx.fail("panic", format!("{:?} header {}: {}", s, header, e)); }
                    Ok(r) => if !s.contains('"') {
                        let w = read_plain(&s, header, ',');
                        judge(cx, &c, &r, &w, &|| format!("{:?} header {} categorical {:?}", s, header, c.categorical_features));
                    } else if let Ok(d) = r {
                        let n = d.nexamples();
                        cx.check(n > 0 && (0..=d.nfeatures()).all(|j| d.get_feature(j).len() == n), "ragged", || format!("{:?}", s));
                    },
                }
            }
        }
    }
}

/// Every short column name over characters with a meaning in some format, quoted or not.
fn headers(cx: &mut Cx) {
    const A: [char; 12] = ['a', '"', '\\', ',', ';', '#', ' ', '\'', '\n', '\r', '\u{e9}', '0'];
    let a = cx.choose(12);
    let b = cx.choose(12);
    let delim = cx.pick(&[',', ';', '\t']);
    if !cx.mine() { return; }
    let maxlen = if cx.thorough() { 5 } else { 4 };
    let mut c = Config::new();
    c.csv_has_header = true;
    c.csv_delimiter = delim as u8;
    for len in 0..=maxlen {
        if len < 2 && !(b == 0 && (len == 1 || a == 0)) { continue; }
        for code in 0..12usize.pow(len.max(2) as u32 - 2) {
            let mut name = String::new();
            for k in [a, b].iter().take(len) { name.push(A[*k]); }
            let mut x = code;
            for _ in 2..len { name.push(A[x % 12]); x /= 12; }
            let plain = !name.contains(|q| q == '"' || q == '\n' || q == '\r' || q == delim);
            for style in 0..4 {
                let quoted = format!("\"{}\"", name.replace('"', "\"\""));
                let cell = if style % 2 == 0 { quoted } else if plain { name.clone() } else { continue };
                let (h, names) = if style < 2 { (format!("{}{}y", cell, delim), vec![name.clone(), "y".to_string()]) } else { (format!("x{}{}", delim, cell), vec!["x".to_string(), name.clone()]) };
                let t = format!("{}\n1{}2\n\"3\"{}\"4.5\"\n", h, delim, delim);
                cx.step();
                match cx.guard(|| Data::from_csv(&c, &t)) {
                    Err(e) => cx.fail("panic", format!("{:?}: {}", t, e)),
                    Ok(r) => judge(cx, &c, &r, &Some(Want { names, cols: vec![vec![1.0, 3.0], vec![2.0, 4.5]] }), &|| format!("{:?}", t)),
                }
            }
        }
    }
}

/// One deviating record at every place of tables of many shapes.
fn ragged(cx: &mut Cx) {
    let n = cx.pick(&[1usize, 2, 3, 7, 100, 1000]);
    let m = 1 + cx.choose(5);
    let header = cx.flag();
    let kind = cx.choose(11);
    if !cx.mine() { return; }
    let places: Vec<usize> = if n <= 7 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
    let mut c = Config::new();
    c.csv_has_header = header;
    for p in places {
        for j in 0..m {
            let mut rows: Vec<Vec<String>> = (0..n).map(|i| (0..m).map(|j| format!("{}", (i * 3 + j * 5) % 11)).collect()).collect();
            let mut cols: Vec<Vec<f32>> = (0..m).map(|j| (0..n).map(|i| ((i * 3 + j * 5) % 11) as f32).collect()).collect();
            let mut ok = true;
            c.categorical_features = vec![];
            match kind {
                0 => {}
                1 => { rows[p].push("1".into()); ok = false; }
                2 => { rows[p].remove(j); ok = n == 1 && m > 1 && !header; for k in j..m - 1 { cols[k] = cols[k + 1].clone(); } cols.pop(); if m == 1 { rows[p].push("x".into()); rows[p].push("9".into()); } }
                3 => { rows[p][j] = "abc".into(); ok = false; }
                4 => { rows[p][j] = if m == 1 { "\"\"".into() } else { String::new() }; ok = false; }
                5 => { rows[p][j] = "-3".into(); c.categorical_features = vec![j]; cols[j][p] = -3.0; }
                6 => { rows[p][j] = "1.5".into(); c.categorical_features = vec![m + 3, j]; cols[j][p] = 1.5; }
                7 => { rows[p][j] = "inf".into(); c.categorical_features = vec![j]; ok = false; }
                8 => { rows[p][j] = "#5".into(); ok = false; }
                9 => { rows[p][j] = "//".into(); ok = false; }
                _ => { rows[p][j] = "300".into(); c.categorical_features = vec![j]; cols[j][p] = 300.0; }
            }
            if kind == 1 && n == 1 && !header { ok = true; cols.push(vec![1.0]); }
            let k = cols.len();
            let mut text = String::new();
            let names: Vec<String> = (0..k).map(|j| if header { format!("h{}", j) } else { String::new() }).collect();
            if header { text += &(0..m).map(|j| format!("h{}", j)).collect::<Vec<_>>().join(","); text += "\n"; }
            for r in &rows { text += &r.join(","); text += "\n"; }
            cx.step();
            let want = if ok { Some(Want { names, cols }) } else { None };
            match cx.guard(|| Data::from_csv(&c, &text)) {
                Err(e) => cx.fail("panic", format!("kind {} record {} of {} cell {}: {}", kind, p, n, j, e)),
                Ok(r) => judge(cx, &c, &r, &want, &|| format!("kind {} record {} of {} cell {} of {} header {}", kind, p, n, j, m, header)),
            }
        }
    }
}

struct Dribble<'a> { data: &'a [u8], at: usize, chunk: usize, fail_at: usize }
impl<'a> Read for Dribble<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.at >= self.fail_at { return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")); }
        let k = self.chunk.min(buf.len()).min(self.data.len() - self.at).min(self.fail_at - self.at);
        buf[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

/// Sizes around every buffer, read whole, in pieces, from files and from failing readers.
fn sources(cx: &mut Cx) {
    let n = cx.pick(&[1usize, 2, 9, 100, 1023, 1024, 1025, 5000]);
    let m = cx.pick(&[1usize, 2, 3, 17, 120]);
    let header = cx.flag();
    let delim = cx.pick(&[b',', b';', b' ', b'|']);
    let src = cx.choose(6);
    if n * m > 130_000 { cx.discard(); return; }
    if !cx.mine() { return; }
    source(cx, n, m, header, delim, src);
}

/// Texts of many MiB, more rows or columns than small integer types can count.
fn huge(cx: &mut Cx) {
    let (n, m) = if cx.thorough() { cx.pick(&[(65_537usize, 2usize), (2, 257), (3, 65_539), (400_003, 2), (70_001, 40), (3_000_017, 1), (500, 9_001), (2_500_001, 4), (17_000_003, 1)]) }
                 else { cx.pick(&[(65_537, 2), (2, 257), (3, 65_539), (400_003, 2), (40_001, 40), (1_100_017, 1), (500, 3_001)]) };
    let header = cx.flag();
    let src = cx.pick(&[0usize, 2, 3]);
    if !cx.mine() { return; }
    source(cx, n, m, header, b',', src);
}

fn source(cx: &mut Cx, n: usize, m: usize, header: bool, delim: u8, src: usize) {
    let mut c = Config::new();
    c.csv_has_header = header;
    c.csv_delimiter = delim;
    c.max_nbins = 7;
    c.categorical_features = (0..m).filter(|j| j % 3 == 1).collect();
    let d = (delim as char).to_string();
    let cell = |i: usize, j: usize| -> (String, f32) {
        if j % 3 == 1 { let v = (i * (j + 1)) % (j + 5); (format!("{}", v), v as f32) }
        else { let v = (i as f32 - 3.5) * 0.125 * (j + 1) as f32; (format!("{}", v), v) }
    };
    let mut text = String::new();
    if header { text += &(0..m).map(|j| format!("name{}", j)).collect::<Vec<_>>().join(&d); text += "\n"; }
    for i in 0..n { text += &(0..m).map(|j| cell(i, j).0).collect::<Vec<_>>().join(&d); text += if src == 1 { "\r\n" } else { "\n" }; }
    let want = Want { names: (0..m).map(|j| if header { format!("name{}", j) } else { String::new() }).collect(), cols: (0..m).map(|j| (0..n).map(|i| cell(i, j).1).collect()).collect() };
    cx.step();
    let tmp = std::env::var("MC_TMP").unwrap_or("/tmp".into());
    let path = format!("{}/p13.csv", tmp);
    let mut want = Some(want);
    let r = cx.guard(|| match src {
        0 | 1 => Data::from_csv(&c, &text),
        2 => Data::from_csv_reader(&c, Dribble { data: text.as_bytes(), at: 0, chunk: if text.len() > 1 << 20 { 40_009 } else { 1 + n % 7 }, fail_at: usize::MAX }),
        3 => { std::fs::write(&path, &text).unwrap(); let r = Data::from_csv_path(&c, &path); std::fs::remove_file(&path).unwrap(); r }
        4 => Data::from_csv_reader(&c, Dribble { data: text.as_bytes(), at: 0, chunk: 13, fail_at: text.len() / 2 }),
        _ => { let mut b = text.clone().into_bytes(); let k = b.len() / 2; b[k] = 0xff; Data::from_csv_reader(&c, &b[..]) }
    });
    if src >= 4 { want = None; }
    match r {
        Err(e) => cx.fail("panic", format!("{} rows {} columns source {}: {}", n, m, src, e)),
        Ok(r) => judge(cx, &c, &r, &want, &|| format!("{} rows {} columns source {} header {} delimiter {:?}", n, m, src, header, delim as char)),
    }
    if n == 1 {
        let missing = cx.guard(|| (Data::from_csv_path(&c, format!("{}/does-not-exist", tmp)).is_err(), Data::from_csv_path(&c, &tmp).is_err()));
        cx.check(missing == Ok((true, true)), "missing-file", || format!("{:?}", missing));
    }
}

/// Number syntax: every cell read is the float nearest to its decimal text.
fn numbers(cx: &mut Cx) {
    let sign = cx.pick(&["", "-", "+"]);
    let a = cx.choose(1000);
    let form = cx.choose(6);
    if !cx.mine() { return; }
    for b in [0usize, 1, 5, 99, 123456] {
        let (t, v): (String, f64) = match form {
            0 => (format!("{}", a), a as f64),
            1 => (format!("{}.{}", a, b), format!("{}.{}", a, b).parse().unwrap()),
            2 => (format!("{}e{}", a, b % 20), a as f64 * 10f64.powi((b % 20) as i32)),
            3 => (format!("{}E-{}", a, b % 20), a as f64 / 10f64.powi((b % 20) as i32)),
            4 => (format!("00{}.{}00", a, b), format!("{}.{}", a, b).parse().unwrap()),
            _ => (format!("{}{:06}", a, b), a as f64 * 1e6 + b as f64),
        };
        let text = format!("{}{},1\n", sign, t);
        let mut c = Config::new();
        c.csv_has_header = false;
        cx.step();
        let v = (if sign == "-" { -v } else { v }) as f32;
        match cx.guard(|| Data::from_csv(&c, &text)) {
            Err(e) => cx.fail("panic", format!("{:?}: {}", text, e)),
            Ok(Err(e)) => cx.fail("rejected", format!("{:?}: {}", text, e)),
            Ok(Ok(d)) => {
                let g = d.get_feature(0)[0];
                cx.check((g - v).abs() <= v.abs() * 1.2e-7, "value", || format!("{:?} read as {} instead of {}", text, g, v));
                let h = { let mut h = H::new(131); h.u(g.to_bits() as u64); h.get() };
                cx.state(h);
            }
        }
    }
}

/// Texts next to the middle between two neighbouring floats: the nearer one is read, the even one at the middle.
fn nearest(cx: &mut Cx) {
    let exp = cx.pick(if cx.thorough() { &[0u32, 1, 2, 20, 60, 90, 100, 110, 120, 125, 126, 127, 128, 129, 135, 140, 149, 150, 151, 152, 160, 180, 200, 230, 253] }
                      else { &[0u32, 1, 90, 120, 126, 127, 128, 130, 149, 150, 151, 180, 253] });
    let man = cx.pick(&[0u32, 1, 2, 3, 0x2AAAAA, 0x3FFFFF, 0x400000, 0x555555, 0x7FFFFD, 0x7FFFFE, 0x7FFFFF]);
    let neg = cx.flag();
    if !cx.mine() { return; }
    let f = f32::from_bits(exp << 23 | man);
    let g = f32::from_bits((exp << 23 | man) + 1);
    let mid = (f as f64 + g as f64) / 2.0; // exact
    let exact = |x: f64| -> String { let t = format!("{:.220}", x); t.trim_end_matches('0').to_string() };
    let (tf, tg, tm) = (exact(f as f64), exact(g as f64), exact(mid));
    // just below: the last digit one less, then nines; just above: zeros and a one
    let (head, last) = tm.split_at(tm.len() - 1);
    let whole = last == "."; // an integer: all texts get a fraction
    let below = if whole { // subtract 1 from the integer with f64 arithmetic (exact up to 2^53)
        if mid < 9e15 && mid >= 1.0 { format!("{}.9999999999999999999999999999", mid as u64 - 1) } else { String::new() }
    } else { format!("{}{}9999999999999999999999999999", head, last.parse::<u32>().unwrap() - 1) };
    let above = if whole { format!("{}0000000000000000000000000001", tm) } else { format!("{}0000000000000000000000000001", tm) };
    let even = if man % 2 == 0 { f } else { g };
    let short = format!("{:e}", f);
    for (t, v) in [(tf.clone(), f), (tg.clone(), g), (tm.clone(), even), (below, f), (above, g), (short, f)] {
        if t.is_empty() { continue; }
        let t = t.trim_end_matches('.').to_string();
        let v = if neg { -v } else { v };
        let text = format!("{}{},1\n", if neg { "-" } else { "" }, t);
        let mut c = Config::new();
        c.csv_has_header = false;
        cx.step();
        match cx.guard(|| Data::from_csv(&c, &text)) {
            Err(e) => cx.fail("panic", format!("{:?}: {}", text, e)),
            Ok(Err(e)) => cx.fail("rejected", format!("{:?}: {}", text, e)),
            Ok(Ok(d)) => {
                let r = d.get_feature(0)[0];
                cx.check(r == v, "nearest", || format!("{:?} read as {:e} instead of {:e}", text, r, v));
            }
        }
    }
    cx.state(H::new(132).n(exp as usize).n(man as usize).get());
}

fn main() { mc::main(&[("nearest", nearest), ("headers", headers), ("tables", tables), ("ragged", ragged), ("sources", sources), ("huge", huge), ("numbers", numbers), ("texts", texts)]); }
