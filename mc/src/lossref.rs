//! Reference definitions of the losses in f64, with tolerances that cover f32 rounding and one bin of
//! the binned quantiles.
use bitboost::objective::Objective;

pub const NBINS: f64 = 1024.0;

pub fn sorted(v: &[f64]) -> Vec<f64> { let mut s = v.to_vec(); s.sort_by(|a, b| a.partial_cmp(b).unwrap()); s }

/// Value range admissible for the binned q-quantile of `v` with the limits `lim`.
pub fn quantile_range(v: &[f64], q: f32, lim: (f64, f64)) -> (f64, f64) {
    let s = sorted(v);
    let r = ((v.len() as f32 * q).floor() as usize).min(v.len() - 1);
    let w = (lim.1 - lim.0) / NBINS;
    let m = lim.0.abs().max(lim.1.abs());
    // values up to a rounding error apart may swap bins: take a window of neighbours by value
    let tol = m * 1e-6 + w * 1e-3;
    (s[r] - w - tol, s[r] + w + tol)
}

pub fn residuals(targets: &[f32], preds: &[f32]) -> Vec<f64> {
    targets.iter().zip(preds).map(|(&t, &p)| (t - p) as f64).collect()
}

pub fn minmax(v: &[f64]) -> (f64, f64) {
    v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, &x| (a.0.min(x), a.1.max(x)))
}

pub fn near(a: f32, b: f64, tol: f64) -> bool { a.is_finite() && (a as f64 - b).abs() <= tol }

pub fn scale(v: &[f32]) -> f64 { v.iter().fold(0.0f64, |a, &x| a.max((x as f64).abs())) }

/// Start value admissible?
pub fn bias_range(name: &str, t: &[f32]) -> (f64, f64) {
    let n = t.len() as f64;
    let tf: Vec<f64> = t.iter().map(|&x| x as f64).collect();
    let e = scale(t) * 2e-6 * (1.0 + n / 16.0) + 1e-30;
    match name {
        "l2" => { let m = tf.iter().sum::<f64>() / n; (m - e, m + e) }
        "l1" | "huber" => quantile_range(&tf, 0.5, minmax(&tf)),
        "binary" => {
            let pos = tf.iter().filter(|&&x| x >= 0.5).count() as f64;
            let neg = n - pos;
            if pos == 0.0 { (-40.0, -3.0) } else if neg == 0.0 { (3.0, 40.0) }
            else { let p = 0.5 * (pos / neg).ln(); (p - 1e-4 * (1.0 + p.abs()) , p + 1e-4 * (1.0 + p.abs())) }
        }
        _ => { let pos = tf.iter().filter(|&&x| x >= 0.5).count() as f64; let m = (2.0 * pos - n) / n; (m - 1e-5, m + 1e-5) }
    }
}

/// Check gradients and bounds of an updated objective. `preds` are the scores before the update.
pub fn check_update(name: &str, o: &dyn Objective, t: &[f32], alpha: f32, bound: f32) -> Result<(), (String, String)> {
    let p = o.predictions();
    let g = o.gradients();
    let n = t.len();
    let err = |k: &str, m: String| Err((format!("{}-{}", k, name), m));
    if g.len() != n || p.len() != n { return err("length", format!("{} gradients, {} scores for {} rows", g.len(), p.len(), n)); }
    let r = residuals(t, p);
    let (mn, mx) = minmax(&r);
    let (lo, hi) = o.bounds();
    if !(lo.is_finite() && hi.is_finite() && lo <= hi) { return err("bounds", format!("bounds ({}, {})", lo, hi)); }
    let sc = scale(t).max(scale(p)).max(1e-30);
    match name {
        "l2" => {
            let b = mn.abs().min(mx.abs());
            if !(near(hi, b, sc * 1e-6) && near(lo, -b, sc * 1e-6)) { return err("bounds", format!("bounds ({}, {}), residuals in [{}, {}]", lo, hi, mn, mx)); }
        }
        "l1" => if (lo, hi) != (-1.0, 1.0) { return err("bounds", format!("({}, {})", lo, hi)); },
        "hinge" => if (lo, hi) != (-1.0, 2.0) { return err("bounds", format!("({}, {})", lo, hi)); },
        "binary" => if (lo, hi) != (-bound, bound) { return err("bounds", format!("({}, {})", lo, hi)); },
        _ => {
            let (a, b) = quantile_range(&r, alpha, (mn, mx));
            let ok = (hi as f64) >= a && (hi as f64) <= b || (-hi as f64) >= a && (-hi as f64) <= b;
            if !(hi >= 0.0 && lo == -hi && ok) { return err("bounds", format!("bounds ({}, {}), quantile of the residuals in [{}, {}]", lo, hi, a, b)); }
        }
    }
    for i in 0..n {
        let (ti, pi) = (t[i] as f64, p[i] as f64);
        let (want, tol) = match name {
            "l2" => (-(r[i]), sc * 1e-6),
            "l1" => { if r[i] == 0.0 { (g[i] as f64, 0.0) } else { (-r[i].signum(), 0.0) } }
            "huber" => { let d = hi as f64; (-(r[i].max(-d).min(d)), sc * 1e-6) }
            "binary" => { let y = 2.0 * ti - 1.0; (-2.0 * y / (1.0 + (2.0 * y * pi).exp()), 1e-5) }
            _ => (if ti < 0.5 { if pi > -1.0 { 1.0 } else { 0.0 } } else if pi < 1.0 { -1.0 } else { 0.0 }, 0.0),
        };
        let l1zero = name == "l1" && r[i] == 0.0 && (g[i].abs() == 1.0 || g[i] == 0.0);
        if !l1zero && !near(g[i], want, tol) {
            return err("gradient", format!("target {} score {}: gradient {}, not {} (residuals in [{}, {}], bounds ({}, {}))", t[i], p[i], g[i], want, mn, mx, lo, hi));
        }
    }
    Ok(())
}

/// Admissible range of the value of a leaf before the learning rate is applied; `p` are the scores, `g`
/// the gradients and `delta` the bound of the last update, `lim` the limits of its residuals.
pub fn leaf_range(name: &str, t: &[f32], p: &[f32], g: &[f32], delta: f32, lim: (f64, f64), rows: &[usize]) -> (f64, f64) {
    let n = rows.len() as f64;
    let res: Vec<f64> = rows.iter().map(|&i| (t[i] - p[i]) as f64).collect();
    let sc = scale(t).max(scale(p)).max(1e-30);
    let e = sc * 2e-6 * (1.0 + n / 16.0);
    match name {
        "l2" => { let m = res.iter().sum::<f64>() / n; (m - e, m + e) }
        "l1" => quantile_range(&res, 0.5, lim),
        "huber" => {
            // r + mean(clip(res - r)) is non-decreasing in r
            let (a, b) = quantile_range(&res, 0.5, lim);
            let d = delta as f64;
            let f = |r: f64| r + res.iter().map(|x| (x - r).max(-d).min(d)).sum::<f64>() / n;
            (f(a) - e, f(b) + e)
        }
        "binary" => {
            let (mut num, mut den) = (0.0f64, f32::EPSILON as f64);
            for &i in rows { let y = -(g[i] as f64); num += y; den += y.abs() * (2.0 - y.abs()); }
            // den loses accuracy when |y| is close to 0 or 2
            let v = num / den;
            let rel = 1e-5 + 2e-7 * n + 4.0 * f32::EPSILON as f64 * n / den;
            let sum: f64 = rows.iter().map(|&i| (g[i] as f64).abs()).sum();
            let m = v.abs() * rel.min(1.0) + 1e-6 + sum * 1.2e-7 * (2.0 + n / 2.0) / den;
            (v - m, v + m)
        }
        _ => {
            let s: f64 = rows.iter().map(|&i| {
                let (ti, pi) = (t[i] as f64, p[i] as f64);
                if ti < 0.5 { -(2.0 + pi).max(0.0).powi(2) } else { (2.0 - pi).max(0.0).powi(2) }
            }).sum::<f64>() / n;
            let q: f64 = rows.iter().map(|&i| (2.0 + (p[i] as f64).abs()).powi(2)).sum::<f64>() / n;
            (s - q * (1e-5 + 2e-7 * n), s + q * (1e-5 + 2e-7 * n))
        }
    }
}
