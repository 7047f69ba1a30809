//! Numerical kernels: conjugate gradient, power iteration, array algebra.
use crate::lin::*;
use crate::rng::R;
use crate::Case;
use ellalgo_rs::arr::*;
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::power_iteration as pw;

fn arr2(m: &M) -> Arr {
    let n = m.len();
    Arr::from_shape_vec(n, n, m.iter().flatten().copied().collect())
}
fn spd(r: &mut R, n: usize) -> M {
    let c: M = (0..n).map(|_| (0..n).map(|_| r.uni(-1.0, 1.0)).collect()).collect();
    let mut a = zeros(n);
    let s = *r.pick("shift", &[0.1, 0.5, 2.0]);
    for i in 0..n { for j in 0..n { a[i][j] = (0..n).map(|k| c[i][k] * c[j][k]).sum::<f64>() + if i == j { s } else { 0.0 }; } }
    a
}
fn cg(r: &mut R) -> Result<bool, String> {
    let n = r.dim("n", 1, 20);
    let style = r.below(4);
    let a = match style {
        0 => { let mut a = zeros(n); for i in 0..n { a[i][i] = if r.chance(0.1) { 0.0 } else { r.uni(0.5, 4.0) }; } a }
        1 => { let mut a = zeros(n); for i in 0..n { for j in 0..=i { let v = r.uni(-1.0, 1.0); a[i][j] = v; a[j][i] = v; } } a }
        _ => spd(r, n),
    };
    r.put("A", format!("{:?}", a));
    let xs = r.vecf("xs", n, 0);
    let b = if r.chance(0.8) { mv(&a, &xs) } else { r.vecf("b", n, 0) };
    r.put("b", format!("{:?}", b));
    let tol = *r.pick("tol", &[1e-6, 1e-3, 1e-8, 0.1]);
    let mi = match r.below(4) { 0 => 0, 1 => r.below(3), _ => n * 3 + 5 };
    r.put("max_iter", mi.to_string());
    let start = r.below(4);
    let x0: Option<Vec<f64>> = match start { 0 => None, 1 => Some(xs.clone()), 2 => Some(vec![0.0; n]), _ => Some(r.vecf("x0", n, 0)) };
    r.put("start", format!("{:?}", x0));
    let xa = x0.clone().map(Arr::from);
    let (aa, ba) = (arr2(&a), Arr::from(b.clone()));
    let res = conjugate_gradient(&aa, &ba, xa.as_ref(), tol, mi);
    if aa.data() != arr2(&a).data() || ba.data() != &b[..] { return Err("inputs were modified".into()); }
    let resid = |x: &[f64]| { let ax = mv(&a, x); (0..n).map(|i| (b[i] - ax[i]).powi(2)).sum::<f64>().sqrt() };
    let first = x0.clone().unwrap_or(vec![0.0; n]);
    let r0 = resid(&first);
    match res {
        Ok(x) => {
            if x.len() != n { return Err("solution has the wrong length".into()); }
            let big = x.data().iter().fold(1.0f64, |m, v| m.max(v.abs())) + r0;
            if style == 1 && big > 1e6 { return Ok(false); }
            let rs = resid(x.data());
            let slack = if style == 1 { 1e-6 } else { 1e-9 };
            if !(rs < tol + slack * big * n as f64) { return Err(format!("accepted solution has residual {:?} (tolerance {:?})", rs, tol)); }
            if r0 < tol * 0.999 && x.data() != &first[..] { return Err("a start that already solves the system was changed".into()); }
        }
        Err(e) => {
            if r0 < tol * 0.999 { return Err(format!("start already solves the system (residual {:?}) but the answer is: {}", r0, e)); }
            // the textbook iteration, carried out here, meets the tolerance clearly within the limit
            if style >= 2 && n <= 8 {
                let mut rr: Vec<f64> = { let ax = mv(&a, &first); (0..n).map(|i| b[i] - ax[i]).collect() };
                let mut p = rr.clone();
                let mut s = dot(&rr, &rr);
                for it in 0..mi.min(n) {
                    let ap = mv(&a, &p);
                    let cu = dot(&p, &ap);
                    if !(cu > 1e-8 * dot(&p, &p)) { break; }
                    let al = s / cu;
                    for i in 0..n { rr[i] -= al * ap[i]; }
                    let s2 = dot(&rr, &rr);
                    if s2.sqrt() < tol * 0.5 { return Err(format!("iteration {} of {} meets the tolerance (residual {:?} < {:?}) but the answer is: {}", it + 1, mi, s2.sqrt(), tol, e)); }
                    if !(s2 > 1e-20) { break; }
                    for i in 0..n { p[i] = rr[i] + s2 / s * p[i]; }
                    s = s2;
                }
            }
            // well-conditioned positive definite systems converge within the iterations given
            if style >= 2 && mi >= n * 3 + 5 && tol >= 1e-6 && n <= 8 { return Err(format!("positive definite system of size {} not solved in {} iterations: {}", n, mi, e)); }
        }
    }
    Ok(true)
}
fn power(r: &mut R) -> Result<bool, String> {
    let n = r.dim("n", 1, 8);
    let pd = r.chance(0.7);
    let mut a = if pd { spd(r, n) } else { let mut a = zeros(n); for i in 0..n { for j in 0..n { a[i][j] = r.uni(-1.0, 1.0); } } a };
    let sc = if r.chance(0.15) { *r.pick("scale", &[1e30, 1e-20, 1e60, 1e10]) } else { 1.0 };
    for row in a.iter_mut() { for v in row.iter_mut() { *v *= sc; } }
    // exact instances: a diagonal of powers of two and a start along an axis
    let exact = r.chance(0.05);
    if exact { a = zeros(n); for i in 0..n { a[i][i] = *r.pick("diag", &[1.0, 2.0, 4.0, 0.5]); } }
    r.put("A", format!("{:?}", a));
    let mut x0 = r.vecf("x0", n, 0);
    if !exact && sc == 1.0 && r.chance(0.1) { for v in x0.iter_mut() { *v *= 1e75; } r.put("start", format!("{:?}", x0)); }
    if exact { x0 = vec![0.0; n]; let i = r.below(n); x0[i] = *r.pick("axis", &[1.0, -2.0, 4.0, 1e76]); r.put("start", format!("{:?}", x0)); }
    if dot(&x0, &x0) < 1e-4 { return Ok(false); }
    let which = r.below(4);
    r.put("variant", which.to_string());
    let mi = match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(5), _ => 300 };
    let tol = if exact { 0.0 } else { *r.pick("tol", &[1e-9, 1e-6, 1e-3, 0.05]) * sc };
    r.put("max_iters", mi.to_string());
    let op = pw::Options { max_iters: mi, tolerance: tol };
    let mut x = Arr::from(x0.clone());
    let aa = arr2(&a);
    let (l, k) = match which { 0 => pw::power_iteration(&aa, &mut x, &op), 1 => pw::power_iteration2(&aa, &mut x, &op), 2 => pw::power_iteration3(&aa, &mut x, &op), _ => pw::power_iteration4(&aa, &mut x, &op) };
    if exact && mi > 0 && k != 0 { return Err(format!("the start is a fixed direction and the tolerance 0, yet the count is {}", k)); }
    if k > mi { return Err(format!("{} iterations reported, limit {}", k, mi)); }
    if x.len() != n { return Err("eigenvector has the wrong length".into()); }
    if !x.data().iter().all(|v| v.is_finite()) || !l.is_finite() {
        // nothing vanishes here: only an overflow can have done it
        if pd && sc >= 1e10 && dot(&x0, &x0) < 1e12 { return Err(format!("overflow: eigenvalue {:?}, vector {:?}", l, x.data())); }
        // a vanishing product has no direction
        return Ok(false);
    }
    if which == 2 {
        // the unnormalised variant: stay within the range of floating point
        let mut y = x0.clone();
        let mut lg = 0.0f64;
        for _ in 0..(k + 1).min(mi) {
            y = mv(&a, &y);
            let m = y.iter().fold(0.0f64, |m, v| m.max(v.abs()));
            if !(m > 0.0) { return Ok(false); }
            for v in y.iter_mut() { *v /= m; }
            lg += m.log10();
            if lg < -60.0 { return Ok(false); }
        }
    }
    let xx = dot(x.data(), x.data());
    if !(xx > 1e-280 && xx < 1e280) { return Ok(false); }
    let ax = mv(&a, x.data());
    let ray = dot(x.data(), &ax) / xx;
    let asz = maxabs(&a) * n as f64;
    if !close_s(l, ray, asz, 1e-9) { return Err(format!("reported eigenvalue {:?}, Rayleigh quotient of the returned vector {:?}", l, ray)); }
    // unit length (the unnormalised variant only when it reports convergence)
    if (which != 2 || k < mi) && (xx - 1.0).abs() > 1e-9 { return Err(format!("returned vector has squared length {:?}", xx)); }
    // the span is preserved: x is in the Krylov line a^j x0
    if n == 1 { return Ok(true); }
    let steps = if k < mi { k + 1 } else { mi };
    let mut y = x0.clone();
    for _ in 0..steps { y = mv(&a, &y); let m = y.iter().fold(0.0f64, |m, v| m.max(v.abs())); if !(m > 1e-200) || !m.is_finite() { return Ok(false); } for v in y.iter_mut() { *v /= m; } }
    let c = dot(&y, x.data()) / (dot(&y, &y) * xx).sqrt();
    if steps <= 30 && (c.abs() - 1.0).abs() > 1e-6 { return Err(format!("after {} steps the vector is not the iterate of the start (cosine {:?})", steps, c)); }
    // convergence report, against the textbook iteration: never early, never late
    if pd && !exact && sc == 1.0 {
        let l1 = |v: &[f64]| v.iter().map(|t| t.abs()).sum::<f64>();
        let unit = |v: &[f64]| { let s = if which == 3 { l1(v) } else { dot(v, v).sqrt() }; v.iter().map(|t| t / s).collect::<Vec<f64>>() };
        let rq = |v: &[f64]| dot(v, &mv(&a, v)) / dot(v, v);
        let mut prev = unit(&x0);
        for it in 0..mi.min(40) {
            let cur = unit(&mv(&a, &prev));
            let d = if which == 0 || which == 3 {
                let d1: f64 = (0..n).map(|i| (cur[i] - prev[i]).abs()).sum();
                let d2: f64 = (0..n).map(|i| (cur[i] + prev[i]).abs()).sum();
                d1.min(d2)
            } else { (rq(&cur) - rq(&prev)).abs() };
            let slack = 1e-10 * (1.0 + asz) + tol * 1e-6;
            if it == k && k < mi && d > tol + slack { return Err(format!("stopped after {} steps although the last step moved by {:?} (tolerance {:?})", k, d, tol)); }
            if it < k && d < tol - slack { return Err(format!("went on after step {} although it moved by {:?} only (tolerance {:?})", it, d, tol)); }
            prev = cur;
        }
    }
    Ok(true)
}
fn arr(r: &mut R) -> Result<bool, String> {
    let m = r.dim("m", 1, 6);
    let n = r.dim("n", 1, 6);
    let iv = |r: &mut R, k: usize| -> Vec<f64> { (0..k).map(|_| r.below(17) as f64 - 8.0).collect() };
    let (a, b) = (iv(r, n), iv(r, n));
    let ma = iv(r, m * n);
    let mb = iv(r, m * n);
    let s = *r.pick("s", &[2.0, -3.0, 0.5, 1.0, 4.0, -0.25]);
    r.put("a", format!("{:?} b {:?} ma {:?} mb {:?}", a, b, ma, mb));
    let (va, vb) = (Arr::from(a.clone()), Arr::from(b.clone()));
    let (xa, xb) = (Arr::from_shape_vec(m, n, ma.clone()), Arr::with_data(mb.clone(), m, n));
    let eq = |what: &str, x: &Arr, rows: usize, cols: usize, f: &dyn Fn(usize) -> f64| -> Result<(), String> {
        if x.rows() != rows || x.cols() != cols { return Err(format!("{}: shape ({}, {}), expected ({}, {})", what, x.rows(), x.cols(), rows, cols)); }
        let k = if cols == 0 { rows } else { rows * cols };
        if x.len() != k || x.size() != k || x.data().len() != k { return Err(format!("{}: {} elements, expected {}", what, x.len(), k)); }
        if x.is_2d() != (cols > 0) { return Err(format!("{}: is_2d {}", what, x.is_2d())); }
        for i in 0..k { if !close(x.data()[i], f(i), 1e-12) { return Err(format!("{}: element {} is {:?}, expected {:?}", what, i, x.data()[i], f(i))); } }
        Ok(())
    };
    for (p, q, pr, pc, da, db) in [(&va, &vb, n, 0, &a, &b), (&xa, &xb, m, n, &ma, &mb)] {
        eq("&a + &b", &(p + q), pr, pc, &|i| da[i] + db[i])?;
        eq("&a - &b", &(p - q), pr, pc, &|i| da[i] - db[i])?;
        eq("&a * &b", &(p * q), pr, pc, &|i| da[i] * db[i])?;
        eq("a + &b", &(p.clone() + q), pr, pc, &|i| da[i] + db[i])?;
        eq("a - &b", &(p.clone() - q), pr, pc, &|i| da[i] - db[i])?;
        eq("a * &b", &(p.clone() * q), pr, pc, &|i| da[i] * db[i])?;
        eq("&a * s", &(p * s), pr, pc, &|i| da[i] * s)?;
        eq("a * s", &(p.clone() * s), pr, pc, &|i| da[i] * s)?;
        eq("s * &a", &(s * p), pr, pc, &|i| da[i] * s)?;
        eq("s * a", &(s * p.clone()), pr, pc, &|i| da[i] * s)?;
        eq("&a / s", &(p / s), pr, pc, &|i| da[i] / s)?;
        eq("a / s", &(p.clone() / s), pr, pc, &|i| da[i] / s)?;
        eq("-a", &(-p.clone()), pr, pc, &|i| -da[i])?;
        eq("-&a", &(-p), pr, pc, &|i| -da[i])?;
        let mut t = p.clone(); t += q; eq("+= &b", &t, pr, pc, &|i| da[i] + db[i])?;
        let mut t = p.clone(); t -= q; eq("-= &b", &t, pr, pc, &|i| da[i] - db[i])?;
        let mut t = p.clone(); t += s; eq("+= s", &t, pr, pc, &|i| da[i] + s)?;
        let mut t = p.clone(); t -= s; eq("-= s", &t, pr, pc, &|i| da[i] - s)?;
        let mut t = p.clone(); t *= s; eq("*= s", &t, pr, pc, &|i| da[i] * s)?;
        let mut t = p.clone(); t /= s; eq("/= s", &t, pr, pc, &|i| da[i] / s)?;
        eq("map", &p.map(|v| v * v - 1.0), pr, pc, &|i| da[i] * da[i] - 1.0)?;
        if p.sum() != da.iter().sum::<f64>() { return Err("sum".into()); }
        let mut t = p.clone(); t.copy_from(q); eq("copy_from", &t, pr, pc, &|i| db[i])?;
        eq("make_same_shape", &make_same_shape(p), pr, pc, &|_| 0.0)?;
        eq("cos", &cos(p), pr, pc, &|i| da[i].cos())?;
        eq("abs", &abs(p), pr, pc, &|i| da[i].abs())?;
        eq("exp", &exp(p), pr, pc, &|i| da[i].exp())?;
        let pp = p.map(|v| v.abs() + 1.0);
        eq("ln", &ln(&pp), pr, pc, &|i| (da[i].abs() + 1.0).ln())?;
        eq("sqrt", &sqrt(&pp), pr, pc, &|i| (da[i].abs() + 1.0).sqrt())?;
        if p != p || (p == q) != (da == db) { return Err("equality".into()); }
        if p.iter().copied().collect::<Vec<f64>>() != *da { return Err("iter".into()); }
        if p.is_empty() { return Err("is_empty".into()); }
    }
    // operands of different sizes are refused
    if r.chance(0.02) {
        let mut long = b.clone();
        long.push(1.0);
        let (vl, vs) = if r.flag("longer", 0.5) { (Arr::from(long.clone()), va.clone()) } else { (va.clone(), Arr::from(long.clone())) };
        let refused = |nm: &str, f: &dyn Fn()| -> Result<(), String> {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() { Err(format!("{} accepts operands of different sizes", nm)) } else { Ok(()) }
        };
        refused("&a + &b", &|| { let _ = &vs + &vl; })?;
        refused("&a - &b", &|| { let _ = &vs - &vl; })?;
        refused("&a * &b", &|| { let _ = &vs * &vl; })?;
        refused("+= &b", &|| { let mut t = vs.clone(); t += &vl; })?;
        refused("-= &b", &|| { let mut t = vs.clone(); t -= &vl; })?;
        refused("dot", &|| { let _ = vs.dot(&vl); })?;
        refused("copy_from", &|| { let mut t = vs.clone(); t.copy_from(&vl); })?;
        refused("dot_mv", &|| { let _ = xa.dot_mv(&Arr::from(long.clone())); })?;
        refused("rank_one_update", &|| { let mut t = Arr::eye(n); t.rank_one_update(1.0, &Arr::from(long.clone())); })?;
    }
    eq("dot_mv", &xa.dot_mv(&vb), m, 0, &|i| (0..n).map(|j| ma[i * n + j] * b[j]).sum())?;
    if va.dot(&vb) != dot(&a, &b) { return Err("dot".into()); }
    let c = iv(r, m);
    eq("outer", &Arr::from(c.clone()).outer(&vb), m, n, &|i| c[i / n] * b[i % n])?;
    // symmetric rank-one update
    let mut sm = zeros(n);
    for i in 0..n { for j in 0..=i { let v = r.below(9) as f64; sm[i][j] = v; sm[j][i] = v; } }
    let mut t = arr2(&sm);
    t.rank_one_update(s, &va);
    eq("rank_one_update", &t, n, n, &|i| sm[i / n][i % n] + s * a[i / n] * a[i % n])?;
    eq("new", &Arr::new(n), n, 0, &|_| 0.0)?;
    eq("ones", &Arr::ones(n), n, 0, &|_| 1.0)?;
    eq("zeros", &Arr::zeros(m, n), m, n, &|_| 0.0)?;
    eq("full", &Arr::full(m, n, s), m, n, &|_| s)?;
    eq("eye", &Arr::eye(n), n, n, &|i| if i / n == i % n { 1.0 } else { 0.0 })?;
    eq("from_diag", &Arr::from_diag(&va), n, n, &|i| if i / n == i % n { a[i / n] } else { 0.0 })?;
    eq("from_fn", &Arr::from_fn(n, |i| i as f64 * s), n, 0, &|i| i as f64 * s)?;
    let i = r.below(m);
    let j = r.below(n);
    eq("row", &xa.row(i), n, 0, &|k| ma[i * n + k])?;
    if xa.at(i, j) != ma[i * n + j] || xa.get(i, j) != ma[i * n + j] || xa[(i, j)] != ma[i * n + j] || va[j] != a[j] { return Err("element access".into()); }
    let mut t = xa.clone(); t.set(i, j, 99.0); eq("set", &t, m, n, &|k| if k == i * n + j { 99.0 } else { ma[k] })?;
    let mut t = xa.clone(); *t.at_mut(i, j) += 1.0; eq("at_mut", &t, m, n, &|k| if k == i * n + j { ma[k] + 1.0 } else { ma[k] })?;
    let mut t = xa.clone(); t[(i, j)] = 7.0; eq("index_mut", &t, m, n, &|k| if k == i * n + j { 7.0 } else { ma[k] })?;
    let mut t = va.clone(); t[j] = 7.0; eq("index_mut", &t, n, 0, &|k| if k == j { 7.0 } else { a[k] })?;
    let (p, q) = (r.uni(-3.0, 3.0), r.uni(-3.0, 3.0));
    let k = r.dim("k", 0, 30);
    eq("linspace", &linspace(p, q, k), k, 0, &|i| if k == 1 { p } else { p + (q - p) * i as f64 / (k - 1) as f64 })?;
    let w = k as f64 + 0.5;
    eq("arange", &arange(p, p + w), k, 0, &|i| p + i as f64)?;
    eq("arange", &arange(p, p - w), 0, 0, &|_| 0.0)?;
    Ok(true)
}
pub fn cases(p: &str) -> Vec<(&'static str, Case)> {
    match p {
        "P16" => vec![("cg", cg)],
        "P17" => vec![("power", power)],
        "P18" => vec![("arr", arr)],
        _ => vec![],
    }
}
