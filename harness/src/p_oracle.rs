//! Oracles: verdicts and validity of the returned cuts.
use crate::lin::*;
use crate::rng::R;
use crate::Case;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::oracles::lowpass_oracle::{create_lowpass_case, LowpassOracle};
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::*;
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::quasicvx::MyOracle;

fn arr2(m: &M) -> Arr {
    let n = m.len();
    Arr::from_shape_vec(n, n, m.iter().flatten().copied().collect())
}
fn quad(m: &M, v: &[f64]) -> f64 { dot(v, &mv(m, v)) }

/// A = L D L' with small integers: the factorization is exact in floating point
fn int_ldl(r: &mut R, n: usize) -> (M, Vec<f64>, M) {
    let mut l = zeros(n);
    for i in 0..n { l[i][i] = 1.0; for j in 0..i { l[i][j] = r.below(5) as f64 - 2.0; } }
    let all_pos = r.chance(0.4);
    let d: Vec<f64> = (0..n).map(|_| if all_pos || r.chance(0.75) { (1 + r.below(6)) as f64 } else { -(r.below(5) as f64) }).collect();
    // scaling by powers of two keeps everything exact: a common factor, and D A D with a diagonal D
    let c = pow2(r, 0.3, 120);
    let s: Vec<f64> = if r.chance(0.3) { (0..n).map(|_| 2f64.powi(r.below(5) as i32 - 2)).collect() } else { vec![1.0; n] };
    let mut a = zeros(n);
    for i in 0..n { for j in 0..n { a[i][j] = c * s[i] * s[j] * (0..=i.min(j)).map(|k| l[i][k] * d[k] * l[j][k]).sum::<f64>(); } }
    let d: Vec<f64> = (0..n).map(|i| c * s[i] * s[i] * d[i]).collect();
    r.put("A", format!("{:?}", a));
    (a, d, l)
}
/// 1, or a power of two up to 2^(+-e)
fn pow2(r: &mut R, p: f64, e: usize) -> f64 {
    if r.chance(p) { 2f64.powi(r.below(2 * e + 1) as i32 - e as i32) } else { 1.0 }
}
fn small_dim(r: &mut R) -> usize { if r.chance(0.1) { r.dim("ndim", 1, 14) } else { r.dim("ndim", 1, 6) } }

fn ldlt(r: &mut R) -> Result<bool, String> {
    let n = small_dim(r);
    let mut m = LDLTMgr::new(n);
    let rounds = 1 + r.below(4);
    for _ in 0..rounds {
        let (a, d, l) = int_ldl(r, n);
        let via = r.below(2);
        let ok = if via == 0 { m.factorize(&arr2(&a)) } else { m.factor(|i, j| a[i][j]) };
        let bad = d.iter().position(|x| *x <= 0.0);
        if ok != bad.is_none() { return Err(format!("verdict {} but the pivots are {:?}", ok, d)); }
        if m.is_spd() != ok { return Err("is_spd disagrees with the verdict".into()); }
        match bad {
            Some(p) => {
                if m.pos != (0, p + 1) { return Err(format!("failing block {:?}, expected (0, {})", m.pos, p + 1)); }
                let ep = m.witness();
                if ep != -d[p] { return Err(format!("witness value {:?}, the pivot is {:?}", ep, d[p])); }
                let v: Vec<f64> = (0..n).map(|i| if i <= p { m.wit[i] } else { 0.0 }).collect();
                if v[p] != 1.0 { return Err(format!("witness vector {:?} must have 1 at {}", v, p)); }
                if quad(&a, &v) != -ep { return Err(format!("witness {:?}: v'Av = {:?} but the returned value is {:?}", v, quad(&a, &v), ep)); }
                if m.sym_quad(&arr2(&a)) != -ep { return Err(format!("sym_quad(A) = {:?}, expected {:?}", m.sym_quad(&arr2(&a)), -ep)); }
                let mut b = zeros(n);
                for i in 0..n { for j in 0..n { b[i][j] = r.below(9) as f64 - 4.0; } }
                if m.sym_quad(&arr2(&b)) != quad(&b, &v) { return Err(format!("sym_quad = {:?}, v'Bv = {:?}", m.sym_quad(&arr2(&b)), quad(&b, &v))); }
            }
            None => {
                let u = m.sqrt();
                if u.rows() != n || u.cols() != n { return Err("sqrt has the wrong size".into()); }
                for i in 0..n { for j in 0..n {
                    if j < i && u.at(i, j) != 0.0 { return Err("sqrt is not upper triangular".into()); }
                    let s: f64 = (0..n).map(|k| u.at(k, i) * u.at(k, j)).sum();
                    if !close_s(s, a[i][j], (a[i][i] * a[j][j]).sqrt(), 1e-9) { return Err(format!("(R'R)({},{}) = {:?}, A = {:?}", i, j, s, a[i][j])); }
                } }
                let _ = &l;
            }
        }
    }
    Ok(true)
}
/// general real matrices, away from the boundary
fn ldlt_real(r: &mut R) -> Result<bool, String> {
    let n = small_dim(r);
    let mut a = zeros(n);
    let shift = r.uni(-1.0, 2.0);
    for i in 0..n { for j in 0..=i { let v = r.uni(-1.0, 1.0) + if i == j { shift } else { 0.0 }; a[i][j] = v; a[j][i] = v; } }
    let sc = r.pos("scale", 1e-40, 1e40);
    for row in a.iter_mut() { for v in row.iter_mut() { *v *= sc; } }
    r.put("A", format!("{:?}", a));
    // pivots by elimination
    let mut e = a.clone();
    let mut bad = None;
    for k in 0..n {
        if e[k][k].abs() < 1e-5 * sc { return Ok(false); }
        if e[k][k] < 0.0 { bad = Some((k, e[k][k])); break; }
        for i in k + 1..n { let f = e[i][k] / e[k][k]; for j in k..n { let t = f * e[k][j]; e[i][j] -= t; } }
    }
    let mut m = LDLTMgr::new(n);
    let ok = m.factorize(&arr2(&a));
    if ok != bad.is_none() { return Err(format!("verdict {} but elimination finds {:?}", ok, bad)); }
    if let Some((k, d)) = bad {
        let ep = m.witness();
        if !close_s(ep, -d, sc, 1e-6) { return Err(format!("witness value {:?}, pivot {:?}", ep, d)); }
        let v: Vec<f64> = (0..n).map(|i| if i <= k { m.wit[i] } else { 0.0 }).collect();
        let vs = dot(&v, &v) * sc;
        if !close_s(quad(&a, &v), -ep, vs, 1e-6) { return Err(format!("v'Av = {:?} but the witness value is {:?}", quad(&a, &v), ep)); }
    }
    Ok(true)
}
/// allow-semidefinite variant: PSD matrices are accepted, a rejection carries a certificate
fn ldlt_semi(r: &mut R) -> Result<bool, String> {
    let n = small_dim(r);
    let mut m = LDLTMgr::new(n);
    if r.flag("psd", 0.5) {
        // integer L, D >= 0 with trailing structure exact
        let mut l = zeros(n);
        for i in 0..n { l[i][i] = 1.0; for j in 0..i { l[i][j] = r.below(5) as f64 - 2.0; } }
        let d: Vec<f64> = (0..n).map(|_| if r.chance(0.7) { 1.0 } else { 0.0 }).collect();
        let mut a = zeros(n);
        for i in 0..n { for j in 0..n { a[i][j] = (0..=i.min(j)).map(|k| l[i][k] * d[k] * l[j][k]).sum(); } }
        r.put("A", format!("{:?}", a));
        if d.iter().all(|x| *x > 0.0) || d.iter().position(|x| *x == 0.0) == Some(n - 1) {
            if !m.factor_with_allow_semidefinite(|i, j| a[i][j]) { return Err(format!("a positive semidefinite matrix (pivots {:?}) was rejected", d)); }
            return Ok(true);
        }
        return Ok(false);
    }
    if r.chance(0.5) { let (a, _, _) = int_ldl(r, n); m.factor_with_allow_semidefinite(|i, j| a[i][j]); r.put("second use", "yes".into()); }
    let (a, d, _) = int_ldl(r, n);
    let ok = m.factor_with_allow_semidefinite(|i, j| a[i][j]);
    if m.is_spd() != ok { return Err("is_spd disagrees with the verdict".into()); }
    if d.iter().all(|x| *x != 0.0) && ok != d.iter().all(|x| *x > 0.0) { return Err(format!("verdict {} but the pivots are {:?}", ok, d)); }
    if !ok {
        let (s, e) = m.pos;
        let ep = m.witness();
        if !(ep > 0.0) { return Err(format!("rejected with witness value {:?}", ep)); }
        let v: Vec<f64> = (0..n).map(|i| if i >= s && i < e { m.wit[i] } else { 0.0 }).collect();
        let vs = maxabs(&a) * (1.0 + dot(&v, &v));
        if !close_s(quad(&a, &v), -ep, vs, 1e-9) { return Err(format!("v'Av = {:?}, witness value {:?}, block {:?}", quad(&a, &v), ep, m.pos)); }
        if !close_s(m.sym_quad(&arr2(&a)), -ep, vs, 1e-9) { return Err("sym_quad disagrees with the witness".into()); }
    }
    Ok(true)
}
fn pd(a: &M) -> Option<bool> {
    let n = a.len();
    let sc = maxabs(a).max(1e-300);
    let mut e = a.clone();
    for k in 0..n {
        if e[k][k].abs() < 1e-7 * sc { return None; }
        if e[k][k] < 0.0 { return Some(false); }
        for i in k + 1..n { let f = e[i][k] / e[k][k]; for j in k..n { let t = f * e[k][j]; e[i][j] -= t; } }
    }
    Some(true)
}
fn lmi(r: &mut R) -> Result<bool, String> {
    let which = r.below(3);
    r.put("oracle", ["LMIOracle", "LMIOldOracle", "LMI0Oracle"][which].into());
    let nd = r.dim("ndim", 1, 6);
    let n = r.dim("n", 1, 5);
    let sym = |r: &mut R| { let mut m = zeros(nd); for i in 0..nd { for j in 0..=i { let v = r.uni(-1.0, 1.0); m[i][j] = v; m[j][i] = v; } } m };
    let f: Vec<M> = (0..n).map(|_| sym(r)).collect();
    // a feasible point by construction
    let x0: Vec<f64> = (0..n).map(|_| r.uni(-1.0, 1.0)).collect();
    let c = sym(r);
    let mut s = zeros(nd);
    for i in 0..nd { for j in 0..nd { s[i][j] = (0..nd).map(|k| c[i][k] * c[j][k]).sum::<f64>() + if i == j { r.uni(0.0, 0.3) } else { 0.0 }; } }
    let lin = |x: &[f64]| { let mut m = zeros(nd); for k in 0..n { for i in 0..nd { for j in 0..nd { m[i][j] += f[k][i][j] * x[k]; } } } m };
    let sub = |a: &M, b: &M| { let mut m = zeros(nd); for i in 0..nd { for j in 0..nd { m[i][j] = a[i][j] - b[i][j]; } } m };
    let (f, b, x0) = if which == 2 {
        // F(x0) PSD: last matrix completes the sum
        let mut x0 = x0; x0[n - 1] = 1.0;
        let mut xz = x0.clone(); xz[n - 1] = 0.0;
        let last = sub(&s, &lin(&xz));
        let mut f = f.clone(); f[n - 1] = last;
        (f, zeros(nd), x0)
    } else {
        let mut b = lin(&x0);
        for i in 0..nd { for j in 0..nd { b[i][j] += s[i][j]; } }
        (f.clone(), b, x0)
    };
    // powers of two keep everything exact: a common factor of the inequality, and units of the variables
    let c = pow2(r, 0.3, 100);
    let u: Vec<f64> = (0..n).map(|_| pow2(r, 0.25, 100)).collect();
    let f: Vec<M> = (0..n).map(|k| f[k].iter().map(|row| row.iter().map(|v| v * (c / u[k])).collect()).collect()).collect();
    let b: M = b.iter().map(|row| row.iter().map(|v| v * c).collect()).collect();
    let x0: Vec<f64> = (0..n).map(|k| x0[k] * u[k]).collect();
    let aof = |x: &[f64]| { let mut m = if which == 2 { zeros(nd) } else { b.clone() }; for k in 0..n { for i in 0..nd { for j in 0..nd { let t = f[k][i][j] * x[k]; if which == 2 { m[i][j] += t } else { m[i][j] -= t } } } } m };
    r.put("F", format!("{:?}", f));
    r.put("B", format!("{:?}", b));
    r.put("x0", format!("{:?}", x0));
    let mf: Vec<Arr> = f.iter().map(arr2).collect();
    let mut o0 = LMI0Oracle::new(mf.clone());
    let mut o1 = LMIOracle::new(mf.clone(), arr2(&b));
    let mut o2 = LMIOldOracle::new(mf, arr2(&b));
    let mut any = false;
    for t in 0..4 {
        let x: Vec<f64> = if t == 3 { (0..n).map(|k| x0[k] + u[k] * r.uni(-0.05, 0.05)).collect() } else { (0..n).map(|k| u[k] * r.uni(-3.0, 3.0)).collect() };
        r.put("x", format!("{:?}", x));
        let xa = Arr::from(x.clone());
        let res = match which { 0 => o1.assess_feas(&xa).map(|(g, c)| (g, c.0)), 1 => o2.assess_feas(&xa).map(|(g, c)| (g, c.0)), _ => o0.assess_feas(&xa) };
        let a = aof(&x);
        if let Some(want) = pd(&a) {
            if want != res.is_none() { return Err(format!("at {:?}: {} but the matrix is {}positive definite", x, if res.is_none() { "accepted" } else { "rejected" }, if want { "" } else { "not " })); }
        }
        if let Some((g, beta)) = res {
            any = true;
            if g.len() != n { return Err("gradient has the wrong length".into()); }
            if !(beta >= 0.0) { return Err(format!("cut offset {:?} is negative", beta)); }
            let gs: f64 = (0..n).map(|k| (g[k] * u[k]).abs()).sum::<f64>();
            // every feasible point satisfies the cut
            for q in 0..3 {
                let y: Vec<f64> = if q == 0 { x0.clone() } else { (0..n).map(|k| x0[k] + u[k] * r.uni(-0.3, 0.3)).collect() };
                if q > 0 && pd(&aof(&y)) != Some(true) { continue; }
                let h: f64 = (0..n).map(|k| g[k] * (y[k] - x[k])).sum::<f64>() + beta;
                if !(h <= 1e-6 * (c + gs + beta)) { return Err(format!("feasible point {:?} is cut off: g'(y-x)+beta = {:?} (x {:?}, g {:?}, beta {:?})", y, h, x, g.data(), beta)); }
            }
            // the cut is -v'A(y)v: affine in y with the value at x, and zero slack where expected
            let h = |y: &[f64]| (0..n).map(|k| g[k] * (y[k] - x[k])).sum::<f64>() + beta;
            if pd(&a) == Some(false) && !(h(&x) > 0.0) { return Err("a violated point is not cut off".into()); }
        }
    }
    Ok(any)
}
// ------------------------------------------------------------------------------------ low-pass
fn lowpass_make(r: &mut R) -> LowpassOracle {
    let stock = r.flag("stock", 0.15);
    let nd = r.dim("ndim", 1, 8);
    let mut o = if stock { create_lowpass_case(nd.max(2)) } else {
        let wp = r.uni(0.05, 0.4);
        let ws = wp + r.uni(0.02, 0.4);
        let lp = r.uni(0.3, 1.0);
        r.put("w", format!("{:?} {:?}", wp, ws));
        LowpassOracle::new(nd, wp, ws, lp, lp + r.uni(0.05, 0.6), r.uni(0.01, 0.5))
    };
    if r.flag("small", 0.5) {
        // a smaller, arbitrary table
        let m = 3 + r.below(8);
        let n = o.spectrum[0].len();
        o.spectrum = (0..m).map(|_| Arr::from((0..n).map(|j| if j == 0 { 1.0 } else { r.uni(-2.0, 2.0) }).collect::<Vec<_>>())).collect();
        o.nwpass = 1 + r.below(m - 2) as i32;
        o.nwstop = o.nwpass + r.below(m - 1 - o.nwpass as usize + 1).min(m - 1 - o.nwpass as usize) as i32;
        if o.nwstop >= m as i32 { o.nwstop = m as i32 - 1; }
        o.idx1 = -1; o.idx2 = o.nwpass - 1; o.idx3 = o.nwstop - 1;
        r.put("table", format!("{:?} nwpass {} nwstop {}", o.spectrum.iter().map(|a| a.data().to_vec()).collect::<Vec<_>>(), o.nwpass, o.nwstop));
    }
    // any round-robin position
    if r.flag("shift", 0.7) {
        let m = o.spectrum.len() as i32;
        o.idx1 = r.below((o.nwpass + 1) as usize) as i32 - 1;
        o.idx2 = o.nwpass - 1 + r.below((o.nwstop - o.nwpass + 1) as usize) as i32;
        if o.idx2 >= o.nwstop { o.idx2 = o.nwpass - 1; }
        o.idx3 = o.nwstop - 1 + r.below((m - o.nwstop + 1) as usize) as i32;
        if o.idx3 >= m { o.idx3 = o.nwstop - 1; }
        r.put("idx", format!("{} {} {}", o.idx1, o.idx2, o.idx3));
    }
    if r.chance(0.15) { o.lp_sq = o.up_sq - 1e-3; }
    r.put("bounds", format!("lp {:?} up {:?} sp {:?} nwpass {} nwstop {} rows {}", o.lp_sq, o.up_sq, o.sp_sq, o.nwpass, o.nwstop, o.spectrum.len()));
    o
}
fn lp_x(r: &mut R, o: &LowpassOracle) -> Vec<f64> {
    let n = o.spectrum[0].len();
    match r.below(4) {
        0 => { let mut x = vec![0.0; n]; x[0] = r.uni(-0.2, 1.5); x }
        1 => { let mut x: Vec<f64> = (0..n).map(|_| r.uni(-0.01, 0.01)).collect(); x[0] = r.uni(0.0, 1.2); x }
        2 => (0..n).map(|j| if j == 0 { 0.3 } else { r.uni(-0.3, 0.4) }).collect(),
        _ => (0..n).map(|_| r.uni(-1.0, 1.0)).collect(),
    }
}
/// feasible for every sample?  (margin, exact)
fn lp_ok(o: &LowpassOracle, x: &[f64], sp: f64) -> (bool, bool) {
    let mut all = true;
    let mut near = false;
    for (k, a) in o.spectrum.iter().enumerate() {
        let v = dot(a.data(), x);
        let k = k as i32;
        let mut chk = |s: f64| { if s.abs() < 1e-12 && s != 0.0 { near = true; } if s < 0.0 { all = false; } };
        if k < o.nwpass { chk(o.up_sq - v); chk(v - o.lp_sq); } else if k < o.nwstop { chk(v); } else { chk(sp - v); chk(v); }
    }
    if x[0] < 0.0 { all = false; }
    (all, near)
}
/// make x feasible more often: choose bounds from the response
fn lp_relax(r: &mut R, o: &mut LowpassOracle, x: &[f64]) {
    if !r.flag("relax", 0.6) { return; }
    let v: Vec<f64> = o.spectrum.iter().map(|a| dot(a.data(), x)).collect();
    let (p, s) = (o.nwpass as usize, o.nwstop as usize);
    let mx = |z: &[f64]| z.iter().fold(f64::NEG_INFINITY, |m, t| m.max(*t));
    let mn = |z: &[f64]| z.iter().fold(f64::INFINITY, |m, t| m.min(*t));
    // a constant design is computed without rounding: its samples may sit exactly on the limits
    let sl = if x[1..].iter().all(|t| *t == 0.0) && r.flag("on the limit", 0.5) { 0.0 } else { 0.01 };
    if p > 0 { o.up_sq = mx(&v[..p]) + sl; o.lp_sq = mn(&v[..p]) - sl; }
    if s < v.len() { o.sp_sq = mx(&v[s..]) + sl; }
    if r.chance(0.3) {
        // spoil exactly one bound
        match r.below(3) { 0 => o.up_sq -= 0.02, 1 => o.lp_sq += 0.02, _ => o.sp_sq -= 0.02 }
    }
    r.put("bounds2", format!("lp {:?} up {:?} sp {:?}", o.lp_sq, o.up_sq, o.sp_sq));
}
fn lowpass_accept(r: &mut R) -> Result<bool, String> {
    let mut o = lowpass_make(r);
    for _ in 0..3 {
        let mut x = lp_x(r, &o);
        if r.chance(0.5) { // non-negative responses are rare: shift the constant term
            let m = o.spectrum.iter().map(|a| dot(a.data(), &x)).fold(f64::INFINITY, f64::min);
            if m < 0.0 { x[0] -= m; x[0] += r.uni(0.0, 0.1); }
        }
        r.put("x", format!("{:?}", x));
        lp_relax(r, &mut o, &x);
        let mut sp = o.sp_sq;
        let (ok, near) = lp_ok(&o, &x, sp);
        if near { continue; }
        let opt = r.flag("optim", 0.3);
        if opt { o.sp_sq *= r.uni(0.2, 2.0); } // a level left from an earlier query
        let got = if opt { o.assess_optim(&Arr::from(x.clone()), &mut sp).1 } else { o.assess_feas(&Arr::from(x.clone())).is_none() };
        if got != ok { return Err(format!("{} a filter that {} the specification (x {:?})", if got { "accepted" } else { "rejected" }, if ok { "meets" } else { "violates" }, x)); }
        if got && o.more_alt { return Err("a complete sweep must clear more_alt".into()); }
    }
    Ok(true)
}
fn lowpass_cut(r: &mut R) -> Result<bool, String> {
    let mut o = lowpass_make(r);
    let mut any = false;
    for _ in 0..3 {
        let mut x = lp_x(r, &o);
        if r.chance(0.5) {
            let m = o.spectrum.iter().map(|a| dot(a.data(), &x)).fold(f64::INFINITY, f64::min);
            if m < 0.0 { x[0] -= m; x[0] += r.uni(0.0, 0.1); }
        }
        r.put("x", format!("{:?}", x));
        lp_relax(r, &mut o, &x);
        let n = x.len();
        let opt = r.flag("optim", 0.5);
        let mut sp = o.sp_sq;
        let (ok, near) = lp_ok(&o, &x, sp);
        if near { continue; }
        let sp0 = sp;
        if opt && r.chance(0.5) { o.sp_sq *= r.uni(0.2, 2.0); }
        let (cut, shrunk) = if opt { let (c, s) = o.assess_optim(&Arr::from(x.clone()), &mut sp); (Some(c), s) } else { (o.assess_feas(&Arr::from(x.clone())), false) };
        if opt && shrunk != ok { return Err(format!("improvement reported {} but the filter {} the specification", shrunk, if ok { "meets" } else { "violates" })); }
        if !opt && cut.is_none() != ok { return Err(format!("accepted {} but the filter {} the specification", cut.is_none(), if ok { "meets" } else { "violates" })); }
        let mut level = sp0;
        if opt && shrunk {
            let mx = o.spectrum[o.nwstop as usize..].iter().map(|a| dot(a.data(), &x)).fold(f64::NEG_INFINITY, f64::max);
            if !close(sp, mx, 1e-12) { return Err(format!("objective set to {:?}, the largest stop-band response is {:?}", sp, mx)); }
            level = mx;
        } else if opt && sp != sp0 { return Err(format!("objective changed from {:?} to {:?} without improvement", sp0, sp)); }
        if let Some((g, b)) = cut {
            any = true;
            if g.len() != n { return Err("gradient has the wrong length".into()); }
            if !(b.0 >= 0.0) { return Err(format!("offset {:?} is negative", b.0)); }
            // candidates that meet the specification at the level
            for _ in 0..6 {
                let mut y = lp_x(r, &o);
                let t = r.unit();
                for j in 0..n { y[j] = x[j] + (y[j] - x[j]) * t * 0.2; }
                if !lp_ok(&o, &y, level).0 { continue; }
                let s: f64 = (0..n).map(|j| g[j] * (y[j] - x[j])).sum();
                let bad = s + b.0 > 1e-9 || b.1.is_some_and(|b1| s + b1 < -1e-9);
                if bad { return Err(format!("filter {:?} meets the specification at level {:?} but the cut (g {:?}, offsets {:?}) at {:?} excludes it", y, level, g.data(), b, x)); }
            }
            // the slab is one constraint of the specification: test it on the constraint itself
            let hit = o.spectrum.iter().enumerate().any(|(k, a)| {
                let k = k as i32;
                let v = dot(a.data(), &x);
                let up = (0..n).all(|j| g[j] == a[j]);
                let dn = (0..n).all(|j| g[j] == -a[j]);
                let c = |p: f64, q: f64| close(p, q, 1e-12);
                let co = |p: Option<f64>, q: f64| p.is_some_and(|p| close(p, q, 1e-12));
                if k < o.nwpass { (up && c(b.0, v - o.up_sq) && co(b.1, v - o.lp_sq)) || (dn && c(b.0, o.lp_sq - v) && co(b.1, o.up_sq - v)) }
                else if k >= o.nwstop { (up && c(b.0, v - level) && co(b.1, v)) || (dn && c(b.0, -v) && co(b.1, level - v)) }
                else { dn && c(b.0, -v) && b.1.is_none() }
            }) || (b.1.is_none() && close(b.0, -x[0], 1e-12) && g[0] == -1.0 && (1..n).all(|j| g[j] == 0.0));
            if !hit { return Err(format!("the cut (g {:?}, offsets {:?}) at {:?} is not one of the specification's constraints", g.data(), b, x)); }
        }
    }
    Ok(any)
}
/// construction: sample grid and band edges
fn lowpass_new(r: &mut R) -> Result<bool, String> {
    let nd = r.dim("ndim", 1, 12);
    let wp = r.uni(0.02, 0.5);
    let ws = wp + r.uni(0.0, 0.45);
    r.put("w", format!("{:?} {:?}", wp, ws));
    let (lp, up, sp) = (r.f("lp"), r.f("up"), r.f("sp"));
    let o = LowpassOracle::new(nd, wp, ws, lp, up, sp);
    let m = 15 * nd;
    if o.spectrum.len() != m { return Err(format!("{} samples, expected {}", o.spectrum.len(), m)); }
    for i in 0..m {
        let w = std::f64::consts::PI * i as f64 / (m - 1) as f64;
        for j in 0..nd {
            let want = if j == 0 { 1.0 } else { 2.0 * (w * j as f64).cos() };
            if !close(o.spectrum[i][j], want, 1e-9) { return Err(format!("response({},{}) = {:?}, expected {:?}", i, j, o.spectrum[i][j], want)); }
        }
    }
    let e = |w: f64| (w * (m - 1) as f64).floor() as i32 + 1;
    if o.nwpass != e(wp) || o.nwstop != e(ws) { return Err(format!("band edges {} {}, expected {} {}", o.nwpass, o.nwstop, e(wp), e(ws))); }
    if o.lp_sq != lp || o.up_sq != up || o.sp_sq != sp { return Err("bounds not kept".into()); }
    let c = create_lowpass_case(nd.max(2));
    if !(c.lp_sq < c.up_sq && c.sp_sq > 0.0 && c.lp_sq > 0.0) { return Err(format!("stock case has an empty passband window [{:?}, {:?}]", c.lp_sq, c.up_sq)); }
    Ok(true)
}
// ------------------------------------------------------------------------------------ profit
struct Prof { p: f64, a: f64, k: f64, al: [f64; 2], v: [f64; 2] }
impl Prof {
    fn gen(r: &mut R) -> Prof {
        if r.chance(0.2) {
            // other units
            let w = |r: &mut R, x: f64| r.uni(-x, x).exp();
            return Prof { p: 20.0 * w(r, 12.0), a: 40.0 * w(r, 12.0), k: 30.0 * w(r, 6.0), al: [r.uni(0.05, 0.45), r.uni(0.05, 0.45)], v: [10.0 * w(r, 25.0), 10.0 * w(r, 25.0)] };
        }
        Prof { p: r.uni(5.0, 30.0), a: r.uni(10.0, 60.0), k: r.uni(5.0, 60.0), al: [r.uni(0.05, 0.45), r.uni(0.05, 0.45)], v: [r.uni(1.0, 40.0), r.uni(1.0, 40.0)] }
    }
    fn cobb(&self, y: &[f64], al: &[f64; 2]) -> f64 { (self.p * self.a).ln() + al[0] * y[0] + al[1] * y[1] }
    fn cost(&self, y: &[f64]) -> f64 { self.v[0] * y[0].exp() + self.v[1] * y[1].exp() }
    fn profit(&self, y: &[f64], al: &[f64; 2]) -> f64 { self.cobb(y, al).exp() - self.cost(y) }
}
fn prof_y(r: &mut R) -> Vec<f64> {
    match r.below(6) { 4 => { let t = r.uni(-45.0, 6.0); vec![t, r.uni(-45.0, 6.0)] } 5 => { let t = if r.chance(0.5) { r.raw().clamp(-60.0, 8.0) } else { r.uni(-40.0, -20.0) }; vec![t, r.uni(-40.0, 2.0)] } 0 => vec![r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)], 1 => vec![r.uni(-0.3, 6.0), r.uni(-0.3, 6.0)], 2 => vec![0.0, r.uni(0.0, 3.0)], _ => vec![r.uni(0.0, 4.0), r.uni(0.0, 4.0)] }
}
/// worst-case elasticities at y
fn worst(al: &[f64; 2], e: &[f64; 2], y: &[f64]) -> [f64; 2] {
    [al[0] - if y[0] > 0.0 { e[0] } else { -e[0] }, al[1] - if y[1] > 0.0 { e[1] } else { -e[1] }]
}
fn prof_check(r: &mut R, pr: &Prof, e: &[f64; 2], y: &[f64], g0: f64, g1: f64, cut: &(Arr, SingleCut), shrunk: bool) -> Result<(), String> {
    let w = worst(&pr.al, e, y);
    let f0 = y[0] - pr.k.ln();
    let val = pr.profit(y, &w);
    let f1 = (g0 + pr.cost(y)).ln() - pr.cobb(y, &w);
    if f0.abs() < 1e-9 || f1.abs() < 1e-9 { return Ok(()); }
    let feas = f0 < 0.0 && f1 < 0.0;
    let mag = pr.cost(y) + pr.cobb(y, &w).exp();
    if feas != shrunk { return Err(format!("improvement {} at {:?} with gamma {:?}: profit {:?}, resource slack {:?}", shrunk, y, g0, val, -f0)); }
    let (g, b) = (&cut.0, cut.1 .0);
    if shrunk {
        if !close_s(g1, val, mag, 1e-9) { return Err(format!("gamma becomes {:?}, the profit is {:?}", g1, val)); }
        if !(g1 >= g0 - 1e-9 * (mag + g0.abs())) { return Err(format!("gamma went down from {:?} to {:?}", g0, g1)); }
        if b != 0.0 { return Err(format!("improving point must give a cut through itself, offset {:?}", b)); }
    } else {
        if g1 != g0 { return Err("gamma changed without improvement".into()); }
        if !(b > 0.0) { return Err(format!("offset {:?} of an infeasible point", b)); }
    }
    // validity: every y' at least as good as the level satisfies the cut
    for _ in 0..6 {
        let z = if r.chance(0.5) { prof_y(r) } else { vec![y[0] + r.uni(-0.4, 0.4), y[1] + r.uni(-0.4, 0.4)] };
        let wz = worst(&pr.al, e, &z);
        if z[0] > pr.k.ln() || pr.profit(&z, &wz) < g1 + 1e-9 * (pr.cost(&z) + pr.cobb(&z, &wz).exp()) { continue; }
        let h = g[0] * (z[0] - y[0]) + g[1] * (z[1] - y[1]) + b;
        if h > 1e-7 * (1.0 + h.abs()) { return Err(format!("{:?} earns {:?} >= {:?} within the limit but the cut (g {:?}, beta {:?}) at {:?} excludes it ({:?})", z, pr.profit(&z, &wz), g1, g.data(), b, y, h)); }
    }
    // the gradient is that of the violated constraint
    let want: Vec<f64> = if shrunk { let c = pr.cobb(y, &w).exp(); vec![pr.v[0] * y[0].exp() / c - w[0], pr.v[1] * y[1].exp() / c - w[1]] }
        else if f0 > 0.0 && close(b, f0, 1e-9) && g[0] == 1.0 { vec![1.0, 0.0] }
        else { let t = g0 + pr.cost(y); vec![pr.v[0] * y[0].exp() / t - w[0], pr.v[1] * y[1].exp() / t - w[1]] };
    for i in 0..2 { if !close(g[i], want[i], 1e-8) { return Err(format!("gradient {:?}, expected {:?} at {:?} gamma {:?}", g.data(), want, y, g0)); } }
    if !shrunk { let e0 = if want == vec![1.0, 0.0] && f0 > 0.0 { f0 } else { f1 }; if !close(b, e0, 1e-8) { return Err(format!("offset {:?}, the violation is {:?}", b, e0)); } }
    Ok(())
}
fn profit(r: &mut R) -> Result<bool, String> {
    let pr = Prof::gen(r);
    r.put("params", format!("{:?} {:?} {:?} {:?} {:?}", pr.p, pr.a, pr.k, pr.al, pr.v));
    let mut o = ProfitOracle::new((pr.p, pr.a, pr.k), Arr::from(pr.al.to_vec()), Arr::from(pr.v.to_vec()));
    let mut gamma = if r.chance(0.5) { 0.0 } else { r.uni(0.0, 800.0) };
    for _ in 0..6 {
        let y = prof_y(r);
        r.put("y", format!("{:?} gamma {:?}", y, gamma));
        let g0 = gamma;
        let (c, s) = o.assess_optim(&Arr::from(y.clone()), &mut gamma);
        prof_check(r, &pr, &[0.0, 0.0], &y, g0, gamma, &c, s)?;
        if r.chance(0.2) { gamma = r.uni(0.0, 500.0); }
    }
    Ok(true)
}
fn profit_rb(r: &mut R) -> Result<bool, String> {
    let pr = Prof::gen(r);
    let e = [r.uni(0.0, 0.04), r.uni(0.0, 0.04)];
    let (e3, e4, e5) = (pr.p * r.uni(0.0, 0.3), pr.k * r.uni(0.0, 0.3), pr.v[0].min(pr.v[1]) * r.uni(0.0, 0.3));
    r.put("params", format!("{:?} {:?} {:?} {:?} {:?} uncertainty {:?} {:?} {:?} {:?}", pr.p, pr.a, pr.k, pr.al, pr.v, e, e3, e4, e5));
    let mut o = ProfitRbOracle::new((pr.p, pr.a, pr.k), Arr::from(pr.al.to_vec()), Arr::from(pr.v.to_vec()), (e[0], e[1], e3, e4, e5));
    let rb = Prof { p: pr.p - e3, a: pr.a, k: pr.k - e4, al: pr.al, v: [pr.v[0] + e5, pr.v[1] + e5] };
    let mut gamma = if r.chance(0.5) { 0.0 } else { r.uni(0.0, 800.0) };
    for _ in 0..6 {
        let y = prof_y(r);
        r.put("y", format!("{:?} gamma {:?}", y, gamma));
        let g0 = gamma;
        let (c, s) = o.assess_optim(&Arr::from(y.clone()), &mut gamma);
        prof_check(r, &rb, &e, &y, g0, gamma, &c, s)?;
        if s {
            // guaranteed for every parameter in the box
            for _ in 0..3 {
                let u = |r: &mut R, x: f64| r.uni(-x, x);
                let q = Prof { p: pr.p + u(r, e3), a: pr.a, k: pr.k + u(r, e4), al: [pr.al[0] + u(r, e[0]), pr.al[1] + u(r, e[1])], v: [pr.v[0] + u(r, e5), pr.v[1] + u(r, e5)] };
                if q.profit(&y, &q.al) < gamma - 1e-7 * (q.cost(&y) + gamma.abs()) || y[0] > q.k.ln() + 1e-12 { return Err(format!("robust value {:?} not reached at {:?} under a parameter of the box", gamma, y)); }
            }
        }
    }
    Ok(true)
}
fn profit_q(r: &mut R) -> Result<bool, String> {
    let pr = Prof::gen(r);
    r.put("params", format!("{:?} {:?} {:?} {:?} {:?}", pr.p, pr.a, pr.k, pr.al, pr.v));
    let mut o = ProfitOracleQ::new((pr.p, pr.a, pr.k), Arr::from(pr.al.to_vec()), Arr::from(pr.v.to_vec()));
    let mut gamma = if r.chance(0.5) { 0.0 } else { r.uni(0.0, 500.0) };
    let mut disc = vec![0.0, 0.0];
    let mut was_disc = false;
    for _ in 0..6 {
        let y = prof_y(r);
        let retry = was_disc && r.chance(0.4);
        r.put("y", format!("{:?} gamma {:?} retry {}", y, gamma, retry));
        let g0 = gamma;
        let ((g, SingleCut(b)), s, xq, alt) = o.assess_optim_q(&Arr::from(y.clone()), &mut gamma, retry);
        let f0 = y[0] - pr.k.ln();
        let f1 = (g0 + pr.cost(&y)).ln() - pr.cobb(&y, &pr.al);
        if f0.abs() < 1e-9 || f1.abs() < 1e-9 { return Ok(false); }
        if !retry && (f0 > 0.0 || f1 > 0.0) {
            if s { return Err(format!("an infeasible point {:?} reported as improvement", y)); }
            if !alt { return Err("an ordinary cut must leave alternatives open".into()); }
            prof_check(r, &pr, &[0.0, 0.0], &y, g0, gamma, &(g, SingleCut(b)), s)?;
            continue;
        }
        if !retry {
            if y.iter().any(|v| { let t = v.exp(); ((t - t.floor()) - 0.5).abs() < 1e-9 }) { return Ok(false); }
            disc = y.iter().map(|v| v.exp().round().max(1.0).ln()).collect();
            was_disc = true;
        }
        if alt == retry { return Err(format!("alternatives flag {} on retry {}", alt, retry)); }
        for i in 0..2 { if !close(xq[i], disc[i], 1e-12) { return Err(format!("evaluated point {:?}, the rounded design is {:?}", xq.data(), disc)); } }
        // same half-space as the cut at the rounded design: g'(z - y) + b = g'(z - disc) + bd
        let d = g[0] * (disc[0] - y[0]) + g[1] * (disc[1] - y[1]);
        let snap = |v: f64| if v.abs() < 1e-10 { 0.0 } else { v };
        let res = prof_check(r, &pr, &[0.0, 0.0], &disc, g0, gamma, &(g.clone(), SingleCut(snap(b + d))), s);
        if res.is_err() && crate::known("rebase-sign") {
            // the recorded defect: the offset moved by d instead of -d
            prof_check(r, &pr, &[0.0, 0.0], &disc, g0, gamma, &(g, SingleCut(snap(b - d))), s)?;
        } else { res?; }
    }
    Ok(true)
}
// ------------------------------------------------------------------------------------ others
fn svm(r: &mut R) -> Result<bool, String> {
    let n = r.dim("nfeat", 1, 5);
    let m = 1 + r.below(7);
    let d: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| r.below(9) as f64 - 4.0).collect()).collect();
    let lab: Vec<i32> = (0..m).map(|_| if r.chance(0.5) { 1 } else { -1 }).collect();
    r.put("data", format!("{:?} labels {:?}", d, lab));
    let mut o = SvmOracle::new(Arr::from_shape_vec(m, n, d.iter().flatten().copied().collect()), lab.clone());
    for _ in 0..3 {
        let sep = r.chance(0.3);
        let x: Vec<f64> = (0..=n).map(|_| if sep { 3.0 * (r.below(9) as f64 - 4.0) } else { (r.below(17) as f64 - 8.0) / 4.0 }).collect();
        r.put("x", format!("{:?}", x));
        let mar = |z: &[f64], i: usize| lab[i] as f64 * (dot(&d[i], &z[..n]) + z[n]);
        let ms: Vec<f64> = (0..m).map(|i| mar(&x, i)).collect();
        let mn = ms.iter().fold(f64::INFINITY, |a, b| a.min(*b));
        let mut gamma = r.f("gamma");
        let ((g, SingleCut(b)), s) = o.assess_optim(&Arr::from(x.clone()), &mut gamma);
        if g.len() != n + 1 { return Err("gradient has the wrong length".into()); }
        if !s { return Err("every assessment records its margin as the current value".into()); }
        if mn >= 1.0 {
            if gamma != 0.0 || b != 0.0 || g.data().iter().any(|v| *v != 0.0) { return Err(format!("separating point: gamma {:?}, cut {:?} {:?}", gamma, g.data(), b)); }
        } else {
            if gamma != mn { return Err(format!("gamma {:?}, smallest margin {:?}", gamma, mn)); }
            if b != 1.0 - mn { return Err(format!("offset {:?}, the violation is {:?}", b, 1.0 - mn)); }
            let ok = (0..m).any(|i| ms[i] == mn && (0..n).all(|j| g[j] == -(lab[i] as f64) * d[i][j]) && g[n] == -(lab[i] as f64));
            if !ok { return Err(format!("gradient {:?} is not that of a smallest-margin sample (margins {:?})", g.data(), ms)); }
            for _ in 0..4 {
                let z: Vec<f64> = (0..=n).map(|_| 4.0 * (r.below(9) as f64 - 4.0)).collect();
                if (0..m).any(|i| mar(&z, i) < 1.0) { continue; }
                let h: f64 = (0..=n).map(|j| g[j] * (z[j] - x[j])).sum::<f64>() + b;
                if h > 1e-9 { return Err(format!("separating classifier {:?} is cut off", z)); }
            }
        }
    }
    Ok(true)
}
fn maxcut(r: &mut R) -> Result<bool, String> {
    let n = r.dim("n", 1, 8);
    let mut w = zeros(n);
    for i in 0..n { for j in 0..i { let v = if r.chance(0.6) { r.below(12) as f64 - 3.0 } else { 0.0 }; w[i][j] = v; w[j][i] = v; } }
    r.put("w", format!("{:?}", w));
    let mut o = MaxcutOracle::new(arr2(&w));
    for _ in 0..3 {
        let x: Vec<f64> = (0..n).map(|_| if r.chance(0.2) { 0.0 } else { r.uni(-1.0, 1.0) }).collect();
        r.put("x", format!("{:?}", x));
        let side: Vec<bool> = x.iter().map(|v| *v >= 0.0).collect();
        let mut cv = 0.0;
        for i in 0..n { for j in 0..i { if side[i] != side[j] { cv += w[i][j]; } } }
        let mut g0 = match r.below(3) { 0 => cv, 1 => cv - 1.0, _ => r.below(30) as f64 - 10.0 };
        let before = g0;
        r.put("gamma", format!("{:?}", g0));
        let ((g, SingleCut(b)), s) = o.assess_optim(&Arr::from(x.clone()), &mut g0);
        if s != (cv > before) { return Err(format!("improvement {} but the cut value is {:?} against {:?}", s, cv, before)); }
        if g0 != cv.max(before) { return Err(format!("gamma {:?}, expected {:?}", g0, cv.max(before))); }
        for i in 0..n {
            let t: f64 = (0..n).filter(|j| side[*j] != side[i]).map(|j| w[i][j]).sum();
            if g[i] != -2.0 * t { return Err(format!("gradient {:?}: component {} should be {:?}", g.data(), i, -2.0 * t)); }
        }
        let want = if s { -cv } else { before };
        if b != want { return Err(format!("offset {:?}, expected {:?}", b, want)); }
    }
    Ok(true)
}
fn quasi(r: &mut R) -> Result<bool, String> {
    let mut o = MyOracle::default();
    let mut gamma = if r.chance(0.5) { 0.0 } else { r.uni(0.0, 0.6) };
    for _ in 0..6 {
        let x = match r.below(3) { 0 => vec![r.uni(0.0, 1.5), r.uni(0.0, 1.5)], 1 => { let t = r.uni(0.0, 1.2); vec![t, t * t + r.uni(-0.1, 0.3)] } _ => vec![r.uni(-2.0, 2.0), r.uni(-2.0, 2.0)] };
        r.put("x", format!("{:?} gamma {:?}", x, gamma));
        let g0 = gamma;
        let f0 = x[0] * x[0] - x[1];
        let f1 = -x[0] + g0 * x[1].exp();
        if f0.abs() < 1e-12 || f1.abs() < 1e-12 { continue; }
        let ((g, SingleCut(b)), s) = o.assess_optim(&Arr::from(x.clone()), &mut gamma);
        let ok = f0 < 0.0 && f1 < 0.0;
        if s != ok { return Err(format!("improvement {} at {:?} gamma {:?} (constraints {:?} {:?})", s, x, g0, f0, f1)); }
        if s {
            let v = x[0] / x[1].exp();
            if !close(gamma, v, 1e-12) { return Err(format!("gamma {:?}, value {:?}", gamma, v)); }
            if gamma < g0 - 1e-12 { return Err("gamma went down".into()); }
            if b != 0.0 { return Err("offset of an improving cut".into()); }
        } else {
            if gamma != g0 { return Err("gamma changed without improvement".into()); }
            let a0 = f0 > 0.0 && close(b, f0, 1e-12) && close(g[0], 2.0 * x[0], 1e-12) && g[1] == -1.0;
            let a1 = f1 > 0.0 && close(b, f1, 1e-12) && g[0] == -1.0 && close(g[1], g0 * x[1].exp(), 1e-12);
            if !a0 && !a1 { return Err(format!("cut {:?} {:?} is not the gradient of a violated constraint", g.data(), b)); }
        }
        for _ in 0..4 {
            let z = if r.chance(0.5) { let t = r.uni(0.0, 1.2); vec![t, t * t + r.uni(0.0, 0.3)] } else { vec![x[0] + r.uni(-0.2, 0.2), x[1] + r.uni(-0.2, 0.2)] };
            if z[0] * z[0] > z[1] || z[0] < gamma * z[1].exp() { continue; }
            let h = g[0] * (z[0] - x[0]) + g[1] * (z[1] - x[1]) + b;
            if h > 1e-9 { return Err(format!("{:?} is feasible at level {:?} but the cut (g {:?}, beta {:?}) at {:?} excludes it", z, gamma, g.data(), b, x)); }
        }
    }
    Ok(true)
}
pub fn cases(p: &str) -> Vec<(&'static str, Case)> {
    match p {
        "P10" => vec![("integer matrices", ldlt), ("real matrices", ldlt_real)],
        "P23" => vec![("semidefinite", ldlt_semi)],
        "P11" => vec![("lmi", lmi)],
        "P12" => vec![("acceptance", lowpass_accept), ("construction", lowpass_new)],
        "P13" => vec![("cut", lowpass_cut)],
        "P14" => vec![("profit", profit)],
        "P15" => vec![("robust", profit_rb), ("quantised", profit_q)],
        "P19" => vec![("svm", svm)],
        "P20" => vec![("maxcut", maxcut)],
        "P21" => vec![("quasiconvex", quasi)],
        _ => vec![],
    }
}
