//! Ellipsoid updates: containment, verdicts, shape, representation independence, calculators.
use crate::lin::*;
use crate::rng::R;
use crate::Case;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::{CutStatus, ParallelCut, SearchSpace, SingleCut};
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_calc::{EllCalc, EllCalcCore};
use ellalgo_rs::ell_stable::EllStable;

#[derive(Clone)]
pub enum Sp { D(Ell), S(EllStable) }
impl Sp {
    pub fn xc(&self) -> Vec<f64> {
        match self { Sp::D(e) => e.xc().data().to_vec(), Sp::S(e) => e.xc().data().to_vec() }
    }
    pub fn tsq(&self) -> f64 {
        match self { Sp::D(e) => e.tsq(), Sp::S(e) => e.tsq() }
    }
    fn probe(&self, g: Vec<f64>) -> f64 {
        let cut = (Arr::from(g), SingleCut(0.0));
        let mut c = self.clone();
        match &mut c {
            Sp::D(e) => { e.update_central_cut(&cut); }
            Sp::S(e) => { e.update_central_cut(&cut); }
        }
        c.tsq()
    }
    /// the shape matrix P of the current ellipsoid { x : (x-xc)' P^-1 (x-xc) <= 1 }
    pub fn shape(&self) -> M {
        let n = self.xc().len();
        let mut p = zeros(n);
        match self {
            Sp::D(e) => {
                for i in 0..n { for j in 0..n { p[i][j] = e.kappa * e.mq.at(i, j); } }
            }
            Sp::S(_) => {
                let e = |i: usize, j: usize| -> Vec<f64> { (0..n).map(|k| if k == i || k == j { 1.0 } else { 0.0 }).collect() };
                for i in 0..n { p[i][i] = self.probe(e(i, i)); }
                for i in 0..n { for j in 0..i {
                    let v = (self.probe(e(i, j)) - p[i][i] - p[j][j]) / 2.0;
                    p[i][j] = v; p[j][i] = v;
                } }
            }
        }
        p
    }
    pub fn name(&self) -> &'static str { match self { Sp::D(_) => "Ell", Sp::S(_) => "EllStable" } }
    pub fn apply(&mut self, c: &Cut) -> CutStatus {
        macro_rules! go { ($e:expr, $b:expr) => {{
            let cut = (Arr::from(c.g.clone()), $b);
            match c.mode { 0 => $e.update_bias_cut(&cut), 1 => $e.update_central_cut(&cut), _ => $e.update_q(&cut) }
        }} }
        match (self, c.kind) {
            (Sp::D(e), 0) => go!(e, SingleCut(c.b0)),
            (Sp::S(e), 0) => go!(e, SingleCut(c.b0)),
            (Sp::D(e), k) => go!(e, ParallelCut(c.b0, if k == 2 { Some(c.b1) } else { None })),
            (Sp::S(e), k) => go!(e, ParallelCut(c.b0, if k == 2 { Some(c.b1) } else { None })),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Cut { pub mode: usize, pub kind: usize, pub g: Vec<f64>, pub b0: f64, pub b1: f64 }
impl Cut {
    fn lo0(&self) -> f64 { if self.mode == 1 { 0.0 } else { self.b0 } }
    fn par(&self) -> bool { self.kind == 2 }
}
/// initial space: (space, dimension)
fn init(r: &mut R, which: usize, lo: usize, hi: usize, exact: bool) -> Sp {
    let n = r.dim("n", lo, hi);
    let xs = if exact { 1 } else { r.below(3) };
    let scalar = r.flag("scalar", 0.4);
    let mut xc = r.vecf("xc", n, xs);
    let scale = if exact { 4f64.powi(r.below(7) as i32 - 3) } else { if r.chance(0.2) { r.pos("scale", 1e-40, 1e40) } else { r.pos("scale", 1e-6, 1e8) } };
    r.put("init_scale", format!("{:?}", scale));
    for x in xc.iter_mut() { *x = (*x).clamp(-1e3, 1e3); if !exact { *x *= scale.sqrt(); } }
    let x = Arr::from(xc);
    let form = r.below(4);
    r.put("space", ["Ell", "Ell/no-defer", "EllStable"][which].into());
    if scalar || exact {
        match which {
            2 => Sp::S(EllStable::new_with_scalar(scale, x)),
            w => { let mut e = Ell::new_with_scalar(scale, x); e.no_defer_trick = w == 1; Sp::D(e) }
        }
    } else {
        let d: Vec<f64> = (0..n).map(|_| scale * (r.uni(-1.5, 1.5)).exp()).collect();
        r.put("diag", format!("{:?}", d));
        let v = Arr::from(d.clone());
        match which {
            2 => Sp::S(if form == 0 {
                // any unit triangular factor above the diagonal
                let mut m = Arr::from_diag(&v);
                for i in 0..n { for j in i + 1..n { let u = r.uni(-0.7, 0.7); m.set(i, j, u); m.set(j, i, r.uni(-1.0, 1.0)); } }
                r.put("mq", format!("{:?}", m.data()));
                EllStable::new_with_matrix(1.0, m, x)
            } else { EllStable::new(v, x) }),
            w => {
                let mut e = match form {
                    0 => { // a general symmetric positive definite matrix
                        let mut m = Arr::from_diag(&v);
                        for _ in 0..2 {
                            let u: Vec<f64> = (0..n).map(|_| r.uni(-1.0, 1.0)).collect();
                            for i in 0..n { for j in 0..n { let t = m.at(i, j) + scale * (u[i] * u[j]); m.set(i, j, t); } }
                        }
                        r.put("mq", format!("{:?}", m.data()));
                        if r.chance(0.5) { Ell::from_covariance(m, x) } else {
                            let k = r.pos("kappa", 1e-4, 1e4);
                            Ell::new_with_matrix(k, m, x)
                        }
                    }
                    _ => Ell::new(v, x),
                };
                e.no_defer_trick = w == 1;
                Sp::D(e)
            }
        }
    }
}
fn grad(r: &mut R, n: usize, exact: bool) -> Option<Vec<f64>> {
    let g = if exact {
        let mut g = vec![0.0; n];
        let k = r.below(n);
        let m = 2f64.powi(r.below(5) as i32 - 2);
        g[k] = if r.chance(0.5) { m } else { -m };
        r.put("g", format!("{:?}", g));
        g
    } else {
        let st = *r.pick("gstyle", &[0usize, 1, 3, 0]);
        let mut g = r.vecf("g", n, st);
        if r.chance(0.2) { let k = r.raw(); if k != 0.0 && k.abs() > 1e-6 && k.abs() < 1e6 { for v in g.iter_mut() { *v *= k; } r.put("gscale", format!("{:?}", k)); } }
        g
    };
    if g.iter().all(|x| x.abs() < 1e-9) { None } else { Some(g) }
}
/// a cut with offsets relative to tau = sqrt(g'Pg)
fn cut(r: &mut R, p: &M, exact: bool, mode: Option<usize>) -> Option<(Cut, f64)> {
    let n = p.len();
    let g = grad(r, n, exact)?;
    let tau = dot(&g, &mv(p, &g)).sqrt();
    if !(tau > 1e-140 && tau < 1e140) { return None; }
    let mode = match mode { Some(m) => m, None => r.below(3) };
    let kind = r.below(3);
    r.put("mode", ["bias", "central", "q"][mode].into());
    r.put("kind", ["single", "parallel-none", "parallel"][kind].into());
    let nf = n as f64;
    let frac = |r: &mut R, neg: bool| -> f64 {
        let a = match r.below(10) {
            0 => 0.0, 1 => 1.0, 2 => 1.0 / nf, 3 => r.uni(0.0, 1.0 / nf), 4 => r.uni(0.9, 1.3), 5 => 0.5, 6 => r.uni(0.0, 0.02),
            7 => { let v = r.raw().abs(); v / (1.0 + v) }
            _ => r.uni(0.0, 1.0),
        };
        if neg && r.chance(0.4) { -a } else { a }
    };
    let mut b0 = frac(r, mode == 2) * tau;
    if r.chance(0.08) { // absolute offset from the dictionary
        let v = r.raw();
        b0 = if mode == 2 { v } else { v.abs() };
    }
    if let Some(m) = r.named { if let (Some(a), Some(t)) = (m.get("b0"), m.get("tsq")) { if *t > 0.0 && r.chance(0.7) { b0 = a / t.sqrt() * tau; } } }
    if mode == 0 && b0 < 0.0 { b0 = 0.0; }
    // offsets far below -tau lose all digits in the parallel formulas (floating point, not the algorithm)
    if b0 < -1e3 * tau { b0 = -1e3 * tau; }
    let mut b1 = match r.below(6) {
        0 => frac(r, true) * tau,
        1 => b0 + frac(r, false) * tau,
        2 => r.uni(0.0, 1.0) * tau,
        3 => tau * r.uni(0.9, 1.5),
        4 => if r.chance(0.5) { -b0 } else { b0 + r.uni(0.01, 0.2) * tau },
        _ => b0.max(0.0) + r.uni(0.0, 1.0) * (tau - b0.max(0.0)).max(0.0),
    };
    if r.chance(0.03) { b1 = b0; }
    if r.chance(0.02) { b1 = f64::INFINITY; }
    if let Some(m) = r.named { if let (Some(a), Some(t)) = (m.get("b1"), m.get("tsq")) { if *t > 0.0 && r.chance(0.7) { b1 = a / t.sqrt() * tau; } } }
    if mode == 2 && kind == 2 && b1 < 0.0 { b1 = -b1; }
    r.put("b0", format!("{:?}", b0));
    r.put("b1", format!("{:?}", b1));
    r.put("tau", format!("{:?}", tau));
    Some((Cut { mode, kind, g, b0, b1 }, tau))
}
fn okshape(p: &M, xc: &[f64]) -> Option<M> {
    let l = chol(p)?;
    if !p.iter().flatten().all(|x| x.is_finite()) { return None; }
    let (mut lo, mut hi) = (f64::INFINITY, 0.0f64);
    for i in 0..l.len() { lo = lo.min(l[i][i]); hi = hi.max(p[i][i].sqrt()); }
    if (hi / lo) * (hi / lo) > 1e6 { return None; }
    if xc.iter().any(|x| !x.is_finite() || x.abs() > 1e5 * lo) { return None; }
    Some(l)
}
/// is any allowed point left?  None when too close to call
fn nonempty(c: &Cut, tau: f64, exact: bool) -> Option<bool> {
    let lo = c.lo0();
    if c.par() && c.b1 < lo { return Some(false); }
    if !exact && (lo - tau).abs() < 1e-7 * tau { return None; }
    // the slice -b1 <= s also excludes everything when b1 < -tau, which needs b0 <= b1 < -tau (q only, excluded by b1 >= 0)
    Some(lo <= tau)
}
fn hist_len(r: &mut R) -> usize {
    let k = match r.below(20) { 0 => 10 + r.below(60), 1..=8 => 0, _ => r.below(6) };
    r.put("history", k.to_string());
    k
}
fn steps(r: &mut R, which: usize, f: &mut dyn FnMut(&mut R, &mut Sp, &M, &M, &Cut, f64, bool) -> Result<bool, String>) -> Result<bool, String> {
    let exact = r.flag("exact", 0.1);
    let hi = if which == 2 && !r.chance(0.1) { 8 } else { 40 };
    let mut s = init(r, which, 2, hi, exact);
    let k = hist_len(r);
    let mut any = false;
    let big = s.xc().len() > 8;
    for _ in 0..=(if big { k.min(4) } else { k }) {
        let p = s.shape();
        let l = match okshape(&p, &s.xc()) { Some(l) => l, None => return Ok(any) };
        let (c, tau) = match cut(r, &p, exact && !any, None) { Some(x) => x, None => return Ok(any) };
        any |= f(r, &mut s, &p, &l, &c, tau, exact && !any)?;
        if r.log.len() > 260 { let t = r.log.len() - 60; r.log.drain(30..t); }
    }
    Ok(any)
}
fn which(r: &mut R) -> usize { r.below(3) }

fn contain(r: &mut R) -> Result<bool, String> {
    let w = which(r);
    steps(r, w, &mut |r, s, _p, l, c, tau, _ex| {
        let n = l.len();
        let xc = s.xc();
        let st = s.apply(c);
        if st != CutStatus::Success { return Ok(false); }
        let lo = c.lo0();
        if lo > 0.999 * tau || (c.par() && c.b1 < lo + 1e-3 * tau) { return Ok(false); }
        let p2 = s.shape();
        let x2 = s.xc();
        let l2 = match chol(&p2) { Some(l2) => l2, None => return Err(format!("{}: after a successful {} cut the shape is not positive definite", s.name(), ["bias", "central", "q"][c.mode])) };
        if x2.iter().any(|x| !x.is_finite()) { return Err(format!("{}: centre is not finite after a successful cut", s.name())); }
        if cond(&l2) > 1e8 { return Ok(false); }
        // u = L' g / tau
        let u: Vec<f64> = (0..n).map(|j| (0..n).map(|i| l[i][j] * c.g[i]).sum::<f64>() / tau).collect();
        let hi_s = (-lo).min(tau);
        let lo_s = if c.par() { (-c.b1).max(-tau) } else { -tau };
        if lo_s > hi_s { return Ok(false); }
        for t in 0..5 {
            let sv = match t { 0 => hi_s, 1 => lo_s, 2 => (hi_s + lo_s) / 2.0, _ => r.uni(lo_s, hi_s) };
            let mut z: Vec<f64> = (0..n).map(|_| r.uni(-1.0, 1.0)).collect();
            let d = dot(&z, &u);
            for i in 0..n { z[i] -= d * u[i]; }
            let nz = dot(&z, &z).sqrt();
            if nz < 1e-3 { continue; }
            let a = sv / tau;
            let b = (1.0 - a * a).max(0.0).sqrt() / nz;
            let q: Vec<f64> = (0..n).map(|i| a * u[i] + b * z[i]).collect();
            let dx: Vec<f64> = (0..n).map(|i| (0..=i).map(|j| l[i][j] * q[j]).sum::<f64>() + (xc[i] - x2[i])).collect();
            let y = fwd(&l2, &dx);
            let v = dot(&y, &y);
            if !(v <= 1.0 + 1e-5) {
                return Err(format!("{}: a point of the old ellipsoid with g'(x-xc) = {:?} (allowed range [{:?}, {:?}]) lies outside the new one: quadratic form {:?}; cut {:?}", s.name(), sv, lo_s, hi_s, v, c));
            }
        }
        Ok(true)
    })
}
fn verdict(r: &mut R) -> Result<bool, String> {
    let w = which(r);
    steps(r, w, &mut |_r, s, p, _l, c, tau, ex| {
        let n = p.len() as f64;
        let before = s.clone();
        let st = s.apply(c);
        let lo = c.lo0();
        let ne = match nonempty(c, tau, ex) { Some(b) => b, None => return Ok(false) };
        let want = if !ne { CutStatus::NoSoln } else if c.mode == 2 {
            let active = c.par() && !(c.b1 >= tau);
            if c.par() && (c.b1 - tau).abs() < 1e-7 * tau && !ex { return Ok(false); }
            let (eta, sc) = if active { (tau * tau + n * lo * c.b1, tau * tau) } else { (tau + n * lo, tau) };
            if eta.abs() < 1e-7 * sc { return Ok(false); }
            if eta < 0.0 { CutStatus::NoEffect } else { CutStatus::Success }
        } else { CutStatus::Success };
        if st != want { return Err(format!("{}: verdict {:?}, expected {:?} (tau {:?}) for {:?}", s.name(), st, want, tau, c)); }
        if st != CutStatus::Success {
            let same_x = before.xc().iter().zip(s.xc().iter()).all(|(a, b)| a.to_bits() == b.to_bits());
            if !same_x { return Err(format!("{}: a refused cut moved the centre from {:?} to {:?}", s.name(), before.xc(), s.xc())); }
            let (a, b) = (before.shape(), s.shape());
            if a.iter().flatten().zip(b.iter().flatten()).any(|(x, y)| x != y) { return Err(format!("{}: a refused cut changed the shape from {:?} to {:?}", s.name(), a, b)); }
            if let (Sp::D(x), Sp::D(y)) = (&before, &*s) {
                if x.kappa != y.kappa || x.no_defer_trick != y.no_defer_trick { return Err("a refused cut changed kappa or the deferral setting".into()); }
            }
        }
        Ok(true)
    })
}
fn shape(r: &mut R) -> Result<bool, String> {
    let w = which(r);
    steps(r, w, &mut |_r, s, _p, l, c, tau, _ex| {
        let n = l.len();
        let st = s.apply(c);
        if st != CutStatus::Success { return Ok(false); }
        let lo = c.lo0();
        if lo > 0.999 * tau || (c.par() && c.b1 < lo + 1e-3 * tau) { return Ok(false); }
        let p2 = s.shape();
        if let Sp::D(e) = s {
            for i in 0..n { for j in 0..i { if e.mq.at(i, j) != e.mq.at(j, i) { return Err(format!("Ell: shape not symmetric at ({}, {}): {:?} vs {:?}", i, j, e.mq.at(i, j), e.mq.at(j, i))); } } }
            if !(e.kappa > 0.0) { return Err(format!("Ell: kappa = {:?}", e.kappa)); }
            if e.mq.rows() != n || e.mq.cols() != n { return Err("Ell: shape matrix changed size".into()); }
        }
        let l2 = match chol(&p2) { Some(l2) => l2, None => return Err(format!("{}: shape not positive definite after a successful cut {:?}: {:?}", s.name(), c, p2)) };
        let (a, b) = (logdet(l), logdet(&l2));
        if !(b < a + 1e-7) { return Err(format!("{}: volume did not decrease: log det {:?} -> {:?} for {:?}", s.name(), a, b, c)); }
        Ok(true)
    })
}
fn represent(r: &mut R) -> Result<bool, String> {
    let hi = if r.chance(0.05) { 40 } else { 7 };
    let a = init_pair(r, hi);
    let (mut d, mut nd, mut st) = match a { Some(x) => x, None => return Ok(false) };
    let k = hist_len(r) + 1;
    let mut any = false;
    for step in 0..k {
        let p = d.shape();
        let l = match okshape(&p, &d.xc()) { Some(l) => l, None => return Ok(any) };
        let (c, tau) = match cut(r, &p, false, None) { Some(x) => x, None => return Ok(any) };
        let lo = c.lo0();
        // stay away from verdict boundaries, where rounding decides
        let n = p.len() as f64;
        let near = |a: f64, b: f64| (a - b).abs() < 1e-5 * tau;
        if near(lo, tau) || (c.par() && (near(c.b1, lo) || near(c.b1, tau) || near(c.b1, 0.0) || near(c.b1, -tau))) || (c.mode == 2 && (near(n * lo, -tau) || (c.par() && (tau * tau + n * lo * c.b1).abs() < 1e-5 * tau * tau))) { return Ok(any); }
        let s0 = d.apply(&c);
        let s1 = nd.apply(&c);
        let s2 = st.apply(&c);
        if s0 != s1 || s0 != s2 { return Err(format!("step {}: verdicts differ: deferred {:?}, no-defer {:?}, stable {:?} for {:?}", step, s0, s1, s2, c)); }
        let sc = tau * tau;
        if !close_s(d.tsq(), nd.tsq(), sc, 1e-6) || !close_s(d.tsq(), st.tsq(), sc, 1e-6) { return Err(format!("step {}: tsq differs: {:?} {:?} {:?}", step, d.tsq(), nd.tsq(), st.tsq())); }
        let (p0, p1, p2) = (d.shape(), nd.shape(), st.shape());
        let ps = maxabs(&p0);
        let (x0, x1, x2) = (d.xc(), nd.xc(), st.xc());
        let xs = ps.sqrt() + x0.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        if lo > 0.99 * tau && s0 == CutStatus::Success { return Ok(any); }
        for i in 0..x0.len() {
            if !close_s(x0[i], x1[i], xs, 1e-6) || !close_s(x0[i], x2[i], xs, 1e-6) { return Err(format!("step {}: centre {} differs: {:?} {:?} {:?} after {:?}", step, i, x0[i], x1[i], x2[i], c)); }
            for j in 0..x0.len() {
                let sij = (p0[i][i] * p0[j][j]).abs().sqrt().max(ps * 1e-6);
                if !close_s(p0[i][j], p1[i][j], sij, 1e-5) || !close_s(p0[i][j], p2[i][j], sij, 1e-5) { return Err(format!("step {}: shape ({},{}) differs: {:?} {:?} {:?} after {:?}", step, i, j, p0[i][j], p1[i][j], p2[i][j], c)); }
            }
        }
        any |= s0 == CutStatus::Success;
        let _ = l;
        if r.log.len() > 260 { let t = r.log.len() - 60; r.log.drain(30..t); }
    }
    Ok(any)
}
fn init_pair(r: &mut R, hi: usize) -> Option<(Sp, Sp, Sp)> {
    let n = r.dim("n", 2, hi);
    let scale = r.pos("scale", 1e-4, 1e6);
    let mut xc = r.vecf("xc", n, 0);
    for x in xc.iter_mut() { *x *= scale.sqrt(); }
    if r.flag("scalar", 0.4) {
        let x = Arr::from(xc);
        let mut nd = Ell::new_with_scalar(scale, x.clone());
        nd.no_defer_trick = true;
        Some((Sp::D(Ell::new_with_scalar(scale, x.clone())), Sp::D(nd), Sp::S(EllStable::new_with_scalar(scale, x))))
    } else {
        let d: Vec<f64> = (0..n).map(|_| scale * (r.uni(-1.5, 1.5)).exp()).collect();
        r.put("diag", format!("{:?}", d));
        let (v, x) = (Arr::from(d), Arr::from(xc));
        let mut nd = Ell::new(v.clone(), x.clone());
        nd.no_defer_trick = true;
        Some((Sp::D(Ell::new(v.clone(), x.clone())), Sp::D(nd), Sp::S(EllStable::new(v, x))))
    }
}
/// constructors: the ellipsoid described by the arguments
fn construct(r: &mut R) -> Result<bool, String> {
    let n = r.dim("n", 1, 9);
    let xc = r.vecf("xc", n, 2);
    let d: Vec<f64> = r.vecf("d", n, 0).iter().map(|x| x.abs() + 0.1).collect();
    let k = r.pos("kappa", 1e-6, 1e6);
    let x = Arr::from(xc.clone());
    let chk = |s: &Sp, f: &dyn Fn(usize, usize) -> f64, what: &str| -> Result<(), String> {
        if s.xc() != xc { return Err(format!("{}: centre is {:?}", what, s.xc())); }
        let p = s.shape();
        for i in 0..n { for j in 0..n { if !close_s(p[i][j], f(i, j), maxabs(&p), 1e-12) { return Err(format!("{}: shape({},{}) = {:?}, expected {:?}", what, i, j, p[i][j], f(i, j))); } } }
        Ok(())
    };
    let diag = |i: usize, j: usize| if i == j { d[i] } else { 0.0 };
    let eye = |i: usize, j: usize| if i == j { k } else { 0.0 };
    chk(&Sp::D(Ell::new(Arr::from(d.clone()), x.clone())), &diag, "Ell::new")?;
    chk(&Sp::D(Ell::new_with_scalar(k, x.clone())), &eye, "Ell::new_with_scalar")?;
    chk(&Sp::S(EllStable::new(Arr::from(d.clone()), x.clone())), &diag, "EllStable::new")?;
    chk(&Sp::S(EllStable::new_with_scalar(k, x.clone())), &eye, "EllStable::new_with_scalar")?;
    let mut m = zeros(n);
    for i in 0..n { for j in 0..=i { let t = if i == j { d[i] * 10.0 } else { r.uni(-0.2, 0.2) }; m[i][j] = t; m[j][i] = t; } }
    let flat: Vec<f64> = m.iter().flatten().copied().collect();
    chk(&Sp::D(Ell::from_covariance(Arr::from_shape_vec(n, n, flat.clone()), x.clone())), &|i, j| m[i][j], "Ell::from_covariance")?;
    chk(&Sp::D(Ell::new_with_matrix(k, Arr::from_shape_vec(n, n, flat), x.clone())), &|i, j| k * m[i][j], "Ell::new_with_matrix")?;
    let mut e = Ell::new_with_scalar(k, x.clone());
    let y = r.vecf("y", n, 2);
    e.set_xc(Arr::from(y.clone()));
    let mut e2 = EllStable::new_with_scalar(k, x.clone());
    e2.set_xc(Arr::from(y.clone()));
    if e.xc().data() != &y[..] || e2.xc().data() != &y[..] { return Err("set_xc did not set the centre".into()); }
    Ok(true)
}
type T3 = (f64, f64, f64);
fn t3_close(a: T3, b: T3, tau: f64, tol: f64) -> bool {
    close_s(a.0, b.0, tau, tol) && close(a.1, b.1, tol) && close(a.2, b.2, tol)
}
fn calc(r: &mut R) -> Result<bool, String> {
    let n = r.dim("n", 2, 200);
    let nf = n as f64;
    let core = EllCalcCore::new(nf);
    let mut c = EllCalc::new(n);
    let tau = r.pos("tau", 1e-5, 1e5);
    let tsq = tau * tau;
    r.put("tsq", format!("{:?}", tsq));
    let sgn = r.flag("shallow", 0.3);
    let mut f0 = match r.below(5) { 0 => 0.0, 1 => r.uni(0.0, 1.0 / nf), 2 => r.uni(0.9, 0.999), _ => r.uni(0.0, 1.0) };
    if sgn { f0 = -f0; }
    let mut f1 = r.uni(f0, 1.0);
    if let Some(m) = r.named { if let (Some(a), Some(b), Some(t)) = (m.get("b0"), m.get("b1"), m.get("tsq")) { if *t > 0.0 { f0 = a / t.sqrt(); f1 = b / t.sqrt(); } } }
    let (b0, b1) = (f0 * tau, f1 * tau);
    r.put("b0", format!("{:?}", b0));
    r.put("b1", format!("{:?}", b1));
    let b0b1 = b0 * b1;
    let eta = tsq + nf * b0b1;
    let inside = f0 < f1 && f1 < 0.9999 && f0 > -0.9999 && f0.abs() < 0.9999;
    if inside && eta > 1e-6 * tsq && (f1 - f0) > 1e-3 && (f0 + f1).abs() > 1e-2 {
        let fast = core.calc_parallel_bias_cut_fast(b0, b1, tsq, b0b1, eta);
        let old = core.calc_parallel_bias_cut_fast_old(b0, b1, tsq, b0b1, eta);
        if !t3_close(fast, old, tau, 1e-5) { return Err(format!("two formulas for the parallel cut disagree: fast {:?}, old {:?} (n {}, b0 {:?}, b1 {:?}, tsq {:?})", fast, old, n, b0, b1, tsq)); }
        let plain = core.calc_parallel_bias_cut(b0, b1, tsq);
        if !t3_close(fast, plain, tau, 1e-9) { return Err(format!("calc_parallel_bias_cut {:?} differs from its fast form {:?}", plain, fast)); }
    }
    if f1 > 1e-3 && f1 < 0.9999 {
        let a = core.calc_parallel_central_cut(b1, tsq);
        let b = core.calc_parallel_bias_cut(0.0, b1, tsq);
        if !t3_close(a, b, tau, 1e-6) { return Err(format!("central parallel cut {:?} differs from the deep parallel cut at offset 0 {:?} (n {}, b1 {:?}, tsq {:?})", a, b, n, b1, tsq)); }
    }
    let a = core.calc_central_cut(tsq);
    let b = core.calc_bias_cut(0.0, tau);
    if !t3_close(a, b, tau, 1e-9) { return Err(format!("central cut {:?} differs from the deep cut at offset 0 {:?}", a, b)); }
    // the parallel calculators fall back to the single cut
    let inf = if r.chance(0.5) { f64::INFINITY } else { tau * r.uni(1.0000001, 3.0) };
    let off = r.flag("off", 0.5);
    c.use_parallel_cut = !off;
    let bb = if off { b1.max(b0) } else { inf };
    let bc = if off { b1.abs() } else { inf };
    let dq = b0 < 0.0;
    let pairs = [
        ("bias", c.calc_single_or_parallel_bias_cut(&ParallelCut(b0.abs(), Some(bb.max(b0.abs()))), tsq), c.calc_bias_cut(b0.abs(), tsq)),
        ("central", c.calc_single_or_parallel_central_cut(&ParallelCut(b0, Some(bc)), tsq), c.calc_central_cut(tsq)),
        ("q", c.calc_single_or_parallel_q(&ParallelCut(b0, Some(bb.max(0.0).max(b0))), tsq), c.calc_bias_cut_q(b0, tsq)),
        ("bias/none", c.calc_single_or_parallel_bias_cut(&ParallelCut(b0.abs(), None), tsq), c.calc_bias_cut(b0.abs(), tsq)),
        ("central/none", c.calc_single_or_parallel_central_cut(&ParallelCut(b0, None), tsq), c.calc_central_cut(tsq)),
        ("q/none", c.calc_single_or_parallel_q(&ParallelCut(b0, None), tsq), c.calc_bias_cut_q(b0, tsq)),
    ];
    for (nm, x, y) in pairs.iter() {
        if x.0 != y.0 || (x.0 == CutStatus::Success && !t3_close(x.1, y.1, tau, 1e-9)) { return Err(format!("{}: an inactive second offset changes the cut: {:?} vs {:?} (n {}, tsq {:?}, b0 {:?}, off {})", nm, x, y, n, tsq, b0, off)); }
    }
    // q mode equals the plain mode for a deep cut
    if !dq {
        let (x, y) = (c.calc_bias_cut_q(b0, tsq), c.calc_bias_cut(b0, tsq));
        if x.0 != y.0 || (x.0 == CutStatus::Success && !t3_close(x.1, y.1, tau, 1e-9)) { return Err(format!("q cut {:?} differs from the deep cut {:?} at offset {:?} tsq {:?}", x, y, b0, tsq)); }
    }
    Ok(true)
}
pub fn cases(p: &str) -> Vec<(&'static str, Case)> {
    match p {
        "P01" => vec![("contain", contain)],
        "P02" => vec![("verdict", verdict)],
        "P03" => vec![("shape", shape), ("shape", shape), ("shape", shape), ("construct", construct)],
        "P04" => vec![("represent", represent), ("represent", represent), ("represent", represent), ("construct", construct)],
        "P22" => vec![("calc", calc)],
        _ => vec![],
    }
}
