//! Drivers: scripted oracles and spaces that log every call, compared with the specified protocol;
//! and end-to-end runs on real ellipsoids with a planted solution.
use crate::lin::*;
use crate::rng::R;
use crate::Case;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use std::cell::RefCell;
use std::rc::Rc;

type Log = Rc<RefCell<Vec<String>>>;

/// deterministic scripted answers, a function of the call number and of the mock's state
#[derive(Clone)]
struct Script { seed: u64, p_ok: f64, p_noeff: f64, tiny: f64, feas_at: i64, p_shrunk: f64, p_alt: f64, tol: f64 }
fn h(a: u64, b: u64, c: u64) -> u64 { crate::rng::splitmix(a ^ crate::rng::splitmix(b.wrapping_mul(31) ^ crate::rng::splitmix(c))) }
fn u(a: u64, b: u64, c: u64) -> f64 { (h(a, b, c) >> 11) as f64 / (1u64 << 53) as f64 }

#[derive(Clone)]
struct MSpace { log: Log, id: u64, sc: Script, ts: f64, x: i64, label: &'static str }
#[derive(Clone, Copy, PartialEq, Debug)]
struct MCut(u64);
impl MSpace {
    fn status(&self, kind: u64, cut: u64) -> CutStatus {
        let v = u(self.sc.seed, self.id * 7 + kind, cut);
        if v < self.sc.p_ok { CutStatus::Success } else if v < self.sc.p_ok + self.sc.p_noeff { CutStatus::NoEffect } else { CutStatus::NoSoln }
    }
    fn step(&mut self, kind: u64, g: i64, cut: u64) -> CutStatus {
        let nm = ["bias", "central", "q"][kind as usize];
        self.log.borrow_mut().push(format!("{}.{}(space#{}, g{}, c{})", self.label, nm, self.id, g, cut));
        let st = self.status(kind, cut ^ g as u64);
        self.ts = {
            let v = u(self.sc.seed, self.id, cut ^ 99);
            if v < self.sc.tiny { self.sc.tol * 0.5 } else if v < self.sc.tiny * 1.5 { self.sc.tol } else { self.sc.tol * 2.0 + 1.0 }
        };
        self.id = h(self.id, kind, cut ^ (g as u64)) % 1_000_000_007;
        if st == CutStatus::Success { self.x = (h(self.id, 5, 5) % 1_000_000) as i64; }
        st
    }
}
impl SearchSpace for MSpace {
    type ArrayType = i64;
    fn xc(&self) -> i64 { self.x }
    fn tsq(&self) -> f64 { self.ts }
    fn update_bias_cut<T>(&mut self, cut: &(i64, T)) -> CutStatus where T: UpdateByCutChoice<Self, ArrayType = i64> { cut.1.update_bias_cut_by(self, &cut.0) }
    fn update_central_cut<T>(&mut self, cut: &(i64, T)) -> CutStatus where T: UpdateByCutChoice<Self, ArrayType = i64> { cut.1.update_central_cut_by(self, &cut.0) }
    fn update_q<T>(&mut self, cut: &(i64, T)) -> CutStatus where T: UpdateByCutChoice<Self, ArrayType = i64> { cut.1.update_q_by(self, &cut.0) }
    fn set_xc(&mut self, x: i64) { self.log.borrow_mut().push(format!("{}.set_xc({})", self.label, x)); self.x = x; }
}
impl UpdateByCutChoice<MSpace> for MCut {
    type ArrayType = i64;
    fn update_bias_cut_by(&self, s: &mut MSpace, g: &i64) -> CutStatus { s.step(0, *g, self.0) }
    fn update_central_cut_by(&self, s: &mut MSpace, g: &i64) -> CutStatus { s.step(1, *g, self.0) }
    fn update_q_by(&self, s: &mut MSpace, g: &i64) -> CutStatus { s.step(2, *g, self.0) }
}
#[derive(Clone)]
struct MOracle { log: Log, n: u64, sc: Script, gam: f64 }
impl MOracle {
    fn cut(&mut self) -> (i64, MCut) {
        let c = h(self.sc.seed, self.n, 3) % 100_000;
        (((c * 7) % 1000) as i64, MCut(c))
    }
}
impl OracleFeas<i64> for MOracle {
    type CutChoice = MCut;
    fn assess_feas(&mut self, x: &i64) -> Option<(i64, MCut)> {
        self.n += 1;
        self.log.borrow_mut().push(format!("assess_feas({}) gamma={:?}", x, self.gam));
        if self.n as i64 == self.sc.feas_at || u(self.sc.seed, self.n, 21) < 0.02 { return None; }
        Some(self.cut())
    }
    fn update(&mut self, g: f64) { self.log.borrow_mut().push(format!("update({:?})", g)); self.gam = g; }
}
impl OracleOptim<i64> for MOracle {
    type CutChoice = MCut;
    fn assess_optim(&mut self, x: &i64, gamma: &mut f64) -> ((i64, MCut), bool) {
        self.n += 1;
        self.log.borrow_mut().push(format!("assess_optim({}, {:?})", x, gamma));
        let s = u(self.sc.seed, self.n, 8) < self.sc.p_shrunk;
        if s { *gamma += 1.0 + u(self.sc.seed, self.n, 9); }
        (self.cut(), s)
    }
}
impl OracleOptimQ<i64> for MOracle {
    type CutChoice = MCut;
    fn assess_optim_q(&mut self, x: &i64, gamma: &mut f64, retry: bool) -> ((i64, MCut), bool, i64, bool) {
        self.n += 1;
        self.log.borrow_mut().push(format!("assess_optim_q({}, {:?}, {})", x, gamma, retry));
        let s = u(self.sc.seed, self.n, 8) < self.sc.p_shrunk;
        if s { *gamma += 1.0 + u(self.sc.seed, self.n, 9); }
        let alt = u(self.sc.seed, self.n, 10) < self.sc.p_alt;
        (self.cut(), s, (h(self.sc.seed, self.n, 11) % 100000) as i64, alt)
    }
}
fn setup(r: &mut R) -> (Script, Options) {
    let mi = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => r.below(200), _ => r.below(20) };
    let mi = if r.chance(0.1) { r.dim("mi", 0, 300) } else { mi };
    let tol = *r.pick("tol", &[1e-20, 1e-8, 0.5, 2.0]);
    let sc = Script {
        seed: r.next(),
        p_ok: *r.pick("p_ok", &[0.97, 0.9, 1.0, 0.995]),
        p_noeff: *r.pick("p_noeff", &[0.02, 0.08, 0.0, 0.1]),
        tiny: *r.pick("p_tiny", &[0.0, 0.02, 0.1]),
        feas_at: if r.chance(0.5) { 1 + r.below(mi.max(1) + 2) as i64 } else { -1 },
        p_shrunk: *r.pick("p_shrunk", &[0.0, 0.3, 0.5, 0.9]),
        p_alt: *r.pick("p_alt", &[0.0, 0.5, 1.0]),
        tol,
    };
    r.put("script_seed", sc.seed.to_string());
    r.put("feas_at", sc.feas_at.to_string());
    r.put("max_iters", mi.to_string());
    let mut o = Options::new(mi, tol);
    o.verbose = r.chance(0.2);
    (sc, o)
}
fn mocks(sc: &Script, label: &'static str) -> (MOracle, MSpace, Log) {
    let log: Log = Rc::new(RefCell::new(vec![]));
    (MOracle { log: log.clone(), n: 0, sc: sc.clone(), gam: 0.0 }, MSpace { log: log.clone(), id: 1, sc: sc.clone(), ts: 0.0, x: 17, label }, log)
}
fn diff(a: &Log, b: &Log) -> Result<(), String> {
    let (a, b) = (a.borrow(), b.borrow());
    for i in 0..a.len().max(b.len()) {
        let none = "(nothing)".to_string();
        let (x, y) = (a.get(i).unwrap_or(&none), b.get(i).unwrap_or(&none));
        if x != y { return Err(format!("call {}: driver did {}, protocol says {}", i, x, y)); }
    }
    Ok(())
}
/// reference: the protocol of the feasibility search
fn ref_feas(o: &mut MOracle, s: &mut MSpace, mi: usize, tol: f64) -> (Option<i64>, usize) {
    let mut k = 0;
    while k < mi {
        let x = s.xc();
        match o.assess_feas(&x) {
            None => return (Some(x), k),
            Some(c) => {
                let st = s.update_bias_cut(&c);
                if st != CutStatus::Success || s.tsq() < tol { return (None, k); }
            }
        }
        k += 1;
    }
    (None, mi)
}
fn feas(r: &mut R) -> Result<bool, String> {
    let (sc, op) = setup(r);
    let (mut o, mut s, l) = mocks(&sc, "s");
    let (mut o2, mut s2, l2) = mocks(&sc, "s");
    let got = cutting_plane_feas(&mut o, &mut s, &op);
    let want = ref_feas(&mut o2, &mut s2, op.max_iters, op.tolerance);
    diff(&l, &l2)?;
    if got != want { return Err(format!("result {:?}, protocol says {:?}", got, want)); }
    if s.id != s2.id || s.x != s2.x { return Err("final search space differs".into()); }
    Ok(op.max_iters > 0)
}
fn optim(r: &mut R) -> Result<bool, String> {
    let (sc, op) = setup(r);
    let (mut o, mut s, l) = mocks(&sc, "s");
    let (mut o2, mut s2, l2) = mocks(&sc, "s");
    let mut g = r.f("gamma");
    let mut g2 = g;
    let got = cutting_plane_optim(&mut o, &mut s, &mut g, &op);
    let want = {
        let mut best = None;
        let mut k = 0;
        loop {
            if k == op.max_iters { break (best, k); }
            let x = s2.xc();
            let (c, sh) = o2.assess_optim(&x, &mut g2);
            let st = if sh { best = Some(x); s2.update_central_cut(&c) } else { s2.update_bias_cut(&c) };
            if st != CutStatus::Success || s2.tsq() < op.tolerance { break (best, k); }
            k += 1;
        }
    };
    diff(&l, &l2)?;
    if got != want { return Err(format!("result {:?}, protocol says {:?}", got, want)); }
    if g != g2 { return Err(format!("gamma {:?}, protocol says {:?}", g, g2)); }
    Ok(op.max_iters > 0)
}
fn optim_q(r: &mut R) -> Result<bool, String> {
    let (mut sc, op) = setup(r);
    if r.chance(0.5) { sc.p_ok = 0.7; sc.p_noeff = 0.3; sc.p_alt = *r.pick("p_alt2", &[0.9, 0.5, 1.0]); r.put("p_ok2", "0.7".into()); }
    let (mut o, mut s, l) = mocks(&sc, "s");
    let (mut o2, mut s2, l2) = mocks(&sc, "s");
    let mut g = r.f("gamma");
    let mut g2 = g;
    let got = cutting_plane_optim_q(&mut o, &mut s, &mut g, &op);
    let want = {
        let mut best = None;
        let mut retry = false;
        let mut k = 0;
        loop {
            if k == op.max_iters { break (best, k); }
            let x = s2.xc();
            let (c, sh, xq, alt) = o2.assess_optim_q(&x, &mut g2, retry);
            if sh { best = Some(xq); }
            match s2.update_q(&c) {
                CutStatus::Success => retry = false,
                CutStatus::NoSoln => break (best, k),
                _ => { if !alt { break (best, k); } retry = true; }
            }
            if s2.tsq() < op.tolerance { break (best, k); }
            k += 1;
        }
    };
    diff(&l, &l2)?;
    if got != want { return Err(format!("result {:?}, protocol says {:?}", got, want)); }
    if g != g2 { return Err(format!("gamma {:?}, protocol says {:?}", g, g2)); }
    Ok(op.max_iters > 0)
}
struct Mono { t: f64, calls: Vec<f64>, arb: Option<u64> }
impl OracleBS for Mono {
    fn assess_bs(&mut self, g: f64) -> bool {
        self.calls.push(g);
        match self.arb { Some(s) => h(s, self.calls.len() as u64, 1) % 2 == 0, None => g >= self.t }
    }
}
fn bs(r: &mut R) -> Result<bool, String> {
    let lo = r.f("lower");
    let w = r.pos("width", 1e-6, 1e6);
    let w = if r.chance(0.05) { 0.0 } else { w };
    let hi = lo + w;
    r.put("upper", format!("{:?}", hi));
    let mi = r.dim("max_iters", 0, 80);
    let tol = *r.pick("tol", &[1e-20, 1e-8, 1e-3, 0.5, 1.0]);
    let t = match r.below(5) { 0 => lo - 1.0, 1 => hi, 2 => hi + 1.0, _ => lo + w * r.unit() };
    r.put("threshold", format!("{:?}", t));
    let arb = if r.chance(0.3) { Some(r.next()) } else { None };
    let mut o = Mono { t, calls: vec![], arb };
    let mut iv = (lo, hi);
    let (ok, k) = bsearch(&mut o, &mut iv, &Options::new(mi, tol));
    // the specified bisection
    let (mut a, mut b) = (lo, hi);
    let mut n = 0;
    let mut any = false;
    let mut o2 = Mono { t, calls: vec![], arb };
    while n < mi && (b - a) / 2.0 >= tol {
        let m = a + (b - a) / 2.0;
        if o2.assess_bs(m) { if m != hi { any = true; } b = m; } else { a = m; }
        n += 1;
    }
    let sc = lo.abs().max(hi.abs()).max(w);
    let c = |x: f64, y: f64| (x - y).abs() <= 1e-12 * sc;
    if (b - a) < 1e-11 * sc && w > 0.0 { return Ok(false); } // rounding decides the rest
    if o.calls.len() != o2.calls.len() { return Err(format!("{} oracle calls, bisection needs {}", o.calls.len(), o2.calls.len())); }
    for (i, (x, y)) in o.calls.iter().zip(o2.calls.iter()).enumerate() { if !c(*x, *y) { return Err(format!("call {}: probed {:?}, midpoint is {:?}", i, x, y)); } }
    if !c(iv.0, a) || !c(iv.1, b) { return Err(format!("interval left as {:?}, bisection ends with {:?}", iv, (a, b))); }
    if k != n { return Err(format!("reports {} iterations, {} were made", k, n)); }
    if ok != (b != hi) && any == (b != hi) { return Err(format!("feasible flag {} although upper end {}", ok, if b != hi { "moved" } else { "never moved" })); }
    if arb.is_none() && t > lo && t <= hi && !(iv.0 < t + 1e-12 * sc && t <= iv.1 + 1e-12 * sc) { return Err(format!("threshold {:?} escaped the interval {:?}", t, iv)); }
    Ok(mi > 0 && w > 0.0)
}
/// the adaptor runs a feasibility search on a copy and keeps the found point
fn adaptor(r: &mut R) -> Result<bool, String> {
    let (sc, op) = setup(r);
    let (mi, tol) = (op.max_iters, op.tolerance);
    let (o, s, l) = mocks(&sc, "s");
    let (mut o2, mut s2, l2) = mocks(&sc, "s");
    let mut ad = BSearchAdaptor::new(o, s, op);
    for i in 0..3 {
        let g = r.f("gamma");
        let got = ad.assess_bs(g);
        let mut c = s2.clone();
        o2.update(g);
        let (x, _) = ref_feas(&mut o2, &mut c, mi, tol);
        let want = x.is_some();
        if let Some(x) = x { s2.set_xc(x); }
        diff(&l, &l2)?;
        if got != want { return Err(format!("round {}: answer {}, expected {}", i, got, want)); }
        if ad.space.x != s2.x || ad.space.id != s2.id { return Err(format!("round {}: the adaptor's space became #{} at {}, expected #{} at {}", i, ad.space.id, ad.space.x, s2.id, s2.x)); }
    }
    Ok(mi > 0)
}
/// round-robin oracle of half-spaces a'x <= b
struct Half { a: Vec<Vec<f64>>, b: Vec<f64>, parallel: bool, w: f64, log: Vec<Vec<f64>> }
impl OracleFeas<Arr> for Half {
    type CutChoice = ParallelCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, ParallelCut)> {
        self.log.push(x.data().to_vec());
        for i in 0..self.a.len() {
            let v = dot(&self.a[i], x.data()) - self.b[i];
            if v > 0.0 { return Some((Arr::from(self.a[i].clone()), ParallelCut(v, if self.parallel { Some(v + self.w) } else { None }))); }
        }
        None
    }
}
fn planted(r: &mut R) -> Result<bool, String> {
    let n = r.dim("n", 2, 6);
    let m = 1 + r.below(8);
    let rad = 5.0;
    let mut xs: Vec<f64> = (0..n).map(|_| r.uni(-1.0, 1.0)).collect();
    let nx = dot(&xs, &xs).sqrt();
    for x in xs.iter_mut() { *x *= rad * 0.9 / nx.max(1.0); }
    r.put("feasible_point", format!("{:?}", xs));
    let parallel = r.flag("parallel", 0.4);
    let slack = *r.pick("slack", &[0.5, 0.1, 0.02]);
    let a: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| r.uni(-1.0, 1.0)).collect()).collect();
    let b: Vec<f64> = a.iter().map(|v| dot(v, &xs) + slack * dot(v, v).sqrt()).collect();
    // sometimes one half-space that leaves a thin cap around the point
    let (mut a, mut b, mut m) = (a, b, m);
    if r.flag("thin cap", 0.15) {
        let nx = dot(&xs, &xs).sqrt();
        if nx > 0.1 {
            let e = *r.pick("cap", &[1e-3, 1e-2, 1e-5]);
            a = vec![xs.iter().map(|v| -v / nx).collect()];
            for x in xs.iter_mut() { *x *= rad * (1.0 - e) / nx; }
            b = vec![dot(&a[0], &xs) + e * rad * 0.5];
            m = 1;
            r.put("point in the cap", format!("{:?}", xs));
        }
    }
    r.put("a", format!("{:?}", a));
    // with parallel cuts each constraint is a slab a'x in [b-w, b]
    let w = 2.0;
    let mut o = Half { a: a.clone(), b: b.clone(), parallel, w: if parallel { w } else { 0.0 }, log: vec![] };
    let opts = Options::new(400, 1e-12);
    let stable = r.flag("stable", 0.5);
    // the slab must contain the planted point, and acceptance must honour both sides
    let (x, k, status_none) = if stable {
        let mut s = EllStable::new_with_scalar(rad * rad, Arr::new(n));
        let (x, k) = cutting_plane_feas(&mut o, &mut s, &opts);
        if x.is_none() && k < 400 && s.tsq() >= 1e-12 { return Err(format!("infeasible verdict at iteration {} although {:?} satisfies every constraint and lies in the initial ball", k, xs)); }
        let none = x.is_none();
        (x, k, none)
    } else {
        let mut s = Ell::new_with_scalar(rad * rad, Arr::new(n));
        let (x, k) = cutting_plane_feas(&mut o, &mut s, &opts);
        if x.is_none() && k < 400 && s.tsq() >= 1e-12 { return Err(format!("infeasible verdict at iteration {} although {:?} satisfies every constraint and lies in the initial ball", k, xs)); }
        let none = x.is_none();
        (x, k, none)
    };
    if let Some(x) = x {
        for i in 0..m { if dot(&a[i], x.data()) > b[i] + 1e-12 { return Err(format!("returned point {:?} violates constraint {}", x.data(), i)); } }
        if o.log.last().map(|l| &l[..]) != Some(x.data()) { return Err("the returned point is not the last point the oracle saw".into()); }
        if o.log.len() != k + 1 { return Err(format!("{} assessments but {} iterations reported", o.log.len(), k)); }
    } else if status_none && k < 400 && slack >= 0.1 {
        return Err(format!("no point found (iteration {}) although a ball of radius {} around {:?} is feasible", k, slack, xs));
    }
    Ok(true)
}
/// maximise c'x over half-spaces: the optimum is never lost
struct Lin { c: Vec<f64>, a: Vec<Vec<f64>>, b: Vec<f64>, hist: Vec<(f64, bool)> }
impl OracleOptim<Arr> for Lin {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        for i in 0..self.a.len() {
            let v = dot(&self.a[i], x.data()) - self.b[i];
            if v > 0.0 { self.hist.push((*gamma, false)); return ((Arr::from(self.a[i].clone()), SingleCut(v)), false); }
        }
        let f = dot(&self.c, x.data());
        let g: Vec<f64> = self.c.iter().map(|v| -v).collect();
        if f < *gamma { self.hist.push((*gamma, false)); return ((Arr::from(g), SingleCut(*gamma - f)), false); }
        *gamma = f;
        self.hist.push((f, true));
        ((Arr::from(g), SingleCut(0.0)), true)
    }
}
fn planted_opt(r: &mut R) -> Result<bool, String> {
    let n = r.dim("n", 2, 5);
    let rad: f64 = 4.0;
    let c: Vec<f64> = (0..n).map(|_| r.uni(-1.0, 1.0)).collect();
    if dot(&c, &c) < 0.05 { return Ok(false); }
    // box -1 <= x <= 1 (inside the initial ball): optimum sum |c_i|
    let mut a = vec![];
    let mut b = vec![];
    for i in 0..n { for s in [1.0, -1.0] { let mut v = vec![0.0; n]; v[i] = s; a.push(v); b.push(1.0); } }
    r.put("c", format!("{:?}", c));
    let best: f64 = c.iter().map(|v| v.abs()).sum();
    let mut o = Lin { c: c.clone(), a, b, hist: vec![] };
    let mut gamma = -1e9;
    let opts = Options::new(3000, 1e-14);
    let stable = r.flag("stable", 0.5);
    let x0 = Arr::from((0..n).map(|_| r.uni(-0.5, 0.5)).collect::<Vec<_>>());
    r.put("x0", format!("{:?}", x0.data()));
    let (x, _k) = if stable {
        let mut s = EllStable::new_with_scalar(rad * rad * n as f64, x0);
        cutting_plane_optim(&mut o, &mut s, &mut gamma, &opts)
    } else {
        let mut s = Ell::new_with_scalar(rad * rad * n as f64, x0);
        cutting_plane_optim(&mut o, &mut s, &mut gamma, &opts)
    };
    let x = match x { Some(x) => x, None => return Err("no point found although the centre of the box is feasible".into()) };
    let f = dot(&c, x.data());
    if (f - gamma).abs() > 1e-9 { return Err(format!("gamma {:?} is not the value {:?} of the returned point", gamma, f)); }
    if best - gamma > 1e-3 * best { return Err(format!("stopped at {:?}, the optimum is {:?}", gamma, best)); }
    Ok(true)
}
pub fn cases(p: &str) -> Vec<(&'static str, Case)> {
    match p {
        "P05" => vec![("protocol", feas)],
        "P06" => vec![("planted", planted), ("planted optimum", planted_opt)],
        "P07" => vec![("protocol", optim)],
        "P08" => vec![("protocol", optim_q)],
        "P09" => vec![("bisection", bs), ("bisection", bs), ("adaptor", adaptor)],
        _ => vec![],
    }
}
