"""Contracts of the cut calculators (EllCalc): scalar facts about (status, rho, sigma, delta)."""
from unit import *

SUCCESS, NOSOLN, NOEFFECT = ic(0), ic(1), ic(2)
CALC = {  # mode -> (single entry, parallel entry)
    "bias": ("EllCalc::calc_bias_cut", "EllCalc::calc_single_or_parallel_bias_cut"),
    "central": ("EllCalc::calc_central_cut", "EllCalc::calc_single_or_parallel_central_cut"),
    "q": ("EllCalc::calc_bias_cut_q", "EllCalc::calc_single_or_parallel_q"),
}
def nf_of(n): return toreal(n)

def calc_pre(mode, kind, b0, b1, tsq):
    """preconditions of a cut"""
    p = [lt(rc(0), tsq)]
    if mode == "bias": p.append(le(rc(0), b0))
    if kind == "parallel" and mode != "bias": p.append(le(rc(0), b1) if mode == "q" else TRUE)
    return p

def interval(mode, kind, b0, b1, up, s):
    """the cut's allowed values of s = g'(x - xc)"""
    lo0 = rc(0) if mode == "central" else b0
    c = [le(s, neg(lo0))]
    if kind == "parallel": c.append(le(neg(b1), s))
    return c

def nonempty(mode, kind, b0, b1, tsq):
    """some s with s^2 <= tsq satisfies the cut (quantifier-free, for the preconditions above)"""
    lo0 = rc(0) if mode == "central" else b0
    c = [or_(le(lo0, rc(0)), le(mul(lo0, lo0), tsq))]
    if kind == "parallel": c.append(le(lo0, b1))
    return and_(*c)

def helper(ex, cr, n, up):
    h = ex.call_fn(cr.find("EllCalc::new"), [n])
    return h.set("use_parallel_cut", up)

def calc_outs(c, mode, kind, n, up, b0, b1, tsq, pre):
    single, par = CALC[mode]
    def mk(ex):
        h = helper(ex, c.crate, n, up)
        if kind == "single":
            return ([tsq] if mode == "central" else [b0, tsq]), h
        some = TRUE if kind == "parallel" else FALSE
        return [Struct("ParallelCut", {"0": b0, "1": Opt(some, b1 if some is TRUE else None)}), tsq], h
    return c.run(single if kind == "single" else par, mk, pre=pre, label=(single if kind == "single" else par))

def gen(t, n, nf):
    """generalise the integer dimension to a real number"""
    return subst(t, {toreal(n): nf}) if not is_c(n) else t

def scalar_goals(c, mode, kind, parts):
    n = c.N("n", 2)
    up, b0, b1, tsq, s = c.B("up"), c.R("b0"), c.R("b1"), c.R("tsq"), c.R("s")
    pre = calc_pre(mode, kind, b0, b1, tsq)
    outs = calc_outs(c, mode, kind, n, up, b0, b1, tsq, pre)
    lab = outs[0].ex.obs and ""
    fn = CALC[mode][0 if kind == "single" else 1]
    nf = c.R("nf")
    # generalise n to a real >= 2 in every obligation of this run
    if not is_c(n):
        c.goals = [(f, nm, [gsub(h, n, nf) for h in hy] + [le(rc(2), nf)], gsub(g, n, nf), i, x, l) for f, nm, hy, g, i, x, l in c.goals]
    N_ = nf if not is_c(n) else toreal(n)
    for o in outs:
        st, (rho, sig, dlt) = o.ret.xs[0].code, o.ret.xs[1].xs
        rho, sig, dlt, st = [gsub(x, n, nf) for x in (rho, sig, dlt, st)]
        pc = [gsub(h, n, nf) for h in o.pc] + ([le(rc(2), nf)] if not is_c(n) else [])
        G = lambda name, g, extra=(): c.goal(name, pc + list(extra), g, fn=fn)
        tau = sqrt_(tsq)
        ok = eq(st, SUCCESS)
        lo0 = rc(0) if mode == "central" else b0
        nondeg = [or_(lt(lo0, rc(0)), lt(mul(lo0, lo0), tsq))] + ([lt(lo0, b1)] if kind == "parallel" else [])
        if "status" in parts:
            G("no-solution verdict iff the cut leaves no point", eq_b(eq(st, NOSOLN), not_(nonempty(mode, kind, b0, b1, tsq))))
            if mode == "q":
                act = and_(lt(mul(b1, b1), tsq), up) if kind == "parallel" else FALSE
                eta = le(add(tsq, mul(N_, b0, b1)), rc(0)) if kind == "parallel" else FALSE
                eta1 = lt(add(tau, mul(N_, b0)), rc(0))
                G("no-effect verdict only for a cut too shallow to shrink the ellipsoid", eq_b(eq(st, NOEFFECT), and_(nonempty(mode, kind, b0, b1, tsq), ite_b(act, eta, eta1))))
                G("verdict is success, no-solution or no-effect", or_(eq(st, SUCCESS), eq(st, NOSOLN), eq(st, NOEFFECT)))
            else:
                G("verdict is success or no-solution", or_(eq(st, SUCCESS), eq(st, NOSOLN)))
        if not smt.satisfiable(pc + [ok] + nondeg, 2000):
            continue
        hy = [ok] + nondeg
        om = sub(rc(1), sig)
        K = mul(dlt, tsq, om)
        f = lambda s: add(mul(sub(tsq, mul(s, s)), om), mul(add(s, rho), add(s, rho)))
        if "contain" in parts:
            # f is convex in s (coefficient sigma); it is enough at the ends of the interval
            G("sigma >= 0", le(rc(0), sig), hy)
            G("new ellipsoid keeps the near face s = -beta0", le(f(neg(lo0)), K), hy)
            if kind == "parallel":
                inact = or_(le(tsq, mul(b1, b1)), not_(up))
                G("new ellipsoid keeps the far face s = -beta1", implies(not_(inact), le(f(neg(b1)), K)), hy)
                G("new ellipsoid keeps the far pole s = -tau", implies(inact, le(f(neg(tau)), K)), hy)
            else:
                G("new ellipsoid keeps the far pole s = -tau", le(f(neg(tau)), K), hy)
        if "shrink" in parts:
            G("0 <= sigma < 1", and_(le(rc(0), sig), lt(sig, rc(1))), hy)
            G("delta > 0", lt(rc(0), dlt), hy)
            strict = hy
            if mode == "q":
                act = and_(lt(mul(b1, b1), tsq), up) if kind == "parallel" else FALSE
                strict = hy + [implies(not_(act), lt(rc(0), add(tau, mul(N_, b0))))]
            # strict decrease of the volume, delta^n (1-sigma) < 1, follows by AM-GM (lean: volume_lt)
            G("volume strictly decreases: sigma > 0", lt(rc(0), sig), strict)
            G("volume strictly decreases: delta*(n - sigma) <= n", le(mul(dlt, sub(N_, sig)), N_), strict)

def gsub(t, n, nf):
    if is_c(n): return t
    return subst(t, {n: nf})
def eq_b(a, b): return and_(implies(a, b), implies(b, a))
def ite_b(c, a, b): return and_(implies(c, a), implies(not_(c), b))

for _m in ("bias", "central", "q"):
    for _k in ("single", "none", "parallel"):
        def _f(c, m=_m, k=_k): scalar_goals(c, m, k, ("status", "contain", "shrink"))
        unit("calc:%s:%s" % (_m, _k), dims=(2, 3, 5))(_f)

# ------------------------------------------------------------------------------------------- agreement (P22)
def agree(c, title, A_, B_, pre, n, core=False):
    """two calculator calls (name, args) with the same settings describe the same cut: equal verdicts and,
    on success, equal parameters"""
    nf, up = c.R("nf"), c.B("up")
    def outs(q, args):
        def mk(ex):
            h = helper(ex, c.crate, n, up)
            return args, (h.fs["helper"] if q.startswith("EllCalcCore") else h)
        return c.run(q, mk, pre=pre, label=q)
    oa, ob = outs(*A_), outs(*B_)
    if not is_c(n):
        c.goals = [(f, nm, [gsub(h, n, nf) for h in hy] + [le(rc(2), nf)], gsub(g, n, nf), i, x, l) for f, nm, hy, g, i, x, l in c.goals]
    dim = [le(rc(2), nf)] if not is_c(n) else []
    for a in oa:
        for b in ob:
            pc = [gsub(h, n, nf) for h in list(a.pc) + list(b.pc)] + dim
            if not smt.satisfiable(pc, 2000): continue
            G = lambda name, g: c.goal("%s: %s" % (title, name), pc, gsub(g, n, nf), fn=A_[0])
            if core: pa, pb, ok = a.ret.xs, b.ret.xs, TRUE
            else:
                sa, sb = a.ret.xs[0].code, b.ret.xs[0].code
                pa, pb = a.ret.xs[1].xs, b.ret.xs[1].xs
                G("same verdict", eq(sa, sb))
                ok = eq(sa, SUCCESS)
            for nm, x, y in zip(("rho", "sigma", "delta"), pa, pb):
                G("same " + nm, implies(ok, eq(x, y)))

def par(b0, b1=None): return Struct("ParallelCut", {"0": b0, "1": Opt(TRUE if b1 is not None else FALSE, b1)})
_SINGLE = {"bias": lambda b0, t: [b0, t], "central": lambda b0, t: [t], "q": lambda b0, t: [b0, t]}

@unit("agree:central", dims=(2, 3, 5))
def agree_central(c):
    n, tsq = c.N("n", 2), c.R("tsq")
    agree(c, "central cut is the deep cut with offset zero", ("EllCalc::calc_central_cut", [tsq]), ("EllCalc::calc_bias_cut", [rc(0), tsq]), [lt(rc(0), tsq)], n)
    agree(c, "core central cut is the core deep cut with offset zero", ("EllCalcCore::calc_central_cut", [tsq]), ("EllCalcCore::calc_bias_cut", [rc(0), sqrt_(tsq)]), [lt(rc(0), tsq)], n, True)

def _absent(c, m):
    n, tsq, b0, b1 = c.N("n", 2), c.R("tsq"), c.R("b0"), c.R("b1")
    one, two = CALC[m]
    pos = [lt(rc(0), tsq)] + ([le(rc(0), b0)] if m == "bias" else [])
    agree(c, "second half-space absent", (two, [par(b0), tsq]), (one, _SINGLE[m](b0, tsq)), pos, n)
    if m == "bias": direct = ("EllCalc::calc_parallel_bias_cut", [b0, b1, tsq])
    elif m == "q": direct = ("EllCalc::calc_parallel_q", [b0, b1, tsq])
    else: direct = ("EllCalc::calc_parallel_central_cut", [b1, tsq])
    ordered = [le(rc(0), b1)] if m == "central" else [le(b0, b1)]
    agree(c, "second half-space switched off", (two, [par(b0, b1), tsq]), (one, _SINGLE[m](b0, tsq)), pos + ordered + [not_(c.B("up"))], n)
    agree(c, "second half-space inactive", (two, [par(b0, b1), tsq]), (one, _SINGLE[m](b0, tsq)), pos + ordered + [lt(rc(0), b1), le(tsq, mul(b1, b1))], n)
    agree(c, "both entries of the parallel cut", (two, [par(b0, b1), tsq]), direct, pos, n)
for _m in ("bias", "central", "q"):
    def _f(c, m=_m): _absent(c, m)
    unit("agree:absent:%s" % _m, dims=(2, 3, 5))(_f)

@unit("agree:parallel-central", dims=(2, 3, 5))
def agree_pc(c):
    n, tsq, b1 = c.N("n", 2), c.R("tsq"), c.R("b1")
    pre = [lt(rc(0), tsq)]
    agree(c, "parallel central cut is the parallel deep cut with first offset zero", ("EllCalc::calc_parallel_central_cut", [b1, tsq]), ("EllCalc::calc_parallel_bias_cut", [rc(0), b1, tsq]), pre + [or_(lt(b1, rc(0)), lt(rc(0), b1))], n)

@unit("agree:q", dims=(2, 3, 5))
def agree_q(c):
    n, tsq, b0, b1 = c.N("n", 2), c.R("tsq"), c.R("b0"), c.R("b1")
    pre = [lt(rc(0), tsq), le(rc(0), b0)]
    agree(c, "quantised cut is the deep cut for an offset >= 0", ("EllCalc::calc_bias_cut_q", [b0, tsq]), ("EllCalc::calc_bias_cut", [b0, tsq]), pre, n)
    agree(c, "quantised parallel cut is the parallel deep cut for an offset >= 0", ("EllCalc::calc_parallel_q", [b0, b1, tsq]), ("EllCalc::calc_parallel_bias_cut", [b0, b1, tsq]), pre, n)

@unit("agree:old", dims=(2, 3, 5))
def agree_old(c):
    n, tsq, b0, b1 = c.N("n", 2), c.R("tsq"), c.R("b0"), c.R("b1")
    b0b1, N_ = mul(b0, b1), toreal(n)
    eta = add(tsq, mul(N_, b0b1))
    pre = [lt(rc(0), tsq), lt(b0, b1), lt(mul(b1, b1), tsq), lt(mul(b0, b0), tsq), lt(rc(0), eta)]
    agree(c, "older and fast parallel formulas", ("EllCalcCore::calc_parallel_bias_cut_fast_old", [b0, b1, tsq, b0b1, eta]), ("EllCalcCore::calc_parallel_bias_cut_fast", [b0, b1, tsq, b0b1, eta]), pre, n, True)
    agree(c, "fast parallel formula behind the plain one", ("EllCalcCore::calc_parallel_bias_cut", [b0, b1, tsq]), ("EllCalcCore::calc_parallel_bias_cut_fast", [b0, b1, tsq, b0b1, eta]), pre, n, True)
