"""Contracts of the profit oracles (plain, robust, quantised).  Plans are y = ln x in R^2."""
from unit import *
from u_arr import probe, ref
import itertools
import unit as unit_

def exp(t): return exp_(t)
def ln(t): return ln_(t)
def v2(nm): return [var(nm + "0"), var(nm + "1")]
def arr2(xs): return Struct("Arr", {"data": CVec(list(xs)), "rows": ic(2), "cols": ic(0)})
def dot(a, b): return add(*[mul(x, y) for x, y in zip(a, b)])
def eqb(a, b): return and_(implies(a, b), implies(b, a))

def any_state(ex, v, tag="h"):
    """a freshly constructed oracle with everything that does not depend on its parameters arbitrary: any state an
    earlier query may have left.  Rotation counters stay in -1..1 (shown to be kept)."""
    cnt = itertools.count()
    def go(v):
        if isinstance(v, T):
            if not is_c(v): return v
            x = var("%s%d" % (tag, next(cnt)), v.sort)
            if v.sort == "I": ex.assume(and_(le(ic(-1), x), lt(x, ic(2))))
            return x
        if isinstance(v, Tup): return Tup([go(x) for x in v.xs])
        if isinstance(v, Struct):
            if v.name == "Arr": return Struct("Arr", {"data": go(v.fs["data"]), "rows": v.fs["rows"], "cols": v.fs["cols"]})
            return Struct(v.name, {k: go(x) for k, x in v.fs.items()})
        if isinstance(v, CVec): return CVec([go(x) for x in v.xs])
        raise Unsupported("state of the oracle")
    return go(v)

def counters(v):
    if isinstance(v, T): return [v] if v.sort == "I" and not is_c(v) else []
    if isinstance(v, Struct): return [x for k, y in v.fs.items() if not (v.name == "Arr") for x in counters(y)]
    if isinstance(v, (Tup, CVec)): return [x for y in v.xs for x in counters(y)]
    return []

UP, SC, LIM, GAM = var("up"), var("sc"), var("lim"), var("gam")
A, PR, Y = v2("a"), v2("p"), v2("y")
def plain(up=UP, lim=LIM, p=PR, a=A): return dict(lps=ln(mul(up, SC)), lk=ln(lim), p=p, a=a)
POS = [lt(rc(0), SC), le(rc(0), GAM)] + [lt(rc(0), p) for p in PR]

def terms(P, y, gam):
    q = [mul(p, exp(x)) for p, x in zip(P["p"], y)]
    vx = add(*q)
    lc = add(P["lps"], dot(P["a"], y))
    S = add(gam, vx)
    return q, vx, lc, S
def feas_cut(P, y, gam):
    q, vx, lc, S = terms(P, y, gam)
    return [(lt(rc(0), sub(y[0], P["lk"])), [rc(1), rc(0)], sub(y[0], P["lk"])),
            (lt(rc(0), sub(ln(S), lc)), [sub(div(q[i], S), P["a"][i]) for i in (0, 1)], sub(ln(S), lc))]

def answer(c, o, fn, P, y, gam, g, b, shr, gam2, hyps=(), base=None):
    """the answer of the plain oracle for the problem P at y; base: point the offset is re-based to"""
    q, vx, lc, S = terms(P, y, gam)
    cuts = feas_cut(P, y, gam)
    gs = [o.at(g, i) for i in (0, 1)]
    # g'(z - y) + b0 = g'(z - base) + b0 + g'(base - y)
    off = rc(0) if base is None else dot(gs, [sub(v, u) for u, v in zip(y, base)])
    H = list(hyps)
    if base is not None and "rebase-sign" in unit_.KNOWN:
        has = lambda d: any(smt.check(list(o.pc) + H, eq(b, add(v, d)), timeout=3000)[0] == "proved" for v in [rc(0)] + [x[2] for x in cuts])
        if not has(off) and has(neg(off)):
            off = neg(off)
            c.known.add("rebase-sign")
    c.post(o, "level is raised exactly when the plan meets the limit and the current profit", eqb(shr, and_(*[not_(x[0]) for x in cuts])), fn, hyps=H)
    ns = H + [not_(shr)]
    c.post(o, "level kept when the plan is refused", eq(gam2, gam), fn, hyps=ns)
    alts = [and_(cd, eq(gs[0], gg[0]), eq(gs[1], gg[1]), eq(b, add(bb, off))) for cd, gg, bb in cuts]
    goal = or_(*alts)
    for a in alts:
        if smt.check(list(o.pc) + ns, a, timeout=3000)[0] == "proved": goal = a; break
    c.post(o, "refusal cuts by a violated constraint with its exact gradient and value", goal, fn, hyps=ns)
    ys = H + [shr]
    c.post(o, "level becomes the exact profit of the plan", eq(gam2, sub(exp(lc), vx)), fn, hyps=ys)
    c.post(o, "level never falls", le(gam, gam2), fn, hyps=ys)
    for i in (0, 1):
        c.post(o, "improving cut has the gradient of the profit constraint at the new level", eq(gs[i], sub(div(q[i], exp(lc)), P["a"][i])), fn, hyps=ys)
    c.post(o, "improving cut passes through the plan", eq(b, off), fn, hyps=ys)

def keep(c, o, fn, s):
    for k in counters(o.val(s)): c.post(o, "rotation stays in range", and_(le(ic(-1), k), lt(k, ic(2))), fn)

def build(c, ex, qual, args): return any_state(ex, ex.call_fn(c.crate.find(qual), args, selfv=None))
def std(): return [Tup([UP, SC, LIM]), arr2(A), arr2(PR)]

@unit("profit:plain", dims=(2,))
def _plain(c):
    fn = "ProfitOracle::assess_optim"
    pre = POS + [lt(rc(0), UP), lt(rc(0), LIM)]
    P = probe("(o: &mut ProfitOracle, y: &Arr, g: &mut f64) -> ((Arr, SingleCut), bool) { o.assess_optim(y, g) }")
    def mk(ex): return [ref(ex, build(c, ex, "ProfitOracle::new", std())), ref(ex, arr2(Y)), ref(ex, GAM)], None
    for o in c.run(P, mk, label=fn, pre=pre):
        (g, b), shr = o.ret.xs[0].xs, o.ret.xs[1]
        answer(c, o, fn, plain(), Y, GAM, g, b.fs["0"], shr, o.val(o.args[2]))
        keep(c, o, fn, o.args[0])

@unit("profit:robust", dims=(2,))
def _robust(c):
    fn = "ProfitRbOracle::assess_optim"
    E = [var("e%d" % i) for i in range(1, 6)]
    pre = POS + [lt(E[2], UP), lt(E[3], LIM)] + [le(rc(0), e) for e in E]
    P = probe("(o: &mut ProfitRbOracle, y: &Arr, g: &mut f64) -> ((Arr, SingleCut), bool) { o.assess_optim(y, g) }")
    def mk(ex): return [ref(ex, build(c, ex, "ProfitRbOracle::new", std() + [Tup(E)])), ref(ex, arr2(Y)), ref(ex, GAM)], None
    wa = [ite(lt(rc(0), Y[i]), sub(A[i], E[i]), add(A[i], E[i])) for i in (0, 1)]
    # a second query after one that left other worst-case elasticities behind
    Z = v2("z")
    P2 = probe("(o: &mut ProfitRbOracle, y: &Arr, g: &mut f64, z: &Arr) -> ((Arr, SingleCut), bool) { let mut g0 = 0.0; let _r = o.assess_optim(z, &mut g0); o.assess_optim(y, g) }")
    def mk2(ex): return [ref(ex, ex.call_fn(c.crate.find("ProfitRbOracle::new"), std() + [Tup(E)], selfv=None)), ref(ex, arr2(Y)), ref(ex, GAM), ref(ex, arr2(Z))], None
    zp = [lt(ln(sub(LIM, E[3])), Z[0]), lt(rc(0), Z[0])]
    for pb, m, pz in ((P, mk, []), (P2, mk2, zp + [lt(rc(0), Z[1])]), (P2, mk2, zp + [le(Z[1], rc(0))])):
      for o in c.run(pb, m, label=fn, pre=pre + pz):
        (g, b), shr = o.ret.xs[0].xs, o.ret.xs[1]
        was = [simp(o.ex, w, o.pc) for w in wa]
        answer(c, o, fn, plain(sub(UP, E[2]), sub(LIM, E[3]), [add(p, E[4]) for p in PR], was), Y, GAM, g, b.fs["0"], shr, o.val(o.args[2]))
        keep(c, o, fn, o.args[0])

@unit("profit:quant", dims=(2,))
def _quant(c):
    fn = "ProfitOracleQ::assess_optim_q"
    pre = POS + [lt(rc(0), UP), lt(rc(0), LIM)]
    P = probe("(o: &mut ProfitOracleQ, y: &Arr, g: &mut f64, r: bool) -> ((Arr, SingleCut), bool, Arr, bool) { o.assess_optim_q(y, g, r) }")
    YD = v2("yd")
    rnd = lambda t: toreal(app("round", (t,), "I"))
    for retry in (FALSE, TRUE):
        def mk(ex):
            s = build(c, ex, "ProfitOracleQ::new", std())
            s = Struct(s.name, dict(s.fs, yd=arr2(YD)))
            return [ref(ex, s), ref(ex, arr2(Y)), ref(ex, GAM), retry], None
        for o in c.run(P, mk, label=fn, pre=pre):
            (g, b), shr, xd, more = o.ret.xs[0].xs, o.ret.xs[1], o.ret.xs[2], o.ret.xs[3]
            b, gam2 = b.fs["0"], o.val(o.args[2])
            c.post(o, "an alternative is offered exactly on a first query", eqb(more, not_(retry)) if retry is TRUE else more, fn)
            keep(c, o, fn, o.args[0])
            pt = [o.at(xd, i) for i in (0, 1)]
            if retry is TRUE:
                for i in (0, 1): c.post(o, "a retry keeps the discrete plan of the preceding query", eq(pt[i], YD[i]), fn)
                answer(c, o, fn, plain(), YD, GAM, g, b, shr, gam2, base=Y)
                continue
            cuts = feas_cut(plain(), Y, GAM)
            bad = or_(*[x[0] for x in cuts])
            v = [smt.check(o.pc, x, timeout=3000)[0] == "proved" for x in (bad, not_(bad))]
            if v[0]:
                for i in (0, 1): c.post(o, "a refused plan is returned as it is", eq(pt[i], Y[i]), fn)
                answer(c, o, fn, plain(), Y, GAM, g, b, shr, gam2)
            elif v[1]:
                def whole(r):
                    if smt.check(o.pc, eq(r, rc(0)), timeout=3000)[0] == "proved": return rc(1)
                    if smt.check(o.pc, not_(eq(r, rc(0))), timeout=3000)[0] == "proved": return r
                    return ite(eq(r, rc(0)), rc(1), r)
                D = [ln(whole(rnd(exp(Y[i])))) for i in (0, 1)]
                for i in (0, 1):
                    c.post(o, "the plan evaluated has whole units, at least one", eq(pt[i], D[i]), fn)
                    c.post(o, "the discrete plan is remembered", eq(o.at(o.val(o.args[0]).fs["yd"], i), pt[i]), fn)
                answer(c, o, fn, plain(), D, GAM, g, b, shr, gam2, base=Y)
            else: raise Unsupported("path does not decide whether the plan is refused")
