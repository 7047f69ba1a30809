"""Contracts of the max-cut oracle and of the quasi-convex example oracle."""
from unit import *
from u_arr import probe, ref
from u_profit import arr2, v2, any_state, counters, eqb

GAM = var("gam")

@unit("maxcut:assess", dims=(1, 2, 3))
def _maxcut(c):
    n = c.N("n", 1)
    W, X = F("W"), F("x")
    fn = "MaxcutOracle::assess_optim"
    side = lambda i: le(rc(0), X(i))
    # weight of (i, j) if it joins the two sides
    def cross(i, j): return ite(side(i), ite(side(j), rc(0), W(i, j)), ite(side(j), W(i, j), rc(0)))
    score = SUM(0, n, lambda i: SUM(add(i, ic(1)), n, lambda j: cross(i, j)))
    P = probe("(w: Arr, x: &Arr, g: &mut f64) -> ((Arr, SingleCut), bool) { let mut o = MaxcutOracle::new(w); o.assess_optim(x, g) }")
    k = fresh("k", "I")
    ks = [(k, [le(ic(0), k), lt(k, n)])] if c.dim is None else [(ic(a), []) for a in range(n.val)]
    for o in c.run(P, lambda ex: ([c.mat("W", n, n), ref(ex, c.vec("x", n)), ref(ex, GAM)], None), label=fn):
        (g, b), shr = o.ret.xs[0].xs, o.ret.xs[1]
        b, g2 = o.val(b).fs["0"], o.val(o.args[2])
        row = lambda t: SUM(0, n, lambda j: cross(t, j))
        gs = [(t, r, collapse(smt.nsum(o.at(g, t)))) for t, r in ks]
        sc, rw = score, {}
        if c.dim is None:
            # the sums of the code that are the specified ones, term by term
            for x in set(x for t in list(o.pc) + [b, g2, shr] + [v for _, _, v in gs] for x in subterms(t)):
                if x.op != "sum" or any(isinstance(v.val, str) and v.val.startswith("#") for v in x.fv): continue
                for spec, nm in ((score, "score"), (row(k), "row")):
                    if c.same_nest(x, spec, list(c.pre) + ks[0][1], name="a pair counts its weight exactly when it joins the two sides", fn=fn) is not None:
                        rw[x] = var(nm)
                        break
            if var("score") in rw.values(): sc = var("score")
        R = lambda t: loops.repl_terms(t, rw)
        rows = (lambda t: var("row")) if var("row") in rw.values() else row
        o.pc = [R(h) for h in o.pc]
        b, g2, shr = R(b), R(g2), R(shr)
        c.post(o, "level is raised exactly when the score exceeds it", eqb(shr, lt(GAM, sc)), fn)
        c.post(o, "raised level is the score", eq(g2, sc), fn, hyps=[shr])
        c.post(o, "offset of an improving cut is the negated score", eq(b, neg(sc)), fn, hyps=[shr])
        c.post(o, "level kept otherwise", eq(g2, GAM), fn, hyps=[not_(shr)])
        c.post(o, "offset of a non-improving cut is the level", eq(b, GAM), fn, hyps=[not_(shr)])
        c.post(o, "gradient has one entry per vertex", eq(o.len(g), n), fn)
        for t, r, v in gs: c.post(o, "gradient is minus twice the crossing weight of the vertex", eq(R(v), mul(rc(-2), rows(t))), fn, [t], r)

@unit("quasicvx:assess", dims=(2,))
def _quasi(c):
    fn = "quasicvx::MyOracle::assess_optim"
    cand = [i.fns["assess_optim"] for i in c.crate.impls if "assess_optim" in i.fns and i.fns["assess_optim"].module == "quasicvx"]
    dflt = [i.fns["default"] for i in c.crate.impls if "default" in i.fns and i.fns["default"].module == "quasicvx"]
    if len(cand) != 1 or len(dflt) != 1: raise Unsupported("lost anchor: oracle of quasicvx")
    X, Z = v2("x"), v2("z")
    u, v = X
    ev, ez = exp_(v), exp_(Z[1])
    tangent = le(mul(ev, add(rc(1), sub(Z[1], v))), ez)        # exp lies above its tangents
    f0, f1 = sub(mul(u, u), v), sub(mul(GAM, ev), u)
    def mk(ex):
        return [ref(ex, arr2(X)), ref(ex, GAM)], ref(ex, any_state(ex, ex.call_fn(dflt[0], [], selfv=None)))
    for o in c.run(cand[0], mk, label=fn, pre=[le(rc(0), GAM)]):
        (g, b), shr = o.ret.xs[0].xs, o.ret.xs[1]
        b, g2 = o.val(b).fs["0"], o.val(o.args[1])
        gs = [o.at(g, i) for i in (0, 1)]
        lhs = add(mul(gs[0], sub(Z[0], u)), mul(gs[1], sub(Z[1], v)), b)
        feas = lambda lev: [le(mul(Z[0], Z[0]), Z[1]), le(mul(lev, ez), Z[0]), tangent, lt(rc(0), ev), lt(rc(0), ez)]
        c.post(o, "level is raised exactly when the point meets both constraints", eqb(shr, and_(le(f0, rc(0)), le(f1, rc(0)))), fn)
        n = [not_(shr)]
        c.post(o, "level kept when the point is refused", eq(g2, GAM), fn, hyps=n)
        c.post(o, "the refused point violates the cut", lt(rc(0), b), fn, hyps=n)
        c.post(o, "every point meeting both constraints satisfies the cut", le(lhs, rc(0)), fn, hyps=n + feas(GAM))
        y = [shr, lt(rc(0), ev)]
        c.post(o, "level becomes the objective value of the point", eq(mul(g2, ev), u), fn, hyps=y)
        c.post(o, "level never falls", le(mul(GAM, ev), mul(g2, ev)), fn, hyps=y)
        c.post(o, "improving cut passes through the point", eq(b, rc(0)), fn, hyps=y)
        c.post(o, "every point at least as good satisfies the cut", le(lhs, rc(0)), fn, hyps=y + feas(g2))
        for k in counters(o.self_): c.post(o, "rotation stays in range", and_(le(ic(-1), k), lt(k, ic(2))), fn)
