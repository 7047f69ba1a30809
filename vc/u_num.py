"""Contracts of the numeric routines and the sample oracles: SVM, max-cut, conjugate gradient, power iteration."""
from unit import *
def iff(a, b): return and_(implies(a, b), implies(b, a))
def ref(ex, v): return Ref(Place(ex.new_cell(v)))
gam = var("gam")

# ------------------------------------------------------------------------------------------- SVM
def ints(c, name, n):
    return c.seq(name, n, "I")
@unit("svm:assess", dims=(1, 2, 3))
def svm(c):
    n, m = c.N("n", 1), c.N("m", 1, at=lambda d: d + 1)
    D, X = F("D"), F("x")
    lab = lambda i: toreal(app("lab", (ic(i) if isinstance(i, int) else i,), "I"))
    fn = "SvmOracle::assess_optim"
    margin = lambda i: mul(lab(i), add(X(n), SUM(0, n, lambda j: mul(X(j), D(i, j)))))
    MG = F("MG") if c.dim is None else margin      # MG(i) abbreviates the margin of sample i
    cell = {}
    def mk(ex):
        cell["g"] = ref(ex, gam)
        o = ex.call_fn(c.crate.find("SvmOracle::new"), [c.mat("D", m, n), ints(c, "lab", m)])
        return [c.vec("x", add(n, ic(1))), cell["g"]], ref(ex, o)
    inf = ALL(0, m, lambda j: lt(MG(j), var("INF")))     # finite margins
    outs = c.run(fn, mk, label=fn)
    lem = [inf]
    if c.dim is None:
        rw = lambda t, k: loops.repl_terms(t, {margin(k): MG(k)})
        def stmt(fs, k, first=0):
            # the scan started before sample `first`; its value is the least margin of the samples seen so far
            u, w = fs
            seen = lt(ic(-first), k)
            return and_(le(ic(0), w(k)), implies(seen, and_(lt(w(k), add(k, ic(first))), eq(u(k), MG(w(k))))),
                        implies(le(k, ic(-first)), ALL(0, m, lambda j: lt(MG(j), u(k)))), ALL(0, add(k, ic(first)), lambda j: le(u(k), MG(j))))
        fl = c.seq_lemma(outs, "running minimum", [(1, "R"), (1, "I")], stmt, upto=m, hyps=lambda ts: [inf], rw=rw)
        lem += [s(m) for fs, s in fl]
        if not fl:
            fl = c.seq_lemma(outs, "running minimum", [(1, "R"), (1, "I")], lambda fs, k: stmt(fs, k, 1), upto=add(m, ic(-1)), hyps=lambda ts: [inf], rw=lambda t, k: rw(t, add(k, ic(1))))
            lem += [s(add(m, ic(-1))) for fs, s in fl]
        c.use(lem)
    for o in outs:
        g2 = o.val(cell["g"])
        (cut, shr) = o.ret.xs
        gr, be = o.val(cut.xs[0]), o.val(cut.xs[1]).fs["0"]
        P = lambda nm, g, hy=(), inst=(): c.post(o, nm, g, fn, list(inst), list(hy) + lem)
        P("improvement is always reported", o_b(shr, TRUE))
        P("gradient has one entry per feature and one for the bias", eq(o.len(gr), add(n, ic(1))))
        j, i = fresh("j", "I"), fresh("i", "I")
        js = [(j, [le(ic(0), j), lt(j, m)])] if c.dim is None else [(ic(a), []) for a in range(m.val)]
        allok = ALL(0, m, lambda j: le(rc(1), MG(j)))
        ns = [(i, [le(ic(0), i), lt(i, n)])] if c.dim is None else [(ic(a), []) for a in range(n.val)]
        null = and_(eq(g2, rc(0)), eq(be, rc(0)))
        # satisfied: level zero and a null cut, exactly when every margin is at least one
        sat = smt.check(o.pc + lem, allok, timeout=4000, inst=list(o.ex.inst), extra=o.ax)[0] == "proved"
        if sat:
            P("level zero when every margin is at least one", eq(g2, rc(0)))
            P("null offset when every margin is at least one", eq(be, rc(0)))
            for t, r in ns + [(n, [])]: P("null gradient when every margin is at least one", eq(o.at(gr, t), rc(0)), r, [t])
            continue
        P("otherwise some margin is below one", lt(g2, rc(1)))
        for t, r in js: P("level is no larger than any margin", le(g2, MG(t)), r, [t])
        P("offset is one minus the margin", eq(be, sub(rc(1), g2)))
        if c.dim is None:
            ws = [fs[1](m) for fs, s in fl]
            attain = or_(FALSE, *[and_(le(ic(0), w), lt(w, m), eq(g2, MG(w)), eq(o.at(gr, n), neg(lab(w))), ) for w in ws])
            P("level is the margin of the sample whose gradient is returned", attain, (), ws)
            for t, r in ns:
                P("gradient of a sample attaining the minimum", or_(FALSE, *[and_(eq(g2, MG(w)), eq(o.at(gr, t), neg(mul(lab(w), D(w, t))))) for w in ws]), r, [t] + ws)
        else:
            P("gradient of a sample attaining the minimum", or_(*[and_(eq(g2, MG(ic(w))), eq(o.at(gr, n), neg(lab(w))), *[eq(o.at(gr, t), neg(mul(lab(w), D(w, t)))) for t, r in ns]) for w in range(m.val)]))
    if c.dim is None:
        w, Z = c.I("w"), F("z")
        val = lambda V: mul(lab(w), add(V(n), SUM(0, n, lambda j: mul(V(j), D(w, j)))))
        gz = add(SUM(0, n, lambda j: mul(neg(mul(lab(w), D(w, j))), sub(Z(j), X(j)))), mul(neg(lab(w)), sub(Z(n), X(n))))
        c.goal("a classifier with all margins at least one satisfies the cut", [le(rc(1), val(Z))], le(add(gz, sub(rc(1), val(X))), rc(0)), fn=fn)
def o_b(a, b): return iff(a, b)

# ------------------------------------------------------------------------------------------- conjugate gradient
def resid(c, n, X):
    A_, b_ = F("A"), F("b")
    return lambda i: sub(b_(i), SUM(0, n, lambda j: mul(A_(i, j), X(j))))

def cg_unit(c, guess):
    n, A_ = c.N("n", 1), F("A")
    fn = "conjugate_gradient::conjugate_gradient"
    tol = c.R("tol")
    M = var("mi", "I") if c.dim is None else ic(1)
    if c.dim is None: c.pre.append(le(ic(0), M))
    c.pre.append(lt(rc(0), tol))
    X0 = F("x0") if guess else (lambda i: rc(0))
    def mk(ex):
        return [c.mat("A", n, n), c.vec("b", n), Opt(TRUE, c.vec("x0", n)) if guess else Opt(FALSE, None), tol, M], None
    outs = c.run(fn, mk, label=fn, opts={"div_obs": False})
    n0 = lambda X: sqrt_(SUM(0, n, lambda i: mul(resid(c, n, X)(i), resid(c, n, X)(i))))
    # specification: the conjugate-gradient recursion
    X, R, P, Q = [(lambda nm: lambda k, i: app(nm, (k, i), "R"))(nm) for nm in ("cgX", "cgR", "cgP", "cgQ")]
    rr = lambda k: app("cgrr", (k,), "R")
    fl = []
    if c.dim is None:
        fl = c.seq_lemma(outs, "residual is b - Ax", [(2, "R"), (2, "R")], lambda fs, k: ALL(0, n, lambda i: eq(fs[1](k, i), resid(c, n, lambda j: fs[0](k, j))(i))))
    ks = []
    for o in outs:
        res = o.ret
        start = lt(n0(X0), tol)
        if res.ok is TRUE:
            v = lambda i: o.at(res.v, i)
            lem = []
            for fs, s in fl:
                for t in iters(o, fs): lem.append(s(t))
            if c.dim is None:
                S = n0(v).args[0]
                for h in o.pc:
                    for t in subterms(h):
                        if h.op == "lt" and t.op == "app" and t.val == "sqrt" and t is h.args[0] and t.args[0] is not S:
                            f = c.same_sum(S, t.args[0], list(c.pre) + lem, name="the tested residual is that of the returned vector", fn=fn)
                            if f is not None: lem = lem + [f]
            c.post(o, "a reported solution has residual norm below the tolerance", lt(n0(v), tol), fn, hyps=lem)
            c.post(o, "solution has the dimension of the system", eq(o.len(res.v), n), fn)
            i = fresh("i", "I")
            for (t, r) in ([(i, [le(ic(0), i), lt(i, n)])] if c.dim is None else [(ic(a), []) for a in range(n.val)]):
                c.post(o, "a start that solves the system is returned unchanged", implies(start, eq(v(t), X0(t))), fn, [t], r)
        elif res.ok is FALSE:
            c.post(o, "a start that solves the system is not reported as a failure", not_(start), fn)
            degen = any(h.op == "eq" and h.args[0].sort == "R" and rc(0) in h.args for h in o.pc)      # zero curvature met
            if not degen and c.dim is not None:
                r0 = resid(c, n, X0)
                ar = lambda i: SUM(0, n, lambda j: mul(A_(i, j), r0(j)))
                al = div(SUM(0, n, lambda i: mul(r0(i), r0(i))), SUM(0, n, lambda i: mul(r0(i), ar(i))))
                r1 = lambda i: sub(r0(i), mul(al, ar(i)))
                c.post(o, "failure at the limit only when every iteration allowed left a residual above the tolerance", not_(lt(sqrt_(SUM(0, n, lambda i: mul(r1(i), r1(i)))), tol)), fn)
            if not degen and c.dim is None:
                for fs, s in fl:
                    j = fresh("j", "I")
                    j1 = add(j, ic(1))
                    df = o.ex.defs.get(fs[1](ic(0), ic(0)).val)
                    if df is None: continue
                    nxt = lambda i: smt.set_cond(subst(df["body"], dict(zip(df["params"], (j1, i)))), le(j1, ic(0)), False, {})
                    at = [implies(and_(le(h.args[0], j), lt(j, h.args[1])), subst(h.args[2], {h.val: j})) for h in o.pc if h.op == "all"]
                    c.post(o, "failure at the limit only when every iteration allowed left a residual above the tolerance",
                           not_(lt(sqrt_(SUM(0, n, lambda i: mul(nxt(i), nxt(i)))), tol)), fn, [j, j1], [le(ic(0), j), lt(j, M)] + at)
        else: raise Unsupported("undecided result")

def iters(o, fs):
    """iteration numbers at which the outcome mentions the sequences"""
    names = {f(*([ic(0)] * 2)).val for f in fs}
    out = []
    for t in list(o.pc) + leaves(o.ret):
        for x in subterms(t):
            if x.op == "app" and x.val in names and not any(v.val.startswith("#") for v in x.args[0].fv) and x.args[0] not in out: out.append(x.args[0])
    return out
def leaves(v):
    acc = []
    vmap(v, lambda t: (acc.append(t), t)[1])
    return acc

@unit("cg:guess", dims=(1, 2))
def cg_g(c): cg_unit(c, True)
@unit("cg:zero", dims=(1, 2))
def cg_z(c): cg_unit(c, False)

# ------------------------------------------------------------------------------------------- power iteration
# Vectors are opaque here; the Arr operations stand by their contracts (proved for the real code by the arr: units):
# dot, dot_mv, scaling, difference and sum, with the linear-algebra laws of scaling.
import terms as _t
def V(nm, *a): return _t.mk("app", a, "Vec", nm) if False else app(nm, a, "Vec")
def lift(f, x):
    """f over a conditional vector"""
    return ite(x.args[0], f(x.args[1]), f(x.args[2])) if x.op == "ite" else None
def is_sqrt(a): return a.op == "app" and a.val == "sqrt"
def norm_scale(a):
    """a positive factor squared under a square root is taken out of it: p/sqrt(p*p*d) = 1/sqrt(d)"""
    fs = list(a.args) if a.op == "mul" else [a]
    for i, f in enumerate(fs):
        if f.op == "div" and f.args[0] is rc(1) and is_sqrt(f.args[1]) and f.args[1].args[0].op == "mul":
            xs = list(f.args[1].args[0].args)
            for g in fs:
                if g is not f and pos_(g) and xs.count(g) >= 2:
                    xs.remove(g); xs.remove(g)
                    rest = list(fs)
                    rest.remove(g)
                    rest[rest.index(f)] = div(rc(1), sqrt_(mul(*xs)))
                    return norm_scale(mul(*rest))
    return a
def scal(a, x):
    a = norm_scale(a)
    r = lift(lambda y: scal(a, y), x)
    if r is not None: return r
    if x.op == "app" and x.val == "vscal": return scal(mul(a, x.args[0]), x.args[1])
    return app("vscal", (a, x), "Vec")
def unsc(x):
    if x.op == "app" and x.val == "vscal": return x.args[0], x.args[1]
    return rc(1), x
def mv(x):
    r = lift(mv, x)
    if r is not None: return r
    a, y = unsc(x)
    z = D(add(y.args[0], ic(1))) if y.op == "app" and y.val == "vdir" else app("vmv", (y,), "Vec")
    return z if a is rc(1) else scal(a, z)
def dot(x, y):
    if x.op == "ite" and y.op == "ite" and x.args[0] is y.args[0]: return ite(x.args[0], dot(x.args[1], y.args[1]), dot(x.args[2], y.args[2]))
    r = lift(lambda z: dot(z, y), x)
    if r is None: r = lift(lambda z: dot(x, z), y)
    if r is not None: return r
    a, x1 = unsc(x)
    b, y1 = unsc(y)
    if x1.op == "app" and y1.op == "app" and x1.val == y1.val == "vdir":
        d = add(x1.args[0], mul(ic(-1), y1.args[0]))
        if is_c(d):
            if d.val > 0: x1, y1 = y1, x1
        elif show(x1) > show(y1): x1, y1 = y1, x1
    elif show(x1) > show(y1): x1, y1 = y1, x1
    return mul(a, b, app("vdot", (x1, y1), "R"))
def pos_(a):
    """a scale factor that is positive because every vector here is non-zero"""
    if is_c(a): return a.val > 0
    if a.op == "mul": return all(pos_(x) for x in a.args)
    if a.op == "div": return pos_(a.args[0]) and pos_(a.args[1])
    if is_sqrt(a): return pos_(a.args[0])
    return a.op == "app" and (a.val == "vl1" or a.val == "vdot" and a.args[0] is a.args[1])
def l1(x):
    r = lift(l1, x)
    if r is not None: return r
    a, y = unsc(x)
    b = app("vl1", (y,), "R")
    return b if a is rc(1) else mul(a if pos_(a) else abs_(a), b)
INTERP.update({"vscal": scal, "vmv": mv, "vdot": dot, "vl1": l1})
def same(u, w):
    """equality of vectors, reduced to their scale factors where possible"""
    if u is w: return TRUE
    for x, y in ((u, w), (w, u)):
        if x.op == "ite": return and_(implies(x.args[0], same(x.args[1], y)), implies(not_(x.args[0]), same(x.args[2], y)))
    (a, u1), (b, w1) = unsc(u), unsc(w)
    return eq(a, b) if u1 is w1 else eq(u, w)
def vfacts(ts):
    """iterates are non-zero (assumed): the square and the 1-norm of every vector are positive"""
    out = []
    for t in ts:
        for x in subterms(t):
            if x.sort == "Vec" and x.op != "ite" and not any(str(v.val).startswith("#") for v in x.fv):
                a, y = unsc(x)
                for f in (lt(rc(0), app("vdot", (y, y), "R")), lt(rc(0), app("vl1", (y,), "R"))):
                    if f not in out: out.append(f)
    return out
def D(t):
    """direction of iterate t: A^t x0 (the recurrence mv(D(t)) = D(t + 1) is built into mv)"""
    return app("vdir", (ic(t) if isinstance(t, int) else t,), "Vec")
def nrm2(x): return scal(div(rc(1), sqrt_(dot(x, x))), x)
def R_(v): return div(dot(v, mv(v)), dot(v, v))
def nrm1(x): return scal(div(rc(1), l1(x)), x)
TRACE_ = [False]
def VA(t): return Abs("Arr", t)
PABS = {"dot": lambda ex, r, a: dot(ex.deref(r).t, ex.deref(a[0]).t), "clone": lambda ex, r, a: ex.deref(r),
        "dot_mv": lambda ex, r, a: VA(mv(ex.deref(a[0]).t)),
        "clone_from": lambda ex, r, a: (ex.write(r.place, ex.deref(a[0])), UNIT)[1]}
def _div(ex, f, selfv, a):
    d = ex.deref(a[0])
    v = VA(scal(div(rc(1), d), ex.deref(selfv).t))
    if f.name.endswith("_assign"):
        ex.write(selfv.place, v)
        return UNIT
    return v
def _mulv(ex, f, selfv, a):
    v = VA(scal(ex.deref(a[0]), ex.deref(selfv).t))
    if f.name.endswith("_assign"):
        ex.write(selfv.place, v)
        return UNIT
    return v
PCON = {"Arr::div_assign": _div, "Arr::div": _div, "Arr::mul_assign": _mulv, "Arr::mul": _mulv,
        "Arr::sub": lambda ex, f, s, a: VA(V("vsub", ex.deref(s).t, ex.deref(a[0]).t)),
        "Arr::add": lambda ex, f, s, a: VA(V("vadd", ex.deref(s).t, ex.deref(a[0]).t)),
        "power_iteration::norm_l1": lambda ex, f, s, a: l1(ex.deref(a[0]).t)}

def power_unit(c, which, unit_vec, crit):
    fn = "power_iteration::power_iteration" + which
    tol, M = c.R("tol"), var("mi", "I") if c.dim is None else ic(c.dim - 1)
    if c.dim is None: c.pre.append(le(ic(0), M))
    x0 = D(0)
    cell = {}
    def mk(ex):
        cell["x"] = ref(ex, VA(x0))
        return [Struct("ArrM", {}), cell["x"], Struct("Options", {"max_iters": M, "tolerance": tol})], None
    c.pre.append(lt(rc(0), dot(x0, x0)))
    def mk2(ex):
        cell["x"] = ref(ex, VA(x0))
        return [Abs("Arr", var("matA", "Vec")), cell["x"], Struct("Options", {"max_iters": M, "tolerance": tol})], None
    outs = c.run(fn, mk2, abs=dict(PABS), contracts=PCON, label=fn, opts={"div_obs": False})
    inst = []
    fms = {}
    if c.dim is None:
        forms = ((lambda k: nrm2(D(k)), "normalised A^k x0"), (lambda k: mv(nrm2(D(k))), "A times the normalised A^k x0"), (lambda k: nrm1(D(k)), "1-normalised A^k x0"),
                 (lambda k: dot(nrm2(D(k)), mv(nrm2(D(k)))), "Rayleigh quotient of A^k x0"))
        k = fresh("k", "I")
        k1 = add(k, ic(1))
        defs = {d: df for o in outs for d, df in o.ex.defs.items() if len(df["params"]) == 1}
        for _ in range(2):
            for d, df in defs.items():
                for form, what in forms:
                    if d in fms: break
                    if form(k).sort != df["sort"]: continue
                    m = dict(fms)
                    m[d] = form
                    obl = []
                    for at, hy in ((ic(0), []), (k1, [le(ic(0), k)])):
                        b = subst(df["body"], {df["params"][0]: at})
                        if at is k1: b = smt.set_cond(b, le(k1, ic(0)), False, {})
                        b = subst_app(b, m)
                        h = list(c.pre) + hy + [subst_app(x, m) for x in smt.conj(subst(df["dom"], {df["params"][0]: at}))]
                        g = same(b, form(at)) if df["sort"] == "Vec" else eq(b, form(at))
                        h += vfacts(h + [g])
                        obl.append((h, g))
                    rs = [c.prove(h, g, [k, k1], [], 4000) for h, g in obl]
                    if TRACE_[0]: print("      seq", d, what, rs, [show(g)[:300] for h, g in obl])
                    if all(r == "proved" for r in rs):
                        fms[d] = form
                        for (h, g), w in zip(obl, ("holds before the loop", "is kept by an iteration")):
                            for hh, gg, ii in c.split(h, g): c.goal("invariant (iterate is %s) %s" % (what, w), hh, gg, [k, k1] + ii, fn=fn)
    def renorm(t):
        memo = {}
        def go(x):
            if x in memo: return memo[x]
            if not x.args: r = x
            elif x.op in ("sum", "all"):
                f = fresh("b", "I")
                r = rebuild(x.op, (go(x.args[0]), go(x.args[1]), go(subst(x.args[2], {x.val: f}))), x.sort, f)
            else: r = rebuild(x.op, tuple(go(a) for a in x.args), x.sort, x.val)
            if r.op == "mul": r = norm_scale(r)
            memo[x] = r
            return r
        return go(go(t))
    sg = lambda t: renorm(subst_app(t, fms)) if fms else t
    c.goals = [(f, nm, [sg(h) for h in hy], sg(g), i, x, l) if not nm.startswith("invariant") else (f, nm, hy, g, i, x, l) for f, nm, hy, g, i, x, l in c.goals]
    for o in outs:
        ev, it = [sg(t) for t in o.ret.xs]
        x = sg(o.val(cell["x"]).t)
        o.pc = [sg(h) for h in o.pc]
        if c.dim is None:
            # one unfolding of what the loop defines, at the last iteration
            un = {d: (lambda d, df: lambda *a: sg(subst(df["body"], dict(zip(df["params"], a)))) if a[0] is M or a[0] is it else app(d, a, df["sort"]))(d, df) for d, df in o.ex.defs.items() if d not in fms}
            ev, x = subst_app(ev, un), subst_app(x, un)
        else: un = {}
        def P(nm, g, hy=(), inst=()):
            h = list(o.pc) + list(hy)
            h += vfacts(h + [g])
            for hh, gg, ii in c.split(h, g): c.goal(nm, hh, gg, list(inst) + ii, fn=fn)
        xx = dot(x, x)
        P("reported value is the Rayleigh quotient of the vector left with the caller", eq(mul(ev, xx), dot(x, mv(x))))
        early = lt(it, M)
        if unit_vec: P("vector left with the caller has length one", eq(xx, rc(1)))
        P("iteration count within the limit", and_(le(ic(0), it), le(it, M)))
        E_ = lambda k: dot(nrm2(D(k)), mv(nrm2(D(k))))
        nr = nrm1 if which == "4" else nrm2
        if crit == "vec":
            stop = lambda k: or_(le(l1(V("vsub", nr(D(add(k, ic(1)))), nr(D(k)))), tol), le(l1(V("vadd", nr(D(add(k, ic(1)))), nr(D(k)))), tol))
        else:
            stop = lambda k: le(abs_(sub(E_(k), E_(add(k, ic(1))))), tol)
        if which != "3" or c.dim is not None:
            if is_c(it) and is_c(M):
                if it.val < M.val: P("stops early only when successive iterates agree", stop(it))
                P("no earlier iteration should have stopped", and_(TRUE, *[not_(stop(ic(j))) for j in range(it.val)]))
            else:
                P("stops early only when successive iterates agree", implies(early, stop(it)))
                j = fresh("j", "I")
                P("no earlier iteration should have stopped", not_(stop(j)), [le(ic(0), j), lt(j, it)], [j])
        elif c.dim is None:
            seqs = [d for d, df in o.ex.defs.items() if df["sort"] == "Vec"]
            if len(seqs) == 1 and it is not M:
                q = lambda k: app(seqs[0], (k,), "Vec")
                est = [d for d, df in o.ex.defs.items() if df["sort"] == "R"]
                if len(est) == 1:
                    body = subst_app(app(est[0], (it,), "R"), un)
                    P("stops early only when successive estimates agree", le(abs_(sub(R_(q(it)), ite(le(it, ic(0)), R_(x0), R_(q(add(it, ic(-1))))))), tol),
                      [eq(app(est[0], (it,), "R"), body)])
            if len(seqs) == 1:
                q = lambda k: app(seqs[0], (k,), "Vec")
                est = [d for d, df in o.ex.defs.items() if df["sort"] == "R"]
                if len(est) == 1:
                    j = fresh("j", "I")
                    df = o.ex.defs[est[0]]
                    hy = [eq(app(est[0], (a,), "R"), sg(subst(df["body"], {df["params"][0]: a}))) for a in (j, add(j, ic(-1)), add(j, ic(1)))]
                    P("no earlier iteration should have stopped", not_(le(abs_(sub(R_(q(j)), ite(le(j, ic(0)), R_(x0), R_(q(add(j, ic(-1))))))), tol)), hy + [le(ic(0), j), lt(j, it)], [j, add(j, ic(1)), add(j, ic(-1))])
for _w, _u, _c in (("", True, "vec"), ("2", True, "val"), ("3", False, "val"), ("4", True, "vec")):
    def _f(c, w=_w, u=_u, k=_c): power_unit(c, w, u, k)
    unit("power:%s" % (_w or "1"), dims=(1, 2, 3))(_f)
