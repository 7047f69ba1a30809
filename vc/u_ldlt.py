"""Contracts of the LDL' factorisation manager and of the matrix-inequality oracles built on it."""
from unit import *
from u_arr import probe, ref
import itertools

A, U = F("A"), F("U")
PUT = lambda e, a: app("A", tuple(e.deref(x) for x in a), "R")

def havoc(ex, v, n, tag="h"):
    """the same value with every number, flag and constant counter in it arbitrary (any history of use)"""
    cnt = itertools.count()
    def go(v):
        if isinstance(v, T):
            if v.sort == "I" and (not is_c(v) or v is n): return v
            return var("%s%d" % (tag, next(cnt)), v.sort)
        if isinstance(v, Tup): return Tup([go(x) for x in v.xs])
        if isinstance(v, Struct):
            if v.name == "Arr": return Struct("Arr", {"data": go(v.fs["data"]), "rows": v.fs["rows"], "cols": v.fs["cols"]})
            return Struct(v.name, {k: go(x) for k, x in v.fs.items()})
        if isinstance(v, CVec): return CVec([go(x) for x in v.xs])
        if isinstance(v, SVec):
            nm = "%s%d" % (tag, next(cnt))
            st = v.stride
            if st is None and v.n is mul(n, n): st = n
            b = (fresh("ix", "I"),) + ((fresh("ix", "I"),) if st is not None else ())
            return SVec(v.n, b, app(nm, b, "R"), st)
        raise Unsupported("state of the manager")
    return go(v)

def manager(c, ex, n):
    m = ex.call_fn(c.crate.find("LDLTMgr::new"), [n], selfv=None)
    return ref(ex, havoc(ex, ex.deref(m) if isinstance(m, Ref) else m, n))

def uspec(n):
    """U(i,j) = A(i,j) - sum_{k<j} U(i,k) U(j,k) / U(k,k),  0 <= j <= i < n"""
    return {"U": (2, lambda i, j: sub(A(i, j), SUM(0, j, lambda k: div(mul(U(i, k), U(j, k)), U(k, k)))),
                  lambda i, j: and_(le(ic(0), j), le(j, i), lt(i, n)))}

def eq_bool(a, b): return and_(implies(a, b), implies(b, a))
def is_true(b, o):
    if b is TRUE: return True
    if b is FALSE: return False
    if smt.check(o.pc, b, timeout=3000)[0] == "proved": return True
    if smt.check(o.pc, not_(b), timeout=3000)[0] == "proved": return False
    raise Unsupported("outcome mixes both answers")

@unit("ldlt:factor", dims=(1, 2, 3))
def _factor(c):
    """from any state of the manager: accepted (with the square root), or rejected (with the witness)"""
    n = c.N("n", 1)
    P = probe("(m: &mut LDLTMgr, get: F) -> bool { m.factor(get) }")
    fn = "LDLTMgr::factor"
    def mk(ex): return [manager(c, ex, n), PyFn(PUT)], None
    outs = c.run(P, mk, label=fn)
    u, W = U, F("W")
    if c.dim is not None:
        tab = {}
        for i in range(n.val):
            for j in range(i + 1):
                tab[i, j] = sub(A(i, j), add(rc(0), *[div(mul(tab[i, k], tab[j, k]), tab[k, k]) for k in range(j)]))
        iv = lambda x: x if isinstance(x, int) else x.val
        u = lambda i, j: tab[iv(i), iv(j)]
    else:
        c.identify(outs, uspec(n))
    idx = [fresh("i", "I"), fresh("j", "I")]
    for o in outs:
        ok = o.ret
        m = settle(o, o.val(o.args[0]), n)
        p0, p1 = m.fs["pos"].xs
        c.post(o, "accepted exactly when no block is reported", eq_bool(ok, eq(p1, ic(0))), fn)
        if is_true(ok, o):
            c.post(o, "acceptance means every pivot is positive", ALL(0, n, lambda i: lt(rc(0), u(i, i))), fn)
            o2, back = chain(c, o, "(m: &LDLTMgr) -> Arr { m.sqrt() }", m, "LDLTMgr::sqrt")
            root(c, o2, back, n, u, idx)
            continue
        # rejected at pivot p = p1 - 1
        p = sub(p1, ic(1))
        c.post(o, "reported block lies in the matrix and starts at its corner", and_(eq(p0, ic(0)), lt(ic(0), p1), le(p1, n)), fn)
        c.post(o, "pivots before the failing one are positive", ALL(0, p, lambda i: lt(rc(0), u(i, i))), fn)
        c.post(o, "rejection means a pivot that is not positive", le(u(p, p), rc(0)), fn)
        o2, back = chain(c, o, "(m: &mut LDLTMgr) -> f64 { m.witness() }", m, "LDLTMgr::witness")
        wit(c, o2, back, n, p, u, idx[0])

def chain(c, o, src, m, label):
    """run on the state m left by outcome o; its arrays are named while the code runs and put back afterwards"""
    fm = {}
    def go(v):
        if isinstance(v, SVec):
            nm = "m%d_%d" % (v.elem.id, len(fm))
            fm[nm] = (lambda v: lambda *a: subst(v.elem, dict(zip(v.bvs, a))))(v)
            return SVec(v.n, v.bvs, app(nm, tuple(v.bvs), "R"), v.stride)
        if isinstance(v, Struct): return Struct(v.name, {k: go(x) for k, x in v.fs.items()})
        return v
    m2, g0 = go(m), len(c.goals)
    few = list(dict.fromkeys(h for h in o.pc if not has_sub(h, lambda x: x.op in ("app", "all"))))
    outs = c.run(probe(src), lambda ex: ([ref(ex, m2)], None), label=label, pre=few)
    if len(outs) != 1: raise Unsupported("%s has several outcomes" % label)
    back = lambda t: subst_app(t, fm)
    c.goals[g0:] = [(f, nm, [back(h) for h in hy] + o.pc, back(g), i, x, l) for f, nm, hy, g, i, x, l in c.goals[g0:]]
    for d in outs[0].ex.defs.values(): d["body"], d["dom"] = back(d["body"]), back(d["dom"])
    outs[0].ax = [def_axioms(outs[0].ex.defs, 2)] if outs[0].ex.defs else []
    outs[0].pc = [back(h) for h in outs[0].pc] + o.pc
    return outs[0], back

def settle(o, v, n):
    """the state with conditions decided by the path resolved"""
    def go(v):
        if isinstance(v, T): return simp(o.ex, v, o.pc)
        if isinstance(v, SVec):
            b = [h for x in v.bvs for h in (le(ic(0), x), lt(x, n))] if v.stride is not None else [le(ic(0), v.bvs[0]), lt(v.bvs[0], v.n)]
            return SVec(v.n, v.bvs, vmap(v.elem, lambda t: simp(o.ex, t, o.pc + b)), v.stride)
        if isinstance(v, Tup): return Tup([go(x) for x in v.xs])
        if isinstance(v, Struct): return Struct(v.name, {k: go(x) for k, x in v.fs.items()})
        return v
    return go(v)

def root(c, o, back, n, u, idx):
    fn, R = "LDLTMgr::sqrt", o.ret
    c.post(o, "square root has the size of the matrix", and_(eq(R.fs["rows"], n), eq(R.fs["cols"], n)), fn)
    for i, j in ([tuple(idx)] if c.dim is None else [(ic(a), ic(b)) for a in range(n.val) for b in range(n.val)]):
        rng = [le(ic(0), i), lt(i, n), le(ic(0), j), lt(j, n)]
        e = back(o.at(R, i, j))
        d = back(o.at(R, i, i))
        if not is_c(i) or i is j: c.post(o, "square of the root's diagonal is the pivot", and_(le(rc(0), d), eq(mul(d, d), u(i, i))), fn, [i], rng)
        if not is_c(i) or i.val <= j.val: c.post(o, "upper entries of the root", eq(mul(e, d), u(j, i)), fn, [i, j], rng + [le(i, j)])
        if not is_c(i) or i.val > j.val: c.post(o, "root is zero below the diagonal", eq(e, rc(0)), fn, [i, j], rng + [lt(j, i)])

def wit(c, o, back, n, p, u, iv):
    fn = "LDLTMgr::witness"
    W, p1 = F("W"), add(p, ic(1))
    wrhs = lambda w: lambda i: neg(SUM(add(i, ic(1)), p1, lambda k: mul(div(u(k, i), u(i, i)), w(k))))
    if c.dim is None: c.identify([o], {"W": (1, wrhs(W), lambda i: and_(le(ic(0), i), lt(i, p)), [eq(W(p), rc(1)), ALL(0, p, lambda i: lt(rc(0), u(i, i)))])})
    m = o.val(o.args[0])
    w = lambda i: back(o.at(m.fs["wit"], i))
    c.post(o, "returned value is minus the failing pivot", eq(back(o.ret), neg(u(p, p))), fn)
    c.post(o, "block report kept", and_(eq(m.fs["pos"].xs[0], ic(0)), eq(m.fs["pos"].xs[1], p1)), fn)
    c.post(o, "witness entry at the failing pivot is one", eq(w(p), rc(1)), fn)
    for i in ([iv] if c.dim is None else [ic(a) for a in range(p.val)]):
        c.post(o, "witness solves the triangular system", eq(w(i), wrhs(w)(i)), fn, [i], [le(ic(0), i), lt(i, p)] + ([eq(W(i), wrhs(W)(i)), eq(W(p), rc(1))] if c.dim is None else []))

@unit("ldlt:api", dims=(1, 2, 3))
def _api(c):
    n = c.N("n", 1)
    # factorize hands the matrix to factor entry by entry
    got = {}
    i, j = (var("qi", "I"), var("qj", "I")) if c.dim is None else (ic(n.val - 1), ic(0))
    def h(ex, f, selfv, args):
        got["v"] = ex.call_value(args[0], [i, j])
        got["self"] = selfv
        return var("spd", "B")
    rng = [le(ic(0), j), le(j, i), lt(i, n)]
    for o in c.run("LDLTMgr::factorize", lambda ex: ([ref(ex, c.mat("A", n, n))], manager(c, ex, n)), pre=rng, contracts={"LDLTMgr::factor": h}):
        c.post(o, "factorize reads the entries of the given matrix", eq(got["v"], A(i, j)), "LDLTMgr::factorize")
        c.post(o, "factorize answers as factor does", eq_bool(o.ret, var("spd", "B")), "LDLTMgr::factorize")
    # quadratic form of the witness over the reported block
    p0, p1 = (var("p0", "I"), var("p1", "I"))
    W, M = F("w"), F("M")
    for a, b in ([(p0, p1)] if c.dim is None else [(ic(x), ic(y)) for y in range(1, n.val + 1) for x in range(y)]):
        def mk(ex):
            m = ex.deref(manager(c, ex, n))
            fs = dict(m.fs)
            fs["pos"], fs["wit"] = Tup([a, b]), c.vec("w", n)
            return [ref(ex, c.mat("M", n, n))], ref(ex, Struct(m.name, fs))
        spec = SUM(a, b, lambda i: SUM(a, b, lambda j: mul(W(i), M(i, j), W(j))))
        for o in c.run("LDLTMgr::sym_quad", mk, pre=[le(ic(0), a), lt(a, b), le(b, n)]):
            c.post(o, "quadratic form sums v_i M_ij v_j over the block", eq(o.ret, spec), "LDLTMgr::sym_quad")

# ----------------------------------------------------------------- matrix-inequality oracles
def mats(c, n, nd):
    """n matrices F_0 .. F_{n-1} of size nd x nd"""
    if c.dim is None:
        b, b2 = fresh("mk", "I"), (fresh("ix", "I"), fresh("ix", "I"))
        return SVec(n, (b,), Struct("Arr", {"data": SVec(mul(nd, nd), b2, app("F", (b,) + b2, "R"), nd), "rows": nd, "cols": nd}))
    r = range(nd.val)
    return CVec([Struct("Arr", {"data": CVec([app("F", (ic(k), ic(i), ic(j)), "R") for i in r for j in r]), "rows": nd, "cols": nd}) for k in range(n.val)])

def mgr_contracts(c, nd, log, qs):
    """factor: an arbitrary verdict, and on rejection some block of the matrix; witness: an arbitrary vector on
    the block and a value >= 0 (established by the ldlt: units); sym_quad is the real code."""
    def setf(ex, selfv, **kw):
        m = ex.deref(selfv)
        fs = dict(m.fs)
        fs.update(kw)
        ex.write(selfv.place, Struct(m.name, fs))
    def fac(entry):
        def h(ex, f, selfv, args):
            q = len(log)
            p1 = var("p1_%d" % q, "I") if c.dim is None else nd
            spd = var("spd_%d" % q, "B")
            log.append({"spd": spd})
            for t, (i, j) in enumerate(qs): ex.assume(eq(var("entry_%d_%d" % (q, t)), entry(ex, args[0], i, j)))
            ex.assume(and_(le(ic(1), p1), le(p1, nd)))
            setf(ex, selfv, pos=Tup([ic(0), ite(spd, ic(0), p1)]))
            return spd
        return h
    def wit(ex, f, selfv, args):
        if not log: raise Unsupported("witness asked for before any factorisation")
        ex.oblige("witness is asked for only after a rejection", "pre", not_(log[-1]["spd"]))
        q = len(log) - 1
        setf(ex, selfv, wit=c.vec("w%d" % q, nd))
        ep = var("ep_%d" % q)
        ex.assume(le(rc(0), ep))
        return ep
    return {"LDLTMgr::factor": fac(lambda ex, g, i, j: ex.call_value(g, [i, j])),
            "LDLTMgr::factorize": fac(lambda ex, m, i, j: ex.call_fn(c.crate.find("Arr::at"), [i, j], selfv=m)),
            "LDLTMgr::witness": wit}

def lmi_unit(c, typ, affine, tail):
    n, nd = c.N("n", 1), c.N("nd", 1)
    Fm, B, X = F("F"), F("B"), F("x")
    qs = [(var("qi", "I"), var("qj", "I"))] if c.dim is None else [(ic(i), ic(j)) for i in range(nd.val) for j in range(i + 1)]
    pre = [h for i, j in qs for h in (le(ic(0), j), le(j, i), lt(i, nd))]
    fn = typ + "::assess_feas"
    for nq in (1, 2):
        log = []
        src = "(f: Vec<Arr>, b: Arr, x0: &Arr, x: &Arr) -> Option<(Arr, %s)> { let mut o = %s::new(f%s); %s o.assess_feas(x) }" % (
            "SingleCut" if affine else "f64", typ, ", b" if affine else "", "let _r = o.assess_feas(x0);" if nq == 2 else "")
        def mk(ex):
            del log[:]
            return [mats(c, n, nd), c.mat("B", nd, nd), ref(ex, c.vec("x0", n)), ref(ex, c.vec("x", n))], None
        cs = mgr_contracts(c, nd, log, qs)
        P = probe(src)
        for o in c.run(P, mk, label=fn, pre=pre, contracts=cs):
            q = nq - 1
            spd, p1, ep, w = var("spd_%d" % q, "B"), (var("p1_%d" % q, "I") if c.dim is None else nd), var("ep_%d" % q), F("w%d" % q)
            used = set(v.val for h in o.pc for v in h.fv)
            if "entry_%d_0" % q not in used or "entry_%d_0" % nq in used: raise Unsupported("the oracle does not factor exactly once per query")
            for t, (i, j) in enumerate(qs):
                e = var("entry_%d_%d" % (q, t))
                s = SUM(0, n, lambda k: mul(Fm(k, i, j), X(k)))
                c.post(o, "factored matrix is %s" % ("B - sum x_k F_k" if affine else "sum x_k F_k"), eq(e, sub(B(i, j), s) if affine else s), fn)
            c.post(o, "accepts exactly when the matrix is positive definite", eq_bool(o.ret.some, not_(spd)), fn)
            if o.ret.val is None: continue
            g, b = o.ret.val.xs
            b = b.fs["0"] if isinstance(b, Struct) else b
            rej = [o.ret.some]
            c.post(o, "cut offset is the certificate value", eq(b, ep), fn, hyps=rej)
            c.post(o, "cut offset is not negative", le(rc(0), b), fn, hyps=rej)
            c.post(o, "gradient has one entry per variable", eq(o.len(g), n), fn, hyps=rej)
            for k in ([var("ck", "I")] if c.dim is None else [ic(k) for k in range(n.val)]):
                s = SUM(0, p1, lambda i: SUM(0, p1, lambda j: mul(w(i), Fm(k, i, j), w(j))))
                c.post(o, "gradient entry is %s v'F_k v" % ("" if affine else "minus"), eq(o.at(g, k), s if affine else neg(s)), fn, [k], rej + [le(ic(0), k), lt(k, n)])

for _t, _a in (("LMIOracle", True), ("LMIOldOracle", True), ("LMI0Oracle", False)):
    def _f(c, t=_t, a=_a): lmi_unit(c, t, a, None)
    unit("lmi:%s" % _t, dims=(1, 2))(_f)

# ----------------------------------------------------------------- semidefinite-tolerant factorisation (bounded)
@unit("semi:factor", dims=(1, 2, 3), bounded=True)
def _semi(c):
    """from any state of the manager; v'Av is written out for the block and compared with the returned value"""
    n = c.N("n", 1)
    if c.dim is None: raise Unsupported("bounded by design")
    N, fn = n.val, "LDLTMgr::factor_with_allow_semidefinite"
    S = lambda i, j: A(ic(max(i, j)), ic(min(i, j)))
    P = probe("(m: &mut LDLTMgr, get: F) -> (bool, f64) { let ok = m.factor_with_allow_semidefinite(get); if ok { (true, 0.0) } else { let w = m.witness(); (false, w) } }")
    # pivots of the whole matrix
    tab = {}
    for i in range(N):
        for j in range(i + 1): tab[i, j] = sub(S(i, j), add(rc(0), *[div(mul(tab[i, k], tab[j, k]), tab[k, k]) for k in range(j)]))
    nz = [not_(eq(tab[i, i], rc(0))) for i in range(N)]
    for o in c.run(P, lambda ex: ([manager(c, ex, n), PyFn(PUT)], None), label=fn):
        ok, ep = o.ret.xs
        m = o.val(o.args[0])
        s, e = (simp(o.ex, x, o.pc) for x in m.fs["pos"].xs)
        if is_true(ok, o):
            c.post(o, "no block is reported on acceptance", eq(e, ic(0)), fn)
            c.post(o, "acceptance without a vanishing pivot means every pivot is positive", and_(*[lt(rc(0), tab[i, i]) for i in range(N)]), fn, hyps=nz)
            continue
        if not (is_c(s) and is_c(e)): raise Unsupported("the reported block depends on the data")
        c.post(o, "reported block lies in the matrix", and_(le(ic(0), s), lt(s, e), le(e, n)), fn)
        if not 0 <= s.val < e.val <= N: continue
        v = [o.at(m.fs["wit"], i) for i in range(s.val, e.val)]
        q = add(rc(0), *[mul(v[i - s.val], S(i, j), v[j - s.val]) for i in range(s.val, e.val) for j in range(s.val, e.val)])
        c.post(o, "witness certifies the rejection: v'Av is minus the returned value", eq(q, neg(ep)), fn)
        c.post(o, "returned value is positive", lt(rc(0), ep), fn)
