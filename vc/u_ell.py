"""Contracts of the ellipsoid updates (Ell, EllStable) over the calculator contracts."""
from unit import *
from u_calc import CALC, SUCCESS, NOSOLN, NOEFFECT, helper

METH = {"bias": "update_bias_cut", "central": "update_central_cut", "q": "update_q"}

def calc_contracts(log, sig_ok=True):
    """EllCalc entry points replaced by their contract: an arbitrary verdict and (on success)
    parameters with 0 <= sigma < 1, delta > 0 (established by the calc: units)."""
    out = {}
    for mode, names in CALC.items():
        for kind, q in zip(("single", "parallel"), names):
            def h(ex, f, selfv, args, mode=mode, kind=kind):
                a = [ex.deref(x) for x in args]
                tsq = a[-1]
                if kind == "single":
                    b0, some, b1 = (a[0] if mode != "central" else rc(0)), FALSE, rc(0)
                else:
                    b0, o = a[0].fs["0"], a[0].fs["1"]
                    some, b1 = o.some, (o.val if o.val is not None else rc(0))
                hs = ex.deref(selfv)
                key = (mode, kind, b0, some, b1, tsq, hs)
                log.append(key)
                st = var("st", "I")
                rho, sig, dlt = var("rho"), var("sigma"), var("delta")
                ex.assume(and_(le(ic(0), st), le(st, ic(2))))
                ex.assume(implies(eq(st, SUCCESS), and_(le(rc(0), sig), lt(sig, rc(1)), lt(rc(0), dlt))))
                return Tup([Enum("CutStatus", st), Tup([rho, sig, dlt])])
            out[q] = h
    return out

def cut_val(kind, g, b0, b1):
    if kind == "single": return Tup([g, Struct("SingleCut", {"0": b0})])
    return Tup([g, Struct("ParallelCut", {"0": b0, "1": Opt(TRUE if kind == "parallel" else FALSE, b1 if kind == "parallel" else None)})])

def space(c, ex, typ, n, nd=None):
    h = helper(ex, c.crate, n, var("up", "B"))
    d = {"mq": c.mat("M", n, n), "xc": c.vec("xc", n), "kappa": var("kappa"), "helper": h, "tsq": var("tsq0")}
    if typ == "Ell": d["no_defer_trick"] = nd if nd is not None else var("nd", "B")
    st = c.crate.structs.get(typ)
    return Ref(Place(ex.new_cell(Struct(typ, d))))

M, G, XC = F("M"), F("g"), F("xc")
kap, rho, sig, dlt, st = var("kappa"), var("rho"), var("sigma"), var("delta"), var("st", "I")

def check_calls(c, o, log, mode, kind, omega, b0, b1, fn, n):
    calls = list(log)
    if not calls: raise Unsupported("the update does not consult the cut calculator")
    m, k, cb0, some, cb1, ts, hs = calls[-1]
    want = "single" if kind == "single" else "parallel"
    if kind == "none" and k == "single": want = "single"
    if m != mode or k != want: raise Unsupported("the %s-cut update consults another calculator entry" % mode)
    if mode != "central": c.post(o, "calculator receives the cut offset", eq(cb0, b0), fn)
    if want == "parallel":
        c.goal("calculator receives the second offset", [], eq_bool(some, TRUE if kind == "parallel" else FALSE), fn=fn)
        if kind == "parallel": c.post(o, "calculator receives the second offset value", eq(cb1, b1), fn)
    c.post(o, "calculator receives tau^2 = kappa * g'Mg", eq(ts, mul(kap, omega)), fn)
    c.post(o, "parallel-cut switch is the search space's own", eq_bool(hs.fs["use_parallel_cut"], var("up", "B")), fn)
    c.post(o, "calculator is set up for the dimension of the space", eq(toreal(hs.fs["n_f"]), toreal(n)), fn)
def eq_bool(a, b): return and_(implies(a, b), implies(b, a))

def ell_unit(c, mode, kind):
    n = c.N("n", 2)
    b0, b1 = c.R("b0"), c.R("b1")
    h = lambda i: SUM(0, n, lambda j: mul(M(i, j), G(j)))
    omega = SUM(0, n, lambda i: mul(G(i), h(i)))
    sym = ALL(0, n, lambda i: ALL(0, n, lambda j: eq(M(i, j), M(j, i))))
    pre = [sym, lt(rc(0), kap), lt(rc(0), omega)]
    fn = "Ell::" + METH[mode]
    log = []
    def mk(ex):
        del log[:]
        return [cut_val(kind, c.vec("g", n), b0, b1)], space(c, ex, "Ell", n)
    outs = c.run(fn, mk, pre=pre, contracts=calc_contracts(log), label=fn)
    i, j = fresh("i", "I"), fresh("j", "I")
    R = [le(ic(0), i), lt(i, n), le(ic(0), j), lt(j, n)]
    for o in outs:
        s = o.self_
        idx = [(i, j)] if c.dim is None else [(ic(a), ic(b)) for a in range(n.val) for b in range(n.val)]
        check_calls(c, o, log, mode, kind, omega, b0, b1, fn, n)
        c.post(o, "verdict is the calculator's", eq(o.ret.code, st), fn)
        ok = eq(st, SUCCESS)
        c.post(o, "tsq reports kappa * g'Mg", eq(s.fs["tsq"], mul(kap, omega)), fn)
        xc2, mq2, k2 = s.fs["xc"], s.fs["mq"], s.fs["kappa"]
        c.post(o, "dimension kept", and_(eq(o.len(xc2), n), eq(mq2.fs["rows"], n), eq(mq2.fs["cols"], n)), fn)
        for (a, b) in idx:
            rng = R if c.dim is None else []
            P = mul(k2, o.at(mq2, a, b))
            new = mul(dlt, kap, sub(M(a, b), mul(div(sig, omega), h(a), h(b))))
            if b is (j if c.dim is None else ic(0)):
                c.post(o, "refused cut leaves the centre", implies(not_(ok), eq(o.at(xc2, a), XC(a))), fn, [a], rng)
                c.post(o, "centre moves to xc - (rho/omega) M g", implies(ok, eq(o.at(xc2, a), sub(XC(a), mul(div(rho, omega), h(a))))), fn, [a], rng)
            c.post(o, "refused cut leaves the shape", implies(not_(ok), eq(P, mul(kap, M(a, b)))), fn, [a, b], rng)
            c.post(o, "new shape is delta*kappa*(M - (sigma/omega) Mg g'M)", implies(ok, eq(P, new)), fn, [a, b], rng)
            c.post(o, "shape stays symmetric", eq(o.at(mq2, a, b), o.at(mq2, b, a)), fn, [a, b], rng)
        c.post(o, "kappa stays positive", lt(rc(0), k2), fn)
        c.post(o, "other settings unchanged", and_(eq_bool(s.fs["no_defer_trick"], var("nd", "B")), eq_bool(s.fs["helper"].fs["use_parallel_cut"], var("up", "B"))), fn)

for _m in ("bias", "central", "q"):
    for _k in ("single", "none", "parallel"):
        def _f(c, m=_m, k=_k): ell_unit(c, m, k)
        unit("ell:%s:%s" % (_m, _k), dims=(2, 3))(_f)

def stable_unit(c, mode, kind):
    """EllStable: shape M = L^-T D L^-1 with D_i = M(i,i), L(l,j) = M(j,l) for l > j; the strictly
    lower triangle of the stored matrix is scratch."""
    n = c.N("n", 2)
    b0, b1 = c.R("b0"), c.R("b1")
    fn = "EllStable::" + METH[mode]
    Y, Z = F("Y"), F("Z")
    D = lambda i: M(i, i)
    omega = SUM(0, n, lambda i: mul(D(i), Y(i), Y(i)))
    yeq = lambda i: sub(G(i), SUM(0, i, lambda j: mul(M(j, i), Y(j))))
    zeq = lambda i: sub(mul(D(i), Y(i)), SUM(add(i, ic(1)), n, lambda j: mul(M(i, j), Z(j))))
    if c.dim is not None:       # the specification recursions unrolled
        ys = []
        for i in range(n.val): ys.append(sub(G(i), add(rc(0), *[mul(M(j, i), ys[j]) for j in range(i)])))
        Y = lambda i: ys[i if isinstance(i, int) else i.val]
        zs = {}
        for i in reversed(range(n.val)): zs[i] = sub(mul(D(i), ys[i]), add(rc(0), *[mul(M(i, j), zs[j]) for j in range(i + 1, n.val)]))
        Z = lambda i: zs[i if isinstance(i, int) else i.val]
        omega = add(*[mul(D(i), ys[i], ys[i]) for i in range(n.val)])
    pre = [lt(rc(0), kap), ALL(0, n, lambda i: lt(rc(0), D(i))), lt(rc(0), omega)]
    log = []
    def mk(ex):
        del log[:]
        return [cut_val(kind, c.vec("g", n), b0, b1)], space(c, ex, "EllStable", n)
    outs = c.run(fn, mk, pre=pre, contracts=calc_contracts(log), label=fn)
    c.identify(outs, {"Y": (1, yeq), "Z": (1, zeq)})
    r = div(sig, mul(sub(rc(1), sig), omega))
    T = lambda j: add(rc(1), mul(r, SUM(0, j, lambda k: mul(D(k), Y(k), Y(k)))))
    V = lambda j, l: sub(G(l), SUM(0, add(j, ic(1)), lambda k: mul(M(k, l), Y(k))))
    i, j = fresh("i", "I"), fresh("j", "I")
    one = [i] if c.dim is None else [ic(a) for a in range(n.val)]
    two = [(i, j)] if c.dim is None else [(ic(a), ic(b)) for a in range(n.val) for b in range(a + 1, n.val)]
    for o in outs:
        s = o.self_
        if c.dim is None:
            # the calculator's argument was recorded before identification
            m_, k_, cb0, some, cb1, ts, hs = log[-1]
            log[-1] = (m_, k_, cb0, some, cb1, o.map(ts), hs)
        check_calls(c, o, log, mode, kind, omega, b0, b1, fn, n)
        c.post(o, "verdict is the calculator's", eq(o.ret.code, st), fn)
        ok = eq(st, SUCCESS)
        c.post(o, "tsq reports kappa * g'Mg", eq(s.fs["tsq"], mul(kap, omega)), fn)
        xc2, mq2, k2 = s.fs["xc"], s.fs["mq"], s.fs["kappa"]
        c.post(o, "dimension kept", and_(eq(o.len(xc2), n), eq(mq2.fs["rows"], n), eq(mq2.fs["cols"], n)), fn)
        c.post(o, "refused cut leaves kappa", implies(not_(ok), eq(k2, kap)), fn)
        c.post(o, "kappa becomes delta*kappa", implies(ok, eq(k2, mul(dlt, kap))), fn)
        for a in one:
            rng = [le(ic(0), a), lt(a, n)]
            c.post(o, "refused cut leaves the centre", implies(not_(ok), eq(o.at(xc2, a), XC(a))), fn, [a], rng)
            c.post(o, "centre moves to xc - (rho/omega) M g", implies(ok, eq(o.at(xc2, a), sub(XC(a), mul(div(rho, omega), Z(a))))), fn, [a], rng)
            c.post(o, "refused cut leaves the diagonal factor", implies(not_(ok), eq(o.at(mq2, a, a), D(a))), fn, [a], rng)
            c.post(o, "diagonal factor d_j*t_j/t_(j+1)", implies(ok, eq(o.at(mq2, a, a), mul(D(a), div(T(a), T(add(a, ic(1))))))), fn, [a], rng)
        for (a, b) in two:
            rng = [le(ic(0), a), lt(a, b), lt(b, n)]
            c.post(o, "refused cut leaves the triangular factor", implies(not_(ok), eq(o.at(mq2, a, b), M(a, b))), fn, [a, b], rng)
            c.post(o, "triangular factor L + beta_j*v", implies(ok, eq(o.at(mq2, a, b), add(M(a, b), mul(div(mul(r, D(a), Y(a)), T(add(a, ic(1)))), V(a, b))))), fn, [a, b], rng)
        c.post(o, "other settings unchanged", eq_bool(s.fs["helper"].fs["use_parallel_cut"], var("up", "B")), fn)

for _m in ("bias", "central", "q"):
    for _k in ("single", "none", "parallel"):
        def _f(c, m=_m, k=_k): stable_unit(c, m, k)
        unit("stable:%s:%s" % (_m, _k), dims=(2, 3))(_f)

# ------------------------------------------------------------------------------------ construction and access
def space_unit(c, typ):
    """each constructor builds the ellipsoid its arguments describe, with parallel cuts on; xc/tsq read it, set_xc moves it"""
    n = c.N("n", 2)
    k_ = c.R("k_")
    X, D = F("x"), F("d")
    idx = [(fresh("i", "I"), fresh("j", "I"))] if c.dim is None else [(ic(a), ic(b)) for a in range(n.val) for b in range(n.val)]
    dl = lambda i, j, v: ite(eq(i, j), v, rc(0))
    mats = [("new_with_matrix", [k_, c.mat("M", n, n)], k_, lambda i, j: M(i, j)),
            ("new", [c.vec("d", n)], rc(1), lambda i, j: dl(i, j, D(i))),
            ("new_with_scalar", [k_], k_, lambda i, j: dl(i, j, rc(1)))]
    if typ == "Ell": mats.append(("from_covariance", [c.mat("M", n, n)], rc(1), lambda i, j: M(i, j)))
    for name, args, kv, m in mats:
        fn = "%s::%s" % (typ, name)
        for o in c.run(fn, lambda ex: (args + [c.vec("x", n)], None), pre=[lt(rc(0), k_)], label=fn):
            r = o.val(o.ret)
            mq, xc, kp, h = r.fs["mq"], r.fs["xc"], r.fs["kappa"], r.fs["helper"]
            c.post(o, "constructed space has the dimension of its centre", and_(eq(o.len(xc), n), eq(mq.fs["rows"], n), eq(mq.fs["cols"], n)), fn)
            c.post(o, "calculator is set up for the dimension of the space", eq(toreal(h.fs["n_f"]), toreal(n)), fn)
            c.post(o, "parallel cuts are in use by default", h.fs["use_parallel_cut"], fn)
            c.post(o, "constructed scale is positive", lt(rc(0), kp), fn)
            for i, j in idx:
                rng = [le(ic(0), i), lt(i, n), le(ic(0), j), lt(j, n)]
                if i is j or not is_c(i): c.post(o, "constructed centre is the given one", eq(o.at(xc, i), X(i)), fn, [i], rng)
                if typ == "Ell": c.post(o, "constructed shape is the given one", eq(mul(kp, o.at(mq, i, j)), mul(kv, m(i, j))), fn, [i, j], rng)
                else:
                    if i is j or not is_c(i): c.post(o, "constructed diagonal factor is the given one", eq(mul(kp, o.at(mq, i, i)), mul(kv, m(i, i))), fn, [i], rng)
                    if not is_c(i) or i.val < j.val: c.post(o, "constructed triangular factor is the given one", eq(o.at(mq, i, j), m(i, j)), fn, [i, j], rng + [lt(i, j)])
    sp = lambda ex: space(c, ex, typ, n)
    i = fresh("i", "I") if c.dim is None else ic(n.val - 1)
    j = fresh("j", "I") if c.dim is None else ic(0)
    rng = [le(ic(0), i), lt(i, n), le(ic(0), j), lt(j, n)]
    def frame(o, fn, moved):
        s = o.self_
        c.post(o, "shape untouched", and_(eq(s.fs["kappa"], kap), eq(o.at(s.fs["mq"], i, j), M(i, j))), fn, [i, j], rng)
        c.post(o, "width measure untouched", eq(s.fs["tsq"], var("tsq0")), fn)
        c.post(o, "centre %s" % ("replaced" if moved else "untouched"), and_(eq(o.len(s.fs["xc"]), n), eq(o.at(s.fs["xc"], i), X(i) if moved else XC(i))), fn, [i], rng)
    for o in c.run(typ + "::xc", lambda ex: ([], sp(ex)), label=typ + "::xc"):
        c.post(o, "xc is the centre", and_(eq(o.len(o.ret), n), eq(o.at(o.ret, i), XC(i))), typ + "::xc", [i], rng)
        frame(o, typ + "::xc", False)
    for o in c.run(typ + "::tsq", lambda ex: ([], sp(ex)), label=typ + "::tsq"):
        c.post(o, "tsq is the width measure of the last cut", eq(o.ret, var("tsq0")), typ + "::tsq")
        frame(o, typ + "::tsq", False)
    for o in c.run(typ + "::set_xc", lambda ex: ([c.vec("x", n)], sp(ex)), label=typ + "::set_xc"):
        frame(o, typ + "::set_xc", True)

for _t in ("Ell", "EllStable"):
    def _f(c, t=_t): space_unit(c, t)
    unit("space:%s" % _t, dims=(2, 3))(_f)
