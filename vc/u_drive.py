"""Contracts of the drivers (cutting-plane loops, binary search) over arbitrary oracles and search spaces.

The oracle and the search space are opaque: every method is an uninterpreted function of the object's
current state and its arguments, and mutating methods produce an uninterpreted next state.  The
specification is a recursion over the iteration number k (state of the oracle, the space, the level,
the incumbent before iteration k); the loop in the source is identified with it by proving that it
satisfies the same recursion."""
from unit import *
from fractions import Fraction

def A(name, sort, *a): return app(name, tuple(a), sort)
def STATUS(nm, *a):
    """status of an update: success, no solution or no effect (never the placeholder 'unknown')"""
    return ite(A("ok_" + nm, "B", *a), ic(0), ite(A("ns_" + nm, "B", *a), ic(1), ic(2)))

def xc_(ex, r, a): return Abs("Arr", A("s_xc", "Vec", ex.deref(r).t))
def tsq_(ex, r, a): return A("s_tsq", "R", ex.deref(r).t)
def upd_(nm):
    def f(ex, recv, args):
        s, c = ex.deref(recv), ex.deref(args[0])
        g, b = ex.deref(c.xs[0]), ex.deref(c.xs[1])
        a = (s.t, g.t, b.t)
        ex.write(recv.place, Abs("SearchSpace", A("s_" + nm, "Sp", *a)))
        return Enum("CutStatus", STATUS(nm, *a))
    return f
def set_xc_(ex, recv, args):
    s = ex.deref(recv)
    ex.write(recv.place, Abs("SearchSpace", A("s_setxc", "Sp", s.t, ex.deref(args[0]).t)))
    return UNIT
def feas_(ex, recv, args):
    o, x = ex.deref(recv), ex.deref(args[0])
    a = (o.t, x.t)
    ex.write(recv.place, Abs(o.trait, A("o_next", "Or", *a)))
    return Opt(A("o_some", "B", *a), Tup([Abs("Arr", A("o_g", "Vec", *a)), Abs("Cut", A("o_c", "Cut", *a))]))
def oupd_(ex, recv, args):
    o = ex.deref(recv)
    ex.write(recv.place, Abs(o.trait, A("o_upd", "Or", o.t, ex.deref(args[0]))))
    return UNIT
def optim_(ex, recv, args):
    o, x, g = ex.deref(recv), ex.deref(args[0]), ex.deref(args[1])
    a = (o.t, x.t, g)
    ex.write(recv.place, Abs(o.trait, A("p_next", "Or", *a)))
    ex.write(args[1].place, A("p_gam", "R", *a))
    return Tup([Tup([Abs("Arr", A("p_g", "Vec", *a)), Abs("Cut", A("p_c", "Cut", *a))]), A("p_shr", "B", *a)])
def optq_(ex, recv, args):
    o, x, g, r = ex.deref(recv), ex.deref(args[0]), ex.deref(args[1]), ex.deref(args[2])
    a = (o.t, x.t, g, r)
    ex.write(recv.place, Abs(o.trait, A("q_next", "Or", *a)))
    ex.write(args[1].place, A("q_gam", "R", *a))
    return Tup([Tup([Abs("Arr", A("q_g", "Vec", *a)), Abs("Cut", A("q_c", "Cut", *a))]), A("q_shr", "B", *a), Abs("Arr", A("q_x", "Vec", *a)), A("q_more", "B", *a)])
def bs_(ex, recv, args):
    o, g = ex.deref(recv), ex.deref(args[0])
    ex.write(recv.place, Abs(o.trait, A("b_next", "Or", o.t, g)))
    return A("b_ok", "B", o.t, g)
ABS = {"xc": xc_, "tsq": tsq_, "update_bias_cut": upd_("bias"), "update_central_cut": upd_("central"), "update_q": upd_("q"),
       "set_xc": set_xc_, "assess_feas": feas_, "update": oupd_, "assess_optim": optim_, "assess_optim_q": optq_, "assess_bs": bs_,
       "clone": lambda ex, r, a: ex.deref(r)}

mi, tol = var("mi", "I"), var("tol")
def ref(ex, v): return Ref(Place(ex.new_cell(v)))
def options(c, M): return Struct("Options", {"max_iters": M, "tolerance": tol, "verbose": c.B("verb")})

class Seq:
    """specification sequences: init and step; symbolic (uninterpreted with a defining recursion) or unrolled"""
    def __init__(self, c, names):
        self.c, self.names = c, names       # name -> (sort, init)
        self.conc = None
    def at(self, nm, k):
        if self.conc is not None: return self.conc[k.val][nm]
        return app(nm, (k,), self.names[nm][0])
    def unroll(self, top, step):
        self.conc = [{nm: i for nm, (s, i) in self.names.items()}]
        for k in range(top):
            self.conc.append(step(ic(k)))
    def rhs(self, step):
        out = {}
        for nm, (s, i) in self.names.items():
            out[nm] = (1, s, (lambda nm, i: lambda k: ite(le(k, ic(0)), i, step(add(k, ic(-1)))[nm]))(nm, i))
        return out

def limit(c):
    """iteration limit: arbitrary, or the dimension of a bounded run"""
    if c.dim is None:
        c.pre.append(le(ic(0), mi))
        return mi
    return ic(c.dim)

def first_stop(c, o, fn, r, M, go, hy=()):
    """every iteration before r continued; r is within the limit"""
    c.post(o, "reported count within the limit", and_(le(ic(0), r), le(r, M)), fn, hyps=hy)
    if is_c(r):
        c.post(o, "no earlier iteration should have stopped", and_(TRUE, *[go(ic(j)) for j in range(r.val)]), fn, hyps=hy)
    else:
        j = fresh("j", "I")
        c.post(o, "no earlier iteration should have stopped", go(j), fn, [j], [le(ic(0), j), lt(j, r)] + list(hy))

def eqv(a, b):
    """equality of opaque values"""
    return eq(a, b)
def iff(a, b): return and_(implies(a, b), implies(b, a))

# ------------------------------------------------------------------------------------------- feasibility
def feas_spec(c, M, O0, S0):
    sq = Seq(c, {"specO": ("Or", O0), "specS": ("Sp", S0)})
    x = lambda k: A("s_xc", "Vec", sq.at("specS", k))
    q = lambda k: (sq.at("specO", k), x(k))
    some = lambda k: A("o_some", "B", *q(k))
    args = lambda k: (sq.at("specS", k), A("o_g", "Vec", *q(k)), A("o_c", "Cut", *q(k)))
    step = lambda k: {"specO": A("o_next", "Or", *q(k)), "specS": A("s_bias", "Sp", *args(k))}
    ok = lambda k: A("ok_bias", "B", *args(k))
    small = lambda k: lt(A("s_tsq", "R", step(k)["specS"]), tol)
    go = lambda k: and_(some(k), ok(k), not_(small(k)))
    if c.dim is not None: sq.unroll(c.dim, step)
    return sq, x, some, args, step, ok, small, go

@unit("drive:feas", dims=(0, 1, 2, 3))
def drive_feas(c):
    M = limit(c)
    O0, S0 = var("O0", "Or"), var("S0", "Sp")
    fn = "cutting_plane::cutting_plane_feas"
    sq, x, some, args, step, ok, small, go = feas_spec(c, M, O0, S0)
    cells = {}
    def mk(ex):
        cells["o"], cells["s"] = ref(ex, Abs("OracleFeas", O0)), ref(ex, Abs("SearchSpace", S0))
        return [cells["o"], cells["s"], options(c, M)], None
    outs = c.run(fn, mk, abs=ABS, label=fn)
    if c.dim is None: c.identify_joint(outs, sq.rhs(step))
    for o in outs:
        res, r = o.ret.xs
        first_stop(c, o, fn, r, M, go)

        if c.dim is not None and not is_c(r): raise Unsupported("iteration count")
        if ok_at(c, r, M):
            sm, accepted = some(r), and_(lt(r, M), not_(some(r)))
            c.post(o, "a solution is returned iff the oracle accepted the last query", iff(res.some, accepted), fn)
            if res.val is not None:
                c.post(o, "the solution is the centre the oracle accepted", implies(res.some, eqv(res.val.t, x(r))), fn)
            c.post(o, "stops early only for acceptance, a refused cut or the tolerance", implies(lt(r, M), not_(go(r))), fn)
            endO = lambda: step(r)["specO"]
            c.post(o, "the space is left as the last update left it",
                   eqv(o.val(cells["s"]).t, ite(or_(eq(r, M), not_(some(r))), sq.at("specS", r), step(r)["specS"])), fn)
        else:
            c.post(o, "no solution at the iteration limit", not_(res.some), fn)
            c.post(o, "the space is left as the last update left it", eqv(o.val(cells["s"]).t, sq.at("specS", r)), fn)
def ok_at(c, r, M): return not (c.dim is not None and is_c(r) and r.val >= M.val)

# ------------------------------------------------------------------------------------------- optimisation
@unit("drive:optim", dims=(0, 1, 2, 3))
def drive_optim(c):
    M = limit(c)
    O0, S0, G0 = var("O0", "Or"), var("S0", "Sp"), var("gam0")
    fn = "cutting_plane::cutting_plane_optim"
    sq = Seq(c, {"specO": ("Or", O0), "specS": ("Sp", S0), "specG": ("R", G0), "specHas": ("B", FALSE), "specX": ("Vec", var("undefVec", "Vec"))})
    x = lambda k: A("s_xc", "Vec", sq.at("specS", k))
    q = lambda k: (sq.at("specO", k), x(k), sq.at("specG", k))
    shr = lambda k: A("p_shr", "B", *q(k))
    args = lambda k: (sq.at("specS", k), A("p_g", "Vec", *q(k)), A("p_c", "Cut", *q(k)))
    def step(k):
        return {"specO": A("p_next", "Or", *q(k)), "specG": A("p_gam", "R", *q(k)),
                "specS": ite(shr(k), A("s_central", "Sp", *args(k)), A("s_bias", "Sp", *args(k))),
                "specHas": or_(sq.at("specHas", k), shr(k)), "specX": ite(shr(k), x(k), sq.at("specX", k))}
    ok = lambda k: or_(and_(shr(k), A("ok_central", "B", *args(k))), and_(not_(shr(k)), A("ok_bias", "B", *args(k))))
    small = lambda k: lt(A("s_tsq", "R", step(k)["specS"]), tol)
    go = lambda k: and_(ok(k), not_(small(k)))
    if c.dim is not None: sq.unroll(c.dim, step)
    cells = {}
    def mk(ex):
        cells["o"], cells["s"], cells["g"] = ref(ex, Abs("OracleOptim", O0)), ref(ex, Abs("SearchSpace", S0)), ref(ex, G0)
        return [cells["o"], cells["s"], cells["g"], options(c, M)], None
    outs = c.run(fn, mk, abs=ABS, label=fn)
    if c.dim is None: c.identify_joint(outs, sq.rhs(step))
    for o in outs:
        res, r = o.ret.xs
        first_stop(c, o, fn, r, M, go)
        after = lambda nm: (sq.at(nm, r) if not ok_at(c, r, M) else ite(lt(r, M), step(r)[nm], sq.at(nm, r)))
        if ok_at(c, r, M):
            c.post(o, "stops early only for a refused cut or the tolerance", implies(lt(r, M), not_(go(r))), fn)
        c.post(o, "a solution is returned iff some query improved the level", iff(res.some, after("specHas")), fn)
        if res.val is not None:
            c.post(o, "the solution is the centre of the last improving query", implies(res.some, eqv(res.val.t, after("specX"))), fn)
        c.post(o, "the level is the one the oracle wrote last", eq(o.val(cells["g"]), after("specG")), fn)
        c.post(o, "the space is left as the last update left it", eqv(o.val(cells["s"]).t, after("specS")), fn)

@unit("drive:optim_q", dims=(0, 1, 2, 3))
def drive_optim_q(c):
    M = limit(c)
    O0, S0, G0 = var("O0", "Or"), var("S0", "Sp"), var("gam0")
    fn = "cutting_plane::cutting_plane_optim_q"
    sq = Seq(c, {"specO": ("Or", O0), "specS": ("Sp", S0), "specG": ("R", G0), "specHas": ("B", FALSE), "specX": ("Vec", var("undefVec", "Vec")), "specR": ("B", FALSE)})
    x = lambda k: A("s_xc", "Vec", sq.at("specS", k))
    q = lambda k: (sq.at("specO", k), x(k), sq.at("specG", k), sq.at("specR", k))
    shr = lambda k: A("q_shr", "B", *q(k))
    args = lambda k: (sq.at("specS", k), A("q_g", "Vec", *q(k)), A("q_c", "Cut", *q(k)))
    ok = lambda k: A("ok_q", "B", *args(k))
    ns = lambda k: and_(not_(ok(k)), A("ns_q", "B", *args(k)))
    ne = lambda k: and_(not_(ok(k)), not_(A("ns_q", "B", *args(k))))
    more = lambda k: A("q_more", "B", *q(k))
    def step(k):
        return {"specO": A("q_next", "Or", *q(k)), "specG": A("q_gam", "R", *q(k)), "specS": A("s_q", "Sp", *args(k)),
                "specHas": or_(sq.at("specHas", k), shr(k)), "specX": ite(shr(k), A("q_x", "Vec", *q(k)), sq.at("specX", k)),
                "specR": not_(ok(k))}
    small = lambda k: lt(A("s_tsq", "R", step(k)["specS"]), tol)
    go = lambda k: and_(or_(ok(k), and_(ne(k), more(k))), not_(small(k)))
    if c.dim is not None: sq.unroll(c.dim, step)
    cells = {}
    def mk(ex):
        cells["o"], cells["s"], cells["g"] = ref(ex, Abs("OracleOptimQ", O0)), ref(ex, Abs("SearchSpace", S0)), ref(ex, G0)
        return [cells["o"], cells["s"], cells["g"], options(c, M)], None
    outs = c.run(fn, mk, abs=ABS, label=fn)
    if c.dim is None:
        # the retry flag is compared on the iterations that continue (specR is "the update had no effect")
        c.identify_joint(outs, sq.rhs(step), cont=go)
    for o in outs:
        res, r = o.ret.xs
        first_stop(c, o, fn, r, M, go)
        after = lambda nm: (sq.at(nm, r) if not ok_at(c, r, M) else ite(lt(r, M), step(r)[nm], sq.at(nm, r)))
        if ok_at(c, r, M):
            c.post(o, "stops early only for no solution, no alternative left or the tolerance", implies(lt(r, M), not_(go(r))), fn)
        c.post(o, "a solution is returned iff some query improved the level", iff(res.some, after("specHas")), fn)
        if res.val is not None:
            c.post(o, "the solution is the discrete point of the last improving query", implies(res.some, eqv(res.val.t, after("specX"))), fn)
        c.post(o, "the level is the one the oracle wrote last", eq(o.val(cells["g"]), after("specG")), fn)
        c.post(o, "the space is left as the last update left it", eqv(o.val(cells["s"]).t, after("specS")), fn)

# ------------------------------------------------------------------------------------------- binary search
@unit("drive:bsearch", dims=(0, 1, 2, 3))
def drive_bsearch(c):
    M = limit(c)
    O0, L0, U0 = var("O0", "Or"), var("lo0"), var("hi0")
    fn = "cutting_plane::bsearch"
    sq = Seq(c, {"specO": ("Or", O0), "specL": ("R", L0), "specU": ("R", U0), "specAcc": ("B", FALSE)})
    half = rc(Fraction(1, 2))
    w = lambda k: mul(half, sub(sq.at("specU", k), sq.at("specL", k)))
    mid = lambda k: mul(half, add(sq.at("specU", k), sq.at("specL", k)))
    acc = lambda k: A("b_ok", "B", sq.at("specO", k), mid(k))
    def step(k):
        return {"specO": A("b_next", "Or", sq.at("specO", k), mid(k)), "specL": ite(acc(k), sq.at("specL", k), mid(k)),
                "specU": ite(acc(k), mid(k), sq.at("specU", k)), "specAcc": or_(sq.at("specAcc", k), acc(k))}
    go = lambda k: not_(lt(w(k), tol))
    if c.dim is not None: sq.unroll(c.dim, step)
    cells = {}
    # tol > 0, as for any tolerance; with a degenerate interval and tol <= 0 an accepted midpoint equals the end
    pre = [le(L0, U0), lt(rc(0), tol)]
    def mk(ex):
        cells["o"], cells["i"] = ref(ex, Abs("OracleBS", O0)), ref(ex, Tup([L0, U0]))
        return [cells["o"], cells["i"], options(c, M)], None
    outs = c.run(fn, mk, pre=pre, abs=ABS, label=fn)
    if c.dim is None: c.identify_joint(outs, sq.rhs(step))
    for o in outs:
        ok, r = o.ret.xs
        first_stop(c, o, fn, r, M, go)
        c.post(o, "stops early only when half the width is below the tolerance", implies(lt(r, M), lt(w(r), tol)), fn)
        iv = o.val(cells["i"])
        c.post(o, "lower end handed back", eq(iv.xs[0], sq.at("specL", r)), fn)
        c.post(o, "upper end handed back", eq(iv.xs[1], sq.at("specU", r)), fn)
        # invariant: U <= U0, and U < U0 exactly when something was accepted
        hy = []
        if c.dim is None:
            k = fresh("k", "I")
            inv = lambda k: and_(le(sq.at("specL", k), sq.at("specU", k)), le(sq.at("specU", k), U0), iff(sq.at("specAcc", k), lt(sq.at("specU", k), U0)))
            df = lambda k: [eq(sq.at(n_, k), i) if s != "B" else iff(sq.at(n_, k), i) for n_, (s, i) in sq.names.items()]
            nx = lambda k: [eq(sq.at(n_, add(k, ic(1))), v) if sq.names[n_][0] != "B" else iff(sq.at(n_, add(k, ic(1))), v) for n_, v in step(k).items()]
            c.goal("interval invariant holds at the start", pre + df(ic(0)), inv(ic(0)), fn=fn)
            c.goal("interval invariant is kept by an iteration", pre + [le(ic(0), k), inv(k), go(k)] + nx(k), inv(add(k, ic(1))), fn=fn)
            hy = [inv(r)]
        c.post(o, "success is reported iff some value was accepted", iff(ok, sq.at("specAcc", r)), fn, hyps=hy)

# ------------------------------------------------------------------------------------------- adaptor
@unit("drive:adaptor", dims=(1,))
def drive_adaptor(c):
    """assess_bs: the feasibility search is its contract (any result, any next states)"""
    O0, S0, g = var("O0", "Or"), var("S0", "Sp"), var("gamma")
    fn = "BSearchAdaptor::assess_bs"
    calls = []
    def feas(ex, f, selfv, args):
        o, s, op = ex.deref(args[0]), ex.deref(args[1]), ex.deref(args[2])
        calls.append((o.t, s.t, args[1].place, op))
        ex.write(args[0].place, Abs(o.trait, A("f_o", "Or", o.t, s.t)))
        ex.write(args[1].place, Abs("SearchSpace", A("f_s", "Sp", o.t, s.t)))
        return Tup([Opt(A("f_some", "B", o.t, s.t), Abs("Arr", A("f_x", "Vec", o.t, s.t))), var("f_n", "I")])
    M = var("mi", "I")
    def mk(ex):
        del calls[:]
        return [g], ref(ex, Struct("BSearchAdaptor", {"omega": Abs("OracleFeas", O0), "space": Abs("SearchSpace", S0), "options": options(c, M)}))
    outs = c.run(fn, mk, contracts={"cutting_plane::cutting_plane_feas": feas}, abs=ABS, label=fn)
    o1 = A("o_upd", "Or", O0, g)
    for o in outs:
        s = o.self_
        if len(calls) < 1: raise Unsupported("the adaptor does not run the feasibility search")
        oo, ss, pl, op = calls[-1]
        c.post(o, "the oracle was told the value before the search", eqv(oo, o1), fn)
        c.post(o, "the search starts from the adaptor's space", eqv(ss, S0), fn)
        c.post(o, "the search uses the adaptor's options", and_(eq(op.fs["max_iters"], M), eq(op.fs["tolerance"], tol)), fn)
        ok = A("f_some", "B", o1, S0)
        c.post(o, "accepts iff the search found a point", iff(o.ret, ok), fn)
        c.post(o, "own centre moves exactly to the point found", eqv(s.fs["space"].t, ite(ok, A("s_setxc", "Sp", S0, A("f_x", "Vec", o1, S0)), S0)), fn)
        c.post(o, "own options unchanged", and_(eq(s.fs["options"].fs["max_iters"], M), eq(s.fs["options"].fs["tolerance"], tol)), fn)

@unit("drive:options", dims=(1,))
def drive_options(c):
    fn = "Options::new"
    outs = c.run("Options::new", lambda ex: ([mi, tol], None), label=fn)
    for o in outs:
        c.post(o, "limit and tolerance stored", and_(eq(o.ret.fs["max_iters"], mi), eq(o.ret.fs["tolerance"], tol)), fn)
    O0, S0 = var("O0", "Or"), var("S0", "Sp")
    outs = c.run("BSearchAdaptor::new", lambda ex: ([Abs("OracleFeas", O0), Abs("SearchSpace", S0), Struct("Options", {"max_iters": mi, "tolerance": tol, "verbose": FALSE})], None), label="BSearchAdaptor::new")
    for o in outs:
        f = o.ret.fs
        c.post(o, "adaptor stores oracle, space and options", and_(eqv(f["omega"].t, O0), eqv(f["space"].t, S0), eq(f["options"].fs["max_iters"], mi), eq(f["options"].fs["tolerance"], tol)), "BSearchAdaptor::new")

# ------------------------------------------------------------------------------------------- composition (P06)
@unit("drive:keep", dims=(1,))
def drive_keep(c):
    """A point in every cut and in the initial space is never lost: composition of the driver contract with
    the contracts of the updates (P01: success keeps the point; P02: a cut with an allowed point is not
    answered 'no solution'; deep and central cuts never answer 'no effect')."""
    fn = "cutting_plane::cutting_plane_feas"
    c.dim = None
    O0, S0 = var("O0", "Or"), var("S0", "Sp")
    sq, x, some, args, step, ok, small, go = feas_spec(c, mi, O0, S0)
    inn = lambda s: A("holds_point", "B", s)
    k = fresh("k", "I")
    S = lambda k: sq.at("specS", k)
    contract = lambda k: [implies(and_(inn(S(k)), some(k), ok(k)), inn(step(k)["specS"])), implies(and_(inn(S(k)), some(k)), ok(k))]
    c.goal("point kept: start", [eqv(S(ic(0)), S0), inn(S0)], inn(S(ic(0))), fn=fn)
    c.goal("point kept: iteration", [le(ic(0), k), inn(S(k)), go(k), eqv(S(add(k, ic(1))), step(k)["specS"])] + contract(k), inn(S(add(k, ic(1)))), fn=fn)
    r = var("r", "I")
    c.goal("a search that stops early without a solution met the tolerance", [le(ic(0), r), lt(r, mi), inn(S(r)), some(r), not_(go(r))] + contract(r), small(r), fn=fn)
