"""Contracts of the low-pass filter oracle: acceptance, cuts, rotation state, optimisation level, construction."""
from unit import *
def ref(ex, v): return Ref(Place(ex.new_cell(v)))
A, X, Z = F("A"), F("x"), F("z")
INF = var("INF")

class LP:
    """the oracle in an arbitrary state that earlier queries can leave"""
    def __init__(self, c):
        self.c = c
        self.n = c.N("n", 1)
        if c.dim is None:
            self.nwp, self.nws, self.md = c.I("nwp"), c.I("nws"), c.I("md")
            c.pre += [le(ic(1), self.nwp), le(self.nwp, self.nws), lt(self.nws, self.md)]
        else:
            d = c.dim
            self.nwp, self.nws, self.md = ic(d), ic(d + 1), ic(d + 3)
        self.i1, self.i2, self.i3, self.km = c.I("i1"), c.I("i2"), c.I("i3"), c.I("km")
        self.lp, self.up, self.sp, self.fm = c.R("lp"), c.R("upq"), c.R("sp"), c.R("fm")
        self.inv = self.state_ok(self.i1, self.i2, self.i3)
        c.pre += self.inv
    def state_ok(self, i1, i2, i3):
        return [le(ic(-1), i1), lt(i1, self.nwp), le(add(self.nwp, ic(-1)), i2), lt(i2, self.nws), le(add(self.nws, ic(-1)), i3), lt(i3, self.md)]
    def spectrum(self):
        n, md = self.n, self.md
        if self.c.dim is not None:
            return CVec([Struct("Arr", {"data": CVec([A(k, i) for i in range(n.val)]), "rows": n, "cols": ic(0)}) for k in range(md.val)])
        b, b2 = fresh("mk", "I"), fresh("ix", "I")
        return SVec(md, (b,), Struct("Arr", {"data": SVec(n, (b2,), A(b, b2)), "rows": n, "cols": ic(0)}))
    def make(self, ex):
        return ref(ex, Struct("LowpassOracle", {"more_alt": var("ma", "B"), "idx1": self.i1, "spectrum": self.spectrum(), "nwpass": self.nwp, "nwstop": self.nws,
                   "lp_sq": self.lp, "up_sq": self.up, "sp_sq": self.sp, "idx2": self.i2, "idx3": self.i3, "fmax": self.fm, "kmax": self.km}))
    # V(j), W(j): spectrum sample j of the queried point x and of another design z
    def V(self, j): return app("V", (j,), "R") if self.c.dim is None else SUM(0, self.n, lambda i: mul(X(i), A(j, i)))
    def W(self, j): return app("W", (j,), "R") if self.c.dim is None else SUM(0, self.n, lambda i: mul(Z(i), A(j, i)))
    def ab(self, t):
        """spectrum samples written as V and W"""
        if self.c.dim is not None: return t
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if t.op in ("sum", "all"):
                lo, hi, body = t.args
                r = None
                if t.op == "sum" and lo is ic(0) and hi is self.n and body.op == "mul" and len(body.args) == 2:
                    for p, q in (body.args, body.args[::-1]):
                        if p.op == "app" and p.val in ("x", "z") and p.args[0] is t.val and q.op == "app" and q.val == "A" and q.args[1] is t.val and t.val not in q.args[0].fv:
                            r = (self.V if p.val == "x" else self.W)(go(q.args[0]))
                if r is None:
                    f = fresh("b", "I")
                    r = rebuild(t.op, (go(lo), go(hi), go(subst(body, {t.val: f}))), t.sort, f)
            elif not t.args: r = t
            else:
                na = tuple(go(a) for a in t.args)
                r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na, t.sort, t.val)
            memo[t] = r
            return r
        return go(t)
    def rewrite(self, outs):
        c, ab = self.c, self.ab
        exs = []
        for o in outs:
            if o.ex not in exs: exs.append(o.ex)
        for ex in exs:
            for d, df in list(ex.defs.items()): ex.defs[d] = dict(df, body=ab(df["body"]), dom=ab(df["dom"]))
        c.goals = [(f, nm, [ab(h) for h in hy], ab(g), i, [def_axioms(exs[0].defs, 2)] if x and exs else x, l) for f, nm, hy, g, i, x, l in c.goals]
        for o in outs:
            o.pc = [ab(h) for h in o.pc]
            o.ax = [def_axioms(o.ex.defs, 2)] if o.ex.defs else []
            o.map = ab
            o.ret = vmap(o.ret, ab)
    def bands(self): return ((ic(0), self.nwp, self.i1), (self.nws, self.md, self.i3), (self.nwp, self.nws, self.i2))
    def used(self, band, k):
        """sample looked at in iteration k of a scan of the band"""
        lo, hi, st = band
        s = ite(lt(add(st, ic(1)), hi), add(st, ic(1)), lo)
        t = add(s, k)
        return ite(lt(t, hi), t, sub(t, sub(hi, lo)))
    def when(self, band, j):
        """iteration that looks at sample j"""
        lo, hi, st = band
        s = ite(lt(add(st, ic(1)), hi), add(st, ic(1)), lo)
        return ite(le(s, j), sub(j, s), add(sub(j, s), sub(hi, lo)))
    def lemmas(self, outs):
        """rotation and running maximum, by induction over the scans"""
        c = self.c
        if c.dim is not None: return []
        lem = []
        for b in self.bands():
            lo, hi, st = b
            rot = lambda fs, k: and_(implies(le(k, ic(0)), eq(fs[0](k), st)), implies(le(ic(1), k), eq(fs[0](k), self.used(b, add(k, ic(-1))))))
            fl = c.seq_lemma(outs, "rotation through the band", [(1, "I")], rot, upto=sub(hi, lo))
            for fs, s in fl: lem.append(ALL(0, add(sub(hi, lo), ic(1)), s))
            if lo is self.nws:
                fin = ALL(self.nws, self.md, lambda j: lt(neg(INF), self.V(j)))
                def peak(fs, k):
                    u, w, q = fs
                    return and_(rot([q], k), implies(le(k, ic(0)), eq(u(k), neg(INF))),
                                implies(le(ic(1), k), and_(le(lo, w(k)), lt(w(k), hi), eq(u(k), self.V(w(k))))),
                                ALL(0, k, lambda j: le(self.V(self.used(b, j)), u(k))))
                pl = c.seq_lemma(outs, "running maximum of the stop band", [(1, "R"), (1, "I"), (1, "I")], peak, upto=sub(hi, lo), hyps=lambda ts: [fin])
                lem += [s(sub(hi, lo)) for fs, s in pl]
        c.use(lem)
        return lem
    def spec(self, V, x0, sp):
        return [ALL(0, self.nwp, lambda j: and_(le(self.lp, V(j)), le(V(j), self.up))), ALL(self.nws, self.md, lambda j: and_(le(rc(0), V(j)), le(V(j), sp))),
                ALL(self.nwp, self.nws, lambda j: le(rc(0), V(j))), le(rc(0), x0)]
    def fin(self): return [ALL(self.nws, self.md, lambda j: lt(neg(INF), self.V(j))), lt(rc(0), INF)]

def idx_of(self, o):
    """sample numbers that occur in the outcome"""
    out = []
    def seen(t):
        for x in subterms(t):
            if x.op == "app" and x.val == "V" and not any(str(v.val).startswith("#") for v in x.args[0].fv) and x.args[0] not in out: out.append(x.args[0])
        return t
    vmap(o.ret, seen)
    return out
def violated(L, V, sp, ix):
    """one of the samples ix (or the leading coefficient) breaks the specification"""
    ins = lambda j, lo, hi: and_(le(lo, j), lt(j, hi))
    if not ix: return lt(X(ic(0)), rc(0))
    return or_(FALSE if L.c.dim is None else lt(X(ic(0)), rc(0)), *[or_(and_(ins(j, ic(0), L.nwp), or_(lt(V(j), L.lp), lt(L.up, V(j)))), and_(ins(j, L.nws, L.md), or_(lt(V(j), rc(0)), lt(sp, V(j)))), and_(ins(j, L.nwp, L.nws), lt(V(j), rc(0)))) for j in ix])
def all_ix(L, o): return idx_of(L, o) if L.c.dim is None else [ic(j) for j in range(L.md.val)]
def cut_goals(L, o, lem, fn, cut, V, sp, P):
    """a cut returned for the queried point: touches it and keeps every design that meets the specification"""
    c, n = L.c, L.n
    g, be = o.val(cut.xs[0]), o.val(cut.xs[1])
    b0, b1 = be.fs["0"], be.fs["1"]
    P("the queried point violates or touches the cut", le(rc(0), b0))
    P("gradient has one entry per coefficient", eq(o.len(g), n))
    gz = SUM(0, n, lambda i: mul(o.at(g, i), sub(Z(i), X(i)))) if c.dim is None else add(rc(0), *[mul(o.at(g, i), sub(Z(i), X(i))) for i in range(n.val)])
    if c.dim is None:
        # collapse single-entry gradients, expand the rest into spectrum samples
        gz = L.ab(collapse(smt.nsum(gz)))
    ix = idx_of(L, o)
    hz = L.spec(L.W, Z(ic(0)), sp)
    P("every design that meets the specification satisfies the cut", le(add(gz, b0), rc(0)), hz, ix)
    if b1.some is not FALSE:
        h = [] if b1.some is TRUE else [b1.some]
        P("every design that meets the specification satisfies the second half of the cut", le(rc(0), add(gz, b1.val)), hz + h, ix)
        P("offsets are ordered", le(b0, b1.val), h + [le(L.lp, L.up), le(rc(0), sp)], ix)
def common(L, o, P, sp):
    s = o.self_
    P("rotation state stays in range", and_(*L.state_ok(s.fs["idx1"], s.fs["idx2"], s.fs["idx3"])))
    P("specification is not modified", and_(eq(s.fs["nwpass"], L.nwp), eq(s.fs["nwstop"], L.nws), eq(s.fs["lp_sq"], L.lp), eq(s.fs["up_sq"], L.up), eq(s.fs["sp_sq"], sp), eq(s.fs["spectrum"].n, L.md)))
    if L.c.dim is None:
        k, i = fresh("k", "I"), fresh("i", "I")
        P("spectrum is not modified", eq(o.at(o.at(s.fs["spectrum"], k), i), A(k, i)), [le(ic(0), k), lt(k, L.md), le(ic(0), i), lt(i, L.n)], [k, i])
def accept_goals(L, o, lem, V, sp, P):
    for nm, (lo, hi, st), f in (("pass-band sample within its limits", L.bands()[0], lambda j: and_(le(L.lp, V(j)), le(V(j), L.up))), ("stop-band sample between zero and the stop limit", L.bands()[1], lambda j: and_(le(rc(0), V(j)), le(V(j), sp))),
                                ("transition sample non-negative", L.bands()[2], lambda j: le(rc(0), V(j)))):
        if L.c.dim is None:
            j = fresh("j", "I")
            P("accepted only with every " + nm, f(j), [le(lo, j), lt(j, hi)], [j, L.when((lo, hi, st), j)])
        else:
            for j in range(lo.val, hi.val): P("accepted only with every " + nm, f(ic(j)))
    P("accepted only with non-negative leading coefficient", le(rc(0), X(ic(0))))

@unit("lowpass:feas", dims=(1, 2))
def lp_feas(c):
    L = LP(c)
    fn = "LowpassOracle::assess_feas"
    outs = c.run(fn, lambda ex: ([c.vec("x", L.n)], L.make(ex)), label=fn)
    L.rewrite(outs)
    lem = L.lemmas(outs)
    acc = 0
    for o in outs:
        P = lambda nm, g, hy=(), inst=(): c.post(o, nm, g, fn, list(inst), list(hy) + lem + L.fin())
        common(L, o, P, L.sp)
        r = o.ret
        if r.some is FALSE:
            acc += 1
            accept_goals(L, o, lem, L.V, L.sp, P)
        elif r.some is TRUE:
            P("a design that meets the specification is accepted", violated(L, L.V, L.sp, all_ix(L, o)), (), idx_of(L, o))
            cut_goals(L, o, lem, fn, r.val, L.V, L.sp, P)
        else: raise Unsupported("acceptance not decided by the path")
    c.goal("some point is accepted", [], TRUE if acc else FALSE, fn=fn)

@unit("lowpass:optim", dims=(1, 2))
def lp_optim(c):
    L = LP(c)
    fn = "LowpassOracle::assess_optim"
    lev = c.R("lev")
    cell = {}
    def mk(ex):
        cell["s"] = ref(ex, lev)
        return [c.vec("x", L.n), cell["s"]], L.make(ex)
    outs = c.run(fn, mk, label=fn, pre=L.fin())
    L.rewrite(outs)
    lem = L.lemmas(outs)
    for o in outs:
        P = lambda nm, g, hy=(), inst=(): c.post(o, nm, g, fn, list(inst), list(hy) + lem + L.fin())
        common(L, o, P, lev)
        cut, shr = o.ret.xs
        new = o.val(cell["s"])
        if shr is TRUE:
            accept_goals(L, o, lem, L.V, lev, P)
            if c.dim is None:
                j = fresh("j", "I")
                P("new level is at least every stop-band sample", le(L.V(j), new), [le(L.nws, j), lt(j, L.md)], [j, L.when(L.bands()[1], j)])
            else:
                for j in range(L.nws.val, L.md.val): P("new level is at least every stop-band sample", le(L.V(ic(j)), new))
            k = o.self_.fs["kmax"]
            kw = [k, L.when(L.bands()[1], k)] if c.dim is None else []
            P("new level never exceeds the previous one", le(new, lev), (), kw)
            P("new level is not negative", le(rc(0), new), (), kw)
            if c.dim is None: P("new level is a stop-band sample", and_(le(L.nws, k), lt(k, L.md), eq(L.V(k), new)))
            else: P("new level is a stop-band sample", or_(*[eq(L.V(ic(j)), new) for j in range(L.nws.val, L.md.val)]))
            be = o.val(cut.xs[1])
            P("central parallel cut with the new level", and_(eq(be.fs["0"], rc(0)), be.fs["1"].some, eq(be.fs["1"].val, new)))
            cut_goals(L, o, lem, fn, cut, L.V, new, P)
        elif shr is FALSE:
            P("level unchanged when the point is refused", eq(new, lev))
            P("a design that meets the specification is accepted", violated(L, L.V, lev, all_ix(L, o)), (), idx_of(L, o))
            cut_goals(L, o, lem, fn, cut, L.V, lev, P)
        else: raise Unsupported("improvement flag not decided by the path")

@unit("lowpass:new", dims=(1, 2))
def lp_new(c):
    n = c.N("n", 1)
    fn = "LowpassOracle::new"
    ps = [c.R(s) for s in ("wpass", "wstop", "lp", "upq", "sp")]
    md = mul(ic(15), n)
    pi = None
    for o in c.run(fn, lambda ex: ([n] + ps, None), label=fn, opts={"div_obs": True}):
        s = o.ret
        P = lambda nm, g, hy=(), inst=(): c.post(o, nm, g, fn, list(inst), list(hy))
        sp = s.fs["spectrum"]
        P("fifteen samples per coefficient", eq(sp.n, md))
        k, i = (fresh("k", "I"), fresh("i", "I"))
        f = lambda k, i: ite(eq(i, ic(0)), rc(1), mul(rc(2), app("cos", (mul(div(var("PI"), toreal(add(md, ic(-1)))), toreal(k), toreal(i)),), "R")))
        if c.dim is None:
            h = [le(ic(0), k), lt(k, md), le(ic(0), i), lt(i, n)]
            P("spectrum of the cosine series on an even grid of [0, pi]", eq(o.at(o.at(sp, k), i), f(k, i)), h, [k, i])
        else:
            for a in range(md.val):
                for b in range(n.val): P("spectrum of the cosine series on an even grid of [0, pi]", eq(o.at(o.at(sp, a), b), f(ic(a), ic(b))))
        for nm, edge in (("nwpass", ps[0]), ("nwstop", ps[1])):
            e = toreal(s.fs[nm])
            t = mul(edge, toreal(add(md, ic(-1))))
            P("%s counts the samples up to the band edge" % nm, and_(le(sub(e, rc(1)), t), lt(t, e)))
        at = lambda i, lo, hi: or_(eq(i, add(lo, ic(-1))), and_(le(lo, i), lt(i, hi)))
        edges = [le(rc(0), ps[0]), le(ps[0], ps[1]), lt(ps[1], rc(1))]
        P("scans start at a sample of their band", and_(at(s.fs["idx1"], ic(0), s.fs["nwpass"]), at(s.fs["idx2"], s.fs["nwpass"], s.fs["nwstop"]), at(s.fs["idx3"], s.fs["nwstop"], md)), edges)
        P("limits are the ones given", and_(eq(s.fs["lp_sq"], ps[2]), eq(s.fs["up_sq"], ps[3]), eq(s.fs["sp_sq"], ps[4])))

@unit("lowpass:case", dims=())
def lp_case(c):
    n = c.N("n", 1)
    fn = "lowpass_oracle::create_lowpass_case"
    got = []
    def new(ex, f, selfv, a):
        got.append([ex.deref(x) for x in a])
        return Struct("LowpassOracle", {"args": Tup(got[-1])})
    for o in c.run(fn, lambda ex: ([n], None), contracts={"LowpassOracle::new": new}, label=fn):
        m, wp, ws, lp, up, sp = o.ret.fs["args"].xs
        ts = [t for v in (lp, up, sp) for t in subterms(v)]
        hy = [lt(rc(3), var("PI")), lt(var("PI"), rc(4))]
        pw = [t for t in ts if t.op == "app" and t.val in ("powf", "pow")]
        lg = [t for t in ts if t.op == "app" and t.val == "log10"]
        for t in pw:       # 10^e is positive, above one for positive and below one for negative e
            hy += [lt(rc(0), t), implies(lt(rc(0), t.args[1]), lt(rc(1), t)), implies(lt(t.args[1], rc(0)), lt(t, rc(1)))]
        for t in lg: hy += [implies(lt(rc(1), t.args[0]), lt(rc(0), t)), implies(and_(lt(rc(0), t.args[0]), lt(t.args[0], rc(1))), lt(t, rc(0)))]
        P = lambda nm, g: c.post(o, nm, g, fn, (), hy)
        P("as many coefficients as asked", eq(m, n))
        P("band edges in order", and_(lt(rc(0), wp), lt(wp, ws), lt(ws, rc(1))))
        P("pass-band limits straddle one", and_(lt(rc(0), lp), lt(lp, rc(1)), lt(rc(1), up)))
        P("stop-band limit is positive and below the pass band's lower limit's ceiling", and_(lt(rc(0), sp), lt(sp, rc(1))))
    c.assumed.append("10^e > 0, 10^e above (below) one for positive (negative) e; log10 positive above one, negative between zero and one; 3 < pi < 4")
