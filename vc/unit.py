"""Proof units: a unit runs functions of /repo symbolically from an abstract pre-state and
states obligations about the outcomes.  The same unit runs with symbolic dimensions (all n)
and with concrete dimensions (bounded stand-in, used when the symbolic run fails)."""
import time, sys, re
from exec import *
import loops, smt
from loops import def_axioms, simp

UNITS = {}
TRACE = False
KNOWN = set()            # names of the recorded defects of the property being checked
def unit(name, dims=(1, 2, 3), bounded=False):
    """bounded: only checked at the listed dimensions, never counted as proved"""
    def d(f):
        f.uname, f.dims, f.bounded = name, dims, bounded
        UNITS[name] = f
        return f
    return d

def fv_(t): return set(t.fv)

class Ctx:
    def __init__(self, crate, dim=None, deadline=None):
        self.crate, self.dim = crate, dim
        self.deadline = deadline
        self.goals = []          # (name, hyps, goal, inst, extra, fn, line)
        self.exs = []
        self.fns = set()
        self.loops = []
        self.assumed = []
        self.known = set()
    # ---------------------------------------------------------------- abstract data
    def N(self, name="n", lo=1, at=None):
        """a dimension: symbolic, or the concrete one of a bounded run"""
        if self.dim is None:
            v = var(name, "I")
            self.pre.append(le(ic(lo), v))
            return v
        return ic(max(lo, self.dim if at is None else at(self.dim)))
    pre = None
    def begin(self):
        self.pre = []
    def I(self, s): return var(s, "I")
    def R(self, s): return var(s, "R")
    def B(self, s): return var(s, "B")
    def arr(self, data, rows, cols): return Struct("Arr", {"data": data, "rows": rows, "cols": cols})
    def seq(self, name, n, sort="R"):
        if is_c(n): return CVec([app(name, (ic(i),), sort) for i in range(n.val)])
        b = fresh("ix", "I")
        return SVec(n, (b,), app(name, (b,), sort))
    def vec(self, name, n):
        return self.arr(self.seq(name, n), n, ic(0))
    def mat(self, name, r, c):
        return self.arr(self.flat(name, r, c), r, c)
    def flat(self, name, r, c):
        if is_c(r) and is_c(c):
            return CVec([app(name, (ic(i), ic(j)), "R") for i in range(r.val) for j in range(c.val)])
        b = (fresh("ix", "I"), fresh("ix", "I"))
        return SVec(mul(r, c), b, app(name, b, "R"), c)
    # ---------------------------------------------------------------- running
    def run(self, qual, mk, trait=None, pre=(), contracts=None, abs=None, hints=None, opts=None, label=None):
        """mk(ex) -> (args, self).  Returns the list of outcomes (with .ret, .post(ref), .pc)."""
        f = self.crate.find(qual, trait) if isinstance(qual, str) else qual
        o = {"abs": abs or {}}
        o.update(opts or {})
        ex = Ex(self.crate, contracts=contracts, hints=hints, opts=o)
        ex.deadline = self.deadline
        ex.pc = [h for x in list(self.pre) + list(pre) for h in smt.conj(x)]
        if not smt.satisfiable(ex.pc, 3000):
            raise Unsupported("precondition of %s is unsatisfiable" % (label or qual))
        def th():
            a, s = mk(ex)
            return (ex.call_fn(f, a, selfv=s), s, a)
        outs = ex.explore(th)
        if not outs:
            raise Unsupported("no outcome of %s" % qual)
        self.exs.append(ex)
        self.fns |= ex.inlined
        self.loops += ex.loops
        ax = [def_axioms(ex.defs, 2)] if ex.defs else []
        seen = set()
        for ob in ex.obs:
            key = (ob.goal, tuple(ob.hyps))
            if key in seen: continue
            seen.add(key)
            self.goals.append((label or (qual if isinstance(qual, str) else f.qual), "%s: %s" % (ob.fn, ob.name), ob.hyps, ob.goal, ob.tags.get("inst", []), ax, ob.line))
        r = []
        for o in outs:
            ret, s, a = o["val"]
            r.append(Out(ex, o, ret, s, a, ax))
        return r
    def goal(self, name, hyps, goal, inst=(), extra=(), fn="", line=0):
        if goal is TRUE: 
            self.goals.append((fn, name, [], TRUE, [], [], line)); return
        self.goals.append((fn, name, list(hyps), goal, list(inst), list(extra), line))
    def post(self, o, name, goal, fn="", inst=(), hyps=()):
        self.goal(name, list(o.pc) + list(hyps), goal, list(o.ex.inst) + list(inst), o.ax, fn)

    def identify(self, outs, specs):
        """specs: {name: (arity, rhs)} with rhs(*args) the right-hand side of the defining equation.
        A recursive definition D produced by a loop is replaced by the specification function S
        when S satisfies D's defining equation (the solution is unique: a loop computes it).
        A third component restricts the equation to a domain (outside it D is left alone), a fourth
        lists further equations that define S (its base cases)."""
        for o in outs:
            fm, used = {}, set()
            for d, df in o.ex.defs.items():
                for nm, sp in specs.items():
                    ar, rhs = sp[:2]
                    sdom = sp[2] if len(sp) > 2 else None
                    if nm in used or len(df["params"]) != ar or df["sort"] != "R": continue
                    m2 = dict(fm)
                    if sdom is None: m2[d] = (lambda nm: lambda *a: app(nm, a, "R"))(nm)
                    else: m2[d] = (lambda nm, d, sdom: lambda *a: ite(sdom(*a), app(nm, a, "R"), app(d, a, "R")))(nm, d, sdom)
                    ps = [fresh("p", "I") for _ in df["params"]]
                    sb = dict(zip(df["params"], ps))
                    body = subst_app(subst(df["body"], sb), m2)
                    dom = subst_app(subst(df["dom"], sb), m2)
                    hy = self.pre + smt.conj(dom) + (smt.conj(sdom(*ps)) if sdom else []) + (sp[3] if len(sp) > 3 else [])
                    if sdom: body = simp(o.ex, body, hy, 1000)
                    v, _ = smt.check(hy, eq(rhs(*ps), body), timeout=3000, inst=ps)
                    if TRACE: print("      identify", d, nm, v)
                    if v == "proved":
                        fm[d] = m2[d]
                        used.add(nm)
                        self.goal("recursion %s is the specified %s" % (d.split("_")[0], nm), hy, eq(rhs(*ps), body), ps)
                        break
            o.fm = fm
        fms = {}
        for o in outs: fms.update(o.fm)
        def sg(t): return subst_app(t, fms) if fms else t
        self.goals = [(f, nm, [sg(h) for h in hy], sg(g), i, x, l) for f, nm, hy, g, i, x, l in self.goals]
        for o in outs:
            o.pc = [sg(h) for h in o.pc]
            o.map = sg
            o.ret = vmap(o.ret, sg) if o.ret is not None else None
    def identify_joint(self, outs, specs, cont=None):
        """specs: {name: (arity, sort, rhs)}: mutually recursive specification functions.  The sequences a loop
        defines are replaced jointly by specification functions of the same sort and arity when these satisfy
        all their defining equations.  cont(k): iteration k continues (may be assumed of earlier iterations)."""
        import itertools
        exs = []
        for o in outs:
            if o.ex not in exs: exs.append(o.ex)
        fms = {}
        for ex in exs:
            defs = list(ex.defs.items())
            if not defs: continue
            cands = []
            for d, df in defs:
                cs = [nm for nm, (ar, so, rhs) in specs.items() if ar == len(df["params"]) and so == df["sort"]]
                cands.append(cs or [None])
            best = None
            for pick in itertools.islice(itertools.product(*cands), 64):
                fm = {d: (lambda nm, so: lambda *a: app(nm, a, so))(nm, df["sort"]) for (d, df), nm in zip(defs, pick) if nm is not None}
                obl, good = [], True
                for (d, df), nm in zip(defs, pick):
                    if nm is None: continue
                    ps = [fresh("p", "I") for _ in df["params"]]
                    sb = dict(zip(df["params"], ps))
                    body, dom = subst_app(subst(df["body"], sb), fm), subst_app(subst(df["dom"], sb), fm)
                    hy = self.pre + [h for h in smt.conj(dom)]
                    if cont is not None: hy = hy + [implies(lt(ic(0), ps[0]), cont(add(ps[0], ic(-1))))]
                    g = (and_(implies(specs[nm][2](*ps), body), implies(body, specs[nm][2](*ps))) if df["sort"] == "B" else eq(specs[nm][2](*ps), body))
                    v, _ = smt.check(hy, g, timeout=3000, inst=ps)
                    if v != "proved": good = False; break
                    obl.append(("recursion of the loop is the specified %s" % nm, hy, g, ps))
                if good: best = (fm, obl); break
            if best is None: continue
            fms.update(best[0])
            for nm, hy, g, ps in best[1]: self.goal(nm, hy, g, ps)
        def sg(t): return subst_app(t, fms) if fms else t
        self.goals = [(f, nm, [sg(h) for h in hy], sg(g), i, x, l) for f, nm, hy, g, i, x, l in self.goals]
        for o in outs:
            o.pc = [sg(h) for h in o.pc]
            o.map = sg
            o.ret = vmap(o.ret, sg) if o.ret is not None else None
    def seq_lemma(self, outs, name, roles, stmt, hyps=None, timeout=4000, extra=None, upto=None, rw=None):
        """Induction over the iterations of a loop.  roles: [(arity, sort)] of sequences the loop defines (first
        argument: iteration number); stmt(fs, k): the claim about iteration k.  Every assignment of the loop's
        sequences to the roles for which the claim holds at 0 and is kept by an iteration becomes a lemma
        (its two obligations are recorded).  Returns [(functions, k -> claim)]."""
        import itertools
        found = []
        exs = []
        for o in outs:
            if o.ex not in exs: exs.append(o.ex)
        hyps = hyps or (lambda ts: [])
        for ex in exs:
            cands = [[d for d, df in ex.defs.items() if len(df["params"]) == ar and df["sort"] == so] for ar, so in roles]
            for pick in itertools.islice(itertools.product(*cands), 40):
                if len(set(pick)) < len(pick): continue
                fs = [(lambda d, so: lambda *a: app(d, a, so))(d, ex.defs[d]["sort"]) for d in pick]
                def unf(d):
                    df = ex.defs[d]
                    return lambda *a: (rw or (lambda t, k: t))(subst(df["body"], dict(zip(df["params"], a))), add(a[0], ic(-1)))
                def doms(k):
                    return [h for d in pick for h in smt.conj(subst(ex.defs[d]["dom"], {ex.defs[d]["params"][0]: k})) if not (fv_(h) & set(ex.defs[d]["params"]))]
                uf = [unf(d) for d in pick]
                g0 = stmt(uf, ic(0))
                h0 = list(self.pre) + doms(ic(0))
                h0 += hyps(h0 + [g0])
                v = self.prove(h0, g0, [ic(0)], extra or [], timeout)
                if TRACE: print("      lemma", name, pick, v)
                if v != "proved": continue
                k = fresh("k", "I")
                k1 = add(k, ic(1))
                g1 = smt.set_cond(stmt(uf, k1), le(k1, ic(0)), False, {})
                h1 = list(self.pre) + [le(ic(0), k)] + smt.conj(stmt(fs, k)) + doms(k1) + ([lt(k, upto)] if upto is not None else [])
                h1 += hyps(h1 + [g1])
                gd = smt.gen_divs(h1 + [g1])       # quotients generalised to arbitrary numbers
                if gd is not None and self.prove(gd[:-1], gd[-1], [k, k1], extra or [], timeout) == "proved": h1, g1 = gd[:-1], gd[-1]
                v = self.prove(h1, g1, [k, k1], extra or [], timeout)
                if TRACE: print("      lemma", name, pick, v)
                if v != "proved": continue
                for hy, g, i in self.split(h0, g0): self.goal("invariant (%s) holds before the loop" % name, hy, g, [ic(0)] + i, extra or [])
                for hy, g, i in self.split(h1, g1): self.goal("invariant (%s) is kept by an iteration" % name, hy, g, [k, k1] + i, extra or [])
                found.append((fs, (lambda fs: lambda k: stmt(fs, k))(fs)))
        return found
    def split(self, hyps, goal, inst=()):
        """conjuncts of a goal, with its universal quantifiers and implications moved into the hypotheses"""
        if goal.op == "and": return [x for g in goal.args for x in self.split(hyps, g, inst)]
        if goal.op == "all":
            j = fresh("j", "I")
            lo, hi, body = goal.args
            return self.split(hyps + [le(lo, j), lt(j, hi)], subst(body, {goal.val: j}), list(inst) + [j])
        if goal.op == "or":
            big = [x for x in goal.args if x.op in ("all", "and")]
            if big: return self.split(hyps + [not_(x) for x in goal.args if x is not big[0]], big[0], inst)
        return [(hyps, goal, list(inst))]
    def prove(self, hyps, goal, inst, extra, timeout):
        for hy, g, i in self.split(hyps, goal):
            v, _ = smt.check(hy, g, timeout=timeout, inst=list(inst) + i, extra=extra)
            if v != "proved":
                if TRACE: print("        not proved:", v, show(g)[:300])
                return v
        return "proved"
    def same_sum(self, S1, S2, hyps, inst=(), timeout=4000, name="sums agree term by term", fn=""):
        """S1 = S2 because they have the same range and equal terms; records the obligation, returns the fact"""
        if S1.op != "sum" or S2.op != "sum" or S1.args[0] is not S2.args[0] or S1.args[1] is not S2.args[1]: return None
        i = fresh("i", "I")
        g = eq(subst(S1.args[2], {S1.val: i}), subst(S2.args[2], {S2.val: i}))
        hy = list(hyps) + [le(S1.args[0], i), lt(i, S1.args[1])]
        ts = hy + [g]
        ts = smt.gen_divs(ts) or ts
        v, _ = smt.check(ts[:-1], ts[-1], timeout=timeout, inst=list(inst) + [i])
        if TRACE: print("        same_sum", v)
        if v != "proved": return None
        self.goal(name, ts[:-1], ts[-1], list(inst) + [i], fn=fn)
        return eq(S1, S2)
    def same_nest(self, S1, S2, hyps, timeout=4000, name="sums agree term by term", fn=""):
        """nested sums over the same ranges with equal terms; records the obligation, returns the fact"""
        a, b, hy, ins = S1, S2, list(hyps), []
        while a.op == "sum" and b.op == "sum" and sub(a.args[1], a.args[0]) is sub(b.args[1], b.args[0]):
            i = fresh("i", "I")
            hy += [le(a.args[0], i), lt(i, a.args[1])]
            ins.append(i)
            a, b = subst(a.args[2], {a.val: i}), subst(b.args[2], {b.val: add(b.args[0], sub(i, a.args[0]))})
        if not ins or a.op == "sum" or b.op == "sum": return None
        v, _ = smt.check(hy, eq(a, b), timeout=timeout, inst=ins)
        if TRACE: print("        same_nest", v)
        if v != "proved": return None
        self.goal(name, hy, eq(a, b), ins, fn=fn)
        return eq(S1, S2)
    def use(self, facts):
        """proved facts (lemmas) become hypotheses of the obligations recorded so far"""
        self.goals = [(f, nm, hy + list(facts), g, i, x, l) if g is not TRUE and not nm.startswith("invariant") else (f, nm, hy, g, i, x, l) for f, nm, hy, g, i, x, l in self.goals]
class Out:
    map = None
    def __init__(self, ex, o, ret, s, args, ax):
        self.ex, self.o, self.ret, self.s, self.args, self.pc, self.ax = ex, o, ret, s, args, o["pc"], ax
    def val(self, v):
        """value behind a reference in the post-state"""
        ex = self.ex
        save = ex.cells
        ex.cells = self.o["cells"]
        try:
            r = ex.deref(v)
            if self.map is not None and r is not None and not isinstance(r, (Closure, It, FnRef)): r = vmap(r, self.map)
            return r
        finally:
            ex.cells = save
    def cell(self, c):
        return self.o["cells"][c]
    @property
    def self_(self): return self.val(self.s)
    def at(self, v, *ix):
        """element of a vector / matrix value (Arr, SVec, CVec)"""
        v = self.val(v)
        if isinstance(v, Struct) and v.name == "Arr":
            cols, v = v.fs["cols"], v.fs["data"]
            v = self.val(v)
        else:
            cols = None
        ix = [ic(i) if isinstance(i, int) else i for i in ix]
        if isinstance(v, CVec):
            if len(ix) == 2:
                if not (is_c(ix[0]) and is_c(ix[1]) and is_c(cols)): raise Unsupported("symbolic index in concrete matrix")
                return v.xs[ix[0].val * cols.val + ix[1].val]
            if is_c(ix[0]):
                if not 0 <= ix[0].val < len(v.xs): raise Unsupported("result has length %d" % len(v.xs))
                return v.xs[ix[0].val]
            r = v.xs[-1]
            for i in range(len(v.xs) - 2, -1, -1):
                r = vite(eq(ix[0], ic(i)), v.xs[i], r)
            return r
        if isinstance(v, SVec):
            if v.stride is None:
                if len(ix) != 1: raise Unsupported("matrix expected")
                return vsubst(v.elem, {v.bvs[0]: ix[0]})
            if len(ix) != 2: raise Unsupported("vector expected")
            return vsubst(v.elem, dict(zip(v.bvs, ix)))
        raise Unsupported("element of %s" % type(v).__name__)
    def len(self, v):
        v = self.val(v)
        if isinstance(v, Struct) and v.name == "Arr": v = self.val(v.fs["data"])
        return v.n

def SUM(lo, hi, f, tag="s"):
    lo, hi = (ic(lo) if isinstance(lo, int) else lo), (ic(hi) if isinstance(hi, int) else hi)
    if is_c(lo) and is_c(hi): return add(rc(0), *[f(ic(i)) for i in range(lo.val, hi.val)])
    b = fresh("sb", "I")
    return sum_(b, lo, hi, f(b))
def ALL(lo, hi, f):
    lo, hi = (ic(lo) if isinstance(lo, int) else lo), (ic(hi) if isinstance(hi, int) else hi)
    if is_c(lo) and is_c(hi): return and_(TRUE, *[f(ic(i)) for i in range(lo.val, hi.val)])
    b = fresh("ab", "I")
    return forall(b, lo, hi, f(b))
def onlyat(t, f):
    """s such that t is zero unless f = s, or None"""
    zero = lambda x: is_c(x) and x.val == 0
    if t.op == "mul":
        for a in t.args:
            r = onlyat(a, f)
            if r is not None: return r
    elif t.op == "add":
        rs = {onlyat(a, f) for a in t.args}
        if len(rs) == 1: return rs.pop()
    elif t.op == "sum":
        r = onlyat(t.args[2], f)
        if r is not None and t.val not in r.fv: return r
    elif t.op == "ite":
        cs, a, b = t.args
        if zero(b):
            for q in smt.conj(cs):
                if q.op == "eq" and f in q.fv:
                    r = smt.solve_for(q, f)
                    if r is not None: return r
            return onlyat(a, f)
        if zero(a): return onlyat(b, f)
        r = onlyat(a, f)
        return r if r is not None and r is onlyat(b, f) else None
    return None

def collapse(t):
    """sums whose term is zero except at one index: sum_b [b = t] u(b) = u(t)"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if not t.args: r = t
        elif t.op in ("sum", "all"):
            f = fresh("b", "I")
            lo, hi, body = go(t.args[0]), go(t.args[1]), go(subst(t.args[2], {t.val: f}))
            r = None
            if t.op == "sum":
                at = onlyat(body, f)
                if at is not None and f not in at.fv:
                    r = ite(and_(le(lo, at), lt(at, hi)), subst(body, {f: at}), rc(0))
            if r is None: r = rebuild(t.op, (lo, hi, body), t.sort, f)
        else:
            na = tuple(go(a) for a in t.args)
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na, t.sort, t.val)
        memo[t] = r
        return r
    return go(t)
def F(name):
    """uninterpreted real function used as the content of vectors/matrices"""
    return lambda *a: app(name, tuple(ic(x) if isinstance(x, int) else x for x in a), "R")
def tot(x): return toreal(x)

class Result:
    pass

def model_inputs(info):
    m, e = info.get("model"), info.get("enc")
    if m is None: return {}
    out = {}
    try:
        for d in m.decls():
            nm = d.name()
            v = m[d]
            if d.arity() == 0:
                out[nm] = str(v)
            else:
                out[nm] = str(v)[:300]
    except Exception:
        pass
    return out

def run_unit(crate, u, dim=None, budget=120, goal_timeout=8000, filt=None):
    """returns dict(name, dim, status, goals: [...], ...)"""
    t0 = time.time()
    ctx = Ctx(crate, dim, t0 + budget)
    ctx.begin()
    res = {"unit": u.uname, "dim": dim, "goals": 0, "proved": 0, "failed": [], "error": None, "by": {}, "fns": [], "loops": 0}
    try:
        u(ctx)
    except Unsupported as e:
        res["error"] = "unsupported: " + str(e)[:400]
    except (Stop, Mismatch, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res["error"] = "cannot be expressed: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], tb.filename.split("/")[-1], tb.lineno)
    res["fns"] = sorted(ctx.fns)
    res["loops"] = len(ctx.loops)
    res["assumed"] = ctx.assumed
    res["known"] = sorted(ctx.known)
    seen = {}
    rx = re.compile(filt, re.I) if filt else None
    for (fn, name, hyps, goal, inst, extra, line) in ctx.goals:
        if rx is not None and not rx.search(name): continue
        key = (goal, tuple(hyps)) if goal is not TRUE else (goal, fn, name)
        if key in seen: continue
        res["goals"] += 1
        tg = time.time()
        if time.time() > t0 + budget:
            seen[key] = ("unknown", {"by": "time"})
        else:
            try:
                if goal is TRUE: seen[key] = ("proved", {"by": "simplification"})
                else:
                    seen[key] = ("unknown", {})
                    if extra:       # often the defining equations of the loops are not needed
                        seen[key] = smt.check(hyps, goal, timeout=min(1500, goal_timeout), inst=inst)
                    if seen[key][0] != "proved":
                        seen[key] = smt.check(hyps, goal, timeout=goal_timeout, inst=inst, extra=extra)
            except PolyBlow:
                seen[key] = ("unknown", {"by": "blow-up"})
        v, info = seen[key]
        if TRACE: print("      %.2fs %s %s" % (time.time() - tg, v, name), flush=True)
        if v == "proved":
            res["proved"] += 1
            b = info.get("by", "?")
            res["by"][b] = res["by"].get(b, 0) + 1
        else:
            res["failed"].append({"fn": fn, "obligation": name, "line": line, "verdict": v, "exact": bool(info.get("exact")) and not ctx_abstracted(ctx),
                                  "goal": show(goal)[:600], "model": model_inputs(info) if v == "refuted" else {}})
    res["wall"] = time.time() - t0
    res["solver"] = dict(smt.STATS)
    return res

def ctx_abstracted(ctx):
    return any(ex.abstracted or ex.defs for ex in ctx.exs)
