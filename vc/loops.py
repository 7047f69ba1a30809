"""Loop contracts.  A loop over k = 0..N is replaced by the closed form of its state after k
iterations.  The closed form is *inferred* from the body (or offered by a hint) and then
*verified*: it must equal the state on entry for k = 0 and be preserved by one generic
iteration (obligations discharged by smt.check).  Components for which no closed form is found
become recursively defined sequences whose defining equation is the loop body itself."""
from terms import *
from values import *
from rustparse import Unsupported
import smt

DEBUG = False
def dbg(*a):
    if DEBUG:
        print("   [loop]", *a)

# ------------------------------------------------------------------ leaf addressing
def walk(v, f, path="", bvs=()):
    """rebuild v with f(path, bvs, term)"""
    if isinstance(v, T): return f(path, bvs, v)
    if isinstance(v, Tup): return Tup([walk(x, f, "%s.%d" % (path, i), bvs) for i, x in enumerate(v.xs)])
    if isinstance(v, Struct): return Struct(v.name, {k: walk(x, f, "%s.%s" % (path, k), bvs) for k, x in v.fs.items()})
    if isinstance(v, Enum): return Enum(v.name, f(path + "#tag", bvs, v.code))
    if isinstance(v, Opt):
        return Opt(f(path + "#some", bvs, v.some), None if v.val is None else walk(v.val, f, path + "?", bvs))
    if isinstance(v, Res):
        return Res(f(path + "#ok", bvs, v.ok), None if v.v is None else walk(v.v, f, path + "!", bvs), None if v.e is None else walk(v.e, f, path + "!e", bvs))
    if isinstance(v, CVec): return CVec([walk(x, f, "%s[%d]" % (path, i), bvs) for i, x in enumerate(v.xs)])
    if isinstance(v, SVec):
        n = f(path + "#len", bvs, v.n)
        s = None if v.stride is None else f(path + "#stride", bvs, v.stride)
        return SVec(n, v.bvs, walk(v.elem, f, path + "[]", bvs + v.bvs), s)
    if isinstance(v, Abs): return Abs(v.trait, f(path, bvs, v.t))
    return v

def get_leaves(v):
    d = {}
    def f(p, b, t):
        d[p] = (b, t)
        return t
    walk(v, f)
    return d

def joinshape(a, b):
    """give a the (optional) components that b has"""
    if isinstance(a, Opt) and isinstance(b, Opt):
        if a.val is None and b.val is not None:
            def mkd(p, bv, t):
                return app("undef%s_%d" % (t.sort, len(bv)), bv, t.sort) if bv else (TRUE if False else var("undef" + t.sort, t.sort))
            def f(p, bv, t):
                if p.endswith("#len") or p.endswith("#stride"):
                    return t
                return mkd(p, bv, t)
            return Opt(a.some, walk(b.val, f))
        if a.val is not None and b.val is not None:
            return Opt(a.some, joinshape(a.val, b.val))
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        return Tup([joinshape(x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name:
        return Struct(a.name, {k: joinshape(a.fs[k], b.fs[k]) for k in a.fs})
    return a

def kshift(t, k, d):
    return subst(t, {k: add(k, ic(d))})

# ------------------------------------------------------------------ simplification
def simp(ex, t, hyps, tmo=400, budget=None):
    """resolve ite conditions decided by hyps (+ enclosing sum ranges and guards)"""
    base = list(hyps)
    cache = {}
    bud = budget if budget is not None else [160]
    def decide(c, hs):
        if is_c(c): return c
        if bud[0] <= 0:
            return None
        key = (c, tuple(hs[len(base):]))
        if key in cache: return cache[key]
        r = None
        bud[0] -= 1
        full = base + hs[len(base):] if hs[:len(base)] == base else hs
        if smt.check(full, c, timeout=tmo, sumlem=False, quick=True)[0] == "proved": r = TRUE
        elif smt.check(full, not_(c), timeout=tmo, sumlem=False, quick=True)[0] == "proved": r = FALSE
        cache[key] = r
        return r
    def go(t, hs):
        if not has_sub(t, lambda x: x.op == "ite"):
            return t
        if t.op == "ite":
            c = t.args[0]
            r = decide(c, hs)
            if r is TRUE: return go(t.args[1], hs)
            if r is FALSE: return go(t.args[2], hs)
            a, b = go(t.args[1], hs + smt.conj(c)), go(t.args[2], hs + smt.conj(not_(c)))
            for e in smt.conj(c):       # the branches agree where the condition holds
                r = smt.solve_eq(e) if e.op == "eq" and e.args[0].sort == "I" else None
                if r and subst(a, {r[0]: r[1]}) is subst(b, {r[0]: r[1]}): return b
            return ite(c, a, b)
        if t.op in ("sum", "all"):
            b = fresh("sb", "I")
            body = go(subst(t.args[2], {t.val: b}), hs + [le(t.args[0], b), lt(b, t.args[1])])
            return rebuild(t.op, (t.args[0], t.args[1], body), t.sort, b)
        if not t.args:
            return t
        return rebuild(t.op, tuple(go(a, hs) for a in t.args), t.sort, t.val)
    return go(t, list(base))

def contains_app(t, name):
    return has_sub(t, lambda x: x.op == "app" and x.val == name)

def contains_any(t, names):
    return has_sub(t, lambda x: x.op == "app" and x.val in names)

# ------------------------------------------------------------------ pattern tools
def flat_or(c):
    if c.op == "or":
        r = []
        for a in c.args:
            r += flat_or(a)
        return r
    if c.op == "and":
        # distribute a single or inside a conjunction
        for i, a in enumerate(c.args):
            if a.op == "or":
                rest = list(c.args[:i]) + list(c.args[i + 1:])
                return [y for d in a.args for y in flat_or(and_(d, *rest))]
    return [c]

def branches(p):
    """[(disjunct condition, value)] in priority order, last = default (TRUE, value)"""
    out = []
    def go(t, acc):
        if t.op == "ite":
            c = t.args[0]
            # equality guards first: if the negation is the informative side, swap
            if c.op == "not" or c.op == "or" and all(x.op == "not" for x in c.args):
                go(t.args[2], acc + [not_(c)])
                go(t.args[1], acc)
                return
            for d in flat_or(c):
                go(t.args[1], acc + [d])
            go(t.args[2], acc)
        else:
            out.append((and_(*acc), t))
    go(p, [])
    return out

def lin_in(t, k):
    """t = a*k + rest with integer constant a; returns (a, rest) or None"""
    a, rest = 0, []
    for m in (t.args if t.op == "add" else (t,)):
        if k not in m.fv:
            rest.append(m)
        elif m is k:
            a += 1
        elif m.op == "mul" and is_c(m.args[0]) and len(m.args) == 2 and m.args[1] is k:
            a += m.args[0].val
        else:
            return None
    return a, (add(*rest) if rest else ic(0))

def lift_ite(p):
    """x + ite(c,a,b) -> ite(c, x+a, x+b)   (top level only)"""
    if p.op == "ite":
        return ite(p.args[0], lift_ite(p.args[1]), lift_ite(p.args[2]))
    if p.op == "add":
        for i, a in enumerate(p.args):
            if a.op == "ite":
                rest = list(p.args[:i]) + list(p.args[i + 1:])
                return ite(a.args[0], lift_ite(add(*(rest + [a.args[1]]))), lift_ite(add(*(rest + [a.args[2]]))))
    return p

def solve_k(cond, k):
    """solve one equality conjunct of cond for k"""
    for c in smt.conj(cond):
        if c.op == "eq" and c.args[0].sort == "I" and k in c.fv:
            r = lin_in(sub(c.args[0], c.args[1]), k)
            if r is None: continue
            a, rest = r
            if a == 1: return neg(rest)
            if a == -1: return rest
    return None

def canon_self(t, X, k, bvs):
    """inside a branch where b == e is assumed, X(k,e) is X(k,b)"""
    if not bvs:
        return t
    def go(t, eqs):
        if not contains_app(t, X):
            return t
        if t.op == "ite":
            c = t.args[0]
            return ite(go(c, eqs), go(t.args[1], eqs + [x for x in smt.conj(c) if x.op == "eq"]), go(t.args[2], eqs))
        if t.op == "app" and t.val == X:
            ok = True
            for b, a in zip(bvs, t.args[1:]):
                if a is b: continue
                if not any(is_c(d) and d.val == 0 for d in [sub(sub(a, b), sub(e.args[0], e.args[1])) for e in eqs if e.args[0].sort == "I"] + [add(sub(a, b), sub(e.args[0], e.args[1])) for e in eqs if e.args[0].sort == "I"]):
                    ok = False
            if ok and t.args[0] is k:
                return app(X, (k,) + tuple(bvs), t.sort)
            return t
        if t.op in ("sum", "all"):
            b = fresh("b", "I")
            return rebuild(t.op, (t.args[0], t.args[1], go(subst(t.args[2], {t.val: b}), eqs)), t.sort, b)
        return rebuild(t.op, tuple(go(a, eqs) for a in t.args), t.sort, t.val)
    return go(t, [])

def strip(p, self_t):
    """p = self_t + e  ->  e   (pushing through ite)"""
    if p is self_t:
        return rc(0) if p.sort == "R" else ic(0)
    if p.op == "ite":
        if has_sub(p.args[0], lambda x: x is self_t): return None
        a, b = strip(p.args[1], self_t), strip(p.args[2], self_t)
        if a is None or b is None: return None
        return ite(p.args[0], a, b)
    if p.op == "add" and self_t in p.args:
        rest = [a for a in p.args if a is not self_t]
        e = add(*rest)
        if has_sub(e, lambda x: x is self_t): return None
        return e
    return None

def pull_ite_sum(bv, lo, hi, body):
    """Sum of ite(c,x,0) with c independent of bv -> ite(c, Sum x, 0);
    Sum of ite(bv==t, x, 0) -> ite(lo<=t<hi, x[bv:=t], 0)"""
    if body.op == "ite":
        z = lambda x: is_c(x) and x.val == 0
        c, x, y = body.args
        if z(x) and not z(y):
            c, x, y = not_(c), y, x
        if z(y):
            t = solve_k(c, bv)
            if t is not None and bv not in t.fv:
                return ite(and_(le(lo, t), lt(t, hi), subst(c, {bv: t})), subst(x, {bv: t}), rc(0))
    if body.op == "ite" and bv not in body.args[0].fv:
        return ite(body.args[0], pull_ite_sum(bv, lo, hi, body.args[1]), pull_ite_sum(bv, lo, hi, body.args[2]))
    if body.op == "ite" and is_c(body.args[2]) and body.args[2].val == 0 and body.args[0].op == "and":
        ins = [c for c in body.args[0].args if bv in c.fv]
        outs = [c for c in body.args[0].args if bv not in c.fv]
        if outs:
            return ite(and_(*outs), pull_ite_sum(bv, lo, hi, ite(and_(*ins), body.args[1], body.args[2])), rc(0))
    return sum_(bv, lo, hi, body)

def range_sum(ex, k, hi, e, hyps):
    """Sum_{k=0}^{hi-1} e, turning guards that are ranges of k into summation bounds"""
    if e.sort == "I":
        # integer accumulation: only constants are supported
        if is_c(e): return mul(e, hi)
        return None
    return pull_ite_sum(k, ic(0), hi, e)

# ------------------------------------------------------------------ recursively defined sequences
def define_rec(ex, params, body_of, sort, dom):
    """new function r(params) with defining equation; params: list of vars.
    body_of(self_app) -> term.  Name is derived from the content."""
    lv = [v for v in ex.loopvars]
    tmp = "%self"
    bt = body_of(lambda args: app(tmp, tuple(args) , sort))
    d = dom
    used = [v for v in lv if v in bt.fv or v in d.fv]
    # parameters: enclosing loop variables first
    allp = used + list(params)
    cp = [var("%%p%d" % i, p.sort) for i, p in enumerate(allp)]
    m = dict(zip(allp, cp))
    cb = subst(bt, m)
    cd = subst(d, m)
    name = "rec%d_%d" % (cb.id, cd.id)
    def fix(t):
        return subst_app(t, {tmp: lambda *a: app(name, tuple(cp[:len(used)]) + tuple(a), sort)})
    ex.defs[name] = {"params": cp, "dom": fix(cd), "body": fix(cb), "sort": sort}
    return lambda args: app(name, tuple(used) + tuple(args), sort), name

def def_axioms(defs, fuel=1):
    """smt 'extra' hook: unfold definitions at the applications that occur"""
    def hook(terms):
        out = []
        done = set()
        cur = list(terms)
        for _ in range(fuel):
            new = []
            for t in cur:
                for x in subterms(t):
                    if x.op == "app" and x.val in defs and x not in done:
                        if any(isinstance(v.val, str) and v.val.startswith("#") for v in x.fv):
                            continue
                        done.add(x)
                        d = defs[x.val]
                        m = dict(zip(d["params"], x.args))
                        new.append(implies(subst(d["dom"], m), eq(x, subst(d["body"], m))))
            out += new
            cur = new
        return out
    # variables the definitions mention besides their parameters: not to be eliminated from a goal
    hook.fv = frozenset(v for d in defs.values() for v in d["body"].fv | d["dom"].fv if v not in d["params"])
    hook.key = tuple(sorted((n, d["body"].id) for n, d in defs.items()))
    return hook

# ------------------------------------------------------------------ main entry
def summarise(ex, it, body, name, label, always_exit=False):
    if it.flat2 is not None:
        return flat_loop(ex, it, body, name, label)
    if ex.opts.get("noabs") :
        return summarise1(ex, it, body, name, label, False)
    snap = (dict(ex.cells), list(ex.pc), list(ex.inst), ex.quiet, ex.merge, list(ex.loopvars), len(ex.obs), ex.dec and (list(ex.dec["taken"]), ex.dec["pos"]), list(ex.fnstack), ex.depth)
    try:
        return summarise1(ex, it, body, name, label, True)
    except Unsupported as e:
        if not getattr(e, "loopfail", False) or not getattr(e, "abstracted", False):
            raise
        ex.cells, ex.pc, ex.inst, ex.quiet, ex.merge, ex.loopvars = dict(snap[0]), list(snap[1]), list(snap[2]), snap[3], snap[4], list(snap[5])
        del ex.obs[snap[6]:]
        if snap[7] is not None: ex.dec["taken"], ex.dec["pos"] = list(snap[7][0]), snap[7][1]
        ex.fnstack[:] = snap[8]
        ex.depth = snap[9]
        dbg("retry without abstraction of the entry state")
    return summarise1(ex, it, body, name, label, False)

def abstract_entry(cells, loopvars=()):
    """replace large real leaves of the entry state by opaque functions of their binders and of the
    counters of enclosing loops"""
    amap = {}
    out = {}
    for c, v in cells.items():
        if v is None or isinstance(v, (Closure, FnRef, PyFn, It, Str)):
            out[c] = v
            continue
        def f(p, bv, t):
            if t.sort != "R" or t.size <= 12: return t
            bv = tuple(bv) + tuple(v for v in loopvars if v in t.fv and v not in bv)
            cb = tuple(var("%%a%d" % i, "I") for i in range(len(bv)))
            ct = subst(t, dict(zip(bv, cb))) if bv else t
            nm = "G%d_%d" % (ct.id, len(bv))
            amap[nm] = (cb, ct)
            return app(nm, bv, "R") if bv else var(nm, "R")
        out[c] = walk(v, f)
    return out, amap

def summarise1(ex, it, body, name, label, abstract):
    N = it.n
    k = fresh("k", "I")
    cells0 = real_cells = dict(ex.cells)
    amap = {}
    if abstract:
        cells0, amap = abstract_entry(cells0, ex.loopvars)
    try:
        return summarise2(ex, it, body, name, label, N, k, cells0, real_cells, amap)
    except Unsupported as e:
        if not hasattr(e, "loopfail"):
            e.loopfail = True
            e.abstracted = bool(amap)
        raise

def summarise2(ex, it, body, name, label, N, k, cells0, real_cells, amap):
    pc0 = list(ex.pc)
    afun = {nm: (lambda cb, ct: (lambda *a: subst(ct, dict(zip(cb, a)))))(cb, ct) for nm, (cb, ct) in amap.items() if cb}
    avar = {var(nm, "R"): ct for nm, (cb, ct) in amap.items() if not cb}
    def unabs(t):
        if not amap: return t
        if afun: t = subst_app(t, afun)
        if avar: t = subst(t, avar)
        return t
    uid = fresh("L", "I").val
    rng = [le(ic(0), k)] + ([lt(k, N)] if N is not None else [])

    def step():
        body(it.get(k))
        return UNIT

    def run(state, hyps, quiet, obs_to=None):
        """explore the body from state (dict cell->value) ; returns outcomes"""
        save = (dict(ex.cells), list(ex.pc), ex.quiet, ex.obs, list(ex.inst))
        ex.cells = dict(cells0)
        ex.cells.update(state)
        ex.pc = list(pc0)
        for h in rng + hyps:
            ex.assume(h)
        ex.inst = ex.inst + [k]
        base = len(ex.pc)
        if quiet: ex.quiet += 1
        if obs_to is not None: ex.obs = obs_to
        ex.merge += 1
        ex.loopvars.append(k)
        try:
            outs = ex.explore(step)
        finally:
            ex.merge -= 1
            ex.loopvars.pop()
            ex.cells, ex.pc, ex.quiet, ob, ex.inst = save
            if obs_to is not None: ex.obs = save[3]
        for o in outs:
            o["delta"] = o["pc"][base:]
        return outs

    def is_normal(o):
        if o["kind"] == "val": return True
        if o["kind"] == "cnt": return o["val"].label is None or o["val"].label == label
        return False

    # ---- modified cells and generic state
    mod = {}
    init = dict(cells0)
    generic = {}
    info = {}
    for rnd in range(5):
        outs = run(generic, [], True)
        norm_ = [o for o in outs if is_normal(o)]
        changed = False
        for o in outs:
            for c in cells0:
                a, b = generic.get(c, cells0[c]), o["cells"][c]
                if a is b: continue
                if isinstance(a, (Closure, FnRef, PyFn, It, Str)): continue
                if a is None:
                    raise Unsupported("late-initialised variable assigned in loop")
                if not is_normal(o) and o["kind"] in ("ret", "brk", "cnt"):
                    # writes on the exit path do not flow round the loop
                    continue
                i2 = joinshape(init[c], b)
                la, lb = get_leaves(generic.get(c, i2)), get_leaves(b)
                if not same(i2, init[c]) or set(get_leaves(init[c])) != set(get_leaves(i2)) or set(la) != set(get_leaves(i2)):
                    init[c] = i2
                    changed = True
                li = get_leaves(init[c])
                if set(lb) != set(li) :
                    # tolerate b lacking optional parts
                    if not set(lb) <= set(li):
                        raise Unsupported("loop changes the shape of its state (%s)" % sorted(set(lb) ^ set(li))[:3])
                for p in lb:
                    g = la.get(p)
                    if g is None:
                        continue
                    bv, t = lb[p]
                    gbv, gt = g
                    if bv != gbv:
                        t = subst(t, dict(zip(bv, gbv)))
                    if t is not gt and p not in mod.get(c, {}):
                        if p.endswith("#len") or p.endswith("#stride"):
                            raise Unsupported("loop changes a length")
                        mod.setdefault(c, {})[p] = True
                        changed = True
        # build generic state
        generic = {}
        for c in set(mod) | {c for c in cells0 if init[c] is not cells0[c]}:
            def f(p, bv, t, c=c):
                if p in mod.get(c, {}):
                    nm = "X_%s_%d_%s" % (uid, c, p)
                    info[nm] = {"cell": c, "path": p, "bvs": bv, "init": t, "sort": t.sort, "vec": None}
                    return app(nm, (k,) + tuple(bv), t.sort)
                return t
            generic[c] = walk(init[c], f)
        if not changed:
            break
    else:
        raise Unsupported("loop state does not stabilise")
    # element bounds of each array leaf
    for nm, i in info.items():
        i["bounds"] = elem_bounds(ex, init[i["cell"]], i["path"], i["bvs"])

    ndefs = set(ex.defs)
    gobs = []
    outs = run(generic, [], False, gobs)
    newdefs = [d for d in ex.defs if d not in ndefs or contains_any(ex.defs[d]["body"], set(info))]
    norms = [o for o in outs if is_normal(o)]
    abr = [o for o in outs if not is_normal(o)]
    sol = {}
    if norms:
        m = ex.merge_outs(norms) if len(norms) > 1 else dict(norms[0])
        F = m["cond"] if "cond" in m else and_(*m["delta"])
        post = {}
        for nm, i in info.items():
            lv = get_leaves(m["cells"][i["cell"]]).get(i["path"])
            if lv is None:
                raise Unsupported("loop post-state shape")
            bv, t = lv
            post[nm] = subst(t, dict(zip(bv, i["bvs"]))) if bv != i["bvs"] else t
        # facts recorded in F that are only about fresh existential variables are dropped
        sol = solve(ex, info, post, k, N, F, rng, pc0, newdefs)
    else:
        F = FALSE
        post = {}

    # ---- closed forms as functions
    fm = {nm: (lambda s, i: (lambda kk, *a: subst(s, dict(zip((k,) + tuple(i["bvs"]), (kk,) + a)))))(s, info[nm]) for nm, s in sol.items()}
    def close0(t):
        for _ in range(6):
            t2 = subst_app(t, fm)
            if t2 is t: return t
            t = t2
        return t
    def close(t): return unabs(close0(t))
    for d in newdefs:
        ex.defs[d]["body"] = close0(ex.defs[d]["body"])
        ex.defs[d]["dom"] = close0(ex.defs[d]["dom"])
    def state_at(kk):
        st = {}
        for c in generic:
            st[c] = vmap(vsubst(vmap(generic[c], close), {k: kk}), lambda t: t)
        return st
    Fc = close(F)
    # keep only conjuncts worth remembering
    t0 = fresh("t", "I")
    def F_at(x): return subst(Fc, {k: x})
    obf = {close(c) for c in ex.obfacts if k in c.fv}
    def hist(hi):
        fs = []
        for c in smt.conj(Fc):
            if c in pc0 or c in ex.obfacts or c in obf: continue
            fs.append(forall(t0, ic(0), hi, subst(c, {k: t0})))
        return [f for f in fs if f is not TRUE]
    # ---- verification of the closed forms
    loopname = "%s %s" % (ex.fnstack[-1] if ex.fnstack else "?", name)
    if norms:
        bad = verify(ex, info, post, sol, close0, k, N, rng, pc0, hist, close0(F))
        if bad:
            raise Unsupported("loop contract not established for %s: %s" % (loopname, bad))
    if amap:
        for d in newdefs:
            ex.defs[d]["body"] = unabs(ex.defs[d]["body"])
            ex.defs[d]["dom"] = unabs(ex.defs[d]["dom"])
        cells0 = real_cells
    for d in newdefs:
        for v in list(ex.loopvars) + [k]:
            if v in ex.defs[d]["body"].fv or v in ex.defs[d]["dom"].fv: raise Unsupported("recursive definition mentions the counter of an enclosing loop")
    # ---- user invariants
    invs = []
    for key in (loopname, ex.fnstack[-1] if ex.fnstack else "?"):
        for h in ex.hints.get(key, []):
            invs.append(h)
    st_k = state_at(k)
    inv_k = []
    ctx = {"cells0": cells0, "name": name, "info": info, "N": N}
    for h in invs:
        try:
            r = h(ex, ctx, st_k, k)
        except (KeyError, AttributeError, IndexError):
            r = None
        if r is None: continue
        inv_k += [x for x in (r if isinstance(r, list) else [r])]
    inv0 = [subst(x, {k: ic(0)}) for x in inv_k]
    for i, x in enumerate(inv0):
        ex.oblige("loop invariant %d holds on entry" % i, "inv", x, assume=False)
    hk = hist(k) + inv_k
    ex.loops.append({"loop": loopname, "closed": len(sol), "recursive": len([d for d in newdefs])})
    # ---- second run, from the closed state, with obligations on
    if newdefs:
        outs2 = []
        for o in outs:
            o2 = dict(o)
            o2["cells"] = {c: (vmap(v, close) if v is not None and not isinstance(v, (Closure, FnRef, PyFn, It, Str)) else v) for c, v in o["cells"].items()}
            o2["pc"] = pc0 + rng + hk + [close(x) for x in o["delta"]]
            o2["delta"] = [close(x) for x in o["delta"]]
            if o["kind"] in ("ret",) and o["val"] is not None and not isinstance(o["val"], (Closure, It)):
                o2["val"] = vmap(o["val"], close)
            outs2.append(o2)
        if not ex.quiet:
            for ob in gobs:
                ob.hyps = [close(h) for h in ob.hyps] + hk
                ob.goal = close(ob.goal)
                ex.obs.append(ob)
    else:
        outs2 = run(st_k, hk, False, None if not ex.quiet else [])
    # step of user invariants
    if inv_k:
        for o in outs2:
            if is_normal(o):
                for i, h in enumerate(inv_k):
                    if not ex.quiet:
                        from exec import Ob
                        # the state after the body is the closed state at k+1
                        g = subst(h, {k: add(k, ic(1))})
                        ob = Ob("loop invariant %d preserved" % i, "inv", o["pc"], g, ex.curline(), ex.fnstack[-1] if ex.fnstack else "?")
                        ob.tags["inst"] = list(ex.inst) + [k]
                        ob.tags["defs"] = True
                        ex.obs.append(ob)
    # ---- continue after the loop
    abr2 = [o for o in outs2 if not is_normal(o)]
    alts = []
    if N is not None and norms:
        alts.append("done")
    elif N is not None:
        alts.append("none")       # body never completes normally: only N <= 0 falls through
    alts += abr2
    if not alts:
        from exec import Stop
        raise Stop()
    i = ex.choose([TRUE] * len(alts)) if len(alts) > 1 else 0
    a = alts[i]
    if a == "done" or a == "none":
        if a == "none":
            ex.assume(le(N, ic(0)))
            return
        bnds = {}
        for nm, i in info.items():
            bnds[(i["cell"], i["path"])] = i["bounds"]
        for c, v in state_at(N).items():
            def fs(p, bv, t, c=c):
                b = bnds.get((c, p))
                if b is None or not has_sub(t, lambda x: x.op == "ite"): return t
                # binders of the state value are those of the generic value
                return simp(ex, t, pc0 + ([le(ic(0), N)] if not is_c(N) else []) + b)
            ex.cells[c] = walk(v, fs)
        for h in hist(N):
            ex.assume(h)
        for x in inv_k:
            ex.assume(subst(x, {k: N}))
        ex.inst = ex.inst + [N, sub(N, ic(1))] if not is_c(N) else ex.inst
        return
    # abrupt exit in iteration k
    ex.cells = dict(a["cells"])
    ex.pc = list(a["pc"])
    ex.inst = ex.inst + [k]
    if a["kind"] == "brk":
        b = a["val"]
        if b.label is None or b.label == label:
            return b.v
        raise b
    if a["kind"] == "ret":
        from exec import Ret
        raise Ret(a["val"])
    raise a["val"]

def elem_bounds(ex, v, path, bvs):
    """conditions 0<=b<len for the binders of the leaf at path"""
    out = []
    def go(v, path):
        if isinstance(v, SVec):
            if v.stride is None:
                out.append(and_(le(ic(0), v.bvs[0]), lt(v.bvs[0], v.n)))
            else:
                try:
                    rows = ex.rows_of(v)
                except Unsupported:
                    rows = None
                c = and_(le(ic(0), v.bvs[0]), le(ic(0), v.bvs[1]), lt(v.bvs[1], v.stride))
                out.append(and_(c, lt(v.bvs[0], rows)) if rows is not None else c)
            return go(v.elem, path)
        if isinstance(v, Struct):
            for x in v.fs.values(): go(x, path)
        elif isinstance(v, Tup):
            for x in v.xs: go(x, path)
        elif isinstance(v, Opt) and v.val is not None:
            go(v.val, path)
    go(v, path)
    bs = set(bvs)
    return [c for c in out if c.fv & bs]

# ------------------------------------------------------------------ solving
def solve(ex, info, post, k, N, F, rng, pc0, newdefs):
    sol = {}
    names = list(info)
    hy = pc0 + rng
    def cur(t):
        fm = {nm: (lambda s, i: (lambda kk, *a: subst(s, dict(zip((k,) + tuple(i["bvs"]), (kk,) + a)))))(s, info[nm]) for nm, s in sol.items()}
        if not fm: return t
        for _ in range(5):
            t2 = subst_app(t, fm)
            if t2 is t: break
            t = t2
        return t
    def others(t, nm):
        return [x for x in names if x != nm and x not in sol and contains_app(t, x)]
    tried_simp = {}
    def attempt(nm, allow_rec):
        i = info[nm]
        bvs = i["bvs"]
        me = app(nm, (k,) + tuple(bvs), i["sort"])
        p = cur(post[nm])
        if has_sub(p, lambda x: x.op == "ite"):
            key = p
            if key not in tried_simp:
                tried_simp[key] = simp(ex, p, hy + i["bounds"])
            p = tried_simp[key]
        p = canon_self(p, nm, k, bvs)
        init = i["init"]
        # unchanged
        if p is me:
            return init
        oth = others(p, nm)
        # (a) no self dependence
        if not contains_app(p, nm):
            if oth and not allow_rec:
                return None
            g = cond_array(nm, p, me, i) if bvs else None
            if g is not None: return g
            return ite(le(k, ic(0)), init, kshift(p, k, -1))
        # round robin
        if i["sort"] == "I" and not bvs:
            r = round_robin(ex, p, me, init, k, N, hy)
            if r is not None: return r
        # guarded single-location writes
        if bvs:
            g = cond_array(nm, p, me, i)
            if g is not None: return g
        # (b) additive
        e = strip(p, me)
        if e is not None:
            selfr = contains_app(e, nm)
            if selfr:
                e2 = subst_app(e, {nm: (lambda kk, *a: subst(init, dict(zip(bvs, a))))}) if bvs else None
                e = e2
            if selfr and e is not None and not others(e, nm):
                s = range_sum(ex, k, k, e, hy)
                if s is None or not check_one(nm, add(init, s)): e = None
            if e is not None and not others(e, nm):
                s = range_sum(ex, k, k, e, hy)
                if s is not None:
                    return add(init, s)
                t = fresh("t", "I")
            elif e is not None and e.sort == "R" and allow_rec and False:
                return add(init, range_sum(ex, k, k, e, hy))
        return None
    def cond_array(nm, p, me, i):
        bvs = i["bvs"]
        init = i["init"]
        p = lift_ite(p)
        br = branches(p)
        if br[-1][1] is not me and not (br and any(v is me for _, v in br)):
            return None
        parts = []
        for c, v in br:
            if v is me:
                parts.append((c, None, me))
                continue
            t = solve_k(c, k)
            if t is None:
                return None
            parts.append((c, t, v))
        # candidate: times t(b)
        res = None
        def build(valf):
            r = init
            for c, t, v in reversed(parts):
                if t is None:
                    if c is TRUE: continue
                    return None
                cc = subst(c, {k: t})
                r = ite(and_(le(ic(0), t), lt(t, k), cc), valf(c, t, v), r)
            return r
        # drop interior default branches (keeps priority semantics only if they are last)
        pp = [x for x in parts if x[1] is not None]
        parts[:] = pp
        selfref = any(contains_app(v, nm) for _, _, v in pp)
        if not selfref:
            return build(lambda c, t, v: subst(v, {k: t}))
        # self references: own location not yet written => initial value; others: candidate A0
        def with_init(c, t, v):
            return subst_app(subst(v, {k: t}), {nm: (lambda kk, *a: subst(init, dict(zip(bvs, a))))})
        cand = build(with_init)
        if check_one(nm, cand): return cand
        # expand through the closed form itself
        def expand(c, t, v, depth=3):
            vt = subst(v, {k: t})
            hyp = hy + i["bounds"] + [le(ic(0), t), subst(c, {k: t})] + ([lt(t, N)] if N is not None else [])
            for _ in range(depth):
                if not contains_app(vt, nm): break
                raw = build(lambda c2, t2, v2: subst(v2, {k: t2}))
                vt = subst_app(vt, {nm: (lambda kk, *a: subst(raw, dict(zip((k,) + tuple(bvs), (kk,) + a))))})
                vt = simp(ex, vt, hyp)
            return vt
        vs = {}
        okx = True
        for x in parts:
            e = expand(*x)
            if contains_app(e, nm) or e.size > 4000:
                okx = False
                break
            vs[id(x[2])] = e
        if okx:
            cand = build(lambda c, t, v: vs[id(v)])
            if check_one(nm, cand): return cand
        # write-once recursion: V(b) = v[X(t,x) := if written before t then V(x) else A0(x)]
        if len(pp) == 1 and i["sort"] == "R":
            c, t, v = pp[0]
            guard = and_(le(ic(0), t), subst(c, {k: t}), *([lt(t, N)] if N is not None else []))
            def body_of(selfapp):
                def rep(kk, *a):
                    m = dict(zip(bvs, a))
                    gx = and_(subst(le(ic(0), t), m), lt(subst(t, m), kk), subst(subst(c, {k: t}), m))
                    return ite(gx, selfapp(a), subst(init, m))
                return simp(ex, subst_app(subst(v, {k: t}), {nm: rep}), hy + i["bounds"] + [guard])
            if others(v, nm): return None
            # can the recursion be extended to the locations that are never written?
            bnd = and_(*i["bounds"])
            def body_ext(selfapp):
                def rep(kk, *a):
                    if all(x is y for x, y in zip(a, bvs)): return init
                    m = dict(zip(bvs, a))
                    return ite(or_(not_(subst(guard, m)), lt(subst(t, m), kk)), selfapp(a), subst(init, m))
                return simp(ex, subst_app(subst(v, {k: t}), {nm: rep}), hy + i["bounds"] + [le(ic(-1), t)])
            be = body_ext(lambda a: app("%ext", tuple(a), "R"))
            dbg("extension candidate", be, "guard", guard)
            if smt.check([h for h in hy if h not in rng] + i["bounds"] + [not_(guard)], eq(be, init), timeout=2000)[0] == "proved":
                mkr, rname = define_rec(ex, list(bvs), body_ext, "R", bnd)
                newdefs.append(rname)
                return ite(or_(not_(guard), lt(t, k)), mkr(bvs), init)
            mkr, rname = define_rec(ex, list(bvs), body_of, "R", guard)
            newdefs.append(rname)
            return build(lambda c_, t_, v_: mkr(bvs))
        return None
    def check_one(nm, cand):
        i = info[nm]
        s2 = dict(sol)
        s2[nm] = cand
        fm = {n2: (lambda s, ii: (lambda kk, *a: subst(s, dict(zip((k,) + tuple(ii["bvs"]), (kk,) + a)))))(s, info[n2]) for n2, s in s2.items()}
        a = subst_app(post[nm], fm)
        b = subst(cand, {k: add(k, ic(1))})
        b = subst_app(b, fm)
        if smt.check(hy + i["bounds"], subst(eqv(cand, i["init"]), {k: ic(0)}), timeout=2000)[0] != "proved":
            return False
        old = DEEP[0]
        DEEP[0] = 700
        try:
            return step_eq(ex, hy + i["bounds"], a, b, k)
        finally:
            DEEP[0] = old
    # pass 1: plain
    for rnd in range(len(names) + 2):
        prog = False
        for nm in names:
            if nm in sol: continue
            s = attempt(nm, False)
            if s is not None:
                dbg("solved", nm, "=", s)
                sol[nm] = s
                prog = True
        if not prog: break
    # pass 2: allow forms mentioning unsolved leaves, then turn the rest into recursive sequences
    left = [nm for nm in names if nm not in sol]
    for nm in list(left):
        s = attempt(nm, True)
        if s is not None and not contains_app(s, nm):
            dbg("solved (deferred)", nm, "=", s)
            sol[nm] = s
            left.remove(nm)
            for n2 in list(left):
                s = attempt(n2, False)
                if s is not None:
                    sol[n2] = s
                    left.remove(n2)
                    dbg("solved", n2, "=", s)
    if left:
        for nm in left:
            if info[nm]["bvs"] and info[nm]["sort"] != "R" :
                raise Unsupported("no closed form for array state %s" % info[nm]["path"])
        defs = {}
        # recursive sequences:  r(k) = ite(k<=0, init, post[k-1])
        # mutual recursion handled by giving every one its own symbol first
        tmpn = {nm: "%%rec_%s" % nm for nm in left}
        names2 = {}
        posts = {}
        for nm in left:
            i = info[nm]
            p = cur(post[nm])
            p = simp(ex, p, hy + i["bounds"]) if has_sub(p, lambda x: x.op == "ite") else p
            posts[nm] = p
        lv = list(ex.loopvars)
        used = [v for v in lv if any(v in p.fv for p in posts.values()) or any(v in info[nm]["init"].fv for nm in left)]
        cp = {}
        cbase = [var("%%p%d" % j, v.sort) for j, v in enumerate(used)]
        ck = var("%pk", "I")
        sig = []
        for idx, nm in enumerate(left):
            i = info[nm]
            cb = [var("%%q%d" % j, "I") for j in range(len(i["bvs"]))]
            m = dict(zip(used, cbase)); m.update(dict(zip(i["bvs"], cb))); m[k] = sub(ck, ic(1))
            fmx = {n2: (lambda j: (lambda kk, *a: app("%%self%d" % j, (kk,) + a, info[left[j]]["sort"])))(left.index(n2)) for n2 in left}
            body = ite(le(ck, ic(0)), subst(i["init"], m), subst_app(subst(posts[nm], m), fmx))
            sig.append((cb, body))
        base = "_".join(str(b.id) for _, b in sig[:3]) + ("_%d" % len(sig))
        rn = ["seq%s_%d" % (base, j) for j in range(len(left))]
        fix = {"%%self%d" % j: (lambda j: (lambda *a: app(rn[j], tuple(cbase) + a, info[left[j]]["sort"])))(j) for j in range(len(left))}
        for j, nm in enumerate(left):
            cb, body = sig[j]
            ex.defs[rn[j]] = {"params": cbase + [ck] + cb, "dom": TRUE, "body": subst_app(body, fix), "sort": info[nm]["sort"], "seq": True,
                              "path": info[nm]["path"], "cell": info[nm]["cell"]}
            newdefs.append(rn[j])
            sol[nm] = app(rn[j], tuple(used) + (k,) + tuple(info[nm]["bvs"]), info[nm]["sort"])
            info[nm]["rec"] = rn[j]
            dbg("recursive", nm, "->", rn[j], "body", ex.defs[rn[j]]["body"])
        ex.abstracted = True
    # resolve cross references among solutions
    for _ in range(len(names) + 1):
        ch = False
        for nm in names:
            s = cur(sol[nm])
            if s is not sol[nm]:
                i = info[nm]
                s = simp(ex, s, pc0 + [le(ic(0), k)] + ([le(k, N)] if N is not None else []) + i["bounds"])
                if s is not sol[nm]:
                    sol[nm] = s
                    ch = True
        if not ch: break
    if any(contains_any(s, set(names)) for s in sol.values()):
        raise Unsupported("cyclic loop state")
    return sol

def eqv(a, b):
    return eq(a, b)

def peel_match(hs, a, b):
    """align sums whose upper bounds differ by one; returns a - b with the longer one peeled"""
    sums = [x for t in (a, b) for x in subterms(t) if x.op == "sum" and not any(isinstance(v.val, str) and v.val.startswith("#") for v in x.fv)]
    sums = list(dict.fromkeys(sums))
    m = {}
    for x in sums:
        for y in sums:
            if x is y or x in m: continue
            if x.args[0] is y.args[0] and x.args[1] is add(y.args[1], ic(1)):
                # peel x if that makes it comparable with y
                if is_c(y.args[0]) and is_c(y.args[1]) or smt.check(hs, le(x.args[0], y.args[1]), timeout=300, quick=True)[0] == "proved":
                    m[x] = add(sum_(x.val, x.args[0], y.args[1], x.args[2]), subst(x.args[2], {x.val: y.args[1]}))
        if x not in m and smt.check(hs, le(x.args[1], x.args[0]), timeout=300, quick=True)[0] == "proved":
            m[x] = rc(0)
    d = sub(a, b)
    return repl_terms(d, m) if m else d

def repl_terms(t, m):
    if t in m: return m[t]
    if not t.args or not any(has_sub(t, lambda x, y=y: x is y) for y in m): return t
    if t.op in ("sum", "all"): return t
    return rebuild(t.op, tuple(repl_terms(x, m) for x in t.args), t.sort, t.val)

DEEP = [5000]
def leaf_eq(ex, hs, a, b, k, deep, tmo=1500):
    if a is b: return True
    if a.sort == "R":
        hs2, g, _ = smt.elim_eqs(hs, eq(a, b), [])
        if g is TRUE: return True
        a2, b2 = (g.args if g.op == "eq" else (a, b))
        try:
            if poly_zero(sub(a2, b2)): return True
            if deep:
                d = peel_match(hs2, a2, b2)
                if poly_zero(d): return True
                if not has_sub(d, lambda x: x.op in ("ite", "sum")) and rational_zero(d): return True
        except PolyBlow:
            pass
    x = [def_axioms(ex.defs)] if ex.defs else []
    hi = [h for hh in hs for h in smt.conj(hh) if not smt.has_real(h)]
    v, i = smt.check(hi, eq(a, b), timeout=tmo, inst=[k], sumlem=False, extra=x, cheap=True)
    if v == "proved": return True
    if deep and (has_sub(a, lambda y: y.op == "sum") or has_sub(b, lambda y: y.op == "sum") or x):
        v, i = smt.check(hi, eq(a, b), timeout=DEEP[0], inst=[k], extra=x)
        if v == "proved": return True
    if len(hi) < len(hs):
        v, i = smt.check(hs, eq(a, b), timeout=tmo, inst=[k], sumlem=False, extra=x, cheap=True)
        if v == "proved": return True
        if deep and (has_sub(a, lambda y: y.op == "sum") or has_sub(b, lambda y: y.op == "sum") or x):
            v, i = smt.check(hs, eq(a, b), timeout=DEEP[0], inst=[k], extra=x)
            return v == "proved"
    return False

def int_conds(*ts):
    conds = []
    for x in ts:
        for s in subterms(x):
            if s.op == "ite" and not any(isinstance(v_.val, str) and v_.val.startswith("#") for v_ in s.fv):
                for c in smt.conj(s.args[0]):
                    if c not in conds and not_(c) not in conds: conds.append(c)
    return conds

def step_eq(ex, hyps, a, b, k):
    """a == b under hyps: simplification, then case splits on the guards, then solvers"""
    if a is b: return True
    if a.sort == "R" and le(ic(0), k) in hyps:
        try:
            if poly_zero(sub(a, peel(b, k))): return True
        except PolyBlow:
            pass
    a2, b2 = simp(ex, a, hyps), simp(ex, b, hyps)
    if a2 is b2: return True
    small = not (has_sub(a2, lambda x: x.op == "ite") or has_sub(b2, lambda x: x.op == "ite")) or a2.size + b2.size < 60
    if leaf_eq(ex, hyps, a2, b2, k, False, 1500 if small else 150): return True
    def split(hs, A, B, depth):
        if A is B: return True
        conds = int_conds(A, B)
        if not conds or depth > 10:
            if not smt.satisfiable(hs, 1000): return True
            if leaf_eq(ex, hs, A, B, k, True): return True
            dbg("step fails", A, "!=", B)
            return False
        c = sorted(conds, key=lambda c: (has_sub(c, lambda x: x.op == "sum"), smt.has_real(c), c.size))[0]
        for cc in (c, not_(c)):
            h2 = hs + [cc]
            if not smt.satisfiable([h for h in h2 if not smt.has_real(h)], 500): continue
            A2, B2 = simp(ex, A, h2), simp(ex, B, h2)
            if has_sub(A2, lambda x: x is c) or has_sub(B2, lambda x: x is c):
                A2, B2 = repl(A2, c, cc is c), repl(B2, c, cc is c)
            if not split(h2, A2, B2, depth + 1): return False
        return True
    return split(list(hyps), a2, b2, 0)

def peel(t, k):
    """Sum_{0<=i<k+1} e  ->  Sum_{0<=i<k} e + e(k)   at the top level of a sum of terms"""
    k1 = add(k, ic(1))
    if t.op == "sum" and is_c(t.args[0]) and t.args[0].val == 0 and t.args[1] is k1:
        return add(sum_(t.val, t.args[0], k, t.args[2]), subst(t.args[2], {t.val: k}))
    if t.op in ("add", "mul"):
        return rebuild(t.op, tuple(peel(a, k) for a in t.args), t.sort, t.val)
    return t

def repl(t, c, val):
    """replace the boolean subterm c by a constant"""
    if t is c: return bc(val)
    if not has_sub(t, lambda x: x is c): return t
    if t.op in ("sum", "all"):
        b = fresh("b", "I")
        return rebuild(t.op, (t.args[0], t.args[1], repl(subst(t.args[2], {t.val: b}), c, val)), t.sort, b)
    return rebuild(t.op, tuple(repl(x, c, val) for x in t.args), t.sort, t.val)

def round_robin(ex, p, me, init, k, N, hy):
    """p = ite(me + 1 == M, lo, me + 1)"""
    if p.op != "ite": return None
    c, a, b = p.args
    if b.op == "ite" or a.op == "ite": return None
    inc = add(me, ic(1))
    if b is not inc and a is inc:
        c, a, b = not_(c), b, a
    if b is not inc or has_sub(a, lambda x: x is me): return None
    M = None
    for e in smt.conj(c):
        if e.op == "eq":
            d = sub(e.args[0], e.args[1])
            r = lin_in(d, me)
            if r and abs(r[0]) == 1:
                M = add(neg(mul(ic(r[0]), r[1])), ic(1))   # me == M-1
        if e.op == "le":
            # M <= me+1
            d = sub(e.args[1], e.args[0])
            r = lin_in(d, me)
            if r and r[0] == 1:
                M = add(neg(r[1]), ic(1))
    if M is None: return None
    lo = a
    j = add(init, k)
    cand = ite(lt(j, M), j, add(sub(j, M), lo))
    return cand

# ------------------------------------------------------------------ verification
def verify(ex, info, post, sol, close, k, N, rng, pc0, hist, Fc):
    for nm, i in info.items():
        if i.get("rec"):
            continue      # defined by its recursion
        s = sol[nm]
        hy = pc0 + i["bounds"]
        a0 = subst(s, {k: ic(0)})
        if a0 is not i["init"]:
            v, inf = smt.check(hy, eq(a0, i["init"]), timeout=3000, extra=[def_axioms(ex.defs)])
            if v != "proved":
                return "initial value of %s: %r != %r" % (i["path"], a0, i["init"])
        a = close(post[nm])
        b = subst(s, {k: add(k, ic(1))})
        h = pc0 + rng + i["bounds"] + smt.conj(Fc)
        if not step_eq(ex, h, a, b, k):
            return "step of %s" % i["path"]
    return None

# ------------------------------------------------------------------ linear walk over a matrix
def flat_loop(ex, it, body, name, label):
    r, c = fresh("r", "I"), fresh("c", "I")
    rows = ex.rows_from(it.n, it.flat2)
    cells0 = dict(ex.cells)
    pc0 = list(ex.pc)
    rng = [le(ic(0), r), lt(r, rows), le(ic(0), c), lt(c, it.flat2)]
    def step():
        body(it.get((r, c)))
        return UNIT
    save = (dict(ex.cells), list(ex.pc))
    for h in rng: ex.assume(h)
    base = len(ex.pc)
    ex.merge += 1
    ex.loopvars += [r, c]
    try:
        outs = ex.explore(step)
    finally:
        ex.merge -= 1
        ex.loopvars = ex.loopvars[:-2]
        ex.cells, ex.pc = save
    if any(o["kind"] != "val" for o in outs):
        raise Unsupported("exit from a linear matrix walk")
    for o in outs: o["delta"] = o["pc"][base:]
    m = ex.merge_outs(outs) if len(outs) > 1 else outs[0]
    for cell, v0 in cells0.items():
        v1 = m["cells"][cell]
        if v1 is v0: continue
        l0, l1 = get_leaves(v0), get_leaves(v1)
        if set(l0) != set(l1): raise Unsupported("shape change in matrix walk")
        def f(p, bv, t):
            b1, t1 = l1[p]
            if b1 != bv: t1 = subst(t1, dict(zip(b1, bv)))
            if t1 is t: return t
            if len(bv) == 2:
                # written only at (r,c): value there, unchanged elsewhere
                at = simp(ex, subst(t1, {bv[0]: r, bv[1]: c}), pc0 + rng)
                q0, q1 = fresh("q", "I"), fresh("q", "I")
                e = eq(subst(t1, {bv[0]: q0, bv[1]: q1}), subst(t, {bv[0]: q0, bv[1]: q1}))
                if not step_eq(ex, pc0 + rng + [not_(and_(eq(q0, r), eq(q1, c)))], e.args[0], e.args[1], q0) if not is_c(e) else e is FALSE:
                    raise Unsupported("matrix walk writes elsewhere")
                return subst(at, {r: bv[0], c: bv[1]})
            if not bv:
                e = strip(t1, t)
                if e is None and t.sort == "R" and poly_zero(rc(0)):
                    e = None
                if e is not None and e.sort == "R":
                    return add(t, sum_(r, ic(0), rows, sum_(c, ic(0), it.flat2, e)))
            raise Unsupported("state in matrix walk")
        ex.cells[cell] = walk(v0, f)
    ex.loops.append({"loop": "%s %s" % (ex.fnstack[-1] if ex.fnstack else "?", name), "closed": 1, "recursive": 0})

# ------------------------------------------------------------------ while / loop
def run_while(ex, e, env):
    from exec import Brk, Cnt
    cond = getattr(e, "c", None)
    def body_once():
        e2 = env
        if cond is not None:
            def go():
                t, e3 = ex.cond_branch(cond, env)
                if ex.choose([t, not_(t)]) == 0:
                    ex.block(e.body, e3)
                    return UNIT
                raise Brk(None)
            if ex.merge: ex.alternatives(ex.explore(go))
            else: go()
        else:
            ex.block(e.body, env)
    # concrete unrolling as long as the condition is decided
    cnt = 0
    while True:
        c = None
        if cond is not None:
            q = ex.quiet
            c, _ = ex.cond_branch(cond, env)
        if cond is None or not is_c(c):
            if ex.opts.get("unroll"):
                # bounded mode: branch on the condition
                if cnt >= ex.opts["unroll"]:
                    from exec import Stop
                    raise Stop()
            else:
                break
        if c is FALSE: return UNIT
        cnt += 1
        if cnt > ex.MAXUNROLL: raise Unsupported("unroll limit")
        try:
            body_once()
        except Brk as b:
            if b.label is not None and b.label != e.label: raise
            return b.v
        except Cnt as b:
            if b.label is not None and b.label != e.label: raise
    it = It(None, lambda k: k)
    r = summarise(ex, it, lambda x: body_once(), "while@%d" % e.line, e.label, always_exit=True)
    return r
