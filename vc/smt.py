"""Discharging obligations: polynomial / rational identity check, then z3 (SMT core,
nlsat), then cvc5.  Sums are uninterpreted with unfolding and extensionality lemmas
that are themselves proved; bounded quantifiers are instantiated."""
import time, subprocess, os, tempfile
import z3
from fractions import Fraction as Fr
from terms import *

STATS = {"queries": 0, "alg": 0, "z3": 0, "nlsat": 0, "cvc5": 0, "time": 0.0, "timeouts": 0}

class Enc:
    def __init__(self):
        self.memo = {}
        self.side = []          # side constraints (z3)
        self.sorts = {}
        self.funs = {}
        self.sumkeys = {}
        self.exact = True       # no abstraction (sum/UF) used
        self.extra_terms = []
        self.names = {}         # z3 const name -> T  (for models)

    def sort(self, s):
        if s == "R": return z3.RealSort()
        if s == "I": return z3.IntSort()
        if s == "B": return z3.BoolSort()
        if s not in self.sorts:
            self.sorts[s] = z3.DeclareSort(s)
        return self.sorts[s]

    def fun(self, name, asorts, rs):
        key = (name, tuple(asorts), rs)
        if key not in self.funs:
            n = name if name not in [k[0] for k in self.funs] else name + "_" + "".join(asorts)
            self.funs[key] = z3.Function(n, *([self.sort(s) for s in asorts] + [self.sort(rs)]))
        return self.funs[key]

    def const(self, t):
        c = z3.Const(str(t.val), self.sort(t.sort))
        self.names[str(t.val)] = t
        return c

    def go(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._go(t)
        self.memo[t] = r
        return r

    def _go(self, t):
        o = t.op
        g = self.go
        if o == "c":
            if t.sort == "R":
                return z3.RealVal("%d/%d" % (t.val.numerator, t.val.denominator))
            if t.sort == "I":
                return z3.IntVal(t.val)
            return z3.BoolVal(t.val)
        if o == "var":
            return self.const(t)
        if o == "add":
            return z3.Sum([g(a) for a in t.args]) if len(t.args) > 2 else g(t.args[0]) + g(t.args[1])
        if o == "mul":
            r = g(t.args[0])
            for a in t.args[1:]:
                r = r * g(a)
            return r
        if o == "div":
            n, d = g(t.args[0]), g(t.args[1])
            q = z3.Real("div!%d" % t.id)
            self.side.append(z3.Implies(d != 0, q * d == n))
            return q
        if o == "lt": return g(t.args[0]) < g(t.args[1])
        if o == "le": return g(t.args[0]) <= g(t.args[1])
        if o == "eq": return g(t.args[0]) == g(t.args[1])
        if o == "not": return z3.Not(g(t.args[0]))
        if o == "and": return z3.And([g(a) for a in t.args])
        if o == "or": return z3.Or([g(a) for a in t.args])
        if o == "ite": return z3.If(g(t.args[0]), g(t.args[1]), g(t.args[2]))
        if o == "toreal": return z3.ToReal(g(t.args[0]))
        if o == "app":
            if t.val == "sqrt":
                a = g(t.args[0])
                r = z3.Real("sqrt!%d" % t.id)
                self.side.append(z3.Implies(a >= 0, z3.And(r >= 0, r * r == a)))
                return r
            if t.val == "floor":
                a = g(t.args[0])
                r = z3.Int("floor!%d" % t.id)
                self.side.append(z3.And(z3.ToReal(r) <= a, a < z3.ToReal(r) + 1))
                return r
            args = [g(a) for a in t.args]
            if not args:
                return z3.Const(t.val, self.sort(t.sort))
            f = self.fun(t.val, [a.sort for a in t.args], t.sort)
            r = f(*args)
            if t.val == "exp":
                self.side.append(r > 0)
            if t.val == "tdiv":
                a, b = args
                self.side.append(z3.Implies(z3.And(b > 0, -b < a, a < b), r == 0))
                self.side.append(z3.Implies(z3.And(b > 0, b <= a, a < 2 * b), r == 1))
                self.side.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(r >= 0, r * b <= a, a < r * b + b)))
            if t.val == "cos":
                self.side.append(z3.And(r <= 1, r >= -1))
            return r
        if o == "sum":
            self.exact = False
            return self.sum(t)
        if o == "all":
            self.exact = False
            # opaque proposition (instances are added separately)
            return z3.Bool("all!%d" % t.id)
        raise Exception("enc " + o)

    def sum(self, t):
        lo, hi, body = t.args
        bv = t.val
        # abstract maximal bv-free non-constant integer subterms of the body as parameters
        params = []
        def ab(x):
            if bv not in x.fv:
                if x.sort == "I" and not is_c(x) and x.op != "toreal":
                    if x not in params:
                        params.append(x)
                    return var("@%d" % params.index(x), "I")
                if not x.args:
                    return x
            if not x.args:
                return x
            if x.op in ("sum", "all"):
                return x
            return rebuild(x.op, tuple(ab(a) for a in x.args), x.sort, x.val)
        key = ab(body)
        f = self.fun("sum_%d" % key.id, ["I", "I"] + ["I"] * len(params), "R")
        return f(self.go(lo), self.go(hi), *[self.go(p) for p in params])


def sums_in(ts):
    out = set()
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            pass
    for x in seen:
        if x.op == "sum":
            out.add(x)
    return [x for x in out if not any(v.val.startswith("#") for v in x.fv if isinstance(v.val, str))]


class Ctx:
    """proof context: hypotheses + lemmas"""
    def __init__(self, hyps=(), inst=(), axioms=None, timeout=8000):
        self.hyps = list(hyps)
        self.inst = list(inst)
        self.timeout = timeout
        self.axioms = axioms


def conj(t):
    if t.op == "and":
        r = []
        for a in t.args:
            r += conj(a)
        return r
    return [t]


def inst_alls(hyps, terms, depth=2):
    """instantiate bounded foralls at the given integer terms"""
    out = []
    for h in hyps:
        for x in subterms(h):
            if x.op == "all" and not any(isinstance(v.val, str) and v.val.startswith("#") for v in x.fv):
                lo, hi, body = x.args
                for t in terms:
                    inst = implies(and_(le(lo, t), lt(t, hi)), subst(body, {x.val: t}))
                    if h is x:
                        out.append(inst)
                    else:
                        out.append(implies(x, inst))
    res = list(dict.fromkeys(out))
    if depth > 1 and any(has_sub(r, lambda y: y.op == "all") for r in res):
        res += inst_alls([r for r in res if has_sub(r, lambda y: y.op == "all")], terms, depth - 1)
    return res


def exp_facts(ts):
    """ln is the inverse of exp and monotone: instances for the logarithms and exponentials that occur (at most 40 pairs)"""
    es, ls = [], []
    for t in ts:
        for x in subterms(t):
            if x.op == "app" and x.val in ("exp", "ln") and not any(isinstance(v.val, str) and v.val.startswith("#") for v in x.fv):
                l = es if x.val == "exp" else ls
                if x not in l: l.append(x)
    if not es or not ls or len(es) * len(ls) > 40: return []
    out = []
    for a in ls:
        u = a.args[0]
        for e in es:
            x = e.args[0]
            out.append(implies(and_(lt(rc(0), u), le(a, x)), le(u, e)))
            out.append(implies(and_(lt(rc(0), u), le(x, a)), le(e, u)))
    return out


def int_terms(goal):
    """candidate instantiation terms: integer subterms (free of bound variables) of the goal"""
    out = []
    for x in subterms(goal):
        if x.sort == "I" and x.op in ("var", "add", "c", "ite", "app") and not any(isinstance(v.val, str) and v.val.startswith("#") for v in x.fv):
            if x.op != "c":
                out.append(x)
    return sorted(set(out), key=lambda t: t.size)[:12]


def nonneg(t):
    """0 <= t by its shape: even powers, sums and products of such terms, square roots"""
    if t.op == "const" or is_c(t): return t.val >= 0
    if t.op == "mul":
        left = []
        for a in t.args:
            if a in left: left.remove(a)
            else: left.append(a)
        return all(nonneg(a) for a in left)
    if t.op == "add": return all(nonneg(a) for a in t.args)
    if t.op == "sum": return nonneg(t.args[2])
    if t.op == "ite": return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == "div": return nonneg(t.args[0]) and nonneg(t.args[1])
    return t.op == "app" and t.val in ("sqrt", "exp")

def gen_divs(ts):
    """generalise quotients without bound variables to fresh numbers"""
    m = {}
    def go(t, memo):
        r = memo.get(t)
        if r is not None: return r
        if t.op == "div" and not any(isinstance(v.val, str) and v.val.startswith("#") for v in t.fv):
            r = m.setdefault(t, fresh("q", "R"))
        elif not t.args: r = t
        else: r = rebuild(t.op, tuple(go(a, memo) for a in t.args), t.sort, t.val)
        memo[t] = r
        return r
    memo = {}
    out = [go(t, memo) for t in ts]
    return out if m else None

def check(hyps, goal, timeout=8000, inst=(), sumlem=True, want_model=False, extra=(), depth=0, quick=False, cheap=False):
    """returns (verdict, info): verdict in proved / refuted / unknown.
    refuted carries a z3 model; info['exact'] tells whether no abstraction was involved."""
    key = (tuple(hyps), goal, quick, cheap, sumlem, tuple(inst), tuple(getattr(x, "key", x) for x in extra))
    r = _memo.get(key)
    if r is not None: return r
    if goal.op == "le" and is_c(goal.args[0]) and goal.args[0].val <= 0 and goal.args[1].op in ("sum", "mul", "add") and nonneg(goal.args[1]):
        return ("proved", {"by": "sum of squares"})
    t0 = time.time()
    STATS["queries"] += 1
    if not quick and depth == 0: hyps = list(hyps) + exp_facts(list(hyps) + [goal])
    try:
        _bud[0] = 60
        if quick:
            r = quick_check(hyps, goal, timeout)
        else:
            r = _check(hyps, goal, timeout, inst, sumlem, extra, depth, cheap)
            if r[0] == "refuted" and depth == 0 and not cheap and goal is not FALSE:
                # the hypotheses that do not bear on the goal may still make the path impossible
                kept = set(relevant(hyps, goal))
                rest = [h for h in hyps if h not in kept]
                if rest and not satisfiable(rest, 1000): r = ("proved", {"by": "unreachable"})
    finally:
        STATS["time"] += time.time() - t0
    if r[0] == "proved": _memo[key] = r
    elif quick: _memo[key] = r
    return r

_memo = {}
_bud = [60]


_ns = {}
def nsum(t):
    """put every real term that contains a sum into normal form (linearity of sums)"""
    r = _ns.get(t)
    if r is not None:
        return r
    if t.op in ("c", "var") or not has_sub(t, lambda x: x.op == "sum"):
        r = t
    elif t.sort == "R":
        try:
            r = norm(t)
        except PolyBlow:
            r = t
    elif t.op in ("all",):
        r = t
    else:
        r = rebuild(t.op, tuple(nsum(a) for a in t.args), t.sort, t.val)
    _ns[t] = r
    return r


def solve_for(c, v):
    """e such that the integer equation c says v == e"""
    d = sub(c.args[0], c.args[1])
    ms = d.args if d.op == "add" else (d,)
    hit = [m for m in ms if v in m.fv]
    if len(hit) != 1: return None
    m = hit[0]
    if m is v: sg = 1
    elif m.op == "mul" and len(m.args) == 2 and is_c(m.args[0]) and abs(m.args[0].val) == 1 and m.args[1] is v: sg = m.args[0].val
    else: return None
    rest = [o for o in ms if o is not m]
    e = add(*rest) if rest else ic(0)
    return neg(e) if sg == 1 else e
def solve_eq(c, keep=()):
    """x == e  ->  (x, e) for an integer variable x that does not occur in e"""
    d = sub(c.args[0], c.args[1])
    ms = d.args if d.op == "add" else (d,)
    best = None
    for m in ms:
        v, s = (m, 1) if m.op == "var" else ((m.args[1], m.args[0].val) if m.op == "mul" and len(m.args) == 2 and is_c(m.args[0]) and abs(m.args[0].val) == 1 and m.args[1].op == "var" else (None, 0))
        if v is None or v in keep or any(v in o.fv for o in ms if o is not m): continue
        rest = [o for o in ms if o is not m]
        e = add(*rest) if rest else ic(0)
        e = neg(e) if s == 1 else e
        # eliminate fresh (skolem) variables first
        rank = ("!" in v.val, v.val)
        if best is None or rank > best[0]: best = (rank, v, e)
    return (best[1], best[2]) if best else None

def elim_eqs(hyps, goal, inst, keep=()):
    hyps = [h for hh in hyps for h in conj(hh)]
    for _ in range(12):
        for h in hyps:
            if h.op == "eq" and h.args[0].sort == "I":
                r = solve_eq(h, keep)
                if r: break
        else:
            break
        m = {r[0]: r[1]}
        hyps = [x for x in (subst(x, m) for x in hyps) if x is not TRUE]
        hyps = [h for hh in hyps for h in conj(hh)]
        goal = subst(goal, m)
        inst = [subst(t, m) for t in inst]
    return hyps, goal, inst

def _check(hyps, goal, timeout, inst, sumlem, extra, depth, cheap=False):
    hyps, goal, inst = elim_eqs(hyps, goal, inst, frozenset().union(*[getattr(x, "fv", frozenset()) for x in extra]))
    goal = nsum(goal)
    hyps = [nsum(h) for h in hyps]
    if goal is TRUE:
        STATS["alg"] += 1
        return "proved", {"by": "simplification"}
    # structural goals
    if goal.op == "and":
        infos = []
        for g in conj(goal):
            v, i = _check(hyps, g, timeout, inst, sumlem, extra, depth)
            if v != "proved":
                i["conjunct"] = g
                return v, i
            infos.append(i)
        return "proved", {"by": "+".join(sorted(set(i["by"] for i in infos)))}
    if goal.op == "all":
        lo, hi, body = goal.args
        k = fresh("sk", "I")
        return _check(list(hyps) + [le(lo, k), lt(k, hi)], subst(body, {goal.val: k}), timeout, list(inst) + [k], sumlem, extra, depth)
    if goal.op == "eq" and goal.args[0].sort == "R":
        d = sub(goal.args[0], goal.args[1])
        if poly_zero(d):
            STATS["alg"] += 1
            return "proved", {"by": "polynomial identity"}
        if not has_sub(d, lambda x: x.op in ("ite", "sum")) and rational_zero(d):
            STATS["alg"] += 1
            return "proved", {"by": "rational identity"}
    if goal.op == "or" or (goal.op == "not" and goal.args[0].op == "and"):
        # refute side literals into hypotheses
        ds = disj(goal)
        if len(ds) > 1:
            hs = set(x for hh in hyps for x in conj(hh))
            keep, new = [], []
            for d in ds:
                nd = not_(d)
                if d in hs: return "proved", {"by": "hypothesis"}
                if nd in hs: continue
                keep.append(d)
            main = [d for d in keep if d.op in ("eq", "le", "lt") and d.args[0].sort == "R"] or keep[-1:]
            if keep and len(main) == 1:
                new = [not_(d) for d in keep if d is not main[0]]
                if new or len(keep) < len(ds):
                    r = _check(list(hyps) + new, main[0], timeout, inst, sumlem, extra, depth, cheap)
                    kept = set(relevant(list(hyps) + new, main[0]))
                    if r[0] == "proved" or all(h in kept for h in new): return r
    if goal.op == "eq" and goal.args[0].sort == "R" and not cheap and goal.size < 6000:
        try:
            if eq_alg(hyps, sub(goal.args[0], goal.args[1]), inst, [0]):
                STATS["alg"] += 1
                return "proved", {"by": "case split + rational identity"}
        except PolyBlow:
            pass
    if goal.op == "le" and goal.args[0].sort == "R" and goal.size < 4000:
        d = sub(goal.args[1], goal.args[0])
        try:
            if not has_sub(d, lambda x: x.op in ("ite", "sum")) and rational_zero(d):
                STATS["alg"] += 1
                return "proved", {"by": "rational identity"}
        except PolyBlow:
            pass
    hyps = [h for hh in hyps for h in conj(hh)]
    its = list(dict.fromkeys(list(inst) + int_terms(goal)))
    hyps = hyps + inst_alls(hyps, its)
    terms = hyps + [goal]
    xs = []
    for ax in extra:
        terms2 = [nsum(x) for x in ax(terms)]
        hyps = hyps + terms2
        xs += terms2
    lem = []
    if sumlem:
        lem = sum_lemmas(hyps, goal, timeout, inst, depth, extra, xs)
    allh = hyps + lem
    nonlin = any(has_sub(h, lambda x: x.op in ("div",) or (x.op == "mul" and sum(1 for a in x.args if not is_c(a)) > 1)
                         or (x.op == "app" and x.val == "sqrt")) for h in relevant(allh, goal) + [goal])
    best = None
    plan = [("smt", timeout)] if cheap else ([("smt", 600), ("nlsat", 1500), ("smt2", 600), ("smt", timeout), ("nlsat", timeout), ("cvc5", timeout)] if nonlin else [("smt", timeout), ("cvc5", timeout)])
    for strat, tmo in plan:
        v, i = _solve(strat, allh, goal, min(tmo, timeout))
        if v == "proved":
            STATS[{"smt": "z3", "smt2": "z3", "nlsat": "nlsat", "cvc5": "cvc5"}[strat]] += 1
            return v, i
        if v == "refuted":
            i["sums"] = len(lem)
            return v, i
        best = i
    STATS["timeouts"] += 1
    return "unknown", best or {"by": "none"}


def disj(g):
    if g.op == "or": return [x for a in g.args for x in disj(a)]
    if g.op == "not" and g.args[0].op == "and": return [x for a in g.args[0].args for x in disj(not_(a))]
    return [g]

def find_cond(t, seen=None):
    """an ite condition that mentions no bound variable"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "ite" and not any(isinstance(v.val, str) and v.val.startswith("#") for v in x.args[0].fv):
            if not has_sub(x.args[0], lambda y: y.op == "ite"): return x.args[0]
        st.extend(x.args)
    return None

def set_cond(t, c, val, memo):
    r = memo.get(t)
    if r is not None: return r
    if not t.args: r = t
    elif t.op == "ite" and t.args[0] is c: r = set_cond(t.args[1 if val else 2], c, val, memo)
    elif t.op == "ite" and t.args[0] is not_(c): r = set_cond(t.args[2 if val else 1], c, val, memo)
    else: r = rebuild(t.op, tuple(set_cond(a, c, val, memo) for a in t.args), t.sort, t.val)
    memo[t] = r
    return r

def eq_alg(hyps, d, inst, cnt):
    """d = 0 by splitting on conditions, rewriting with equalities between atoms, and
    rational identities (sums are atoms)"""
    d = nsum(d)
    c = find_cond(d)
    if c is not None:
        for val in (True, False):
            cc = c if val else not_(c)
            if not has_real(c):
                if quick_check(hyps, not_(cc), 400)[0] == "proved": continue
            elif not_(cc) in hyps: continue
            cnt[0] += 1
            if cnt[0] > 24: return False
            d2 = set_cond(d, c, val, {})
            if not eq_alg(list(hyps) + [cc], d2, inst, cnt): return False
        return True
    if poly_zero(d) or rational_zero(d): return True
    d1 = peel_sums(hyps, d)
    if d1 is not d:
        d = nsum(d1)
        if poly_zero(d) or rational_zero(d): return True
    hs = [h for hh in hyps for h in conj(hh)]
    # integer equalities of the case
    h2, g2, _ = elim_eqs(hs, eq(d, rc(0)), inst)
    if g2 is TRUE: return True
    if g2.op == "eq":
        d = nsum(sub(g2.args[0], g2.args[1]))
        d1 = peel_sums(h2, d)
        if d1 is not d: d = nsum(d1)
        if poly_zero(d) or rational_zero(d): return True
    eqs = {}
    def find(x):
        while x in eqs: x = eqs[x]
        return x
    atoms = ("app", "var", "sum")
    for h in list(h2) + plain_insts(h2, int_terms(eq(d, rc(0)))[:6], set(x.val for x in subterms(d) if x.op == "app")):
        for e in conj(h):
            if e.op == "eq" and e.args[0].sort == "R":
                a, b = find(e.args[0]), find(e.args[1])
                if a.op == "c": a, b = b, a
                if a is not b and a.op in atoms and (b.op in atoms or b.op == "c"):
                    if b.op != "c" and a.id < b.id: a, b = b, a
                    eqs[a] = b
    if not eqs: return poly_zero(d)
    memo = {}
    def rw(t):
        r = memo.get(t)
        if r is not None: return r
        if t in eqs: r = rw(find(t))
        elif not t.args: r = t
        else: r = rebuild(t.op, tuple(rw(a) for a in t.args), t.sort, t.val) if t.op not in ("sum", "all") else t
        memo[t] = r
        return r
    d2 = nsum(rw(d))
    return poly_zero(d2) or rational_zero(d2)

def peel_sums(hyps, d):
    """bring sums over the same body whose bounds differ by a small constant to the shortest one"""
    ss = [x for x in subterms(d) if x.op == "sum" and not any(isinstance(v.val, str) and v.val.startswith("#") for v in x.fv)]
    m = {}
    ok = lambda g: quick_check(hyps, g, 300)[0] == "proved"
    for a in ss:
        best = None
        for b in ss:
            if a is b or a.args[2] is not b.args[2] or a.args[0] is not b.args[0]: continue
            df = sub(a.args[1], b.args[1])
            if is_c(df) and 0 < df.val <= 4 and (best is None or df.val > best[0]): best = (df.val, b)
        if best and ok(le(a.args[0], best[1].args[1])):
            b = best[1]
            m[a] = add(b, *[subst(a.args[2], {a.val: add(b.args[1], ic(t))}) for t in range(best[0])])
    # empty and one-sided sums
    for a in ss:
        if a in m: continue
        ln = sub(a.args[1], a.args[0])
        if is_c(ln) and ln.val <= 4:
            m[a] = add(rc(0), *[subst(a.args[2], {a.val: add(a.args[0], ic(t))}) for t in range(max(0, ln.val))])
    if not m: return d
    memo = {}
    def rw(t):
        r = memo.get(t)
        if r is not None: return r
        if t in m: r = m[t]
        elif not t.args: r = t
        elif t.op in ("sum", "all"): r = t
        else: r = rebuild(t.op, tuple(rw(a) for a in t.args), t.sort, t.val)
        memo[t] = r
        return r
    return rw(d)

def plain_insts(hyps, terms, syms):
    """instances of bounded foralls whose guards follow from the integer hypotheses"""
    out = []
    cache = {}
    ints = [h for h in hyps if not has_real(h)]
    def guard(lo, hi, t):
        k = (lo, hi, t)
        if k not in cache:
            cache[k] = quick_check(ints, and_(le(lo, t), lt(t, hi)), 300)[0] == "proved"
        return cache[k]
    def go(x, d):
        if x.op == "all":
            if d > 2: return
            lo, hi, body = x.args
            for t in terms:
                if guard(lo, hi, t): 
                    for y in conj(subst(body, {x.val: t})): go(y, d + 1)
        else:
            out.append(x)
    for h in hyps:
        if h.op == "all" and any(x.op == "app" and x.val in syms for x in subterms(h)): go(h, 0)
    return out

def relevant(hyps, goal):
    """hypotheses sharing (transitively) a variable or function with the goal"""
    syms = lambda t: set(x.val for x in subterms(t) if x.op in ("var", "app") and x.val not in ("sqrt", "exp", "ln"))
    hs = [(h, syms(h)) for h in hyps]
    s = syms(goal)
    if not s: return list(hyps)
    out = set()
    ch = True
    while ch:
        ch = False
        for i, (h, hsy) in enumerate(hs):
            if i not in out and (hsy & s or not hsy):
                out.add(i)
                s |= hsy
                ch = True
    return [hs[i][0] for i in sorted(out)]


def _solve(strat, hyps, goal, timeout):
    hyps = relevant(hyps, goal)
    e = Enc()
    zs = [e.go(h) for h in hyps]
    g = e.go(goal)
    fs = zs + [z3.Not(g)] + e.side
    exact = e.exact
    if strat == "cvc5":
        return _cvc5(fs, timeout, exact)
    if strat == "nlsat":
        if e.funs and any(True for k in e.funs):
            fs2 = ackermann(fs)
            if fs2 is None:
                return "unknown", {"by": "nlsat: skipped"}
            fs = fs2
        try:
            tac = z3.Then(z3.With("simplify", elim_and=True), "purify-arith", "propagate-values", "solve-eqs", "elim-term-ite", "tseitin-cnf", "nlsat")
            s = tac.solver()
        except z3.Z3Exception:
            return "unknown", {"by": "nlsat"}
    elif strat == "smt2":
        s = z3.SimpleSolver()
        s.set("arith.solver", 2)
    else:
        s = z3.SimpleSolver()
    s.set("timeout", int(timeout))
    for f in fs:
        s.add(f)
    try:
        r = s.check()
    except z3.Z3Exception as ex:
        return "unknown", {"by": strat, "reason": str(ex)}
    if r == z3.unsat:
        return "proved", {"by": "z3/" + strat}
    if r == z3.sat:
        m = s.model()
        return "refuted", {"by": "z3/" + strat, "model": m, "exact": exact, "enc": e}
    return "unknown", {"by": "z3/" + strat, "reason": s.reason_unknown()}


def ackermann(fs):
    """replace uninterpreted applications by fresh constants + functional consistency;
    only done when few applications occur"""
    apps = {}
    seen = set()
    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        for c in x.children():
            walk(c)
        if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            apps.setdefault(x.decl(), {})[x.get_id()] = x
    for f in fs:
        walk(f)
    tot = sum(len(v) for v in apps.values())
    if tot == 0:
        return fs
    if tot > 40:
        return None
    subs = []
    cons = []
    k = 0
    for d, xs in apps.items():
        xs = list(xs.values())
        cs = []
        for x in xs:
            c = z3.Const("ack!%d" % k, x.sort())
            k += 1
            cs.append(c)
            subs.append((x, c))
        for i in range(len(xs)):
            for j in range(i):
                a = [p == q for p, q in zip(xs[i].children(), xs[j].children())]
                cons.append(z3.Implies(z3.And(a), cs[i] == cs[j]))
    # innermost-first replacement: apply repeatedly
    subs.sort(key=lambda p: -len(p[0].sexpr()))
    out = [z3.substitute(f, *subs) for f in fs + cons]
    return out


def _cvc5(fs, timeout, exact):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    try:
        p = subprocess.run(["cvc5", "--lang", "smt2", "--nl-cov", "--tlimit=%d" % int(timeout)], input=txt, capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else ""
    except Exception:
        return "unknown", {"by": "cvc5"}
    if out == "unsat":
        return "proved", {"by": "cvc5"}
    return "unknown", {"by": "cvc5", "reason": out}


def sum_lemmas(hyps, goal, timeout, inst, depth, extra, xs=()):
    """unfolding instances for the sums of goal/hyps, and proved extensionality equalities"""
    gs = sums_in([goal] + list(xs))
    if not gs:
        return []
    hs = relevant(hyps, goal)
    allsums = list(dict.fromkeys(gs + sums_in(hs)))[:24]
    lem = []
    done = set()
    def unfold(s):
        if s in done:
            return
        done.add(s)
        lo, hi, body = s.args
        bv = s.val
        h1 = sub(hi, ic(1))
        lem.append(implies(le(hi, lo), eq(s, rc(0))))
        lem.append(implies(lt(lo, hi), eq(s, add(sum_(bv, lo, h1, body), subst(body, {bv: h1})))))
        if not is_c(lo) or True:
            lem.append(implies(lt(lo, hi), eq(s, add(sum_(bv, add(lo, ic(1)), hi, body), subst(body, {bv: lo})))))
    for s in allsums:
        unfold(s)
    new = [s for s in sums_in(lem) if s not in allsums][:24]
    for s in new:
        lo, hi, body = s.args
        lem.append(implies(le(hi, lo), eq(s, rc(0))))
    if depth == 0 and goal.op in ("lt", "le", "not"):
        for s in allsums[:8]:
            lo, hi, body = s.args
            k = fresh("e", "I")
            v, _ = _check(hs + [le(lo, k), lt(k, hi)], le(rc(0), subst(body, {s.val: k})), 400, list(inst) + [k], False, extra, depth + 1, True)
            if v == "proved": lem.append(le(rc(0), s))
    if depth < 2:
        cand = list(dict.fromkeys(allsums + new))
        for i in range(len(cand)):
            for j in range(i):
                a, b = cand[i], cand[j]
                if a.args[2] is b.args[2]:
                    continue
                # same shape of bounds after substitution?
                if sub(a.args[1], a.args[0]) is not sub(b.args[1], b.args[0]):
                    continue
                k = fresh("e", "I")
                ba = subst(a.args[2], {a.val: k})
                bb = subst(b.args[2], {b.val: add(k, sub(b.args[0], a.args[0]))})
                if not compatible(ba, bb):
                    continue
                if _bud[0] <= 0: continue
                _bud[0] -= 1
                v, _ = _check(hs + [le(a.args[0], k), lt(k, a.args[1])], eq(ba, bb), min(timeout, 2000), list(inst) + [k], True, extra, depth + 1)
                if v == "proved":
                    lem.append(eq(a, b))
    return lem


def compatible(a, b):
    fa = set(x.val for x in subterms(a) if x.op == "app")
    fb = set(x.val for x in subterms(b) if x.op == "app")
    return bool(fa & fb) or (not fa and not fb)


def satisfiable(hyps, timeout=3000):
    """quick feasibility test used to prune paths: False only if definitely unsat"""
    hyps = [h for hh in hyps for h in conj(hh)]
    if FALSE in hyps:
        return False
    e = Enc()
    s = z3.SimpleSolver()
    s.set("timeout", timeout)
    for h in hyps:
        s.add(e.go(h))
    for x in e.side:
        s.add(x)
    return s.check() != z3.unsat


def quick_check(hyps, goal, timeout):
    """linear integer side conditions only: one incremental z3 call on the hypotheses that
    mention integers"""
    hs = [h for hh in hyps for h in conj(hh) if h.op in ("le", "lt", "eq", "not", "or", "and", "var", "all") and not has_real(h)]
    if goal in hs: return "proved", {"by": "hypothesis"}
    e = Enc()
    s = z3.SimpleSolver()
    s.set("timeout", int(timeout))
    for h in hs: s.add(e.go(h))
    s.add(z3.Not(e.go(goal)))
    for x in e.side: s.add(x)
    r = s.check()
    return ("proved" if r == z3.unsat else "unknown"), {"by": "z3"}

_hr = {}
def has_real(t):
    r = _hr.get(t)
    if r is None:
        r = t.sort == "R" or any(has_real(a) for a in t.args)
        _hr[t] = r
    return r
