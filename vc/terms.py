"""Hash-consed first-order terms (reals, integers, booleans, uninterpreted sorts)
with bounded sums, a polynomial/rational normal form, and the translation to SMT."""
from fractions import Fraction as Fr

class T:
    __slots__ = ("op", "args", "sort", "val", "id", "fv", "_poly", "depth", "size")
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_tab = {}
_next = [0]

def mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        t.id = _next[0]
        _next[0] += 1
        t._poly = None
        t.size = 1 + sum(a.size for a in args)
        d = 0
        for a in args:
            if a.depth > d:
                d = a.depth
        if op in ("sum", "all"):
            d += 1
        t.depth = d
        fv = frozenset()
        for a in args:
            if a.fv:
                fv = fv | a.fv
        if op == "var":
            fv = frozenset([t])
        if op in ("sum", "all"):
            fv = fv - frozenset([val])
        t.fv = fv
        _tab[key] = t
    return t

def rc(x):
    return mk("c", (), "R", Fr(x))
def ic(x):
    return mk("c", (), "I", int(x))
TRUE = mk("c", (), "B", True)
FALSE = mk("c", (), "B", False)
def bc(b):
    return TRUE if b else FALSE
def var(name, sort="R"):
    return mk("var", (), sort, name)
_fresh = [0]
def fresh(prefix="v", sort="R"):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)
def is_c(t):
    return t.op == "c"

def app(f, args, sort):
    return mk("app", tuple(args), sort, f)

def coerce(a, b):
    if a.sort == b.sort:
        return a, b
    if a.sort == "I" and b.sort == "R":
        return toreal(a), b
    if a.sort == "R" and b.sort == "I":
        return a, toreal(b)
    raise TypeError("sorts %s %s in %r / %r" % (a.sort, b.sort, a, b))

def toreal(a):
    if a.sort == "R":
        return a
    if is_c(a):
        return rc(a.val)
    if a.op == "add":
        return add(*[toreal(x) for x in a.args])
    if a.op == "mul":
        return mul(*[toreal(x) for x in a.args])
    if a.op == "ite":
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    return mk("toreal", (a,), "R")

def add(*xs):
    s = "R" if any(x.sort == "R" for x in xs) else "I"
    if s == "R":
        xs = [toreal(x) for x in xs]
    c = 0
    coef = {}
    order = []
    def put(t, k):
        if t not in coef:
            order.append(t)
            coef[t] = 0
        coef[t] += k
    def go(x, k):
        nonlocal c
        if is_c(x):
            c += x.val * k
        elif x.op == "add":
            for y in x.args:
                go(y, k)
        elif x.op == "mul" and is_c(x.args[0]):
            rest = x.args[1:]
            go(rest[0] if len(rest) == 1 else mk("mul", rest, x.sort), k * x.args[0].val)
        else:
            put(x, k)
    for x in xs:
        go(x, 1)
    out = []
    cc = (lambda v: rc(v)) if s == "R" else (lambda v: ic(v))
    for t in sorted((t for t in order if coef[t] != 0), key=lambda t: t.id):
        k = coef[t]
        out.append(t if k == 1 else _cmul(cc(k), t, s))
    if c != 0 or not out:
        out.append(cc(c))
    if len(out) == 1:
        return out[0]
    return mk("add", out, s)

def _cmul(c, t, s):
    if t.op == "mul":
        if is_c(t.args[0]):
            v = c.val * t.args[0].val
            cc = rc(v) if s == "R" else ic(v)
            return mk("mul", (cc,) + t.args[1:], s) if v != 1 else (t.args[1] if len(t.args) == 2 else mk("mul", t.args[1:], s))
        return mk("mul", (c,) + t.args, s)
    return mk("mul", (c, t), s)

def mul(*xs):
    s = "R" if any(x.sort == "R" for x in xs) else "I"
    if s == "R":
        xs = [toreal(x) for x in xs]
    c = 1
    fs = []
    def go(x):
        nonlocal c
        if is_c(x):
            c *= x.val
        elif x.op == "mul":
            for y in x.args:
                go(y)
        else:
            fs.append(x)
    for x in xs:
        go(x)
    cc = rc if s == "R" else ic
    if c == 0:
        return cc(0)
    fs.sort(key=lambda t: t.id)
    if not fs:
        return cc(c)
    if len(fs) == 1 and fs[0].op == "add":
        # distribute constants over sums, keeps linear terms canonical
        if c == 1:
            return fs[0]
        return add(*[mul(cc(c), y) for y in fs[0].args])
    if len(fs) == 1:
        return fs[0] if c == 1 else mk("mul", (cc(c), fs[0]), s)
    if s == "I" and any(f.op == "add" for f in fs) :
        # integer index arithmetic: fully distribute
        a = next(f for f in fs if f.op == "add")
        rest = list(fs)
        rest.remove(a)
        return add(*[mul(cc(c), y, *rest) for y in a.args])
    return mk("mul", ((cc(c),) if c != 1 else ()) + tuple(fs), s)

def neg(x):
    return mul(rc(-1) if x.sort == "R" else ic(-1), x)
def sub(a, b):
    return add(a, neg(b))
def div(a, b):
    a, b = toreal(a), toreal(b)
    if is_c(b) and b.val != 0:
        return mul(rc(1 / Fr(b.val)), a)
    if is_c(a) and a.val == 0:
        return a
    return mk("div", (a, b), "R")

def _idiff(a, b):
    return sub(a, b)

def lt(a, b):
    a, b = coerce(a, b)
    if is_c(a) and is_c(b):
        return bc(a.val < b.val)
    if a is b:
        return FALSE
    if a.sort == "I":
        d = sub(b, a)
        if is_c(d):
            return bc(d.val > 0)
        return le(add(a, ic(1)), b)
    d = sub(b, a)
    if is_c(d):
        return bc(d.val > 0)
    return mk("lt", (a, b), "B")
def le(a, b):
    a, b = coerce(a, b)
    if is_c(a) and is_c(b):
        return bc(a.val <= b.val)
    if a is b:
        return TRUE
    d = sub(b, a)
    if is_c(d):
        return bc(d.val >= 0)
    return mk("le", (a, b), "B")
def eq(a, b):
    if a is b:
        return TRUE
    if a.sort in ("R", "I") and b.sort in ("R", "I"):
        a, b = coerce(a, b)
        d = sub(a, b)
        if is_c(d):
            return bc(d.val == 0)
    elif is_c(a) and is_c(b):
        return bc(a.val == b.val)
    if a.sort == "B":
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")
def not_(a):
    if is_c(a):
        return bc(not a.val)
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")
def and_(*xs):
    out = []
    seen = set()
    def go(x):
        if x is TRUE:
            return True
        if x is FALSE:
            return False
        if x.op == "and":
            return all([go(y) for y in x.args])
        if x not in seen:
            seen.add(x)
            out.append(x)
        return True
    for x in xs:
        if not go(x):
            return FALSE
    for x in out:
        if not_(x) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out, "B")
def or_(*xs):
    return not_and([not_(x) for x in xs])
def not_and(xs):
    a = and_(*xs)
    if a.op == "and":
        return mk("or", tuple(not_(x) for x in a.args), "B")
    return not_(a)
def implies(a, b):
    return or_(not_(a), b)
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = coerce(a, b)
        if a is b:
            return a
    if a.sort == "B":
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if b is FALSE: return and_(c, a)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    return mk("ite", (c, a, b), a.sort)

def bvar(d):
    return var("#%d" % d, "I")

def sum_(bv, lo, hi, body):
    """Sum_{bv=lo}^{hi-1} body.  alpha-canonical: bound variable is #depth."""
    body = toreal(body)
    if is_c(body) and body.val == 0:
        return rc(0)
    if is_c(lo) and is_c(hi):
        if hi.val <= lo.val:
            return rc(0)
        if hi.val - lo.val <= 24:
            return add(*[subst(body, {bv: ic(i)}) for i in range(lo.val, hi.val)])
    d = body.depth + 1
    c = bvar(d)
    while c is not bv and c in body.fv:
        d += 1
        c = bvar(d)
    if bv is not c:
        body = subst(body, {bv: c})
    return mk("sum", (lo, hi, body), "R", c)

def forall(bv, lo, hi, body):
    """forall integers bv in [lo,hi): body"""
    if body is not TRUE and bv.op == "var" and bv not in lo.fv and bv not in hi.fv:
        taut = (le(lo, bv), lt(bv, hi))
        if body.op == "and": body = and_(*[x for x in body.args if x not in taut])
        elif body in taut: return TRUE
    if body is TRUE:
        return TRUE
    if is_c(lo) and is_c(hi) and hi.val - lo.val <= 24:
        return and_(*[subst(body, {bv: ic(i)}) for i in range(lo.val, hi.val)])
    d = body.depth + 1
    c = bvar(d)
    while c is not bv and c in body.fv:
        d += 1
        c = bvar(d)
    if bv is not c:
        body = subst(body, {bv: c})
    return mk("all", (lo, hi, body), "B", c)

def rebuild(op, args, sort, val):
    if op == "add": return add(*args)
    if op == "mul": return mul(*args)
    if op == "div": return div(*args)
    if op == "lt": return lt(*args)
    if op == "le": return le(*args)
    if op == "eq": return eq(*args)
    if op == "not": return not_(*args)
    if op == "and": return and_(*args)
    if op == "or": return or_(*args)
    if op == "ite": return ite(*args)
    if op == "toreal": return toreal(*args)
    if op == "sum": return sum_(val, *args)
    if op == "all": return forall(val, *args)
    if op == "app": return mkapp(val, args, sort)
    return mk(op, args, sort, val)

# simplifying constructors for interpreted applications
def mkapp(f, args, sort):
    h = INTERP.get(f)
    if h:
        return h(*args)
    return app(f, args, sort)

import math
def sqrt_(a):
    a = toreal(a)
    if is_c(a) and a.val >= 0:
        n, d = a.val.numerator, a.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return rc(Fr(rn, rd))
    return app("sqrt", (a,), "R")
def abs_(a):
    z = rc(0) if a.sort == "R" else ic(0)
    if is_c(a):
        return rc(abs(a.val)) if a.sort == "R" else ic(abs(a.val))
    return ite(le(z, a), a, neg(a))
def exp_(a):
    if is_c(a) and a.val == 0:
        return rc(1)
    if a.op == "app" and a.val == "ln":
        return app("exp", (a,), "R")
    return app("exp", (a,), "R")
def ln_(a):
    if is_c(a) and a.val == 1:
        return rc(0)
    return app("ln", (a,), "R")
def floor_(a):
    if is_c(a):
        return ic(math.floor(a.val))
    if a.op == "toreal":
        return a.args[0]
    return app("floor", (a,), "I")
INTERP = {"sqrt": sqrt_, "exp": exp_, "ln": ln_, "floor": floor_}

def subst(t, m, memo=None):
    """substitute variables (T var -> T)"""
    if not m:
        return t
    keys = frozenset(m)
    memo = {} if memo is None else memo
    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "var":
            r = m.get(t, t)
        elif t.op in ("sum", "all") :
            # capture avoidance: bound var names are depth-indexed; rename if needed
            bv = t.val
            f = fresh("b", "I")
            body = subst(t.args[2], {bv: f})
            lo, hi = go(t.args[0]), go(t.args[1])
            r = rebuild(t.op, (lo, hi, go(body)), t.sort, f)
        else:
            r = rebuild(t.op, tuple(go(a) for a in t.args), t.sort, t.val)
        memo[t] = r
        return r
    return go(t)

def subst_app(t, fm, memo=None):
    """replace applications f(args) by fm[f](*args)"""
    memo = {} if memo is None else memo
    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "app" and t.val in fm:
            r = fm[t.val](*[go(a) for a in t.args])
        elif not t.args:
            r = t
        elif t.op in ("sum", "all"):
            bv = t.val
            f = fresh("b", "I")
            body = go(subst(t.args[2], {bv: f}))
            r = rebuild(t.op, (go(t.args[0]), go(t.args[1]), body), t.sort, f)
        else:
            na = tuple(go(a) for a in t.args)
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na, t.sort, t.val)
        memo[t] = r
        return r
    return go(t)

def apps_in(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            acc.add(x.val)
        st.extend(x.args)
    return acc

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen

def has_sub(t, pred):
    return any(pred(x) for x in subterms(t))

def show(t, d=0):
    if d > 12:
        return "..."
    o = t.op
    s = lambda x: show(x, d + 1)
    if o == "c":
        return str(t.val)
    if o == "var":
        return str(t.val)
    if o == "add":
        return "(" + " + ".join(map(s, t.args)) + ")"
    if o == "mul":
        return "*".join(map(s, t.args))
    if o == "div":
        return "(%s / %s)" % tuple(map(s, t.args))
    if o in ("lt", "le", "eq"):
        return "(%s %s %s)" % (s(t.args[0]), {"lt": "<", "le": "<=", "eq": "=="}[o], s(t.args[1]))
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(map(s, t.args)) + ")"
    if o == "not":
        return "!" + s(t.args[0])
    if o == "ite":
        return "ite(%s, %s, %s)" % tuple(map(s, t.args))
    if o == "toreal":
        return s(t.args[0])
    if o == "app":
        return "%s(%s)" % (t.val, ", ".join(map(s, t.args)))
    if o in ("sum", "all"):
        return "%s[%s in %s..%s](%s)" % (o, t.val.val, s(t.args[0]), s(t.args[1]), s(t.args[2]))
    return o

# ---------------------------------------------------------------- polynomials
# Laurent polynomial over atoms: {mono: coef}, mono = tuple sorted of (atomT, exp)
class PolyBlow(Exception):
    pass

def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r

def m_mul(a, b):
    d = dict(a)
    for t, e in b:
        v = d.get(t, 0) + e
        if v:
            d[t] = v
        else:
            d.pop(t, None)
    return tuple(sorted(d.items(), key=lambda p: p[0].id))

LIMIT = 20000
def p_mul(a, b):
    r = {}
    if len(a) * len(b) > LIMIT * 10:
        raise PolyBlow()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise PolyBlow()
    return p_red(r)

def p_red(r):
    """sqrt(a)^2 -> a"""
    if not any(t.op == "app" and t.val == "sqrt" and abs(e) >= 2 for m in r for t, e in m):
        return r
    out = {}
    for m, c in r.items():
        base = {m_drop(m): c}
        for t, e in m:
            if t.op == "app" and t.val == "sqrt" and abs(e) >= 2:
                k = abs(e) // 2
                pa = poly(t.args[0])
                if e < 0:
                    pa = p_inv(pa)
                for _ in range(k):
                    base = p_mul(base, pa)
        out = p_add(out, base)
    return out

def m_drop(m):
    d = []
    for t, e in m:
        if t.op == "app" and t.val == "sqrt" and abs(e) >= 2:
            e = e % 2 if e > 0 else -((-e) % 2)
        if e:
            d.append((t, e))
    return tuple(d)

def p_const(c):
    return {(): Fr(c)} if c else {}

def p_atom(t):
    return {((t, 1),): Fr(1)}

def p_inv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((t, -e) for t, e in m): 1 / c}
    # normalise leading coefficient so that proportional denominators share an atom
    m0 = min(p, key=lambda m: [(t.id, e) for t, e in m])
    c0 = p[m0]
    q = {m: c / c0 for m, c in p.items()}
    t = from_poly(q)
    return {((t, -1),): 1 / c0}

def poly(t):
    """normal form of a real/int term; atoms: variables, applications, ites, sums,
    inverses of non-monomial polynomials (as (poly-term, -1))"""
    if t._poly is not None:
        return t._poly
    o = t.op
    if o == "c":
        r = p_const(t.val)
    elif o == "add":
        r = {}
        for a in t.args:
            r = p_add(r, poly(a))
    elif o == "mul":
        r = p_const(1)
        for a in t.args:
            r = p_mul(r, poly(a))
    elif o == "div":
        r = p_mul(poly(t.args[0]), p_inv(poly(t.args[1])))
    elif o == "sum":
        r = p_sum(t)
    elif o == "toreal":
        pi = poly(t.args[0])
        r = {}
        for m, c in pi.items():
            r[tuple(sorted(((mk("toreal", (a,), "R"), e) for a, e in m), key=lambda p: p[0].id))] = c
    elif o == "app" and t.val in ("sqrt", "exp", "ln", "cos"):
        r = p_atom(app(t.val, (norm(t.args[0]),), "R"))
    elif o == "app":
        r = p_atom(app(t.val, tuple(norm(a) if a.sort in ("R", "I") else a for a in t.args), t.sort))
    elif o == "ite":
        r = p_atom(ite(t.args[0], norm(t.args[1]), norm(t.args[2])))
    else:
        r = p_atom(t)
    t._poly = r
    return r

def p_sum(t):
    lo, hi, body = t.args
    bv = t.val
    lo, hi = norm(lo), norm(hi)
    pb = poly(body)
    out = {}
    for m, c in pb.items():
        outer, inner = [], []
        for a, e in m:
            (inner if bv in a.fv else outer).append((a, e))
        if not inner:
            # sum of a constant: (hi-lo) * c   (hi>=lo required; keep as explicit count atom)
            cnt = p_atom(mk("sum", (lo, hi, rc(1)), "R", bvar(1)))
            out = p_add(out, p_mul({tuple(outer): c}, cnt))
            continue
        ib = from_poly({tuple(inner): Fr(1)})
        at = sum_(bv, lo, hi, ib)
        pa = p_atom(at) if at.op == "sum" else poly(at)
        out = p_add(out, p_mul({tuple(sorted(outer, key=lambda p: p[0].id)): c}, pa))
    return out

def from_poly(p, sort="R"):
    ts = []
    for m, c in p.items():
        num = [rc(c) if sort == "R" else ic(c)]
        den = []
        for a, e in m:
            for _ in range(abs(e)):
                (num if e > 0 else den).append(a)
        n = mul(*num)
        if den:
            n = div(n, mul(*den))
        ts.append(n)
    return add(*ts) if ts else (rc(0) if sort == "R" else ic(0))

def norm(t):
    if t.sort == "I":
        return t     # integer terms are kept canonical by the constructors
    return from_poly(poly(t), "R")

def poly_zero(t):
    try:
        return not poly(t)
    except PolyBlow:
        return False

# rational functions: (num, den) pairs of polynomials with nonnegative exponents
def ratio(t, memo=None):
    """num/den polynomials; divisions by sums are cleared; returns (P, Q)"""
    memo = {} if memo is None else memo
    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "add":
            n, d = {}, p_const(1)
            for a in t.args:
                n2, d2 = go(a)
                if d == d2:
                    n = p_add(n, n2)
                else:
                    n = p_add(p_mul(n, d2), p_mul(n2, d))
                    d = p_mul(d, d2)
            r = (n, d)
        elif t.op == "mul":
            n, d = p_const(1), p_const(1)
            for a in t.args:
                n2, d2 = go(a)
                n, d = p_mul(n, n2), p_mul(d, d2)
            r = (n, d)
        elif t.op == "div":
            n1, d1 = go(t.args[0])
            n2, d2 = go(t.args[1])
            r = (p_mul(n1, d2), p_mul(d1, n2))
        elif t.op == "app" and t.val == "sqrt":
            r = (p_atom(t), p_const(1))
        else:
            r = (poly(t), p_const(1))
        memo[t] = r
        return r
    return go(t)

def _sq_reduce(p):
    """fully expand even powers of sqrt atoms whose argument may itself be rational"""
    for _ in range(20):
        if not any(t.op == "app" and t.val == "sqrt" and abs(e) >= 2 for m in p for t, e in m):
            return p
        p = p_red(p)
    return p

def rational_zero(t):
    """is t identically 0 as an algebraic function (sqrt(a)^2=a, x/x=1)?  Sound under
    the definedness obligations (divisors non-zero, sqrt arguments non-negative)."""
    try:
        n, d = ratio(t)
        n = _sq_reduce(n)
        # clear negative exponents that remain
        for _ in range(6):
            neg = {}
            for m in n:
                for a, e in m:
                    if e < 0:
                        neg[a] = max(neg.get(a, 0), -e)
            if not neg:
                break
            f = p_const(1)
            q = {tuple(sorted(((a, e) for a, e in neg.items()), key=lambda p: p[0].id)): Fr(1)}
            n2 = {}
            for m, c in n.items():
                d0 = dict(m)
                term = {tuple((a, e) for a, e in m if not (a in neg)): c}
                for a in neg:
                    e = d0.get(a, 0) + neg[a]
                    if e:
                        pa = poly(a) if a.op == "add" else p_atom(a)
                        for _ in range(e):
                            term = p_mul(term, pa)
                n2 = p_add(n2, term)
            n = _sq_reduce(n2)
        return not n
    except PolyBlow:
        return False
