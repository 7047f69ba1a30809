"""Contracts of the Arr type: every operation, entry by entry, for all shapes.  The operations are reached through
small probe expressions (parsed like the crate itself), so the operator and borrow form selects the real impl."""
from unit import *
import rustparse
def ref(ex, v): return Ref(Place(ex.new_cell(v)))
def probe(src):
    m = rustparse.Module("probe", "probe")
    rustparse.items(rustparse.P(rustparse.lex("fn probe" + src)), m, False)
    f = m.fns["probe"]
    f.module = "probe"
    return f
X, Y, M = F("x"), F("y"), F("m")
s_ = var("s", "R")
def AB(c, ex):
    n = c.n
    return c.vec("x", n), c.vec("y", n)
def shape_is(c, o, v, rows, cols, ln, what):
    v = o.val(v)
    c.post(o, what + " has the specified shape", and_(eq(v.fs["rows"], rows), eq(v.fs["cols"], cols)), what)
    c.post(o, what + " has the specified number of entries", eq(o.len(v), ln), what)
def entries(c, o, v, lo, hi, f, what, name="has the specified entries"):
    if is_c(lo) and is_c(hi):
        for i in range(lo.val, hi.val): c.post(o, "%s %s" % (what, name), eq(o.at(v, i), f(ic(i))), what)
        return
    i = fresh("i", "I")
    c.post(o, "%s %s" % (what, name), eq(o.at(v, i), f(i)), what, [i], [le(lo, i), lt(i, hi)])
def entries2(c, o, v, r, q, f, what, name="has the specified entries"):
    if is_c(r) and is_c(q):
        for i in range(r.val):
            for j in range(q.val): c.post(o, "%s %s" % (what, name), eq(o.at(v, i, j), f(ic(i), ic(j))), what)
        return
    i, j = fresh("i", "I"), fresh("j", "I")
    c.post(o, "%s %s" % (what, name), eq(o.at(v, i, j), f(i, j)), what, [i, j], [le(ic(0), i), lt(i, r), le(ic(0), j), lt(j, q)])
def refuses(c, fn, mk, pre, what):
    """no execution with these arguments returns"""
    ex = Ex(c.crate, opts={"abs": {}})
    ob = ex.oblige
    def oblige(name, kind, goal, *a, **k):
        ob(name, kind, goal, *a, **k)
        if goal is not TRUE and not smt.satisfiable(ex.pc, 3000): raise Stop()
    ex.oblige = oblige
    ex.deadline = c.deadline
    ex.pc = [h for x in list(c.pre) + list(pre) for h in smt.conj(x)]
    if not smt.satisfiable(ex.pc, 3000): raise Unsupported("precondition of %s unsatisfiable" % what)
    def th():
        a = mk(ex)
        return ex.call_fn(fn, a)
    outs = ex.explore(th)
    c.fns |= ex.inlined
    if not outs: c.goal("%s refuses operands of different size" % what, [], TRUE, fn=what)
    for o in outs: c.goal("%s refuses operands of different size" % what, o["pc"], FALSE, fn=what)

# ----------------------------------------------------------------- element-wise, in all forms
PLUS, MINUS, TIMES = (lambda a, b: add(a, b)), (lambda a, b: sub(a, b)), (lambda a, b: mul(a, b))
VV = [("&a + &b", "(a: &Arr, b: &Arr) -> Arr { a + b }", "rr", PLUS), ("&a - &b", "(a: &Arr, b: &Arr) -> Arr { a - b }", "rr", MINUS),
      ("&a * &b", "(a: &Arr, b: &Arr) -> Arr { a * b }", "rr", TIMES),
      ("a + &b", "(a: Arr, b: &Arr) -> Arr { a + b }", "vr", PLUS), ("a - &b", "(a: Arr, b: &Arr) -> Arr { a - b }", "vr", MINUS),
      ("a * &b", "(a: Arr, b: &Arr) -> Arr { a * b }", "vr", TIMES),
      ("a += &b", "(a: &mut Arr, b: &Arr) { *a += b; }", "mr", PLUS), ("a -= &b", "(a: &mut Arr, b: &Arr) { *a -= b; }", "mr", MINUS)]
VS = [("&a * s", "(a: &Arr, s: f64) -> Arr { a * s }", "r", TIMES), ("a * s", "(a: Arr, s: f64) -> Arr { a * s }", "v", TIMES),
      ("s * &a", "(a: &Arr, s: f64) -> Arr { s * a }", "r", TIMES), ("s * a", "(a: Arr, s: f64) -> Arr { s * a }", "v", TIMES),
      ("&a / s", "(a: &Arr, s: f64) -> Arr { a / s }", "r", div), ("a / s", "(a: Arr, s: f64) -> Arr { a / s }", "v", div),
      ("a += s", "(a: &mut Arr, s: f64) { *a += s; }", "m", PLUS), ("a -= s", "(a: &mut Arr, s: f64) { *a -= s; }", "m", MINUS),
      ("a *= s", "(a: &mut Arr, s: f64) { *a *= s; }", "m", TIMES), ("a /= s", "(a: &mut Arr, s: f64) { *a /= s; }", "m", div)]
V1 = [("-&a", "(a: &Arr) -> Arr { -a }", "r", lambda x: neg(x)), ("-a", "(a: Arr) -> Arr { -a }", "v", lambda x: neg(x))]
def arg(ex, kind, v): return v if kind == "v" else ref(ex, v)
def one(c, what, src, kinds, args, f, n, shapes, keep):
    """args: list of values; the result (or the modified first operand) has entries f(i)"""
    for lab, mkv, sh, ln, two in shapes:
        cell = {}
        def mk(ex):
            vs = mkv(ex)
            a = [arg(ex, k, v) for k, v in zip(kinds, vs)] + list(args)
            cell["a"], cell["v"] = a, vs
            return a, None
        name = what + lab
        for o in c.run(probe(src), mk, label=name, pre=sh.get("pre", [])):
            r = cell["a"][0] if kinds[0] == "m" else o.ret
            shape_is(c, o, r, sh["rows"], sh["cols"], ln, name)
            if two: entries2(c, o, r, sh["rows"], sh["cols"], lambda i, j: f((i, j)), name)
            else: entries(c, o, r, ic(0), ln, lambda i: f((i,)), name)
            for k, (a, nm) in enumerate(zip(cell["a"][:len(kinds)], ("x", "y"))):
                if kinds[k] == "r":
                    g = lambda *ix, nm=nm: app(nm, ix, "R")
                    if two: entries2(c, o, a, sh["rows"], sh["cols"], g, name, "leaves operand %d unchanged" % (k + 1))
                    else: entries(c, o, a, ic(0), ln, g, name, "leaves operand %d unchanged" % (k + 1))
def ew(c, what, src, kinds, args, f, dom=None):
    n = c.N("n", 0)
    r, q = c.N("r", 1), c.N("q", 1, at=lambda d: d + 1)
    vec = ("", lambda ex: [c.vec("x", n), c.vec("y", n)][:len(kinds)], {"rows": n, "cols": ic(0), "pre": [ALL(0, n, lambda i: dom(X(i)))] if dom else []}, n, False)
    mat = (" (matrix)", lambda ex: [c.mat("x", r, q), c.mat("y", r, q)][:len(kinds)], {"rows": r, "cols": q, "pre": [ALL(0, r, lambda i: ALL(0, q, lambda j: dom(X(i, j))))] if dom else []}, mul(r, q), True)
    one(c, what, src, kinds, args, f, n, [vec, mat], None)
@unit("arr:elementwise", dims=(1, 2, 3))
def _ew(c):
    for what, src, kinds, f in VV: ew(c, what, src, kinds, [], lambda ix, f=f: f(app("x", ix, "R"), app("y", ix, "R")))
@unit("arr:scalar", dims=(1, 2, 3))
def _sc(c):
    c.pre.append(not_(eq(s_, rc(0))))
    for what, src, kinds, f in VS: ew(c, what, src, kinds, [s_], lambda ix, f=f: f(app("x", ix, "R"), s_))
    for what, src, kinds, f in V1: ew(c, what, src, kinds, [], lambda ix, f=f: f(app("x", ix, "R")))
@unit("arr:functions", dims=(1, 2, 3))
def _fn(c):
    for nm, f in (("cos", lambda t: app("cos", (t,), "R")), ("ln", lambda t: app("ln", (t,), "R")), ("abs", abs_), ("exp", lambda t: app("exp", (t,), "R")), ("sqrt", sqrt_)):
        fx = lambda ix, f=f: f(app("x", ix, "R"))
        ew(c, nm, "(a: &Arr) -> Arr { arr::%s(a) }" % nm, "r", [], fx, {"ln": lambda t: lt(rc(0), t), "sqrt": lambda t: le(rc(0), t)}.get(nm))
    ew(c, "map", "(a: &Arr) -> Arr { a.map(|v| v * v + 1.0) }", "r", [], lambda ix: add(mul(app("x", ix, "R"), app("x", ix, "R")), rc(1)))
    ew(c, "clone", "(a: &Arr) -> Arr { a.clone() }", "r", [], lambda ix: app("x", ix, "R"))
    ew(c, "make_same_shape", "(a: &Arr) -> Arr { arr::make_same_shape(a) }", "r", [], lambda ix: rc(0))
    ew(c, "copy_from", "(a: &mut Arr, b: &Arr) { a.copy_from(b) }", "mr", [], lambda ix: app("y", ix, "R"))
@unit("arr:mismatch", dims=(1, 2, 3))
def _mm(c):
    n, m = c.N("n", 0), c.N("m", 0, at=lambda d: d + 1)
    pre = [not_(eq(n, m))]
    for what, src, kinds, f in VV:
        refuses(c, probe(src), lambda ex: [arg(ex, k, v) for k, v in zip(kinds, (c.vec("x", n), c.vec("y", m)))], pre, what)
    refuses(c, probe("(a: &Arr, b: &Arr) -> f64 { a.dot(b) }"), lambda ex: [ref(ex, c.vec("x", n)), ref(ex, c.vec("y", m))], pre, "dot")
    refuses(c, probe("(a: &mut Arr, b: &Arr) { a.copy_from(b) }"), lambda ex: [ref(ex, c.vec("x", n)), ref(ex, c.vec("y", m))], pre, "copy_from")
    r, q = c.N("r", 1), c.N("q", 1)
    k = c.N("k", 0, at=lambda d: d + 3)
    refuses(c, probe("(a: &Arr, b: &Arr) -> Arr { a.dot_mv(b) }"), lambda ex: [ref(ex, c.mat("m", r, q)), ref(ex, c.vec("y", k))], [not_(eq(q, k))], "dot_mv")
    refuses(c, probe("(a: &mut Arr, s: f64, b: &Arr) { a.rank_one_update(s, b) }"), lambda ex: [ref(ex, c.mat("m", r, r)), s_, ref(ex, c.vec("y", k))], [not_(eq(r, k))], "rank_one_update")
    i = var("ri", "I") if c.dim is None else r
    refuses(c, probe("(a: &Arr, i: usize) -> Arr { a.row(i) }"), lambda ex: [ref(ex, c.mat("m", r, q)), i], [le(r, i)], "row")
    for nm, a in (("from_shape_vec", "r, q, d"), ("with_data", "d, r, q")):
        refuses(c, probe("(d: Vec<f64>, r: usize, q: usize) -> Arr { Arr::%s(%s) }" % (nm, a)), lambda ex: [c.seq("x", k), r, q], [not_(eq(mul(r, q), k))], nm)

# ----------------------------------------------------------------- products
@unit("arr:products", dims=(1, 2, 3))
def _pr(c):
    n = c.N("n", 0)
    r, q = c.N("r", 1), c.N("q", 1, at=lambda d: d + 1)
    cell = {}
    def mk(*vs):
        def g(ex):
            cell["a"] = [v if not isinstance(v, tuple) else ref(ex, v[0]) for v in vs]
            return cell["a"], None
        return g
    for o in c.run(probe("(a: &Arr, b: &Arr) -> f64 { a.dot(b) }"), mk((c.vec("x", n),), (c.vec("y", n),)), label="dot"):
        c.post(o, "dot is the sum of the products of entries", eq(o.ret, SUM(0, n, lambda i: mul(X(i), Y(i)))), "dot")
    for what, v, sm in (("sum", c.vec("x", n), lambda: SUM(0, n, X)),):
        for o in c.run(probe("(a: &Arr) -> f64 { a.sum() }"), mk((v,)), label=what): c.post(o, "sum of all entries", eq(o.ret, sm()), what)
    for o in c.run(probe("(a: &Arr, b: &Arr) -> Arr { a.dot_mv(b) }"), mk((c.mat("m", r, q),), (c.vec("y", q),)), label="dot_mv"):
        shape_is(c, o, o.ret, r, ic(0), r, "dot_mv")
        entries(c, o, o.ret, ic(0), r, lambda i: SUM(0, q, lambda j: mul(M(i, j), Y(j))), "dot_mv")
        entries2(c, o, cell["a"][0], r, q, M, "dot_mv", "leaves the matrix unchanged")
    n1 = c.N("n1", 1)
    for o in c.run(probe("(a: &Arr, b: &Arr) -> Arr { a.outer(b) }"), mk((c.vec("x", r),), (c.vec("y", q),)), label="outer"):
        shape_is(c, o, o.ret, r, q, mul(r, q), "outer")
        entries2(c, o, o.ret, r, q, lambda i, j: mul(X(i), Y(j)), "outer")
    S = (lambda i, j: app("m", (i, j), "R"))
    sym = [ALL(0, n1, lambda i: ALL(0, n1, lambda j: eq(M(i, j), M(j, i))))]
    for o in c.run(probe("(a: &mut Arr, s: f64, b: &Arr) { a.rank_one_update(s, b) }"), mk((c.mat("m", n1, n1),), s_, (c.vec("x", n1),)), label="rank_one_update"):
        a = cell["a"][0]
        shape_is(c, o, a, n1, n1, mul(n1, n1), "rank_one_update")
        f = lambda i, j: add(M(i, j), mul(s_, X(i), X(j)))
        if c.dim is None:
            i, j = fresh("i", "I"), fresh("j", "I")
            h = [le(ic(0), i), lt(i, n1), le(ic(0), j)]
            c.post(o, "rank_one_update has the specified entries on and below the diagonal", eq(o.at(a, i, j), f(i, j)), "rank_one_update", [i, j], h + [le(j, i)])
            c.post(o, "rank_one_update result is symmetric", eq(o.at(a, j, i), o.at(a, i, j)), "rank_one_update", [i, j], h + [le(j, i)])
        else:
            for i in range(n1.val):
                for j in range(i + 1):
                    c.post(o, "rank_one_update has the specified entries on and below the diagonal", eq(o.at(a, i, j), f(ic(i), ic(j))), "rank_one_update")
                    c.post(o, "rank_one_update result is symmetric", eq(o.at(a, j, i), o.at(a, i, j)), "rank_one_update")
    for o in c.run("power_iteration::norm_l1", mk((c.vec("x", n),)), label="norm_l1"):
        c.post(o, "norm_l1 is the sum of absolute entries", eq(o.ret, SUM(0, n, lambda i: abs_(X(i)))), "norm_l1")

# ----------------------------------------------------------------- construction and access
@unit("arr:construct", dims=(1, 2, 3))
def _co(c):
    n = c.N("n", 1)
    r, q = c.N("r", 1), c.N("q", 1, at=lambda d: d + 1)
    v_ = c.R("v")
    cell = {}
    def mk(*vs):
        def g(ex):
            cell["a"] = [v if not isinstance(v, tuple) else ref(ex, v[0]) for v in vs]
            return cell["a"], None
        return g
    dl = lambda i, j, d: ite(eq(i, j), d, rc(0))
    for what, src, args, rows, cols, f in (
            ("new", "(n: usize) -> Arr { Arr::new(n) }", (n,), n, None, lambda i: rc(0)),
            ("ones", "(n: usize) -> Arr { Arr::ones(n) }", (n,), n, None, lambda i: rc(1)),
            ("from", "(d: Vec<f64>) -> Arr { Arr::from(d) }", (c.seq("x", n),), n, None, X),
            ("from_fn", "(n: usize) -> Arr { Arr::from_fn(n, |i| (2 * i + 1) as f64) }", (n,), n, None, lambda i: toreal(add(mul(ic(2), i), ic(1)))),
            ("zeros", "(r: usize, q: usize) -> Arr { Arr::zeros(r, q) }", (r, q), r, q, lambda i, j: rc(0)),
            ("full", "(r: usize, q: usize, v: f64) -> Arr { Arr::full(r, q, v) }", (r, q, v_), r, q, lambda i, j: v_),
            ("eye", "(n: usize) -> Arr { Arr::eye(n) }", (n,), n, n, lambda i, j: dl(i, j, rc(1))),
            ("from_diag", "(a: &Arr) -> Arr { Arr::from_diag(a) }", ((c.vec("x", n),),), n, n, lambda i, j: dl(i, j, X(i))),
            ("from_shape_vec", "(r: usize, q: usize, d: Vec<f64>) -> Arr { Arr::from_shape_vec(r, q, d) }", (r, q, c.flat("m", r, q)), r, q, M),
            ("with_data", "(r: usize, q: usize, d: Vec<f64>) -> Arr { Arr::with_data(d, r, q) }", (r, q, c.flat("m", r, q)), r, q, M)):
        for o in c.run(probe(src), mk(*args), label=what):
            shape_is(c, o, o.ret, rows, ic(0) if cols is None else cols, rows if cols is None else mul(rows, cols), what)
            if cols is None: entries(c, o, o.ret, ic(0), rows, f, what)
            else: entries2(c, o, o.ret, rows, cols, f, what)
    # access
    i, j = (var("pi", "I"), var("pj", "I")) if c.dim is None else (ic(r.val - 1), ic(q.val - 1))
    pij = [le(ic(0), i), lt(i, r), le(ic(0), j), lt(j, q)]
    for what, src in (("get", "(a: &Arr, i: usize, j: usize) -> f64 { a.get(i, j) }"), ("at", "(a: &Arr, i: usize, j: usize) -> f64 { a.at(i, j) }"), ("index (i, j)", "(a: &Arr, i: usize, j: usize) -> f64 { a[(i, j)] }")):
        for o in c.run(probe(src), mk((c.mat("m", r, q),), i, j), pre=pij, label=what):
            c.post(o, what + " reads the entry", eq(o.ret, M(i, j)), what, [i, j])
    for what, src in (("set", "(a: &mut Arr, i: usize, j: usize, v: f64) { a.set(i, j, v) }"), ("at_mut", "(a: &mut Arr, i: usize, j: usize, v: f64) { *a.at_mut(i, j) = v; }"), ("index_mut (i, j)", "(a: &mut Arr, i: usize, j: usize, v: f64) { a[(i, j)] = v; }")):
        for o in c.run(probe(src), mk((c.mat("m", r, q),), i, j, v_), pre=pij, label=what):
            shape_is(c, o, cell["a"][0], r, q, mul(r, q), what)
            entries2(c, o, cell["a"][0], r, q, lambda a, b: ite(and_(eq(a, i), eq(b, j)), v_, M(a, b)), what, "writes that entry and no other")
    for o in c.run(probe("(a: &Arr, i: usize) -> Arr { a.row(i) }"), mk((c.mat("m", r, q),), i), pre=pij[:2], label="row"):
        shape_is(c, o, o.ret, q, ic(0), q, "row")
        entries(c, o, o.ret, ic(0), q, lambda k: M(i, k), "row")
    for what, src, want in (("size", "a.size()", mul(r, q)), ("len", "a.len()", mul(r, q)), ("rows", "a.rows()", r), ("cols", "a.cols()", q)):
        for o in c.run(probe("(a: &Arr) -> usize { %s }" % src), mk((c.mat("m", r, q),)), label=what): c.post(o, what + " of a matrix", eq(o.ret, want), what)
    for o in c.run(probe("(a: &Arr) -> bool { a.is_2d() }"), mk((c.mat("m", r, q),)), label="is_2d"): c.post(o, "a matrix is two-dimensional", o.ret, "is_2d")
    for o in c.run(probe("(a: &Arr) -> bool { a.is_2d() }"), mk((c.vec("x", n),)), label="is_2d"): c.post(o, "a vector is not two-dimensional", not_(o.ret), "is_2d")
@unit("arr:compare", dims=(1, 2, 3))
def _cm(c):
    n, n2 = c.N("n", 1), c.N("n2", 1, at=lambda d: d + 1)
    two = lambda ex, a, b: ([ref(ex, a), ref(ex, b)], None)
    src = "(a: &Arr, b: &Arr) -> bool { *a == *b }"
    def eqv(a, b): return and_(implies(a, b), implies(b, a))
    for o in c.run(probe(src), lambda ex: two(ex, c.vec("x", n), c.vec("y", n)), label="=="):
        c.post(o, "equal exactly when all entries are", eqv(o.ret, ALL(0, n, lambda i: eq(X(i), Y(i)))), "==")
    for o in c.run(probe(src), lambda ex: two(ex, c.vec("x", n), c.vec("y", n2)), label="==", pre=[not_(eq(n, n2))]):
        c.post(o, "vectors of different length are not equal", not_(o.ret), "==")
    for o in c.run(probe(src), lambda ex: two(ex, c.vec("x", n), c.mat("m", n, ic(1))), label="=="):
        c.post(o, "a vector and a matrix are not equal", not_(o.ret), "==")
    for o in c.run(probe("(a: &Arr) -> bool { a.is_empty() }"), lambda ex: ([ref(ex, c.vec("x", n))], None), label="is_empty"):
        c.post(o, "an array with entries is not empty", not_(o.ret), "is_empty")
    for o in c.run(probe("() -> bool { Arr::new(0).is_empty() }"), lambda ex: ([], None), label="is_empty"):
        c.post(o, "an array without entries is empty", o.ret, "is_empty")
    for i in c.crate.impls:
        if i.trait is not None and i.trait.k == "tpath" and i.trait.segs[-1] == "From" and "from" in i.fns and i.fns["from"].owner == "Arr":
            for o in c.run(i.fns["from"], lambda ex: ([c.seq("x", n)], None), label="from"):
                shape_is(c, o, o.ret, n, ic(0), n, "from")
                entries(c, o, o.ret, ic(0), n, X, "from")
@unit("arr:ranges", dims=(1, 2, 3))
def _ra(c):
    n = c.N("n", 0)
    a, b = c.R("a"), c.R("b")
    for o in c.run(probe("(a: f64, b: f64, n: usize) -> Arr { arr::linspace(a, b, n) }"), lambda ex: ([a, b, n], None), label="linspace"):
        shape_is(c, o, o.ret, n, ic(0), n, "linspace")
        if is_c(o.len(o.ret)) and o.len(o.ret).val == 0: continue
        if c.dim is None:
            i = fresh("i", "I")
            h = [le(ic(0), i), lt(i, n)]
            c.post(o, "linspace is evenly spaced from the first end", eq(mul(sub(o.at(o.ret, i), a), toreal(add(n, ic(-1)))), mul(sub(b, a), toreal(i))), "linspace", [i], h)
            c.post(o, "linspace starts at the first end", eq(o.at(o.ret, ic(0)), a), "linspace", [ic(0)], [le(ic(1), n)])
        else:
            for i in range(n.val):
                c.post(o, "linspace is evenly spaced from the first end", eq(mul(sub(o.at(o.ret, i), a), toreal(ic(n.val - 1))), mul(sub(b, a), rc(i))), "linspace")
    if c.dim is None:
        for o in c.run(probe("(a: f64, b: f64) -> Arr { arr::arange(a, b) }"), lambda ex: ([a, b], None), label="arange"):
            m = o.len(o.ret)
            if is_c(m) and m.val == 0:
                c.post(o, "arange is empty only when no whole step fits", lt(sub(b, a), rc(1)), "arange")
                continue
            c.post(o, "arange has as many entries as whole steps fit", and_(implies(le(b, a), eq(m, ic(0))), implies(lt(a, b), and_(le(toreal(m), sub(b, a)), lt(sub(b, a), add(toreal(m), rc(1)))))), "arange")
            i = fresh("i", "I")
            c.post(o, "arange steps by one", eq(o.at(o.ret, i), add(a, toreal(i))), "arange", [i], [le(ic(0), i), lt(i, m)])
