"""Symbolic executor / verification-condition generator for the parsed Rust functions."""
import itertools, time
from rustparse import Unsupported, Node, Fn, ty_text, parse_crate
from terms import *
from values import *
import smt

class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception):
    def __init__(self, label=None, v=None): self.label, self.v = label, v
class Cnt(Exception):
    def __init__(self, label=None): self.label = label
class Stop(Exception):
    """path ends: infeasible or panicking (its obligation has been recorded)"""
def has_exit(n):
    """a break, continue or return inside"""
    if isinstance(n, (list, tuple)): return any(has_exit(x) for x in n)
    if not isinstance(n, Node): return False
    return n.k in ("break", "continue", "return", "try", "question") or any(has_exit(x) for x in vars(n).values())
class Crate:
    def __init__(self, root="/repo"):
        self.root = root
        self.mods = parse_crate(root)
        self.fns, self.impls, self.structs, self.enums, self.traits, self.consts = {}, [], {}, {}, {}, {}
        for k, m in self.mods.items():
            for n, f in m.fns.items():
                self.fns.setdefault(n, []).append(f)
            self.impls += m.impls
            for i in m.impls:
                for f in i.fns.values(): f.impl = i
            self.structs.update({n: f for n, f in m.structs.items() if n not in self.structs})
            for n, f in m.structs.items():
                self.structs[m.name + "::" + n] = f
            self.enums.update(m.enums)
            self.traits.update(m.traits)
            for n, e in m.consts.items():
                self.consts[n] = e
        self.errors = [e for m in self.mods.values() for e in m.errors]
    def find(self, qual, trait=None):
        """'Owner::name' or 'module::name'"""
        o, n = qual.rsplit("::", 1)
        for i in self.impls:
            if n in i.fns and i.fns[n].owner == o and (trait is None or (i.fns[n].trait or "") == trait or (i.trait_args or "") == trait):
                return i.fns[n]
        for f in self.fns.get(n, []):
            if f.module == o:
                return f
        raise Unsupported("lost anchor: function %s not found" % qual)

class Ob:
    """proof obligation"""
    __slots__ = ("name", "kind", "hyps", "goal", "line", "fn", "ctx", "tags")
    def __init__(self, name, kind, hyps, goal, line, fn):
        self.name, self.kind, self.hyps, self.goal, self.line, self.fn = name, kind, list(hyps), goal, line, fn
        self.tags = {}

class LoopFail(Unsupported):
    pass

OPTRAIT = {"+": ("Add", "add"), "-": ("Sub", "sub"), "*": ("Mul", "mul"), "/": ("Div", "div"), "%": ("Rem", "rem")}
OPASSIGN = {"+=": ("AddAssign", "add_assign", "+"), "-=": ("SubAssign", "sub_assign", "-"), "*=": ("MulAssign", "mul_assign", "*"), "/=": ("DivAssign", "div_assign", "/")}

CUT = ["Success", "NoSoln", "NoEffect", "Unknown"]

class Ex:
    MAXUNROLL = 70
    def __init__(self, crate, contracts=None, hints=None, opts=None):
        self.crate = crate
        self.contracts = contracts or {}
        self.hints = hints or {}
        self.opts = opts or {}
        self.cells = {}
        self.ncell = 0
        self.pc = []
        self.obs = []
        self.quiet = 0
        self.dec = None
        self.merge = 0
        self.fnstack = []
        self.depth = 0
        self.inst = []          # instantiation terms for bounded foralls
        self.inlined = set()
        self.form_of = {}       # cell of a local -> "ref" | "own": the operator impl is chosen by it
        self.loops = []
        self.loopvars = []
        self.obfacts = set()
        self.defs = dict((contracts or {}).get("__defs__", {})) if False else {}
        self.abstracted = False # some loop was summarised with uninterpreted sequences
        self.deadline = None
        self.absmethods = self.opts.get("abs", {})
        self.div_obs = self.opts.get("div_obs", True)
        self.idx_obs = self.opts.get("idx_obs", True)

    # ------------------------------------------------------------ state
    def new_cell(self, v):
        self.ncell += 1
        c = self.ncell
        self.cells[c] = v
        return c
    def read(self, p):
        v = self.cells[p.cell]
        for pr in p.proj:
            v = self.project(v, pr)
        return v
    def project(self, v, pr):
        k, x = pr
        v = self.deref(v)
        if k == "f":
            if isinstance(v, Struct):
                if x not in v.fs:
                    raise Unsupported("no field %s in %s" % (x, v.name))
                return v.fs[x]
            if isinstance(v, Tup):
                return v.xs[int(x)]
            raise Unsupported("field %s of %s" % (x, type(v).__name__))
        if k == "i":
            return self.vec_get(v, x)
        if k == "some":
            return v.val
        if k == "off":     # slice view: (lo,len)
            return v
        raise Unsupported("projection")
    def write(self, p, val):
        self.cells[p.cell] = self._upd(self.cells[p.cell], p.proj, val)
    def _upd(self, v, proj, val):
        if not proj:
            return val
        k, x = proj[0]
        if isinstance(v, Ref):
            self.write(v.place.add(*proj), val)
            return v
        if k == "f":
            if isinstance(v, Struct):
                return v.set(x, self._upd(v.fs[x], proj[1:], val))
            if isinstance(v, Tup):
                xs = list(v.xs); xs[int(x)] = self._upd(xs[int(x)], proj[1:], val)
                return Tup(xs)
        if k == "i":
            old = self.vec_get(v, x, check=True)
            new = self._upd(old, proj[1:], val)
            return self.vec_set(v, x, new)
        if k == "some":
            return Opt(v.some, self._upd(v.val, proj[1:], val))
        raise Unsupported("write projection %s on %s" % (k, type(v).__name__))
    def deref(self, v):
        while isinstance(v, Ref):
            v = self.read(v.place)
        return v

    # ------------------------------------------------------------ vectors
    def loc(self, v, idx):
        """flat index -> binder tuple for SVec v"""
        if v.stride is None:
            return (idx,)
        if isinstance(idx, tuple):
            return idx
        s = v.stride
        row, col = self.decompose(idx, s)
        return (row, col)
    def decompose(self, idx, s):
        # monomials of idx divisible by s
        def mons(t):
            return t.args if t.op == "add" else (t,)
        row, col = [], []
        if is_c(s):
            if is_c(idx):
                return ic(idx.val // s.val), ic(idx.val % s.val)
            raise Unsupported("constant stride")
        for m in mons(idx):
            fs = list(m.args) if m.op == "mul" else [m]
            if s in fs:
                fs.remove(s)
                row.append(mul(*fs) if fs else ic(1))
            else:
                col.append(m)
        r = add(*row) if row else ic(0)
        c = add(*col) if col else ic(0)
        if self.holds(and_(le(ic(0), c), lt(c, s))):
            return r, c
        # negative / overflowing column: try shifting rows by one
        for d in (1, -1):
            c2 = add(c, mul(ic(d), s))
            if self.holds(and_(le(ic(0), c2), lt(c2, s))):
                return sub(r, ic(d)), c2
        raise Unsupported("cannot decompose flat index %r by %r" % (idx, s))
    def holds(self, g, timeout=1500):
        if g is TRUE:
            return True
        if smt.check(self.pc, g, timeout=timeout, quick=True)[0] == "proved":
            return True
        v, _ = smt.check(self.pc, g, timeout=timeout, inst=self.inst, sumlem=False, cheap=True)
        return v == "proved"
    def vec_len(self, v):
        return v.n
    def vec_get(self, v, idx, check=True):
        v = self.deref(v)
        if isinstance(v, CVec):
            if isinstance(idx, tuple):
                raise Unsupported("2d index into concrete")
            if is_c(idx):
                if not (0 <= idx.val < len(v.xs)):
                    self.oblige("index in bounds", "panic", FALSE)
                    raise Stop()
                return v.xs[idx.val]
            if check:
                self.oblige("index in bounds", "panic", and_(le(ic(0), idx), lt(idx, v.n)))
            r = v.xs[-1]
            for i in range(len(v.xs) - 2, -1, -1):
                r = vite(eq(idx, ic(i)), v.xs[i], r)
            return r
        if isinstance(v, SVec):
            l = self.loc(v, idx)
            if check and self.idx_obs:
                self.bounds(v, l)
            return vsubst(v.elem, dict(zip(v.bvs, l)))
        if isinstance(v, Struct) and v.name == "Arr":
            raise Unsupported("raw index on Arr")
        raise Unsupported("index into %s" % type(v).__name__)
    def bounds(self, v, l):
        if v.stride is None:
            self.oblige("index in bounds", "panic", and_(le(ic(0), l[0]), lt(l[0], v.n)))
        else:
            # 0 <= r < rows where n = rows*stride
            rows = self.rows_of(v)
            self.oblige("index in bounds", "panic", and_(le(ic(0), l[0]), lt(l[0], rows), le(ic(0), l[1]), lt(l[1], v.stride)))
    def rows_of(self, v):
        n, s = v.n, v.stride
        if n.op == "mul" and s in n.args:
            fs = list(n.args); fs.remove(s)
            return mul(*fs) if fs else ic(1)
        if n is s:
            return ic(1)
        raise Unsupported("rows of %r by %r" % (n, s))
    def vec_set(self, v, idx, val):
        if isinstance(v, CVec):
            if is_c(idx):
                xs = list(v.xs); xs[idx.val] = val
                return CVec(xs)
            return CVec([vite(eq(idx, ic(i)), val, x) for i, x in enumerate(v.xs)])
        if isinstance(v, SVec):
            l = self.loc(v, idx)
            c = and_(*[eq(b, x) for b, x in zip(v.bvs, l)])
            return SVec(v.n, v.bvs, vite(c, val, v.elem), v.stride)
        raise Unsupported("store into %s" % type(v).__name__)
    def vec_of(self, n, val):
        if is_c(n):
            return CVec([val] * n.val)
        if n.op == "mul" and len([a for a in n.args]) == 2 and not any(is_c(a) for a in n.args):
            b = (fresh("ix", "I"), fresh("ix", "I"))
            return SVec(n, b, val, n.args[1])   # default layout (square or fixed up by relayout)
        return SVec(n, (fresh("ix", "I"),), val)
    def relayout(self, v, cols):
        """row-major content v interpreted with row length cols"""
        if isinstance(v, CVec) or is_c(cols):
            return v
        if isinstance(v, SVec):
            if v.stride is cols:
                return v
            if not any(b in t.fv for _, _, t in leaves(v.elem) for b in v.bvs):
                return SVec(v.n, (fresh("ix", "I"), fresh("ix", "I")), v.elem, cols)
        raise Unsupported("layout of matrix content")

    # ------------------------------------------------------------ obligations
    def oblige(self, name, kind, goal, assume=True, line=None):
        if goal is TRUE:
            return
        if not self.quiet and not (kind == "div" and not self.div_obs):
            self.obs.append(Ob(name, kind, self.pc, goal, line or self.curline(), self.fnstack[-1] if self.fnstack else "?"))
            self.obs[-1].tags["inst"] = list(self.inst)
        if assume:
            known = set(self.pc)
            for x in smt.conj(goal):
                if x not in known:
                    self.obfacts.add(x)
            self.assume(goal)
    def curline(self):
        return getattr(self, "_line", 0)
    def assume(self, c):
        if c is TRUE:
            return
        for x in smt.conj(c):
            self.pc.append(x)

    # ------------------------------------------------------------ path exploration
    def choose(self, conds):
        """pick one of the alternatives (list of condition terms)"""
        conds = list(conds)
        live = [i for i, c in enumerate(conds) if c is not FALSE]
        if len(live) == 1 and conds[live[0]] is TRUE:
            return live[0]
        d = self.dec
        if d is None:
            raise Unsupported("choice outside exploration")
        if d["pos"] < len(d["prefix"]):
            i = d["prefix"][d["pos"]]
        else:
            feas = []
            for i in live:
                if conds[i] is TRUE or smt.satisfiable(self.pc + [conds[i]], 400):
                    feas.append(i)
            if not feas:
                raise Stop()
            i = feas[0]
            for j in feas[1:]:
                d["todo"].append(d["taken"] + [j])
        d["pos"] += 1
        d["taken"] = d["taken"] + [i]
        self.assume(conds[i])
        return i

    def explore(self, thunk, maxpaths=400):
        """run thunk along all paths from the current state; state is restored afterwards.
        returns list of dict(kind, val, cells, pc)"""
        cells0, pc0, dec0, nobs = dict(self.cells), list(self.pc), self.dec, None
        out = []
        todo = [[]]
        top = dec0 is None and not self.merge
        import terms as _t
        snap = (_t._fresh[0], self.ncell, list(self.inst))
        hi = list(snap)
        try:
            while todo:
                if top:
                    # replayed prefixes get the same names, so their queries hit the cache
                    hi = [max(hi[0], _t._fresh[0]), max(hi[1], self.ncell)]
                    _t._fresh[0], self.ncell, self.inst = snap[0], snap[1], list(snap[2])
                if len(out) > maxpaths:
                    raise Unsupported("too many paths")
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time limit of the symbolic execution")
                pre = todo.pop()
                self.cells, self.pc = dict(cells0), list(pc0)
                self.dec = {"prefix": pre, "pos": 0, "todo": todo, "taken": []}
                obs0 = len(self.obs)
                try:
                    v = thunk()
                    kind = "val"
                except Ret as r:
                    kind, v = "ret", r.v
                except Brk as b:
                    kind, v = "brk", b
                except Cnt as b:
                    kind, v = "cnt", b
                except Stop:
                    continue
                out.append({"kind": kind, "val": v, "cells": self.cells, "pc": self.pc, "delta": self.pc[len(pc0):], "taken": self.dec["taken"]})
        finally:
            self.cells, self.pc, self.dec = cells0, pc0, dec0
            if top:
                _t._fresh[0], self.ncell = max(hi[0], _t._fresh[0]), max(hi[1], self.ncell)
        return out

    def alternatives(self, outs):
        """merge normally-completing outcomes when possible, then choose; resumes with the
        chosen outcome's state.  Used in merge mode."""
        vals = [o for o in outs if o["kind"] == "val"]
        others = [o for o in outs if o["kind"] != "val"]
        if vals:
            m = self.merge_outs(vals)
            alts = [m] + others
        else:
            alts = others
        if not alts:
            raise Stop()
        base = len(self.pc)
        i = 0
        if len(alts) > 1:
            i = self.choose([a["cond"] if "cond" in a else and_(*a["delta"]) for a in alts])
        a = alts[i]
        self.cells = dict(a["cells"])
        if "cond" not in a:
            self.pc = list(a["pc"])
        else:
            self.pc = self.pc[:base]
            self.assume(a["cond"])
            for x in a.get("facts", []):
                self.assume(x)
        k = a["kind"]
        if k == "val": return a["val"]
        if k == "ret": raise Ret(a["val"])
        raise a["val"]

    def merge_outs(self, outs):
        if len(outs) == 1:
            return outs[0]
        conds = [and_(*o["delta"]) for o in outs]
        val, cells = outs[-1]["val"], dict(outs[-1]["cells"])
        for o, c in list(zip(outs, conds))[-2::-1]:
            val = vite(c, o["val"], val)
            for k in list(cells):
                if k in o["cells"] and o["cells"][k] is not cells[k]:
                    cells[k] = vite(c, o["cells"][k], cells[k])
            for k in o["cells"]:
                if k not in cells:
                    cells[k] = o["cells"][k]
        return {"kind": "val", "val": val, "cells": cells, "cond": or_(*conds), "facts": []}

    def merged(self, thunk):
        """evaluate thunk in merge mode; must complete normally (or fork on abrupt exits)"""
        self.merge += 1
        try:
            outs = self.explore(thunk)
        finally:
            self.merge -= 1
        return self.alternatives(outs)

    # ------------------------------------------------------------ calls
    def call_fn(self, f, args, selfv=None, env_types=None):
        """args: evaluated argument values; selfv: value or Ref for self"""
        q = f.qual
        c = self.contracts.get((q, f.trait)) or self.contracts.get(q)
        if c is not None and not (self.fnstack and self.fnstack[0] == q and len(self.fnstack) == 0):
            r = c(self, f, selfv, args)
            if r is not NotImplemented:
                return r
        if f.body is None:
            raise Unsupported("no body for %s" % q)
        if self.depth > 24:
            raise Unsupported("recursion depth")
        self.inlined.add("%s (%s:%d)" % (q + ("" if not f.trait else " [%s]" % f.trait), f.file.split("/repo/")[-1], f.line))
        env = {}
        if f.selfk:
            if f.selfk == "refmut":
                if not isinstance(selfv, Ref):
                    selfv = Ref(Place(self.new_cell(selfv)))
                env["self"] = ("cell", self.new_cell(selfv))
            elif f.selfk == "ref":
                env["self"] = ("cell", self.new_cell(self.deref(selfv)))
            else:
                env["self"] = ("cell", self.new_cell(self.deref(selfv)))
            im = getattr(f, "impl", None)
            self.form_of[env["self"][1]] = "ref" if f.selfk in ("ref", "refmut") or (im is not None and im.ty.k == "tref") else "own"
        self.depth += 1
        self.fnstack.append(q)
        old_owner = getattr(self, "owner", None)
        self.owner = f.owner
        oldmod = getattr(self, "module", None)
        self.module = f.module
        try:
            for (p, ty), a in zip(f.params, args):
                if ty.k == "tref" and not ty.mut:
                    a = self.deref(a)
                elif ty.k == "tref" and ty.mut and not isinstance(a, Ref):
                    a = Ref(Place(self.new_cell(a)))
                elif ty.k != "tref":
                    if isinstance(a, Ref) and ty.k != "timpl" and not (ty.k == "tpath" and len(ty.segs[0]) <= 2):
                        a = self.deref(a)
                if ty.k == "tpath" and ty.segs[-1] in ("f64", "f32") and isinstance(a, T):
                    a = toreal(a)
                self.bind(p, a, env)
                self.note_form(p, env, "ref" if ty.k == "tref" else "own" if ty.k == "tpath" and ty.segs[-1] in self.crate.structs else None)
            try:
                return self.block(f.body, env)
            except Ret as r:
                return r.v
        finally:
            self.depth -= 1
            self.fnstack.pop()
            self.owner = old_owner
            self.module = oldmod

    def call_value(self, f, args):
        f = self.deref(f)
        if isinstance(f, Closure):
            env = dict(f.env)
            for (p, ty), a in zip(f.node.params, args):
                self.bind(p, a, env)
            try:
                return self.expr(f.node.body, env)
            except Ret as r:
                return r.v
        if isinstance(f, PyFn):
            return f.f(self, args)
        if isinstance(f, FnRef):
            return self.call_path(f.segs, args, None)
        raise Unsupported("call of %s" % type(f).__name__)

    # ------------------------------------------------------------ patterns
    def bind(self, p, v, env):
        """irrefutable binding"""
        k = p.k
        if k == "pid":
            env[p.name] = ("cell", self.new_cell(v))
            if p.sub is not None:
                self.bind(p.sub, v, env)
            return
        if k == "pwild" or k == "prest":
            return
        if k == "pref":
            return self.bind(p.pat, self.deref(v), env)
        if k == "ptuple":
            isref = isinstance(v, Ref)
            d = self.deref(v)
            if not isinstance(d, Tup):
                raise Unsupported("tuple pattern on %s" % type(d).__name__)
            pats = list(p.pats)
            ri = [i for i, x in enumerate(pats) if x.k == "prest"]
            idx = list(range(len(d.xs)))
            if ri:
                r = ri[0]
                tail = len(pats) - r - 1
                pairs = list(zip(pats[:r], idx[:r])) + (list(zip(pats[r + 1:], idx[len(idx) - tail:])) if tail else [])
            else:
                if len(pats) != len(d.xs):
                    raise Unsupported("tuple arity")
                pairs = list(zip(pats, idx))
            for q, i in pairs:
                sub_ = Ref(v.place.add(("f", str(i)))) if isref else d.xs[i]
                self.bind(q, sub_, env)
            return
        if k in ("pts", "pstruct"):
            c = self.match(p, v, env)
            if c is not TRUE:
                self.oblige("irrefutable pattern", "panic", c)
            return
        if k == "pslice":
            d = self.deref(v)
            if isinstance(d, CVec) and len(d.xs) == len(p.pats):
                for q, x in zip(p.pats, d.xs):
                    self.bind(q, x, env)
                return
        raise Unsupported("pattern %s" % k)

    def match(self, p, v, env):
        """refutable: returns condition term; binds into env (bindings valid if cond)"""
        k = p.k
        isref = isinstance(v, Ref)
        d = self.deref(v)
        if k in ("pid",):
            if p.sub is not None:
                c = self.match(p.sub, v, env)
            else:
                c = TRUE
            env[p.name] = ("cell", self.new_cell(v))
            return c
        if k == "pwild":
            return TRUE
        if k == "pref":
            return self.match(p.pat, d, env)
        if k == "ptuple":
            if not isinstance(d, Tup) or len(d.xs) != len(p.pats):
                raise Unsupported("tuple match")
            cs = []
            for i, q in enumerate(p.pats):
                cs.append(self.match(q, Ref(v.place.add(("f", str(i)))) if isref else d.xs[i], env))
            return and_(*cs)
        if k == "plit":
            x = self.expr(p.e, env)
            return self.val_eq(d, x)
        if k == "prange":
            cs = []
            if p.lo is not None:
                cs.append(le(self.expr(p.lo, env), d))
            if p.hi is not None:
                hi = self.expr(p.hi, env)
                cs.append(le(d, hi) if p.incl else lt(d, hi))
            return and_(*cs)
        if k == "por":
            return or_(*[self.match(q, v, env) for q in p.alts])
        if k == "ppath":
            n = p.segs[-1]
            if n == "None" and isinstance(d, Opt):
                return not_(d.some)
            if len(p.segs) >= 2 and isinstance(d, Enum):
                return eq(d.code, ic(self.variant(d.name, n)))
            if n in self.crate.consts:
                return self.val_eq(d, self.expr(self.crate.consts[n], env))
            if n in ("PI", "EPSILON"):
                return self.val_eq(d, self.path([n], env))
            raise Unsupported("path pattern %s" % "::".join(p.segs))
        if k == "pts":
            n = p.segs[-1]
            if n == "Some" and isinstance(d, Opt):
                if d.val is None:
                    # never Some: bind nothing meaningful
                    if p.pats[0].k == "pid":
                        env[p.pats[0].name] = ("cell", self.new_cell(Str("none")))
                    return FALSE if d.some is FALSE else d.some
                inner = Ref(v.place.add(("some", None))) if isref else d.val
                return and_(d.some, self.match(p.pats[0], inner, env))
            if n in ("Ok", "Err") and isinstance(d, Res):
                x = d.v if n == "Ok" else d.e
                c = d.ok if n == "Ok" else not_(d.ok)
                if x is None:
                    return FALSE
                return and_(c, self.match(p.pats[0], x, env))
            if isinstance(d, Struct) and d.name == n:
                cs = []
                for i, q in enumerate(p.pats):
                    cs.append(self.match(q, Ref(v.place.add(("f", str(i)))) if isref else d.fs[str(i)], env))
                return and_(*cs)
            raise Unsupported("pattern %s on %s" % (n, type(d).__name__))
        if k == "pstruct":
            if isinstance(d, Struct):
                cs = []
                for f, q in p.fields:
                    cs.append(self.match(q, Ref(v.place.add(("f", f))) if isref else d.fs[f], env))
                return and_(*cs)
        raise Unsupported("refutable pattern %s" % k)

    def variant(self, en, v):
        vs = self.crate.enums.get(en)
        if vs is None:
            raise Unsupported("enum %s" % en)
        for i, (n, pay) in enumerate(vs):
            if n == v:
                if pay:
                    raise Unsupported("enum payload")
                return i
        raise Unsupported("variant %s::%s" % (en, v))

    def val_eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, T) and isinstance(b, T):
            return eq(a, b)
        if isinstance(a, Enum):
            return eq(a.code, b.code)
        if isinstance(a, Tup):
            return and_(*[self.val_eq(x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Opt):
            c = eq(a.some, b.some)
            if a.val is None or b.val is None:
                return and_(not_(a.some), not_(b.some)) if True else c
            return and_(c, implies(a.some, self.val_eq(a.val, b.val)))
        if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name:
            for i in self.crate.impls:
                if i.trait is not None and i.trait.k == "tpath" and i.trait.segs[-1] == "PartialEq" and "eq" in i.fns and i.fns["eq"].owner == a.name:
                    return self.deref(self.call_fn(i.fns["eq"], [b], selfv=a))
            return and_(*[self.val_eq(a.fs[k], b.fs[k]) for k in a.fs])
        if isinstance(a, CVec) and isinstance(b, CVec):
            return and_(TRUE, *[self.val_eq(x, y) for x, y in zip(a.xs, b.xs)]) if len(a.xs) == len(b.xs) else FALSE
        if isinstance(a, (CVec, SVec)) and isinstance(b, (CVec, SVec)):
            if any(isinstance(v, SVec) and not isinstance(v.elem, T) for v in (a, b)): raise Unsupported("== on vectors of structures")
            if isinstance(a, SVec) and isinstance(b, SVec) and a.stride is not None and a.stride is b.stride:
                i, j = fresh("q", "I"), fresh("q", "I")
                bi = [subst(v.elem, {v.bvs[0]: i, v.bvs[1]: j}) for v in (a, b)]
                return and_(eq(a.n, b.n), forall(i, ic(0), a.n, forall(j, ic(0), a.stride, implies(lt(add(mul(i, a.stride), j), a.n), eq(*bi)))))
            i = fresh("q", "I")
            return and_(eq(self.vec_len(a), self.vec_len(b)), forall(i, ic(0), self.vec_len(a), eq(self.vec_get(a, i, check=False), self.vec_get(b, i, check=False))))
        if isinstance(a, Abs):
            return eq(a.t, b.t)
        raise Unsupported("== on %s" % type(a).__name__)

    # ------------------------------------------------------------ blocks/statements
    def block(self, b, env):
        env = dict(env)
        for s in b.stmts:
            self.stmt(s, env)
        if b.tail is not None:
            self._line = b.tail.line
            return self.expr(b.tail, env)
        # a block whose last statement is a diverging/semicolon-less expression
        return UNIT

    def stmt(self, s, env):
        self._line = s.line
        if s.k == "let":
            if s.init is None:
                if s.pat.k == "pid":
                    env[s.pat.name] = ("cell", self.new_cell(None))
                    return
                raise Unsupported("let without init")
            v = self.expr(s.init, env, want=s.ty)
            v = self.typed(v, s.ty)
            if s.els is not None:
                e2 = {}
                c = self.match(s.pat, v, e2)
                if self.choose([c, not_(c)]) == 0:
                    env.update(e2)
                    return
                self.block(s.els, env)
                raise Stop()
            fo = self.form(s.init, env) if s.pat.k == "pid" else None
            self.bind(s.pat, v, env)
            self.note_form(s.pat, env, fo)
            return
        if s.k == "expr":
            self.expr(s.e, env)
            return
        if s.k == "fnstmt":
            env[s.fn.name] = ("fn", s.fn)
            return
        raise Unsupported("statement %s" % s.k)

    def typed(self, v, ty):
        if ty is not None and ty.k == "tpath" and ty.segs[-1] in ("f64", "f32") and isinstance(v, T) and v.sort == "I":
            return toreal(v)
        return v

    # ------------------------------------------------------------ expressions
    def val(self, e, env):
        return self.deref(self.expr(e, env))

    def expr(self, e, env, want=None):
        m = getattr(self, "e_" + e.k, None)
        if m is None:
            raise Unsupported("line %d: expression %s" % (e.line, e.k))
        self._line = e.line or self._line
        if e.k in ("mcall", "call"):
            return m(e, env, want)
        return m(e, env)

    def e_float(self, e, env): return rc(Fr(e.v))
    def e_int(self, e, env):
        return ic(e.v)
    def e_bool(self, e, env): return bc(e.v)
    def e_str(self, e, env): return Str(e.v)
    def e_paren(self, e, env): return self.expr(e.e, env)
    def e_tuple(self, e, env): return Tup([self.mv(self.expr(x, env)) for x in e.es])
    def mv(self, v):
        return v
    def e_block(self, e, env): return self.block(e, env)
    def e_veclit(self, e, env): return CVec([self.deref(self.expr(x, env)) for x in e.es])
    def e_arrlit(self, e, env): return self.e_veclit(e, env)
    def e_vecrep(self, e, env):
        v = self.deref(self.expr(e.e, env))
        n = self.val(e.n, env)
        return self.vec_of(n, v)
    def e_arrrep(self, e, env): return self.e_vecrep(e, env)
    def e_letcond(self, e, env):
        raise Unsupported("let condition in expression position")
    def e_path(self, e, env):
        return self.path(e.segs, env)
    def path(self, segs, env):
        n = segs[-1]
        if len(segs) == 1:
            if n in env:
                kind, c = env[n]
                if kind == "cell":
                    return self.cells[c]
                if kind == "fn":
                    return PyFn(lambda ex, args: ex.call_fn(c, args))
            if n == "None":
                return Opt(FALSE, None)
        if n == "PI":
            p = var("PI", "R")
            self._pi(p)
            return p
        if n in ("INFINITY", "NEG_INFINITY", "MAX", "MIN", "NAN", "EPSILON") and len(segs) >= 2 and segs[-2] in ("f64", "f32"):
            if n == "INFINITY": return var("INF", "R")
            if n == "NEG_INFINITY": return neg(var("INF", "R"))
            if n == "EPSILON": return rc(Fr(1, 2**52))
            raise Unsupported("f64::%s" % n)
        if len(segs) >= 2 and segs[-2] in self.crate.enums:
            return Enum(segs[-2], ic(self.variant(segs[-2], n)))
        if n in self.crate.consts and n not in self.crate.fns:
            return self.expr(self.crate.consts[n], {})
        return FnRef(segs)
    def _pi(self, p):
        f = lt(rc(3), p)
        if f not in self.pc:
            self.assume(f)
            self.assume(lt(p, rc(Fr(22, 7))))

    def e_field(self, e, env):
        b = self.expr(e.e, env)
        if isinstance(b, Ref):
            v = self.project(self.deref(b), ("f", e.name))
            return v if isinstance(v, T) else v
        return self.project(b, ("f", e.name))
    def e_index(self, e, env):
        p = self.place(e, env, soft=True)
        if p is not None:
            return self.read(p) if isinstance(p, Place) else p
        raise Unsupported("index")

    def place(self, e, env, soft=False):
        """evaluate e to a Place (for assignment / &mut); if soft, may return a value"""
        k = e.k
        if k == "paren":
            return self.place(e.e, env, soft)
        if k == "path" and len(e.segs) == 1 and e.segs[0] in env and env[e.segs[0]][0] == "cell":
            c = env[e.segs[0]][1]
            v = self.cells[c]
            if isinstance(v, Ref):
                return v.place
            return Place(c)
        if k == "field":
            b = self.place(e.e, env, soft)
            if isinstance(b, Place):
                # follow references stored in fields
                v = self.read(b)
                if isinstance(v, Ref):
                    b = v.place
                return b.add(("f", e.name))
            return self.project(b, ("f", e.name))
        if k == "deref":
            v = self.expr(e.e, env)
            if isinstance(v, Ref):
                return v.place
            return v if soft else Place(self.new_cell(v))
        if k == "index":
            b = self.place(e.e, env, soft)
            if isinstance(b, Place):
                v = self.read(b)
                while isinstance(v, Ref):
                    b = v.place
                    v = self.read(b)
            else:
                v = self.deref(b)
            i = self.expr(e.i, env)
            i = self.deref(i)
            if isinstance(i, RangeV):
                return self.slice(v, i)
            if isinstance(v, Struct):
                mut = not soft
                tr, fn = ("IndexMut", "index_mut") if mut else ("Index", "index")
                f = self.find_op(tr, fn, v, i)
                r = self.call_fn(f, [i], selfv=Ref(b) if isinstance(b, Place) else v)
                if isinstance(r, Ref):
                    return r.place
                return r if soft else Place(self.new_cell(r))
            if isinstance(b, Place):
                v2 = self.vec_get(v, i, check=True)   # bounds obligation
                pl = b.add(("i", i))
                return pl if not soft else v2
            return self.vec_get(v, i)
        v = self.expr(e, env)
        if isinstance(v, Ref):
            return v.place
        if soft:
            return v
        return Place(self.new_cell(v))

    def slice(self, v, r):
        lo = r.lo if r.lo is not None else ic(0)
        hi = r.hi if r.hi is not None else self.vec_len(v)
        if r.incl:
            hi = add(hi, ic(1))
        if isinstance(v, CVec):
            if is_c(lo) and is_c(hi):
                if not (0 <= lo.val <= hi.val <= len(v.xs)):
                    self.oblige("slice in bounds", "panic", FALSE)
                    raise Stop()
                return CVec(v.xs[lo.val:hi.val])
            raise Unsupported("symbolic slice of concrete vector")
        if isinstance(v, SVec):
            n = sub(hi, lo)
            b = fresh("ix", "I")
            if v.stride is None:
                self.oblige("slice in bounds", "panic", and_(le(ic(0), lo), le(lo, hi), le(hi, v.n)))
                return SVec(n, (b,), vsubst(v.elem, {v.bvs[0]: add(lo, b)}))
            row, col = self.decompose_lo(lo, v.stride)
            # must stay within one row: col + n <= stride
            self.oblige("slice within row", "panic", and_(le(ic(0), n), le(ic(0), col), le(add(col, n), v.stride), le(ic(0), row), lt(row, self.rows_of(v))))
            return SVec(n, (b,), vsubst(v.elem, {v.bvs[0]: row, v.bvs[1]: add(col, b)}))
        raise Unsupported("slice of %s" % type(v).__name__)
    def decompose_lo(self, idx, s):
        try:
            return self.decompose(idx, s)
        except Unsupported:
            raise

    def e_deref(self, e, env):
        return self.deref(self.expr(e.e, env))
    def e_ref(self, e, env):
        if e.mut:
            v = self.place(e.e, env)
            return Ref(v) if isinstance(v, Place) else v
        # shared borrow: snapshot (the borrow checker excludes mutation while it lives)
        return self.deref(self.expr(e.e, env))
    def e_range(self, e, env):
        lo = None if e.lo is None else self.val(e.lo, env)
        hi = None if e.hi is None else self.val(e.hi, env)
        return RangeV(lo, hi, e.incl)
    def e_cast(self, e, env):
        v = self.val(e.e, env)
        ty = ty_text(e.ty)
        if isinstance(v, T):
            if ty in ("f64", "f32"):
                if v.sort == "B":
                    return ite(v, rc(1), rc(0))
                return toreal(v)
            if ty in ("usize", "isize", "i32", "u32", "i64", "u64", "u8", "i8", "u16", "i16", "i128", "u128"):
                if v.sort == "I":
                    return v
                if v.sort == "B":
                    return ite(v, ic(1), ic(0))
                if v.op == "app" and v.val in ("roundR",):
                    return app("round", v.args, "I")
                # truncation towards zero
                f = floor_(v)
                return ite(le(rc(0), v), f, neg(floor_(neg(v))))
        if isinstance(v, Enum):
            return v.code
        raise Unsupported("cast to %s" % ty)

    def note_form(self, p, env, fo):
        if p.k != "pid" or env[p.name][0] != "cell": return
        if fo is None: self.form_of.pop(env[p.name][1], None)
        else: self.form_of[env[p.name][1]] = fo
    def form(self, e, env):
        """is the (struct-valued) expression a reference or an owned value?  None: not known"""
        k = e.k
        if k == "paren": return self.form(e.e, env)
        if k == "ref": return "ref"
        if k in ("bin", "un", "deref", "struct", "field"): return "own"
        if k == "path" and len(e.segs) == 1:
            b = env.get(e.segs[0])
            if b is None or b[0] != "cell": return None
            if b[1] in self.form_of: return self.form_of[b[1]]
            return "ref" if isinstance(self.cells[b[1]], Ref) else None
        if k in ("call", "mcall"):
            n = e.name if k == "mcall" else e.f.segs[-1] if e.f.k == "path" else None
            if n == "clone": return "own"
            fs = [i.fns[n] for i in self.crate.impls if n in i.fns] + list(self.crate.fns.get(n, []))
            if fs and all(f.ret is not None and f.ret.k == "tpath" for f in fs): return "own"
        return None

    def e_un(self, e, env):
        fo = self.form(e.e, env) if e.op == "-" else None
        v = self.val(e.e, env)
        if e.op == "-":
            if isinstance(v, T):
                return neg(v)
            f = self.find_op("Neg", "neg", v, None, fo)
            return self.call_fn(f, [], selfv=v)
        if isinstance(v, T):
            if v.sort != "B":
                raise Unsupported("bitwise not")
            return not_(v)
        raise Unsupported("!")

    def e_bin(self, e, env):
        op = e.op
        if op in ("&&", "||"):
            if e.l.k == "letcond" or e.r.k == "letcond":
                raise Unsupported("let chain in value position")
            a = self.val(e.l, env)
            if a is TRUE or a is FALSE:
                if op == "&&":
                    return self.val(e.r, env) if a is TRUE else FALSE
                return TRUE if a is TRUE else self.val(e.r, env)
            # evaluate rhs under assumption for its obligations, purely
            n0 = len(self.pc)
            self.assume(a if op == "&&" else not_(a))
            try:
                b = self.merged(lambda: self.val(e.r, env)) if self.impure(e.r) else self.val(e.r, env)
            finally:
                extra = self.pc[n0:]
                self.pc = self.pc[:n0]
            for x in extra[1:]:
                self.assume(implies(a if op == "&&" else not_(a), x))
            return and_(a, b) if op == "&&" else or_(a, b)
        fo = (self.form(e.l, env), self.form(e.r, env)) if op in OPTRAIT else (None, None)
        a = self.expr(e.l, env)
        b = self.expr(e.r, env)
        return self.binop(op, a, b, *fo)

    def impure(self, e):
        return e.k in ("if", "match", "block")

    def binop(self, op, a, b, fa=None, fb=None):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, T) and isinstance(b, T):
            if op == "+": return add(a, b)
            if op == "-": return sub(a, b)
            if op == "*": return mul(a, b)
            if op == "/":
                if a.sort == "I" and b.sort == "I":
                    if is_c(a) and is_c(b) and b.val != 0:
                        return ic(int(Fr(a.val, b.val).__trunc__()))
                    self.oblige("divisor non-zero", "panic", not_(eq(b, ic(0))))
                    return self.idiv(a, b)
                self.oblige("divisor non-zero", "div", not_(eq(b, rc(0) if b.sort == "R" else ic(0))))
                return div(a, b)
            if op == "%":
                if a.sort == "I" and b.sort == "I":
                    if is_c(a) and is_c(b) and b.val != 0:
                        return ic(a.val - b.val * int(Fr(a.val, b.val).__trunc__()))
                    self.oblige("divisor non-zero", "panic", not_(eq(b, ic(0))))
                    return sub(a, mul(b, self.idiv(a, b)))
                raise Unsupported("float %")
            if op == "<": return lt(a, b)
            if op == "<=": return le(a, b)
            if op == ">": return lt(b, a)
            if op == ">=": return le(b, a)
            if op == "==": return eq(a, b)
            if op == "!=": return not_(eq(a, b))
            if a.sort == "B" and op in ("&", "|", "^"):
                return and_(a, b) if op == "&" else or_(a, b) if op == "|" else not_(eq(a, b))
            raise Unsupported("operator %s" % op)
        if op == "==": return self.val_eq(a, b)
        if op == "!=": return not_(self.val_eq(a, b))
        if op in OPTRAIT:
            tr, fn = OPTRAIT[op]
            f = self.find_op(tr, fn, a, b, fa, fb)
            return self.call_fn(f, [b], selfv=a)
        raise Unsupported("operator %s on %s" % (op, type(a).__name__))

    def idiv(self, a, b):
        q = app("tdiv", (a, b), "I")
        # 0<=a, 0<b : q*b <= a < q*b+b
        self.assume(implies(and_(le(ic(0), a), lt(ic(0), b)), and_(le(mul(q, b), a), lt(a, add(mul(q, b), b)), le(ic(0), q))))
        return q

    def type_name(self, v):
        v = self.deref(v)
        if isinstance(v, Struct): return v.name
        if isinstance(v, T): return {"R": "f64", "I": "usize", "B": "bool"}.get(v.sort, v.sort)
        if isinstance(v, (CVec, SVec)): return "Vec"
        if isinstance(v, Enum): return v.name
        if isinstance(v, Tup): return "(" + ",".join(self.type_name(x) for x in v.xs) + ")"
        if isinstance(v, Abs): return v.trait
        if isinstance(v, Opt): return "Option"
        return type(v).__name__

    def find_op(self, trait, fn, a, b, fa=None, fb=None):
        ta = self.type_name(a)
        tb = None if b is None else self.type_name(b)
        cands = []
        for i in self.crate.impls:
            if i.trait is None or i.trait.k != "tpath" or i.trait.segs[-1] != trait or fn not in i.fns:
                continue
            it = ty_text(i.ty).replace("&", "").replace("mut ", "")
            if it != ta:
                continue
            if tb is not None:
                targ = ty_text(i.trait.args[0]).replace("&", "").replace("mut ", "") if i.trait.args else it
                if targ != tb:
                    continue
            cands.append(i)
        if not cands:
            raise Unsupported("no impl %s<%s> for %s" % (trait, tb, ta))
        isref = lambda t: "ref" if t.k == "tref" else "own"
        for want, get in ((fa, lambda i: i.ty), (fb, lambda i: i.trait.args[0] if i.trait.args else i.ty)):
            if want is not None: cands = [i for i in cands if isref(get(i)) == want] or cands
        return cands[0].fns[fn]

    def e_assign(self, e, env):
        if e.op == "=":
            if e.l.k == "path" and e.l.segs == ["_"]:
                self.expr(e.r, env)
                return UNIT
            if e.l.k == "tuple":
                v = self.expr(e.r, env)
                v = self.deref(v)
                for i, le_ in enumerate(e.l.es):
                    if le_.k == "path" and le_.segs == ["_"]:
                        continue
                    self.write(self.place(le_, env), v.xs[i])
                return UNIT
            r = self.expr(e.r, env)
            if e.l.k == "path" and len(e.l.segs) == 1 and e.l.segs[0] in env and env[e.l.segs[0]][0] == "cell":
                # rebinding a local (even one that holds a reference)
                c = env[e.l.segs[0]][1]
                old = self.cells[c]
                self.cells[c] = r if isinstance(r, Ref) or not isinstance(old, Ref) else r
                return UNIT
            p = self.place(e.l, env)
            old = None
            try:
                old = self.read(p)
            except Exception:
                pass
            r = self.deref(r) if not isinstance(old, Ref) else r
            if isinstance(r, T) and isinstance(old, T) and old.sort == "R":
                r = toreal(r)
            if isinstance(r, Struct) and r.name == "Arr":
                pass
            self.write(p, r)
            return UNIT
        op = e.op[:-1]
        fo = self.form(e.r, env)
        r = self.deref(self.expr(e.r, env))
        p = self.place(e.l, env)
        old = self.read(p)
        if isinstance(old, T):
            self.write(p, self.binop(op, old, r))
            return UNIT
        tr, fn, _ = OPASSIGN[e.op]
        f = self.find_op(tr, fn, old, r, None, fo)
        self.call_fn(f, [r], selfv=Ref(p))
        return UNIT

    def e_return(self, e, env):
        raise Ret(UNIT if e.e is None else self.deref_ret(self.expr(e.e, env)))
    def deref_ret(self, v):
        return v
    def e_break(self, e, env):
        raise Brk(e.label, None if e.e is None else self.expr(e.e, env))
    def e_continue(self, e, env):
        raise Cnt(e.label)

    def cond_branch(self, c, env):
        """evaluate a (possibly let-) condition; returns (cond term, env for the then branch)"""
        if c.k == "paren":
            return self.cond_branch(c.e, env)
        if c.k == "letcond":
            v = self.expr(c.e, env)
            e2 = dict(env)
            t = self.match(c.pat, v, e2)
            return t, e2
        if c.k == "bin" and c.op == "&&":
            if self.has_let(c):
                t1, e1 = self.cond_branch(c.l, env)
                if t1 is FALSE:
                    return FALSE, env
                n0 = len(self.pc)
                self.assume(t1)
                t2, e2 = self.cond_branch(c.r, e1)
                self.pc = self.pc[:n0]
                return and_(t1, t2), e2
        return self.val(c, env), env
    def has_let(self, c):
        if c.k == "letcond": return True
        if c.k == "bin" and c.op == "&&": return self.has_let(c.l) or self.has_let(c.r)
        if c.k == "paren": return self.has_let(c.e)
        return False

    def e_if(self, e, env):
        if self.merge and not self.has_let(e.c):
            c = self.val(e.c, env)
            if c is TRUE:
                return self.block(e.th, env)
            if c is FALSE:
                return UNIT if e.el is None else self.expr(e.el, env)
            def go():
                if self.choose([c, not_(c)]) == 0:
                    return self.block(e.th, env)
                return UNIT if e.el is None else self.expr(e.el, env)
            return self.alternatives(self.explore(go))
        def go2():
            c, e2 = self.cond_branch(e.c, env)
            if c.sort != "B":
                raise Unsupported("condition sort")
            if self.choose([c, not_(c)]) == 0:
                return self.block(e.th, e2)
            return UNIT if e.el is None else self.expr(e.el, env)
        if self.merge:
            return self.alternatives(self.explore(go2))
        return go2()

    def e_match(self, e, env):
        def go():
            v = self.expr(e.e, env)
            rest = []
            for p, g, b in e.arms:
                e2 = dict(env)
                c = self.match(p, v, e2)
                if g is not None:
                    n0 = len(self.pc)
                    self.assume(c)
                    gv = self.val(g, e2) if c is not FALSE else FALSE
                    self.pc = self.pc[:n0]
                    c = and_(c, gv)
                if c is FALSE:
                    continue
                if self.choose([c, not_(c)] if c is not TRUE else [TRUE]) == 0:
                    return self.expr(b, e2)
            raise Stop()
        if self.merge:
            return self.alternatives(self.explore(go))
        return go()

    def e_closure(self, e, env):
        return Closure(e, dict(env))

    def e_macro(self, e, env):
        n = e.name
        if n in ("assert", "debug_assert"):
            c = self.val(e.args[0], env)
            self.oblige("assert holds", "panic", c)
            if c is FALSE:
                raise Stop()
            return UNIT
        if n in ("assert_eq", "debug_assert_eq"):
            self.oblige("assert_eq holds", "panic", self.val_eq(self.expr(e.args[0], env), self.expr(e.args[1], env)))
            return UNIT
        if n in ("assert_ne", "debug_assert_ne"):
            self.oblige("assert_ne holds", "panic", not_(self.val_eq(self.expr(e.args[0], env), self.expr(e.args[1], env))))
            return UNIT
        if n in ("unreachable", "panic", "todo", "unimplemented"):
            self.oblige("%s! not reached" % n, "panic", FALSE, assume=False)
            raise Stop()
        raise Unsupported("macro %s" % n)

    def e_struct(self, e, env):
        n = e.segs[-1]
        if n == "Self":
            n = self.owner
        fs = {}
        if e.base is not None:
            fs.update(self.deref(self.expr(e.base, env)).fs)
        for f, x in e.fields:
            fs[f] = self.expr(x, env)
            v = fs[f]
            if isinstance(v, Ref):
                fs[f] = self.deref(v)
        tys = dict(self.crate.structs.get(n, []))
        if n == "Options" and self.module:
            tys = dict(self.crate.structs.get(self.module + "::Options", []))
        for f, ty in tys.items():
            if f in fs:
                fs[f] = self.typed(fs[f], ty)
        if n == "Arr" and set(fs) == {"data", "rows", "cols"}:
            c = fs["cols"]
            d = fs["data"]
            if not is_c(c) and isinstance(d, SVec):
                fs["data"] = self.relayout(d, c)
        return Struct(n, fs)

    # ------------------------------------------------------------ calls
    def e_call(self, e, env, want=None):
        f = e.f
        while f.k == "paren":
            f = f.e
        if f.k == "path":
            if len(f.segs) == 1 and f.segs[0] in env:
                kind, c = env[f.segs[0]]
                args = [self.expr(a, env) for a in e.args]
                if kind == "fn":
                    return self.call_fn(c, args)
                return self.call_value(self.cells[c], args)
            args = [self.expr(a, env) for a in e.args]
            return self.call_path(f.segs, args, want, f)
        fv = self.expr(f, env)
        return self.call_value(fv, [self.expr(a, env) for a in e.args])

    def call_path(self, segs, args, want, node=None):
        n = segs[-1]
        if len(segs) == 1:
            if n == "Some": return Opt(TRUE, self.deref(args[0]) if not isinstance(args[0], Ref) else args[0])
            if n == "Ok": return Res(TRUE, self.deref(args[0]), None)
            if n == "Err": return Res(FALSE, None, args[0])
            if n in self.crate.structs and n[0].isupper():
                return Struct(n, {str(i): self.typed(self.deref(a), t[1]) for i, (a, t) in enumerate(zip(args, self.crate.structs[n]))})
            if n == "Self":
                return Struct(self.owner, {str(i): self.deref(a) for i, a in enumerate(args)})
            fs = self.crate.fns.get(n, [])
            if fs:
                same_ = [f for f in fs if f.module == getattr(self, "module", None)]
                return self.call_fn((same_ or fs)[0], args)
        else:
            o = segs[-2]
            if o == "Self":
                o = self.owner
            if n in ("swap", "replace", "take") and o == "mem":
                return self.mem(n, args)
            if o in ("f64", "f32", "usize", "i32"):
                if o in ("f64", "f32") and n == "from":
                    return toreal(self.deref(args[0]))
                return self.method(args[0], n, args[1:], None)
            if o in ("iter",) and n == "once":
                v = args[0]
                return It(ic(1), lambda k: v)
            if o in ("iter",) and n == "repeat":
                v = args[0]
                return It(None, lambda k: v)
            if o == "cmp" and n in ("max", "min"):
                return self.method(args[0], n, args[1:], None)
            if o == "Vec":
                if n in ("new", "with_capacity"): return CVec([])
                if n == "from": return self.deref(args[0])
            if o in ("Some",):
                pass
            # associated function
            cands = [f for f in self.assoc(o, n)]
            if cands:
                if len(cands) > 1:
                    # prefer inherent, then by self/argument type
                    inh = [f for f in cands if f.trait is None]
                    cands = inh or cands
                f = cands[0]
                if f.selfk:
                    return self.call_fn(f, args[1:], selfv=args[0])
                return self.call_fn(f, args)
            if o in self.crate.traits and args:
                return self.method(args[0], n, args[1:], None)
            for f in self.crate.fns.get(n, []):
                if f.module == o:
                    return self.call_fn(f, args)
            if o in ("Default",) or n == "default":
                cands = self.assoc(o, n)
        raise Unsupported("call %s" % "::".join(segs))

    def mem(self, n, args):
        if n == "swap":
            a, b = args
            x, y = self.deref(a), self.deref(b)
            self.write(a.place, y)
            self.write(b.place, x)
            return UNIT
        if n == "replace":
            x = self.deref(args[0])
            self.write(args[0].place, self.deref(args[1]))
            return x
        raise Unsupported("mem::%s" % n)

    def assoc(self, o, n):
        return [i.fns[n] for i in self.crate.impls if n in i.fns and i.fns[n].owner == o]

    def e_mcall(self, e, env, want=None):
        name = e.name
        # receiver as place if it denotes one
        recv = None
        r = e.recv
        while r.k == "paren":
            r = r.e
        if r.k in ("path", "field", "index", "deref"):
            if not (r.k == "path" and (len(r.segs) > 1 or r.segs[0] not in env)):
                p = self.place(r, env, soft=(r.k == "index"))
                if isinstance(p, Place):
                    recv = Ref(p)
                else:
                    recv = p
        if recv is None:
            recv = self.expr(e.recv, env)
        if r.k == "index" and not isinstance(recv, Ref) and self.mut_method(self.deref(recv), name):
            recv = Ref(self.place(r, env, soft=False))
        args = [self.expr(a, env) for a in e.args]
        w = want
        if e.targs:
            w = e.targs[0]
        return self.method(recv, name, args, w)

    def mut_method(self, v, name):
        if isinstance(v, Struct):
            for i in self.crate.impls:
                if name in i.fns and i.fns[name].owner == v.name and i.fns[name].selfk == "refmut":
                    return True
        return isinstance(v, (CVec, SVec)) and name in ("iter_mut", "swap", "fill", "copy_from_slice", "clone_from", "push")

    def find_method(self, v, name, args):
        tn = self.type_name(v)
        c = []
        for i in self.crate.impls:
            if name not in i.fns:
                continue
            f = i.fns[name]
            it = ty_text(i.ty).replace("&", "").split("<")[0]
            if it == tn:
                c.append((0, i, f))
            elif i.gen and (" " + it + " ") in (" " + i.gen.replace("<", " < ").replace(">", " > ").replace(",", " , ").replace(":", " : ") + " ") and i.trait is not None:
                c.append((1, i, f))
        if not c:
            return None
        if len(c) > 1:
            # disambiguate generic traits by the types of the arguments
            for pr, i, f in c:
                if i.trait is not None and i.trait.k == "tpath" and i.trait.args:
                    ta = ty_text(i.trait.args[0]).split("<")[0].replace("&", "")
                    if any(self.type_name(a) == ta for a in args):
                        return f
            c2 = [x for x in c if x[1].trait is None] or [x for x in c if not (x[1].trait.args)] or c
            c2.sort(key=lambda x: x[0])
            return c2[0][2]
        return c[0][2]

    def method(self, recv, name, args, want):
        v = self.deref(recv)
        # --- crate methods first
        if isinstance(v, Abs):
            h = self.absmethods.get((v.trait, name)) or self.absmethods.get(name)
            if h is None:
                # default trait method
                for t, fns in self.crate.traits.items():
                    if t == v.trait and name in fns and fns[name].body is not None:
                        return self.call_fn(fns[name], args, selfv=recv)
                raise Unsupported("abstract method %s.%s" % (v.trait, name))
            return h(self, recv, args)
        if isinstance(v, Struct):
            f = self.find_method(v, name, args)
            if f is not None and f.selfk:
                return self.call_fn(f, args, selfv=recv)
            if name in ("clone", "to_owned"):
                return v
            if name == "clone_from":
                self.write(recv.place, self.deref(args[0]))
                return UNIT
            if name in ("borrow", "as_ref"):
                return v
            raise Unsupported("method %s on %s" % (name, v.name))
        if isinstance(v, T):
            return self.scalar_method(recv, v, name, args)
        if isinstance(v, (CVec, SVec)):
            return self.vec_method(recv, v, name, args, want)
        if isinstance(v, It) or isinstance(v, RangeV):
            return self.iter_method(recv, self.to_iter(v), name, args, want)
        if isinstance(v, Opt):
            return self.opt_method(recv, v, name, args)
        if isinstance(v, Res):
            return self.res_method(recv, v, name, args)
        if name in ("clone", "to_owned", "to_string"):
            return v
        if isinstance(v, (Closure, PyFn, FnRef)) and name in ("call", "call_mut", "call_once"):
            return self.call_value(v, args)
        if isinstance(v, Enum):
            f = self.find_method(v, name, args)
            if f is not None:
                return self.call_fn(f, args, selfv=recv)
        raise Unsupported("method %s on %s" % (name, type(v).__name__))

    def scalar_method(self, recv, v, name, args):
        a = [self.deref(x) for x in args]
        if name in ("clone", "to_owned", "copied", "into", "borrow"): return v
        if v.sort == "R":
            if name == "sqrt":
                self.oblige("sqrt argument non-negative", "div", le(rc(0), v))
                return sqrt_(v)
            if name == "abs": return abs_(v)
            if name == "exp": return exp_(v)
            if name == "ln":
                self.oblige("ln argument positive", "div", lt(rc(0), v))
                return ln_(v)
            if name == "log10":
                self.oblige("log10 argument positive", "div", lt(rc(0), v))
                return app("log10", (v,), "R")
            if name in ("cos", "sin", "tan"): return app(name, (v,), "R")
            if name == "floor": return toreal(floor_(v))
            if name == "ceil": return neg(toreal(floor_(neg(v))))
            if name == "round":
                r = app("round", (v,), "I")
                h = rc(Fr(1, 2))
                self.assume(and_(le(sub(toreal(r), h), v), le(v, add(toreal(r), h))))
                return toreal(r)
            if name == "powi" and is_c(a[0]):
                k = a[0].val
                if 0 <= k <= 8: return mul(*([v] * k)) if k else rc(1)
                if -4 <= k < 0:
                    self.oblige("divisor non-zero", "div", not_(eq(v, rc(0))))
                    return div(rc(1), mul(*([v] * -k)))
            if name == "powf": return app("powf", (v, toreal(a[0])), "R")
            if name == "recip":
                self.oblige("divisor non-zero", "div", not_(eq(v, rc(0))))
                return div(rc(1), v)
            if name == "mul_add": return add(mul(v, a[0]), a[1])
            if name == "hypot":
                return sqrt_(add(mul(v, v), mul(a[0], a[0])))
            if name in ("is_nan",): return FALSE
            if name in ("is_finite",): return TRUE
            if name in ("is_sign_negative",): return lt(v, rc(0))
            if name in ("is_sign_positive",): return le(rc(0), v)
            if name == "signum": return ite(le(rc(0), v), rc(1), rc(-1))
        if name == "max": return ite(le(a[0], v), v, coerce(a[0], v)[0])
        if name == "min": return ite(le(v, a[0]), v, coerce(a[0], v)[0])
        if name == "clamp": return ite(lt(v, a[0]), a[0], ite(lt(a[1], v), a[1], v))
        if name == "abs": return abs_(v)
        if name == "abs_diff": return abs_(sub(v, a[0]))
        if v.sort == "I":
            if name == "saturating_sub": return ite(le(a[0], v), sub(v, a[0]), ic(0))
            if name in ("wrapping_add", "saturating_add", "wrapping_mul", "saturating_mul"):
                return add(v, a[0]) if "add" in name else mul(v, a[0])
            if name == "checked_sub":
                return Opt(le(a[0], v), sub(v, a[0]))
            if name == "rem_euclid":
                q = app("ediv", (v, a[0]), "I")
                r = sub(v, mul(q, a[0]))
                self.assume(implies(lt(ic(0), a[0]), and_(le(ic(0), r), lt(r, a[0]))))
                return r
            if name == "pow" and is_c(a[0]): return mul(*([v] * a[0].val)) if a[0].val else ic(1)
            if name == "is_power_of_two": pass
        if name in ("eq", "ne", "lt", "le", "gt", "ge"):
            return self.binop({"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name], v, a[0])
        if name in ("add", "sub", "mul", "div"):
            return self.binop({"add": "+", "sub": "-", "mul": "*", "div": "/"}[name], v, a[0])
        if v.sort == "B" and name == "then":
            raise Unsupported("bool::then")
        if v.sort == "B" and name == "then_some":
            return Opt(v, a[0])
        raise Unsupported("method %s on scalar" % name)

    def opt_method(self, recv, v, name, args):
        if name == "is_some": return v.some
        if name == "is_none": return not_(v.some)
        if name in ("unwrap", "expect", "unwrap_unchecked"):
            self.oblige("unwrap on Some", "panic", v.some)
            if v.val is None:
                raise Stop()
            return v.val
        if name in ("as_ref", "clone", "cloned", "copied", "as_deref", "to_owned"):
            return Opt(v.some, v.val if v.val is None else self.deref(v.val))
        if name in ("as_mut",):
            return Opt(v.some, None if v.val is None else Ref(recv.place.add(("some", None))))
        if name == "unwrap_or":
            return self.deref(args[0]) if v.val is None else vite(v.some, self.deref(v.val), self.deref(args[0]))
        if name == "take":
            self.write(recv.place, Opt(FALSE, v.val))
            return v
        if name == "replace":
            self.write(recv.place, Opt(TRUE, self.deref(args[0])))
            return v
        if name == "insert":
            self.write(recv.place, Opt(TRUE, self.deref(args[0])))
            return Ref(recv.place.add(("some", None)))
        def fork():
            return self.choose([v.some, not_(v.some)]) == 0
        if name in ("map", "and_then", "unwrap_or_else", "map_or", "map_or_else", "ok_or", "filter", "is_some_and", "or", "or_else", "unwrap_or_default", "is_none_or"):
            def go():
                some = fork()
                if name == "map": return Opt(TRUE, self.call_value(args[0], [v.val])) if some else Opt(FALSE, None)
                if name == "and_then": return self.call_value(args[0], [v.val]) if some else Opt(FALSE, None)
                if name == "unwrap_or_else": return v.val if some else self.call_value(args[0], [])
                if name == "map_or": return self.call_value(args[1], [v.val]) if some else args[0]
                if name == "map_or_else": return self.call_value(args[1], [v.val]) if some else self.call_value(args[0], [])
                if name == "ok_or": return Res(TRUE, v.val, None) if some else Res(FALSE, None, args[0])
                if name == "is_some_and": return self.call_value(args[0], [v.val]) if some else FALSE
                if name == "is_none_or": return self.call_value(args[0], [v.val]) if some else TRUE
                if name == "or": return v if some else self.deref(args[0])
                if name == "or_else": return v if some else self.call_value(args[0], [])
                raise Unsupported("Option::%s" % name)
            if self.merge:
                return self.alternatives(self.explore(go))
            return go()
        raise Unsupported("Option::%s" % name)

    def res_method(self, recv, v, name, args):
        if name == "is_ok": return v.ok
        if name == "is_err": return not_(v.ok)
        if name in ("unwrap", "expect"):
            self.oblige("unwrap on Ok", "panic", v.ok)
            if v.v is None:
                raise Stop()
            return v.v
        if name == "ok": return Opt(v.ok, v.v)
        raise Unsupported("Result::%s" % name)

    def e_try(self, e, env):
        v = self.val(e.e, env)
        if isinstance(v, Opt):
            if self.choose([v.some, not_(v.some)]) == 0:
                return v.val
            raise Ret(Opt(FALSE, None))
        if isinstance(v, Res):
            if self.choose([v.ok, not_(v.ok)]) == 0:
                return v.v
            raise Ret(Res(FALSE, None, v.e))
        raise Unsupported("?")

    # ------------------------------------------------------------ vectors & iterators
    def vec_method(self, recv, v, name, args, want):
        if name == "len": return self.vec_len(v)
        if name == "is_empty": return eq(self.vec_len(v), ic(0))
        if name in ("clone", "to_vec", "to_owned", "as_slice", "as_ref", "as_mut_slice", "into_boxed_slice", "into_vec"):
            if name == "as_mut_slice": return recv
            return v
        if name == "clone_from" or name == "copy_from_slice" or name == "clone_from_slice":
            o = self.deref(args[0])
            if name != "clone_from":
                self.oblige("slice lengths equal", "panic", eq(self.vec_len(v), self.vec_len(o)))
            if not isinstance(recv, Ref):
                raise Unsupported("copy into non-place")
            self.write(recv.place, self.coerce_layout(o, v))
            return UNIT
        if name in ("iter", "into_iter"):
            return self.vec_iter(v)
        if name in ("iter_mut",):
            if not isinstance(recv, Ref):
                raise Unsupported("iter_mut on non-place")
            return self.vec_iter_mut(recv.place, v)
        if name == "fill":
            x = self.deref(args[0])
            self.write(recv.place, CVec([x] * len(v.xs)) if isinstance(v, CVec) else SVec(v.n, v.bvs, x, v.stride))
            return UNIT
        if name == "push":
            if isinstance(v, CVec):
                self.write(recv.place, CVec(v.xs + (self.deref(args[0]),)))
                return UNIT
            if isinstance(v, SVec) and v.stride is None:
                c = eq(v.bvs[0], v.n)
                self.write(recv.place, SVec(add(v.n, ic(1)), v.bvs, vite(c, self.deref(args[0]), v.elem)))
                return UNIT
        if name == "swap":
            i, j = self.deref(args[0]), self.deref(args[1])
            a, b = self.vec_get(v, i), self.vec_get(v, j)
            v = self.vec_set(v, i, b)
            self.write(recv.place, self.vec_set(v, j, a))
            return UNIT
        if name == "get":
            i = self.deref(args[0])
            c = and_(le(ic(0), i), lt(i, self.vec_len(v)))
            return Opt(c, self.vec_get(v, i, check=False))
        if name == "first":
            return Opt(lt(ic(0), self.vec_len(v)), self.vec_get(v, ic(0), check=False))
        if name == "last":
            n = self.vec_len(v)
            return Opt(lt(ic(0), n), self.vec_get(v, sub(n, ic(1)), check=False))
        if name == "extend" and isinstance(v, CVec):
            it = self.to_iter(args[0])
            if is_c(it.n):
                self.write(recv.place, CVec(list(v.xs) + [self.deref(it.get(ic(i))) for i in range(it.n.val)]))
                return UNIT
        if name in ("chunks_exact", "chunks") and isinstance(v, SVec) and v.stride is not None and self.deref(args[0]) is v.stride:
            rows = self.rows_of(v)
            def get(k):
                b = fresh("ix", "I")
                return SVec(v.stride, (b,), vsubst(v.elem, {v.bvs[0]: k, v.bvs[1]: b}))
            return It(rows, get)
        if name in ("chunks_exact", "chunks") and isinstance(v, CVec) and is_c(self.deref(args[0])):
            s = self.deref(args[0]).val
            return It(ic(-(-len(v.xs) // s)), lambda k: CVec(v.xs[k.val * s:(k.val + 1) * s]))
        return self.iter_method(recv, self.vec_iter(v), name, args, want) if name in ("sum",) else self._nov(name)
    def _nov(self, name):
        raise Unsupported("Vec::%s" % name)
    def coerce_layout(self, o, like):
        if isinstance(like, SVec) and isinstance(o, SVec) and (like.stride is None) != (o.stride is None):
            raise Unsupported("copy between layouts")
        return o
    def vec_iter(self, v):
        if isinstance(v, SVec) and v.stride is not None:
            return It(v.n, lambda k: self.flat_get(v, k), flat2=v.stride)
        return It(self.vec_len(v), lambda k: self.vec_get(v, k, check=False))
    def flat_get(self, v, k):
        if isinstance(k, tuple):
            return vsubst(v.elem, dict(zip(v.bvs, k)))
        return vsubst(v.elem, {v.bvs[0]: app("rowof", (k, v.stride), "I"), v.bvs[1]: app("colof", (k, v.stride), "I")})
    def vec_iter_mut(self, place, v):
        if isinstance(v, SVec) and v.stride is not None:
            return It(v.n, lambda k: Ref(place.add(("i", k if isinstance(k, tuple) else (app("rowof", (k, v.stride), "I"), app("colof", (k, v.stride), "I"))))), flat2=v.stride)
        return It(self.vec_len(v), lambda k: Ref(place.add(("i", k))))

    def to_iter(self, v):
        isref = isinstance(v, Ref)
        d = self.deref(v)
        if isinstance(d, It): return d
        if isinstance(d, RangeV):
            lo = d.lo
            if d.hi is None:
                return It(None, lambda k: add(lo, k))
            hi = add(d.hi, ic(1)) if d.incl else d.hi
            n = sub(hi, lo)
            if is_c(n):
                n = ic(max(0, n.val))
            elif not self.holds(le(ic(0), n), 500):
                n = ite(le(ic(0), n), n, ic(0))
            return It(n, lambda k: add(lo, k))
        if isinstance(d, (CVec, SVec)):
            return self.vec_iter_mut(v.place, d) if isref else self.vec_iter(d)
        if isinstance(d, Struct):
            f = self.find_method(d, "iter_mut" if isref else "iter", [])
            if f is not None:
                return self.to_iter(self.call_fn(f, [], selfv=v))
        if isinstance(d, Opt) and is_c(d.some):
            return It(ic(1 if d.some is TRUE else 0), lambda k: d.val)
        raise Unsupported("iterate over %s" % type(d).__name__)

    def min_n(self, a, b):
        if a is None: return b
        if b is None: return a
        if a is b: return a
        d = sub(a, b)
        if is_c(d):
            return a if d.val <= 0 else b
        if self.holds(eq(a, b), 700): return a
        if self.holds(le(a, b), 500): return a
        if self.holds(le(b, a), 500): return b
        return ite(le(a, b), a, b)

    def iter_method(self, recv, it, name, args, want):
        A = args
        if isinstance(it, FilterIt): return self.filter_method(it, name, A)
        if name in ("iter", "into_iter", "by_ref", "copied", "cloned", "iter_mut"):
            if name in ("copied", "cloned"):
                return It(it.n, lambda k: self.deref(it.get(k)), it.flat2)
            return it
        if name == "map":
            f = A[0]
            return It(it.n, lambda k: self.call_value(f, [it.get(k)]), it.flat2)
        if name == "enumerate":
            return It(it.n, lambda k: Tup([k, it.get(k)]))
        if name == "zip":
            o = self.to_iter(A[0])
            return It(self.min_n(it.n, o.n), lambda k: Tup([it.get(k), o.get(k)]), it.flat2 if it.flat2 is o.flat2 else (it.flat2 if o.n is None else None))
        if name == "rev":
            return It(it.n, lambda k: it.get(sub(sub(it.n, ic(1)), k)))
        if name == "skip":
            s = self.deref(A[0])
            n = None if it.n is None else sub(it.n, s)
            if n is not None:
                if is_c(n): n = ic(max(0, n.val))
                elif not self.holds(le(ic(0), n), 500): n = ite(le(ic(0), n), n, ic(0))
            return It(n, lambda k: it.get(add(k, s)))
        if name == "take":
            return It(self.min_n(self.deref(A[0]), it.n), it.get)
        if name == "chain":
            o = self.to_iter(A[0])
            if is_c(it.n) and is_c(o.n):
                m = it.n.val
                return It(ic(m + o.n.val), lambda k: it.get(k) if k.val < m else o.get(ic(k.val - m)))
            def get(k):
                return vite(lt(k, it.n), self.deref(it.get(k)), self.deref(o.get(sub(k, it.n))))
            return It(add(it.n, o.n), get)
        if name == "step_by":
            s = self.deref(A[0])
            if is_c(s) and s.val == 1: return it
            if is_c(it.n) and is_c(s):
                return It(ic(-(-it.n.val // s.val)), lambda k: it.get(ic(k.val * s.val)))
        if name == "sum":
            return self.iter_sum(it)
        if name == "product" and is_c(it.n):
            return mul(rc(1), *[self.deref(it.get(ic(i))) for i in range(it.n.val)])
        if name == "fold":
            acc = self.new_cell(self.deref(A[0]))
            f = A[1]
            def body(x):
                self.cells[acc] = self.deref(self.call_value(f, [self.cells[acc], x]))
            self.run_loop(it, body, "fold")
            return self.cells[acc]
        if name == "for_each":
            f = A[0]
            self.run_loop(it, lambda x: self.call_value(f, [x]), "for_each")
            return UNIT
        if name in ("all", "any"):
            f = A[0]
            if is_c(it.n):
                cs = [self.merged(lambda i=i: self.call_value(f, [it.get(ic(i))])) for i in range(it.n.val)]
                return and_(*cs) if name == "all" else or_(*cs)
            k = fresh("k", "I")
            c = self.under([le(ic(0), k), lt(k, it.n)], lambda: self.merged(lambda: self.call_value(f, [it.get(k)])))
            return forall(k, ic(0), it.n, c) if name == "all" else not_(forall(k, ic(0), it.n, not_(c)))
        if name == "collect":
            return self.collect(it, want)
        if name == "count": return it.n
        if name == "len": return it.n
        if name == "last" and is_c(it.n): return Opt(bc(it.n.val > 0), it.get(ic(it.n.val - 1)) if it.n.val else None)
        if name == "filter":
            f = A[0]
            if is_c(it.n):
                xs = []
                for i in range(it.n.val):
                    x = it.get(ic(i))
                    c = self.merged(lambda: self.call_value(f, [x]))
                    if not is_c(c):
                        i = self.choose([c, not_(c)])
                        c = bc(i == 0)
                    if c is TRUE:
                        xs.append(x)
                return It(ic(len(xs)), lambda k: xs[k.val])
            return FilterIt(it, [("filter", f)])
        if name in ("flat_map", "filter_map"): return FilterIt(it, [(name, A[0])])
        raise Unsupported("Iterator::%s" % name)

    def filter_method(self, it, name, A):
        if name in ("iter", "into_iter", "by_ref"): return it
        if name in ("copied", "cloned"): return FilterIt(it.it, it.stages + [("map", self.deref)])
        if name in ("map", "filter", "flat_map", "filter_map"): return FilterIt(it.it, it.stages + [(name, A[0])])
        if name == "sum": return self.iter_sum(it)
        if name == "count":
            return self.fold_cell(it, ic(0), lambda acc, x: add(acc, ic(1)))
        if name == "fold":
            return self.fold_cell(it, self.deref(A[0]), lambda acc, x: self.call_value(A[1], [acc, x]))
        if name == "for_each":
            self.run_loop(it, lambda x: self.call_value(A[0], [x]), "for_each")
            return UNIT
        raise Unsupported("Iterator::%s after a filter" % name)
    def fold_cell(self, it, init, f):
        acc = self.new_cell(init)
        def body(x): self.cells[acc] = self.deref(f(self.cells[acc], x))
        self.run_loop(it, body, "fold")
        return self.cells[acc]

    def under(self, hyps, thunk):
        n0 = len(self.pc)
        for h in hyps:
            self.assume(h)
        try:
            return thunk()
        finally:
            extra = self.pc[n0 + len(hyps):]
            self.pc = self.pc[:n0]

    def iter_sum(self, it):
        if isinstance(it, FilterIt):
            if any(k not in ("filter", "map") for k, f in it.stages) or it.it.n is None or is_c(it.it.n):
                return self.fold_cell(it, rc(0), lambda acc, x: add(acc, self.deref(x)))
            k = fresh("k", "I")
            def th():
                x, cs = it.it.get(k), []
                for kind, f in it.stages:
                    if kind == "filter": cs.append(self.merged(lambda: self.call_value(f, [x])))
                    else: x = self.merged(lambda: f(x) if callable(f) else self.call_value(f, [x]))
                return ite(and_(*cs), self.deref(x), rc(0))
            b = self.under([le(ic(0), k), lt(k, it.it.n)], th)
            if b.sort != "R": raise Unsupported("integer sum")
            return sum_(k, ic(0), it.it.n, b)
        if is_c(it.n):
            r = None
            for i in range(it.n.val):
                x = self.deref(self.merged(lambda: it.get(ic(i))))
                r = x if r is None else add(r, x)
            return r if r is not None else rc(0)
        if it.flat2 is not None:
            r, c = fresh("r", "I"), fresh("c", "I")
            rows = self.rows_from(it.n, it.flat2)
            b = self.under([le(ic(0), r), lt(r, rows), le(ic(0), c), lt(c, it.flat2)], lambda: self.deref(self.merged(lambda: it.get((r, c)))))
            return sum_(r, ic(0), rows, sum_(c, ic(0), it.flat2, b))
        k = fresh("k", "I")
        b = self.under([le(ic(0), k), lt(k, it.n)], lambda: self.deref(self.merged(lambda: it.get(k))))
        if b.sort != "R":
            raise Unsupported("integer sum")
        return sum_(k, ic(0), it.n, b)
    def rows_from(self, n, s):
        if n.op == "mul" and s in n.args:
            fs = list(n.args); fs.remove(s)
            return mul(*fs) if fs else ic(1)
        raise Unsupported("rows")

    def collect(self, it, want):
        if isinstance(it, FilterIt):
            raise Unsupported("filter+collect")
        if is_c(it.n):
            return CVec([self.deref(it.get(ic(i))) for i in range(it.n.val)])
        if it.flat2 is not None:
            r, c = fresh("ix", "I"), fresh("ix", "I")
            rows = self.rows_from(it.n, it.flat2)
            e = self.under([le(ic(0), r), lt(r, rows), le(ic(0), c), lt(c, it.flat2)], lambda: self.deref(self.merged(lambda: it.get((r, c)))))
            return SVec(it.n, (r, c), e, it.flat2)
        k = fresh("ix", "I")
        e = self.under([le(ic(0), k), lt(k, it.n)], lambda: self.deref(self.merged(lambda: it.get(k))))
        return SVec(it.n, (k,), e)

    # ------------------------------------------------------------ loops
    def e_for(self, e, env):
        it = self.to_iter(self.expr(e.it, env))
        def body(x):
            e2 = dict(env)
            self.bind(e.pat, x, e2)
            self.block(e.body, e2)
        n = getattr(it, "n", None)
        if n is not None and n.op == "mul" and len(n.args) == 2 and not any(is_c(a) for a in n.args) and it.flat2 is None and not has_exit(e.body):
            # an index that runs over the row-major content of a matrix: by rows and columns, in the same order
            a, b = n.args
            self.run_loop(It(a, lambda k: k), lambda r: self.run_loop(It(b, lambda k: k), lambda c_: body(it.get(add(mul(r, b), c_))), "for@%d" % e.line), "for@%d rows" % e.line)
            return UNIT
        self.run_loop(it, body, "for@%d" % e.line, label=e.label)
        return UNIT

    def e_while(self, e, env):
        from loops import run_while
        run_while(self, e, env)
        return UNIT
    def e_loop(self, e, env):
        from loops import run_while
        return run_while(self, e, env) or UNIT

    def run_loop(self, it, body, name, label=None):
        if isinstance(it, FilterIt):
            def through(x, st):
                if not st: return body(x)
                kind, f = st[0]
                if kind == "map": return through(f(x) if callable(f) else self.call_value(f, [x]), st[1:])
                if kind == "flat_map":
                    return self.run_loop(self.to_iter(self.call_value(f, [x])), lambda y: through(y, st[1:]), name + " inner")
                if kind == "filter":
                    c, y = self.merged(lambda: self.call_value(f, [x])), x
                else:
                    o = self.deref(self.call_value(f, [x]))
                    if not isinstance(o, Opt): raise Unsupported("filter_map")
                    c, y = o.some, o.val
                if is_c(c): return through(y, st[1:]) if c is TRUE else None
                def go():
                    if self.choose([c, not_(c)]) == 0: through(y, st[1:])
                return self.alternatives(self.explore(go)) if self.merge else go()
            return self.run_loop(it.it, lambda x: through(x, it.stages), name, label)
        if it.n is not None and is_c(it.n):
            if it.n.val > self.MAXUNROLL:
                raise Unsupported("unroll limit")
            for i in range(it.n.val):
                try:
                    if self.merge:
                        # keep per-iteration branches merged
                        def go(i=i):
                            body(it.get(ic(i)))
                            return UNIT
                        self.alternatives(self.explore(go))
                    else:
                        body(it.get(ic(i)))
                except Brk as b:
                    if b.label is not None and b.label != label:
                        raise
                    break
                except Cnt as c:
                    if c.label is not None and c.label != label:
                        raise
            return
        from loops import summarise
        return summarise(self, it, body, name, label)


class FilterIt(It):
    """elements of another iterator that pass through stages (filters, maps, inner iterators); no index of its own"""
    def __init__(self, it, stages):
        self.it, self.stages = it, stages
        self.n = None
        self.flat2 = None
    def get(self, k): raise Unsupported("index into a filtered iterator")
