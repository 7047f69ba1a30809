"""Symbolic values.  All immutable; scalars are terms (terms.T)."""
from terms import *

class Tup:
    def __init__(self, xs): self.xs = tuple(xs)
    def __repr__(self): return "Tup%r" % (self.xs,)
class Struct:
    def __init__(self, name, fs): self.name, self.fs = name, dict(fs)
    def __repr__(self): return "%s%r" % (self.name, self.fs)
    def get(self, f): return self.fs[f]
    def set(self, f, v):
        d = dict(self.fs); d[f] = v
        return Struct(self.name, d)
class Enum:
    """unit-only enum: code is an integer term"""
    def __init__(self, name, code): self.name, self.code = name, code
    def __repr__(self): return "%s#%r" % (self.name, self.code)
class Opt:
    def __init__(self, some, val): self.some, self.val = some, val
    def __repr__(self): return "Opt(%r,%r)" % (self.some, self.val)
class Res:
    def __init__(self, ok, v, e): self.ok, self.v, self.e = ok, v, e
    def __repr__(self): return "Res(%r,%r)" % (self.ok, self.v)
class Str:
    def __init__(self, s): self.s = s
    def __repr__(self): return "Str"
UNIT = Tup(())
class CVec:
    """concrete length"""
    def __init__(self, xs): self.xs = tuple(xs)
    @property
    def n(self): return ic(len(self.xs))
    def __repr__(self): return "CVec%r" % (self.xs,)
class SVec:
    """symbolic length; elem is a value over the binder variables bvs.
    stride: row length if the vector is the row-major content of a matrix (2 binders)"""
    def __init__(self, n, bvs, elem, stride=None):
        self.n, self.bvs, self.elem, self.stride = n, tuple(bvs), elem, stride
    def __repr__(self): return "SVec(n=%r,%r->%r)" % (self.n, self.bvs, self.elem)
class Ref:
    def __init__(self, place): self.place = place
    def __repr__(self): return "Ref%r" % (self.place,)
class Place:
    def __init__(self, cell, proj=()): self.cell, self.proj = cell, tuple(proj)
    def add(self, *p): return Place(self.cell, self.proj + tuple(p))
    def __repr__(self): return "@%s%r" % (self.cell, self.proj)
class Closure:
    def __init__(self, node, env, ex=None): self.node, self.env = node, env
class FnRef:
    def __init__(self, segs): self.segs = segs
class PyFn:
    def __init__(self, f): self.f = f
class It:
    """indexed sequence: n elements, get(k) -> value (k term)"""
    def __init__(self, n, get, flat2=None):
        self.n, self.get = n, get
        self.flat2 = flat2      # (stride) if the sequence walks a row-major matrix linearly
class RangeV:
    def __init__(self, lo, hi, incl): self.lo, self.hi, self.incl = lo, hi, incl
class Abs:
    """opaque value of an uninterpreted sort, with a trait name for method dispatch"""
    def __init__(self, trait, t): self.trait, self.t = trait, t
    def __repr__(self): return "Abs(%s,%r)" % (self.trait, self.t)

class Mismatch(Exception):
    pass

def vmap(v, f):
    """apply f to every scalar term leaf"""
    if isinstance(v, T): return f(v)
    if isinstance(v, Tup): return Tup([vmap(x, f) for x in v.xs])
    if isinstance(v, Struct): return Struct(v.name, {k: vmap(x, f) for k, x in v.fs.items()})
    if isinstance(v, Enum): return Enum(v.name, f(v.code))
    if isinstance(v, Opt): return Opt(f(v.some), None if v.val is None else vmap(v.val, f))
    if isinstance(v, Res): return Res(f(v.ok), None if v.v is None else vmap(v.v, f), None if v.e is None else vmap(v.e, f))
    if isinstance(v, CVec): return CVec([vmap(x, f) for x in v.xs])
    if isinstance(v, SVec): return SVec(f(v.n), v.bvs, vmap(v.elem, f), None if v.stride is None else f(v.stride))
    if isinstance(v, Abs): return Abs(v.trait, f(v.t))
    if isinstance(v, Ref):
        return Ref(Place(v.place.cell, [(a, f(b)) if isinstance(b, T) else (a, b) for a, b in v.place.proj]))
    return v

def vsubst(v, m):
    return vmap(v, lambda t: subst(t, m))
def vsubst_app(v, fm):
    return vmap(v, lambda t: subst_app(t, fm))

def align(a, b):
    """rename binders of SVec b to those of a"""
    if a.stride is None and b.stride is None:
        return SVec(b.n, a.bvs, vsubst(b.elem, dict(zip(b.bvs, a.bvs))))
    if a.stride is not None and b.stride is not None:
        return SVec(b.n, a.bvs, vsubst(b.elem, dict(zip(b.bvs, a.bvs))), b.stride)
    raise Mismatch("layout")

def vzip(a, b, f):
    """combine two values of the same shape leafwise"""
    if isinstance(a, T) and isinstance(b, T): return f(a, b)
    if type(a) is not type(b):
        raise Mismatch("%s vs %s" % (type(a).__name__, type(b).__name__))
    if isinstance(a, Tup):
        if len(a.xs) != len(b.xs): raise Mismatch("tuple")
        return Tup([vzip(x, y, f) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Struct):
        if a.name != b.name: raise Mismatch("struct")
        return Struct(a.name, {k: vzip(a.fs[k], b.fs[k], f) for k in a.fs})
    if isinstance(a, Enum): return Enum(a.name, f(a.code, b.code))
    if isinstance(a, Opt):
        av, bv = a.val, b.val
        if av is None: v = bv
        elif bv is None: v = av
        else: v = vzip(av, bv, f)
        return Opt(f(a.some, b.some), v)
    if isinstance(a, Res):
        def m(x, y):
            return y if x is None else x if y is None else vzip(x, y, f)
        return Res(f(a.ok, b.ok), m(a.v, b.v), m(a.e, b.e))
    if isinstance(a, CVec):
        if len(a.xs) != len(b.xs): raise Mismatch("len")
        return CVec([vzip(x, y, f) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, SVec):
        b = align(a, b)
        return SVec(f(a.n, b.n), a.bvs, vzip(a.elem, b.elem, f), None if a.stride is None else f(a.stride, b.stride))
    if isinstance(a, Abs): return Abs(a.trait, f(a.t, b.t))
    if isinstance(a, Ref):
        if a.place.cell == b.place.cell and a.place.proj == b.place.proj: return a
        raise Mismatch("ref")
    if isinstance(a, Str): return a
    if a is b: return a
    raise Mismatch(type(a).__name__)

def vite(c, a, b):
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    return vzip(a, b, lambda x, y: ite(c, x, y))

def leaves(v, path="", bvs=()):
    """[(path, binders, term)]"""
    if isinstance(v, T): return [(path, bvs, v)]
    if isinstance(v, Tup):
        return [l for i, x in enumerate(v.xs) for l in leaves(x, "%s.%d" % (path, i), bvs)]
    if isinstance(v, Struct):
        return [l for k, x in v.fs.items() for l in leaves(x, "%s.%s" % (path, k), bvs)]
    if isinstance(v, Enum): return [(path + "#tag", bvs, v.code)]
    if isinstance(v, Opt):
        return [(path + "#some", bvs, v.some)] + ([] if v.val is None else leaves(v.val, path + "?", bvs))
    if isinstance(v, Res):
        return [(path + "#ok", bvs, v.ok)] + ([] if v.v is None else leaves(v.v, path + "!", bvs)) + ([] if v.e is None else leaves(v.e, path + "!e", bvs))
    if isinstance(v, CVec):
        return [l for i, x in enumerate(v.xs) for l in leaves(x, "%s[%d]" % (path, i), bvs)]
    if isinstance(v, SVec):
        r = [(path + "#len", bvs, v.n)]
        if v.stride is not None: r.append((path + "#stride", bvs, v.stride))
        return r + leaves(v.elem, path + "[]", bvs + v.bvs)
    if isinstance(v, Abs): return [(path, bvs, v.t)]
    return []

def same(a, b):
    """identical values (syntactically)"""
    try:
        ok = [True]
        def f(x, y):
            if x is not y: ok[0] = False
            return x
        vzip(a, b, f)
        return ok[0]
    except Mismatch:
        return False
