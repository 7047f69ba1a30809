"""Rust front end: lexer + recursive-descent parser for the subset of Rust the
verified crate uses.  It reads /repo/src/**/*.rs on every run; nothing is cached
and nothing is hand-copied.  AST nodes are plain tuples/dicts: Node(kind, **fields).
Anything outside the subset raises Unsupported(kind, line) *for the enclosing
function only* (items are parsed lazily from their token span)."""
import re

class Unsupported(Exception):
    pass

class Node:
    __slots__ = ("k", "line", "__dict__")
    def __init__(self, k, line=0, **kw):
        self.k = k
        self.line = line
        self.__dict__.update(kw)
    def __repr__(self):
        return "%s(%s)" % (self.k, ", ".join("%s=%r" % (a, b) for a, b in self.__dict__.items()))

TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<float>[0-9][0-9_]*(?:\.[0-9][0-9_]*(?:[eE][+-]?[0-9_]+)?|[eE][+-]?[0-9_]+)(?:_?f64|_?f32)?|[0-9][0-9_]*(?:f64|f32)|[0-9][0-9_]*\.(?![0-9A-Za-z_.]))
 |(?P<int>0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*(?:usize|isize|u8|u16|u32|u64|u128|i8|i16|i32|i64|i128)?)
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<rstr>r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<char>'(?:\\.|[^'\\])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><<=|>>=|\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X)

def lex(src):
    toks = []
    i = 0
    line = 1
    n = len(src)
    while i < n:
        if src.startswith("/*", i):
            d = 1
            j = i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            i = j
            continue
        m = TOK.match(src, i)
        if not m:
            raise Unsupported("lex error at line %d: %r" % (line, src[i:i + 20]))
        kind = m.lastgroup
        if kind == "h":
            kind = "rstr"
        t = m.group(0)
        if kind not in ("ws", "lc"):
            if kind == "rstr":
                kind = "str"
            toks.append((kind, t, line))
        line += t.count("\n")
        i = m.end()
    toks.append(("eof", "", line))
    return toks

BINPREC = [
    ("||", 1), ("&&", 2),
    ("==", 3), ("!=", 3), ("<", 3), (">", 3), ("<=", 3), (">=", 3),
    ("|", 4), ("^", 5), ("&", 6), ("<<", 7), (">>", 7),
    ("+", 8), ("-", 8), ("*", 9), ("/", 9), ("%", 9),
]
PREC = dict(BINPREC)
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="}

class P:
    def __init__(self, toks, pos=0):
        self.t = toks
        self.i = pos

    # --- token helpers
    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else ""
    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else "eof"
    @property
    def line(self):
        return self.t[min(self.i, len(self.t) - 1)][2]
    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t[1]
    def fail(self, msg):
        raise Unsupported("line %d: %s (at %r)" % (self.line, msg, self.peek()))
    def split(self):
        """split a multi-char operator token so its first char can be consumed"""
        kind, t, l = self.t[self.i]
        self.t = self.t[:self.i] + [(kind, t[0], l), (kind, t[1:], l)] + self.t[self.i + 1:]
    def expect(self, s):
        p = self.peek()
        if p != s:
            if self.kind() == "op" and p.startswith(s) and len(p) > len(s) and len(s) == 1:
                self.split()
            else:
                self.fail("expected %r" % s)
        return self.next()
    def accept(self, s):
        if self.peek() == s and self.kind() in ("op", "id"):
            self.i += 1
            return True
        return False
    def ident(self):
        if self.kind() != "id":
            self.fail("expected identifier")
        t = self.next()
        return t[2:] if t.startswith("r#") else t

    def skip_balanced(self):
        """at an opening bracket: skip to just past its partner, return token slice inside"""
        o = self.next()
        c = {"(": ")", "[": "]", "{": "}"}[o]
        d = 1
        s = self.i
        pairs = {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}
        while d:
            k, t, _ = self.t[self.i]
            if k == "eof":
                self.fail("unbalanced")
            if k == "op":
                d += pairs.get(t, 0)
            self.i += 1
        return self.t[s:self.i - 1]

    def attrs(self):
        out = []
        while self.peek() == "#" and self.kind() == "op":
            self.next()
            self.accept("!")
            out.append("".join(t[1] for t in self.skip_balanced()))
        return out

    def skip_generics(self):
        """at '<' : skip to matching '>'; returns text"""
        out = []
        d = 0
        while True:
            k, t, _ = self.t[self.i]
            if k == "eof":
                self.fail("generics")
            if k == "op":
                if t in ("<", "<<"):
                    d += len(t)
                elif t in (">", ">>"):
                    if len(t) > d:
                        self.split(); continue
                    d -= len(t)
                elif t in (">=", ">>="):
                    self.split(); continue
                elif t in ("(", "["):
                    out.append(t)
                    inner = self.skip_balanced()
                    out += [x[1] for x in inner] + [")" if t == "(" else "]"]
                    continue
            out.append(t)
            self.i += 1
            if d == 0:
                return " ".join(out)

    # --- types
    def type_(self):
        l = self.line
        if self.accept("&") :
            if self.kind() == "life":
                self.next()
            m = self.accept("mut")
            return Node("tref", l, mut=m, ty=self.type_())
        if self.peek() == "&&":
            self.split(); return self.type_()
        if self.accept("*"):
            self.next()
            return Node("tptr", l, ty=self.type_())
        if self.accept("("):
            ts = []
            while not self.accept(")"):
                ts.append(self.type_())
                self.accept(",")
            return Node("ttuple", l, tys=ts)
        if self.accept("["):
            t = self.type_()
            if self.accept(";"):
                n = self.expr()
                self.expect("]")
                return Node("tarray", l, ty=t, n=n)
            self.expect("]")
            return Node("tslice", l, ty=t)
        if self.peek() in ("impl", "dyn"):
            self.next()
            ts = [self.bound()]
            while self.accept("+"):
                ts.append(self.bound())
            return Node("timpl", l, bounds=ts)
        if self.accept("!"):
            return Node("tnever", l)
        if self.accept("_"):
            return Node("tinfer", l)
        if self.peek() == "fn":
            self.next()
            return self.fntail("fn", l)
        if self.peek() == "<":
            txt = self.skip_generics()
            segs = []
            while self.accept("::"):
                segs.append(self.ident())
            return Node("tpath", l, segs=segs or ["?"], args=[], text=txt)
        return self.tpath()

    def bound(self):
        if self.kind() == "life":
            self.next(); return Node("tlife")
        self.accept("?")
        if self.peek() == "for":
            self.next(); self.skip_generics()
        return self.tpath()

    def fntail(self, name, l):
        self.expect("(")
        ts = []
        while not self.accept(")"):
            ts.append(self.type_())
            self.accept(",")
        r = None
        if self.accept("->"):
            r = self.type_()
        return Node("tfn", l, name=name, args=ts, ret=r)

    def tpath(self):
        l = self.line
        self.accept("::")
        segs = [self.ident()]
        args = []
        while True:
            if self.peek() == "<" or (self.peek() == "::" and self.peek(1) == "<"):
                self.accept("::")
                self.expect("<")
                args = []
                while True:
                    if self.peek() in (">", ">>", ">=", ">>="):
                        self.expect(">")
                        break
                    if self.kind() == "life":
                        self.next()
                    elif self.kind() == "id" and self.peek(1) == "=" :
                        self.next(); self.next()
                        args.append(self.type_())
                    elif self.kind() in ("int",):
                        self.next()
                    else:
                        args.append(self.type_())
                    self.accept(",")
            elif self.peek() == "(" and segs[-1] in ("Fn", "FnMut", "FnOnce"):
                return self.fntail(segs[-1], l)
            elif self.peek() == "::" and self.kind(1) == "id":
                self.next()
                segs.append(self.ident())
            else:
                break
        return Node("tpath", l, segs=segs, args=args)

    # --- patterns
    def pat(self):
        l = self.line
        p = self.pat1()
        if self.peek() == "|":
            alts = [p]
            while self.accept("|"):
                alts.append(self.pat1())
            return Node("por", l, alts=alts)
        return p

    def pat1(self):
        l = self.line
        self.attrs()
        if self.accept("|"):
            return self.pat()
        if self.peek() == "&&":
            self.split()
        if self.accept("&"):
            self.accept("mut")
            return Node("pref", l, pat=self.pat1())
        if self.accept("_"):
            return Node("pwild", l)
        if self.accept("("):
            ps = []
            trailing = False
            while not self.accept(")"):
                if self.accept(".."):
                    ps.append(Node("prest", l))
                else:
                    ps.append(self.pat())
                trailing = self.accept(",")
            if len(ps) == 1 and not trailing and ps[0].k != "prest":
                return ps[0]
            return Node("ptuple", l, pats=ps)
        if self.accept("["):
            ps = []
            while not self.accept("]"):
                if self.accept(".."):
                    ps.append(Node("prest", l))
                else:
                    ps.append(self.pat())
                self.accept(",")
            return Node("pslice", l, pats=ps)
        if self.kind() in ("int", "float", "str", "char") or self.peek() == "-" or self.peek() in ("true", "false"):
            e = self.unary()
            if self.peek() in ("..=", ".."):
                op = self.next()
                hi = None
                if self.kind() in ("int", "float") or self.peek() == "-":
                    hi = self.unary()
                return Node("prange", l, lo=e, hi=hi, incl=(op == "..="))
            return Node("plit", l, e=e)
        if self.peek() in ("..=",):
            self.next()
            return Node("prange", l, lo=None, hi=self.unary(), incl=True)
        byref = self.accept("ref")
        mut = self.accept("mut")
        if self.kind() == "id":
            segs = [self.ident()]
            while self.peek() == "::":
                self.next()
                if self.peek() == "<":
                    self.skip_generics()
                else:
                    segs.append(self.ident())
            if self.accept("("):
                ps = []
                while not self.accept(")"):
                    if self.accept(".."):
                        ps.append(Node("prest", l))
                    else:
                        ps.append(self.pat())
                    self.accept(",")
                return Node("pts", l, segs=segs, pats=ps)
            if self.peek() == "{":
                self.next()
                fs = []
                rest = False
                while not self.accept("}"):
                    if self.accept(".."):
                        rest = True
                        continue
                    self.accept("ref")
                    m = self.accept("mut")
                    f = self.ident()
                    if self.accept(":"):
                        fs.append((f, self.pat()))
                    else:
                        fs.append((f, Node("pid", l, name=f, mut=m, byref=False, sub=None)))
                    self.accept(",")
                return Node("pstruct", l, segs=segs, fields=fs, rest=rest)
            if len(segs) > 1 or (segs[0][0].isupper() and not mut and not byref):
                return Node("ppath", l, segs=segs)
            sub = None
            if self.accept("@"):
                sub = self.pat1()
            return Node("pid", l, name=segs[0], mut=mut, byref=byref, sub=sub)
        self.fail("pattern")

    # --- expressions
    def expr(self, nostruct=False):
        return self.assign(nostruct)

    def assign(self, ns):
        l = self.line
        left = self.range_(ns)
        if self.kind() == "op" and self.peek() in ASSIGN:
            op = self.next()
            right = self.assign(ns)
            return Node("assign", l, op=op, l=left, r=right)
        return left

    def _range_end(self, ns):
        t = self.peek()
        return not (t in (")", "]", "}", ",", ";", "=>") or (t == "{" and ns) or self.kind() == "eof")

    def range_(self, ns):
        l = self.line
        if self.peek() in ("..", "..="):
            op = self.next()
            hi = self.binary(0, ns) if self._range_end(ns) else None
            return Node("range", l, lo=None, hi=hi, incl=op == "..=")
        e = self.binary(0, ns)
        if self.peek() in ("..", "..="):
            op = self.next()
            hi = self.binary(0, ns) if self._range_end(ns) else None
            return Node("range", l, lo=e, hi=hi, incl=op == "..=")
        return e

    def binary(self, minp, ns):
        l = self.line
        left = self.cast(ns)
        while True:
            op = self.peek()
            if self.kind() != "op" or op not in PREC or PREC[op] < minp or PREC[op] == 0:
                return left
            p = PREC[op]
            if p <= minp and minp != 0:
                return left
            self.next()
            right = self.binary(p, ns)
            left = Node("bin", l, op=op, l=left, r=right)

    def cast(self, ns):
        e = self.unary(ns)
        while self.peek() == "as" and self.kind() == "id":
            l = self.line
            self.next()
            e = Node("cast", l, e=e, ty=self.type_())
        return e

    def unary(self, ns=False):
        l = self.line
        if self.kind() == "op":
            if self.accept("-"):
                return Node("un", l, op="-", e=self.unary(ns))
            if self.accept("!"):
                return Node("un", l, op="!", e=self.unary(ns))
            if self.accept("*"):
                return Node("deref", l, e=self.unary(ns))
            if self.peek() == "&&":
                self.split()
            if self.accept("&"):
                m = self.accept("mut")
                return Node("ref", l, mut=m, e=self.unary(ns))
        return self.postfix(ns)

    def args(self):
        out = []
        while not self.accept(")"):
            out.append(self.expr())
            self.accept(",")
        return out

    def postfix(self, ns):
        e = self.primary(ns)
        while True:
            l = self.line
            if self.peek() == "?" and self.kind() == "op":
                self.next()
                e = Node("try", l, e=e)
            elif self.peek() == "." and self.kind() == "op":
                self.next()
                if self.kind() == "int":
                    e = Node("field", l, e=e, name=self.next())
                elif self.kind() == "float":
                    a, b = self.next().split(".")[:2]
                    e = Node("field", l, e=e, name=a)
                    if b:
                        e = Node("field", l, e=e, name=b)
                else:
                    name = self.ident()
                    targs = []
                    if self.peek() == "::":
                        self.next()
                        save = self.i
                        self.expect("<")
                        while self.peek() not in (">", ">>"):
                            targs.append(self.type_())
                            self.accept(",")
                        self.expect(">")
                    if self.peek() == "(" and self.kind() == "op":
                        self.next()
                        e = Node("mcall", l, recv=e, name=name, args=self.args(), targs=targs)
                    else:
                        e = Node("field", l, e=e, name=name)
            elif self.peek() == "(" and self.kind() == "op" and e.k not in ("if", "match", "block", "for", "while", "loop"):
                self.next()
                e = Node("call", l, f=e, args=self.args())
            elif self.peek() == "[" and self.kind() == "op" and e.k not in ("if", "match", "block", "for", "while", "loop"):
                self.next()
                ix = self.expr()
                self.expect("]")
                e = Node("index", l, e=e, i=ix)
            else:
                return e

    def primary(self, ns):
        l = self.line
        k = self.kind()
        t = self.peek()
        if k == "float":
            self.next()
            return Node("float", l, v=re.sub(r"_?f(64|32)$", "", t).replace("_", ""))
        if k == "int":
            self.next()
            m = re.match(r"^(.*?)(usize|isize|[ui](?:8|16|32|64|128))?$", t)
            suf = m.group(2)
            body = m.group(1)
            return Node("int", l, v=int(body.replace("_", ""), 0 if body[:2] in ("0x", "0b") else 10), suf=suf)
        if k == "str":
            self.next()
            return Node("str", l, v=t)
        if k == "char":
            self.next()
            return Node("str", l, v=t)
        if k == "life":
            lab = self.next()
            self.expect(":")
            e = self.primary(ns)
            e.label = lab
            return e
        if k == "op":
            if t == "(":
                self.next()
                es = []
                comma = False
                while not self.accept(")"):
                    es.append(self.expr())
                    comma = self.accept(",")
                if len(es) == 1 and not comma:
                    return Node("paren", l, e=es[0])
                return Node("tuple", l, es=es)
            if t == "[":
                self.next()
                es = []
                while not self.accept("]"):
                    es.append(self.expr())
                    if self.accept(";"):
                        n = self.expr()
                        self.expect("]")
                        return Node("arrrep", l, e=es[0], n=n)
                    self.accept(",")
                return Node("arrlit", l, es=es)
            if t == "{":
                return self.block()
            if t in ("|", "||"):
                return self.closure(l, False)
            if t == "<":
                txt = self.skip_generics()
                segs = []
                while self.accept("::"):
                    segs.append(self.ident())
                ty = re.sub(r"^<|>$", "", txt).split(" as ")[0].strip().split("<")[0].strip()
                return Node("path", l, segs=[ty.split("::")[-1].strip()] + segs, targs=[], qself=txt)
            if t == "#":
                self.attrs()
                return self.expr()
        if k == "id":
            if t == "if":
                return self.if_()
            if t == "match":
                return self.match_()
            if t in ("for", "while", "loop"):
                return self.loop_()
            if t == "unsafe" and self.peek(1) == "{":
                self.fail("unsafe block")
            if t == "move":
                self.next()
                return self.closure(l, True)
            if t == "return":
                self.next()
                e = self.expr() if self._range_end(False) else None
                return Node("return", l, e=e)
            if t == "break":
                self.next()
                lab = self.next() if self.kind() == "life" else None
                e = self.expr() if self._range_end(ns) else None
                return Node("break", l, e=e, label=lab)
            if t == "continue":
                self.next()
                lab = self.next() if self.kind() == "life" else None
                return Node("continue", l, label=lab)
            if t in ("true", "false"):
                self.next()
                return Node("bool", l, v=t == "true")
            if t == "let":   # let in condition
                self.next()
                p = self.pat()
                self.expect("=")
                e = self.binary(2, True)
                return Node("letcond", l, pat=p, e=e)
            # path
            segs = [self.ident()]
            targs = []
            while self.peek() == "::":
                if self.peek(1) == "<":
                    self.next()
                    self.expect("<")
                    targs = []
                    while self.peek() not in (">", ">>"):
                        targs.append(self.type_())
                        self.accept(",")
                    self.expect(">")
                elif self.kind(1) == "id":
                    self.next()
                    segs.append(self.ident())
                else:
                    break
            if self.peek() == "!" and self.kind() == "op" and self.peek(1) in ("(", "[", "{"):
                self.next()
                return self.macro(segs[-1], l)
            if self.peek() == "{" and not ns and (segs[-1][0].isupper()) and self._looks_struct():
                self.next()
                fs = []
                base = None
                while not self.accept("}"):
                    self.attrs()
                    if self.accept(".."):
                        base = self.expr()
                        continue
                    f = self.next()
                    if self.accept(":"):
                        fs.append((f, self.expr()))
                    else:
                        fs.append((f, Node("path", l, segs=[f], targs=[])))
                    self.accept(",")
                return Node("struct", l, segs=segs, fields=fs, base=base)
            return Node("path", l, segs=segs, targs=targs)
        self.fail("expression")

    def _looks_struct(self):
        # Ident {  } | Ident { name : | Ident { name , | Ident { name } | Ident { ..
        a, b = self.peek(1), self.peek(2)
        return a == "}" or a == ".." or a == "#" or (self.kind(1) in ("id", "int") and b in (":", ",", "}"))

    def macro(self, name, l):
        toks = self.skip_balanced()
        if name in ("assert", "debug_assert", "assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne", "vec", "unreachable",
                    "panic", "todo", "unimplemented", "matches"):
            p = P(toks + [("eof", "", l)])
            if name in ("unreachable", "panic", "todo", "unimplemented"):
                return Node("macro", l, name=name, args=[])
            if name == "matches":
                e = p.expr()
                p.expect(",")
                pt = p.pat()
                g = None
                if p.accept("if"):
                    g = p.expr()
                return Node("match", l, e=e, arms=[(pt, g, Node("bool", l, v=True)), (Node("pwild", l), None, Node("bool", l, v=False))])
            args = []
            while p.kind() != "eof":
                args.append(p.expr())
                if p.accept(";"):
                    n = p.expr()
                    return Node("vecrep", l, e=args[0], n=n)
                if not p.accept(","):
                    break
            if name == "vec":
                return Node("veclit", l, es=args)
            return Node("macro", l, name=name, args=args)
        if name in ("println", "print", "eprintln", "eprint", "info", "debug", "trace", "warn", "error", "log"):
            return Node("tuple", l, es=[])
        if name in ("format", "write", "writeln", "concat", "stringify"):
            return Node("str", l, v="<%s!>" % name)
        raise Unsupported("line %d: macro %s!" % (l, name))

    def closure(self, l, move):
        params = []
        if self.accept("||"):
            pass
        else:
            self.expect("|")
            while not self.accept("|"):
                p = self.pat1()
                ty = None
                if self.accept(":"):
                    ty = self.type_()
                params.append((p, ty))
                self.accept(",")
        if self.accept("->"):
            self.type_()
            body = self.block()
        else:
            body = self.expr()
        return Node("closure", l, params=params, body=body, move=move)

    def if_(self):
        l = self.line
        self.expect("if")
        c = self.cond()
        th = self.block()
        el = None
        if self.accept("else"):
            el = self.if_() if self.peek() == "if" else self.block()
        return Node("if", l, c=c, th=th, el=el)

    def cond(self):
        return self.expr(nostruct=True)

    def match_(self):
        l = self.line
        self.expect("match")
        e = self.expr(nostruct=True)
        self.expect("{")
        arms = []
        while not self.accept("}"):
            self.attrs()
            p = self.pat()
            g = None
            if self.accept("if"):
                g = self.expr()
            self.expect("=>")
            b = self.expr()
            self.accept(",")
            arms.append((p, g, b))
        return Node("match", l, e=e, arms=arms)

    def loop_(self):
        l = self.line
        t = self.next()
        if t == "for":
            p = self.pat()
            self.expect("in")
            it = self.expr(nostruct=True)
            return Node("for", l, pat=p, it=it, body=self.block(), label=None)
        if t == "while":
            c = self.cond()
            return Node("while", l, c=c, body=self.block(), label=None)
        return Node("loop", l, body=self.block(), label=None)

    def block(self):
        l = self.line
        self.expect("{")
        stmts = []
        tail = None
        while not self.accept("}"):
            if self.accept(";"):
                continue
            self.attrs()
            if self.peek() == "let" and self.kind() == "id":
                ll = self.line
                self.next()
                p = self.pat()
                ty = None
                if self.accept(":"):
                    ty = self.type_()
                init = None
                els = None
                if self.accept("="):
                    init = self.expr()
                    if self.accept("else"):
                        els = self.block()
                self.expect(";")
                stmts.append(Node("let", ll, pat=p, ty=ty, init=init, els=els))
                continue
            if self.peek() in ("fn", "use", "const", "static", "struct", "enum", "type", "impl", "trait") and self.kind() == "id" and self.peek(1) != "{":
                if self.peek() == "use" or self.peek() == "type":
                    while self.next() != ";":
                        pass
                    continue
                if self.peek() in ("const", "static") and self.peek(1) != "fn":
                    self.next()
                    self.accept("mut")
                    n = self.ident()
                    self.expect(":")
                    ty = self.type_()
                    self.expect("=")
                    e = self.expr()
                    self.expect(";")
                    stmts.append(Node("let", l, pat=Node("pid", l, name=n, mut=False, byref=False, sub=None), ty=ty, init=e, els=None))
                    continue
                if self.peek() == "fn":
                    f = self.fn_([], False)
                    stmts.append(Node("fnstmt", l, fn=f))
                    continue
                self.fail("item in block")
            # statement-position block-like expression ends the statement
            if (self.kind() == "id" and self.peek() in ("if", "match", "for", "while", "loop")) or self.kind() == "life" or \
               (self.kind() == "op" and self.peek() == "{"):
                ll = self.line
                e = self.primary(False)
                if self.peek() == "." or self.peek() == "?":
                    # method call on block-like: rare; re-parse as expression
                    e = self._continue_postfix(e)
                    if self.accept(";"):
                        stmts.append(Node("expr", ll, e=e, semi=True))
                        continue
                    if self.peek() == "}":
                        tail = e
                        continue
                    self.fail("statement")
                if self.accept(";"):
                    stmts.append(Node("expr", ll, e=e, semi=True))
                elif self.peek() == "}":
                    tail = e
                else:
                    stmts.append(Node("expr", ll, e=e, semi=False))
                continue
            ll = self.line
            e = self.expr()
            if self.accept(";"):
                stmts.append(Node("expr", ll, e=e, semi=True))
            elif self.peek() == "}":
                tail = e
            else:
                self.fail("statement end")
        return Node("block", l, stmts=stmts, tail=tail)

    def _continue_postfix(self, e):
        save = self.primary
        try:
            self.primary = lambda ns: e
            return self.postfix(False)
        finally:
            self.primary = save

    # --- items
    def fn_(self, attrs, pub):
        l = self.line
        while self.peek() in ("const", "async", "unsafe", "extern"):
            self.next()
        self.expect("fn")
        name = self.ident()
        gen = self.skip_generics() if self.peek() == "<" else ""
        self.expect("(")
        params = []
        selfk = None
        while not self.accept(")"):
            self.attrs()
            # self forms
            save = self.i
            if self.peek() == "&" or self.peek() == "self" or self.peek() == "mut":
                amp = self.accept("&")
                if amp and self.kind() == "life":
                    self.next()
                m = self.accept("mut")
                if self.peek() == "self":
                    self.next()
                    if self.accept(":"):
                        self.type_()
                    selfk = ("refmut" if m else "ref") if amp else "value"
                    self.accept(",")
                    continue
                self.i = save
            p = self.pat1()
            self.expect(":")
            ty = self.type_()
            params.append((p, ty))
            self.accept(",")
        ret = None
        if self.accept("->"):
            ret = self.type_()
        where = ""
        if self.peek() == "where":
            s = self.i
            while self.peek() not in ("{", ";"):
                if self.peek() == "<":
                    self.skip_generics()
                else:
                    self.next()
            where = " ".join(t[1] for t in self.t[s:self.i])
        if self.accept(";"):
            return Fn(name, params, selfk, ret, None, l, gen, where, attrs)
        s = self.i
        self.skip_balanced()
        return Fn(name, params, selfk, ret, self.t[s:self.i] + [("eof", "", self.line)], l, gen, where, attrs)


class Fn:
    """A function item; the body is parsed on first use so that an unsupported
    construct only affects the function that contains it."""
    def __init__(self, name, params, selfk, ret, toks, line, gen, where, attrs):
        self.name, self.params, self.selfk, self.ret = name, params, selfk, ret
        self.toks, self.line, self.gen, self.where, self.attrs = toks, line, gen, where, attrs
        self._body = None
        self.owner = None      # impl type name
        self.trait = None
        self.file = None
        self.module = None
    @property
    def body(self):
        if self._body is None:
            if self.toks is None:
                return None
            p = P(self.toks)
            self._body = p.block()
            self.ntok = len(self.toks)
        return self._body
    @property
    def qual(self):
        return "%s::%s" % (self.owner, self.name) if self.owner else "%s::%s" % (self.module, self.name)


class Impl:
    def __init__(self, ty, trait, gen, fns, line, tyargs, trait_args):
        self.ty, self.trait, self.gen, self.fns, self.line = ty, trait, gen, fns, line
        self.tyargs, self.trait_args = tyargs, trait_args


def ty_text(t):
    if t is None:
        return "()"
    if t.k == "tref":
        return "&" + ("mut " if t.mut else "") + ty_text(t.ty)
    if t.k == "tpath":
        return t.segs[-1] + ("<%s>" % ",".join(ty_text(a) for a in t.args) if t.args else "")
    if t.k == "ttuple":
        return "(%s)" % ",".join(ty_text(a) for a in t.tys)
    if t.k == "tarray":
        return "[%s;n]" % ty_text(t.ty)
    if t.k == "tslice":
        return "[%s]" % ty_text(t.ty)
    return t.k


class Module:
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.fns, self.impls, self.structs, self.enums, self.consts, self.traits = {}, [], {}, {}, {}, {}
        self.errors = []


def parse_file(path, modname):
    src = open(path, encoding="utf-8").read()
    m = Module(modname, path)
    p = P(lex(src))
    items(p, m, False)
    return m


def skip_item(p):
    """skip to the end of the current item: first ';' or '{...}' at depth 0"""
    while True:
        t = p.peek()
        if p.kind() == "eof":
            return
        if t == ";" and p.kind() == "op":
            p.next()
            return
        if t == "{" and p.kind() == "op":
            p.skip_balanced()
            return
        if t in ("(", "[") and p.kind() == "op":
            p.skip_balanced()
            continue
        p.next()


def items(p, m, nested):
    while p.kind() != "eof" and not (nested and p.peek() == "}"):
        at = p.attrs()
        if p.kind() == "eof":
            break
        test = any("cfg(test)" in a or a == "test" for a in at)
        save = p.i
        pub = False
        if p.accept("pub"):
            pub = True
            if p.peek() == "(":
                p.skip_balanced()
        t = p.peek()
        if test:
            skip_item(p)
            continue
        try:
            if t == "fn" or (t in ("const", "async", "unsafe") and p.peek(1) == "fn"):
                f = p.fn_(at, pub)
                f.module, f.file = m.name, m.file
                m.fns[f.name] = f
            elif t == "impl":
                m.impls.append(impl_(p, m))
            elif t == "struct":
                l = p.line
                p.next()
                n = p.ident()
                if p.peek() == "<":
                    p.skip_generics()
                fields = []
                if p.peek() == "where":
                    while p.peek() not in ("{", ";"):
                        p.next()
                if p.accept("("):
                    i = 0
                    while not p.accept(")"):
                        p.attrs()
                        if p.accept("pub") and p.peek() == "(":
                            p.skip_balanced()
                        fields.append((str(i), p.type_()))
                        i += 1
                        p.accept(",")
                    p.accept(";")
                elif p.accept("{"):
                    while not p.accept("}"):
                        p.attrs()
                        if p.accept("pub") and p.peek() == "(":
                            p.skip_balanced()
                        f = p.ident()
                        p.expect(":")
                        fields.append((f, p.type_()))
                        p.accept(",")
                else:
                    p.accept(";")
                m.structs[n] = fields
            elif t == "enum":
                p.next()
                n = p.ident()
                vs = []
                if p.peek() == "<":
                    p.skip_generics()
                p.expect("{")
                while not p.accept("}"):
                    p.attrs()
                    v = p.ident()
                    pay = 0
                    if p.peek() in ("(", "{"):
                        p.skip_balanced()
                        pay = 1
                    if p.accept("="):
                        p.expr()
                    vs.append((v, pay))
                    p.accept(",")
                m.enums[n] = vs
            elif t in ("const", "static"):
                p.next()
                p.accept("mut")
                n = p.ident()
                p.expect(":")
                p.type_()
                p.expect("=")
                m.consts[n] = p.expr()
                p.expect(";")
            elif t == "trait":
                p.next()
                n = p.ident()
                if p.peek() == "<":
                    p.skip_generics()
                while p.peek() != "{":
                    p.next()
                p.next()
                fns = {}
                while not p.accept("}"):
                    a = p.attrs()
                    if p.peek() == "fn":
                        f = p.fn_(a, True)
                        f.module, f.file, f.trait, f.owner = m.name, m.file, n, n
                        fns[f.name] = f
                    else:
                        skip_item(p)
                m.traits[n] = fns
            else:
                skip_item(p)
        except Unsupported as e:
            m.errors.append(str(e))
            p.i = save
            skip_item(p)


def impl_(p, m):
    l = p.line
    p.expect("impl")
    gen = ""
    if p.peek() == "<":
        gen = p.skip_generics()
    p.accept("!")
    t1 = p.type_()
    trait = None
    targs = []
    if p.accept("for"):
        trait = t1
        t1 = p.type_()
    while p.peek() != "{":
        if p.peek() == "<":
            p.skip_generics()
        else:
            p.next()
    p.next()
    fns = {}
    while not p.accept("}"):
        a = p.attrs()
        save = p.i
        if p.accept("pub") and p.peek() == "(":
            p.skip_balanced()
        if p.peek() == "fn" or (p.peek() in ("const", "async", "unsafe") and p.peek(1) == "fn"):
            f = p.fn_(a, True)
            f.module, f.file = m.name, m.file
            f.owner = ty_text(t1).replace("&", "").split("<")[0]
            f.trait = trait.segs[-1] if trait is not None and trait.k == "tpath" else None
            fns[f.name] = f
        else:
            skip_item(p)
    return Impl(t1, trait, gen, fns, l, ty_text(t1), ty_text(trait) if trait is not None else None)


def parse_crate(root):
    """parse every module reachable from src/lib.rs through `mod x;` declarations"""
    import os
    mods = {}
    def visit(path, modpath):
        src = open(path, encoding="utf-8").read()
        toks = lex(src)
        name = modpath[-1] if modpath else "crate"
        m = parse_file(path, name)
        mods["::".join(modpath) or "crate"] = m
        p = P(toks)
        d = os.path.dirname(path)
        base = os.path.basename(path)
        sub = d if base in ("lib.rs", "mod.rs", "main.rs") else os.path.join(d, base[:-3])
        while p.kind() != "eof":
            at = p.attrs()
            if p.kind() == "eof":
                break
            if p.accept("pub") and p.peek() == "(":
                p.skip_balanced()
            if p.peek() == "mod" and p.kind(1) == "id" and p.peek(2) == ";" and not any("cfg(test)" in a for a in at):
                n = p.peek(1)
                for c in (os.path.join(sub, n + ".rs"), os.path.join(sub, n, "mod.rs")):
                    if os.path.exists(c):
                        visit(c, modpath + [n])
                        break
            skip_item(p)
    visit(os.path.join(root, "src", "lib.rs"), [])
    return mods

if __name__ == "__main__":
    import sys
    ms = parse_crate(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    bad = 0
    for k, m in ms.items():
        for e in m.errors:
            print("ITEM ERR", k, e); bad += 1
        fs = list(m.fns.values()) + [f for i in m.impls for f in i.fns.values()] + [f for t in m.traits.values() for f in t.values()]
        for f in fs:
            try:
                f.body
            except Unsupported as e:
                print("FN ERR", k, f.name, e); bad += 1
        print(k, len(fs))
    print("bad", bad)
