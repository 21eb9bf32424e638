"""Term evaluation: path-wise abstract evaluation of a function body over uninterpreted terms.

Every expression becomes a term in normal form (integer/real arithmetic as polynomials, string concatenation flattened,
constants folded); every path through the body gets the tests it passed, the calls and stores it performed, in order,
and how it left.  Helper functions and methods of the same object are entered, so that code moved into a helper gives
the same terms.  Loop bodies are traversed once, for a generic element.  Nothing is executed; no solver decides tests:
a test is only resolved when it folds to a constant or was taken before on the same path.
"""
import ast
from .repo import Cls, Func, Module

NONE = ("c", None)
TRUE, FALSE = ("c", True), ("c", False)
FRESH = ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.ndarray", "numpy.array", "numpy.full", "numpy.empty_like", "numpy.zeros_like")


def c(v):
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        v = int(v)
    return ("c", v)


def isnum(t):
    return t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def isstr(t):
    return t[0] == "c" and isinstance(t[1], str) or t[0] in ("cat", "fmt")


def poly(t):
    if t[0] == "p":
        return dict(t[1])
    if isnum(t):
        return {(): t[1]} if t[1] else {}
    return {((t, 1),): 1}


def mkpoly(d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return c(0)
    if len(d) == 1:
        k, v = next(iter(d.items()))
        if k == ():
            return c(v)
        if v == 1 and len(k) == 1 and k[0][1] == 1:
            return k[0][0]
    return ("p", tuple(sorted(((k, (int(v) if isinstance(v, float) and v == int(v) else v)) for k, v in d.items()), key=repr)))


def add(a, b, sign=1):
    d = poly(a)
    for k, v in poly(b).items():
        d[k] = d.get(k, 0) + sign * v
    return mkpoly(d)


def mul(a, b):
    out = {}
    for k1, v1 in poly(a).items():
        for k2, v2 in poly(b).items():
            m = {}
            for t, e in k1 + k2:
                m[t] = m.get(t, 0) + e
            k = tuple(sorted(((t, e) for t, e in m.items() if e), key=repr))
            out[k] = out.get(k, 0) + v1 * v2
    return mkpoly(out)


def power(a, n):
    d = poly(a)
    if len(d) == 1:
        (k, v), = d.items()
        if v > 0 or n == int(n):
            try:
                return mkpoly({tuple((t, e * n) for t, e in k): v ** n})
            except (OverflowError, ZeroDivisionError):
                pass
    if n == int(n) and 0 < n < 5:
        r = a
        for _ in range(int(n) - 1):
            r = mul(r, a)
        return r
    return mkpoly({((a, n),): 1})


def div(a, b):
    return mul(a, power(b, -1))


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if d > 8:
        return "…"
    s = lambda x: show(x, d + 1)
    if k == "c":
        return repr(t[1])
    if k == "p":
        return "(" + " + ".join("*".join(([] if v == 1 and m else [repr(v)]) + [s(x) + ("" if e == 1 else "^%s" % e) for x, e in m]) for m, v in t[1]) + ")"
    if k in ("arg", "fn", "cls", "ext", "mod", "glob"):
        return str(t[-1] if k != "glob" else t[2])
    if k == "attr":
        return s(t[1]) + "." + t[2]
    if k == "ix":
        return s(t[1]) + "[" + s(t[2]) + "]"
    if k == "slice":
        return ":".join("" if x == NONE else s(x) for x in t[1:])
    if k == "call":
        return s(t[1]) + "(" + ", ".join([s(x) for x in t[2]] + ["%s=%s" % (n, s(x)) for n, x in t[3]]) + ")"
    if k == "new":
        return "new%d:%s" % (t[1], s(t[2]))
    if k == "tup":
        return "[" + ", ".join(s(x) for x in t[2]) + "]"
    if k == "cmp":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k == "not":
        return "not " + s(t[1])
    if k == "elem":
        return "elem(%s)" % s(t[1])
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in t[1:]) + ")"


class Path:
    def __init__(self):
        self.env, self.heap, self.guards, self.log, self.exit, self.ret, self.loops, self.exc = {}, {}, [], [], None, None, (), None

    def copy(self):
        p = Path()
        p.env, p.heap, p.guards, p.log = dict(self.env), dict(self.heap), list(self.guards), list(self.log)
        p.exit, p.ret, p.loops, p.exc = self.exit, self.ret, self.loops, self.exc
        return p

    def known(self, t):
        for g, b in reversed(self.guards):
            if g == t:
                return b
        return None

    def g(self):
        return {show(t): b for t, b in self.guards}


class Fr:
    def __init__(self, fn, cls, depth, stack, owner=None):
        self.fn, self.cls, self.depth, self.stack, self.owner = fn, cls, depth, stack, owner
        self.mod = fn.module


class TE:
    def __init__(self, prog, keep=None, enter=None, maxdepth=5, maxpaths=3000, consts=None, assume=None):
        self.prog, self.keep, self.enter, self.maxdepth, self.maxpaths = prog, keep or (lambda f: False), enter, maxdepth, maxpaths
        self.n = 0
        self.consts = consts or {}
        self.assume = assume           # term -> True/False/None, extra knowledge about tests
        self.fold = {}

    # -- module-level constants -----------------------------------------
    def glob(self, mod, name):
        key = (mod.name, name)
        if key in self.consts:
            return self.consts[key]
        if key in self.fold:
            return self.fold[key]
        self.fold[key] = ("glob", mod.name, name)
        e = mod.assigns.get(name)
        if e is not None and sum(1 for x in ast.walk(mod.tree) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)) == 1:
            try:
                v = self.cexpr(e, mod)
            except _No:
                v = None
            if v is not None and v[0] in ("c", "tup"):
                self.fold[key] = v
        return self.fold[key]

    def cexpr(self, e, mod):
        f = Func("<module>", ast.parse("def f(): pass").body[0], mod)
        p = Path()
        r = self.ev(e, p, Fr(f, None, self.maxdepth, ()))
        if len(r) != 1:
            raise _No()
        return r[0][1]

    # -- expressions: list of (path, term) ------------------------------
    def evs(self, es, p, fr):
        out = [(p, ())]
        for e in es:
            nxt = []
            for q, vs in out:
                if q.exit:
                    nxt.append((q, vs + (NONE,)))
                    continue
                for q2, v in self.ev(e, q, fr):
                    nxt.append((q2, vs + (v,)))
            out = nxt
        return out

    def map(self, es, p, fr, f):
        out = []
        for q, vs in self.evs(es, p, fr):
            if q.exit:
                out.append((q, NONE))
            else:
                r = f(q, *vs)
                out.extend(r if isinstance(r, list) else [(q, r)])
        return out

    def ev(self, e, p, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(p, ("expr", ast.dump(e)))]
        return m(e, p, fr)

    def e_Constant(self, e, p, fr):
        return [(p, c(e.value))]

    def e_Name(self, e, p, fr):
        if e.id in p.env:
            return [(p, p.env[e.id])]
        return [(p, self.gname(e.id, fr))]

    def gname(self, n, fr):
        r = self.prog.lookup(fr.mod, n)
        return self.wrap(r, n)

    def wrap(self, r, n):
        if isinstance(r, Func):
            return ("fn", r.module.name + ":" + r.qual)
        if isinstance(r, Cls):
            return ("cls", r.name)
        if isinstance(r, Module):
            return ("mod", r.name)
        if isinstance(r, tuple) and r[0] == "ext":
            return ("ext", r[1])
        if isinstance(r, tuple) and r[0] == "assign":
            return self.glob(r[1], r[2])
        return ("ext", n)

    def e_Attribute(self, e, p, fr):
        return self.map([e.value], p, fr, lambda q, b: self.attr(q, b, e.attr))

    def attr(self, q, b, n):
        if b[0] == "ext":
            return ("ext", b[1] + "." + n)
        if b[0] == "mod":
            r = self.prog.lookup(self.prog.modules[b[1]], n)
            return self.wrap(r, n) if r is not None else ("ext", b[1] + "." + n)
        t = ("attr", b, n)
        if t in q.heap:
            return q.heap[t]
        if b[0] == "cls" and self.prog.has_cls(b[1]):
            k = self.prog.cls(b[1])
            a = k.find_assign(n)
            if a is not None:
                x = a[1] if isinstance(a, tuple) else a
                if isinstance(x, ast.Constant):
                    return c(x.value)
        return t

    def e_Subscript(self, e, p, fr):
        return self.map([e.value, e.slice], p, fr, lambda q, b, i: self.ix(q, b, i))

    def ix(self, q, b, i):
        t = ("ix", b, i)
        if t in q.heap:
            return q.heap[t]
        if b[0] == "tup" and i[0] == "c" and isinstance(i[1], int) and not isinstance(i[1], bool) and -len(b[2]) <= i[1] < len(b[2]):
            return b[2][i[1]]
        if b[0] == "dict":
            for k, v in b[1]:
                if k == i and i[0] == "c":
                    return v
            if i[0] != "c" and i[0] != "slice" and len(b[1]) <= 8 and all(k[0] == "c" for k, v in b[1]):
                out, cur = [], q
                for k, v in b[1]:
                    nxt = None
                    for r, y in self.test(self.cmp("==", i, k), cur):
                        if y:
                            out.append((r, v))
                        else:
                            nxt = r
                    cur = nxt
                    if cur is None:
                        return out
                cur.exit, cur.exc = "raise", "KeyError"
                return out + [(cur, NONE)]
        if b[0] == "c" and isinstance(b[1], (str, bytes)) and i[0] == "c" and isinstance(i[1], int):
            try:
                return c(b[1][i[1]])
            except IndexError:
                pass
        if b[0] == "c" and isinstance(b[1], str) and i[0] == "slice" and all(x[0] == "c" for x in i[1:]):
            return c(b[1][slice(*[x[1] for x in i[1:]])])
        return t

    def e_Slice(self, e, p, fr):
        return self.map([x or ast.Constant(None) for x in (e.lower, e.upper, e.step)], p, fr, lambda q, a, b, s: ("slice", a, b, s))

    def e_Tuple(self, e, p, fr):
        return self.map(e.elts, p, fr, lambda q, *vs: ("tup", type(e).__name__, vs))
    e_Set = e_Tuple

    def e_List(self, e, p, fr):
        if not e.elts:
            self.n += 1
            return [(p, ("new", self.n, ("tup", "List", ())))]
        return self.e_Tuple(e, p, fr)

    def e_Dict(self, e, p, fr):
        if not e.keys:
            self.n += 1
            return [(p, ("new", self.n, ("dict", ())))]
        n = len(e.keys)
        return self.map([k or ast.Constant("**") for k in e.keys] + list(e.values), p, fr, lambda q, *vs: ("dict", tuple(zip(vs[:n], vs[n:]))))

    def e_Starred(self, e, p, fr):
        return self.map([e.value], p, fr, lambda q, v: ("star", v))

    def e_UnaryOp(self, e, p, fr):
        def f(q, v):
            if isinstance(e.op, ast.USub):
                return mul(c(-1), v)
            if isinstance(e.op, ast.Not):
                return self.neg(v)
            if isinstance(e.op, ast.UAdd):
                return v
            return ("un", type(e.op).__name__, v)
        return self.map([e.operand], p, fr, f)

    def neg(self, v):
        if v[0] == "c":
            return c(not v[1])
        if v[0] == "not":
            return v[1]
        if v[0] == "cmp":
            o = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}.get(v[1])
            if o:
                return self.cmp(o, v[2], v[3])
        return ("not", v)

    def e_BinOp(self, e, p, fr):
        return self.map([e.left, e.right], p, fr, lambda q, a, b: self.bin(e.op, a, b))

    def bin(self, op, a, b):
        if isinstance(op, ast.Add):
            if isstr(a) or isstr(b):
                return self.cat(a, b)
            if a[0] == "tup" and b[0] == "tup":
                return ("tup", a[1], a[2] + b[2])
            if a[0] == "c" and b[0] == "c" and isinstance(a[1], bytes) and isinstance(b[1], bytes):
                return c(a[1] + b[1])
            return add(a, b)
        if isinstance(op, ast.Sub):
            return add(a, b, -1)
        if isinstance(op, ast.Mult):
            if a[0] == "c" and b[0] == "c" and not (isnum(a) and isnum(b)):
                try:
                    return c(a[1] * b[1])
                except TypeError:
                    pass
            return mul(a, b)
        if isinstance(op, ast.Div):
            if isnum(b) and b[1] == 0:
                return ("bin", "Div", a, b)
            return div(a, b)
        if isinstance(op, ast.Pow) and isnum(b):
            return power(a, b[1])
        if isinstance(op, ast.Mod) and isstr(a):
            if a[0] == "c":
                ps = a[1].split("%s")
                vs = b[2] if b[0] == "tup" else (b,)
                if "%" not in "".join(ps) and len(ps) == len(vs) + 1:
                    r = c(ps[0])
                    for v, x in zip(vs, ps[1:]):
                        r = self.cat(self.cat(r, v), c(x))
                    return r
            return ("fmt", a, b)
        if isnum(a) and isnum(b):
            try:
                if isinstance(op, ast.FloorDiv):
                    return c(a[1] // b[1])
                if isinstance(op, ast.Mod):
                    return c(a[1] % b[1])
            except ZeroDivisionError:
                pass
        return ("bin", type(op).__name__, a, b)

    def cat(self, a, b):
        parts = []
        for x in (a, b):
            for y in (x[1] if x[0] == "cat" else (x,)):
                if parts and parts[-1][0] == "c" and y[0] == "c" and isinstance(y[1], str) and isinstance(parts[-1][1], str):
                    parts[-1] = c(parts[-1][1] + y[1])
                else:
                    parts.append(y)
        parts = [x for x in parts if x != c("")]
        return parts[0] if len(parts) == 1 else c("") if not parts else ("cat", tuple(parts))

    def e_JoinedStr(self, e, p, fr):
        es = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]

        def f(q, *vs):
            r = c("")
            for v, n in zip(vs, e.values):
                sp = getattr(n, "format_spec", None)
                if isinstance(sp, ast.JoinedStr) and all(isinstance(x, ast.Constant) for x in sp.values) and sp.values:
                    v = ("fspec", v, "".join(x.value for x in sp.values))
                r = self.cat(r, v)
            return r
        return self.map(es, p, fr, f)

    def cmp(self, o, a, b):
        if a[0] == "c" and b[0] == "c":
            try:
                r = {"==": lambda: a[1] == b[1], "!=": lambda: a[1] != b[1], "<": lambda: a[1] < b[1], "<=": lambda: a[1] <= b[1],
                     ">": lambda: a[1] > b[1], ">=": lambda: a[1] >= b[1], "is": lambda: a[1] is b[1] or a[1] == b[1] and a[1] is not None and b[1] is not None,
                     "isnot": lambda: not (a[1] is b[1]), "in": lambda: a[1] in b[1], "notin": lambda: a[1] not in b[1]}[o]()
                return c(r)
            except (TypeError, KeyError):
                pass
        if o in ("in", "notin") and b[0] == "tup" and a[0] == "c" and all(x[0] == "c" for x in b[2]):
            return c((a in b[2]) == (o == "in"))
        if o in ("is", "isnot", "==", "!=") and (a == NONE or b == NONE):
            x = b if a == NONE else a
            if x[0] in ("tup", "dict", "new", "cat", "fmt", "p"):
                return c(o in ("isnot", "!="))
            return ("cmp", {"is": "is", "==": "is", "isnot": "isnot", "!=": "isnot"}[o], x, NONE)
        if o == "is":
            o = "=="
        if o == "isnot":
            o = "!="
        if o in (">", ">="):
            o, a, b = {">": "<", ">=": "<="}[o], b, a
        if o in ("==", "!=") and repr(b) < repr(a):
            a, b = b, a
        return ("cmp", o, a, b)

    def e_Compare(self, e, p, fr):
        ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

        def f(q, *vs):
            r = [self.cmp(ops[type(o)], vs[i], vs[i + 1]) for i, o in enumerate(e.ops)]
            return r[0] if len(r) == 1 else ("and",) + tuple(r)
        return self.map([e.left] + e.comparators, p, fr, f)

    def e_BoolOp(self, e, p, fr):
        # path-splitting, so that the value is the one Python would give
        isand = isinstance(e.op, ast.And)
        out = []
        cur = [p]
        for i, x in enumerate(e.values):
            nxt = []
            for q in cur:
                for q2, v in self.ev(x, q, fr):
                    if q2.exit:
                        out.append((q2, NONE))
                        continue
                    if i == len(e.values) - 1:
                        out.append((q2, v))
                        continue
                    for q3, b in self.test(v, q2):
                        if b == isand:
                            nxt.append(q3)
                        else:
                            out.append((q3, c(not isand) if v[0] in ("cmp", "not") or v[0] == "c" and isinstance(v[1], bool) else v))
            cur = nxt
        return out

    def e_IfExp(self, e, p, fr):
        out = []
        for q, t in self.ev(e.test, p, fr):
            if q.exit:
                out.append((q, NONE))
                continue
            for q2, b in self.test(t, q):
                out.extend(self.ev(e.body if b else e.orelse, q2, fr))
        return out

    def e_NamedExpr(self, e, p, fr):
        def f(q, v):
            q.env[e.target.id] = v
            return v
        return self.map([e.value], p, fr, f)

    def e_Lambda(self, e, p, fr):
        return [(p, ("lam", e.lineno, e.col_offset, ast.dump(e)))]

    def comp(self, e, p, fr):
        out = []
        for q, it in self.ev(e.generators[0].iter, p, fr):
            if q.exit:
                out.append((q, NONE))
                continue
            r = q.copy()
            self.bind(e.generators[0].target, self.element(it), r, fr)
            conds = []
            for x in e.generators[0].ifs:
                (r, v) = self.ev(x, r, fr)[0]
                conds.append(v)
            for g in e.generators[1:]:
                (r, it2) = self.ev(g.iter, r, fr)[0]
                self.bind(g.target, self.element(it2), r, fr)
                for x in g.ifs:
                    (r, v) = self.ev(x, r, fr)[0]
                    conds.append(v)
            if isinstance(e, ast.DictComp):
                (r, k) = self.ev(e.key, r, fr)[0]
                vals = self.ev(e.value, r, fr)
                v = ("tup", "Tuple", (k, vals[0][1]))
            else:
                vals = self.ev(e.elt, r, fr)
                v = vals[0][1]
            q.log.extend(vals[0][0].log[len(q.log):])
            out.append((q, ("comp", v, it, tuple(conds))))
        return out
    e_ListComp = e_GeneratorExp = e_SetComp = e_DictComp = comp

    def element(self, it):
        """generic element of an iterable"""
        if it[0] == "call" and it[1] == ("ext", "range"):
            if len(it[2]) == 1:
                return ("iv", it)
            return ("iv", it)
        if it[0] == "call" and it[1] == ("ext", "enumerate"):
            return ("tup", "Tuple", (("iv", ("len", it[2][0])), self.element(it[2][0])))
        if it[0] == "call" and it[1] == ("ext", "zip"):
            return ("tup", "Tuple", tuple(self.element(x) for x in it[2]))
        if it[0] == "call" and it[1][0] == "attr" and it[1][2] == "items" and not it[2]:
            return ("tup", "Tuple", (("key", it[1][1]), ("elem", it[1][1])))
        if it[0] == "call" and it[1][0] == "attr" and it[1][2] == "values" and not it[2]:
            return ("elem", it[1][1])
        if it[0] == "call" and it[1] == ("ext", "list") and len(it[2]) == 1:
            return self.element(it[2][0])
        return ("elem", it)

    # -- calls -----------------------------------------------------------
    def e_Call(self, e, p, fr):
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" \
                and fr.owner is not None and "self" in p.env:
            k = fr.cls or fr.owner
            base = k.find_after(fr.owner, f.attr)
            return self.map(list(e.args) + [k2.value for k2 in e.keywords], p, fr,
                            lambda q, *vs: self.docall(q, ("super", f.attr), vs[:len(e.args)], self.kws(e, vs[len(e.args):]), e, fr,
                                                       base, q.env["self"] if f.attr != "__new__" else None, k))
        es = [f] + list(e.args) + [k.value for k in e.keywords]

        def g(q, fv, *vs):
            a, kw = vs[:len(e.args)], self.kws(e, vs[len(e.args):])
            fn, slf, cls = self.target(fv, q, fr)
            return self.docall(q, fv, a, kw, e, fr, fn, slf, cls)
        return self.map(es, p, fr, g)

    def kws(self, e, vs):
        return tuple((k.arg or "**", v) for k, v in zip(e.keywords, vs))

    def target(self, fv, q, fr):
        if fv[0] == "fn":
            mod, _, qual = fv[1].partition(":")
            fn = self.prog.modules[mod].functions.get(qual) if mod in self.prog.modules else None
            return fn, None, None
        if fv[0] == "attr":
            b, n = fv[1], fv[2]
            k = self.clsof(b, fr)
            if k is not None:
                fn = k.find(n)
                if fn is not None:
                    st = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.node.decorator_list)
                    return fn, (None if st else b), k
            if b[0] == "cls" and self.prog.has_cls(b[1]):
                fn = self.prog.cls(b[1]).find(n)
                if fn is not None:
                    return fn, ("unbound",), None
        return None, None, None

    def clsof(self, b, fr):
        if b == ("arg", "self"):
            return fr.cls
        if b[0] == "obj" and self.prog.has_cls(b[1]):
            return self.prog.cls(b[1])
        return None

    def docall(self, q, fv, a, kw, node, fr, fn, slf, cls):
        r = self.builtin(q, fv, a, kw)
        if r is not None:
            return r
        if fn is not None and not self.keep(fn) and len(fr.stack) < self.maxdepth and fn.node not in fr.stack and not any(x[0] == "star" for x in a) \
                and not any(k == "**" for k, _ in kw) and (self.enter(fn, fv) if self.enter else True):
            if slf == ("unbound",):
                if a:
                    slf, a = a[0], a[1:]
                    cls = self.clsof(slf, fr) or fn.cls
            if slf != ("unbound",):
                return self.invoke(q, fn, slf, cls, a, dict(kw), fr)
        t = ("call", fv, tuple(a), tuple(sorted(kw)))
        if fv[0] == "ext" and fv[1] in FRESH or fv[0] == "ext" and fv[1] in ("list", "dict", "set") and not a:
            self.n += 1
            t = ("new", self.n, t)
        q.log.append(("call", t, node, q.loops, fr.fn))
        return t

    def builtin(self, q, fv, a, kw):
        if fv[0] == "attr" and fv[1][0] == "c" and isinstance(fv[1][1], (str, bytes)) and all(x[0] == "c" for x in a) and not kw:
            n = fv[2]
            if n in ("lower", "upper", "strip", "ljust", "rjust", "encode", "decode", "lstrip", "rstrip", "title", "startswith", "endswith", "find"):
                try:
                    return c(getattr(fv[1][1], n)(*[x[1] for x in a]))
                except Exception:
                    return None
        if fv[0] == "attr" and fv[2] == "get" and fv[1][0] == "dict" and len(a) in (1, 2) and not kw and all(k[0] == "c" for k, v in fv[1][1]) and len(fv[1][1]) <= 8:
            out, cur = [], q
            for k, v in fv[1][1]:
                nxt = None
                for r, y in self.test(self.cmp("==", a[0], k), cur):
                    if y:
                        out.append((r, v))
                    else:
                        nxt = r
                cur = nxt
                if cur is None:
                    return out
            return out + [(cur, a[1] if len(a) > 1 else NONE)]
        if fv[0] == "attr" and fv[2] in ("lower", "upper", "strip") and not a and not kw and fv[1][0] == "call" and fv[1][1][0] == "attr" and fv[1][1][2] == fv[2] and not fv[1][2]:
            return fv[1]
        if fv == ("ext", "len") and len(a) == 1:
            x = a[0]
            if x[0] == "c" and isinstance(x[1], (str, bytes)):
                return c(len(x[1]))
            if x[0] == "tup":
                return c(len(x[2]))
            return ("len", x)
        if fv == ("ext", "float") and len(a) == 1 and isnum(a[0]):
            return a[0]
        if fv == ("ext", "str") and len(a) == 1 and a[0][0] == "c" and isinstance(a[0][1], (str, int)):
            return c(str(a[0][1]))
        return None

    def invoke(self, q, fn, slf, cls, a, kw, fr):
        args = fn.node.args
        names = [x.arg for x in args.posonlyargs + args.args]
        env = {}
        vals = list(a)
        if slf is not None and names:
            env[names[0]] = slf
            names = names[1:]
        for n, v in zip(names, vals):
            env[n] = v
        if len(vals) > len(names):
            if args.vararg:
                env[args.vararg.arg] = ("tup", "Tuple", tuple(vals[len(names):]))
        elif args.vararg:
            env[args.vararg.arg] = ("tup", "Tuple", ())
        known = names + [x.arg for x in args.kwonlyargs]
        rest = []
        for k, v in kw.items():
            if k in known:
                env[k] = v
            else:
                rest.append((c(k), v))
        if args.kwarg:
            env[args.kwarg.arg] = ("dict", tuple(rest))
        f2 = Fr(fn, cls or fr.cls if slf is not None else None, fr.depth + 1, fr.stack + (fn.node,), fn.cls)
        allp = args.posonlyargs + args.args
        for x, d in list(zip(allp[len(allp) - len(args.defaults):], args.defaults)) + [(x, d) for x, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]:
            if x.arg not in env:
                env[x.arg] = self.ev(d, Path(), f2)[0][1]
        for x in allp + args.kwonlyargs:
            env.setdefault(x.arg, ("missing", x.arg))
        saved = q.env
        q.env = env
        out = []
        for r in self.block(fn.node.body, [q], f2):
            v = r.ret if r.exit == "return" else NONE
            if r.exit in ("return", None):
                r.exit = None
                r.ret = None
            r.env = dict(saved)
            out.append((r, v if v is not None else NONE))
        return out

    # -- tests -------------------------------------------------------------
    def test(self, t, q):
        if t[0] == "c":
            return [(q, bool(t[1]))]
        if t[0] == "tup":
            return [(q, bool(t[2]))]
        flip = False
        if t[0] == "not":
            t, flip = t[1], True
        if t[0] == "cmp" and t[1] in ("!=", "isnot", "notin", "<="):
            n = self.neg(t)
            if t[1] != "<=" or n[0] == "cmp" and n[1] == "<":
                t, flip = n, not flip
        if t[0] == "c":
            return [(q, bool(t[1]) != flip)]
        if t[0] == "and":
            out = []
            cur = [q]
            for x in t[1:]:
                nxt = []
                for r in cur:
                    for r2, b in self.test(x, r):
                        (nxt if b else out).append(r2 if b else (r2, flip))
                cur = nxt
            return out + [(r, not flip) for r in cur]
        if t[0] == "cmp" and t[1] == "in" and t[3][0] == "tup" and 0 < len(t[3][2]) <= 8 and all(x[0] == "c" for x in t[3][2]) and t[2][0] != "c":
            out, cur = [], q
            for x in t[3][2]:
                nxt = None
                for r, b in self.test(self.cmp("==", t[2], x), cur):
                    if b:
                        out.append((r, not flip))
                    else:
                        nxt = r
                cur = nxt
                if cur is None:
                    return out
            return out + [(cur, flip)]
        if t[0] == "cmp" and t[1] in ("<", "==") and c(0) in t[2:]:
            x = t[3] if t[2] == c(0) else t[2]
            if x[0] == "len" and x[1][0] in ("comp",) and (t[1] == "==" or t[2] == c(0)):
                return [(r, b != flip) for r, b in self.test(x[1] if t[1] == "<" else ("not", x[1]), q)]
        k = q.known(t)
        if k is None and self.assume:
            k = self.assume(t)
        if k is not None:
            if q.known(t) is None:
                q.guards.append((t, k))
            return [(q, k != flip)]
        # equality with a constant excludes other constants
        if t[0] == "cmp" and t[1] == "==" and (t[2][0] == "c" or t[3][0] == "c"):
            x, v = (t[3], t[2]) if t[2][0] == "c" else (t[2], t[3])
            for g, b in q.guards:
                if b and g[0] == "cmp" and g[1] == "==" and x in g[2:]:
                    o = g[3] if g[2] == x else g[2]
                    if o[0] == "c" and o != v:
                        return [(q, flip)]
        a, b = q.copy(), q
        a.guards.append((t, True))
        b.guards.append((t, False))
        return [(a, not flip), (b, flip)]

    # -- statements ----------------------------------------------------------
    def block(self, body, paths, fr):
        done = []
        for s in body:
            nxt = []
            for p in paths:
                if p.exit:
                    done.append(p)
                else:
                    nxt.extend(self.stmt(s, p, fr))
            paths = nxt
            if len(paths) + len(done) > self.maxpaths:
                raise TooMany(fr.fn.qual)
        return done + paths

    def stmt(self, s, p, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        return m(s, p, fr) if m else [p]

    def s_Expr(self, s, p, fr):
        if isinstance(s.value, ast.Constant):
            return [p]
        v = s.value
        if isinstance(v, (ast.Yield, ast.YieldFrom, ast.Await)) and v.value is not None:
            v = v.value
        return [q for q, _ in self.ev(v, p, fr)]

    def s_Return(self, s, p, fr):
        out = []
        for q, v in (self.ev(s.value, p, fr) if s.value is not None else [(p, NONE)]):
            if not q.exit:
                q.exit, q.ret = "return", v
            out.append(q)
        return out

    def s_Raise(self, s, p, fr):
        p.exit, p.exc = "raise", (s.exc.func.id if isinstance(s.exc, ast.Call) and isinstance(s.exc.func, ast.Name) else s.exc.id if isinstance(s.exc, ast.Name) else "?")
        return [p]

    def s_Break(self, s, p, fr):
        p.exit = "break"
        return [p]

    def s_Continue(self, s, p, fr):
        p.exit = "continue"
        return [p]

    def s_Assert(self, s, p, fr):
        out = []
        for q, t in self.ev(s.test, p, fr):
            for r, b in self.test(t, q):
                if not b:
                    r.exit, r.exc = "raise", "AssertionError"
                out.append(r)
        return out

    def s_If(self, s, p, fr):
        out = []
        for q, t in self.ev(s.test, p, fr):
            if q.exit:
                out.append(q)
                continue
            for r, b in self.test(t, q):
                out.extend(self.block(s.body if b else s.orelse, [r], fr))
        return out

    def bind(self, t, v, p, fr, node=None):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, ("rest", v, i), p, fr, node)
                else:
                    self.bind(x, self.ix(p, v, c(i)), p, fr, node)
        elif isinstance(t, ast.Attribute):
            (q, b), = self.ev(t.value, p, fr)[:1]
            p.heap[("attr", b, t.attr)] = v
            p.log.append(("set", ("attr", b, t.attr), v, node or t, p.loops, fr.fn))
        elif isinstance(t, ast.Subscript):
            (q, b), = self.ev(t.value, p, fr)[:1]
            (q, i), = self.ev(t.slice, p, fr)[:1]
            p.heap[("ix", b, i)] = v
            p.log.append(("set", ("ix", b, i), v, node or t, p.loops, fr.fn))

    def s_Assign(self, s, p, fr):
        out = []
        for q, v in self.ev(s.value, p, fr):
            if not q.exit:
                for t in s.targets:
                    self.bind(t, v, q, fr, s)
            out.append(q)
        return out

    def s_AnnAssign(self, s, p, fr):
        if s.value is None:
            return [p]
        return self.s_Assign(ast.Assign(targets=[s.target], value=s.value, lineno=s.lineno, col_offset=s.col_offset), p, fr)

    def s_AugAssign(self, s, p, fr):
        ld = ast.copy_location({ast.Name: lambda: ast.Name(s.target.id, ast.Load()),
                                ast.Attribute: lambda: ast.Attribute(s.target.value, s.target.attr, ast.Load()),
                                ast.Subscript: lambda: ast.Subscript(s.target.value, s.target.slice, ast.Load())}[type(s.target)](), s.target)
        out = []
        for q, vs in self.evs([ld, s.value], p, fr):
            if not q.exit:
                self.bind(s.target, self.bin(s.op, *vs), q, fr, s)
            out.append(q)
        return out

    def s_Delete(self, s, p, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                (q, b), = self.ev(t.value, p, fr)[:1]
                (q, i), = self.ev(t.slice, p, fr)[:1]
                p.heap.pop(("ix", b, i), None)
                p.log.append(("del", ("ix", b, i), NONE, s, p.loops, fr.fn))
        return [p]

    def s_FunctionDef(self, s, p, fr):
        p.env[s.name] = ("localfn", s.name, s.lineno)
        return [p]

    def s_With(self, s, p, fr):
        ps = [p]
        for it in s.items:
            nxt = []
            for q in ps:
                for r, v in self.ev(it.context_expr, q, fr):
                    if it.optional_vars is not None and not r.exit:
                        self.bind(it.optional_vars, v, r, fr)
                    nxt.append(r)
            ps = nxt
        return self.block(s.body, ps, fr)

    def _loopend(self, paths, orelse, fr, loops):
        out = []
        for q in paths:
            q.loops = loops
            if q.exit == "break":
                q.exit = None
                out.append(q)
            elif q.exit in (None, "continue"):
                q.exit = None
                out.extend(self.block(orelse, [q], fr) if orelse else [q])
            else:
                out.append(q)
        return out

    def carried(self, s, p):
        names = {x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        for n in names:
            if n in p.env and not (p.env[n][0] in ("new", "tup")):
                p.env[n] = ("carry", n, p.env[n])

    def s_For(self, s, p, fr):
        out = []
        for q, it in self.ev(s.iter, p, fr):
            if q.exit:
                out.append(q)
                continue
            items = None
            src = it
            en = src[0] == "call" and src[1] == ("ext", "enumerate") and len(src[2]) == 1
            if en:
                src = src[2][0]
            if src[0] == "tup" and len(src[2]) <= 8:
                items = src[2]
            elif src[0] == "call" and src[1] == ("ext", "range") and len(src[2]) == 1 and isnum(src[2][0]) and src[2][0][1] <= 8:
                items = tuple(c(i) for i in range(src[2][0][1]))
            if items is not None:
                ps = [q]
                fin = []
                for k, v in enumerate(items):
                    nxt = []
                    for r in ps:
                        self.bind(s.target, ("tup", "Tuple", (c(k), v)) if en else v, r, fr)
                        for z in self.block(s.body, [r], fr):
                            if z.exit == "continue":
                                z.exit = None
                            (fin if z.exit else nxt).append(z)
                    ps = nxt
                out.extend(self._loopend(fin + ps, s.orelse, fr, q.loops))
                continue
            old = q.loops
            q.loops = old + (("for", it),)
            self.carried(s, q)
            self.bind(s.target, self.element(it), q, fr)
            out.extend(self._loopend(self.block(s.body, [q], fr), s.orelse, fr, old))
        return out

    def s_While(self, s, p, fr):
        out = []
        self.carried(s, p)
        for q, t in self.ev(s.test, p, fr):
            if q.exit:
                out.append(q)
                continue
            for r, b in self.test(t, q):
                if not b:
                    out.append(r)
                    continue
                old = r.loops
                r.loops = old + (("while", t),)
                out.extend(self._loopend(self.block(s.body, [r], fr), s.orelse, fr, old))
        return out

    def s_Try(self, s, p, fr):
        out = []
        pre = p.copy()
        res = self.block(s.body, [p], fr)
        good, bad = [], []
        for q in res:
            (bad if q.exit == "raise" else good).append(q)
        good2 = []
        for q in good:
            good2.extend(self.block(s.orelse, [q], fr) if q.exit is None and s.orelse else [q])
        hand = []
        for h in s.handlers:
            nm = ast.unparse(h.type) if h.type is not None else "BaseException"
            z = pre.copy()
            z.guards.append((("exc", nm, s.lineno), True))
            if h.name:
                z.env[h.name] = ("excval", nm)
            hand.extend(self.block(h.body, [z], fr))
        for q in bad:
            for h in s.handlers:
                nm = ast.unparse(h.type) if h.type is not None else "BaseException"
                if nm in ("BaseException", "Exception") or q.exc in nm:
                    q.exit, q.exc = None, None
                    q.guards.append((("exc", nm, s.lineno), True))
                    if h.name:
                        q.env[h.name] = ("excval", nm)
                    hand.extend(self.block(h.body, [q], fr))
                    break
            else:
                hand.append(q)
        for q in good2 + hand:
            if s.finalbody:
                ex, rt, xc = q.exit, q.ret, q.exc
                q.exit = None
                for r in self.block(s.finalbody, [q], fr):
                    if r.exit is None:
                        r.exit, r.ret, r.exc = ex, rt, xc
                    out.append(r)
            else:
                out.append(q)
        return out

    def run(self, fn, cls=None, args=None):
        p = Path()
        a = fn.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            p.env[x.arg] = ("arg", x.arg)
        if a.vararg:
            p.env[a.vararg.arg] = ("arg", a.vararg.arg)
        if a.kwarg:
            p.env[a.kwarg.arg] = ("arg", a.kwarg.arg)
        p.env.update(args or {})
        return self.block(fn.node.body, [p], Fr(fn, cls or fn.cls, 0, (fn.node,), fn.cls))


class _No(Exception):
    pass


class TooMany(Exception):
    pass
