"""Value numbering: an algebraic dataflow over function bodies.

Every expression gets a canonical form -- a polynomial with rational exponents over *atoms* (attribute paths at a
version, results of opaque calls, sums over array elements, exponentials) -- so that two differently written
computations of the same quantity get the same number.  Attribute writes create versions; reads after a write get the
written value; branches on unknown tests keep one environment per outcome, with outcomes of equal tests correlated.
Nothing is executed and no solver is involved: equality of two numbers is syntactic equality of canonical forms.
"""
import ast
import copy
from fractions import Fraction as F
from .repo import Cls, Func, Module

GRP = {}          # atom -> Poly it stands for (roots / inverses of sums)
ARR = set()       # atoms known to be arrays (everything else may be pulled out of a sum only if in SCA)
SCA = set()       # atoms known to be scalars
SUMS = {}         # sum atom -> content string


class Poly:
    __slots__ = ("t", "_s")

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}
        self._s = None

    def __str__(self):
        if self._s is None:
            out = []
            for m in sorted(self.t):
                c = self.t[m]
                f = "*".join(a if e == 1 else "%s^%s" % (a, e) for a, e in m)
                out.append(("%s" % c if not f else f if c == 1 else "%s*%s" % (c, f)))
            self._s = " + ".join(out) or "0"
        return self._s
    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(str(self))

    def const(self):
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def single(self):
        return next(iter(self.t.items())) if len(self.t) == 1 else None

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Poly(t)

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 400:
            return atom("big{%s}{%s}" % tuple(sorted((str(self)[:4000], str(o)[:4000]))))
        out = Poly()
        t = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                ex = None
                for a in list(d):
                    if d[a] == 0:
                        del d[a]
                    elif a in GRP and d[a].denominator == 1 and 0 < d[a] <= 3:
                        ex = ex or []
                        ex.append((a, d.pop(a)))
                k = tuple(sorted(d.items()))
                if ex:
                    p = Poly({k: c1 * c2})
                    for a, e in ex:
                        for _ in range(int(e)):
                            p = p * GRP[a]
                    extra.append(p)
                else:
                    t[k] = t.get(k, 0) + c1 * c2
        out = Poly(t)
        for p in extra:
            out = out + p
        return out

    def power(self, e):
        e = F(e)
        if e == 0:
            return num(1)
        s = self.single()
        if s is not None:
            m, c = s
            k = [(a, x * e) for a, x in m]
            if e.denominator == 1:
                base = Poly({(): c ** int(e)})
            elif c == 1:
                base = num(1)
            else:
                r = _root(c, e)
                base = num(r) if r is not None else Poly({(("num:%s" % c, e),): F(1)})
            return base * Poly({tuple(sorted(k)): F(1)})
        if not self.t:
            return Poly()
        if e.denominator == 1 and 0 < e <= 4:
            p = self
            for _ in range(int(e) - 1):
                p = p * self
            return p
        a = "(" + str(self) + ")"
        GRP[a] = self
        if all(x in SCA for x in self.atoms()):
            SCA.add(a)
        return Poly({((a, e),): F(1)})

    def __truediv__(self, o):
        if not o.t:
            return atom("div0")
        return self * o.power(-1)


def _root(c, e):
    if c < 0:
        return None
    for den in (e.denominator,):
        n = round(float(c.numerator) ** (1.0 / den))
        d = round(float(c.denominator) ** (1.0 / den))
        if n ** den == c.numerator and d ** den == c.denominator and n and d:
            return F(n, d) ** e.numerator
    return None


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return atom("num:%r" % x)
        x = F(repr(x))
    return Poly({(): F(x)})


def atom(name, scalar=False, array=False):
    if scalar:
        SCA.add(name)
    if array:
        ARR.add(name)
    return Poly({((name, F(1)),): F(1)})


def vexp(p):
    """exp of a polynomial: product of powers of e^monomial"""
    out = num(1)
    for m, c in p.t.items():
        a = "e^{%s}" % Poly({m: F(1)})
        if all(x in SCA for x, _ in m):
            SCA.add(a)
        out = out * Poly({((a, c),): F(1)})
    return out


def vsum(p):
    out = Poly()
    for m, c in p.t.items():
        sc = tuple((a, e) for a, e in m if a in SCA)
        ar = tuple((a, e) for a, e in m if a not in SCA)
        a = "sum{%s}" % Poly({ar: F(1)})
        SCA.add(a)
        SUMS[a] = ar
        out = out + Poly({sc: c}) * atom(a)
    return out


def is_scalar(p):
    return all(a in SCA for a in p.atoms())


class Path:
    """a live reference to an attribute (or element) of an object"""
    __slots__ = ("p", "cls")

    def __init__(self, p, cls=None):
        self.p, self.cls = p, cls

    def __repr__(self):
        return "<%s>" % self.p

    def __eq__(self, o):
        return isinstance(o, Path) and o.p == self.p

    def __hash__(self):
        return hash(self.p)


class Tup:
    def __init__(self, items, dyn=None):
        self.items = list(items)
        self.dyn = dyn            # name of a list filled in a loop


class Lit:
    """a non-numeric constant"""

    def __init__(self, v):
        self.v = v


class Clo:
    def __init__(self, node, env, module, owner=None, slf=None, cls=None):
        self.node, self.env, self.module, self.owner, self.slf, self.cls = node, env, module, owner, slf, cls


class State:
    __slots__ = ("env", "writes", "guards", "log", "exit", "ret", "gpos")

    def __init__(self, env=None):
        self.env = dict(env or {})
        self.writes = []          # (path, value, seq)
        self.guards = {}
        self.log = []             # Event
        self.exit = None
        self.ret = None
        self.gpos = {}            # guard -> number of events before it

    def copy(self):
        s = State.__new__(State)
        s.env = {k: Tup(x.items, x.dyn) if isinstance(x, Tup) else x for k, x in self.env.items()}
        s.writes = list(self.writes)
        s.guards = dict(self.guards)
        s.log = list(self.log)
        s.exit, s.ret = self.exit, self.ret
        s.gpos = dict(self.gpos)
        return s


class Event:
    __slots__ = ("kind", "path", "val", "node", "func", "how", "extra", "seq", "guards")

    def __init__(self, kind, path, val, node, func, how="", extra=None, seq=0, guards=None):
        self.kind, self.path, self.val, self.node, self.func, self.how, self.extra = kind, path, val, node, func, how, extra
        self.seq = seq
        self.guards = dict(guards or {})

    def __repr__(self):
        return "%s %s %s = %s" % (self.kind, self.path, self.how, str(self.val)[:80])


TRANSPARENT = {"dstrip", "copy", "asarray", "array", "list", "tuple", "float", "deepcopy", "ascontiguousarray", "real",
               "reshape", "ravel", "flatten", "atleast_1d", "int_", "asfortranarray"}
PASSIVE = {"print", "info", "warning", "verbosity", "len", "range", "isinstance", "hasattr", "getattr", "type", "str", "repr", "zip", "enumerate"}
SYNC = {("nm", "pnm"): ("beads", "p"), ("nm", "qnm"): ("beads", "q")}


class VN:
    def __init__(self, model, cls=None, inline=None, fresh_attrs=("prng",), maxdepth=6, sync=True, loops="once", expand=(),
                 subst=None, kinds=None, max_states=256, alias=None, elem=("pdt", "nmts", "names", "m", "bweights", "hweights", "repindex", "weight")):
        self.m, self.prog, self.cls = model, model.prog, cls
        self.inline = inline or (lambda fn, recv: True)
        self.maxdepth = maxdepth
        self.sync = sync
        self.subst = subst or {}
        self.n = 0
        self.expand = expand
        self.kinds = kinds or {}
        self.max_states = max_states
        self.alias = alias
        self.elem = elem
        self.inloop = 0
        self.appended = {}                              # values appended to local lists
        self.pre = {}                                   # value of a loop-carried variable before its loop
        self._names()

    # ------------------------------------------------------------ name tables
    def _names(self):
        if hasattr(self.m, "_vn_names"):
            self.sc_names, self.ar_names, self.der_names, self.decl = self.m._vn_names
            return
        sc, ar, der, decl = set(), set(), set(), {}
        for c in self.prog.all_classes():
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Call) \
                            and self.m._is_dep_ctor(c, n.value) and n.targets[0].attr.startswith("_"):
                        a = n.targets[0].attr[1:]
                        kind = self.prog.resolve_expr(c.module, n.value.func).name
                        (sc if kind == "depend_value" else ar).add(a)
                        kw = {k.arg: k.value for k in n.value.keywords}
                        if "func" in kw and "synchro" not in kw and not isinstance(kw["func"], ast.Dict):
                            der.add(a)
                            decl.setdefault((c, a), []).append((kw["func"], f))
                        else:
                            decl.setdefault((c, a), []).append((None, f))
        self.m._vn_names = (sc, ar, der, decl)
        self.sc_names, self.ar_names, self.der_names, self.decl = self.m._vn_names

    def kind_of(self, path):
        """'s' scalar, 'a' array, 'o' object/unknown; derived?"""
        _, nm, idx = tail(path.p)
        if nm in self.elem and idx:
            k = "s"
        elif nm in self.kinds:
            k = self.kinds[nm]
        elif nm in self.sc_names and nm not in self.ar_names:
            k = "s"
        elif nm in self.ar_names and nm not in self.sc_names:
            k = "a"
        elif nm in self.ar_names:
            c = path.cls
            k = "a"
            owner = self.owner_cls(path)
            if owner is not None:
                d = self.m.dep_kind(owner, nm)
                if d == "depend_value":
                    k = "s"
        else:
            k = "o"
        der = nm in self.der_names
        if der:
            owner = self.owner_cls(path)
            if owner is not None:
                ds = [x for kk in owner.mro() for x in self.decl.get((kk, nm), [])]
                if not ds:
                    ds = [x for kk in self.prog.subclasses(owner, strict=True) for x in self.decl.get((kk, nm), [])]
                if ds and all(x[0] is None for x in ds):
                    der = False
        return k, der, idx

    def owner_cls(self, path):
        return path.cls        # class of the object the last attribute belongs to

    # ------------------------------------------------------------ state access
    def canon_path(self, p):
        if self.alias:
            p = self.alias(p)
        if self.sync:
            par, nm, ix = tail(p)
            pp, pn, pix = tail(par)
            k = SYNC.get((pn, nm)) if not pix else None
            if k:
                return (pp + "." if pp else "") + k[0] + "." + k[1] + "~" + ix
        return p

    def overlap(self, a, b):
        a0, b0 = a.replace("~", ""), b.replace("~", "")
        if a0 == b0:
            return True
        sa, sb = _split(a0), _split(b0)
        for x, y in zip(sa, sb):
            if x == y:
                continue
            if x.startswith("[") and y.startswith("["):
                return not _disjoint(x, y)
            return False
        return True

    def read(self, st, path):
        cp = self.canon_path(path.p)
        k, der, idx = self.kind_of(path)
        nm = tail(path.p)[1]
        last = None
        for w in reversed(st.writes):
            if self.overlap(w[0], cp):
                last = w
                break
        if last is not None:
            if last[0] == cp:
                return last[1]
            if cp.startswith(last[0] + "[") and isinstance(last[1], Poly):
                ix = cp[len(last[0]):]
                a = "idx{%s}%s" % (last[1], ix)
                return atom(a)
        if der and self.expand:
            v = self.expand_derived(st, path)
            if v is not None:
                return v
        if der:
            ver, names = 0, self.closure_names(nm)
            for w in reversed(st.writes):
                if tail(w[0].replace("~", ""))[1] in names:
                    ver = w[2]
                    break
        else:
            ver = last[2] if last is not None else 0
        a = "%s@%d" % (cp, ver)
        if self.subst:
            r = self.subst.get(nm)
            if r is not None:
                q = r(self, st, path)
                if q is not None:
                    return q
        if k == "s":
            SCA.add(a)
        else:
            ARR.add(a)
        return atom(a)

    def closure_names(self, nm):
        """names of all attributes a derived quantity of that name may be computed from"""
        cache = self.m.__dict__.setdefault("_vn_closure", {})
        if nm in cache:
            return cache[nm]
        meth = self.m.__dict__.get("_vn_meth")
        if meth is None:
            meth = {}
            for c in self.prog.all_classes():
                for n, f in c.methods.items():
                    meth.setdefault(n, []).append(f)
            self.m._vn_meth = meth
        bydecl = {}
        for (c, a), ds in self.decl.items():
            for fe, f in ds:
                if fe is not None:
                    bydecl.setdefault(a, []).append(fe)
        out, todo = {nm}, [nm]
        done = set()
        while todo:
            x = todo.pop()
            for fe in bydecl.get(x, []) + [f.node for f in (meth.get(x, []) if len(meth.get(x, [])) <= 6 and x not in ("step", "bind", "__init__") else [])]:
                if id(fe) in done:
                    continue
                done.add(id(fe))
                for n in ast.walk(fe):
                    if isinstance(n, ast.Attribute) and n.attr not in out:
                        out.add(n.attr)
                        todo.append(n.attr)
        for a, b in SYNC.items():
            if a[1] in out or b[1] in out:
                out |= {a[1], b[1]}
        if out & {"ufvx", "get_all", "queue", "mforces"}:
            out |= {"q", "qnm", "h"}
        cache[nm] = out
        return out

    def expand_derived(self, st, path):
        """value of a derived quantity through its definition, when that is a plain expression"""
        par, nm, ix = tail(path.p)
        if self.expand is True or nm not in self.expand or ix or not isinstance(path.cls, Cls) or getattr(self, "_exp", 0) > 4:
            return None
        ds = [x for k in path.cls.mro() for x in self.decl.get((k, nm), [])]
        fe = ds[0][0] if ds else None
        if fe is None:
            return None
        obj = Path(par)
        fn, body = None, None
        if isinstance(fe, ast.Attribute) and isinstance(fe.value, ast.Name) and fe.value.id == "self":
            fn = path.cls.find(fe.attr)
        s2 = st.copy()
        n0 = len(s2.log)
        self._exp = getattr(self, "_exp", 0) + 1
        try:
            if fn is not None:
                fr = Frame(fn.module, fn.cls, obj, path.cls, 0, fn, None, frozenset([fn.qual]))
                s2.env = {}
                self._bindargs(fn.node.args, [obj], {}, s2, fn, fr)
                outs = [o for o in self.block(fn.node.body, [s2], fr) if o.exit != "raise"]
                if len(outs) != 1 or len(outs[0].log) != n0 or outs[0].exit != "return":
                    return None
                return self.num(outs[0], outs[0].ret)
            if isinstance(fe, ast.Lambda):
                f = ds[0][1]
                fr = Frame(f.module, f.cls, obj, path.cls, 0, f, None, frozenset())
                s2.env = {"self": obj}
                v = self.num(s2, self._ev(fe.body, s2, fr))
                return v if len(s2.log) == n0 else None
        finally:
            self._exp -= 1
        return None

    def write(self, st, path, val, node, func, how="="):
        self.n += 1
        cp = self.canon_path(path.p)
        st.writes.append((cp, val, self.n))
        st.log.append(Event("write", cp, val, node, func, how, seq=self.n, guards=st.guards))

    def num(self, st, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Path):
            r = self.read(st, v)
            if isinstance(r, Poly):
                return r
            if isinstance(r, Path) and r.p != v.p:
                return self.num(st, r)
            return atom("obj:%s" % v.p)
        if isinstance(v, Lit):
            return atom("lit:%r" % (v.v,), scalar=True)
        if isinstance(v, Tup) and v.dyn:
            return atom(v.dyn)
        if isinstance(v, Tup):
            return atom("tup(%s)" % ", ".join(str(self.num(st, x)) for x in v.items))
        if isinstance(v, Clo):
            return atom("fn:%s" % getattr(v.node, "name", "lambda"))
        return atom("?")

    def fresh(self, what, scalar=False):
        self.n += 1
        return atom("%s#%d" % (what, self.n), scalar=scalar)

    # ------------------------------------------------------------ expressions: -> list of (state, value)
    def ev(self, e, st, fr):
        r = self._ev(e, st, fr)
        return r

    def ev1(self, e, st, fr):
        """single-valued evaluation; the first outcome (used where calls cannot fork)"""
        return self._ev(e, st, fr)

    def _ev(self, e, st, fr):
        if e is None:
            return Lit(None)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float, bool)) and not isinstance(e.value, complex):
                if isinstance(e.value, bool):
                    return Lit(e.value)
                return num(e.value)
            return Lit(e.value)
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return st.env[e.id]
            f = fr
            while f is not None:
                if f.closure and e.id in f.closure:
                    return f.closure[e.id]
                f = None
            r = self.prog.lookup(fr.module, e.id)
            if isinstance(r, Func):
                return Clo(r.node, {}, r.module)
            if isinstance(r, tuple) and r[0] == "assign" and isinstance(r[3], ast.Constant):
                return self._ev(r[3], st, fr)
            if isinstance(r, (Cls, Module)) or isinstance(r, tuple):
                return Lit(("global", e.id))
            return Lit(("global", e.id))
        if isinstance(e, ast.Attribute):
            b = self._ev(e.value, st, fr)
            return self.attr(b, e.attr, st, fr, e)
        if isinstance(e, ast.Subscript):
            b = self._ev(e.value, st, fr)
            r = self.index(b, e.slice, st, fr)
            if isinstance(r, Path) and isinstance(e.ctx, ast.Load) and r.p.endswith("]") and tail(r.p)[1] in self.elem and ":" not in tail(r.p)[2].replace("var:", ""):
                return self.num(st, r)
            return r
        if isinstance(e, ast.BinOp):
            a = self._ev(e.left, st, fr)
            b = self._ev(e.right, st, fr)
            return self.binop(e.op, a, b, st)
        if isinstance(e, ast.UnaryOp):
            v = self._ev(e.operand, st, fr)
            if isinstance(e.op, ast.USub):
                return -self.num(st, v)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Not):
                if isinstance(v, Lit):
                    return Lit(not v.v)
                return atom("not{%s}" % self.num(st, v), scalar=True)
            return atom("inv{%s}" % self.num(st, v))
        if isinstance(e, (ast.Tuple, ast.List)):
            return Tup([self._ev(x, st, fr) for x in e.elts])
        if isinstance(e, ast.Call):
            return self.call(e, st, fr)
        if isinstance(e, ast.Lambda):
            return Clo(e, dict(st.env), fr.module, fr.owner, fr.slf, fr.cls)
        if isinstance(e, ast.Compare):
            l = self.num(st, self._ev(e.left, st, fr))
            rs = [self.num(st, self._ev(x, st, fr)) for x in e.comparators]
            return self.compare(l, e.ops, rs)
        if isinstance(e, ast.BoolOp):
            vs = [self.num(st, self._ev(x, st, fr)) for x in e.values]
            op = "and" if isinstance(e.op, ast.And) else "or"
            return atom("%s{%s}" % (op, "; ".join(sorted(str(v) for v in vs))), scalar=True)
        if isinstance(e, ast.IfExp):
            d = self.decide(e.test, st, fr)
            if d is True:
                return self._ev(e.body, st, fr)
            if d is False:
                return self._ev(e.orelse, st, fr)
            a, b = self.num(st, self._ev(e.body, st, fr)), self.num(st, self._ev(e.orelse, st, fr))
            if a == b:
                return a
            t = self.num(st, self._ev(e.test, st, fr))
            return atom("ite{%s ? %s : %s}" % (t, a, b))
        if isinstance(e, ast.Starred):
            return self._ev(e.value, st, fr)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            s2 = st.copy()
            for g in e.generators:
                it = self._ev(g.iter, s2, fr)
                self.bind_loop(g.target, it, s2, fr, e, src=g.iter)
            v = self.num(s2, self._ev(e.elt, s2, fr))
            return atom("comp{%s for %s}" % (v, "; ".join(ast.unparse(g.iter) for g in e.generators)))
        if isinstance(e, ast.JoinedStr):
            return Lit("fstr")
        if isinstance(e, ast.Dict):
            return atom("dict@%d" % e.lineno)
        return atom("expr{%s}" % ast.dump(e)[:60])

    def compare(self, l, ops, rs):
        if len(ops) == 1:
            op, r = ops[0], rs[0]
            d = (l - r)
            c = d.const()
            if isinstance(op, (ast.Gt, ast.Lt, ast.GtE, ast.LtE)) and c is not None:
                return Lit({ast.Gt: c > 0, ast.Lt: c < 0, ast.GtE: c >= 0, ast.LtE: c <= 0}[type(op)])
            if isinstance(op, (ast.Eq, ast.Is)) and not any(a.startswith(("lit:", "obj:")) for a in d.atoms()) and c is not None:
                return Lit(c == 0)
            if isinstance(op, (ast.NotEq, ast.IsNot)) and not any(a.startswith(("lit:", "obj:")) for a in d.atoms()) and c is not None:
                return Lit(c != 0)
            la, ra = [list(x.atoms()) for x in (l, r)]
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and len(la) == len(ra) == 1 and la[0].startswith("lit:") and ra[0].startswith("lit:"):
                eq = la[0] == ra[0]
                return Lit(eq if isinstance(op, (ast.Eq, ast.Is)) else not eq)
            if isinstance(op, (ast.Gt, ast.GtE)):
                return atom("%s{%s < %s}" % ("lt" if isinstance(op, ast.Gt) else "le", r, l), scalar=True)
            if isinstance(op, (ast.Lt, ast.LtE)):
                return atom("%s{%s < %s}" % ("lt" if isinstance(op, ast.Lt) else "le", l, r), scalar=True)
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                a, b = sorted((str(l), str(r)))
                x = atom("eq{%s; %s}" % (a, b), scalar=True)
                return x if isinstance(op, (ast.Eq, ast.Is)) else atom("not{%s}" % x, scalar=True)
        return atom("cmp{%s %s}" % (l, " ".join("%s %s" % (type(o).__name__, r) for o, r in zip(ops, rs))), scalar=True)

    def binop(self, op, a, b, st):
        if isinstance(a, Lit) and isinstance(a.v, str) or isinstance(b, Lit) and isinstance(b.v, str):
            return Lit("str")
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        a, b = self.num(st, a), self.num(st, b)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            return a / b
        if isinstance(op, ast.Pow):
            c = b.const()
            if c is not None:
                return a.power(c)
            return atom("pow{%s}{%s}" % (a, b), scalar=is_scalar(a) and is_scalar(b))
        if isinstance(op, ast.MatMult):
            return self.dot(a, b)
        nm = {ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitXor: "xor", ast.BitAnd: "band", ast.BitOr: "bor"}.get(type(op), "op")
        if nm in ("xor", "band", "bor") and str(b) < str(a):
            a, b = b, a
        return atom("%s{%s}{%s}" % (nm, a, b), scalar=is_scalar(a) and is_scalar(b))

    def dot(self, a, b):
        aa = {x for x in a.atoms() if x not in SCA}
        bb = {x for x in b.atoms() if x not in SCA}
        if aa & bb:
            return vsum(a * b)
        x, y = str(a), str(b)
        sc = num(1)
        # scalar factors come out of the product
        for p in (a, b):
            s = p.single()
            if s:
                m, c = s
                sc = sc * Poly({tuple(q for q in m if q[0] in SCA): c})
        def rest(p):
            s = p.single()
            if s:
                return str(Poly({tuple(q for q in s[0] if q[0] not in SCA): F(1)}))
            return str(p)
        return sc * atom("dot{%s}{%s}" % (rest(a), rest(b)))

    def attr(self, b, name, st, fr, node):
        if isinstance(b, Path):
            v = self.stored_obj(st, b)
            if isinstance(v, Path) and v.p != b.p:
                b = v
            if tail(b.p)[1] == "prng" or (b.cls is not None and b.cls.name == "Random"):
                if name in ("u", "g"):
                    return self.fresh("rng.%s" % name, scalar=True)
            if name in ("T", "flat", "real") and not (self.obj_cls(b) is not None and (self.m.is_depend(self.obj_cls(b), name) or self.obj_cls(b).find(name))):
                return b
            if name == "shape":
                return Tup([atom("shape{%s}[%d]" % (b.p, i), scalar=True) for i in range(2)])
            ocls = self.obj_cls(b)
            if ocls is not None:
                f = ocls.find(name)
                if f is not None and any(isinstance(d, ast.Name) and d.id == "property" for d in f.node.decorator_list):
                    return self.invoke(f, f.cls, b, ocls, [], {}, st, fr, node)
                if f is not None:
                    return Clo(f.node, {}, f.module, f.cls, b, ocls)
            p = Path(b.p + "." + name, ocls)
            k, der, idx = self.kind_of(p)
            if k == "s" and not isinstance(getattr(node, "ctx", None), ast.Store):
                return self.num(st, p)
            return p
        if isinstance(b, Lit) and isinstance(b.v, tuple) and b.v[0] == "global":
            full = b.v[1] + "." + name
            if b.v[1] in ("Constants",):
                return atom("const:%s" % full, scalar=True)
            return Lit(("global", full))
        if isinstance(b, Poly):
            if name in ("T", "real", "flat"):
                return b
            return atom("attr{%s}.%s" % (b, name))
        if isinstance(b, Tup):
            return b
        return atom("attr.%s" % name)

    def obj_cls(self, p):
        """class of the object a path refers to (p.cls is the class owning its last attribute)"""
        if p.p == "self" or p.cls == "is":
            return self.cls
        base = tail(p.p)[1]
        t = self.m.attr_type(p.cls, base) if (isinstance(p.cls, Cls) or p.cls is None) else None
        return t

    def stored_obj(self, st, p):
        for w in reversed(st.writes):
            if w[0] == p.p:
                return w[1] if isinstance(w[1], Path) else None
        return None

    def index(self, b, sl, st, fr):
        if isinstance(sl, ast.Tuple):
            parts = list(sl.elts)
        else:
            parts = [sl]
        def full(x):
            return isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None or isinstance(x, ast.Constant) and x.value is Ellipsis
        while parts and full(parts[-1]):
            parts.pop()
        if not parts:
            return b
        if isinstance(b, Tup):
            c = self.num(st, self._ev(parts[0], st, fr)).const() if len(parts) == 1 and not isinstance(parts[0], ast.Slice) else None
            if c is not None and b.dyn is None and c.denominator == 1 and -len(b.items) <= c < len(b.items):
                return b.items[int(c)]
            ix = "[" + ",".join(self.ixs(x, st, fr) for x in parts) + "]"
            return atom("item{%s}%s" % (b.dyn or self.num(st, b), ix), scalar=True)
        ix = "[" + ",".join(self.ixs(x, st, fr) for x in parts) + "]"
        if isinstance(b, Path):
            # a second index refines the first one
            r = Path(b.p + ix, b.cls)
            return r
        b = self.num(st, b)
        out = Poly()
        if len(b.t) == 1:
            # indexing a product of arrays: index each array factor
            (m, c), = b.t.items()
            p = num(c)
            for a, e in m:
                if a in SCA:
                    p = p * atom(a).power(e)
                else:
                    p = p * atom("idx{%s}%s" % (a, ix)).power(e)
            return p
        return atom("idx{%s}%s" % (b, ix))

    def ixs(self, x, st, fr):
        if isinstance(x, ast.Slice):
            def g(y):
                return "" if y is None else str(self.num(st, self._ev(y, st, fr)))
            s = g(x.lower) + ":" + g(x.upper)
            return s + (":" + g(x.step) if x.step is not None else "")
        v = self._ev(x, st, fr)
        return str(self.num(st, v))

    # ------------------------------------------------------------ calls
    def call(self, e, st, fr):
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        # super().f(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            tgt = fr.cls.find_after(fr.owner, fn.attr) if fr.cls is not None and fr.owner is not None else None
            args, kw = self.args(e, st, fr)
            if tgt is not None:
                return self.invoke(tgt, tgt.cls, fr.slf, fr.cls, args, kw, st, fr, e)
            return Lit(None)
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id not in st.env:
                k = self.prog.resolve_expr(fr.module, fn.value)
                if isinstance(k, Cls) and k.find(fn.attr) is not None:      # Class.method(self, ...)
                    tgt = k.find(fn.attr)
                    args, kw = self.args(e, st, fr)
                    if args and isinstance(args[0], Path):
                        return self.invoke(tgt, tgt.cls, args[0], fr.cls if args[0] == fr.slf else self.obj_cls(args[0]), args[1:], kw, st, fr, e)
            b = self._ev(fn.value, st, fr)
            if isinstance(b, Lit) and isinstance(b.v, tuple) and b.v[0] == "global":
                return self.external(b.v[1] + "." + fn.attr, e, st, fr)
            args, kw = self.args(e, st, fr)
            if name in ("copy", "flatten", "ravel", "reshape", "astype", "tolist", "conj"):
                return self.num(st, b) if isinstance(b, (Path, Poly)) else b
            if name == "sum" and not args and not kw:
                return vsum(self.num(st, b))
            if name == "dot" and len(args) == 1:
                return self.dot(self.num(st, b), self.num(st, args[0]))
            if isinstance(b, Path):
                v = self.stored_obj(st, b)
                if isinstance(v, Path):
                    b = v
                last = tail(b.p)[1]
                if last == "prng":
                    return self.fresh("rng.%s" % name, scalar=name in ("u", "g", "gamma", "poisson", "integers"))
                ocls = self.obj_cls(b)
                if ocls is not None:
                    f = ocls.find(name)
                    if f is not None:
                        return self.invoke(f, f.cls, b, ocls, args, kw, st, fr, e)
                return self.opaque(b.p + "." + name, args, kw, st, fr, e, b)
            if isinstance(b, Tup) and name in ("append", "extend"):
                b.items.extend(args)
                if isinstance(fn.value, ast.Name):
                    self.appended.setdefault(fn.value.id, []).extend(args)
                if self.inloop and b.dyn is None:
                    b.dyn = "list:%s@%s" % (fn.value.id if isinstance(fn.value, ast.Name) else "", fr.func.name if fr.func is not None else "")
                return Lit(None)
            if isinstance(b, Lit):
                return Lit("str")
            return atom("m:%s{%s}(%s)" % (name, self.num(st, b), self.astr(args, kw, st)))
        v = self._ev(fn, st, fr)
        if isinstance(v, Lit):
            return self.external(name, e, st, fr)
        args, kw = self.args(e, st, fr)
        if isinstance(v, Clo):
            if name in TRANSPARENT:
                return self.transparent(name, args, st)
            return self.invoke_clo(v, args, kw, st, fr, e)
        if isinstance(v, Path):
            if re.search(r"\.\w+$", v.p):                         # a bound method held in a variable
                b = Path(v.p.rsplit(".", 1)[0])
                ocls = fr.cls if fr.slf is not None and b == fr.slf else self.obj_cls(b)
                f = ocls.find(v.p.rsplit(".", 1)[1]) if ocls is not None else None
                if f is not None:
                    return self.invoke(f, f.cls, fr.slf if b == fr.slf else b, ocls, args, kw, st, fr, e)
            return self.opaque(v.p, args, kw, st, fr, e, v)
        return atom("call{%s}(%s)" % (self.num(st, v), self.astr(args, kw, st)))

    def astr(self, args, kw, st):
        return ", ".join([str(self.num(st, a)) for a in args] + ["%s=%s" % (k, self.num(st, v)) for k, v in sorted(kw.items())])

    def args(self, e, st, fr):
        return [self._ev(a, st, fr) for a in e.args], {k.arg: self._ev(k.value, st, fr) for k in e.keywords if k.arg}

    def transparent(self, name, args, st):
        if not args:
            return atom("empty")
        a = args[0]
        if name == "dstrip":
            return a
        if isinstance(a, Tup):
            return a
        return self.num(st, a)

    def external(self, full, e, st, fr):
        name = full.rpartition(".")[2]
        args, kw = self.args(e, st, fr)
        N = lambda i: self.num(st, args[i])
        if name in TRANSPARENT:
            return self.transparent(name, args, st)
        try:
            if name == "sqrt":
                return N(0).power(F(1, 2))
            if name == "exp":
                return vexp(N(0))
            if name in ("square",):
                return N(0).power(2)
            if name in ("multiply",):
                return N(0) * N(1)
            if name in ("add",):
                return N(0) + N(1)
            if name in ("subtract",):
                return N(0) - N(1)
            if name in ("divide", "true_divide"):
                return N(0) / N(1)
            if name in ("power", "pow"):
                c = N(1).const()
                if c is not None:
                    return N(0).power(c)
            if name in ("dot", "vdot", "inner", "noddot", "matmul"):
                return self.dot(N(0), N(1))
            if name == "sum" and len(args) == 1 and not kw:
                if isinstance(args[0], Tup):
                    out = Poly()
                    for x in args[0].items:
                        out = out + self.num(st, x)
                    return out
                return vsum(N(0))
            if name == "time":
                return self.fresh("time", scalar=True)
            if name in ("int",):
                return atom("int{%s}" % N(0), scalar=True)
            if name == "len":
                a = args[0]
                return atom("len{%s}" % (a.p if isinstance(a, Path) else self.num(st, a)), scalar=True)
            if name == "range":
                return atom("range(%s)" % self.astr(args, kw, st))
            if name in ("triu", "tril", "diag", "transpose") and len(args) == 1 and not kw:
                out = Poly()
                for mono, c in N(0).t.items():
                    sc = tuple(q for q in mono if q[0] in SCA)
                    out = out + Poly({sc: c}) * atom("%s(%s)" % (name, Poly({tuple(q for q in mono if q[0] not in SCA): F(1)})))
                return out
            if name in ("zeros", "ones", "empty", "eye", "identity", "zeros_like", "ones_like"):
                return atom("np.%s(%s)" % (name, self.astr(args, kw, st)))
            if name in ("array_equal", "allclose", "isclose", "array_equiv") and len(args) >= 2:
                x, y = sorted((str(N(0)), str(N(1))))
                return atom("%s(%s, %s)" % (name, x, y), scalar=True)
            if name in ("norm", "abs", "fabs") and args:
                p = N(0)
                if p.t and p.t[min(p.t)] < 0:
                    args = [-p] + args[1:]
            if name in ("trace", "linalg.norm", "norm", "prod", "max", "min", "abs", "trace", "mean", "std", "log", "tanh", "cosh", "sinh", "sign"):
                ps = [self.num(st, a) for a in args]
                return atom("%s(%s)" % (name, self.astr(args, kw, st)), scalar=(name in ("trace", "norm", "prod", "max", "min", "mean") and not kw) or all(is_scalar(p) for p in ps))
        except IndexError:
            pass
        for a in args:
            pass
        return atom("%s(%s)" % (full, self.astr(args, kw, st)))

    def opaque(self, what, args, kw, st, fr, node, recv=None):
        self.n += 1
        st.log.append(Event("call", what, None, node, fr.func, "", (args, kw, recv), self.n, st.guards))
        return atom("ret:%s(%s)@%d" % (what, self.astr(args, kw, st), self.n))

    def invoke_clo(self, c, args, kw, st, fr, node):
        if isinstance(c.node, ast.Lambda):
            s = dict(st.env)
            st.env = dict(c.env)
            self._bindargs(c.node.args, args, kw, st, None, fr)
            v = self._ev(c.node.body, st, Frame(c.module, c.owner, c.slf, c.cls, fr.depth + 1, fr.func, None))
            st.env = s
            return v
        f = Func_of(c)
        return self.invoke(f, c.owner, c.slf, c.cls, args, kw, st, fr, node, closure=c.env)

    def invoke(self, f, owner, slf, cls, args, kw, st, fr, node, closure=None):
        if fr.depth >= self.maxdepth or f.qual in fr.stack or not self.inline(f, slf):
            return self.opaque((slf.p + "." if isinstance(slf, Path) else "") + f.name, args, kw, st, fr, node, slf)
        save = st.env
        st.env = {}
        fr2 = Frame(f.module, owner, slf, cls, fr.depth + 1, f, closure, fr.stack | {f.qual})
        deco = {d.id for d in f.node.decorator_list if isinstance(d, ast.Name)}
        a = list(args)
        if owner is not None and "staticmethod" not in deco:
            a = [slf] + a
        self._bindargs(f.node.args, a, kw, st, f, fr2)
        outs = self.block(f.node.body, [st], fr2)
        outs = [o for o in outs if o.exit != "raise"]
        if not outs:
            st.env = save
            st.exit = "raise"
            return Lit(None)
        # the caller continues with the first state; further outcomes are queued
        outs.sort(key=lambda x: x is not st)
        vals = []
        for o in outs:
            v = o.ret if o.exit == "return" else Lit(None)
            o.exit, o.ret = None, None
            o.env = dict(save)
            vals.append((o, v))
        o, v = vals[0]
        if o is not st:
            st.env, st.writes, st.guards, st.log, st.gpos = o.env, o.writes, o.guards, o.log, o.gpos
            st.exit, st.ret = o.exit, o.ret
        else:
            st.env = dict(save)
        if len(vals) > 1:
            fr.pending.append((node, vals[1:]))
            # values of the alternatives are delivered by re-running the statement on their states
            for p, pv in vals[1:]:
                fr.forks.append((p, node, pv))
        return v

    def _bindargs(self, a, args, kw, st, f, fr):
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, args):
            st.env[n] = v
        if a.vararg:
            st.env[a.vararg.arg] = Tup(args[len(names):])
        for k, v in kw.items():
            st.env[k] = v
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in st.env:
                st.env[n] = self._ev(d, st, fr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in st.env and d is not None:
                st.env[x.arg] = self._ev(d, st, fr)
        for n in names:
            st.env.setdefault(n, atom("arg:%s" % n))

    # ------------------------------------------------------------ tests
    def decide(self, test, st, fr):
        """True/False when known, else None"""
        v = self._ev(test, st.copy(), fr)
        if isinstance(v, Lit):
            if v.v is None or isinstance(v.v, (bool, str)):
                return bool(v.v)
            return None
        if isinstance(v, Poly) and v.const() is not None:
            return bool(v.const())
        return self.guard(st, v)

    def guard(self, st, v):
        k = str(self.num(st, v))
        if k in st.guards:
            return st.guards[k]
        if k.startswith("not{") and k.endswith("}") and k[4:-1] in st.guards:
            return not st.guards[k[4:-1]]
        return None

    def split(self, test, st, fr):
        """-> (states where true, states where false)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.split(test.operand, st, fr)
            return f, t
        if isinstance(test, ast.BoolOp):
            T, Fs, cur = [], [], [st]
            isand = isinstance(test.op, ast.And)
            for v in test.values:
                nxt = []
                for s in cur:
                    t, f = self.split(v, s, fr)
                    if isand:
                        Fs += f
                        nxt += t
                    else:
                        T += t
                        nxt += f
                cur = nxt
            if isand:
                T += cur
            else:
                Fs += cur
            return T, Fs
        v = self._ev(test, st, fr)
        if isinstance(v, Lit) and (v.v is None or isinstance(v.v, (bool, str))):
            return ([st], []) if v.v else ([], [st])
        if isinstance(v, Tup) and not v.dyn:
            return ([st], []) if v.items else ([], [st])
        p = self.num(st, v)
        c = p.const()
        if c is not None:
            return ([st], []) if c else ([], [st])
        if p == atom("lit:False") or p == atom("lit:None"):
            return [], [st]
        if p == atom("lit:True"):
            return [st], []
        k, pol = str(p), True
        while k.startswith("not{") and k.endswith("}"):
            k, pol = k[4:-1], not pol
        if k in st.guards:
            return ([st], []) if st.guards[k] == pol else ([], [st])
        st.gpos[k] = len(st.log)
        s2 = st.copy()
        st.guards[k] = pol
        s2.guards[k] = not pol
        return [st], [s2]

    # ------------------------------------------------------------ statements
    def run(self, func, slf="self", cls=None, args=None, env=None):
        cls = cls or self.cls
        st = State(env)
        fr = Frame(func.module, func.cls, Path(slf), cls, 0, func, None, frozenset([func.qual]))
        a = ([Path(slf)] if func.cls is not None else []) + list(args or [])
        self._bindargs(func.node.args, a, {}, st, func, fr)
        outs = self.block(func.node.body, [st], fr)
        return [o for o in outs if o.exit != "raise"]

    def block(self, body, states, fr):
        done = []
        for stmt in body:
            nxt = []
            for s in states:
                if s.exit is not None:
                    done.append(s)
                    continue
                nxt += self.stmt(stmt, s, fr)
            states = self.merge(nxt)
            if len(states) > self.max_states:
                states = states[:self.max_states]
        return done + states

    def merge(self, states):
        return states

    def stmt(self, s, st, fr):
        base_forks = fr.forks
        fr.forks = []
        snap = None
        if any(isinstance(x, ast.Call) for x in ast.walk(s)) and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.AnnAssign)):
            snap = True
        outs = self._stmt(s, st, fr)
        # alternative outcomes of an inlined call: deliver the value by evaluating the statement with the call replaced
        forks = fr.forks
        fr.forks = base_forks
        if snap:
            for p, node, val in forks:
                p.env["__ret"] = val
                s2 = _replace(s, node)
                if s2 is not None:
                    outs += self.stmt(s2, p, fr)
                else:
                    outs.append(p)
        else:
            for p, node, val in forks:
                pass
        return outs

    def _stmt(self, s, st, fr):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)) and s.value is not None:
            ie = _ifexp(s.value)
            if ie is not None and self.decide(ie.test, st, fr) is None:
                a, b = _swap(s, ie, ie.body), _swap(s, ie, ie.orelse)
                return self._stmt(ast.copy_location(ast.If(test=ie.test, body=[a], orelse=[b]), s), st, fr)
        if isinstance(s, ast.Expr):
            self._ev(s.value, st, fr)
            return [st]
        if isinstance(s, ast.Assign):
            v = self._ev(s.value, st, fr)
            if st.exit:
                return [st]
            for t in s.targets:
                self.assign(t, v, st, fr, s)
            return [st]
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self._ev(s.value, st, fr), st, fr, s)
            return [st]
        if isinstance(s, ast.AugAssign):
            v = self._ev(s.value, st, fr)
            if st.exit:
                return [st]
            self.aug(s, v, st, fr)
            return [st]
        if isinstance(s, ast.Return):
            v = self._ev(s.value, st, fr) if s.value is not None else Lit(None)
            if isinstance(v, Path) and self.kind_of(v)[0] != "o":
                v = self.num(st, v)
            st.exit, st.ret = st.exit or "return", v
            return [st]
        if isinstance(s, ast.Raise):
            st.exit = "raise"
            return [st]
        if isinstance(s, (ast.Break, ast.Continue)):
            st.exit = "break" if isinstance(s, ast.Break) else "continue"
            return [st]
        if isinstance(s, ast.If):
            t, f = self.split(s.test, st, fr)
            return self.block(s.body, t, fr) + self.block(s.orelse, f, fr)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(self.counting(s, st), st, fr)
        if isinstance(s, ast.Try):
            return self.try_(s, st, fr)
        if isinstance(s, ast.With):
            for i in s.items:
                v = self._ev(i.context_expr, st, fr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st, fr, s)
            return self.block(s.body, [st], fr)
        if isinstance(s, ast.FunctionDef):
            st.env[s.name] = Clo(s, dict(st.env), fr.module, fr.owner, fr.slf, fr.cls)
            return [st]
        return [st]

    def counting(self, s, st):
        """k = c; while k < N: ...; k += 1  is  for k in range(c, N)."""
        t = s.test if isinstance(s, ast.While) else None
        if not (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and not s.orelse):
            return s
        k, last = t.left.id, s.body[-1]
        cur = st.env.get(k)
        c = 0 if isinstance(cur, Poly) and cur == Poly() else None
        if c is None or not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == k and isinstance(last.op, ast.Add)
                             and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return s
        for x in s.body[:-1]:
            for y in ast.walk(x):
                if isinstance(y, (ast.Break, ast.Continue)) or isinstance(y, ast.Name) and y.id == k and not isinstance(y.ctx, ast.Load):
                    return s
        f = ast.For(target=ast.Name(id=k, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[t.comparators[0]], keywords=[]),
                    body=s.body[:-1] or [ast.Pass()], orelse=[], type_comment=None)
        ast.copy_location(f, s)
        ast.fix_missing_locations(f)
        return f

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            if isinstance(v, Path) and self.kind_of(v)[0] == "s":
                v = self.num(st, v)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = v.items if isinstance(v, Tup) and len(v.items) == len(t.elts) else None
            if vals is not None:
                # the right-hand side is evaluated completely first
                vals = [self.num(st, x) if isinstance(x, Path) and self.kind_of(x)[0] != "o" else x for x in vals]
            for i, x in enumerate(t.elts):
                self.assign(x, vals[i] if vals is not None else self.item(v, i, st), st, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self._ev(t.value, st, fr)
            if isinstance(b, Path):
                o = self.stored_obj(st, b)
                if o is not None:
                    b = o
                p = Path(b.p + "." + t.attr, self.obj_cls(b))
                if isinstance(v, Path) and self.kind_of(v)[0] == "o" and self.kind_of(p)[0] == "o":
                    self.write(st, p, v, node, fr.func)
                else:
                    self.write(st, p, self.num(st, v) if not isinstance(v, (Tup, Lit)) else v if isinstance(v, Lit) and v.v is None else self.num(st, v), node, fr.func)
        elif isinstance(t, ast.Subscript):
            b = self._ev(t.value, st, fr)
            tgt = self.index(b, t.slice, st, fr) if isinstance(b, Path) else None
            if isinstance(tgt, Path):
                self.write(st, tgt, self.num(st, v), node, fr.func, "[]=")
            elif isinstance(t.value, ast.Name):
                ix = self.index(Path("L"), t.slice, st, fr)
                if isinstance(ix, Path) and ix.p == "L":
                    st.env[t.value.id] = self.num(st, v)
                else:
                    st.env[t.value.id] = atom("upd{%s}%s{%s}" % (self.num(st, b), ix.p[1:] if isinstance(ix, Path) else "", self.num(st, v)))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, atom("star"), st, fr, node)

    def item(self, v, i, st):
        if isinstance(v, Path):
            return Path("%s[%d]" % (v.p, i), v.cls)
        return atom("item{%s}[%d]" % (self.num(st, v), i))

    def aug(self, s, v, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = st.env.get(t.id, atom("undef:%s" % t.id))
            if isinstance(cur, Path):
                r = self.binop(s.op, cur, v, st)
                self.write(st, cur, r, s, fr.func, "aug")
                return
            st.env[t.id] = self.binop(s.op, cur, v, st)
            return
        if isinstance(t, ast.Attribute):
            b = self._ev(t.value, st, fr)
            if isinstance(b, Path):
                o = self.stored_obj(st, b)
                if o is not None:
                    b = o
                p = Path(b.p + "." + t.attr, self.obj_cls(b))
                self.write(st, p, self.num(st, self.binop(s.op, p, v, st)), s, fr.func, "aug")
            return
        if isinstance(t, ast.Subscript):
            b = self._ev(t.value, st, fr)
            if isinstance(b, Path):
                p = self.index(b, t.slice, st, fr)
                self.write(st, p, self.num(st, self.binop(s.op, p, v, st)), s, fr.func, "aug")
            elif isinstance(t.value, ast.Name):
                ix = self.index(Path("L"), t.slice, st, fr)
                if ix.p == "L":
                    st.env[t.value.id] = self.binop(s.op, b, v, st)
                else:
                    cur = self.index(b, t.slice, st, fr)
                    st.env[t.value.id] = atom("upd{%s}%s{%s}" % (self.num(st, b), ix.p[1:], self.num(st, self.binop(s.op, cur, v, st))))

    def bind_loop(self, target, it, st, fr, node, src=None):
        src = src if src is not None else getattr(node, "iter", None)
        fn = src.func.id if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and not src.keywords else None
        if fn == "zip" and isinstance(target, ast.Tuple) and len(target.elts) == len(src.args) or \
                fn == "enumerate" and isinstance(target, ast.Tuple) and len(target.elts) == 2 and len(src.args) == 1 and isinstance(target.elts[0], ast.Name):
            # the elements of several sequences at the same position
            first = next((x.id for x in ast.walk(target) if isinstance(x, ast.Name)), "")
            seqs = [(t, x) for t, x in zip(target.elts, src.args)] if fn == "zip" else [(target.elts[1], src.args[0])]
            vals = [(t, x, self._ev(x, st, fr)) for t, x in seqs]
            if fn == "enumerate":
                st.env[first] = atom("var:%s" % first, scalar=True)
            for t, x, v in vals:
                if isinstance(t, ast.Name) and isinstance(v, (Path, Poly)):
                    st.env[t.id] = Path("%s[var:%s]" % (v.p, first), v.cls) if isinstance(v, Path) else atom("idx{%s}[var:%s]" % (v, first))
                else:
                    self.bind_loop(t, v, st, fr, node, src=x)
            return

        def b(t, k=""):
            if isinstance(t, ast.Name):
                if isinstance(it, Path) and not k:
                    st.env[t.id] = Path(it.p + "[%s]" % t.id, it.cls)
                elif isinstance(it, Tup) and it.items and all(isinstance(x, Path) for x in it.items):
                    st.env[t.id] = it.items[0]
                else:
                    st.env[t.id] = atom("var:%s" % t.id, scalar=True)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    b(x, k + "[%d]" % i)
        b(target)

    def loop(self, s, st, fr):
        names = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        it = self._ev(s.iter, st, fr) if isinstance(s, ast.For) else None
        for n in sorted(names):
            if n in st.env and isinstance(st.env[n], Poly) and _carried(s, n):
                self.pre["loop:%s@%d" % (n, self.n)] = st.env[n]
                st.env[n] = atom("loop:%s@%d" % (n, self.n), scalar=is_scalar(st.env[n]))
        self.inloop += 1
        if isinstance(s, ast.For):
            self.bind_loop(s.target, it, st, fr, s)
            outs = self.block(s.body, [st], fr)
        else:
            t, f = self.split(s.test, st, fr)
            outs = self.block(s.body, t, fr) + f
        self.inloop -= 1
        res = []
        for o in outs:
            if s.orelse and o.exit in (None, "continue"):
                o.exit = None
                res += self.block(s.orelse, [o], fr)
                continue
            if o.exit in ("break", "continue"):
                o.exit = None
            res.append(o)
        return res

    def try_(self, s, st, fr):
        key = "try{%s}" % "; ".join(sorted({p for p in (self._trykey(x, st, fr) for x in s.body) if p}))
        alts = []
        known = st.guards.get(key)
        if known is not False:
            a = st.copy()
            a.guards[key] = True
            r = self.block(s.body, [a], fr)
            r = self.block(s.orelse, [x for x in r if x.exit is None], fr) + [x for x in r if x.exit is not None]
            alts += r
        if known is not True and s.handlers:
            for h in s.handlers:
                b = st.copy()
                b.guards[key] = False
                if h.name:
                    b.env[h.name] = atom("exc")
                alts += self.block(h.body, [b], fr)
        if s.finalbody:
            out = []
            for a in alts:
                ex, rt = a.exit, a.ret
                a.exit = None
                for o in self.block(s.finalbody, [a], fr):
                    if o.exit is None:
                        o.exit, o.ret = ex, rt
                    out.append(o)
            alts = out
        return alts

    def _trykey(self, x, st, fr):
        """the object whose existence a guarded statement tests"""
        for n in ast.walk(x):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute):
                return n.value.attr
        return None


class Frame:
    def __init__(self, module, owner, slf, cls, depth, func, closure, stack=frozenset()):
        self.module, self.owner, self.slf, self.cls, self.depth, self.func = module, owner, slf, cls, depth, func
        self.closure = closure
        self.stack = stack
        self.pending = []
        self.forks = []


class _F:
    pass


def Func_of(c):
    f = _F()
    f.node, f.module, f.cls, f.name = c.node, c.module, c.owner, c.node.name
    f.qual = "%s:%s.%s@%d" % (c.module.name, c.owner.name if c.owner else "", c.node.name, c.node.lineno)
    f.loc = lambda node=None: "%s:%d" % (c.module.path if hasattr(c.module, "path") else c.module.name, (node or c.node).lineno)
    return f


def _carried(loop, name):
    """is name read in the loop body before it is certainly assigned there?"""
    for x in loop.body:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return True
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
            return False
    return False


def _ifexp(e):
    """the first conditional expression in e that is evaluated with e"""
    if isinstance(e, ast.IfExp):
        return e
    if isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.BoolOp)):
        return None
    for c in ast.iter_child_nodes(e):
        r = _ifexp(c)
        if r is not None:
            return r
    return None


def _swap(stmt, node, new):
    """a copy of stmt with node replaced by new"""
    memo = {id(node): copy.deepcopy(new)}
    return copy.deepcopy(stmt, memo)


def _replace(stmt, node):
    """copy of stmt with the call node replaced by the name __ret"""
    hit = []

    class R(ast.NodeTransformer):
        def visit(self, n):
            if n is node:
                hit.append(1)
                return ast.copy_location(ast.Name(id="__ret", ctx=ast.Load()), n)
            return self.generic_visit(n)
    import copy
    # shallow identity-preserving copy: transform on a structural clone that keeps the identity of the searched node
    memo = {id(node): node}
    c = copy.deepcopy(stmt, memo)
    c = R().visit(c)
    return c if hit else None


def _split(p):
    out, cur, d = [], "", 0
    for ch in p:
        if ch == "[":
            if d == 0:
                if cur:
                    out.append(cur)
                cur = "["
            else:
                cur += ch
            d += 1
        elif ch == "]":
            d -= 1
            cur += ch
            if d == 0:
                out.append(cur)
                cur = ""
        elif ch == "." and d == 0:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def tail(p):
    """(parent path, last attribute name, index text)"""
    parts, d, cur = [], 0, ""
    cut = -1
    for i, ch in enumerate(p):
        if ch in "[({":
            d += 1
        elif ch in "])}":
            d -= 1
        elif ch == "." and d == 0:
            cut = i
    par, last = (p[:cut], p[cut + 1:]) if cut >= 0 else ("", p)
    nm, br, rest = last.partition("[")
    return par, nm, br + rest


def _disjoint(x, y):
    """index parts known to address different elements"""
    a, b = x[1:-1].split(","), y[1:-1].split(",")
    for p, q in zip(a, b):
        if p == q:
            continue
        if p.lstrip("-").isdigit() and q.lstrip("-").isdigit() and (p[0] == "-") == (q[0] == "-"):
            return True
        vp, vq = _vars(p), _vars(q)
        if vp and vq and vp != vq:
            return True
        if (p.isdigit() and q.split(":")[0].isdigit() and ":" in q and int(p) < int(q.split(":")[0])) or \
                (q.isdigit() and p.split(":")[0].isdigit() and ":" in p and int(q) < int(p.split(":")[0])):
            return True
    return False


def _vars(s):
    import re
    return frozenset(re.findall(r"var:\w+|\w+#\d+|[A-Za-z_]\w*(?:\[[^\]]*\])?", s))
