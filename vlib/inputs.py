"""Store / fetch / constructor provenance of the input (checkpoint) classes.

For an input class I and an engine class C this module computes, from the source alone,
  stored(I, C)  : field -> list of (source attribute paths of the object, unconditional?)   [I.store(obj: C)]
  modes(I, C)   : field -> constant stored for objects of class C
  fetched(I, C) : field -> set of attribute paths of the rebuilt object that receive it      [I.fetch + C.__init__]
"""
import ast
from .repo import Cls
from .interp import V, VFRESH, EMPTY, NONE, prov, events, FuncVal, Branch, Loop, Seq, Ev, Inline, With, Try, walk

BASEMODS = ("ipi.utils.inputvalue",)


def class_dict(prog, c, name, depth=0):
    """Merged {key: tuple node} of a class-level dictionary of field declarations."""
    out = {}
    if depth > 6:
        return out

    def value(e, acc, c):
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if isinstance(k, ast.Constant):
                    acc[k.value] = (v, c)
                elif k is None:
                    value(v, acc, c)
        elif isinstance(e, ast.Call):
            f = e.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm in ("copy", "deepcopy", "dict"):
                if e.args:
                    value(e.args[0], acc, c)
                elif isinstance(f, ast.Attribute):
                    value(f.value, acc, c)
        elif isinstance(e, ast.Attribute):
            r = prog.resolve_expr(c.module, e.value)
            if isinstance(r, Cls):
                acc.update(class_dict(prog, r, e.attr, depth + 1))
        elif isinstance(e, ast.BinOp):
            value(e.left, acc, c)
            value(e.right, acc, c)

    for k in c.mro():
        own = {}
        has = False
        for st in k.node.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    if isinstance(t, ast.Name) and t.id == name and st.value is not None:
                        has = True
                        own = {}
                        value(st.value, own, k)
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name \
                            and isinstance(t.slice, ast.Constant):
                        has = True
                        own[t.slice.value] = (st.value, k)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and st.value.func.attr == "update" and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == name:
                has = True
                for a in st.value.args:
                    value(a, own, k)
        if has:
            return own
    return out


def field_cls(prog, ent):
    node, c = ent
    if isinstance(node, ast.Tuple) and node.elts:
        r = prog.resolve_expr(c.module, node.elts[0])
        return r if isinstance(r, Cls) else None
    return None


class InputModel:
    def __init__(self, m):
        self.m = m
        self.prog = m.prog
        self._ctor = {}
        self._fields = {}

    def fields(self, c):
        if c not in self._fields:
            d = dict(class_dict(self.prog, c, "fields"))
            a = dict(class_dict(self.prog, c, "attribs"))
            self._fields[c] = (d, a)
        return self._fields[c]

    def is_base(self, f):
        return f is not None and f.module.name in BASEMODS

    # -- interpreter set-up ----------------------------------------------
    def interp(self, I, consts=None, objtype=None, typed=None):
        """objtype: {path: Cls} exact classes of objects;  consts: {field: constant}"""
        m = self.m
        consts = consts or {}
        typed = dict(typed or {})

        def inline(f, c, d):
            if self.is_base(f):
                return False
            if f.name in ("check", "warning", "info"):
                return False
            if "property" in f.decorators and not f.module.name.startswith("ipi.inputs"):
                return False
            return True
        ip = m.interp(maxdepth=6, inline=inline)
        ip.taint = True
        ip.unroll = True
        ip.stores = []
        ip.instored = {}
        ip.newargs = {}
        ip.extra_tag = None
        im = self

        def static_type(v):
            """Exact class of a value whose class is fixed by the scenario."""
            ps = prov(v)
            for p in ps:
                for q, c in typed.items():
                    if p[:len(q)] == q and all(x.startswith("[") for x in p[len(q):]):
                        return c
            return None

        def hook(fr, e, recv, fv, args, kwargs):
            fx = e.func
            if isinstance(fx, ast.Name) and fx.id == "type" and len(args) == 1:
                c = static_type(args[0])
                return V(("cls", c)) if c is not None else None
            if not isinstance(fx, ast.Attribute) or fx.attr not in ("store", "fetch") or not recv:
                return None
            # super().store / Input.store of the library base class: the value of the element itself
            for a in fv:
                if a[0] == "func" and im.is_base(a[1].func):
                    owner = a[1].func.cls
                    if fx.attr == "fetch":
                        if owner.name == "InputDictionary":
                            d, _ = im.fields(fr.self_cls or I)
                            return V(("dict", tuple((V(("const", k)), im.fval(ip, k, consts)) for k in d)))
                        if owner.name == "Input":
                            return V(NONE)
                        return im.fval(ip, "<value>", consts)
                    av = list(args)
                    if not any(r[0] == "super" for r in recv) and av:
                        av = av[1:]
                    if owner.name not in ("Input", "InputDictionary") and av:
                        fr.emit("fstore", e, path=("self", "<value>"), args=tuple(av), kwargs=kwargs)
                    elif owner.name == "InputDictionary":
                        fr.emit("fstore", e, path=("self", "*"), args=tuple(av))
                    return V(NONE)
            fields = []
            for a in recv:
                if a[0] in ("obj", "src") and len(a[1]) >= 2 and a[1][0] == "self":
                    fields.append(a[1][1])
                elif a[0] == "inst" and a[1].is_sub(im.prog.cls("Input")):
                    if fx.attr == "store":
                        fr.emit("instore", e, aux=a[2], args=tuple(args), label=a[1].name)
                        ip.instored[a[2]] = ip.instored.get(a[2], EMPTY) | (args[0] if args else EMPTY)
                        return V(NONE)
            if not fields:
                return None
            if fx.attr == "store":
                for f in fields:
                    fr.emit("fstore", e, path=("self", f), args=tuple(args), kwargs=kwargs)
                return V(NONE)
            out = EMPTY
            for f in fields:
                out |= im.fval(ip, f, consts)
            return out

        ip.call_hook = hook

        def truth(fr, t):
            if isinstance(t, ast.BoolOp):
                rs = [truth(fr, x) for x in t.values]
                if isinstance(t.op, ast.And):
                    return False if False in rs else (True if all(r is True for r in rs) else None)
                return True if True in rs else (False if all(r is False for r in rs) else None)
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                r = truth(fr, t.operand)
                return None if r is None else not r
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2:
                c = static_type(quiet(fr, t.args[0]))
                ks = classes(quiet(fr, t.args[1]))
                if c is None or ks is None:
                    return None
                return any(c.is_sub(k) for k in ks)
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                op = t.ops[0]
                l, r = quiet(fr, t.left), quiet(fr, t.comparators[0])
                if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(t.comparators[0], ast.Dict) and not t.comparators[0].keys \
                        and static_type(l) is not None:
                    return isinstance(op, ast.NotEq)
                if ip.extra_tag is not None and any(x[0] == "obj" and x[1] == ("self", "extra", "[]", "[0]") for x in l):
                    l = V(("const", ip.extra_tag))
                lc = [a for a in l if a[0] in ("const", "cls")]
                if len(l) != 1 or not lc:
                    return None
                x = lc[0][1]
                if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                    rc = [a for a in r if a[0] in ("const", "cls")]
                    if len(r) != 1 or not rc:
                        return None
                    eq = x is rc[0][1] or x == rc[0][1]
                    return eq if isinstance(op, (ast.Eq, ast.Is)) else not eq
                if isinstance(op, (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
                    rc = [a for a in r if a[0] == "const"]
                    if len(r) != 1 or not rc or not isinstance(x, (int, float)) or not isinstance(rc[0][1], (int, float)):
                        return None
                    y = rc[0][1]
                    return {ast.Gt: x > y, ast.GtE: x >= y, ast.Lt: x < y, ast.LtE: x <= y}[type(op)]
                if isinstance(op, (ast.In, ast.NotIn)):
                    for a in r:
                        if a[0] in ("list", "tuple") and len(r) == 1:
                            els = [list(z) for z in a[1]]
                            if all(len(z) == 1 and z[0][0] in ("const", "cls") for z in els):
                                hit = any(z[0][1] is x or z[0][1] == x for z in els)
                                return hit if isinstance(op, ast.In) else not hit
                    return None
            if isinstance(t, ast.Constant):
                return bool(t.value)
            if isinstance(t, (ast.Name, ast.Call)):
                v = quiet(fr, t)
                if len(v) == 1:
                    a = next(iter(v))
                    if a[0] == "const":
                        return bool(a[1])
            return None

        def quiet(fr, e):
            r = [EMPTY]
            env = fr.env

            def f():
                r[0] = fr.ev(e)
            fr.env = dict(env)
            fr.sub(f)
            fr.env = env
            return r[0]

        def classes(v):
            out = []
            for a in v:
                if a[0] == "cls":
                    out.append(a[1])
                elif a[0] in ("tuple", "list"):
                    for x in a[1]:
                        s = classes(x)
                        if s is None:
                            return None
                        out += s
                else:
                    return None
            return out
        ip.decide = truth
        return ip

    def fval(self, ip, f, consts):
        if f in consts:
            return V(("const", consts[f]))
        return V(("obj", ("self", f)))

    # -- flows of values into objects --------------------------------------
    def flows(self, ip, v, tree_news, depth=0):
        """(source path, attribute path inside the value) pairs."""
        out = set()
        for a in v:
            if a[0] in ("obj", "raw", "dep", "src", "rawattr"):
                out.add((a[1], ()))
            elif a[0] in ("tuple", "list"):
                for i, x in enumerate(a[1]):
                    for p, s in self.flows(ip, x, tree_news, depth):
                        out.add((p, s))
            elif a[0] == "iter":
                out |= self.flows(ip, a[1], tree_news, depth)
            elif a[0] == "dict":
                for k, x in a[1]:
                    for p, s in self.flows(ip, x, tree_news, depth):
                        kk = [c[1] for c in k if c[0] == "const"]
                        out.add((p, (("[%r]" % kk[0],) if kk else ()) + s))
            elif a[0] == "inst" and depth < 4:
                c, key = a[1], a[2]
                ev = tree_news.get(key)
                if key in ip.instored:
                    out |= self.flows(ip, ip.instored[key], tree_news, depth + 1)
                if ev is not None:
                    if c.name in ("depend_value", "depend_array"):
                        init = c.find("__init__")
                        b = self.bind(init, ev)
                        if "value" in b:
                            out |= self.flows(ip, b["value"], tree_news, depth + 1)
                    else:
                        init = c.find("__init__")
                        if init is not None:
                            cm = self.ctor(c)
                            for q in prov(ev.kwargs.get("**", EMPTY)):
                                out.add((q, ()))
                            for prm, pv in self.bind(init, ev).items():
                                for p, s in self.flows(ip, pv, tree_news, depth + 1):
                                    for at in cm.get(prm, ()):
                                        out.add((p, at + s))
                for attr, x in ip.instances.get(key, {}).items():
                    for p, s in self.flows(ip, x, tree_news, depth + 1):
                        out.add((p, (attr,) + s))
        return out

    def bind(self, init, ev):
        """Parameter -> value of a constructor call (only explicitly passed arguments)."""
        ps = [x for x in init.params][1:]
        out = {}
        for i, v in enumerate(ev.args):
            if i < len(ps):
                out[ps[i]] = v
        allp = set(ps) | {x.arg for x in init.node.args.kwonlyargs}
        for k, v in ev.kwargs.items():
            if k != "**":
                out[k] = v
        if "**" in ev.kwargs:
            for a in ev.kwargs["**"]:
                if a[0] == "dict":
                    for k, x in a[1]:
                        for c in k:
                            if c[0] == "const":
                                out.setdefault(c[1], x)
        return out

    def news(self, tree):
        return {e.aux: e for e in events(tree, ("new",))}

    def ctor(self, C):
        """param -> attribute paths that receive it in C.__init__"""
        if C in self._ctor:
            return self._ctor[C]
        self._ctor[C] = {}
        init = C.find("__init__")
        out = {}
        if init is not None:
            ip = self.m.interp(maxdepth=5, inline=lambda f, c, d: f.name in ("__init__",) or (f.cls is not None and C.is_sub(f.cls)))
            ip.taint = True
            ip.unroll = True
            ip.instored = {}
            tree = ip.run(init, C)
            news = self.news(tree)
            for e in events(tree, ("write", "mut")):
                if e.path[0] != "self" or len(e.path) < 2:
                    continue
                p = list(e.path[1:])
                if p[0].startswith("_") and self.m.is_depend(C, p[0][1:]):
                    p[0] = p[0][1:]
                val = e.val
                if e.kind == "mut":
                    val = frozenset().union(*e.args) if e.args else EMPTY
                if e.kind == "write" and e.how == "item" and e.args:
                    val = val | frozenset(("src", q) for q in prov(e.args[0]))
                    ks = [c[1] for c in e.args[0] if c[0] == "const" and isinstance(c[1], str)]
                    if ks:
                        p = p + ["[%r]" % ks[0]]
                for src, sub in self.flows(ip, val, news):
                    if src[0].startswith("arg:**") and len(src) >= 2 and src[1].startswith("['"):
                        out.setdefault(src[1][2:-2], set()).add(tuple(p) + sub)
                    elif src[0].startswith("arg:"):
                        out.setdefault(src[0][4:], set()).add(tuple(p) + sub)
        self._ctor[C] = out
        return out

    # -- the two directions -----------------------------------------------
    def stored(self, I, C, pname=None, extra_types=None, known=None):
        st = I.find("store")
        if st is None or self.is_base(st):
            return None
        prm = st.params[1]
        root = ("arg:" + prm,)
        typed = {root: C} if C is not None else {}
        typed.update(extra_types or {})
        ip = self.interp(I, typed=typed)
        if C is not None:
            ip.roots[root] = C
        for at, val in (known or {}).items():
            ip.known[root + (at,)] = V(("const", val))
        # typed objects keep their own attribute names: do not inline the engine's properties
        tree = ip.run(st, I)
        return ip, tree, root

    def fetched(self, I, consts=None, tag=None):
        ft = I.find("fetch")
        if ft is None or self.is_base(ft):
            return None
        ip = self.interp(I, consts=consts)
        ip.extra_tag = tag
        tree = ip.run(ft, I)
        ret = EMPTY
        for n in top_returns(tree):
            ret |= n.val
        return ip, tree, ret


def store_sources(im, ip, tree, root):
    """attribute paths of the object that reach some field of the checkpoint"""
    news = im.news(tree)
    out = set()
    for e in events(tree, ("fstore", "write", "mut", "instore")):
        if e.kind in ("fstore", "instore"):
            vals = e.args
        elif e.path[:2] == ("self", "extra"):
            vals = (e.val,) if e.kind == "write" else e.args
        else:
            continue
        for v in vals:
            for p, s in im.flows(ip, v, news):
                if p[:1] == root:
                    out.add(p[1:] + s)
    return out


def pairs(im, classes, fetches=None):
    """(input class, engine class, via) for every object an input file can build"""
    prog = im.prog
    out = []
    for I in classes:
        r = im.fetched(I)
        if r is None:
            continue
        ip, tree, ret = r
        if fetches is not None:
            fetches[I] = r
        st = I.find("store") is not None and not im.is_base(I.find("store"))
        for a in ret:
            if a[0] != "inst":
                continue
            if st:
                out.append((I, a[1], None))
            ev = im.news(tree).get(a[2])
            star = ev.kwargs.get("**") if ev is not None else None
            for p in prov(star) if star else ():
                if len(p) == 2 and p[0] == "self":
                    d, at = im.fields(I)
                    if p[1] in d:
                        fc = field_cls(prog, d[p[1]])
                        if fc is not None and not im.is_base(fc.find("store")):
                            out.append((fc, a[1], "dict"))
    return out


def top_returns(tree):
    """return events of the outermost function only."""
    out = []

    def rec(n):
        if isinstance(n, Seq):
            for x in n.items:
                rec(x)
        elif isinstance(n, Ev):
            if n.kind == "return":
                out.append(n)
        elif isinstance(n, Branch):
            rec(n.a)
            rec(n.b)
        elif isinstance(n, Loop):
            rec(n.body)
            rec(n.orelse)
        elif isinstance(n, Try):
            rec(n.body)
            for _, h in n.handlers:
                rec(h)
            rec(n.orelse)
            rec(n.final)
        elif isinstance(n, With):
            rec(n.body)
    rec(tree)
    return out
