"""Values of cached quantities that set-up code copies into plain attributes, locals of closures or default arguments.

A copy made at set-up time is frozen: later changes of the quantity do not reach it.  `snapshots(m)` lists them with
the quantities they were taken from and the functions that use them after set-up."""
import ast
from .model import BYNAME

SETUP = ("__init__", "bind", "__new__")


def _typ(m, c, e, env):
    if isinstance(e, ast.Name):
        if e.id == "self":
            return c
        if e.id in env:
            return env[e.id]
        b = BYNAME.get(e.id)
        return m.prog.cls(b) if b and m.prog.has_cls(b) else None
    if isinstance(e, ast.Attribute):
        t = _typ(m, c, e.value, env)
        return m.attr_type(t, e.attr) if t is not None else None
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute):
        t = _typ(m, c, e.value.value, env)
        return m.attr_type(t, e.value.attr + "[]") if t is not None else None
    return None


# calls that give an object which stays linked, or only the shape of the value
LINKED = {"dpipe", "dstrip", "len", "isinstance", "type", "print", "info", "warning", "hasattr", "getattr", "softexit"}


def taken(m, c, e, env, tl, links=True):
    """cached quantities whose present value enters the value of expression e"""
    out = set()

    def go(x):
        if isinstance(x, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(x, ast.Call):
            nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
            if nm in LINKED or nm.startswith("depend_"):
                return
            r = m.prog.resolve_expr(c.module, x.func)
            if r in m.prog.all_classes() or (nm == "copy" and (x.args or x.keywords)):
                return      # an object of its own: whether it stays linked is decided elsewhere
            if isinstance(x.func, ast.Attribute):
                go(x.func.value)
            for a in x.args:
                go(a)
            for k in x.keywords:
                go(k.value)
            return
        if isinstance(x, ast.Attribute):
            if x.attr in ("shape", "size", "ndim", "dtype"):
                return
            t = _typ(m, c, x.value, env)
            if t is not None and m.is_depend(t, x.attr) and x.attr not in m_methods(t):
                out.add((t.name, x.attr))
                return
            if isinstance(x.value, ast.Name) and x.value.id == "self" and ("self." + x.attr) in tl:
                out.update(tl["self." + x.attr])
                return
            go(x.value)
            return
        if isinstance(x, ast.Name):
            if x.id in tl:
                out.update(tl[x.id])
            return
        for y in ast.iter_child_nodes(x):
            go(y)
    go(e)
    return out


def m_methods(t):
    return t.methods


def _is_view(m, c, e, env):
    """a plain alias (name, attribute, slice) of a cached array stays linked"""
    while isinstance(e, (ast.Subscript,)):
        e = e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dstrip":
        return True
    if isinstance(e, ast.Attribute):
        t = _typ(m, c, e.value, env)
        return t is not None and m.is_depend(t, e.attr) and m.dep_kind(t, e.attr) == "depend_array"
    return False


def snapshots(m):
    """yields (cls, func, kind, name, quantities, node, users)"""
    res = []
    for c in m.prog.all_classes():
        if not c.module.name.startswith("ipi.engine") and not c.module.name.startswith("ipi.utils"):
            continue
        for f in c.methods.values():
            if not f.qual.split(".")[-1].startswith(SETUP):
                continue
            env, tl = {}, {}
            ctl = []
            for st in _stmts(f.node.body):
                if isinstance(st, ast.Assign):
                    if isinstance(st.value, ast.Call) and m._is_dep_ctor(c, st.value) and isinstance(st.targets[0], ast.Attribute):
                        # a cached quantity of its own, started with the value of another object's one and not linked to it
                        kw = {k.arg: k.value for k in st.value.keywords}
                        ini = [kw["value"]] if "value" in kw else st.value.args[1:2]
                        a = st.targets[0].attr
                        if ini and "func" not in kw and not _touched(f, st, a):
                            q = {x for x in taken(m, c, ini[0], env, tl) if x[0] not in {k.name for k in c.mro()}}
                            if q:
                                res.append((c, f, "own", a, q, st))
                    q = taken(m, c, st.value, env, tl)
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            ty = _typ(m, c, st.value, env)
                            if ty is not None:
                                env[t.id] = ty
                            if q and not _is_view(m, c, st.value, env):
                                tl[t.id] = q
                            else:
                                tl.pop(t.id, None)
                        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            if q and not m.is_depend(c, t.attr) and not _is_view(m, c, st.value, env) and not (t.attr.startswith("_") and m.is_depend(c, t.attr[1:])):
                                tl["self." + t.attr] = q
                                res.append((c, f, "attr", t.attr, q, st))
                            else:
                                tl.pop("self." + t.attr, None)
                # closures made here that use a frozen local, or have a frozen default
                for x in ast.walk(st) if not isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)) else ():
                    if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                        a = x.args
                        for d in list(a.defaults) + [k for k in a.kw_defaults if k is not None]:
                            q = taken(m, c, d, env, tl)
                            if q:
                                res.append((c, f, "default", ast.unparse(d), q, x))
                        par = {y.arg for y in a.args + a.kwonlyargs}
                        body = x.body if isinstance(x.body, list) else [x.body]
                        for b in body:
                            for y in ast.walk(b):
                                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in tl and y.id not in par:
                                    res.append((c, f, "closure", y.id, tl[y.id], x))
    return res


def _touched(f, st, a):
    """the handle is used again in the same set-up function (piped, given a rule, dependencies)"""
    return any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.value, ast.Name) and x.value.id == "self" and getattr(x, "lineno", 0) > st.end_lineno
               and _call_of(f.node, x) in ("dpipe", "add_dependency", "add_synchro") and not _first_arg(f.node, x) for x in ast.walk(f.node))


def _call_of(fn, x):
    for y in ast.walk(fn):
        if isinstance(y, ast.Call) and (any(a is x for a in y.args) or any(k.value is x for k in y.keywords) or (isinstance(y.func, ast.Attribute) and y.func.value is x)):
            return y.func.id if isinstance(y.func, ast.Name) else y.func.attr if isinstance(y.func, ast.Attribute) else ""
    return ""


def _first_arg(fn, x):
    for y in ast.walk(fn):
        if isinstance(y, ast.Call) and y.args and y.args[0] is x:
            return isinstance(y.func, ast.Name) and y.func.id == "dpipe"
    return False


def _stmts(body):
    for s in body:
        yield s
        for k in ("body", "orelse", "finalbody"):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                break
            yield from _stmts(getattr(s, k, []) or [])
        for h in getattr(s, "handlers", []) or []:
            yield from _stmts(h.body)


def uses(m, c, attr, skip):
    """functions outside set-up that read self.<attr> of c (or its sub- and base classes); and whether one writes it"""
    rd, wr = [], []
    fam = set(c.mro()) | set(m.prog.subclasses(c))
    for k in fam:
        for f in k.methods.values():
            nm = f.qual.split(".")[-1]
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == "self":
                    if isinstance(x.ctx, ast.Store):
                        if not nm.startswith(SETUP):
                            wr.append(f)
                    elif not nm.startswith(SETUP):
                        rd.append(f)
                    elif _in_lambda(f.node, x):
                        rd.append(f)
    return rd, wr


def _in_lambda(fn, x):
    for y in ast.walk(fn):
        if y is not fn and isinstance(y, (ast.Lambda, ast.FunctionDef)) and any(z is x for z in ast.walk(y)):
            return True
    return False


def _mentions(e, attr):
    return any((isinstance(x, ast.Attribute) and x.attr == attr) or (isinstance(x, ast.Constant) and x.value == attr) for x in ast.walk(e))


def memos(m):
    """plain attributes that a function fills once (`if self.x is None: self.x = ...`, `if key not in self.x: self.x[key] = ...`)
    with the value of a cached quantity: (cls, func, attr, quantities, node)"""
    res = []
    for c in m.prog.all_classes():
        if not c.module.name.startswith("ipi.engine") and not c.module.name.startswith("ipi.utils"):
            continue
        for f in c.methods.values():
            nm = f.qual.split(".")[-1]
            if nm.startswith(SETUP):
                continue
            env, tl = {}, {}

            def visit(body, guards):
                for st in body:
                    if isinstance(st, ast.Assign):
                        q = taken(m, c, st.value, env, tl)
                        for t in st.targets:
                            if isinstance(t, ast.Name):
                                if q and not _is_view(m, c, st.value, env):
                                    tl[t.id] = q
                                ty = _typ(m, c, st.value, env)
                                if ty is not None:
                                    env[t.id] = ty
                            base, key = t, None
                            if isinstance(t, ast.Subscript):
                                base, key = t.value, t.slice
                            if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id == "self" and not m.is_depend(c, base.attr):
                                for g in guards:
                                    if _mentions(g, base.attr) and _absent(g, key is not None):
                                        qk = taken(m, c, key, env, tl) if key is not None else set()
                                        if q - qk:
                                            res.append((c, f, base.attr, q - qk, st))
                    if isinstance(st, ast.If):
                        visit(st.body, guards + [st.test])
                        visit(st.orelse, guards + [st.test])
                    elif isinstance(st, ast.Try):
                        visit(st.body, guards)
                        for h in st.handlers:
                            visit(h.body, guards + ([ast.Constant(x.attr) for b in st.body for x in ast.walk(b) if isinstance(x, ast.Attribute)] and [ast.Tuple([x for b in st.body for x in ast.walk(b) if isinstance(x, ast.Attribute)], ast.Load())]))
                    elif not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        for k in ("body", "orelse", "finalbody"):
                            visit(getattr(st, k, []) or [], guards)
            visit(f.node.body, [])
    return res


def _absent(g, key):
    if isinstance(g, ast.Tuple):
        return True     # the handler of an attempt to read it
    for x in ast.walk(g):
        if isinstance(x, ast.Compare):
            for o, r in zip(x.ops, x.comparators):
                if isinstance(o, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                    return True
                if isinstance(o, (ast.In, ast.NotIn)):
                    return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "len", "getattr"):
            return True
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            return True
    return False


def compute_names(m):
    """names of methods registered as recomputation of a cached quantity"""
    out = set()
    for mod in m.prog.modules.values():
        for x in ast.walk(mod.tree):
            vs = []
            if isinstance(x, ast.keyword) and x.arg == "func":
                vs = [x.value]
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_func" for t in x.targets):
                vs = [x.value]
            for v in vs:
                out |= {y.attr for y in ast.walk(v) if isinstance(y, ast.Attribute)}
    return out


def frozen(m):
    """(instance, what, quantities, location, used by a recomputation?)"""
    comp = compute_names(m)
    out = []
    for c, f, k, n, q, st in snapshots(m):
        if k == "attr":
            rd, wr = uses(m, c, n, f)
            if not rd or wr:
                continue
            cf = any(r.qual.split(".")[-1] in comp or r.qual.split(".")[-1].startswith(SETUP) for r in rd)
            if not cf:       # through a helper called by a recomputation
                names = {r.qual.split(".")[-1] for r in rd}
                for k2 in set(c.mro()) | set(m.prog.subclasses(c)):
                    for g in k2.methods.values():
                        if g.qual.split(".")[-1] in comp and any(isinstance(x, ast.Attribute) and x.attr in names for x in ast.walk(g.node)):
                            cf = True
            out.append(("%s:%s" % (f.qual, n), "self.%s keeps the value %s had during set-up and is used by %s" % (
                n, _q(q), sorted({r.qual for r in rd})[0]), q, f.loc(st), cf))
        elif k == "own":
            out.append(("%s:%s" % (f.qual, n), "self.%s is made with the value %s had during set-up and is not linked to it" % (n, _q(q)), q, f.loc(st), False))
        else:
            out.append(("%s:%s:%s" % (f.qual, k, n), "a recomputation made during set-up uses the value %s had at that time" % _q(q), q, f.loc(st), True))
    for c, f, n, q, st in memos(m):
        rd, wr = uses(m, c, n, f)
        if any(w is not f for w in wr):
            continue
        nm = f.qual.split(".")[-1]
        out.append(("%s:%s" % (f.qual, n), "self.%s is filled once with the value of %s and never renewed" % (n, _q(q)), q, f.loc(st), nm in comp))
    return out


def _q(q):
    return ", ".join(sorted("%s.%s" % x for x in q))
