"""Extraction of the declared dependency graph of cached quantities and of what each
recomputation function really reads."""
import ast
from .repo import Cls
from .interp import (Interp, events, walk, pstr, Inline, V, EMPTY, Ev, FuncVal, Frame, Seq)

SYSTEM_ALIAS_OWNERS = {"nm", "forces", "ensemble", "motion", "bias", "barostat", "thermostat", "integrator", "system"}
SHARED = {"beads", "cell", "nm", "forces", "ensemble", "motion"}


class Decl:
    """One cached-quantity declaration in the context of a concrete class."""

    def __init__(self, cls, path, ev, kind):
        self.cls = cls
        self.path = path          # ("self", "pot")
        self.ev = ev              # the "new" event (or the write of ._func)
        self.kind = kind          # depend_value / depend_array / patch
        self.funcs = []           # list of (key or None, FuncVal)
        self.deps = set()         # paths
        self.open_deps = False    # deps list not fully resolved
        self.synchro = None

    @property
    def name(self):
        return pstr(self.path)


def canon(path, root_cls=None, model=None):
    """Collapse the aliases of shared system components: self.nm.beads.q -> self.beads.q."""
    p = list(path)
    changed = True
    while changed:
        changed = False
        for i in range(1, len(p) - 1):
            if p[i] in SYSTEM_ALIAS_OWNERS and p[i + 1] in SHARED and p[i] != p[i + 1]:
                if p[i] == "bias" and p[i + 1] == "forces":
                    continue
                # only collapse when the root object itself carries the shared component
                p = p[:i] + p[i + 1:]
                changed = True
                break
    # `_x` handle component -> x
    return tuple(p)


class DepGraph:
    def __init__(self, model):
        self.m = model
        self.prog = model.prog
        self._cls = {}
        self._reads = {}
        self.peers = {}
        self.nfunc = 0
        self.nreads = 0
        self.unresolved = 0

    # -- declarations of one concrete class -----------------------------
    def entry_methods(self, c):
        """Methods that set the object up, in call order; every other method that declares too."""
        names = []
        for n in ("__init__", "bind"):
            if c.find(n) is not None:
                names.append(n)
        for k in c.mro():
            for n, f in k.methods.items():
                if n in names or n in ("__init__", "bind"):
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Name) and x.id in ("depend_value", "depend_array", "dpipe") or \
                            isinstance(x, ast.Attribute) and x.attr in ("add_dependency", "add_dependant", "_func"):
                        names.append(n)
                        break
        return names

    def decls(self, c):
        if c in self._cls:
            return self._cls[c]
        out = {}
        self._cls[c] = out
        ip = self.m.interp(maxdepth=6, inline=lambda f, k, d: self.inline_ok(f, k, d))
        ip.roots[("self",)] = c
        seen_entry = set()
        trees = []
        for n in self.entry_methods(c):
            f = c.find(n)
            if f is None or f in seen_entry:
                continue
            seen_entry.add(f)
            trees.append(ip.run(f, c))
        keypath = {}
        news = {}
        alls = [e for t in trees for e in events(t)]
        for e in alls:
            if e.kind == "new" and e.label in ("depend_value", "depend_array", "synchronizer"):
                news[e.aux] = e
        order = []
        for e in alls:
            if e.kind == "write" and e.how == "set":
                for a in e.val:
                    if a[0] == "inst" and a[1].name in ("depend_value", "depend_array") and a[2] in news:
                        comp = e.path[-1]
                        if not comp.startswith("_"):
                            continue
                        path = e.path[:-1] + (comp[1:],)
                        keypath.setdefault(a[2], path)
                        order.append((path, news[a[2]], e))
        self_alias = dict(ip.aliases)

        def norm(p):
            for n in range(min(len(p) - 1, 4), 0, -1):
                if p[:n] in self_alias:
                    p = self_alias[p[:n]] + p[n:]
                    break
            return canon(p)

        def dep_paths(v):
            """paths of dependency handles in a value, (paths, fully_resolved)"""
            ps, ok = set(), True
            for a in v:
                if a[0] == "dep":
                    ps.add(norm(a[1]))
                elif a[0] in ("list", "tuple"):
                    for x in a[1]:
                        p2, o2 = dep_paths(x)
                        ps |= p2
                        ok = ok and o2
                elif a[0] == "iter":
                    p2, o2 = dep_paths(a[1])
                    ps |= p2
                    ok = ok and o2
                elif a[0] == "inst" and a[2] in keypath:
                    ps.add(norm(keypath[a[2]]))
                elif a[0] == "obj":
                    comp = a[1][-1]
                    if comp.startswith("_") and not comp.startswith("__"):
                        ps.add(norm(a[1][:-1] + (comp[1:],)))
                    else:
                        ps.add(norm(a[1]))
                        ok = False
                elif a == ("const", None):
                    pass
                else:
                    ok = False
            return ps, ok

        for path, new, w in order:
            d = Decl(c, norm(path), new, new.label)
            kw = dict(new.kwargs)
            sig = {"depend_value": ["name", "value", "synchro", "func", "dependants", "dependencies", "tainted"],
                   "depend_array": ["value", "name", "synchro", "func", "dependants", "dependencies", "tainted", "base", "parent"]}[new.label]
            for i, v in enumerate(new.args):
                if i < len(sig):
                    kw.setdefault(sig[i], v)
            if "dependencies" in kw:
                ps, ok = dep_paths(kw["dependencies"])
                d.deps |= ps
                d.open_deps |= not ok
            if "func" in kw:
                d.funcs += funcs_of(kw["func"])
            if "synchro" in kw:
                for a in kw["synchro"]:
                    if a[0] == "inst":
                        d.synchro = a[2]
                    elif a[0] == "obj":
                        d.synchro = a[1]
            d.qname = next((a[1] for a in kw.get("name", ()) if a[0] == "const"), None)
            out.setdefault(d.path, []).append(d)
        # add_dependency / add_dependant / _func patches
        self_patches = []
        for e in alls:
            if e.kind == "call" and e.label:
                last = e.label.rsplit(".", 1)[-1]
                if last in ("add_dependency", "add_dependant") and e.args:
                    tgt, _ = dep_paths(e.val)
                    src, ok = dep_paths(e.args[0])
                    if last == "add_dependant":
                        tgt, src = src, tgt
                    for t in tgt:
                        self_patches.append(("dep", t, src, ok, e))
            if e.kind == "write" and e.path and e.path[-1] == "_func" and e.how == "set":
                fs = funcs_of(e.val)
                p = e.path[:-1]
                if p and p[-1].startswith("_"):
                    p = p[:-1] + (p[-1][1:],)
                if fs:
                    self_patches.append(("func", norm(p), fs, True, e))
        groups = {}
        for ds in out.values():
            for d in ds:
                if d.synchro is not None:
                    groups.setdefault(d.synchro, set()).add(d.path)
        for e in alls:
            if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] == "add_synchro" and e.args:
                tgt, _ = dep_paths(e.val)
                for a in e.args[0]:
                    k = a[2] if a[0] == "inst" else a[1] if a[0] == "obj" else None
                    if k is not None:
                        groups.setdefault(k, set()).update(tgt)
        self.peers[c] = {}
        for g in groups.values():
            for p in g:
                self.peers[c][p] = g
        for kind, t, x, ok, e in self_patches:
            ds = out.get(t)
            if not ds:
                d = Decl(c, t, e, "patch")
                out[t] = ds = [d]
            for d in ds:
                if kind == "dep":
                    d.deps |= x
                    d.open_deps |= not ok
                else:
                    for kf in x:
                        if kf not in d.funcs:
                            d.funcs.append(kf)
                    if d.kind != "patch" and not getattr(d, "patched", None):
                        d.patched = e
        for ds in out.values():
            for d in ds:
                d.norm = norm
        return out

    def inline_ok(self, f, k, d):
        # never look inside the dependency engine itself while extracting declarations,
        # except for the thin plumbing helper dpipe
        if f.module.name == "ipi.utils.depend":
            return f.name == "dpipe"
        if f.module.name.startswith("ipi.utils.messages"):
            return False
        return True

    # -- what a recomputation reads --------------------------------------
    def reads(self, c, fval, norm):
        key = (c, id(fval.func.node), fval.self_path)
        if key in self._reads:
            return self._reads[key]
        self.nfunc += 1
        ip = self.m.interp(maxdepth=8, inline=lambda f, k, d: f.module.name != "ipi.utils.depend"
                           and not f.module.name.startswith("ipi.utils.messages"))
        ip.roots[("self",)] = c
        dummy = Frame(ip, fval.func, {}, (), c, 0)
        dummy.out = Seq()
        dummy.fn = fval.func
        nargs = fval.func.params
        # call it with no arguments (that is how the engine calls it)
        fv = FuncVal(fval.func, fval.env, fval.self_path, fval.cls, lexical=fval.lexical)
        caller = Frame(ip, _caller(fval.func), {}, (), c, 0)
        caller.out = Seq()
        caller.call_func(fv, [], {}, fval.func.node, "recompute")
        res = {}
        writes = []
        for e in events(caller.out):
            if e.kind == "read":
                p = norm(e.path)
                res.setdefault(p, []).append(e)
            elif e.kind in ("write", "mut"):
                writes.append(e)
        self._reads[key] = (res, writes, caller.out)
        return self._reads[key]


def _caller(f):
    from .repo import Func
    n = ast.parse("def _recompute():\n    pass").body[0]
    return Func("_recompute", n, f.module, f.cls)


def funcs_of(v):
    out = []
    for a in v:
        if a[0] == "func":
            out.append((None, a[1]))
        elif a[0] == "dict":
            for k, x in a[1]:
                kk = next((b[1] for b in k if b[0] == "const"), None)
                for b in x:
                    if b[0] == "func":
                        out.append((kk, b[1]))
    return out
