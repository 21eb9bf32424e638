"""C02: the dependency engine -- reads are fresh, writes invalidate, views share state."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.repo import Cls, Func, AnalysisBroken
from vlib.interp import pstr, events, walk, Loop, Branch, Ev, With
from vlib.flow import Flow

PID = "C02"
MODULE = "ipi.utils.depend"
META = {"shape", "dtype", "ndim", "size", "nbytes", "itemsize"}
# accessors that hand out metadata or an alias of an object the caller already refreshed
NO_REFRESH = {"shape", "dtype", "ndim", "size", "nbytes", "itemsize",
              "reshape", "flatten", "__repr__", "__len__", "__init__", "__deepcopy__", "__getstate__", "__setstate__",
              "dstrip"}


def has(node, attr):
    return any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(node))


class Scen:
    """truth values of the engine's own predicates"""

    def __init__(self, **kw):
        self.__dict__.update(dict(synchro=False, func=False, manual=True, tainted=True, same=False, parent=False))
        self.__dict__.update(kw)

    def __str__(self):
        return ",".join("%s=%s" % (k, "yes" if v else "no") for k, v in sorted(self.__dict__.items()))

    def cond(self, t, other):
        """-> True / False / None (unknown)"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.cond(t.operand, other)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.cond(x, other) for x in t.values]
            if isinstance(t.op, ast.And):
                if any(v is False for v in vs):
                    return False
                return True if all(v is True for v in vs) else None
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, l, r = t.ops[0], t.left, t.comparators[0]
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                v = None
                for a, b in ((l, r), (r, l)):
                    if isinstance(b, ast.Constant) and b.value is None:
                        v = self.isnone(a, other)
                    elif isinstance(b, ast.Constant) and isinstance(b.value, bool):
                        x = self.cond(a, other)
                        v = None if x is None else x == b.value
                    elif isinstance(b, ast.Name) and b.id == "self" and isinstance(a, ast.Name):
                        v = False           # another member of the group
                    elif isinstance(a, ast.Attribute) and a.attr == "_name" and isinstance(b, ast.Attribute) and b.attr == "manual":
                        v = self.same
                    if v is not None:
                        break
                if v is None:
                    return None
                return v != neg
            return None
        if has(t, "_tainted") or isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "tainted":
            base = t
            while isinstance(base, (ast.Subscript, ast.Attribute, ast.Call)):
                base = base.value if not isinstance(base, ast.Call) else base.func
            if other and not (isinstance(base, ast.Name) and base.id == "self"):
                return False
            return self.tainted
        if isinstance(t, ast.Name):
            if t.id == "manual":
                return self.manual
            if other:
                return True
        return None

    def isnone(self, a, other):
        if isinstance(a, ast.Attribute):
            if a.attr == "_synchro":
                return not self.synchro
            if a.attr == "_func":
                return not self.func
            if a.attr == "_parent":
                return not self.parent
        if isinstance(a, ast.Name):
            if other:
                return False
            # the parameter `synchro` of a constructor helper etc.
        return None


class EngineFlow(Flow):
    """Flow with knowledge of loops over dependants / synchronised members."""

    def __init__(self, step, scen, names):
        super().__init__(step)
        self.scen = scen
        self.other = 0
        self.loops = []
        self.branch = self._branch
        self.manual_const = names

    def _branch(self, n, s):
        test = getattr(n.node, "test", None)
        if test is None:
            return [s], [s]
        sc = self.scen
        # value of a parameter called `manual` inside an inlined callee
        man = self.manual_const.get(id(n.fn.node)) if self.manual_const else None
        if man is not None:
            sc = Scen(**dict(self.scen.__dict__, manual=man))
        v = sc.cond(test, self.other > 0)
        if v is True:
            return [s], []
        if v is False:
            return [], [s]
        return [s], [s]

    def _n(self, n, states, exc):
        if isinstance(n, Loop):
            kind = None
            for e in events(n.head, "read"):
                if e.path and e.path[-1] == "_dependants":
                    kind = ("dependants", e.path[:-1])
                elif e.path and e.path[-1] == "synced":
                    kind = ("synced", e.path[:-1])
            if kind is None and n.iterval:
                for a in n.iterval:
                    if a[0] == "obj" and "synced" in a[1]:
                        kind = ("synced", a[1])
                    elif a[0] == "obj" and a[1][-1] == "_dependants":
                        kind = ("dependants", a[1][:-1])
            if kind is not None:
                self.other += 1
                self.loops.append(kind)
                old = self.loop_once
                self.loop_once = lambda x: True
                try:
                    return super()._n(n, states, exc)
                finally:
                    self.loop_once = old
                    self.loops.pop()
                    self.other -= 1
        return super()._n(n, states, exc)


def run(tier):
    m = model()
    prog = m.prog
    mod = prog.modules.get(MODULE)
    if mod is None:
        raise AnalysisBroken("no module " + MODULE)
    rep = Report(PID, tier, "typestate analysis of the dependency engine over finite predicate scenarios",
                 "Every accessor and mutator of the cached-quantity classes is turned into an effect tree with all helpers "
                 "inlined, and explored on all paths under each combination of the engine's own predicates (synchronised or "
                 "not, automatic or not, stale or fresh, view or not); the required order of refresh, store, notification and "
                 "flag updates is checked on every path.",
                 ["weak references of live objects are live", "user supplied recomputation functions return normally"])
    rep.rule("read-refreshes", "an accessor that returns the stored value refreshes it first when it is stale", 12)
    rep.rule("refresh-completes", "refreshing a stale quantity recomputes and stores it (when it has a rule) and marks it fresh", 4)
    rep.rule("write-invalidates", "a write notifies every dependant and marks the quantity itself fresh", 4)
    rep.rule("write-synchro", "a write to a synchronised quantity makes it the source and marks the other members and their dependants stale", 2)
    rep.rule("write-auto-refused", "a manual write to an automatically computed quantity is refused", 1)
    rep.rule("store-locked", "values are stored while holding the quantity's lock", 2)
    rep.rule("views-share", "views of an array share name, synchroniser, dependants, stale flag and parent with it", 1)
    rep.rule("link", "declaring a dependency registers the dependant with the dependency and marks it stale", 2)
    rep.rule("pipe", "a piped quantity takes its value from the source and depends on it", 2)
    rep.rule("property", "attribute access goes through the refreshing getter and the invalidating setter", 2)
    rep.rule("storage-kept", "an array quantity is written in place, its storage is never rebound after construction")
    rep.rule("flag-shared", "the stale flag cell is shared, never rebound outside construction", 1)

    classes = [prog.cls("depend_value"), prog.cls("depend_array")]
    # ---- all function definitions in the module, nested ones included
    store_bases = set()
    metaread = set()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
            store_bases.add(id(n.value))
        if isinstance(n, ast.Attribute) and n.attr in META and isinstance(n.value, ast.Attribute):
            metaread.add(id(n.value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance", "type"):
            for a in n.args:
                metaread.add(id(a))
        if isinstance(n, ast.keyword) and n.arg == "base":
            pass

    def nested(fn_node, outer):
        for n in ast.walk(fn_node):
            if n is not fn_node and isinstance(n, ast.FunctionDef):
                yield n

    entries = []          # (cls, Func, exempt?)
    for c in classes:
        for k in c.mro():
            for nme, f in k.methods.items():
                if c.find(nme) is f:
                    entries.append((c, f))
    for st in mod.tree.body:
        if isinstance(st, ast.FunctionDef):
            for nf in nested(st, st):
                if any(isinstance(x, ast.Attribute) and x.attr == "_value" for x in ast.walk(nf)):
                    outer = Func(st.name, st, mod)
                    c = classes[1]
                    entries.append((c, Func(nf.name, nf, mod, None, outer)))
    nfun = 0

    def tree_of(c, f):
        ip = m.interp(maxdepth=9)
        ip.roots[("self",)] = c
        return ip, ip.run(f, c)

    def manual_map(f, tree, scen):
        """constant values of the parameter `manual` of inlined callees"""
        out = {}
        if "manual" in f.params:
            out[id(f.node)] = scen.manual
        for e in events(tree, "call"):
            if e.label is None:
                continue
            for a in e.kwargs.get("manual", ()):
                if a[0] == "const":
                    nm = e.label.rsplit(".", 1)[-1]
                    for c in classes:
                        g = c.find(nm)
                        if g is not None:
                            out.setdefault(id(g.node), a[1])
        for c in classes:
            g = c.find("set")
            if g is not None and id(g.node) not in out and g.node.args.defaults:
                # default value of the last parameter called manual
                names = [a.arg for a in g.node.args.args]
                dv = dict(zip(names[-len(g.node.args.defaults):], g.node.args.defaults)).get("manual")
                if isinstance(dv, ast.Constant):
                    out[id(g.node)] = dv.value
        return out

    # ---- readers ---------------------------------------------------------
    SC_READ = [Scen(tainted=True, func=True), Scen(tainted=True, synchro=True, func=True, same=False),
               Scen(tainted=True, synchro=True, func=True, same=True), Scen(tainted=True),
               Scen(tainted=True, parent=True), Scen(tainted=False, func=True)]

    def is_vread(e, c):
        return e.kind == "vread" and id(e.node) not in store_bases and id(e.node) not in metaread

    for c, f in entries:
        if f.name in NO_REFRESH:
            continue
        ip, tree = tree_of(c, f)
        nfun += 1
        vre = [e for e in events(tree) if is_vread(e, c) and not any(x.name in ("set", "__setitem__") for x in e.stack + (e.fn,))]
        if not vre or any(x in f.name for x in ("set",)) and f.name != "__setitem__" or f.name == "__setitem__":
            continue
        objs = sorted({e.path for e in vre})
        for sc in SC_READ:
            if not sc.tainted:
                continue
            if sc.parent and c.name != "depend_array":
                continue
            mm = manual_map(f, tree, sc)
            bad = []

            def step(e, st):
                fresh = st
                if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] in ("_refresh",) and e.val:
                    for a in e.val:
                        if a[0] == "obj":
                            fresh = fresh | {a[1]}
                            if a[1][-1] == "_parent":
                                fresh = fresh | {a[1][:-1]}
                if e.kind == "write" and e.path and e.path[-1] == "_tainted" and any(a == ("const", False) for a in e.val):
                    fresh = fresh | {e.path[:-1]}
                if is_vread(e, c) and e in vre and e.path not in fresh:
                    bad.append(e)
                return [fresh]
            fl = EngineFlow(step, sc, mm)
            fl.run(tree, [frozenset()])
            for o in objs:
                b = [e for e in bad if e.path == o]
                # a keyword `out=` hands over a destination buffer, it is not read
                b = [e for e in b if not is_out_target(e, mod)]
                rep.ob("read-refreshes", "%s:%s" % (f.qual, pstr(o)), not b,
                       "in scenario [%s] the stored value of %s is used without a refresh" % (sc, pstr(o)),
                       b[0].loc() if b else f.loc(f.node))

    # ---- refresh -----------------------------------------------------------
    for c in classes:
        f = c.find("_refresh")
        if f is None:
            raise AnalysisBroken("%s has no _refresh" % c.name)
        ip, tree = tree_of(c, f)
        for sc, need in ((Scen(tainted=True, func=True), True), (Scen(tainted=True, synchro=True, func=True, same=False), True),
                         (Scen(tainted=True, synchro=True, func=True, same=True), False), (Scen(tainted=True), False)):
            mm = manual_map(f, tree, sc)

            def step(e, st):
                called, stored, fresh, deps = st
                if e.kind == "call" and called_func(e):
                    deps = deps or fresh          # marked fresh before the new value exists
                    called = True
                    stored = fresh = False
                if is_store(e):
                    stored = called
                    fresh = False
                if flag_write(e) is not None:
                    fresh = flag_write(e) is False
                return [(called, stored, fresh, deps)]
            out = EngineFlow(step, sc, mm).run(tree, [(False, False, False, False)])
            ends = set(out.get("fall", ())) | set(out.get("return", ()))
            ok = bool(ends) and all(x[2] for x in ends) and (not need or all(x[0] and x[1] for x in ends))
            rep.ob("refresh-completes", "%s[%s]:order" % (c.name, sc), not any(x[3] for s_ in out.values() for x in s_),
                   "the quantity is marked fresh before its new value has been computed", f.loc(f.node))
            rep.ob("refresh-completes", "%s[%s]" % (c.name, sc), ok,
                   "after a refresh of a stale quantity some path ends without %s" % (
                       "recomputing and storing the value and clearing the flag" if need else "clearing the flag"), f.loc(f.node))
        if c.name == "depend_array":
            sc = Scen(tainted=True, parent=True)

            def step(e, st):
                return [st or (e.kind == "call" and e.label is not None and e.label.endswith("_parent._refresh"))]
            out = EngineFlow(step, sc, {}).run(tree, [False])
            ends = set(out.get("fall", ())) | set(out.get("return", ()))
            rep.ob("refresh-completes", "depend_array[view]", bool(ends) and all(ends),
                   "refreshing a view does not refresh the parent array", f.loc(f.node))

    # ---- writers --------------------------------------------------------------
    for c in classes:
        for nme in ("set", "__set__", "__setitem__"):
            f = c.find(nme)
            if f is None or f.cls.name == "depend_base":
                continue
            ip, tree = tree_of(c, f)
            nfun += 1
            if not any(is_store(e) for e in events(tree)):
                rep.fail("write-invalidates", "%s.%s" % (c.name, nme), "the write is not stored", f.loc(f.node))
                continue
            for sc in (Scen(manual=True), Scen(manual=True, func=True), Scen(manual=True, synchro=True, func=True),
                       Scen(manual=True, synchro=True, func=True, tainted=False), Scen(manual=True, tainted=False),
                       Scen(manual=True, synchro=True, func=False)):
                mm = manual_map(f, tree, sc)
                fl = None

                def step(e, st):
                    st = dict(st)
                    if is_store(e):
                        st["stored"] = True
                        st["notified"] = st["fresh"] = False
                    lp = fl.loops[-1] if fl.loops else None
                    if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] == "taint" and lp and lp[0] == "dependants":
                        neg = any(a == ("const", False) for v in list(e.args) + list(e.kwargs.values()) for a in v)
                        if not neg:
                            if lp[1] == ("self",):
                                st["notified"] = True
                            else:
                                st["sdeps"] = True
                    if e.kind == "write" and e.path and e.path[-1] == "_tainted":
                        if e.path[:-1] == ("self",):
                            st["fresh"] = flag_write(e) is False
                        elif any(a == ("const", True) for a in e.val):
                            st["sflag"] = True
                    if e.kind == "write" and e.path and e.path[-1] == "manual" and any(
                            a == ("obj", ("self", "_name")) for a in e.val):
                        st["src"] = True
                    return [tuple(sorted(st.items()))]
                fl = EngineFlow(step, sc, mm)
                init = tuple(sorted(dict(stored=False, notified=False, fresh=False, sdeps=False, sflag=False, src=False).items()))
                out = fl.run(tree, [init])
                ends = [dict(x) for x in set(out.get("fall", ())) | set(out.get("return", ()))]
                inst = "%s.%s[%s]" % (c.name, nme, sc)
                if sc.func and not sc.synchro:
                    rep.ob("write-auto-refused", inst, not ends,
                           "writing to an automatically computed quantity returns normally", f.loc(f.node))
                    continue
                rep.ob("write-invalidates", inst, bool(ends) and all(x["stored"] and x["notified"] and x["fresh"] for x in ends),
                       "some path of the write ends without notifying every live dependant after the store, or leaves the "
                       "quantity marked stale", f.loc(f.node))
                if sc.synchro:
                    rep.ob("write-synchro", inst, bool(ends) and all(x["src"] and x["sflag"] and x["sdeps"] for x in ends),
                           "some path does not make the written member the source, mark the other members stale and notify "
                           "their dependants", f.loc(f.node))
            # lock
            locked_bad = []

            def enter(n, s):
                return [s + 1 if any("_threadlock" in (e.label or "") for ce in n.ctx for e in events(ce, "ctx")) else s]

            def leave(n, s):
                return [s - 1 if any("_threadlock" in (e.label or "") for ce in n.ctx for e in events(ce, "ctx")) else s]

            def step(e, s):
                if is_store(e) and s == 0:
                    locked_bad.append(e)
                return [s]
            fl = Flow(step, enter_with=enter, leave_with=leave)
            fl.run(tree, [0])
            rep.ob("store-locked", "%s.%s" % (c.name, nme), not locked_bad, "value stored outside the lock",
                   locked_bad[0].loc() if locked_bad else f.loc(f.node))

    # ---- marking stale itself -----------------------------------------------
    f = classes[0].find("taint")
    if f is not None:
        ip, tree = tree_of(classes[0], f)
        fl = None

        def step(e, st):
            n, w = st
            if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] == "taint" and fl.loops:
                n = True
            if e.kind == "write" and e.path == ("self", "_tainted"):
                w = True
            return [(n, w)]
        fl = EngineFlow(step, Scen(), {})
        out = fl.run(tree, [(False, False)])
        ends = set(out.get("fall", ())) | set(out.get("return", ()))
        rep.ob("write-invalidates", "taint", bool(ends) and all(a and b for a, b in ends),
               "marking stale does not reach every live, not yet stale dependant", f.loc(f.node))
        val_ok = all(any(a == ("obj", ("arg:taintme",)) or a[0] in ("param", "const", "unk", "fresh", "obj") for a in e.val)
                     for e in events(tree, "write") if e.path == ("self", "_tainted"))
        rep.ob("write-invalidates", "taint:flag-follows-argument", val_ok and flag_from_param(f), "the flag does not follow the argument", f.loc(f.node))

    # ---- views -------------------------------------------------------------
    for nme, f in classes[1].methods.items():
        if nme == "__init__":
            continue
        ip, tree = tree_of(classes[1], f)
        for e in events(tree, "new"):
            if e.label != "depend_array":
                continue
            kw = dict(e.kwargs)
            sig = ["value", "name", "synchro", "func", "dependants", "dependencies", "tainted", "base", "parent"]
            for i, v in enumerate(e.args):
                kw.setdefault(sig[i], v)
            miss = []
            for k, want in (("name", ("self", "_name")), ("synchro", ("self", "_synchro")), ("dependants", ("self", "_dependants")),
                            ("tainted", ("self", "_tainted"))):
                if not any(a == ("obj", want) for a in kw.get(k, ())):
                    miss.append(k)
            if not any(a in (("obj", ("self",)), ("obj", ("self", "_parent"))) for a in kw.get("parent", ())):
                miss.append("parent")
            if not any(a[0] == "raw" and a[1] == ("self",) for a in kw.get("base", ())):
                miss.append("base")
            rep.ob("views-share", "%s@%s" % (f.qual, nme), not miss, "the view does not share %s" % miss, e.loc())

    # ---- linking ---------------------------------------------------------------
    base = prog.cls("depend_base")
    f = base.find("add_dependency")
    ip, tree = tree_of(classes[0], f)
    reg = any(e.kind == "mut" and e.how == "append" and e.path and e.path[-1] == "_dependants" and e.path[0].startswith("arg:")
              for e in events(tree))
    self_in = any(isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == "self" for a in x.args)
                  for x in ast.walk(f.node))
    tnt = any(e.kind == "write" and e.path == ("self", "_tainted") for e in events(tree)) or any(
        e.kind == "call" and e.label == "self.taint" for e in events(tree))
    rep.ob("link", "add_dependency", reg and self_in and tnt,
           "add_dependency must append (a reference to) self to the dependency's dependants and mark self stale", f.loc(f.node))
    f = base.find("add_dependant")
    ip, tree = tree_of(classes[0], f)
    ok = any(e.kind == "call" and e.label and e.label.endswith(".add_dependency") for e in events(tree)) or any(
        e.kind == "mut" and e.path == ("self", "_dependants") for e in events(tree))
    rep.ob("link", "add_dependant", ok, "add_dependant must register the argument as a dependant", f.loc(f.node))
    f = base.find("__init__")
    ip, tree = tree_of(classes[0], f)
    okl = False
    for n in walk(tree):
        if isinstance(n, Loop) and any(a[0] == "obj" and a[1][0] == "arg:dependencies" for a in n.iterval or ()):
            for e in events(n.body, "call"):
                if e.label and e.label.rsplit(".", 1)[-1] in ("add_dependant", "add_dependency"):
                    okl = True
    rep.ob("link", "__init__:dependencies", okl, "the constructor does not register itself with its dependencies", f.loc(f.node))
    # automatic quantities start out stale, constants start out fresh
    # ---- dpipe ----------------------------------------------------------------
    df = mod.funcs.get("dpipe") if hasattr(mod, "funcs") else None
    if df is None:
        df = next((x for x in prog.all_funcs() if x.name == "dpipe" and x.module is mod), None) if hasattr(prog, "all_funcs") else None
    if df is None:
        nd = next((x for x in mod.tree.body if isinstance(x, ast.FunctionDef) and x.name == "dpipe"), None)
        df = Func("dpipe", nd, mod) if nd is not None else None
    if df is None:
        raise AnalysisBroken("no dpipe")
    ip = m.interp(maxdepth=3, inline=lambda fn, k, d: fn.module is not mod or fn.name not in ("add_dependency", "add_dependant"))
    tree = ip.run(df, None)
    p = df.params
    src, dst = "arg:" + p[0], "arg:" + p[1]

    def step(e, st):
        a, b = st
        if e.kind == "write" and e.path == (dst, "_func"):
            a = any(x[0] == "func" and reads_fresh(x[1].func.node, p[0]) for x in e.val)
        if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] in ("add_dependency", "add_dependant") and e.args:
            rec = {x[1] for x in e.val if x[0] == "obj"}
            arg = {x[1] for x in e.args[0] if x[0] == "obj"}
            quiet = unmarked(e.node)
            if e.label.endswith("add_dependency") and (dst,) in rec and (src,) in arg:
                b = True if not quiet else b or "unmarked"
            if e.label.endswith("add_dependant") and (src,) in rec and (dst,) in arg:
                b = True if not quiet else b or "unmarked"
        if e.kind == "call" and e.label and e.label.endswith(".taint") and b and any(x[0] == "obj" and x[1] == (dst,) for x in e.val):
            b = True
        return [(a, b)]
    out = Flow(step).run(tree, [(False, False)])
    ends = set(out.get("fall", ())) | set(out.get("return", ()))
    rep.ob("pipe", "dpipe:func", bool(ends) and all(x[0] for x in ends), "some path does not install a function reading the source", df.loc(df.node))
    rep.ob("pipe", "dpipe:dependency", bool(ends) and all(x[1] for x in ends), "some path does not declare the dependency", df.loc(df.node))
    rep.ob("pipe", "dpipe:stale", all(x[1] != "unmarked" for x in ends), "a piped quantity keeps its old value until the source changes", df.loc(df.node))
    for nm in ("add_dependency", "add_dependant"):
        f = base.find(nm)
        dflt = f.node.args.defaults
        rep.ob("link", nm + ":default", all(not isinstance(d, ast.Constant) or d.value for d in dflt), "a dependency declared later does not mark the quantity stale", f.loc(f.node))
    # nobody is left out
    for k in classes + [base]:
        for f in k.methods.values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.For) and any(isinstance(y, ast.Attribute) and y.attr in ("_dependants", "synced") for y in ast.walk(x.iter)):
                    stop = [y for b in x.body for y in ast.walk(b) if isinstance(y, (ast.Break, ast.Return))]
                    rep.ob("write-invalidates", "%s:all@%d" % (f.qual, len(x.body)), not stop, "the quantities after one that is skipped are not notified", f.loc(stop[0]) if stop else f.loc(x))
    # what has a rule starts out stale
    f = base.find("__init__")
    for x in ast.walk(f.node):
        if isinstance(x, ast.If):
            for br, neg in ((x.body, False), (x.orelse, True)):
                if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "taint" and any(isinstance(q, ast.Constant) and q.value is False for q in y.args + [z.value for z in y.keywords])
                       for b in br if not isinstance(b, ast.If) for y in ast.walk(b)):
                    nm = {y.id for y in ast.walk(x.test) if isinstance(y, ast.Name)} | {y.attr for y in ast.walk(x.test) if isinstance(y, ast.Attribute)}
                    wide = isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.Or if not neg else ast.And) and bool(nm & {"func", "_func"})
                    rep.ob("link", "__init__:stale", not wide, "a quantity with a rule starts out as fresh when %s" % ast.unparse(x.test), f.loc(x))

    # ---- properties -----------------------------------------------------------------
    for c in classes:
        g = c.find("set")
        names = [a.arg for a in g.node.args.args]
        dv = dict(zip(names[-len(g.node.args.defaults):], g.node.args.defaults)).get("manual") if g.node.args.defaults else None
        rep.ob("property", "%s.set:manual-by-default" % c.name, isinstance(dv, ast.Constant) and dv.value is True,
               "plain assignment must count as a manual write", g.loc(g.node))
    getters = setters = 0
    for c, f in entries:
        pass
    for st in mod.tree.body:
        if isinstance(st, ast.FunctionDef):
            props = [x for x in ast.walk(st) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "property"]
            if not props:
                continue
            defs = {n.name: n for n in ast.walk(st) if isinstance(n, ast.FunctionDef) and n is not st}
            for pr in props:
                if len(pr.args) >= 2 and isinstance(pr.args[1], ast.Name) and pr.args[1].id in defs:
                    sd = defs[pr.args[1].id]
                    val = sd.args.args[-1].arg
                    ok = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("set", "__set__")
                             and any(isinstance(a, ast.Name) and a.id == val for a in x.args)
                             and not any(k.arg == "manual" and isinstance(k.value, ast.Constant) and not k.value.value for k in x.keywords)
                             and unconditional(sd, x) for x in ast.walk(sd))
                    setters += 1
                    rep.ob("property", "setter", ok, "attribute assignment does not go through the invalidating write", "%s:%d" % (mod.relpath if hasattr(mod, "relpath") else MODULE, sd.lineno))
                else:
                    rep.fail("property", "setter", "properties for cached quantities have no setter", "%s:%d" % (MODULE, st.lineno))
                if pr.args and isinstance(pr.args[0], ast.Name) and pr.args[0].id in defs:
                    getters += 1
    rep.ob("property", "injected", getters > 0 and setters > 0, "no injected properties found", MODULE)

    # ---- flag cell -------------------------------------------------------------------
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.FunctionDef):
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ("_tainted", "_dependants"):
                    ok = n.name in ("__init__", "dcopy", "__deepcopy__", "__setstate__")
                    rep.ob("flag-shared", "%s.%s" % (n.name, x.attr), ok,
                           "rebinding %s detaches the views that share it" % x.attr, "%s:%d" % (MODULE, x.lineno))
    # ---- an array keeps its storage: views alias it ------------------------------------
    for c in mod.tree.body:
        if isinstance(c, ast.ClassDef) and c.name != "depend_value":
            for n in c.body:
                if isinstance(n, ast.FunctionDef):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "_value":
                            rep.ob("storage-kept", "%s.%s" % (c.name, n.name), n.name in ("__init__", "__setstate__", "__new__"),
                                   "rebinding the storage of an array detaches its views", "%s:%d" % (MODULE, x.lineno))
    rep.extra.update(functions=nfun, classes=[c.name for c in classes])
    return rep.finish()


def unconditional(fn, call):
    """call is evaluated on every path through fn (straight-line position)"""
    for st in fn.body:
        if any(x is call for x in ast.walk(st)):
            return not isinstance(st, (ast.If, ast.For, ast.While, ast.Try))
        if isinstance(st, ast.If) and any(isinstance(y, ast.Return) for y in ast.walk(st)):
            return False
        if isinstance(st, ast.Return):
            return False
    return False


def unmarked(call):
    """the dependency is declared without marking the dependant stale"""
    v = [k.value for k in call.keywords if k.arg == "tainted"] + list(call.args[1:2])
    return any(isinstance(x, ast.Constant) and not x.value for x in v)


def flag_from_param(f):
    ps = set(f.params)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "_tainted" \
                        and isinstance(t.value.value, ast.Name) and t.value.value.id == "self":
                    return any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(n.value))
    return True


def reads_param(node, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(node))


def reads_fresh(node, name):
    """the closure obtains the value of `name` through an accessor that refreshes it"""
    raw = acc = False
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name:
            if x.attr == "_value":
                raw = True
            elif x.attr in ("__get__", "get", "__getitem__", "_refresh", "__array__"):
                acc = True
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name:
            acc = True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "dstrip" and any(
                isinstance(a, ast.Name) and a.id == name for a in x.args):
            raw = True
    calls_refresh = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "_refresh" for x in ast.walk(node))
    return reads_param(node, name) and (calls_refresh or (acc and not raw) or not (raw or acc))


def called_func(e):
    """call of the user supplied recomputation function"""
    n = e.node
    if not isinstance(n, ast.Call):
        return False
    fn = n.func
    while isinstance(fn, ast.Subscript):
        fn = fn.value
    if isinstance(fn, ast.Attribute) and fn.attr == "_func":
        return True
    return e.label is not None and (e.label.endswith("._func") or e.label == "?" and not isinstance(n.func, ast.Name) and has(n.func, "_func"))


def is_store(e):
    if e.kind != "write":
        return False
    if e.path == ("self",) and e.raw and e.how in ("item", "itemaug"):
        return True
    return e.path == ("self", "_value") and e.how in ("set", "aug", "item", "itemaug")


def flag_write(e):
    """None, True, False or 'unk'"""
    if e.kind == "write" and e.path == ("self", "_tainted"):
        for a in e.val:
            if a[0] == "const":
                return bool(a[1])
        return "unk"
    return None


def is_out_target(e, mod):
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Assign) and any(x is e.node for x in ast.walk(n.value)):
            t = n.targets[0]
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "out":
                return True
        if isinstance(n, ast.GeneratorExp) and any(x is e.node for x in ast.walk(n.elt)):
            for g in n.generators:
                if any(isinstance(c, ast.Constant) and c.value == "out" for c in ast.walk(g.iter)):
                    return True
    return False


if __name__ == "__main__":
    main(run, PID)
