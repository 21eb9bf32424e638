"""C20: data shared between threads is only changed under its lock; locks cannot deadlock."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.interp import events, walk, Branch, Ev, Seq, Loop, Inline, Try, With
from vlib.flow import CFlow, Flow

PID = "C20"
# class -> (lock attribute, attributes that may only be changed while holding it, set-up methods)
GUARDED = {
    "ForceField": ("_threadlock", ("requests", "request_batch", "_getallcount"), ("__init__", "start", "bind")),
    "ForceBead": ("_threadlock", ("_getallcount",), ("__init__", "bind")),
    "AlKMC": ("_threadlock", ("feval", "ecache", "qcache", "ncache", "tscache", "struct_count"), ("__init__", "bind", "step")),   # entered by evaluation threads and find_eval
}


# methods that other objects call although the class also calls them itself
API = ("queue", "release", "poll", "start", "stop", "run", "get_all", "open", "close", "setup", "queue_mts", "step")


def external(m, c):
    """attribute names used outside the module of c"""
    out = set()
    for mod in m.prog.modules.values():
        if mod is c.module:
            continue
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Attribute):
                out.add(x.attr)
    return out


def entry_points(m, c, skip):
    """methods through which a thread enters the object: called from other modules, by other classes, used as thread targets,
    or not called by the class itself"""
    calls, refs, other = set(), set(), set()
    for k in c.mro():
        for n, f in k.methods.items():
            fs = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    b = x.func.value
                    own = isinstance(b, ast.Name) and b.id == "self" or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super"
                    (calls if own else other).add(x.func.attr)
                    fs.add(id(x.func))
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and id(x) not in fs and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
                    refs.add(x.attr)
    ext = external(m, c) | other
    out = []
    for n in sorted({n for k in c.mro() for n in k.methods}):
        if n in skip or n == "__init__":
            continue
        if n.startswith("_"):
            if n in refs or n not in calls:
                out.append(n)
        elif n in API and n in ext or n in refs or n not in calls:
            out.append(n)
    return out


def decider(root):
    def decide(fr, test):
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        if not isinstance(test, ast.Name):
            return None
        v = fr.env.get(test.id)
        if v and len(v) == 1:
            a = next(iter(v))
            if a[0] == "const" and isinstance(a[1], bool):
                return a[1] != neg
        if fr.fn is root:
            a = fr.fn.node.args
            for p, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if p.arg == test.id and isinstance(d, ast.Constant) and isinstance(d.value, bool) \
                        and not any(isinstance(x, ast.Name) and x.id == test.id and isinstance(x.ctx, ast.Store) for x in ast.walk(fr.fn.node)):
                    return d.value != neg
        return None
    return decide


def locks_of(n, names):
    """lock paths a with statement certainly takes / may take"""
    out, may = set(), set()
    for c in n.ctx:
        for e in events(c, "ctx"):
            ps = {a[1] for a in e.val if a[0] == "obj" and isinstance(a[1], tuple) and a[1] and a[1][-1] in names}
            if ps and len(e.val) == len(ps) == 1:
                out |= ps
            else:
                may |= ps
    return out, may


LOCKS = ("_threadlock", "_propertylock", "mpi_lock", "_mpi_lock", "_setup_lock")


class Held(Flow):
    """typestate: the set of locks held"""

    def __init__(self, cstep, on_lock=None, **kw):
        self.on_lock = on_lock

        def ew(n, st):
            sure, may = locks_of(n, LOCKS)
            if self.on_lock:
                self.on_lock(n, sure | may, st)
            return [st | frozenset(sure)]

        def lw(n, st):
            sure, may = locks_of(n, LOCKS)
            return [st - frozenset(sure)]
        super().__init__(cstep, enter_with=ew, leave_with=lw, **kw)


def reentrant(m, c, lock):
    found = []
    for k in c.mro():
        for f in k.methods.values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == lock for t in x.targets):
                    found.append("RLock" in ast.dump(x.value))
    return bool(found) and all(found)


def tree(m, c, f, depth=6):
    ip = m.interp(maxdepth=depth, inline=lambda fn, k, d: not fn.module.name.startswith("ipi.utils"))
    ip.decide = decider(f)
    ip.roots[("self",)] = c
    return ip.run(f, c)


def test_status(x, val):
    return isinstance(x, ast.Compare) and any(isinstance(y, ast.Constant) and y.value == val for y in ast.walk(x)) and any(
        isinstance(y, ast.Constant) and y.value == "status" for y in ast.walk(x))


def check_class(rep, m, c, lock, attrs, skip):
    own = ("self", lock)
    reent = reentrant(m, c, lock)
    threads = any(isinstance(x, ast.Constant) and x.value == "thread" for k in c.mro() for f in k.methods.values() for y in ast.walk(f.node)
                  if isinstance(y, ast.Assign) for t in y.targets for x in ast.walk(t))
    for n in sorted(set(entry_points(m, c, skip)) | ({"find_eval"} & set(c.methods))):
        f = c.find(n)
        if f is None or f.module.name.startswith("ipi.utils"):
            continue
        t = tree(m, c, f)
        if not any(isinstance(x, With) for x in walk(t)) and not any(isinstance(x, Ev) and x.path and len(x.path) > 1 and x.path[1] in attrs for x in walk(t)):
            continue
        bad = {}
        seen = [0]

        def step(e, s):
            w = e.kind in ("write", "mut") and e.path and len(e.path) >= 2 and e.path[0] == "self" and e.path[1] in attrs
            if w and (len(e.path) == 2 or e.path[1] != "requests") and not (e.path[1] == "requests" and e.how == "set"):
                seen[0] += 1
                if own not in s:
                    bad.setdefault("guard:" + e.path[1], (e, "%s is changed without holding %s: another thread may be using it" % (e.path[1], lock)))
            if e.kind == "write" and e.path == ("self", "requests") and e.how == "set":
                bad.setdefault("rebind", (e, "the list of requests is replaced: the interface goes on working with the old list"))
            if own in s and not reent and e.kind == "call" and isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Attribute):
                a = e.node.func.attr
                if a in ("wait", "sleep") or a == "join" and threads and not isinstance(e.node.func.value, ast.Constant) and not e.node.args:
                    bad.setdefault("block", (e, "waits (%s) while holding %s, which the thread it waits for needs" % (a, lock)))
            if e.kind == "write" and e.how == "item" and e.args and ("const", "status") in (e.args[0] or ()) and ("const", "Running") in e.val \
                    and e.fn.module.name == "ipi.engine.forcefields" and e.path and e.path[:2] == ("self", "requests"):
                seen[0] += 1
                ws = [x for x in ast.walk(e.fn.node) if isinstance(x, ast.With) and any(y is e.node for z in x.body for y in ast.walk(z))]
                inside = not ws or any(test_status(y, "Queued") for x in ws for y in ast.walk(x))
                if own not in s or not inside:
                    bad.setdefault("claim", (e, "a request is found Queued and marked Running in separate steps: two threads may take it"))
            return [s]

        def on_lock(w, ls, s):
            seen[0] += 1
            if own in ls and own in s and not reent:
                bad.setdefault("twice", (Ev("x", w.node, w.fn, w.stack), "%s is taken again by a thread that already holds it: the run stops for ever" % lock))

        Held(step, on_lock).run(t, [frozenset()])
        if seen[0]:
            for k in sorted(set(["block", "twice", "claim", "rebind"] + ["guard:" + a for a in attrs]) | set(bad)):
                b = bad.get(k)
                rep.ob("deadlock" if k in ("block", "twice") else "guarded", "%s.%s:%s" % (c.name, n, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))


def check_bead_claim(rep, m):
    """a request of a bead is created by one thread only: test and creation under one lock"""
    c = m.prog.cls("ForceBead")
    k = 0
    for n in entry_points(m, c, ("__init__", "bind")):
        f = c.find(n)
        t = tree(m, c, f, 3)
        bad = {}
        seen = [0]

        def step(e, s):
            if e.kind == "write" and e.path == ("self", "request") and e.how == "set" and ("const", None) not in e.val:
                seen[0] += 1
                ws = [x for x in ast.walk(e.fn.node) if isinstance(x, ast.With) and any(y is e.node for z in x.body for y in ast.walk(z))]
                inside = not ws or any(isinstance(y, ast.Compare) and "request" in ast.dump(y) for x in ws for y in ast.walk(x))
                if ("self", "_threadlock") not in s:
                    bad.setdefault("lock", (e, "two threads may create a request for the same bead: the lock is not held"))
                elif not inside:
                    bad.setdefault("lock", (e, "whether a request exists is tested before the lock is taken: two threads may create one each"))
            return [s]
        Held(step).run(t, [frozenset()])
        if seen[0]:
            k += 1
            b = bad.get("lock")
            rep.ob("guarded", "ForceBead.%s:request" % n, b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))
    rep.ob("guarded", "ForceBead:found", k >= 1, "the place where a bead creates its request was not found")


def check_refresh(rep, m):
    """the recomputation of a cached quantity happens under its lock, after looking again whether it is stale"""
    base = m.prog.cls("depend_base")
    for c in sorted({base} | set(m.prog.subclasses(base)), key=lambda x: x.name):
        for n, f in sorted(c.methods.items()):
            if n == "update_auto" or not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "update_auto" for x in ast.walk(f.node)):
                continue
            ip = m.interp(maxdepth=3, inline=lambda fn, k, d: fn.name not in ("update_auto", "taint"))
            ip.roots[("self",)] = c
            t = ip.run(f, c)
            bad = {}
            own = ("self", "_threadlock")

            # states: (held, looked)
            def step(e, s):
                held, looked = s
                if e.kind == "call" and isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Attribute) and e.node.func.attr == "update_auto":
                    if not held:
                        bad.setdefault("lock", (e, "a cached quantity is recomputed without holding its lock"))
                    elif not looked:
                        bad.setdefault("look", (e, "a cached quantity is recomputed without looking again, under the lock, whether another thread has already done so"))
                return [s]

            def at(test, fn, s):
                d = ast.dump(test)
                if "'_tainted'" in d or "'tainted'" in d:
                    return [(s[0], 1)], [s]
                return None

            def ew(nn, st):
                sure, may = locks_of(nn, LOCKS)
                return [((1, 0), st[1], st[2])] if own in sure else [st]

            def lw(nn, st):
                sure, may = locks_of(nn, LOCKS)
                return [((0, 0), st[1], st[2])] if own in sure else [st]
            CFlow(step, catom=at, enter_with=ew, leave_with=lw).run(t, [(0, 0)])
            for k in ("lock", "look"):
                b = bad.get(k)
                rep.ob("guarded", "%s.%s:%s" % (c.name, n, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))
    # the lock of a cached quantity is taken recursively when quantities depend on each other
    rep.ob("deadlock", "depend_base:reentrant", reentrant(m, base, "_threadlock"), "the lock of a cached quantity is not reentrant: a recomputation that reads the quantity's own slices stops for ever", base.find("__init__").loc(base.find("__init__").node))


def check_outputs(rep, m):
    for cn in ("Properties", "Trajectories"):
        c = m.prog.cls(cn)
        k = 0
        for n, f in sorted(c.methods.items()):
            par = {}
            for x in ast.walk(f.node):
                for y in ast.iter_child_nodes(x):
                    par[y] = x
            names = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Subscript) and isinstance(x.value.slice, ast.Constant)
                     and x.value.slice.value == "func" for t in x.targets if isinstance(t, ast.Name)}
            for x in ast.walk(f.node):
                if not isinstance(x, ast.Call):
                    continue
                if isinstance(x.func, ast.Subscript) and isinstance(x.func.slice, ast.Constant) and x.func.slice.value == "func" or isinstance(x.func, ast.Name) and x.func.id in names:
                    k += 1
                    p, ok = x, False
                    while p in par:
                        p = par[p]
                        if isinstance(p, ast.With) and any("lock" in ast.unparse(i.context_expr) for i in p.items):
                            ok = True
                    rep.ob("guarded", "%s.%s:evaluate" % (cn, n), ok, "a property is computed without the lock of the system: threads that write outputs share its scratch copies", f.loc(x))
        rep.ob("guarded", "%s:found" % cn, k >= 1, "the place where properties are computed was not found")
        # the lock is that of the system, shared by everything that uses its scratch copies
        ok = False
        where = None
        for n, f in c.methods.items():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_threadlock" for t in x.targets):
                    where = f.loc(x)
                    ok = "_propertylock" in ast.dump(x.value)
        rep.ob("guarded", "%s:shared-lock" % cn, ok, "properties and trajectories of a system do not use the same lock", where or "")


def check_mpi(rep, m):
    for cn, lock in (("InterfaceMPI", "_mpi_lock"), ("MPIWorldManager", "_setup_lock")):
        c = m.prog.cls(cn)
        for n in entry_points(m, c, ("__init__",)):
            f = c.find(n)
            t = tree(m, c, f)
            bad = {}
            seen = [0]

            def step(e, s):
                if e.kind == "call" and isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Attribute) and e.node.func.attr in (
                        "Send", "Recv", "Isend", "Irecv", "Probe", "Iprobe", "Bcast", "Barrier", "Split", "send", "recv"):
                    seen[0] += 1
                    if not any(p[-1] in (lock, "_setup_lock") for p in s):
                        bad.setdefault("mpi", (e, "MPI is used without holding %s: threads of several force fields may use it at once" % lock))
                return [s]

            def on_lock(w, ls, s):
                if ls & s:
                    bad.setdefault("twice", (Ev("x", w.node, w.fn, w.stack), "a lock is taken again by a thread that already holds it"))
            Held(step, on_lock).run(t, [frozenset()])
            if seen[0]:
                for k in ("mpi", "twice"):
                    b = bad.get(k)
                    rep.ob("deadlock" if k == "twice" else "guarded", "%s.%s:%s" % (cn, n, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))
    c = m.prog.cls("InterfaceMPI")
    for n, f in sorted(c.methods.items()):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_mpi_lock" for t in x.targets):
                rep.ob("guarded", "InterfaceMPI.%s:shared-lock" % n, "mpi_lock" in ast.dump(x.value), "the MPI lock is not shared between force fields", f.loc(x))


def check_with(rep, m):
    """locks are only taken by with statements, which release them on every path"""
    k = 0
    for mod in m.prog.modules.values():
        if not mod.name.startswith("ipi."):
            continue
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.With) and any("lock" in ast.unparse(i.context_expr).lower() for i in x.items):
                k += 1
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "acquire" and "lock" in ast.unparse(x.func.value).lower():
                par = [t for t in ast.walk(mod.tree) if isinstance(t, ast.Try) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "release"
                                                                                   and ast.unparse(y.func.value) == ast.unparse(x.func.value) for z in t.finalbody for y in ast.walk(z))]
                ok = any(t.lineno >= x.lineno - 2 for t in par)
                rep.ob("released", "%s:%s" % (mod.name, ast.unparse(x.func.value)), ok, "a lock is acquired without being released on every path", "%s:%d" % (mod.name, x.lineno))
    rep.ob("released", "with statements", k >= 10, "%d with statements over locks found" % k)


def run(tier):
    rep = Report(PID, tier, "lock-set analysis over interprocedural effect trees",
                 "every entry point of the classes that own a lock, all paths, with helpers inlined")
    m = model()
    rep.rule("guarded", "shared data is changed, and MPI used, only while holding the lock", 60)
    rep.rule("deadlock", "a thread never takes a non-reentrant lock twice and never waits while holding it", 30)
    rep.rule("released", "locks are released on every path", 1)
    for cn, (lock, attrs, skip) in sorted(GUARDED.items()):
        base = m.prog.cls(cn)
        for c in sorted({base} | set(m.prog.subclasses(base)), key=lambda x: x.name):
            rep.part("check_class", check_class, rep, m, c, lock, attrs, skip)
    rep.part("check_bead_claim", check_bead_claim, rep, m)
    rep.part("check_refresh", check_refresh, rep, m)
    rep.part("check_outputs", check_outputs, rep, m)
    rep.part("check_mpi", check_mpi, rep, m)
    rep.part("check_with", check_with, rep, m)
    return rep.finish()


if __name__ == "__main__":
    main(run, PID)
