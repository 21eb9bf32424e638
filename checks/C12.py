"""C12: life cycle of force requests (typestate over every function that moves a request)."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.repo import AnalysisBroken
from vlib.interp import pstr, events, walk, Branch, Ev, Seq, Loop, Inline
from vlib.flow import CFlow

PID = "C12"
MODS = ("ipi.engine.forcefields", "ipi.interfaces.sockets", "ipi.interfaces.mpi", "ipi.engine.forces")


def const(vals):
    if vals and len(vals) == 1:
        a = next(iter(vals))
        if a[0] == "const":
            return a[1]
    return None


def consts(vals):
    return {a[1] for a in (vals or ()) if a[0] == "const"}


def key(e):
    return const(e.args[0]) if e.kind == "write" and e.how in ("item", "itemaug") and e.args else None


def status_write(e):
    if e.kind == "write" and key(e) == "status":
        return consts(e.val)
    if e.kind == "call" and e.label and e.label.endswith(".update"):
        return set()
    return set()


def is_event_set(e):
    return e.kind == "call" and bool(e.label) and e.label.endswith("_event_done.set")


def result_write(e):
    """Assignment of (an item of) a request's result."""
    if e.kind != "write" or not e.path:
        return None
    if key(e) == "result":
        return "set"
    if any(c == "['result']" for c in e.path):
        return "part"
    return None


def offset_read(e):
    return e.kind == "read" and bool(e.path) and e.path[-1] in ("offset", "['offset']")


def reach_done(tree):
    return any(isinstance(n, Ev) and ("Done" in status_write(n) or is_event_set(n)) for n in walk(tree))


def called(c):
    """Names of methods of c called on self/super by methods of c, and names passed as values."""
    calls, refs = set(), set()
    seen = set()
    for k in c.mro():
        for n, f in k.methods.items():
            if n in seen:
                pass
            seen.add(n)
            funcs = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    b = x.func.value
                    if isinstance(b, ast.Name) and b.id == "self" or (isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super"):
                        if x.func.attr != n:
                            calls.add(x.func.attr)
                    funcs.add(id(x.func))
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and id(x) not in funcs and isinstance(x.value, ast.Name) and x.value.id == "self" \
                        and isinstance(x.ctx, ast.Load):
                    refs.add(x.attr)
    return calls, refs


def quiet(fn, k, d):
    return not fn.module.name.startswith("ipi.utils")


def roots(m):
    """(class, method name, Func, tree) for the outermost functions through which requests become Done."""
    out = []
    for c in m.prog.all_classes():
        if c.module.name not in MODS:
            continue
        calls, refs = called(c)
        for n in sorted({n for k in c.mro() for n in k.methods}):
            f = c.find(n)
            if f is None or f.module.name not in MODS or (n in calls and n not in refs):
                continue
            if not mentions(c, f, set()):
                continue
            ip = m.interp(maxdepth=7, inline=quiet)
            ip.trace_locals = True
            ip.roots[("self",)] = c
            try:
                t = ip.run(f, c)
            except RecursionError:
                continue
            out.append((c, n, f, t))
    return out


def mentions(c, f, seen):
    """f or a method of c it calls touches a request's status/result (cheap syntactic filter)."""
    if f in seen:
        return False
    seen.add(f)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Constant) and x.value in ("status", "result") or isinstance(x, ast.Attribute) and x.attr == "_event_done":
            return True
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            g = c.find(x.attr)
            if g is not None and mentions(c, g, seen):
                return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Call):
            g = c.find(x.func.attr)
            if g is not None and mentions(c, g, seen):
                return True
    return False


# ---------------------------------------------------------------- R1: announce
def check_announce(rep, c, n, f, t):
    """res, off, done, ev"""
    where = "%s.%s" % (c.name, n)
    bad = {}
    enclosing = {}

    def encl(loop):
        k = id(loop)
        if k not in enclosing:
            enclosing[k] = reach_done(loop.body)
        return enclosing[k]

    def step(e, s):
        res, off, done, ev = s
        w = result_write(e)
        own = not (e.path and "['ff_handles']" in e.path)
        if w and own and not (w == "part" and e.path and "['ff_handles']" in e.path):
            if done:
                bad.setdefault("result-after", (e, "the result is changed after the request was announced as done"))
            if w == "set":
                res = 1
                return [(res, off, done, ev)]
        if offset_read(e) and own:
            if done:
                bad.setdefault("offset-after", (e, "the energy offset is applied after the request was announced as done"))
            return [(res, min(off + 1, 2), done, ev)]
        if "Done" in status_write(e):
            if not res:
                bad.setdefault("no-result", (e, "the request is marked Done on a path where its result was not set"))
            if off != 1:
                bad.setdefault("offset", (e, "the energy offset is subtracted %s before the request is marked Done"
                                          % ("never" if off == 0 else "more than once")))
            return [(res, off, 1, ev)]
        if is_event_set(e):
            if not done:
                bad.setdefault("event-early", (e, "waiters are woken before the request is marked Done"))
            return [(res, off, done, 1)]
        return [s]

    def it(loop, s):
        if encl(loop):
            if s[2] and not s[3]:
                bad.setdefault("no-event", (Ev("loop", loop.node, loop.fn, loop.stack), "the request is marked Done but its waiters are never woken"))
            if s[2] and s[3]:
                return [(0, 0, 0, 0)]
        return [s]

    fl = CFlow(step, None, it)
    r = fl.run(t, [(0, 0, 0, 0)])
    for k in ("fall", "return"):
        for s in r.get(k, ()):
            if s[2] and not s[3]:
                bad.setdefault("no-event", (Ev("end", f.node, f, ()), "the request is marked Done but its waiters are never woken"))
            if s[0] and not s[2] and any(("Done" in status_write(x)) for x in walk(t) if isinstance(x, Ev)):
                bad.setdefault("not-announced", (Ev("end", f.node, f, ()), "a path sets the result and returns without announcing it"))
    for k in ("no-result", "offset", "offset-after", "result-after", "event-early", "no-event", "not-announced"):
        b = bad.get(k)
        rep.ob("announce", "%s:%s" % (where, k), b is None, b[1] if b else "", b[0].loc() if b and hasattr(b[0], "loc") else f.loc(f.node))


def test_status(test):
    """(kind, value): status comparison in a test -> (eq/ne, 'Done')."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r = test.left, test.comparators[0]
        for a, b in ((l, r), (r, l)):
            if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Constant) and a.slice.value == "status" \
                    and isinstance(b, ast.Constant):
                if isinstance(test.ops[0], ast.Eq):
                    return "eq", b.value
                if isinstance(test.ops[0], ast.NotEq):
                    return "ne", b.value
    return None


# ---------------------------------------------------------------- R2: payload ownership
def list4(vals):
    return [a[1] for a in vals if a[0] == "list"]


def check_payload(rep, c, n, t):
    for e in events(t):
        if result_write(e) != "set" or "['ff_handles']" in (e.path or ()):
            continue
        cs = consts(e.val)
        if None in cs and len(e.val) == 1:
            continue
        where = "%s.%s" % (c.name, n)
        for items in list4(e.val):
            if not items:
                continue
            rep.ob("payload", "%s:length" % where, len(items) == 4, "the result has %d entries instead of energy, forces, virial, extras" % len(items), e.loc())
            for i, v in enumerate(items):
                al = [a for a in v if a[0] in ("raw", "obj") and len(a) > 1 and a[1] and a[1][0] == "self"]
                rep.ob("payload", "%s:owned:%d" % (where, i), not al,
                       "entry %d of the result shares storage with %s, which the next message overwrites" % (i, pstr(al[0][1]) if al else ""), e.loc())


# ---------------------------------------------------------------- syntactic ownership of receive buffers
def check_buffers(rep, m):
    """Values built from a reused buffer (self._buf, self._view) must be copied before they are returned."""
    for c in m.prog.all_classes():
        if c.module.name != "ipi.interfaces.sockets":
            continue
        for n, f in c.methods.items():
            rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
            if not rets or not any(isinstance(x, ast.Attribute) and x.attr in ("_buf", "_view") for x in ast.walk(f.node)):
                continue
            tainted = {}
            CLEAN_CALLS = {"copy", "float", "int", "bytes", "bytearray", "decode", "str", "array", "tobytes", "parse_extra", "len", "deepcopy", "tolist", "list"}

            def dirty(e, env):
                if isinstance(e, ast.Attribute) and e.attr in ("_buf", "_view") and isinstance(e.value, ast.Name) and e.value.id == "self":
                    return True
                if isinstance(e, ast.Name):
                    return env.get(e.id, False)
                if isinstance(e, ast.Call):
                    nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
                    if nm in CLEAN_CALLS:
                        return False
                    if isinstance(e.func, ast.Attribute) and dirty(e.func.value, env):
                        return True
                    return any(dirty(a, env) for a in e.args) or any(dirty(k.value, env) for k in e.keywords if k.arg in ("buffer", "object", "a"))
                if isinstance(e, ast.Subscript):
                    if dirty(e.value, env):
                        # an element [0] of a 1-d numeric view is a scalar copy
                        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and isinstance(e.value, ast.Call):
                            return False
                        return True
                    return False
                if isinstance(e, (ast.List, ast.Tuple)):
                    return any(dirty(x, env) for x in e.elts)
                if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
                    return dirty(e.elt, env)
                if isinstance(e, ast.IfExp):
                    return dirty(e.body, env) or dirty(e.orelse, env)
                if isinstance(e, ast.BinOp):
                    return False
                return False
            for _ in range(3):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign):
                        d = dirty(x.value, tainted)
                        for tg in x.targets:
                            if isinstance(tg, ast.Name):
                                tainted[tg.id] = tainted.get(tg.id, False) or d
                            elif isinstance(tg, (ast.Tuple, ast.List)):
                                for y in tg.elts:
                                    if isinstance(y, ast.Name):
                                        tainted[y.id] = tainted.get(y.id, False) or d
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") \
                            and isinstance(x.func.value, ast.Name):
                        if any(dirty(a, tainted) for a in x.args):
                            tainted[x.func.value.id] = True
            for x in rets:
                rep.ob("payload", "%s.%s:buffer" % (c.name, n), not dirty(x.value, tainted),
                       "a returned value shares storage with a buffer that the next message overwrites", f.loc(x))


# ---------------------------------------------------------------- R2b: sign of the offset
def check_offset_sign(rep, m):
    for mod in MODS:
        mm = m.prog.modules[mod]
        for f in m.prog.functions(mm) if hasattr(m.prog, "functions") else all_functions(m, mod):
            par = {}
            for x in ast.walk(f.node):
                for y in ast.iter_child_nodes(x):
                    par[y] = x
            for x in ast.walk(f.node):
                isoff = isinstance(x, ast.Attribute) and x.attr == "offset" and isinstance(x.ctx, ast.Load) or \
                    isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == "offset" and isinstance(x.ctx, ast.Load)
                if not isoff:
                    continue
                p = par.get(x)
                where = "%s:offset" % f.qual
                if isinstance(p, (ast.keyword, ast.Call)):
                    continue
                if isinstance(p, ast.Assign) and p.value is x:
                    ok = all(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "offset"
                             or isinstance(t, ast.Attribute) and t.attr == "offset" or isinstance(t, ast.Name) for t in p.targets)
                    rep.ob("offset-sign", where, ok, "the offset is stored in something else", f.loc(x))
                    continue
                if isinstance(p, ast.AugAssign):
                    t = p.target
                    ok = isinstance(p.op, ast.Sub) and (not isinstance(t, ast.Subscript) or isinstance(t.slice, ast.Constant) and t.slice.value == 0)
                    rep.ob("offset-sign", where, ok, "the offset must be subtracted from the energy (entry 0 of the result)", f.loc(x))
                    continue
                if isinstance(p, ast.BinOp):
                    rep.ob("offset-sign", where, isinstance(p.op, ast.Sub) and p.right is x,
                           "the offset must be subtracted from the energy", f.loc(x))


def all_functions(m, mod):
    mm = m.prog.modules[mod]
    for c in mm.classes.values():
        for f in c.methods.values():
            yield f
    for f in mm.functions.values():
        yield f


# ---------------------------------------------------------------- R3: requests own their data
def check_private(rep, m):
    ff = m.prog.cls("ForceField")
    for c in m.prog.subclasses(ff):
        f = c.find("queue")
        if f is None or (f.cls is not c):
            continue
        ip = m.interp(maxdepth=5, inline=lambda fn, k, d: fn.module.name in MODS)
        ip.trace_locals = True
        ip.roots[("self",)] = c
        t = ip.run(f, c)
        n = 0
        for e in events(t):
            ds = []
            if e.kind == "new" and "ForceRequest" in (e.label or ""):
                ds = [a for v in e.args for a in v if a[0] == "dict"]
            elif e.kind == "call" and (e.label or "").endswith(".update"):
                ds = [a for v in e.args for a in v if a[0] == "dict"]
            for d in ds:
                for kv, vv in d[1]:
                    k = const(kv)
                    if k not in ("pos", "cell"):
                        continue
                    n += 1
                    al = shared(vv)
                    rep.ob("private", "%s.queue:%s" % (c.name, k), not al,
                           "the request's %s is not a copy: it shares storage with %s, which may change before the request is evaluated" % (k, al), e.loc())
        rep.ob("private", "%s.queue:found" % c.name, n >= 2 or c.find_after(c, "queue") is not None, "no request with position and cell is created", f.loc(f.node))


def shared(v, depth=0):
    for a in v or ():
        if a[0] in ("raw", "obj", "dep"):
            return pstr(a[1]) if isinstance(a[1], tuple) else str(a[1])
        if a[0] in ("tuple", "list") and depth < 4:
            for x in a[1]:
                r = shared(x, depth + 1)
                if r:
                    return r
    return ""


# ---------------------------------------------------------------- R4 / R6: Running requests are handed over
def holds(vals, tok, depth=0):
    """does the value contain the request (or the list of requests) with path tok?"""
    for a in vals or ():
        if a[0] in ("obj", "raw") and isinstance(a[1], tuple):
            p = a[1]
            if p == tok or tok[:len(p)] == p and len(tok) - len(p) <= 2 and all(x == "[]" for x in tok[len(p):]):
                return True
        if a[0] in ("tuple", "list") and depth < 4 and any(holds(x, tok, depth + 1) for x in a[1]):
            return True
        if a[0] == "iter" and depth < 4 and holds(a[1], tok, depth + 1):
            return True
    return False


def related(p, tok):
    a, b = [x for x in p if x != "[]"], [x for x in tok if x != "[]"]
    return a == b


def check_handoff(rep, m, rs):
    seen = set()
    for c in m.prog.all_classes():
        if c.module.name not in MODS:
            continue
        for n, f in sorted(c.methods.items()):
            if not any(isinstance(x, ast.Constant) and x.value == "Running" for x in ast.walk(f.node)):
                continue
            ip = m.interp(maxdepth=6, inline=quiet)
            ip.trace_locals = True
            ip.roots[("self",)] = c
            t = ip.run(f, c)
            toks = {e.path for e in events(t) if "Running" in status_write(e) and e.path}
            for tok in sorted(toks):
                handoff_one(rep, c, n, f, t, tok)
            seen.add((c, n))
    return seen


def iterated_locals(f):
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, (ast.For, ast.comprehension)):
            for y in ast.walk(x.iter):
                if isinstance(y, ast.Name):
                    out.add(y.id)
    return out


def handoff_one(rep, c, n, f, t, tok):
    where = "%s.%s:%s" % (c.name, n, pstr(tok))
    bad = {}
    pr = "prlist" in tok
    created = tok[0].startswith("inst") or not (tok[0] == "self")

    def step(e, s):
        st, q, rem, put, retry = s
        sw = status_write(e)
        if sw and e.path and related(e.path, tok):
            if "Running" in sw:
                if not q and not pr and not created and not filtered(f, e):
                    bad.setdefault("guard", (e, "a request is dispatched without having been found Queued: it may be evaluated twice"))
                if retry or kept_local(e):
                    return [(0, q, rem, 0, 0)]
                return [(1, q, rem, 0, 0)]
            if sw & {"Queued", "Done"}:
                return [(0, q, rem, 0, 0)]
        if e.kind == "mut" and e.how in ("append", "extend", "insert") and e.path and e.path[0] == "self" and any(holds(a, tok) for a in e.args):
            if "jobs" in e.path and st == 0:
                put = 1
            return [(0, q, rem, put or ("jobs" in e.path), 0)]
        if e.kind == "call" and (e.label or "").endswith(".append") and isinstance(e.node, ast.Call) and isinstance(e.node.func.value, ast.Name) \
                and e.node.func.value.id in iterated_locals(f) and any(holds(a, tok) for a in e.args):
            return [(0, q, rem, put, 1)]
        if e.kind == "write" and e.how in ("item", "set") and not sw and key(e) not in ("result",) and holds(e.val, tok) and e.path and e.path[0] == "self":
            return [(0, q, rem, put, 0)]
        if e.kind == "mut" and e.how in ("remove", "pop", "clear") and e.path and "prlist" in e.path:
            return [(st, q, 1, put, 0)]
        return [s]

    def at(test, fn, s):
        ts = test_status(test)
        if ts and ts[1] == "Queued":
            y, z = (s[0], 1) + s[2:], (s[0], 0) + s[2:]
            return ([y], [z]) if ts[0] == "eq" else ([z], [y])
        if ts and ts[1] == "Done":
            y = (0,) + s[1:]
            return ([y], [s]) if ts[0] == "eq" else ([s], [y])
        return None

    def once(loop):
        return any(isinstance(x, Ev) and status_write(x) for x in walk(loop.body))

    fl = CFlow(step, catom=at, citer=lambda lp, s: [s[:4] + (0,)] if loop_has_running(lp) else [s], loop_once=once)
    init = [(0, 0, 0, 0, 0)]
    r = fl.run(t, init)
    if not created:
        for k in ("fall", "return"):
            for s in r.get(k, ()):
                if s[0] == 1:
                    bad.setdefault("lost", (Ev("end", f.node, f, ()), "a path leaves a request Running without handing it to a client or putting it back in the queue"))
                if pr and (s[3]) and not s[2]:
                    bad.setdefault("prlist", (Ev("end", f.node, f, ()), "a dispatched request stays in the list of requests to dispatch"))
    for k in ("guard", "lost", "prlist"):
        b = bad.get(k)
        rep.ob("handoff", "%s:%s" % (where, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))


# ---------------------------------------------------------------- R4b: requests that are taken are marked
def check_claims(rep, m):
    """a request found Queued and taken is marked, so that no later poll takes it again; an MPI slot is busy
    exactly while its requests are Running"""
    for c in m.prog.all_classes():
        if c.module.name not in MODS:
            continue
        for n, f in sorted(c.methods.items()):
            if not any(test_status(x) and test_status(x)[1] == "Queued" for x in ast.walk(f.node)):
                continue
            ip = m.interp(maxdepth=6, inline=quiet)
            ip.trace_locals = True
            ip.roots[("self",)] = c
            t = ip.run(f, c)
            k = 0
            for b in walk(t):
                if not isinstance(b, Branch) or not hasattr(b.node, "test") or b.fn is not f:
                    continue
                ts = test_status(b.node.test)
                if not ts or ts[1] != "Queued":
                    continue
                arm = b.a if ts[0] == "eq" else b.b
                if not arm.items:
                    continue
                k += 1

                def step(e, s):
                    return [1] if status_write(e) & {"Running", "Done"} else [s]
                r = CFlow(step, loop_once=lambda l: True).run(arm, [0])
                ok = not any(0 in r.get(x, ()) for x in ("fall", "continue", "return", "break"))
                if not ok:
                    # collected now, marked in a later loop over the collection
                    col = {y.func.value.id for z in b.node.body for y in ast.walk(z) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute)
                           and y.func.attr == "append" and isinstance(y.func.value, ast.Name)}
                    ok = any(isinstance(z, ast.For) and col & {y.id for y in ast.walk(z.iter) if isinstance(y, ast.Name)}
                             and any(isinstance(y, ast.Constant) and y.value == "Running" for y in ast.walk(z)) for z in ast.walk(f.node))
                rep.ob("handoff", "%s.%s:claim%d" % (c.name, n, k), ok, "a Queued request is taken without being marked as Running: a later poll takes it again", f.loc(b.node))
    mp = m.prog.cls("InterfaceMPI")
    called_ = {x.func.attr for f in mp.methods.values() for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
    nb = ni = 0
    for n, f in sorted(mp.methods.items()):
        if n.startswith("_") and n in called_ and n not in ("_collect", "_dispatch"):
            continue
        ip = m.interp(maxdepth=6, inline=quiet)
        ip.trace_locals = True
        ip.roots[("self",)] = mp
        t = ip.run(f, mp)
        bad = {}
        cnt = [0, 0]

        def step(e, s):
            run_, done, cleared = s
            sw = status_write(e)
            if "Running" in sw:
                return [(1, 0, cleared)]
            if "Done" in sw:
                return [(run_, 1, cleared)]
            if e.kind == "write" and key(e) == "requests" and e.how == "item":
                if any(a[0] == "list" and not a[1] for a in e.val) and not done and not run_:
                    bad.setdefault("clear", (e, "the requests of an MPI slot are dropped on a path where they need not be Done"))
                return [s]
            if e.kind == "write" and key(e) == "state":
                cs = consts(e.val)
                if "BUSY" in cs:
                    cnt[0] += 1
                    if not run_:
                        bad.setdefault("busy", (e, "requests are sent to an MPI driver without being marked as Running: they are sent again at the next poll"))
                if "IDLE" in cs:
                    cnt[1] += 1
                    if not done:
                        bad.setdefault("idle", (e, "an MPI driver becomes idle although its requests are not Done: their results are lost"))
            return [s]

        CFlow(step, loop_once=lambda l: any(isinstance(x, Ev) and status_write(x) for x in walk(l.body)) and not any(isinstance(x, Ev) and x.kind == "write" and key(x) == "state" for x in walk(l.body))).run(t, [(0, 0, 0)])
        nb += cnt[0] > 0
        ni += cnt[1] > 0
        if any(cnt) or bad:
            for k in ("busy", "idle", "clear"):
                b = bad.get(k)
                rep.ob("handoff", "InterfaceMPI.%s:%s" % (n, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))
    rep.ob("handoff", "mpi-slots", nb > 0 and ni > 0, "an MPI slot is never made busy or idle", mp.methods["poll"].loc(mp.methods["poll"].node) if "poll" in mp.methods else "")


def check_free(rep, m):
    """a client that was given a job is not offered another one: free clients exclude those with jobs, and a
    client is taken off the list as soon as it accepts a request"""
    c = m.prog.cls("InterfaceSocket")
    k = 0
    for n, f in sorted(c.methods.items()):
        par = {}
        for x in ast.walk(f.node):
            for y in ast.iter_child_nodes(x):
                par[y] = x
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "dispatch_free_client" and x.args and isinstance(x.args[0], ast.Name)):
                continue
            k += 1
            v = x.args[0].id
            # the loop that provides the client
            p = x
            loop = None
            while p in par:
                p = par[p]
                if isinstance(p, ast.For) and any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(p.target)):
                    loop = p
                    break
            if loop is None:
                continue
            lists = {y.id for y in ast.walk(loop.iter) if isinstance(y, ast.Name)}
            # every source of the list of free clients leaves out the clients that have a job
            for L in sorted(lists):
                for y in ast.walk(f.node):
                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == L for t in y.targets) and "clients" in ast.dump(y.value):
                        deps, seen = ast.dump(y.value), set()
                        work = [z.id for z in ast.walk(y.value) if isinstance(z, ast.Name)]
                        while work:
                            w = work.pop()
                            if w in seen:
                                continue
                            seen.add(w)
                            for z in ast.walk(f.node):
                                if isinstance(z, ast.Assign) and any(isinstance(t, ast.Name) and t.id == w for t in z.targets):
                                    deps += ast.dump(z.value)
                                    work += [q.id for q in ast.walk(z.value) if isinstance(q, ast.Name)]
                        rep.ob("handoff", "InterfaceSocket.%s:busy-clients" % n, "'jobs'" in deps, "a client that is already evaluating a request is treated as free", f.loc(y))
            rm = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("remove", "pop", "discard") and isinstance(y.func.value, ast.Name) and y.func.value.id in lists
                     or isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id in lists for t in y.targets)
                     or isinstance(y, ast.Delete) and any(isinstance(z, ast.Name) and z.id in lists for z in ast.walk(y)) for y in ast.walk(loop))
            rep.ob("handoff", "InterfaceSocket.%s:taken-client" % n, rm, "a client that accepted a request stays in the list of free clients and may be given another one", f.loc(x))
    rep.ob("handoff", "free-clients", k >= 1, "no place where clients are given requests was found")


def kept_local(e):
    """the request marked by e belongs to a local list that another loop goes through, or that is stored"""
    for x in ast.walk(e.fn.node):
        if not isinstance(x, ast.For) or not any(y is e.node or getattr(y, "lineno", 0) == getattr(e.node, "lineno", -1) for z in x.body for y in ast.walk(z)):
            continue
        names = {y.id for y in ast.walk(x.iter) if isinstance(y, ast.Name)} - {"self", "enumerate", "range", "len", "zip", "list"}
        for z in ast.walk(e.fn.node):
            if isinstance(z, ast.For) and z is not x and not any(w is x for w in ast.walk(z)) and names & {y.id for y in ast.walk(z.iter) if isinstance(y, ast.Name)} \
                    and z.lineno > x.lineno:
                return True
    return False


def loop_has_running(loop):
    return any(isinstance(x, Ev) and "Running" in status_write(x) for x in walk(loop.body))


def queued_comp(e):
    if not isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        return False
    for g in e.generators:
        for i in g.ifs:
            for x in ast.walk(i):
                ts = test_status(x)
                if ts == ("eq", "Queued"):
                    return True
    return False


def filtered(f, e):
    """the request variable of write e comes from a list filtered on Queued, or was just created."""
    tgt = None
    for x in ast.walk(e.fn.node):
        if isinstance(x, ast.Assign) and getattr(x, "lineno", 0) == getattr(e.node, "lineno", -1):
            for t in x.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    tgt = t.value.id
    if tgt is None:
        return False
    work, seen = [tgt], set()
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for x in ast.walk(e.fn.node):
            src = None
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == v for t in x.targets for y in ast.walk(t)):
                src = x.value
            elif isinstance(x, ast.For) and any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(x.target)):
                src = x.iter
            if src is None:
                continue
            if queued_comp(src):
                return True
            if isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "queue":
                return True
            for y in ast.walk(src):
                if isinstance(y, ast.Name):
                    work.append(y.id)
    return False


def check_lists(rep, m):
    """the list of requests to dispatch only ever receives Queued requests; consumption advances."""
    for c in m.prog.all_classes():
        if c.module.name != "ipi.interfaces.sockets":
            continue
        for n, f in c.methods.items():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "prlist" for t in x.targets):
                    v = x.value
                    if isinstance(v, ast.Name):
                        for y in ast.walk(f.node):
                            if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in y.targets):
                                v = y.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "self":
                        g = c.find(v.func.attr)
                        rv = [y.value for y in ast.walk(g.node) if isinstance(y, ast.Return)] if g else []
                        v = rv[0] if len(rv) == 1 else v
                    ok = queued_comp(v) or isinstance(v, ast.List) and not v.elts or \
                        (isinstance(v, (ast.ListComp, ast.Subscript)) and "prlist" in ast.dump(v)) or \
                        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and v.args and queued_comp(v.args[0])
                    if not ok and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "filter"):
                        ok = any(test_status(y) == ("eq", "Queued") for y in ast.walk(v))
                    rep.ob("queue-filter", "%s.%s" % (c.name, n), ok, "requests that are not Queued can enter the list of requests to dispatch", f.loc(x))
    mp = m.prog.cls("InterfaceMPI")
    for n, f in mp.methods.items():
        for x in ast.walk(f.node):
            if not isinstance(x, (ast.For, ast.While)):
                continue
            for y in ast.walk(x):
                if isinstance(y, ast.Assign) and isinstance(y.value, ast.Subscript) and isinstance(y.value.slice, ast.Slice) and isinstance(y.value.value, ast.Name) \
                        and isinstance(y.value.slice.lower, ast.Name):
                    base = y.value.value.id
                    if not any(isinstance(z, ast.Assign) and any(isinstance(t, ast.Name) and t.id == base for t in z.targets) and queued_comp(z.value) for z in ast.walk(f.node)):
                        continue
                    v = y.value.slice.lower.id
                    adv = any(isinstance(z, ast.AugAssign) and isinstance(z.target, ast.Name) and z.target.id == v and isinstance(z.op, ast.Add)
                              or isinstance(z, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in z.targets) and v in ast.dump(z.value)
                              for z in x.body + [w for b in x.body for w in ast.walk(b) if isinstance(w, ast.stmt)])
                    rep.ob("queue-filter", "InterfaceMPI.%s:advance" % n, adv, "the same requests are given to several ranks: the position in the queue is not advanced", f.loc(y))


# ---------------------------------------------------------------- R5: jobs are dropped only when done or requeued
def check_jobs(rep, m):
    c = m.prog.cls("InterfaceSocket")
    nloops = 0
    for n, f in sorted(c.methods.items()):
        if "jobs" not in ast.dump(f.node):
            continue
        ip = m.interp(maxdepth=6, inline=lambda fn, k, d: quiet(fn, k, d) and not (fn.cls is c and fn.name in ("pool_distribute", "_pool_distribute_select", "pool_update", "dispatch_free_client", "_dispatch_free_client_batch")))
        ip.trace_locals = True
        ip.roots[("self",)] = c
        t = ip.run(f, c)
        dropl = drop_lists(f)
        for lp in [x for x in walk(t) if isinstance(x, Loop) and x.fn is f and x.kind == "for"]:
            if not over_jobs(lp):
                continue
            nloops += 1
            jobs_loop(rep, c, n, f, lp, dropl)
        # dropping by any other means than these loops
        for e in events(t):
            if e.kind == "write" and e.path and e.path[-1] == "jobs" and e.how == "set" and e.fn is f:
                if n in ("open", "close"):
                    continue
                ok = any(e.node is y or e.node in ast.walk(lp.node) for lp in walk(t) if isinstance(lp, Loop) and over_jobs(lp) for y in [None])
                v = getattr(e.node, "value", None)
                if isinstance(v, ast.ListComp) and "jobs" in ast.dump(v.generators[0].iter) and v.generators[0].ifs:
                    # keeps all jobs but those collected by such a loop
                    ok = ok or any(dropl & {y.id for y in ast.walk(i) if isinstance(y, ast.Name)} for i in v.generators[0].ifs)
                rep.ob("drop", "%s.%s:reassign" % (c.name, n), ok, "the job list is replaced outside the loop that puts the requests back", e.loc())
    rep.ob("drop", "loops", nloops >= 3, "the loops that finish jobs were not recognised")


def drop_lists(f):
    """locals that collect indices later deleted from self.jobs"""
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.For) and any(isinstance(y, ast.Delete) and "jobs" in ast.dump(y) or isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "pop"
                                          and y.args and "'jobs'" in ast.dump(y.func.value) for y in ast.walk(x)):
            for y in ast.walk(x.iter):
                if isinstance(y, ast.Name):
                    out.add(y.id)
        if isinstance(x, (ast.ListComp,)) and "jobs" in ast.dump(x):
            for g in x.generators:
                for i in g.ifs:
                    for y in ast.walk(i):
                        if isinstance(y, ast.Name):
                            out.add(y.id)
    return out


def over_jobs(lp):
    it = getattr(lp.node, "iter", None)
    if it is None:
        return False
    return any(isinstance(y, ast.Attribute) and y.attr == "jobs" for y in ast.walk(it))


def jobs_loop(rep, c, n, f, lp, dropl):
    where = "%s.%s@%d" % (c.name, n, jobs_index(f, lp))
    bad = {}

    def step(e, s):
        fin, req, drop, disc = s
        sw = status_write(e)
        if "Queued" in sw:
            return [(1, 1, drop, disc)]
        if e.kind == "write" and e.path and e.path[-1] == "status" and e.how == "set" and 0 in consts(e.val):
            return [(fin, req, drop, 1)]
        if e.kind == "call" and isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Attribute) and e.node.func.attr in ("append", "add") \
                and isinstance(e.node.func.value, ast.Name) and e.node.func.value.id in dropl and e.fn is f:
            return [(fin, req, 1, disc)]
        if e.kind == "write" and e.path and e.path[-1] == "jobs" and e.how in ("set", "del"):
            return [(fin, req, 1, disc)]
        if e.kind == "mut" and e.path and e.path[-1] == "jobs" and e.how in ("remove", "pop"):
            return [(fin, req, 1, disc)]
        return [s]

    def at(test, fn, s):
        ts = test_status(test)
        fin1 = (1,) + s[1:]
        if ts and ts[1] == "Done":
            return ([fin1], [s]) if ts[0] == "eq" else ([s], [fin1])
        if isinstance(test, ast.Call) and is_recv(f, test):
            return [fin1], [s]
        return None

    def once(loop):
        return any(isinstance(x, Ev) and status_write(x) for x in walk(loop.body))

    fl = CFlow(step, catom=at, loop_once=once)
    r = fl.run(lp.body, [(0, 0, 0, 0)])
    for k in ("fall", "continue", "break"):
        for s in r.get(k, ()):
            if s[2] and not s[0]:
                bad.setdefault("lost", "a job is dropped although its request is neither Done nor back in the queue: it is never evaluated")
            if s[1] and not s[2]:
                bad.setdefault("stale", "a request is put back in the queue while its job stays in the list")
            if s[1] and not s[3]:
                bad.setdefault("client", "a request is put back but its client is not marked as disconnected")
    for k in ("lost", "stale", "client"):
        rep.ob("drop", "%s:%s" % (where, k), k not in bad, bad.get(k, ""), f.loc(lp.node))


def jobs_index(f, lp):
    ls = [x for x in ast.walk(f.node) if isinstance(x, ast.For) and any(isinstance(y, ast.Attribute) and y.attr == "jobs" for y in ast.walk(x.iter))]
    ls.sort(key=lambda x: x.lineno)
    return ls.index(lp.node) if lp.node in ls else -1


def is_recv(f, call):
    fn = call.func
    if isinstance(fn, ast.Attribute):
        return fn.attr.startswith("dispatch_recv")
    if isinstance(fn, ast.Name):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == fn.id for t in x.targets):
                return any(isinstance(y, ast.Attribute) and y.attr.startswith("dispatch_recv") for y in ast.walk(x.value))
    return False


# ---------------------------------------------------------------- R9: what the driver functions report
def check_contract(rep, m):
    for cn in ("Driver", "SHMDriver"):
        c = m.prog.cls(cn)
        for n in sorted({x for k in c.mro() for x in k.methods if x.startswith("dispatch")}):
            f = c.find(n)
            ip = m.interp(maxdepth=6, inline=quiet)
            ip.trace_locals = True
            ip.roots[("self",)] = c
            t = ip.run(f, c)
            recv = n.startswith("dispatch_recv") or n == "dispatch"
            bad = {}

            def step(e, s):
                done, exp, siz, sent, disc = s
                if "Done" in status_write(e):
                    if recv and not exp:
                        bad.setdefault("active", (e, "the forces are not mapped to the active atoms before the request is announced"))
                    if recv and cn == "Driver" and not siz:
                        bad.setdefault("size", (e, "the number of forces is not compared to the number of atoms sent"))
                    return [(1, exp, siz, sent, disc)]
                if e.kind == "call" and (e.label or "").endswith(".sendall"):
                    return [(done, exp, siz, 1, disc)]
                if e.kind == "write" and e.path == ("self", "status") and e.how == "set":
                    cs = consts(e.val)
                    return [(done, exp, siz, sent, 1 if cs and all(isinstance(x, int) and not x & 1 for x in cs) else 0)]
                return [s]

            def br(node, s):
                test = getattr(node.node, "test", None)
                if test is None:
                    return None
                d = ast.dump(test)
                if "'active'" in d and "'pos'" in d and "len" in d and not raises(node.a):
                    x = (s[0], 1) + s[2:]
                    ok = expands(node.node)
                    if not ok:
                        bad.setdefault("expand", (Ev("x", node.node, node.fn, node.stack), "forces of the active atoms are not written into an array of zeros for all atoms"))
                    return [x], [x]
                if raises(node.a) and isinstance(test, ast.Compare) and size_test(test):
                    x = s[:2] + (1,) + s[3:]
                    return [x], [x]
                return None

            fl = CFlow(step, br, loop_once=lambda lp: any(isinstance(x, Ev) and status_write(x) for x in walk(lp.body)))
            r = fl.runx(t, [(0, 0, 0, 0, 0)])
            for k in ("return", "fall"):
                for s, rc in r.get(k, ()):
                    val = rc[1] if isinstance(rc, tuple) else None
                    if n == "dispatch":
                        continue
                    if recv and val and not s[0]:
                        bad.setdefault("true", (Ev("end", f.node, f, ()), "success is reported although the request is not Done: it is dropped and never evaluated"))
                    if recv and not val and s[0]:
                        bad.setdefault("false", (Ev("end", f.node, f, ()), "failure is reported although the request is Done: it is evaluated again"))
                    if recv and not val and not s[4]:
                        bad.setdefault("disc", (Ev("end", f.node, f, ()), "a failed receive leaves the client marked as usable"))
                    if not recv and val and not s[3]:
                        bad.setdefault("sent", (Ev("end", f.node, f, ()), "success is reported although nothing was sent"))
            keys = ("active", "expand", "size", "true", "false", "disc") if recv else ("sent",)
            for k in keys:
                b = bad.get(k)
                rep.ob("driver", "%s.%s:%s" % (cn, n, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))
            # positions are always those of the active atoms
            if not recv or n == "dispatch":
                pass
    for cn in ("Driver", "SHMDriver"):
        c = m.prog.cls(cn)
        for n, f in c.methods.items():
            par = {}
            for x in ast.walk(f.node):
                for y in ast.iter_child_nodes(x):
                    par[y] = x
            occ = [x for x in ast.walk(f.node) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == "pos" and isinstance(x.ctx, ast.Load)]
            al = {t.id for x in occ if isinstance(par.get(x), ast.Assign) for t in par[x].targets if isinstance(t, ast.Name)}
            occ = [x for x in occ if not isinstance(par.get(x), ast.Assign)] + [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id in al and isinstance(x.ctx, ast.Load)]
            act = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and "'active'" in ast.dump(x.value) for t in x.targets if isinstance(t, ast.Name)}
            for x in occ:
                if True:
                    p = par.get(x)
                    ok = isinstance(p, ast.Subscript) and p.value is x and "'active'" in ast.dump(p.slice) or \
                        isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "len" or isinstance(p, ast.Subscript) and isinstance(p.slice, ast.Name) \
                        or isinstance(p, ast.Subscript) and p.value is x and any(isinstance(y, ast.Name) and y.id in act for y in ast.walk(p.slice)) \
                        or isinstance(p, ast.Attribute) and p.attr in ("shape", "size", "dtype") or isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("zeros_like", "empty_like")
                    rep.ob("driver", "%s.%s:positions" % (cn, n), ok, "positions of inactive atoms are sent to the driver", f.loc(x))


def size_test(test):
    """a comparison of two quantities (not with a constant, not of the client status)"""
    return isinstance(test.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and not any(isinstance(x, (ast.Constant, ast.Tuple)) for x in [test.left] + test.comparators) \
        and not any(isinstance(x, ast.Attribute) and x.attr in ("status", "Up", "Ready", "HasData", "NeedsInit", "timeout") for x in ast.walk(test))


def raises(seq):
    return any(isinstance(x, Ev) and x.kind == "raise" for x in walk(seq))


def expands(node):
    z = i = False
    for x in node.body:
        for y in ast.walk(x):
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("zeros", "zeros_like") and "'pos'" in ast.dump(y):
                z = True
            if isinstance(y, ast.Assign) and any(isinstance(t, ast.Subscript) and "'active'" in ast.dump(t.slice) for t in y.targets):
                i = True
    calls = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == "self" for x in node.body for y in ast.walk(x))
    if calls and not (z or i):
        return True
    return z and i


# ---------------------------------------------------------------- R7b: all sub-requests are finished, not just one
def check_all_done(rep, m):
    for c in m.prog.all_classes():
        if c.module.name not in MODS:
            continue
        for n, f in sorted(c.methods.items()):
            for x in ast.walk(f.node):
                if isinstance(x, ast.For) and "ff_handles" in ast.dump(x.iter) or isinstance(x, ast.For) and not isinstance(x.iter, ast.Attribute) and n.startswith("check_finish"):
                    if not any(test_status(y) and test_status(y)[1] == "Done" for z in x.body for y in ast.walk(z)):
                        continue
                    early = [y for z in x.body for y in ast.walk(z) if isinstance(y, ast.Return) and isinstance(y.value, ast.Constant) and y.value.value is True]
                    rep.ob("wait", "%s.%s:all" % (c.name, n), not early, "one finished sub-request is enough for the whole to be taken as finished", f.loc(early[0] if early else x))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("any", "all") and x.args and isinstance(x.args[0], (ast.GeneratorExp, ast.ListComp)) \
                        and test_status(x.args[0].elt) and test_status(x.args[0].elt)[1] == "Done":
                    ts = test_status(x.args[0].elt)
                    rep.ob("wait", "%s.%s:all" % (c.name, n), (x.func.id == "all") == (ts[0] == "eq"), "one finished sub-request is enough for the whole to be taken as finished", f.loc(x))


# ---------------------------------------------------------------- R10: putting requests back, dropping jobs, batches
def writes_queued(f):
    return any(isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value == "Queued"
               and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "status" for t in x.targets) for x in ast.walk(f.node))


def callers(c, name):
    return [f for n, f in sorted(c.methods.items()) if n != name and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == name
            and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" for x in ast.walk(f.node))]


def requeue_paths(m, c, f):
    ip = m.interp(maxdepth=6, inline=quiet)
    ip.trace_locals = True
    ip.roots[("self",)] = c
    t = ip.run(f, c)
    bad = {}

    def step(e, s):
        open_, pend = s
        sw = status_write(e)
        if "Queued" in sw:
            if not open_ and not not_done_comp(e):
                bad.setdefault("done", (e, "a request that may be Done already is put back in the queue: it is evaluated again"))
            return [(open_, pend & 2 and 2 or 1)]
        if e.kind == "write" and key(e) == "start" and e.how == "item":
            cs = consts(e.val)
            if cs and all(isinstance(x, (int, float)) and x <= 0 for x in cs):
                return [(open_, 2)]
        return [s]

    def at(test, fn, s):
        ts = test_status(test)
        if ts and ts[1] in ("Done", "Running"):
            y, z = (1, s[1]), (0, s[1])
            return ([z], [y]) if (ts[1] == "Done") == (ts[0] == "eq") else ([y], [z])
        return None

    def once(loop):
        return any(isinstance(x, Ev) and "Queued" in status_write(x) for x in walk(loop.body))
    ends = []
    loops = [x for x in walk(t) if isinstance(x, Loop) and once(x)]
    fl = CFlow(step, catom=at, citer=lambda lp, s: [(0, 0)] if once(lp) else [s], loop_once=once)
    r = fl.run(t, [(0, 0)])
    for k in ("fall", "return"):
        ends += r.get(k, ())
    if any(s[1] == 1 for s in ends):
        bad.setdefault("start", (Ev("end", f.node, f, ()), "a request is put back without resetting its start time: its next client times out at once"))
    return bad


def not_done_comp(e):
    """the request comes from a comprehension that leaves the finished ones out"""
    for x in ast.walk(e.fn.node):
        if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
            for g in x.generators:
                for i in g.ifs:
                    if any(test_status(y) == ("ne", "Done") for y in ast.walk(i)):
                        return True
    return False


def check_requeue(rep, m):
    nq = 0
    for c in m.prog.all_classes():
        if c.module.name not in MODS:
            continue
        for n, f in sorted(c.methods.items()):
            if not writes_queued(f):
                continue
            nq += 1
            bad = requeue_paths(m, c, f)
            if bad:
                cs = callers(c, n)
                if cs and all(not requeue_paths(m, c, g) for g in cs):
                    bad = {}
            for k in ("done", "start"):
                b = bad.get(k)
                rep.ob("requeue", "%s.%s:%s" % (c.name, n, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))
    rep.ob("requeue", "places", nq >= 1, "no place where requests are put back was found")
    c = m.prog.cls("InterfaceSocket")
    rq = {n for n, f in c.methods.items() if writes_queued(f)}
    for _ in range(2):
        rq |= {n for n, f in c.methods.items() if not n.startswith("pool") and not n.startswith("_pool") and not n.startswith("dispatch") and not n.startswith("_dispatch")
               and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in rq for x in ast.walk(f.node))}
    for n, f in sorted(c.methods.items()):
        calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in rq]
        # all requests of a batch go back
        marked = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.For) and any(isinstance(y, ast.Constant) and y.value == "Running" for z in x.body for y in ast.walk(z)):
                marked |= {y.id for y in ast.walk(x.iter) if isinstance(y, ast.Name)}
        for x in calls:
            part = [y for a in x.args for y in ast.walk(a) if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id in marked]
            part = [y for y in part if not (isinstance(y.slice, ast.Slice) and y.slice.lower is None and y.slice.upper is None)]
            rep.ob("requeue", "InterfaceSocket.%s:whole" % n, not part, "only a part of the requests marked as Running is put back", f.loc(x))
        # jobs are deleted from the back
        for x in ast.walk(f.node):
            if not isinstance(x, ast.For):
                continue
            idx = {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            dl = [y for z in x.body for y in ast.walk(z) if isinstance(y, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "jobs"
                  and isinstance(t.slice, ast.Name) and t.slice.id in idx for t in y.targets)
                  or isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "pop" and isinstance(y.func.value, ast.Attribute) and y.func.value.attr == "jobs"
                  and any(isinstance(a, ast.Name) and a.id in idx for a in y.args)]
            if not dl:
                continue
            leaves = any(isinstance(y, (ast.Break, ast.Return)) for z in x.body for y in ast.walk(z))
            rep.ob("requeue", "InterfaceSocket.%s:order" % n, leaves or from_back(f, x.iter), "several jobs are deleted by index from the front: after the first, other jobs than the finished ones are deleted", f.loc(dl[0]))
        # no thread still works on a request that is put back
        if select_only(c, n):
            continue
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.For) and any(isinstance(y, ast.Attribute) and y.attr == "jobs" for y in ast.walk(x.iter))):
                continue
            cl = [y for z in x.body for y in ast.walk(z) if y in calls]
            tup = [y for y in ast.walk(x.target) if isinstance(y, (ast.Tuple, ast.List)) and len(y.elts) == 3]
            if not cl or not tup or not isinstance(tup[0].elts[2], ast.Name):
                continue
            tv = tup[0].elts[2].id
            used = [y for z in x.body for y in ast.walk(z) if isinstance(y, ast.Call) and (isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == tv
                    and y.func.attr in ("result", "exception") or any(isinstance(q, ast.Name) and q.id == tv for a in y.args for q in ast.walk(a)))]
            ok = any(y.lineno <= cl[0].lineno for y in used)
            rep.ob("requeue", "InterfaceSocket.%s:thread" % n, ok, "a request is put back without waiting for the thread that still works on it: it may be evaluated and answered twice", f.loc(cl[0]))
    # requests are told apart by identity
    c = m.prog.cls("ForceRequest")
    f = c.find("__eq__")
    if f is not None:
        a = [x.arg for x in f.node.args.args]
        ok = True
        for x in ast.walk(f.node):
            if isinstance(x, ast.Return) and x.value is not None:
                ok = ok and identity(x.value, a)
        rep.ob("requeue", "ForceRequest:identity", ok, "two requests compare equal although they are not the same: one is released or removed instead of the other", f.loc(f.node))
    else:
        rep.ob("requeue", "ForceRequest:identity", not any(isinstance(b, ast.Name) and b.id == "dict" for b in c.node.bases), "requests with equal contents compare equal: one is released or removed instead of the other", c.module.path if hasattr(c.module, "path") else "")
    # a batch that was evaluated is emptied, and an incomplete one is evaluated in the end
    for c in m.prog.all_classes():
        if c.module.name != "ipi.engine.forcefields":
            continue
        bufs = set()
        for n, f in c.methods.items():
            ps = {x.arg for x in f.node.args.args}
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") and isinstance(x.func.value, ast.Attribute) \
                        and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id == "self" and x.func.value.attr != "requests" \
                        and any(isinstance(a, ast.Name) and a.id in ps for a in x.args):
                    bufs.add(x.func.value.attr)
        for b in sorted(bufs):
            outs = []
            for n, f in sorted(c.methods.items()):
                alias = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Attribute) and y.attr == b for y in ast.walk(x.value)) for tt in x.targets for t in ast.walk(tt) if isinstance(t, ast.Name)} - {"self"}
                if any(isinstance(x, ast.For) and any(isinstance(y, ast.Attribute) and y.attr == b or isinstance(y, ast.Name) and y.id in alias for y in ast.walk(x.iter)) for x in ast.walk(f.node)):
                    outs.append(f)
            for f in outs:
                ip = m.interp(maxdepth=6, inline=quiet)
                ip.trace_locals = True
                ip.roots[("self",)] = c
                t = ip.run(f, c)
                if not any("Done" in status_write(e) for e in events(t)):
                    continue

                def step(e, s):
                    if e.path == ("self", b) and (e.kind == "write" and e.how in ("set", "del") or e.kind == "mut" and e.how in ("clear", "pop", "remove")) or \
                            e.kind == "write" and e.path and e.path[:2] == ("self", b) and not status_write(e) and key(e) is None and e.how in ("del", "slice", "item") and len(e.path) == 2:
                        return [(s[0], 1)]
                    if "Done" in status_write(e):
                        return [(1, s[1])]
                    return [s]
                r = CFlow(step).run(t, [(0, 0)])
                ok = not any(s == (1, 0) for k in ("fall", "return") for s in r.get(k, ()))
                rep.ob("requeue", "%s.%s:%s" % (c.name, f.name, b), ok, "the requests of a batch stay in the buffer after they were evaluated: they are evaluated again", f.loc(f.node))
                # flush
                for n, g in sorted(c.methods.items()):
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.If) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == f.name for z in x.body for y in ast.walk(z)) \
                                and isinstance(x.test, ast.Compare) and not any(isinstance(y, ast.Attribute) and y.attr == b for y in ast.walk(x.test)):
                            cnt = [y.attr for y in ast.walk(x.test) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self"]
                            up = any(isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Attribute) and y.target.attr in cnt
                                     or isinstance(y, ast.Assign) and not isinstance(y.value, ast.Constant) and any(isinstance(q, ast.Attribute) and q.attr in cnt for t_ in y.targets for q in ast.walk(t_))
                                     for h in c.methods.values() if h.name != "__init__" for y in ast.walk(h.node))
                            rep.ob("requeue", "%s.%s:flush" % (c.name, n), up, "the condition for evaluating an incomplete batch is never reached: its requests are left behind", g.loc(x))


def identity(e, a):
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        names = sorted(y.id for y in ast.walk(e) if isinstance(y, ast.Name) and y.id != "id")
        if isinstance(e.ops[0], ast.Is):
            return names == sorted(a)
        if isinstance(e.ops[0], ast.Eq) and all(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "id" for y in (e.left, e.comparators[0])):
            return names == sorted(a)
    return False


def from_back(f, it, depth=0):
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
        if it.func.id == "reversed":
            return True
        if it.func.id == "sorted":
            return any(k.arg == "reverse" for k in it.keywords)
        if it.func.id in ("list", "tuple") and it.args:
            return from_back(f, it.args[0], depth)
        if it.func.id == "range":
            return len(it.args) == 3
    if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and isinstance(it.slice.step, ast.UnaryOp):
        return True
    if isinstance(it, ast.Name) and depth < 3:
        rv = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == it.id
                 and (x.func.attr == "reverse" or x.func.attr == "sort" and any(k.arg == "reverse" for k in x.keywords) or x.func.attr == "insert" and isinstance(x.args[0], ast.Constant) and x.args[0].value == 0)
                 for x in ast.walk(f.node))
        src = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in x.targets)]
        loops = [x.iter for x in ast.walk(f.node) if isinstance(x, ast.For) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "append"
                 and isinstance(y.func.value, ast.Name) and y.func.value.id == it.id for y in ast.walk(x))]
        return rv or any(from_back(f, v, depth + 1) for v in src) or bool(loops) and all(from_back(f, v, depth + 1) for v in loops)
    return False


def select_only(c, n, seen=()):
    """the method runs only with consolidated messages, where jobs have no thread"""
    if n in seen:
        return False
    cs = callers(c, n)
    if not cs:
        return False
    for g in cs:
        if select_only(c, g.name, seen + (n,)):
            continue
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == n:
                if not any(isinstance(y, (ast.If, ast.IfExp)) and any(isinstance(q, ast.Attribute) and q.attr == "consolidate_messages" for q in ast.walk(y.test))
                           and any(z is x for z in ast.walk(y)) for y in ast.walk(g.node)):
                    return False
    return True


# ---------------------------------------------------------------- R7: results are only taken from finished requests
def check_waiters(rep, m, rs):
    todo = []
    fb = m.prog.cls("ForceBead")
    for n, f in fb.methods.items():
        if any(isinstance(x, ast.Constant) and x.value == "result" for x in ast.walk(f.node)):
            todo.append((fb, n, f))
    for c, n, f, t in rs:
        todo.append((c, n, f))
    done = set()
    for c, n, f in todo:
        if (c, n) in done:
            continue
        done.add((c, n))
        ip = m.interp(maxdepth=7, inline=lambda fn, k, d: quiet(fn, k, d) and fn.name not in ("queue",) or fn.name == "queue" and d == 0)
        ip.trace_locals = True
        ip.roots[("self",)] = c
        t = ip.run(f, c)
        foreign = [e for e in events(t) if takes(e)]
        if not foreign:
            continue
        waiter(rep, c, n, f, t)


def takes(e):
    """e takes the result of a request that is evaluated elsewhere"""
    if e.kind != "read" or not e.path:
        return False
    if "['result']" in e.path and is_foreign(e.path):
        return True
    if e.path[-1] == "['ff_handles']" and any(isinstance(x, ast.Constant) and x.value == "result" for x in ast.walk(e.fn.node)):
        for x in ast.walk(e.fn.node):
            its = [(x.iter, x)] if isinstance(x, ast.For) else [(g.iter, x) for g in x.generators] if isinstance(x, (ast.ListComp, ast.GeneratorExp)) else []
            for i, body in its:
                if any(y is e.node for y in ast.walk(i)):
                    return any(isinstance(z, ast.Constant) and z.value == "result" for z in ast.walk(body))
        return True
    return False


def is_foreign(p):
    """a request evaluated by somebody else: handles of a composite force field, or the request a bead waits for"""
    return "['ff_handles']" in p or "request" in p or any(x.startswith("inst") for x in p)


def waiter(rep, c, n, f, t):
    where = "%s.%s" % (c.name, n)
    bad = {}

    def step(e, s):
        ready, exitq = s
        if takes(e) and not ready:
            bad.setdefault("early", (e, "the result of a request is used on a path where the request need not be Done"))
        if e.kind == "call" and (e.label or "").endswith(".release") and not ready and e.args and any(is_foreign(a[1]) for a in e.args[0] if a[0] == "obj" and isinstance(a[1], tuple)):
            bad.setdefault("release", (e, "a request is released on a path where it need not be Done"))
        if e.kind == "call" and (e.label or "").endswith("_event_done.wait"):
            if not (e.args or e.kwargs):
                bad.setdefault("wait", (e, "waiting without a time limit: an exit request would never be noticed"))
        return [s]

    def at(test, fn, s):
        ts = test_status(test)
        if ts and ts[1] == "Done":
            y = (1, s[1])
            return ([y], [s]) if ts[0] == "eq" else ([s], [y])
        return None

    fl = CFlow(step, catom=at, loop_once=lambda lp: "ff_handles" in ast.dump(getattr(lp.node, "iter", lp.node)) if isinstance(lp.node, ast.For) else False)

    def it(loop, s):
        if loop.kind == "for" and any(isinstance(x, Loop) and loop_test(x) for x in walk(loop.body)):
            return [(0, s[1])]
        return [s]

    fl.citer = it
    fl.run(t, [(0, 0)])
    wl = [x for x in walk(t) if isinstance(x, Loop) and loop_test(x)]
    for x in wl:
        ok = any(test_status(y) == ("eq", "Exit") for y in ast.walk(x.node)) and "triggered" in ast.dump(x.node)
        rep.ob("wait", "%s:exit" % where, ok, "a waiter does not notice that the run is being stopped", x.fn.loc(x.node))
    for k in ("early", "release", "wait"):
        b = bad.get(k)
        rep.ob("wait", "%s:%s" % (where, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))


def loop_test(lp):
    """a loop that waits for a request to be Done"""
    if not isinstance(lp.node, ast.While):
        return False
    if not any(isinstance(x, ast.Attribute) and x.attr in ("wait", "sleep") for x in ast.walk(lp.node)):
        return False
    return any(test_status(x) and test_status(x)[1] == "Done" for x in ast.walk(lp.node))


def run(tier):
    rep = Report(PID, tier, "typestate analysis of force requests over effect trees with branch correlation",
                 "every function through which a force request changes state, for every class and all paths")
    m = model()
    rep.rule("announce", "a request is announced (Done, then waiters woken) only after its result is complete, with the offset subtracted exactly once", 60)
    rep.rule("payload", "results have four entries and own their storage", 20)
    rs = roots(m)
    for c, n, f, t in rs:
        if reach_done(t):
            rep.part("check_announce", check_announce, rep, c, n, f, t)
            rep.part("check_payload", check_payload, rep, c, n, t)
    rep.part("check_buffers", check_buffers, rep, m)
    rep.rule("offset-sign", "the constant offset is subtracted from the energy", 8)
    rep.part("check_offset_sign", check_offset_sign, rep, m)
    rep.rule("private", "a request owns copies of positions and cell", 4)
    rep.part("check_private", check_private, rep, m)
    rep.rule("handoff", "a request marked Running was Queued and is handed to exactly one client or put back", 24)
    rep.part("check_handoff", check_handoff, rep, m, rs)
    rep.part("check_claims", check_claims, rep, m)
    rep.part("check_free", check_free, rep, m)
    rep.rule("queue-filter", "only Queued requests are dispatched, each once", 4)
    rep.part("check_lists", check_lists, rep, m)
    rep.rule("drop", "a job is dropped only when its request is Done or back in the queue", 8)
    rep.part("check_jobs", check_jobs, rep, m)
    rep.rule("requeue", "only unfinished requests go back, completely reset and no longer worked on; jobs are removed by identity; batches are emptied", 8)
    rep.part("check_requeue", check_requeue, rep, m)
    rep.rule("driver", "drivers report success exactly when the request is Done; active atoms are mapped back; sizes are checked", 20)
    rep.part("check_contract", check_contract, rep, m)
    rep.rule("wait", "results are only taken from requests that are Done, and waiting ends on exit", 8)
    rep.part("check_waiters", check_waiters, rep, m, rs)
    rep.part("check_all_done", check_all_done, rep, m)
    return rep.finish()


if __name__ == "__main__":
    main(run, PID)
