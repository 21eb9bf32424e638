"""C14: a stop request from anywhere ends the run cleanly with a consistent restart file (typestate over the exit protocol)."""
import ast
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.repo import AnalysisBroken
from vlib.interp import pstr, walk, Branch, Ev, Seq, Loop, Inline, Try, With
from vlib.flow import CFlow

PID = "C14"
VALID = ("restartable", "success", "bad")


def consts(v):
    return {a[1] for a in (v or ()) if a[0] == "const"}


def is_flag(e, name):
    return isinstance(e, ast.Attribute) and e.attr == name


def callee(ev):
    """What a call event runs: its label, or the function handed to an executor or thread."""
    lab = ev.label or ""
    if lab.endswith(".submit") and ev.args:
        return target(ev.args[0], ev.node.args[0] if ev.node.args else None)
    return lab


def target(val, node):
    for a in val or ():
        if a[0] == "obj":
            return pstr(a[1])
        if a[0] == "func":
            f = a[1]
            sp = getattr(f, "self_path", None)
            nm = f.func.node.name if getattr(f, "func", None) is not None and hasattr(f.func.node, "name") else "?"
            return (pstr(sp) + "." if sp else "") + nm
    return ast.unparse(node) if node is not None else "?"


def tree(m, c, f, mods, depth=5, args=None):
    ip = m.interp(maxdepth=depth, inline=lambda fn, k, d: fn.module.name in mods)
    ip.trace_locals = True
    ip.roots[("self",)] = c
    return ip.run(f, c, args=args) if args else ip.run(f, c)


def need(m, cls, *names):
    c = m.prog.cls(cls)
    if c is None:
        raise AnalysisBroken("class %s not found" % cls)
    out = []
    for n in names:
        f = c.find(n)
        if f is None:
            raise AnalysisBroken("%s.%s not found" % (cls, n))
        out.append(f)
    return [c] + out


# ---------------------------------------------------------------- statuses
class Status:
    """possible constants of a status expression, through parameters, attributes and defaults"""

    def __init__(self, m):
        self.m = m
        self.attr = {}
        self.calls = {}
        for mod in m.prog.modules.values():
            for fn in mod_funcs(mod):
                for x in ast.walk(fn.node):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute):
                                self.attr.setdefault(t.attr, []).append((x.value, fn))
                    elif isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                        self.calls.setdefault(x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id, []).append((x, fn))

    def of(self, e, fn, seen=()):
        """set of constants; '?' if unknown"""
        if e is None:
            return {"?"}
        if isinstance(e, ast.Constant):
            return {e.value}
        k = (ast.dump(e), fn.qual, fn.module.name)
        if k in seen:
            return set()
        seen = seen + (k,)
        if isinstance(e, ast.IfExp):
            return self.of(e.body, fn, seen) | self.of(e.orelse, fn, seen)
        if isinstance(e, ast.BoolOp):
            r = set()
            for i, v in enumerate(e.values):
                s = self.of(v, fn, seen)
                if isinstance(e.op, ast.Or) and i + 1 < len(e.values):
                    s = {x for x in s if x not in (None, "", False)}
                r |= s
            return r
        if isinstance(e, ast.Attribute):
            if e.attr not in self.attr:
                return {"?"}
            r = set()
            own = ast.unparse(e.value).rpartition(".")[2].lower()
            if own == "self" and fn.cls is not None:
                fam = {k.name for k in fn.cls.mro()}
                defs = [(v, g) for v, g in self.attr[e.attr] if g.cls is not None and (g.cls.name in fam or fn.cls in g.cls.mro())] or self.attr[e.attr]
            else:
                defs = [(v, g) for v, g in self.attr[e.attr] if g.cls is not None and any(k.name.lower() == own for k in g.cls.mro())] or self.attr[e.attr]
            for v, g in defs:
                r |= self.of(v, g, seen)
            return r
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Dict):
            r = set()
            for v in e.value.values:
                r |= self.of(v, fn, seen)
            return r
        if isinstance(e, ast.Name):
            defs = [x.value for x in ast.walk(fn.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            a = fn.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            kwo = [x.arg for x in a.kwonlyargs]
            r = set()
            for d in defs:
                r |= self.of(d, fn, seen)
            if e.id in pos or e.id in kwo:
                name = fn.node.name
                off = 1 if fn.cls is not None and pos and pos[0] == "self" else 0
                dflt = None
                if e.id in pos:
                    j = pos.index(e.id) - (len(pos) - len(a.defaults))
                    dflt = a.defaults[j] if j >= 0 else None
                else:
                    dflt = a.kw_defaults[kwo.index(e.id)]
                for call, g in self.calls.get(name, []):
                    if fn.cls is not None and not isinstance(call.func, ast.Attribute):
                        continue
                    v = next((kw.value for kw in call.keywords if kw.arg == e.id), None)
                    if v is None and e.id in pos:
                        i = pos.index(e.id) - off
                        v = call.args[i] if i < len(call.args) else None
                    if v is None:
                        v = dflt
                    r |= self.of(v, g, seen)
            elif not defs:
                r.add("?")
            return r
        return {"?"}


def mod_funcs(mod):
    for c in mod.classes.values():
        for f in c.methods.values():
            yield f
    for f in mod.functions.values():
        yield f


class Script:
    """a script outside the package, with the interface of a Func"""

    def __init__(self, path, node, name):
        self.path, self.node, self.qual, self.cls = path, node, name, None
        self.module = self
        self.name = path

    def loc(self, n=None):
        return "%s:%d (%s)" % (self.path, getattr(n or self.node, "lineno", 0), self.qual)


def scripts(m):
    out = []
    p = os.path.join(m.prog.root, "bin", "i-pi")
    if os.path.exists(p):
        t = ast.parse(open(p).read())
        for x in t.body:
            if isinstance(x, ast.FunctionDef):
                out.append(Script("bin/i-pi", x, x.name))
    return out


def singleton(mod, e):
    """e denotes the softexit object"""
    return isinstance(e, ast.Name) and e.id == "softexit" or isinstance(e, ast.Attribute) and e.attr == "softexit" and isinstance(e.value, ast.Name) and e.value.id == "softexit"


def statuses(rep, m):
    rep.rule("status", "every stop request passes a status the exit routine knows (restartable, success, bad), so the clean-up runs", 8)
    st = Status(m)
    funcs = [f for mod in m.prog.modules.values() for f in mod_funcs(mod)] + scripts(m)
    for fn in funcs:
        k = 0
        for x in ast.walk(fn.node):
            if not isinstance(x, ast.Call):
                continue
            val, got = None, False
            if isinstance(x.func, ast.Attribute) and x.func.attr in ("trigger", "cleanup") and \
                    (singleton(fn.module, x.func.value) or fn.cls is not None and fn.cls.name == "Softexit" and isinstance(x.func.value, ast.Name) and x.func.value.id == "self"):
                got = True
                val = x.args[0] if x.args else next((kw.value for kw in x.keywords if kw.arg == "status"), None)
                if any(kw.arg is None for kw in x.keywords) or any(isinstance(a, ast.Starred) for a in x.args):
                    val = None
            else:
                t = next((kw.value for kw in x.keywords if kw.arg == "target"), None)
                if isinstance(t, ast.Attribute) and t.attr == "trigger" and singleton(fn.module, t.value):
                    got = True
                    a = next((kw.value for kw in x.keywords if kw.arg == "args"), None)
                    kw = next((kw.value for kw in x.keywords if kw.arg == "kwargs"), None)
                    if isinstance(a, (ast.Tuple, ast.List)) and a.elts:
                        val = a.elts[0]
                    elif isinstance(kw, ast.Dict):
                        val = next((v for q, v in zip(kw.keys, kw.values) if isinstance(q, ast.Constant) and q.value == "status"), None)
            if not got:
                continue
            k += 1
            s = st.of(val, fn) if val is not None else {"restartable"}
            bad = sorted(str(v) for v in s if v not in VALID)
            ok = not bad
            rep.ob("status", "%s.%s#%d" % (fn.module.name, fn.qual, k), ok, "the stop request passes %s as its status: the clean-up functions never run" % (
                ", ".join(repr(b) for b in bad if b != "?") or "an unknown value (%s)" % ast.unparse(val)[:60] if bad else ""), fn.loc(x))


# ---------------------------------------------------------------- the exit routine
def flist_loop(n, name):
    """loop over (or consuming) self.<name>"""
    if not isinstance(n, Loop):
        return False
    for a in n.iterval or ():
        if a[0] == "obj" and name in a[1]:
            return True
    if isinstance(n.node, ast.For):
        return any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(n.node.iter))
    return isinstance(n.node, ast.While) and any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(n.node))


def ancestors(n, pred, stack=()):
    """(node, enclosing nodes) of all nodes satisfying pred"""
    if n is None:
        return
    if pred(n):
        yield n, stack
    s2 = stack + (n,)
    if isinstance(n, Seq):
        for x in n.items:
            yield from ancestors(x, pred, stack)
    elif isinstance(n, Branch):
        yield from ancestors(n.a, pred, s2)
        yield from ancestors(n.b, pred, s2)
    elif isinstance(n, Loop):
        yield from ancestors(n.head, pred, s2)
        yield from ancestors(n.body, pred, s2)
        yield from ancestors(n.orelse, pred, stack)
    elif isinstance(n, Try):
        yield from ancestors(n.body, pred, s2 + ("body",))
        for h in n.handlers:
            yield from ancestors(h[-1] if isinstance(h, tuple) else h, pred, stack)
        yield from ancestors(n.orelse, pred, stack)
        yield from ancestors(n.final, pred, stack)
    elif isinstance(n, (Inline, With)):
        yield from ancestors(n.body, pred, s2)


def runs_entry(ev):
    """call of a registered function: a plain local or a subscript, not a named function"""
    if ev.kind != "call" or not isinstance(ev.node, ast.Call):
        return False
    f = ev.node.func
    stars = any(isinstance(a, ast.Starred) for a in ev.node.args) or any(k.arg is None for k in ev.node.keywords)
    return isinstance(f, (ast.Name, ast.Subscript)) and stars


def handler_ok(t):
    """the try statement swallows every ordinary exception and goes on"""
    for h in getattr(t.node, "handlers", []):
        types = [None] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
        names = {None if x is None else x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?") for x in types}
        if names & {None, "Exception", "BaseException"}:
            return not any(isinstance(x, (ast.Raise, ast.Return, ast.Break)) for b in h.body for x in ast.walk(b))
        if any(isinstance(x, (ast.Raise, ast.Return, ast.Break)) for b in h.body for x in ast.walk(b)):
            return False
    return False


def suppresses(w):
    for i in getattr(w.node, "items", []):
        c = i.context_expr
        if isinstance(c, ast.Call) and (getattr(c.func, "attr", None) or getattr(c.func, "id", "")) == "suppress":
            if any(getattr(a, "id", "") in ("Exception", "BaseException") for a in c.args):
                return True
    return False


def exit_routine(rep, m):
    rep.rule("cleanup", "the exit routine marks the exit before anything else, runs every registered function once whatever the others do, then releases waiters and threads", 7)
    c, f, trig, mon, kh, start = need(m, "Softexit", "cleanup", "trigger", "_softexit_monitor", "_kill_handler", "start")
    mods = {c.module.name}
    t = tree(m, c, f, mods)
    loc = f.loc(f.node)
    ents = list(ancestors(t, lambda n: isinstance(n, Ev) and runs_entry(n)))
    ents = [(e, s) for e, s in ents if any(flist_loop(x, "flist") for x in s)]
    rep.ob("cleanup", "runs-all", bool(ents), "the exit routine does not run the registered functions", loc)
    ok = True
    for e, s in ents:
        i = max(j for j, x in enumerate(s) if flist_loop(x, "flist"))
        inner = s[i + 1:]
        prot = any(isinstance(x, Try) and handler_ok(x) for x in inner) or any(isinstance(x, With) and suppresses(x) for x in inner)
        ok = ok and prot
        lp = s[i].node
        brk = any(isinstance(x, (ast.Break, ast.Return)) for b in lp.body for x in ast.walk(b))
        ok = ok and not brk
    rep.ob("cleanup", "isolated", ok, "an error in one registered function keeps the others (and the restart file) from being dealt with", loc)
    bad = {}
    # state: triggered at entry (None unknown), triggered, exiting, functions run, released
    def cstep(ev, s):
        e0, tr, ex, ran, rel = s
        if ev.kind == "write" and ev.path == ("self", "triggered"):
            tr = consts(ev.val) == {True}
            if tr and ex is not True and not ran:
                bad["mark"] = "the exit is marked as triggered before it is marked as going on: a waiting thread leaves before the clean-up"
        elif ev.kind == "write" and ev.path == ("self", "exiting"):
            v = consts(ev.val)
            if v == {False} and tr and not ran:
                bad["early-release"] = "waiting threads are released before the registered functions have run"
            if v == {True} and ran:
                bad["early-release"] = "the exit is marked as going on after the registered functions have run"
            ex = True if v == {True} else False if v == {False} else "?"
        elif ev.kind == "write" and ev.path and "tlist" in ev.path and consts(ev.val) == {False}:
            rel = rel and ran
        elif ev.kind == "call" and runs_entry(ev):
            if not (tr and ex):
                bad["mark"] = "registered functions run before the exit is marked as %s: another thread starts a second clean-up or carries on" % ("triggered" if not tr else "going on")
            if e0 is not False:
                bad["twice"] = "the registered functions are run again by a second stop request"
        return [(e0, tr, ex, ran, rel)]

    def citer(n, s):
        if flist_loop(n, "flist"):
            return [s[:3] + (True,) + s[4:]]
        return [s]

    def cexit(n, s):
        if flist_loop(n, "flist"):
            return [s[:3] + (True,) + s[4:]]
        if flist_loop(n, "tlist") and any(isinstance(x, Ev) and x.kind == "write" and x.path and "tlist" in x.path and consts(x.val) == {False} for x in walk(n)):
            return [s[:4] + (s[3],)]
        return [s]

    def catom(e, fn, s):
        if is_flag(e, "triggered") and s[0] is None:
            return [(True, True) + s[2:]], [(False, False) + s[2:]]
        if is_flag(e, "triggered") and s[1] is not None:
            return ([s], []) if s[1] else ([], [s])
        return None

    fl = CFlow(cstep, citer=citer, catom=catom)
    fl.cexit = cexit
    r = fl.run(t, [(None, None, None, False, False)])
    end = r.get("fall", set()) | r.get("return", set())
    for e0, tr, ex, ran, rel in end:
        if e0 is not True:
            if not ran:
                bad["skipped"] = "there is a path on which the first stop request does not run the registered functions"
            elif ex is not False:
                bad["release"] = "the exit stays marked as going on after the clean-up: threads waiting for it never end"
            elif not rel:
                bad["threads"] = "the registered threads are not told to stop after the clean-up"
            if not tr:
                bad["mark"] = "the exit is not marked as triggered"
    for k, why in (("mark", ""), ("twice", ""), ("early-release", ""), ("skipped", ""), ("release", ""), ("threads", "")):
        rep.ob("cleanup", k, k not in bad, bad.get(k, ""), loc)
    # threads are waited for, but never by themselves
    for x in ast.walk(f.node):
        if isinstance(x, ast.For) and any(isinstance(y, ast.Attribute) and y.attr == "tlist" for y in ast.walk(x.iter)):
            vs = {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            for y in [y for b in x.body for y in ast.walk(b)]:
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "join" and isinstance(y.func.value, ast.Name) and y.func.value.id in vs:
                    tests = [z for b in x.body for z in ast.walk(b) if isinstance(z, ast.Compare) and any(isinstance(q, ast.Name) and q.id == y.func.value.id for q in ast.walk(z))] \
                        + [g for g in ast.walk(x.iter) if isinstance(g, ast.Compare)]
                    prot = any(isinstance(z, ast.Try) and any(q is y for q in ast.walk(z)) for b in x.body for z in ast.walk(b))
                    rep.ob("cleanup", "join", bool(tests) or prot, "a registered thread that requests the stop waits for itself: an error ends it instead of the clean exit", f.loc(y))
    # unknown statuses aside, nothing raises between the mark and the functions
    for v in VALID:
        t2 = tree(m, c, f, mods, args={"status": frozenset({("const", v)})})
        hit = []

        def cs(ev, s):
            if ev.kind == "call" and runs_entry(ev):
                return [True]
            if ev.kind == "raise" and not s:
                hit.append(ev)
            return [s]

        def at(e, fn, s, v=v):
            if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and e.left.id == "status":
                r = e.comparators[0]
                if isinstance(r, (ast.Name, ast.Attribute)):
                    nm = r.id if isinstance(r, ast.Name) else r.attr
                    ds = [x.value for x in ast.walk(c.module.tree) if isinstance(x, ast.Assign) and any(getattr(t_, "id", getattr(t_, "attr", None)) == nm for t_ in x.targets)]
                    r = ds[0] if len(ds) == 1 else r
                if isinstance(r, ast.Call) and r.args:
                    r = r.args[0]
                lits = [r.value] if isinstance(r, ast.Constant) else [x.value for x in getattr(r, "elts", getattr(r, "keys", [])) if isinstance(x, ast.Constant)] or None
                if lits is not None:
                    y = v in lits
                    y = y if isinstance(e.ops[0], (ast.Eq, ast.In)) else not y
                    return ([s], []) if y else ([], [s])
            return None
        CFlow(cs, catom=at).run(t2, [False])
        rep.ob("cleanup", "status:" + v, not hit, "a stop with status '%s' is refused before the clean-up" % v, hit[0].loc() if hit else loc)

    # ---- trigger
    t = tree(m, c, trig, set())
    bad = {}

    def cstep(ev, s):
        tr, done = s
        if ev.kind == "call" and (ev.label or "").endswith("cleanup"):
            done = "clean"
            names = [x.arg for x in f.node.args.args[1:]]
            got = [ast.unparse(a) for a in ev.node.args] + [k.arg + "=" + ast.unparse(k.value) for k in ev.node.keywords]
            flat = [g.split("=", 1)[-1] for g in got]
            if flat[:2] != names[:2] and {g for g in got} != {n + "=" + n for n in names[:2]}:
                bad["args"] = "the status or message is not handed on"
        elif ev.kind == "call" and ((ev.label or "").endswith("kill") or (ev.label or "") in ("sys.exit", "exit")) or ev.kind == "raise":
            if done == "clean":
                done = "killed"
            elif tr is not True:
                bad["kill"] = "the calling thread ends before the clean-up"
        return [(tr, done)]

    def catom(e, fn, s):
        if is_flag(e, "triggered"):
            return [(True, s[1])], [(False, s[1])]
        return None
    r = CFlow(cstep, catom=catom).run(t, [(None, None)])
    for k, sts in r.items():
        for tr, done in sts:
            if tr is not True and done != "killed":
                bad["path"] = "a stop request does not lead to the clean-up and the end of the calling thread"
    rep.ob("cleanup", "trigger", not bad, "; ".join(bad.values()), trig.loc(trig.node))

    # ---- sources: EXIT file, wall clock, signals
    rep.rule("sources", "the EXIT file, the wall-clock limit and kill signals all lead to a stop request", 4)
    t = tree(m, c, mon, {c.module.name} - set(), depth=2)
    seen = {"exit": [False, False], "time": [False, False]}

    def cstep(ev, s):
        if ev.kind == "call" and (ev.label or "").endswith("trigger"):
            return [s | {"trig"}]
        return [s]

    def catom(e, fn, s):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("exists", "isfile", "lexists") and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value == "EXIT":
            seen["exit"][0] = True
            return [s | {"exit"}], [s]
        if isinstance(e, ast.Compare) and any(isinstance(x, ast.Attribute) and x.attr == "timeout" for x in ast.walk(e)) and any(isinstance(x, ast.Call) for x in ast.walk(e)):
            seen["time"][0] = True
            yes, no = [s | {"time"}], [s]
            now_left = any(isinstance(x, ast.Call) for x in ast.walk(e.left)) and not any(isinstance(x, ast.Call) for x in ast.walk(e.comparators[0]))
            now_right = any(isinstance(x, ast.Call) for x in ast.walk(e.comparators[0])) and not any(isinstance(x, ast.Call) for x in ast.walk(e.left))
            if now_left and isinstance(e.ops[0], (ast.Lt, ast.LtE)) or now_right and isinstance(e.ops[0], (ast.Gt, ast.GtE)):
                return no, yes
            return yes, no
        return None

    def citer(n, s):
        for k in ("exit", "time"):
            if k in s and "trig" not in s:
                seen[k][1] = True
        return [frozenset()]
    fl = CFlow(cstep, catom=catom, citer=citer)
    r = fl.run(t, [frozenset()])
    for k, sts in r.items():
        for s in sts:
            for q in ("exit", "time"):
                if q in s and "trig" not in s:
                    seen[q][1] = True
    for q, what in (("exit", "the EXIT file"), ("time", "the wall-clock limit")):
        rep.ob("sources", q, seen[q][0] and not seen[q][1], "%s does not lead to a stop request" % what, mon.loc(mon.node))
    inloop = any(isinstance(n, Loop) for n in walk(t))
    rep.ob("sources", "monitor-loop", inloop, "the monitor does not keep checking", mon.loc(mon.node))
    t = tree(m, c, kh, set())
    bad = []

    def cstep(ev, s):
        return [True] if ev.kind == "call" and (ev.label or "").endswith("trigger") else [s]
    r = CFlow(cstep).run(t, [False])
    rep.ob("sources", "signal-handler", all(s for v in r.values() for s in v), "a kill signal does not lead to a stop request on every path", kh.loc(kh.node))
    t = tree(m, c, start, mods)
    need_ = {"SIGINT", "SIGTERM"}

    def cstep(ev, s):
        if ev.kind == "call" and (ev.label or "") == "signal.signal" and isinstance(ev.node, ast.Call) and len(ev.node.args) == 2:
            if "_kill_handler" in ast.unparse(ev.node.args[1]):
                a = ev.node.args[0]
                if isinstance(a, ast.Attribute):
                    return [s | {a.attr}]
                return [s | need_]
        if ev.kind == "call" and (ev.label or "").endswith("_thread.start"):
            return [s | {"thread"}]
        if ev.kind == "call" and (ev.label or "").endswith("register_thread"):
            return [s | {"reg"}]
        if ev.kind == "write" and ev.path and "tlist" in ev.path:
            return [s | {"reg"}]
        return [s]
    r = CFlow(cstep).run(t, [frozenset()])
    miss = set()
    for k in ("fall", "return"):
        for s in r.get(k, ()):
            miss |= (need_ | {"thread"}) - s
    rep.ob("sources", "start", not miss, "starting the monitor leaves out: %s" % ", ".join(sorted(miss)), start.loc(start.node))


# ---------------------------------------------------------------- waiting for forces
def waits(rep, m):
    rep.rule("waits", "a thread that waits for a force leaves the wait when a stop is requested, without returning a result, after the clean-up", 2)
    n = 0
    for mod in m.prog.modules.values():
        if not mod.name.startswith(("ipi.engine", "ipi.interfaces")):
            continue
        for fn in mod_funcs(mod):
            loops = [x for x in ast.walk(fn.node) if isinstance(x, ast.While) and any(isinstance(y, ast.Constant) and y.value == "Done" for y in ast.walk(x.test))]
            if not loops:
                continue
            t = tree(m, fn.cls, fn, {mod.name}, depth=3)
            for L in loops:
                n += 1
                bad = {}

                def in_loop(nd):
                    return nd.node is L

                def cstep(ev, s):
                    st, ph = s
                    lab = ev.label or ""
                    if ph == "seen":
                        if ev.kind == "call" and (lab in ("sys.exit", "exit", "os._exit", "quit") or lab.endswith(".kill")):
                            if "waited" not in st:
                                bad["order"] = "the thread ends before the clean-up is over"
                            return [(st, "dead")]
                        if ev.kind == "raise":
                            if "waited" not in st:
                                bad["order"] = "the thread ends before the clean-up is over"
                            return [(st, "dead")]
                    if ph == "unchecked" and ev.kind == "call" and lab.endswith((".wait", ".sleep", "time.sleep")):
                        bad["unchecked"] = "the wait goes on without looking for a stop request"
                    return [(st, ph)]

                def catom(e, fn_, s):
                    st, ph = s
                    if ph == "dead":
                        return [], []
                    if is_flag(e, "triggered"):
                        return [(st, "seen" if ph in ("unchecked", "checked", "seen") else ph)], [(st, "checked" if ph == "unchecked" else ph)]
                    if isinstance(e, ast.Compare) and any(isinstance(y, ast.Constant) and y.value == "Exit" for y in ast.walk(e)) and ph in ("unchecked", "checked"):
                        eq = isinstance(e.ops[0], ast.Eq)
                        a, b = [(st, "seen")], [s]
                        return (a, b) if eq else (b, a)
                    return None

                def citer(nd, s):
                    st, ph = s
                    if in_loop(nd):
                        if ph == "seen":
                            bad["stuck"] = "the wait goes on after a stop request"
                        if ph == "dead":
                            return []
                        return [(st, "unchecked")]
                    return [s]

                def cexit(nd, s):
                    st, ph = s
                    if in_loop(nd) and ph in ("unchecked", "checked", "seen"):
                        return [(st, "out")]
                    if isinstance(nd.node, ast.While) and any(is_flag(y, "exiting") for y in ast.walk(nd.node.test)):
                        return [(st | {"waited"}, ph)]
                    return [s]
                fl = CFlow(cstep, citer=citer, catom=catom)
                fl.cexit = cexit
                r = fl.run(t, [(frozenset(), "before")])
                for k in ("fall", "return"):
                    for st, ph in r.get(k, ()):
                        if ph == "seen":
                            bad["result"] = "after a stop request the wait returns as if the force had been computed"
                rep.ob("waits", "%s.%s" % (mod.name, fn.qual), not bad, "; ".join(sorted(bad.values())), fn.loc(L))
    if n == 0:
        raise AnalysisBroken("no loop waiting for a request found")


# ---------------------------------------------------------------- main loop
def mainloop(rep, m):
    rep.rule("run", "the state is stored before a step, nothing is written and the stored state is not replaced when the step was cut short by a stop request", 6)
    c, run, sx = need(m, "Simulation", "run", "softexit")
    mods = {c.module.name}
    t = tree(m, c, run, mods)
    loc = run.loc(run.node)
    bad, nstep, nwrite, nroll = {}, [0], [0], [0]
    # the loop that makes the steps
    def makes_steps(n):
        return any(isinstance(x, Ev) and x.kind == "call" and callee(x).endswith(".motion.step") for x in walk(n))
    loops = [n for n in walk(t) if isinstance(n, Loop) and makes_steps(n)]
    main_loop = loops[0] if loops else None
    inner = {id(n) for n in loops[1:]}
    # (stored, stepped, checked, seen, rollback released)
    def cstep(ev, s):
        sto, stp, chk, seen, rol = s
        if ev.kind == "call":
            w = callee(ev)
            if w.endswith("chk.store"):
                if stp == "cut":
                    bad["store"] = "the state is stored again in the middle of a step"
                sto = True
            elif w.endswith(".motion.step"):
                nstep[0] += 1
                if rol:
                    bad["rollback"] = "a step is made while the exit is told to store the current state: the restart file holds a state in the middle of a step"
                if not sto:
                    bad["unstored"] = "a step can start although the state before it was not stored (safe_stride aside)"
                stp, chk = True, False
            elif w.endswith("smotion.step"):
                stp, chk = True, False
            elif (w.endswith(".write") and "output" in w) or w.endswith("outputs[].write"):
                nwrite[0] += 1
                if seen or stp and not chk:
                    bad["write"] = "outputs are written after a step that a stop request may have cut short"
        if ev.kind == "write" and ev.path == ("self", "rollback"):
            v = consts(ev.val)
            if v == {True}:
                rol = False
            else:
                nroll[0] += 1
                if v != {False}:
                    bad["rollback"] = "rollback gets a value that is not known"
                if seen or stp and not chk:
                    bad["rollback"] = "the state of a step that a stop request cut short replaces the stored state"
                rol = True
        return [(sto, stp, chk, seen, rol)]

    def catom(e, fn, s):
        sto, stp, chk, seen, rol = s
        if is_flag(e, "triggered"):
            # a stop request is never taken back
            return [(sto, stp, chk, True, rol)], [] if seen else [(sto, stp, True, seen, rol)]
        if any(isinstance(x, ast.Attribute) and x.attr == "safe_stride" for x in ast.walk(e)):
            # not the turn of this step to be stored
            eq = isinstance(e, ast.Compare) and isinstance(e.ops[0], ast.Eq)
            sk = (True, stp, chk, seen, rol)
            return ([s], [sk]) if eq else ([sk], [s])
        return None

    def citer(n, s):
        if n is main_loop:
            if s[3]:
                bad["goes-on"] = "the run starts another step after it has seen a stop request"
            return [(False,) + s[1:]]
        return [s]
    fl = CFlow(cstep, citer=citer, catom=catom)
    r = fl.run(t, [(False, False, True, False, False)])
    for k in ("fall", "return"):
        for sto, stp, chk, seen, rol in r.get(k, ()):
            if not seen and not rol:
                bad["lost"] = "after a run that ended by itself the stored state is not replaced: its last step is lost"
    if not nstep[0]:
        bad["unstored"] = "no step is made"
    for k in ("unstored", "write", "rollback", "goes-on", "lost", "store"):
        rep.ob("run", k, k not in bad, bad.get(k, ""), loc)
    rep.ob("run", "writes", nwrite[0] > 0, "outputs are never written", loc)

    # rollback is only released by run()
    extra = []
    for mod in m.prog.modules.values():
        for fn in mod_funcs(mod):
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Attribute) and x.attr == "rollback" and isinstance(x.ctx, ast.Store) and not (fn.cls is not None and fn.cls.is_sub("Simulation") if fn.cls is not None and hasattr(fn.cls, "is_sub") else False):
                    extra.append(fn.loc(x))
    # ---- end of the run on request of a motion
    rep.rule("finish", "a motion that has finished ends the run with its status and message", 4)
    bad = {}

    def cstep(ev, s):
        if ev.kind == "write" and ev.path in (("self", "finished"), ("self", "exit_status"), ("self", "exit_message")):
            if ev.path[1] == "finished":
                if consts(ev.val) != {True}:
                    bad["value"] = "finished gets another value than True"
            elif not any(a[0] == "obj" and a[1][-1] == ev.path[1] for a in ev.val):
                bad["value"] = "%s is not taken from the motion" % ev.path[1]
            return [(s[0], s[1] | {ev.path[1]}, s[2])]
        if ev.kind == "call" and callee(ev).endswith(".motion.step"):
            if s[0] == "fin" and s[1] != {"finished", "exit_status", "exit_message"}:
                bad["lost"] = "a finished motion does not end the run with its status and message"
            return [("stepped", frozenset(), s[2])]
        return [s]

    def catom(e, fn, s):
        if is_flag(e, "triggered"):
            return [], [s]
        if is_flag(e, "finished"):
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                if "finished" in s[1] or s[2] == "left":
                    return [(s[0], s[1], "left")], []
                return [(s[0], s[1], "left")], [s]
            return [("fin", s[1], s[2])], [("checked", s[1], s[2])]
        return None

    def citer(n, s):
        if n is main_loop:
            if s[0] == "stepped":
                bad["unchecked"] = "the run goes on without asking whether the motion has finished"
            if s[0] == "fin" or "finished" in s[1]:
                bad["goes-on"] = "the run makes another step after a motion has finished"
            if s[2] == "left":
                bad["goes-on"] = "the run makes another step although it is finished"
            return [("start", frozenset(), None)]
        return [s]
    def cexit(n, s):
        # the loop that collects what was started in threads
        if n is not main_loop and s[0] == "stepped" and not makes_steps(n) and any(
                isinstance(x, Branch) and getattr(x.node, "test", None) is not None and any(is_flag(y, "finished") for y in ast.walk(x.node.test)) for x in walk(n)):
            return [("checked",) + s[1:]]
        return [s]
    fl = CFlow(cstep, citer=citer, catom=catom)
    fl.cexit = cexit
    r = fl.run(t, [("start", frozenset(), None)])
    for k in ("fall", "return"):
        for s in r.get(k, ()):
            if s[0] == "fin" and s[1] != {"finished", "exit_status", "exit_message"}:
                bad["lost"] = "a finished motion does not end the run with its status and message"
    for k in ("value", "lost", "unchecked", "goes-on"):
        rep.ob("finish", "run:" + k, k not in bad, bad.get(k, ""), loc)

    # ---- softexit of the simulation
    rep.rule("restart", "the restart file written on exit holds the stored state of the last complete step, or after the end of the run the final state, with the matching step", 4)
    t = tree(m, c, sx, mods)
    bad = {}

    def cstep(ev, s):
        rb, inc, sto, wr = s
        if ev.kind == "write" and ev.path == ("self", "step"):
            if rb is not False:
                bad["step"] = "the step is changed before the stored state is written (a re-stored state gets the wrong step)"
            if sto:
                bad["step-late"] = "the step is advanced after the state was stored"
            if inc:
                bad["step"] = "the step is advanced twice"
            inc = True
        elif ev.kind == "call":
            w = ev.label or ""
            if w.endswith("chk.store"):
                if rb is not False:
                    bad["store"] = "the state in the middle of a step replaces the stored state"
                if inc is None:
                    bad["step-late"] = "the final state is stored without advancing the step"
                sto = True
            elif w.endswith("chk.write"):
                a = ev.node
                v = a.args[0] if a.args else next((k.value for k in a.keywords if k.arg == "store"), None)
                if not (isinstance(v, ast.Constant) and v.value is False):
                    bad["write"] = "writing the restart file on exit stores the current state again"
                if rb is False and not sto:
                    bad["final"] = "the final state is not stored before the restart file is written"
                wr = True
        return [(rb, inc, sto, wr)]

    def catom(e, fn, s):
        rb, inc, sto, wr = s
        if is_flag(e, "rollback"):
            if rb is not None:
                return ([s], []) if rb else ([], [s])
            return [(True,) + s[1:]], [(False,) + s[1:]]
        if any(is_flag(x, "tsteps") for x in ast.walk(e)) and isinstance(e, ast.Compare):
            # already past the last step: nothing to advance
            lt = isinstance(e.ops[0], (ast.Lt, ast.NotEq)) and is_flag(e.left, "step") or isinstance(e.ops[0], (ast.Gt, ast.NotEq)) and is_flag(e.left, "tsteps")
            sk = (rb, False, sto, wr)
            return ([s], [sk]) if lt else ([sk], [s])
        return None
    r = CFlow(cstep, catom=catom).run(t, [(None, None, False, False)])
    for k, sts in r.items():
        for s in sts:
            if not s[3]:
                bad["missing"] = "there is a path on which no restart file is written"
    for k in ("step", "step-late", "store", "write", "final", "missing"):
        rep.ob("restart", "softexit:" + k, k not in bad, bad.get(k, ""), sx.loc(sx.node))

    # ---- checkpoint object
    cc, st, wr = need(m, "CheckpointOutput", "store", "write")
    t = tree(m, cc, st, {cc.module.name})
    bad = {}

    def cstep(ev, s):
        if ev.kind == "write" and ev.path == ("self", "_storing"):
            return [("on" if consts(ev.val) == {True} else "off", s[1])]
        if ev.kind == "call" and (ev.label or "").endswith("status.store"):
            if s[0] != "on":
                bad["mark"] = "the state is stored without marking it as incomplete meanwhile"
            return [(s[0], True)]
        return [s]
    r = CFlow(cstep).run(t, [("off", False)])
    for k in ("fall", "return"):
        for s in r.get(k, ()):
            if s[0] == "on":
                bad["unmark"] = "after storing, the state stays marked as incomplete"
            if not s[1]:
                bad["nostore"] = "there is a path on which nothing is stored"
    rep.ob("restart", "store", not bad, "; ".join(bad.values()), st.loc(st.node))
    t = tree(m, cc, wr, {cc.module.name})
    bad = {}
    # (storing seen, store arg, stored n, step label set, count advanced, file written)
    def cstep(ev, s):
        inc, arg, sto, lab, cnt, fil = s
        if ev.kind == "call":
            w = ev.label or ""
            if w.endswith("status.store"):
                sto, lab = True, False
                if arg is None and inc is not True:
                    bad["early"] = "the state is stored although the caller may have asked for the stored one"
                if arg is False and inc is not True:
                    bad["replaced"] = "the stored state is replaced although the caller asked for it"
            elif w.endswith("status.step.store"):
                a = ev.node.args[0] if isinstance(ev.node, ast.Call) and ev.node.args else None
                okv = isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) and {type(a.left), type(a.right)} == {ast.Attribute, ast.Constant} and 1 in (getattr(a.left, "value", None), getattr(a.right, "value", None)) \
                    and any(is_flag(x, "step") and ast.unparse(x.value).endswith("simul") for x in (a.left, a.right))
                if arg is False:
                    bad["label"] = "the step of the stored state is changed"
                if not okv and not (isinstance(a, ast.Name)):
                    bad["label"] = "the checkpoint gets the step %s instead of that of the next step to make" % (ast.unparse(a) if a is not None else "?")
                lab = True
            elif w.endswith("status.write"):
                if inc is True and not sto:
                    bad["incomplete"] = "a state that was being stored is written without storing it again"
                if arg is True and not (sto and lab):
                    bad["stale"] = "a checkpoint is written without storing the current state and the step to continue with"
                fil = True
        if ev.kind == "write" and ev.path == ("self", "step"):
            if sto and arg is True and inc is not True:
                bad["count"] = "the checkpoint counter is advanced after it was stored"
            cnt = True
        return [(inc, arg, sto, lab, cnt, fil)]

    def catom(e, fn, s):
        inc, arg, sto, lab, cnt, fil = s
        if is_flag(e, "_storing"):
            if inc is None:
                return [(True,) + s[1:]], [(False,) + s[1:]]
            return None
        if isinstance(e, ast.Name) and e.id == "store" and fn.node is wr.node:
            if arg is not None:
                return ([s], []) if arg else ([], [s])
            return [(inc, True) + s[2:]], [(inc, False) + s[2:]]
        return None
    r = CFlow(cstep, catom=catom).run(t, [(None, None, False, False, False, False)])
    if not any(s[5] for k in ("fall", "return") for s in r.get(k, ())):
        bad["nofile"] = "the checkpoint is never written"
    for k in ("early", "replaced", "label", "incomplete", "stale", "count", "nofile"):
        rep.ob("restart", "write:" + k, k not in bad, bad.get(k, ""), wr.loc(wr.node))


# ---------------------------------------------------------------- outputs
def outputs(rep, m):
    rep.rule("outputs", "after a stop request no output file is written to (the streams are closed)", 2)
    base = m.prog.cls("BaseOutput")
    for c in sorted(m.prog.subclasses(base), key=lambda k: k.name):
        f = c.find("write")
        if f is None or f.cls is base or c is base:
            continue
        t = tree(m, c, f, {c.module.name}, depth=4)
        bad, n = {}, [0]

        def cstep(ev, s):
            if ev.kind == "call":
                w = ev.label or ""
                if w.endswith((".write", "print_file", "force_flush", ".flush", "fsync")) and not w.startswith("self.write"):
                    n[0] += 1
                    if s is not False:
                        bad["w"] = "the file is written without looking for a stop request first: its stream may be closed"
            return [s]

        def catom(e, fn, s):
            if is_flag(e, "triggered"):
                return [True], [False]
            return None
        CFlow(cstep, catom=catom).run(t, [None])
        rep.ob("outputs", c.name, not bad and n[0] > 0, bad.get("w", "nothing is written"), f.loc(f.node))


# ---------------------------------------------------------------- registration
def registration(rep, m):
    rep.rule("registered", "everything that has to be dealt with on exit is registered on every path of its set-up", 8)
    todo = []
    ff = m.prog.cls("ForceField")
    for c in m.prog.subclasses(ff):
        todo.append((c, "start"))
    for c in m.prog.subclasses(m.prog.cls("BaseOutput")):
        todo.append((c, "bind"))
    todo.append((m.prog.cls("Simulation"), "bind"))
    for c, n in sorted(todo, key=lambda x: x[0].name):
        f = c.find(n)
        if f is None or c.find("softexit") is None:
            rep.ob("registered", c.name, False, "no %s/softexit" % n, c.name)
            continue
        t = tree(m, c, f, {c.module.name, f.module.name}, depth=5)
        bad = {}
        isim = n == "bind" and c.name == "Simulation"

        def cstep(ev, s):
            if ev.kind == "call" and isinstance(ev.node, ast.Call):
                w = ev.label or ""
                if w.endswith("register_function") or ev.kind == "call" and w.endswith("flist.append"):
                    a = ev.node.args[0] if ev.node.args else None
                    if target(ev.args[0] if ev.args else (), a) == "self.softexit":
                        if isim and "chk" not in s:
                            bad["early"] = "registered before the object that writes the restart file exists"
                        return [s | {"reg"}]
                if isim and (w.endswith("softexit.start") or (isinstance(ev.node.func, ast.Attribute) and ev.node.func.attr == "start" and singleton(None, ev.node.func.value))):
                    return [s | {"start"}]
                if w.endswith("chk.bind") or w.endswith(".bind") and "CheckpointOutput" in w:
                    return [s | {"chk"}]
                if w.endswith("register_thread"):
                    return [s - {"thr"}]
                if w.endswith("_thread.start"):
                    return [s | {"thr"}]
            return [s]

        def catom(e, fn, s):
            if isim and isinstance(e, ast.Name) and e.id == "read_only":
                return [s | {"ro"}], [s]
            return None
        r = CFlow(cstep, catom=catom).run(t, [frozenset()])
        for k in ("fall", "return"):
            for s in r.get(k, ()):
                if "ro" in s:
                    continue
                if "reg" not in s:
                    bad["reg"] = "there is a path through %s on which its softexit is not registered" % f.qual
                if isim and "start" not in s:
                    bad["start"] = "the monitor of stop requests is not started"
                if "thr" in s:
                    bad["thr"] = "a thread is started but not registered: it is not told to stop"
        rep.ob("registered", c.name, not bad, "; ".join(sorted(bad.values())), f.loc(f.node))
    # force fields that hold others start them all
    for c in sorted(m.prog.subclasses(ff), key=lambda k: k.name):
        init = c.find("__init__")
        if init is None:
            continue
        held = [x for x in ("fflist", "ff") if any(isinstance(y, ast.Attribute) and y.attr == x and isinstance(y.ctx, ast.Store) for y in ast.walk(init.node))]
        if not held or not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "queue" and (ast.unparse(y.func.value) == "self." + held[0] or isinstance(y.func.value, ast.Name))
                               for k in c.methods.values() for y in ast.walk(k.node)):
            continue
        f = c.find("start")
        t = tree(m, c, f, {c.module.name}, depth=4)
        h = held[0]
        r = CFlow(lambda ev, s: [True] if ev.kind == "call" and (ev.label or "").endswith((h + ".start", h + "[].start")) else [s],
                  ).run(t, [False])
        ok = any(s for k in ("fall", "return") for s in r.get(k, ()))
        if h == "ff":
            ok = all(s for k in ("fall", "return") for s in r.get(k, ()))
        rep.ob("registered", c.name + ".parts", ok, "the force fields it is made of are not started (and not registered)", f.loc(f.node))


# ---------------------------------------------------------------- closing force fields
def closing(rep, m):
    rep.rule("closing", "a force field tells its polling thread to stop and waits for it before it closes the connection the thread uses", 4)
    ff = m.prog.cls("ForceField")
    n = 0
    for c in sorted(m.prog.subclasses(ff), key=lambda k: k.name):
        p, f = c.find("poll"), c.find("softexit")
        if p is None or f is None:
            continue
        used = {x.func.value.attr for x in ast.walk(p.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute)
                and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id == "self"}
        t = tree(m, c, f, {c.module.name, f.module.name}, depth=5)
        bad = {}

        def step(ev, s):
            if ev.kind == "write" and ev.path and ev.path[:2] == ("self", "_doloop"):
                return [s | {"off"}]
            if ev.kind == "call" and isinstance(ev.node, ast.Call) and isinstance(ev.node.func, ast.Attribute):
                a = ev.node.func
                if a.attr == "join" and not isinstance(a.value, ast.Constant) and len(ev.node.args) == 0:
                    if "off" not in s:
                        bad["wait"] = "it waits for the polling thread before telling it to stop: the exit hangs"
                    return [s | {"join"}]
                if a.attr == "close" and isinstance(a.value, ast.Attribute) and a.value.attr in used and "join" not in s:
                    bad["close"] = "the connection is closed while the polling thread may still be using it"
                    return [s]
            return [s]

        def at(e, fn, s):
            al = {y.id for x in ast.walk(fn.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and x.value.attr == "_thread" for y in x.targets if isinstance(y, ast.Name)} if fn is not None else set()
            if isinstance(e, ast.Name) and e.id in al:
                return [s], [s | {"join"}]
            if isinstance(e, ast.Compare) and any(isinstance(x, ast.Attribute) and x.attr == "_thread" or isinstance(x, ast.Name) and x.id in al for x in ast.walk(e)) and any(isinstance(x, ast.Constant) and x.value is None for x in ast.walk(e)):
                none = s | {"join"}
                return ([none], [s]) if isinstance(e.ops[0], (ast.Is, ast.Eq)) else ([s], [none])
            if isinstance(e, ast.Attribute) and e.attr == "_thread":
                return [s], [s | {"join"}]
            if isinstance(e, ast.Attribute) and e.attr == "threaded" or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "is_alive":
                return [s], [s | {"join"}]
            return None
        CFlow(step, catom=at).run(t, [frozenset()])
        n += 1
        rep.ob("closing", c.name, not bad, "; ".join(sorted(bad.values())), f.loc(f.node))


# ---------------------------------------------------------------- motions
def motions(rep, m):
    c, fin = need(m, "Motion", "finish")
    for k in sorted([x for x in m.prog.all_classes() if "finish" in x.methods and x.module.name.startswith("ipi.engine.motion")], key=lambda k: k.name):
        f = k.methods["finish"]
        t = tree(m, k, f, {k.module.name})
        bad = {}
        want = {"finished": None, "exit_status": "status", "exit_message": "message"}

        def cstep(ev, s):
            if ev.kind == "write" and ev.path and len(ev.path) == 2 and ev.path[1] in want:
                w = want[ev.path[1]]
                v = getattr(ev.node, "value", None)
                if w is None and consts(ev.val) != {True}:
                    bad["v"] = "finished is not set to True"
                return [s | {ev.path[1]}]
            if ev.kind == "call" and (ev.label or "").endswith("finish"):
                return [frozenset(want)]
            return [s]
        r = CFlow(cstep).run(t, [frozenset()])
        for kk in ("fall", "return"):
            for s in r.get(kk, ()):
                if s != set(want):
                    bad["m"] = "not all of finished, exit_status, exit_message are set"
        rep.ob("finish", k.name + ".finish", not bad, "; ".join(bad.values()), f.loc(f.node))
    c, step = need(m, "MultiMotion", "step")
    t = tree(m, c, step, {c.module.name})
    bad = {}

    def cstep(ev, s):
        if ev.kind == "call":
            w = ev.label or ""
            if w.endswith(".step"):
                if s == "stepped":
                    bad["unchecked"] = "the next motion is run without asking whether this one has finished"
                if s == "fin":
                    bad["lost"] = "a finished part does not finish the combined motion"
                return ["stepped"]
            if w.endswith("self.finish") and s == "fin":
                return ["done"]
        if ev.kind == "write" and ev.path == ("self", "finished") and s == "fin":
            return ["done"]
        return [s]

    def catom(e, fn, s):
        if is_flag(e, "finished") and not (isinstance(e.value, ast.Name) and e.value.id == "self"):
            return ["fin"], ["ok"]
        return None
    r = CFlow(cstep, catom=catom).run(t, ["ok"])
    for k in ("fall", "return"):
        for s in r.get(k, ()):
            if s == "stepped":
                bad["unchecked"] = "a part's end is not looked at"
            if s == "fin":
                bad["lost"] = "a finished part does not finish the combined motion"
    rep.ob("finish", "MultiMotion.step", not bad, "; ".join(bad.values()), step.loc(step.node))


# ---------------------------------------------------------------- the executable
def executable(rep, m):
    rep.rule("end", "after the run i-pi requests the exit with the run's status and does not end before the clean-up is over", 1)
    for s in scripts(m):
        seq = []
        for x in ast.walk(s.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr == "run" and not x.args:
                    seq.append((x.lineno, x.col_offset, "run", x))
                elif x.func.attr in ("trigger",) and singleton(None, x.func.value):
                    seq.append((x.lineno, x.col_offset, "trigger", x))
                elif x.func.attr.startswith("wait") and singleton(None, x.func.value):
                    g = m.prog.cls("Softexit").find(x.func.attr)
                    if g is not None and any(isinstance(y, ast.While) and any(is_flag(z, "exiting") for z in ast.walk(y.test)) for y in ast.walk(g.node)):
                        seq.append((x.lineno, x.col_offset, "wait", x))
            elif isinstance(x, ast.While) and any(is_flag(y, "exiting") for y in ast.walk(x.test)):
                seq.append((x.lineno, x.col_offset, "wait", x))
        seq.sort(key=lambda q: q[:2])
        kinds = [q[2] for q in seq]
        if "run" not in kinds:
            continue
        i = kinds.index("run")
        after = kinds[i + 1:]
        rep.ob("end", s.qual, "trigger" in after, "the exit is not requested after the run: no restart file", s.loc())
        ok = "wait" in after and after.index("wait") > after.index("trigger") if "trigger" in after and "wait" in after else False
        if not ok:
            # the request itself may wait for a clean-up that is going on
            c, trig = need(m, "Softexit", "trigger")
            t = tree(m, c, trig, {c.module.name})
            ok = any(isinstance(n, Loop) and isinstance(n.node, ast.While) and any(is_flag(z, "exiting") for z in ast.walk(n.node.test)) for n in walk(t))
        rep.ob("end", s.qual + ":wait", ok, "i-pi may end while another thread is still writing the restart file", s.loc())


def check(tier):
    m = model()
    rep = Report(PID, tier, "typestate analysis of the exit protocol over interprocedural effect trees", "ipi/utils/softexit.py, ipi/engine/{simulation,outputs,forces,forcefields}.py, ipi/engine/motion, bin/i-pi")
    rep.part("statuses", statuses, rep, m)
    rep.part("exit_routine", exit_routine, rep, m)
    rep.part("waits", waits, rep, m)
    rep.part("mainloop", mainloop, rep, m)
    rep.part("outputs", outputs, rep, m)
    rep.part("registration", registration, rep, m)
    rep.part("closing", closing, rep, m)
    rep.part("motions", motions, rep, m)
    rep.part("executable", executable, rep, m)
    return rep.finish()


if __name__ == "__main__":
    main(check, PID)
