"""C13: data received from a socket in pieces, late, or not at all is handled in every receive loop."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.interp import events, walk, Branch, Ev, Seq, Loop, Inline, Try, With
from vlib.flow import CFlow

PID = "C13"
SERVER, DRIVER = "ipi.interfaces.sockets", "drivers.py.driver"
RECV = ("recv", "recv_into")
KINDS = frozenset(("timeout", "OSError", "Disconnected"))


def raw_recv(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in RECV


def functions(m):
    for mn in (SERVER, DRIVER):
        mod = m.prog.modules[mn]
        for f in mod.functions.values():
            yield mn, None, f
        for c in mod.classes.values():
            for f in c.methods.values():
                yield mn, c, f


# ---------------------------------------------------------------- linear forms of byte counts
def lin(e, f, depth=0):
    """{term: coefficient} with () the constant term, or None; single-assignment locals are expanded."""
    if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
        return {(): e.value} if e.value else {}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = lin(e.left, f, depth), lin(e.right, f, depth)
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if isinstance(e.op, ast.Add) else -v)
            if out[k] == 0:
                del out[k]
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        a, b = lin(e.left, f, depth), lin(e.right, f, depth)
        if a is not None and b is not None:
            for x, y in ((a, b), (b, a)):
                if set(x) <= {()}:
                    return {k: v * x.get((), 0) for k, v in y.items() if v * x.get((), 0)}
            if len(a) == 1 and len(b) == 1:
                (ka, va), (kb, vb) = next(iter(a.items())), next(iter(b.items()))
                return {tuple(sorted(ka + kb)): va * vb}
    if isinstance(e, ast.Name) and depth < 5:
        ds = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
        aug = any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == e.id for x in ast.walk(f.node))
        if len(ds) == 1 and not aug and isinstance(ds[0], (ast.BinOp, ast.Name, ast.Constant)):
            r = lin(ds[0], f, depth + 1)
            if r is not None:
                return r
        return {(e.id,): 1}
    return {(ast.unparse(e),): 1}


def sub(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
        if out[k] == 0:
            del out[k]
    return out


def remaining(loop, f):
    """linear form of the number of bytes that the loop still has to read, from its test; (form, total) or None"""
    t = loop.test
    if isinstance(t, ast.Compare):
        l = ([t.left] + t.comparators)[-2]
        r, op = t.comparators[-1], t.ops[-1]
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, r = r, l
        if isinstance(op, (ast.Lt, ast.Gt, ast.NotEq)):
            a, b = lin(l, f), lin(r, f)
            if a is not None and b is not None:
                return sub(b, a), b
    return None


# ---------------------------------------------------------------- intraprocedural rules
def check_function(rep, m, mn, c, f):
    where = f.qual
    sites = [x for x in ast.walk(f.node) if raw_recv(x)]
    loops = [x for x in ast.walk(f.node) if isinstance(x, ast.While) and any(raw_recv(y) for y in ast.walk(x))]
    inner = [x for x in loops if not any(y is not x and y in list(ast.walk(x)) for y in loops)]
    inloop = {id(y) for x in inner for y in ast.walk(x) if raw_recv(y)}
    for i, s in enumerate(sites):
        ok = id(s) in inloop
        if not ok:
            # completed by a later loop that starts from what was read here
            tg = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(y is s for y in ast.walk(x.value)) for t in x.targets if isinstance(t, ast.Name)}
            ok = any(l.lineno > s.lineno and tg & {y.id for y in ast.walk(l.test) if isinstance(y, ast.Name)} for l in inner)
        rep.ob("complete", "%s#%d" % (where, i), ok, "a single read is taken for the whole message: the rest of a message that arrives in pieces is lost", f.loc(s))
    if not loops:
        return
    # what the loops ask for
    for i, l in enumerate(sorted(inner, key=lambda x: x.lineno)):
        rem = remaining(l, f)
        for s in [y for y in ast.walk(l) if raw_recv(y)]:
            n = s.args[1] if s.func.attr == "recv_into" and len(s.args) > 1 else s.args[0] if s.func.attr == "recv" and s.args else None
            if rem is None:
                continue
            if n is None and not (s.func.attr == "recv_into" and s.args and bounded(s.args[0], rem[1], f)):
                rep.ob("amount", "%s@%d:count" % (where, i), False, "the amount of data to receive is not limited to what is missing: the next message may be read too", f.loc(s))
            elif n is not None:
                rep.ob("amount", "%s@%d:count" % (where, i), lin(n, f) == rem[0], "the loop does not ask for exactly what is missing of the message: it reads into the next message or never ends", f.loc(s))
            if s.func.attr == "recv_into":
                a = s.args[0]
                if isinstance(a, ast.Name):
                    ds = [x.value for x in ast.walk(l) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in x.targets)]
                    if len(ds) == 1:
                        if isinstance(ds[0], ast.Subscript) and ast.unparse(ds[0].value) == a.id:
                            continue          # the view is shortened from the front
                        a = ds[0]
                if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice):
                    lo = lin(a.slice.lower, f) if a.slice.lower is not None else {}
                    pos = sub(rem[1], rem[0])
                    rep.ob("amount", "%s@%d:position" % (where, i), lo == pos, "received data are not stored behind the data already received", f.loc(s))
                    if a.slice.upper is not None:
                        rep.ob("amount", "%s@%d:end" % (where, i), lin(a.slice.upper, f) == rem[1], "the view into which data are received does not end with the message", f.loc(s))
                    check_capacity(rep, where, i, f, a.value, rem[1], l, s)
                elif isinstance(a, (ast.Name, ast.Attribute)):
                    rep.ob("amount", "%s@%d:position" % (where, i), sub(rem[1], rem[0]) == {}, "received data are not stored behind the data already received", f.loc(s))
    # all paths of the function
    ip = m.interp(maxdepth=1, inline=lambda fn, k, d: False)
    ip.trace_locals = True
    if c is not None:
        ip.roots[("self",)] = c
    t = ip.run(f, c)
    got = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and any(raw_recv(y) for y in ast.walk(x.value)):
            got |= {tt.id for tt in x.targets if isinstance(tt, ast.Name)}
        if isinstance(x, ast.NamedExpr) and any(raw_recv(y) for y in ast.walk(x.value)) and isinstance(x.target, ast.Name):
            got.add(x.target.id)
    acc = {l.test: l for l in inner}
    counters = {x.target.id for x in ast.walk(f.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, ast.Add)
                and isinstance(x.value, ast.Constant)}
    counters |= {tt.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add)
                 and isinstance(x.value.right, ast.Constant) for tt in x.targets if isinstance(tt, ast.Name)}
    augs = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name) and isinstance(x.value, ast.BinOp)
            and t.id in {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}}
    augs |= {x.target.id for x in ast.walk(f.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    bad = {}
    nrecv = [0]
    # state: (fresh, tmo): fresh in 0 none, 1 received unchecked, 2 end of stream, 3 checked;  tmo 0 none, 1 timed out, 2 counted, 3 over the limit
    def step(e, s):
        fresh, tmo, adv, cur = s
        if e.kind == "call" and raw_recv(e.node):
            nrecv[0] += 1
            return [(1, 0, 0, "")]
        if e.kind == "local" and e.node is not None and any(raw_recv(y) for y in ast.walk(e.node)):
            return [(fresh, tmo, 1 if e.label in augs else adv, e.label)]
        if e.kind == "local" and e.label in counters and tmo == 1:
            return [(fresh, 2, adv, cur)]
        if e.kind == "local" and e.node is None or e.kind in ("local", "write", "mut", "call"):
            n = e.node
            # bpos += bpart, msg = msg + part, view = view[n:] ...
            if e.kind == "local" and e.node is None and e.label in augs and e.label not in counters:
                return [(fresh, tmo, 1, cur)]
            if e.kind == "local" and n is not None and (any(isinstance(y, ast.Name) and y.id in got for y in ast.walk(n))) and e.label not in counters and e.label in {y.id for y in ast.walk(n) if isinstance(y, ast.Name)}:
                return [(fresh, tmo, 1, cur)]
            if e.kind == "call" and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") and any(
                    isinstance(y, ast.Name) and y.id in got for y in ast.walk(n)):
                return [(fresh, tmo, 1, cur)]
        return [s]

    def zero_test(test, cur):
        """+1: true means nothing was received, -1: the opposite"""
        def g(x):
            return isinstance(x, ast.Name) and x.id == cur or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" \
                and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == cur
        if g(test):
            return -1
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r, op = test.left, test.comparators[0], test.ops[0]
            if g(r) and not g(l):
                l, r = r, l
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
            if g(l) and isinstance(r, ast.Constant):
                if r.value in (0, b"", ""):
                    if isinstance(op, (ast.Eq, ast.LtE)):
                        return 1
                    if isinstance(op, (ast.NotEq, ast.Gt)):
                        return -1
                if r.value == 1 and isinstance(op, ast.Lt):
                    return 1
                if r.value == 1 and isinstance(op, ast.GtE):
                    return -1
        return 0

    def at(test, fn, s):
        z = zero_test(test, s[3])
        if z and s[0] == 1:
            y, n = [(2,) + s[1:]], [(3,) + s[1:]]
            return (y, n) if z > 0 else (n, y)
        if z and s[0] == 2:
            return ([s], []) if z > 0 else ([], [s])
        if z and s[0] == 3:
            return ([], [s]) if z > 0 else ([s], [])
        if s[1] == 2 and isinstance(test, ast.Compare) and any(isinstance(y, ast.Name) and y.id in counters for y in ast.walk(test)):
            op = test.ops[0]
            left = any(isinstance(y, ast.Name) and y.id in counters for y in ast.walk(test.left))
            over = isinstance(op, (ast.Gt, ast.GtE)) == left
            o, u = [(s[0], 3) + s[2:]], [(s[0], 4) + s[2:]]
            return (o, u) if over else (u, o)
        return None

    def it(loop, s):
        fresh, tmo, adv, cur = s
        if not any(isinstance(x, Ev) and x.kind == "call" and raw_recv(x.node) for x in walk(loop.body)):
            return [s]
        if loop.node not in inner:
            return [s]
        ev = Ev("x", loop.node, loop.fn, loop.stack)
        if tmo == 0:
            if fresh == 1:
                bad.setdefault("eof", (ev, "the end of the stream is not noticed: when the other side is gone the loop never ends"))
            if fresh == 2:
                bad.setdefault("eof", (ev, "the loop goes on although the other side closed the connection"))
            if fresh in (1, 3) and not adv and nrecv[0]:
                bad.setdefault("advance", (ev, "received data are not added to the data already received"))
        elif mn == SERVER:
            if tmo == 1:
                bad.setdefault("count", (ev, "timeouts are not counted: a client that stops in the middle of a message blocks the server for ever"))
            if tmo == 3:
                bad.setdefault("limit", (ev, "the limit on the number of timeouts does not end the wait"))
            if tmo == 2:
                bad.setdefault("limit", (ev, "the number of timeouts is not compared to a limit"))
        return [(0, 0, 0, "")]

    fl = CFlow(step, citer=it, catom=at)

    def handler(n, lab, s):
        if any(isinstance(x, Ev) and x.kind == "call" and raw_recv(x.node) for x in walk(n.body)):
            k = caught(lab)
            return [(0, 1, s[2], "")] if "timeout" in k else [(0, 5, s[2], "")]
        return [s]
    fl.chandler = handler
    fl.run(t, [(0, 0, 0, "")])
    for l in inner:
        hs = [h for x in ast.walk(l) if isinstance(x, ast.Try) and any(raw_recv(y) for b in x.body for y in ast.walk(b)) for h in x.handlers]
        ok = any("timeout" in caught(ast.unparse(h.type) if h.type is not None else None) for h in hs)
        if mn == SERVER or hs:
            rep.ob("timeouts", "%s:handled" % where, ok, "a timeout in the middle of a message is not handled: the rest of the message is taken for the next one", f.loc(l))
    for k, rule in (("eof", "end-of-stream"), ("advance", "amount"), ("count", "timeouts"), ("limit", "timeouts")):
        if rule == "timeouts" and mn != SERVER:
            continue
        b = bad.get(k)
        rep.ob(rule, "%s:%s" % (where, k), b is None, b[1] if b else "", b[0].loc() if b else f.loc(f.node))


def bounded(a, total, f):
    """the view a ends where the message ends"""
    if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice):
        if a.slice.upper is not None:
            return lin(a.slice.upper, f) == total
        b = a.value
        ds = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(ast.unparse(t) == ast.unparse(b) for t in x.targets)]
        return isinstance(b, ast.Name) and len(ds) == 1 and isinstance(ds[0], ast.Call) and bool(ds[0].args) and lin(ds[0].args[0], f) == total
    return False


def check_capacity(rep, where, i, f, base, total, loop, site):
    """the buffer holds the whole message"""
    names = set()
    if isinstance(base, ast.Name):
        names.add(base.id)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == base.id for t in x.targets):
                for y in ast.walk(x.value):
                    if isinstance(y, ast.Attribute):
                        names.add(ast.unparse(y))
    else:
        names.add(ast.unparse(base))
    ok = False
    stale = None
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and any(ast.unparse(t) in names for t in x.targets) and isinstance(x.value, ast.Call) and x.value.args:
            if lin(x.value.args[0], f) == total:
                ok = True
                # a view made before the buffer was replaced
    par = {}
    for x in ast.walk(f.node):
        for y in ast.iter_child_nodes(x):
            par[y] = x
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and any(ast.unparse(t) in names for t in x.targets) and isinstance(x.value, ast.Call) and x.value.args and lin(x.value.args[0], f) == total:
            p = par.get(x)
            if isinstance(p, ast.If):
                t = p.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1:
                    a, b, op = lin(t.left, f), lin(t.comparators[0], f), t.ops[0]
                    ln = [n for n in names if ("len(%s)" % n) in ast.unparse(t) or ("%s.size" % n) in ast.unparse(t) or ("%s.nbytes" % n) in ast.unparse(t)]
                    if ln:
                        left_total = a == total
                        good = left_total and isinstance(op, (ast.Gt, ast.GtE, ast.NotEq)) or b == total and isinstance(op, (ast.Lt, ast.LtE, ast.NotEq))
                        rep.ob("amount", "%s@%d:grow" % (where, i), good, "the receive buffer is not enlarged when the message is longer", f.loc(t))
            # views created from the old buffer
            if isinstance(base, ast.Name):
                vs = [y.lineno for y in ast.walk(f.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == base.id for t in y.targets) and y.lineno < loop.lineno]
                direct = any(isinstance(t, ast.Name) and t.id == base.id for t in x.targets)
                if vs and not direct:
                    stale = stale or max(vs) < x.lineno
    rep.ob("amount", "%s@%d:capacity" % (where, i), ok, "nothing ensures that the receive buffer is as long as the message", f.loc(site))
    rep.ob("amount", "%s@%d:view" % (where, i), not stale, "data are received into a view of the buffer that was replaced", f.loc(site))


# ---------------------------------------------------------------- which failures reach the polling thread
def caught(lab):
    if lab is None:
        return KINDS | {"other"}
    e = ast.parse(lab, mode="eval").body
    es = e.elts if isinstance(e, ast.Tuple) else [e]
    out = frozenset()
    for x in es:
        n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else ""
        if n in ("timeout", "TimeoutError"):
            out |= {"timeout"}
        elif n in ("error", "OSError", "IOError", "EnvironmentError"):
            out |= {"timeout", "OSError"}
        elif n == "Disconnected":
            out |= {"Disconnected"}
        elif n in ("Exception", "BaseException"):
            out |= KINDS | {"other"}
        elif n in ("ConnectionError", "ConnectionResetError", "BrokenPipeError"):
            pass          # only part of the OSErrors
    return out


def escapes(n, cur=frozenset()):
    """{kind: event} of the communication failures that may leave the tree"""
    out = {}

    def add(d):
        for k, v in d.items():
            out.setdefault(k, v)
    if n is None:
        return out
    if isinstance(n, Seq):
        for x in n.items:
            add(escapes(x, cur))
        return out
    if isinstance(n, Ev):
        if n.kind == "call" and isinstance(n.node, ast.Call) and isinstance(n.node.func, ast.Attribute):
            a = n.node.func.attr
            if a in RECV + ("sendall", "send"):
                return {"timeout": n, "OSError": n}
        if n.kind == "raise":
            x = n.node.exc if isinstance(n.node, ast.Raise) else None
            if x is None:
                return {k: n for k in cur}
            nm = x.func if isinstance(x, ast.Call) else x
            nm = nm.attr if isinstance(nm, ast.Attribute) else nm.id if isinstance(nm, ast.Name) else ""
            if nm == "Disconnected":
                return {"Disconnected": n}
            if isinstance(x, ast.Name) and x.id[:1].islower():
                return {k: n for k in cur}
        return out
    if isinstance(n, Branch):
        add(escapes(n.test, cur)), add(escapes(n.a, cur)), add(escapes(n.b, cur))
        return out
    if isinstance(n, Loop):
        add(escapes(n.head, cur)), add(escapes(n.body, cur)), add(escapes(n.orelse, cur))
        return out
    if isinstance(n, Try):
        b = escapes(n.body, cur)
        left = dict(b)
        for lab, h in n.handlers:
            k = caught(lab) & set(left)
            hcur = frozenset(k)
            if k:
                add(escapes(h, hcur))
            for x in k:
                left.pop(x)
        add(left)
        add(escapes(n.orelse, cur)), add(escapes(n.final, cur))
        return out
    if isinstance(n, Inline):
        return escapes(n.body, cur)
    if isinstance(n, With):
        for c in n.ctx:
            add(escapes(c, cur))
        add(escapes(n.body, cur))
        return out
    return out


def check_escapes(rep, m):
    isock = m.prog.cls("InterfaceSocket")
    used = set()
    for f in isock.methods.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                used.add(x.func.attr)
            elif isinstance(x, ast.Attribute):
                used.add(x.attr)
    n = 0
    for cn in ("Driver", "SHMDriver"):
        c = m.prog.cls(cn)
        for name in sorted(used):
            if not (name.startswith("dispatch_") or name == "get_status"):
                continue
            f = c.find(name)
            if f is None or f.cls is isock:
                continue
            ip = m.interp(maxdepth=7, inline=lambda fn, k, d: not fn.module.name.startswith("ipi.utils"))
            ip.roots[("self",)] = c
            es = escapes(ip.run(f, c))
            n += 1
            for k in sorted(KINDS):
                e = es.get(k)
                rep.ob("contained", "%s.%s:%s" % (cn, name, k), e is None,
                       "a communication failure (%s) leaves %s and ends the thread that serves all clients" % (k, name), e.loc() if e else f.loc(f.node))
    rep.ob("contained", "entry points", n >= 8, "the functions through which the polling thread talks to clients were not found")
    # closing connections that may be dead
    for name, f in sorted(isock.methods.items()):
        if name == "close":
            continue
        par = {}
        for x in ast.walk(f.node):
            for y in ast.iter_child_nodes(x):
                par[y] = x
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "shutdown" and x.args:
                p, ok = x, False
                while p in par:
                    q = par[p]
                    if isinstance(q, ast.Try) and p in q.body and any("OSError" in caught(ast.unparse(h.type) if h.type is not None else None) for h in q.handlers):
                        ok = True
                    p = q
                rep.ob("contained", "InterfaceSocket.%s:shutdown" % name, ok, "closing the connection of a client that died raises an error in the thread that serves all clients", f.loc(x))


def run(tier):
    rep = Report(PID, tier, "typestate analysis of the receive loops and interprocedural exception analysis",
                 "every function of the socket interface and of the Python driver that reads from or writes to a socket, all paths")
    m = model()
    rep.rule("complete", "a message received in pieces is put together", 3)
    rep.rule("amount", "receive loops ask for exactly what is missing, store it behind what is there and advance", 8)
    rep.rule("end-of-stream", "a closed connection ends the receive loop", 2)
    rep.rule("timeouts", "timeouts in the middle of a message are retried, counted and limited", 4)
    rep.rule("contained", "no communication failure of a client reaches the thread that serves all clients", 20)
    rep.rule("send", "messages are sent completely", 4)
    nf = 0
    for mn, c, f in functions(m):
        if any(raw_recv(x) for x in ast.walk(f.node)):
            nf += 1
            rep.part("check_function", check_function, rep, m, mn, c, f)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("send", "sendall"):
                rep.ob("send", f.qual, x.func.attr == "sendall", "send() may transmit only part of the message; the rest is lost", f.loc(x))
    rep.part("check_escapes", check_escapes, rep, m)
    return rep.finish()


if __name__ == "__main__":
    main(run, PID)
