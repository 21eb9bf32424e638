"""C11: i-PI and its clients agree on every message."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.repo import load, AnalysisBroken
from vlib.term import show, mul, add, c, poly, subterms, NONE, TRUE, FALSE, isnum
from vlib.wire import W, msg, pieces, typed, size, bare, plain, nat_of, dtname

PID = "C11"
KEEP = ("send_msg", "recv_msg", "parse_extra", "warning", "info", "get_status", "initialize", "Message", "send_data")
NAT = ("nat",)


def run(tier):
    R = Report(PID, tier, technique="wire traces: the ordered, typed fields sent and received on every path of both sides, compared with the protocol and with each other",
               explanation="Every path of the functions that talk to clients (sockets, shared memory, MPI) and of the client is evaluated to the sequence of "
                           "fields it sends and receives; order, types, counts and roles are compared.")
    prog = load()
    S, D = prog.module("ipi.interfaces.sockets"), prog.module("drivers.py.driver")
    TE_ = lambda **k: W(prog, keep=lambda f: f.name in KEEP, **k)

    def paths(fn, cls=None, args=None):
        return TE_().run(fn, cls, args)

    def events(p):
        """("tx", fields, depth, node) / ("rx", k, dtype, count, depth, node)"""
        out = []
        for l in p.log:
            if l[0] != "call":
                continue
            t = l[1]
            if t[0] == "rx":
                out.append(("rx", t[1], t[2], t[3], len(l[3]), l[2]))
            elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "sendall" and len(t[2]) == 1:
                for f in pieces(t[2][0]):
                    out.append(("tx", f, None, None, len(l[3]), l[2]))
            elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "send_msg" and len(t[2]) == 1 and t[2][0][0] == "c":
                out.append(("tx", ("msg", t[2][0][1].upper()), None, None, len(l[3]), l[2]))
            elif t[0] == "call" and t[1][0] == "fn" and t[1][1].endswith(":send_data") and len(t[2]) == 2:
                for f in pieces(t[2][1]):
                    out.append(("tx", f, None, None, len(l[3]), l[2]))
        return out

    def tx(p):
        return [e[1] for e in events(p) if e[0] == "tx"]

    def fd(f):
        """short text of a field"""
        return f[1] if f[0] == "msg" else f[0] + " " + (show(f[1])[:50] if f[0] != "rep" else "repeated " + str([fd(x) for x in f[2]]))
    drv = prog.cls("Driver")
    shm = prog.cls("SHMDriver") if prog.has_cls("SHMDriver") else None

    # ---- headers
    R.rule("headers", "both sides use the same fixed-length headers", 1)
    cst = lambda m, n: m.assigns[n].value if n in m.assigns and isinstance(m.assigns[n], ast.Constant) else None
    hs, hd = cst(S, "HDRLEN"), cst(D, "HDRLEN")
    if hs is not None and hd is not None:
        R.ob("headers", "HDRLEN", hs == hd == 12, "headers are %s characters in sockets.py and %s in driver.py; the protocol (and the Fortran client) uses 12" % (hs, hd), S.path)
    for m in (S, D):
        f = m.functions.get("Message")
        if f is None:
            continue
        for p in W(prog).run(f, None, {f.node.args.args[0].arg: c("status")}):
            if p.exit != "return":
                continue
            sh = show(p.ret)
            v = p.ret
            want = [c(b"STATUS      ")]
            if v[0] == "c":
                R.ob("headers", m.name + ".Message", v in want, "%s.Message makes %r of 'status'" % (m.name, v[1]), f.loc(f.node))
            else:
                ops = [x[1][2] if x[1][0] == "attr" else x[1][1].split(".")[-1] for x in subterms(v) if x[0] == "call"]
                if "encode" in ops and ("ljust" in ops or "rjust" in ops or "center" in ops):
                    R.ob("headers", m.name + ".Message", "ljust" in ops and ("upper" in ops or "STATUS" in sh) and "lower" not in ops, "%s.Message pads or capitalises headers in another way: %s" % (m.name, sh[:120]), f.loc(f.node))
    table = S.assigns.get("MESSAGE")
    names = None
    if isinstance(table, ast.DictComp) and isinstance(table.generators[0].iter, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in table.generators[0].iter.elts):
        names = {e.value for e in table.generators[0].iter.elts}
        ok = isinstance(table.key, ast.Name) and isinstance(table.value, ast.Call) and [ast.unparse(a) for a in table.value.args] == [table.key.id]
        R.ob("headers", "MESSAGE", ok or not isinstance(table.key, ast.Name), "MESSAGE maps a name to the header of another", "%s:%d" % (S.path, table.lineno))
    elif isinstance(table, ast.Dict) and all(isinstance(k, ast.Constant) for k in table.keys):
        names = {k.value for k in table.keys}
        for k, v in zip(table.keys, table.values):
            a = v.args[0].value if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.Constant) else None
            if a is not None:
                R.ob("headers", "MESSAGE[%s]" % k.value, a.lower() == k.value.lower(), "MESSAGE[%r] is the header of %r" % (k.value, a), "%s:%d" % (S.path, v.lineno))
    if names:
        R.ob("headers", "length", all(len(n) <= 12 for n in names), "a message name is longer than a header", S.path)
        for x in ast.walk(S.tree):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == "MESSAGE" and isinstance(x.slice, ast.Constant):
                R.ob("headers", "MESSAGE[%r]" % x.slice.value, x.slice.value in names, "MESSAGE has no entry %r" % x.slice.value, "%s:%d" % (S.path, x.lineno))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "send_msg" and x.args and isinstance(x.args[0], ast.Constant):
                R.ob("headers", "send_msg(%r)" % x.args[0].value, x.args[0].value in names, "MESSAGE has no entry %r" % x.args[0].value, "%s:%d" % (S.path, x.lineno))

    # ---- status replies
    R.rule("status", "a status reply is taken for what it says, and the client says what it is", 1)
    WANT = {"READY": {"Up", "Ready"}, "NEEDINIT": {"Up", "NeedsInit"}, "HAVEDATA": {"Up", "HasData"}}
    flags = lambda t: {x[2] for x in subterms(t) if x[0] == "attr" and x[1] in (("cls", "Status"), ("glob", S.name, "Status"))} | {x[1].split(".")[-1] for x in subterms(t) if x[0] in ("ext",) and x[1].startswith("Status.")}
    for fn in ("_getstatus_select", "_getstatus_direct"):
        f = drv.find(fn)
        if f is None:
            continue
        for p in paths(f, drv):
            if p.exit != "return" or p.ret is None:
                continue
            eq = [msg(x) for t, b in p.guards if b and t[0] == "cmp" and t[1] == "==" for x in t[2:] if msg(x)]
            for m in eq:
                if m in WANT:
                    got = flags(p.ret)
                    R.ob("status", "%s: %s" % (fn, m), not got or got == WANT[m], "%s takes the reply %s for %s" % (fn, m, sorted(got)), f.loc(f.node))

    # ---- client: one path per header
    f_run = D.functions.get("run_driver")
    if f_run is None:
        raise AnalysisBroken("run_driver has vanished")
    per = {}
    for p in paths(f_run):
        rx = [e for e in events(p) if e[0] == "rx"]
        if not rx:
            continue
        hdr = [msg(x) for t, b in p.guards if b and t[0] == "cmp" and t[1] == "==" for x in t[2:] if msg(x)]
        R.ob("headers", "run_driver: header", rx[0][2] == "u1" and rx[0][3] in (c(12), None), "the client reads %s bytes for a header" % (show(rx[0][3]) if rx[0][3] else "?"), f_run.loc(f_run.node))
        if len(hdr) == 1:
            per.setdefault(hdr[0], []).append(p)
    for h in ("STATUS", "INIT", "POSDATA", "GETFORCE", "EXIT"):
        R.ob("headers", "run_driver: " + h, h in per, "the client does not answer %s" % h, f_run.loc(f_run.node))
    st = lambda p, n: p.env.get(n)

    def guard(p, name):
        for t, b in p.guards:
            if t[0] == "st" and t[1] == name:
                return b
        return None
    for p in per.get("STATUS", []):
        t = [x[1] for x in tx(p) if x[0] == "msg"]
        fi, fdat = guard(p, "f_init"), guard(p, "f_data")
        if fi is None and fdat is None:
            continue
        want = "NEEDINIT" if fi is False else "HAVEDATA" if fdat else "READY" if fdat is False else None
        R.ob("status", "run_driver: STATUS", t == [want] if want and len(t) <= 1 else True, "a client with initialised=%s, data=%s answers STATUS with %s" % (fi, fdat, t), f_run.loc(f_run.node))
    for h, var, val in (("INIT", "f_init", TRUE), ("POSDATA", "f_data", TRUE), ("GETFORCE", "f_data", FALSE)):
        for p in per.get(h, []):
            if p.exit is None and var in p.env and any(guard(q, var) is not None for q in per.get("STATUS", [])):
                R.ob("status", "run_driver: after %s" % h, p.env[var] == val, "after %s the client leaves %s = %s" % (h, var, show(p.env[var])), f_run.loc(f_run.node))

    # ---- INIT
    R.rule("init", "INIT carries the request id, the length of the parameters and the parameters, with the batch size when there is one", 1)
    f = drv.find("initialize")
    for p in paths(f, drv):
        x = tx(p)
        if not x or x[0] != ("msg", "INIT"):
            continue
        kinds = [y[0] for y in x]
        if kinds[1:] and "raw" in kinds:
            continue
        ok = kinds == ["msg", "i4", "i4", "txt"] and x[1][1] == ("arg", "rid") and any(y == ("len", z) for y in [plain(x[2][1])] for z in [("call", ("attr", x[3][1], "encode"), a, ()) for a in ((), (c("utf-8"),))])
        R.ob("init", "initialize", ok, "initialize sends %s" % [fd(y) for y in x], f.loc(f.node))
        if ok:
            g = p.g()
            big = [b == up(t) for t, b in p.guards if t[0] == "cmp" and ("attr", ("arg", "self"), "batch_size") in t[2:] and gt1(t)]
            tok = "batch_size:" in show(x[3][1]).replace(" ", "") or any(y[0] == "c" and isinstance(y[1], str) and "batch_size:" in y[1] for y in subterms(x[3][1]))
            carries = ("attr", ("arg", "self"), "batch_size") in list(subterms(x[3][1]))
            for t, b in p.guards:
                if t[0] == "cmp" and ("attr", ("arg", "self"), "batch_size") in t[2:]:
                    R.ob("init", "initialize: threshold", gt1(t), "the batch size is announced when %s, the client expects batches when it is more than one" % show(t), f.loc(f.node))
            if big:
                R.ob("init", "initialize: batch", tok and carries if big[0] else not tok, "with batch_size > 1 being %s the parameters sent are %s" % (big[0], show(x[3][1])[:80]), f.loc(f.node))
            if tok and carries:
                # the token is separated by a comma whenever there are other parameters
                pre = [y for y in subterms(x[3][1]) if y[0] == "c" and y[1] == ","]
                strip = [b for t, b in p.guards if ("attr", ("arg", "pars"), "strip") in list(subterms(t))]
                lit = "".join(y[1] for y in subterms(x[3][1]) if y[0] == "c" and isinstance(y[1], str))
                if strip and strip[0] and x[3][1][0] in ("cat", "fmt"):
                    R.ob("init", "initialize: separator", bool(pre) or "," in lit, "the batch size is appended to the parameters without a comma", f.loc(f.node))
    for p in per.get("INIT", []):
        rx = [e for e in events(p) if e[0] == "rx"][1:]
        rt = {e[1]: e for e in rx}
        ok = [e[2] for e in rx] == ["i4", "i4", "u1"]
        cnt = rx[2][3] if len(rx) == 3 else None
        R.ob("init", "run_driver", ok and cnt is not None and any(y[0] == "rx" and y[1] == 2 for y in subterms(cnt)) and not any(y[0] == "rx" and y[1] == 1 for y in subterms(cnt)),
             "the client reads INIT as %s" % [(e[2], show(e[3])[:30] if e[3] else None) for e in rx], f_run.loc(f_run.node))
        for l in p.log:
            if l[0] == "call" and l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "split" and len(l[1][2]) == 1 and l[1][2][0][0] == "c" and any(y[0] == "rx" and y[1] == 3 for y in subterms(l[1][1][1])):
                R.ob("init", "run_driver: separator", l[1][2][0] == c(","), "the client separates the parameters at %r, i-PI puts ','" % l[1][2][0][1], f_run.loc(l[2]))
        R.ob("init", "run_driver: silent", not tx(p), "the client answers INIT, which i-PI does not expect", f_run.loc(f_run.node))
    keys = {x.value for x in ast.walk(f_run.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    R.ob("init", "run_driver: token", "batch_size" in keys or any("batch_size" in k for k in keys) or "batch_n" not in {n.id for n in ast.walk(f_run.node) if isinstance(n, ast.Name)}, "the client does not look for the batch_size token", f_run.loc(f_run.node))

    # ---- POSDATA
    R.rule("posdata", "POSDATA is read by the client as it is sent: cell, inverse cell, atom count and positions", 1)

    def send_single(fn, cls, pos, hih, getforce):
        f = cls.find(fn)
        if f is None:
            return
        n = 0
        for p in paths(f, cls):
            x = tx(p)
            if not any(y == ("msg", "POSDATA") for y in x):
                continue
            n += 1
            want = [("msg", "POSDATA"), ("raw", ("ix", hih, c(0))), ("raw", ("ix", hih, c(1))), ("i4", NAT), ("raw", pos)] + ([("msg", "GETFORCE")] if getforce else [])
            got = []
            for y in x:
                if y[0] == "i4":
                    v = nat_of(y[1], pos)
                    got.append(("i4", v))
                elif y[0] == "raw":
                    got.append(("raw", y[1]))
                else:
                    got.append(y[:2])
            # judged only when every field is understood
            def known(y):
                return y[0] == "msg" or y[0] == "raw" and (y[1] in (pos, ("ix", hih, c(0)), ("ix", hih, c(1)), hih) or y[1][0] in ("arg", "ix")) or y[0] == "i4" and (isnum(y[1]) or set(z for z in subterms(y[1]) if z[0] in ("nat",)) or y[1][0] == "len") or y[0] in ("i8", "i2", "f4")
            bad = got != want
            if bad and not all(known(y) for y in got):
                continue
            R.ob("posdata", "%s.%s" % (cls.name, fn), not bad, "%s.%s sends %s instead of the header, cell, inverse cell, number of atoms, positions%s" % (cls.name, fn, [fd(y) for y in got], ", GETFORCE" if getforce else ""), f.loc(f.node))
    rr = ("arg", "r")
    act = ("ix", ("ix", rr, c("pos")), ("ix", rr, c("active")))
    send_single("sendpos", drv, ("arg", "pos"), ("arg", "h_ih"), False)
    send_single("dispatch_send", drv, act, ("ix", rr, c("cell")), True)
    f = drv.find("dispatch")
    if f is not None:
        for cls in filter(None, (drv, shm)):
            for p in TE_(enter=lambda fn, fv: fn.name not in ("sendpos", "getforce")).run(f, cls):
                for l in p.log:
                    if l[0] == "call" and l[1][0] == "call" and l[1][1] == ("attr", ("arg", "self"), "sendpos") and len(l[1][2]) == 2:
                        a = [bare(y) for y in l[1][2]]
                        R.ob("posdata", "dispatch", a == [act, ("ix", rr, c("cell"))] or not all(y[0] in ("ix", "arg") for y in a), "dispatch sends %s" % [show(y)[:60] for y in a], f.loc(l[2]))
    is_nat = lambda t, k: plain(t)[0] == "rx" and plain(t)[1] == k
    size_is = lambda n, terms: n is not None and any(n == t for t in terms)

    for p in per.get("POSDATA", []) + per.get("GETFORCE", []):
        for t, v in p.guards:
            if t[0] == "cmp" and any(y[0] == "st" and y[1] == "batch_n" for y in t[2:]):
                R.ob("init", "run_driver: threshold", gt1(t), "the client expects batches when %s, i-PI sends them when the batch size is more than one" % show(t)[:60], f_run.loc(f_run.node))

    def mode(p):
        """'shm' / 'batch' / 'single' of a client path"""
        s, b = None, None
        for t, v in p.guards:
            if t == ("arg", "shm"):
                s = v
            if t[0] == "cmp" and any(y[0] == "st" and y[1] == "batch_n" for y in t[2:]):
                b = (v == up(t)) if gt1(t) else b
        return "shm" if s else "batch" if b else "single" if s is False and b is False else None

    def call_driver(p):
        return [l for l in p.log if l[0] == "call" and l[1][0] == "call" and l[1][1] == ("arg", "driver")]
    nm = 0
    for p in per.get("POSDATA", []):
        if p.exit is not None:
            continue
        m = mode(p)
        rx = [e for e in events(p) if e[0] == "rx"][1:]
        R.ob("posdata", "run_driver: silent", not tx(p), "the client answers POSDATA, which i-PI does not expect", f_run.loc(f_run.node))
        cd = call_driver(p)
        if m == "single" and len(rx) >= 4:
            nm += 1
            shapes = [typed(e_arg(p, e[1])) for e in rx]
            kinds = [e[2] for e in rx]
            order = [name_of(e_arg(p, e[1])) for e in rx]
            ok = len(rx) == 4 and rx[2][2] == "i4" and kinds[0] == kinds[1] == "f8" and kinds[3] == "f8" and size_is(rx[0][3], [c(9)]) and size_is(rx[1][3], [c(9)])
            R.ob("posdata", "run_driver: single", ok, "the client reads POSDATA as %s" % [(k if isinstance(k, str) else "?", show(e[3])[:20] if e[3] else None) for k, e in zip(kinds, rx)], f_run.loc(f_run.node))
            for l in cd:
                a = [bare(y) for y in l[1][2]]
                ids = [y[1] if y[0] == "rx" else None for y in a]
                if len(a) == 2 and all(i is not None for i in ids):
                    R.ob("posdata", "run_driver: driver(cell, pos)", ids == [1, 4], "the potential is given fields %s of POSDATA as cell and positions (they are 1 and 4)" % ids, f_run.loc(l[2]))
            rs = [l for l in p.log if l[0] == "call" and l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "resize"]
            for l in rs:
                a = l[1][2][0] if l[1][2] else NONE
                n = size(a) if a[0] == "tup" else None
                if n is not None and any(y[0] == "rx" for y in subterms(n)):
                    R.ob("posdata", "run_driver: shape", any(n == mul(c(3), y) for y in subterms(n) if y[0] == "rx" and y[1] == 3), "the client makes room for %s numbers" % show(n)[:60], f_run.loc(l[2]))
        elif m == "batch" and len(rx) >= 3:
            nm += 1
            n = [y for y in p.log if y[0] == "call" and y[1][0] == "rx" and y[1][1] == 1][0][1]
            B = [y for e in rx if e[3] is not None for y in subterms(e[3]) if y[0] == "st" and y[1] == "batch_n"]
            if B and len(rx) == 3:
                b = B[0]
                ok = [e[2] for e in rx] == ["i4", "f8", "f8"] and rx[1][3] == mul(c(18), b) and rx[2][3] == mul(mul(c(3), n), b)
                R.ob("posdata", "run_driver: batch", ok, "the client reads a batch as %s" % [(e[2], show(e[3])[:40] if e[3] else None) for e in rx], f_run.loc(f_run.node))
                for l in cd:
                    lists = [y for y in l[1][2]]
                    got = []
                    for y in lists:
                        ap = [z[1][2][0] for z in p.log if z[0] == "call" and z[1][0] == "call" and z[1][1] == ("attr", y, "append") and len(z[1][2]) == 1]
                        el = bare(ap[0]) if ap else bare(y[1]) if y[0] == "comp" else None
                        got.append(el)
                    if all(g is not None for g in got) and len(got) == 2:
                        cell, ps = got
                        if cell[0] == "ix" and cell[1][0] == "rx" and cell[2][0] == "slice":
                            lo, hi = cell[2][1], cell[2][2]
                            iv = [y for y in subterms(lo) if y[0] == "iv"]
                            R.ob("posdata", "run_driver: batch cells", cell[1][1] == 2 and bool(iv) and lo == mul(c(18), iv[0]) and hi == add(lo, c(9)), "the client takes the cell of a structure from [%s:%s]" % (show(lo)[:40], show(hi)[:40]), f_run.loc(l[2]))
                        if ps[0] == "ix" and ps[1][0] == "rx":
                            R.ob("posdata", "run_driver: batch positions", ps[1][1] == 3 and ps[2][0] == "iv", "the client takes the positions of a structure from field %d of the message at %s" % (ps[1][1], show(ps[2])[:40]), f_run.loc(l[2]))
                        if cell[0] == "ix" and ps[0] == "ix" and cell[1][0] == "rx" and ps[1][0] == "rx":
                            R.ob("posdata", "run_driver: batch order", (cell[1][1], ps[1][1]) == (2, 3), "the potential is given fields %s as cells and positions" % ((cell[1][1], ps[1][1]),), f_run.loc(l[2]))

    # batch senders
    reqs = ("arg", "reqs")
    f = drv.find("dispatch_send_batch")
    if f is not None:
        for p in paths(f, drv):
            x = tx(p)
            if not any(y == ("msg", "POSDATA") for y in x):
                continue
            kinds = [y[0] if y[0] != "msg" else y[1] for y in x]
            reps = [y for y in x if y[0] == "rep"]
            if not reps or any(z[0] == "rep" for y in reps for z in y[2]):
                continue
            def el(y, it):
                """('h'|'ih'|'pos', ok) of a field of one structure"""
                e = ("elem", it)
                return {("ix", ("ix", e, c("cell")), c(0)): "h", ("ix", ("ix", e, c("cell")), c(1)): "ih", ("ix", ("ix", e, c("pos")), ("ix", e, c("active"))): "pos", ("ix", e, c("pos")): "all positions"}.get(y[1], None) if y[0] == "raw" else None
            rl = [[el(z, y[1]) for z in y[2]] for y in reps]
            if any(z is None for y in rl for z in y):
                continue
            ok = kinds == ["POSDATA", "i4", "rep", "rep", "GETFORCE"] and rl == [["h", "ih"], ["pos"]]
            R.ob("posdata", "dispatch_send_batch", ok, "dispatch_send_batch sends %s" % [k if k != "rep" else rl for k in kinds], f.loc(f.node))
            R.ob("posdata", "dispatch_send_batch: same structures", len({repr(y[1]) for y in reps}) == 1, "cells and positions are sent for different lists of structures", f.loc(f.node))
            e0 = ("ix", reps[0][1], c(0))
            i4 = [y for y in x if y[0] == "i4"]
            if i4:
                v = i4[0][1]
                cand = [y for y in subterms(v) if y[0] == "ix" and y[2][0] == "ix" and y[2][2] == c("active")]
                if cand:
                    R.ob("posdata", "dispatch_send_batch: atom count", nat_of(v, cand[0]) == NAT, "dispatch_send_batch sends %s as the number of atoms" % show(v)[:80], f.loc(f.node))
    R.part("pad_rule", pad_rule, R, prog, paths, [k for k in (drv, shm) if k is not None], reqs)

    # ---- results
    R.rule("results", "the reply to GETFORCE is read as it is sent: potential, atom count, forces, virial, extras", 1)
    f = drv.find("_recv_force_data")
    for p in paths(f, drv):
        if p.exit != "return":
            continue
        rx = [e for e in events(p) if e[0] == "rx"]
        ty = [e[2] for e in rx]
        if len(rx) >= 5:
            n = [y[1] for y in p.log if y[0] == "call" and y[1][0] == "rx"]
            ok = ty[:5] == ["f8", "i4", "f8", "f8", "i4"] and rx[2][3] == mul(c(3), n[1]) and rx[3][3] == c(9) and (len(rx) == 5 or ty[5] == "u1" and plain(rx[5][3]) == n[4])
            R.ob("results", "_recv_force_data", ok, "_recv_force_data reads %s" % [(e[2], show(e[3])[:30] if e[3] else None) for e in rx], f.loc(f.node))
        r = p.ret
        if r is not None and r[0] == "tup" and len(r[2]) == 4:
            ids = [bare(y)[1] if bare(y)[0] == "rx" else None for y in r[2][:3]]
            if None not in ids:
                R.ob("results", "_recv_force_data: roles", ids == [0, 2, 3], "_recv_force_data returns fields %s as potential, forces and virial" % ids, f.loc(f.node))
            ex = [y for y in subterms(r[2][3]) if y[0] == "rx"]
            got = any(b for t, b in p.guards if t[0] == "cmp" and any(y[0] == "rx" and y[1] == 4 for y in subterms(t)))
            if len(rx) == 6:
                R.ob("results", "_recv_force_data: extras", {y[1] for y in ex} >= {5} or not ex and r[2][3][0] != "call", "_recv_force_data does not hand on the extra string it read", f.loc(f.node))
    # bulk: one buffer, offsets
    f = drv.find("_recv_forces_bulk")
    if f is not None:
        n = ("arg", f.node.args.args[1].arg)
        o = {"pot": c(12), "nat": c(20), "force": c(24), "vir": add(c(24), mul(c(24), n)), "elen": add(c(96), mul(c(24), n)), "end": add(c(100), mul(c(24), n))}
        for p in paths(f, drv):
            if p.exit != "return" or p.ret is None or p.ret[0] != "tup" or len(p.ret[2]) != 4:
                continue
            def fb(t):
                t = bare(plain(t))
                if t[0] == "ix" and t[2] == c(0):
                    t = t[1]
                t = bare(t)
                if t[0] == "call" and t[1] == ("ext", "numpy.frombuffer"):
                    kw = dict(t[3])
                    return (dtname(kw.get("dtype", t[2][1] if len(t[2]) > 1 else NONE)), kw.get("count", t[2][2] if len(t[2]) > 2 else c(-1)), kw.get("offset", t[2][3] if len(t[2]) > 3 else c(0)))
                return None
            for role, t, cnt in (("pot", p.ret[2][0], c(1)), ("force", p.ret[2][1], mul(c(3), n)), ("vir", p.ret[2][2], c(9))):
                g = fb(t)
                if g is not None and role != "pot":
                    R.ob("results", "_recv_forces_bulk: copy", any(z[0] == "call" and (z[1][0] == "attr" and z[1][2] in ("copy", "astype", "flatten", "tolist") or z[1][0] == "ext" and z[1][1] in ("numpy.array", "numpy.copy")) for z in subterms(t)),
                         "_recv_forces_bulk returns a view of the receive buffer as %s, which the next reply overwrites" % role, f.loc(f.node))
                if g is not None:
                    R.ob("results", "_recv_forces_bulk: " + role, g == ("f8", cnt, o[role]), "_recv_forces_bulk reads %s as %s x %s at byte %s, it is sent as f8 x %s at byte %s" % (role, g[0], show(g[1]), show(g[2]), show(cnt), show(o[role])), f.loc(f.node))
            i4 = []
            for l in p.log:
                for t in ([l[1]] if l[0] == "call" else []):
                    g = fb(t) if t[0] == "call" and t[1] == ("ext", "numpy.frombuffer") else None
                    if g is not None and g[0] in ("i4", "i8", "i2") and g[2] not in [y[2] for y in i4]:
                        i4.append(g)
            if i4:
                R.ob("results", "_recv_forces_bulk: integers", [(y[0], y[2]) for y in i4] == [("i4", o["nat"]), ("i4", o["elen"])], "_recv_forces_bulk reads integers at bytes %s, they are sent at %s" % ([show(y[2])[:30] for y in i4], [show(o["nat"]), show(o["elen"])]), f.loc(f.node))
            ri = [l[1] for l in p.log if l[0] == "call" and l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "recv_into"]
            szs = [y for t in ri for y in subterms(t) if y[0] == "slice" for y in [y[2]] if y != NONE]
            szs = [y for y in szs if not any(z[0] == "st" or z[0] == "call" for z in subterms(y))]
            if szs:
                R.ob("results", "_recv_forces_bulk: total", szs[0] == o["end"], "_recv_forces_bulk waits for %s bytes, %s are sent before the extra string" % (show(szs[0]), show(o["end"])), f.loc(f.node))
            ex = p.ret[2][3]
            if len(i4) == 2 and any(y[0] == "attr" and y[2] == "_buf" or y[0] == "new" for y in subterms(ex)) and "decode" in show(ex):
                isel = lambda y: y[0] == "call" and y[1] == ("ext", "numpy.frombuffer") and fb(y) is not None and fb(y)[2] == o["elen"]
                room = any(t[0] == "cmp" and any(isel(y) for y in subterms(t)) and any(y[0] == "len" for y in subterms(t)) for t, b in p.guards) or \
                    any(l[0] == "call" and l[1][0] == "new" and any(isel(y) for y in subterms(l[1][2])) for l in p.log)
                R.ob("results", "_recv_forces_bulk: room for extras", room, "the extra string is read into a buffer that was not made large enough for it", f.loc(f.node))
            chk = [b for t, b in p.guards if t[0] == "cmp" and n in t[2:]]
            if i4:
                R.ob("results", "_recv_forces_bulk: atom count", bool(chk), "_recv_forces_bulk does not compare the number of atoms in the reply with the request", f.loc(f.node))
    f = drv.find("_recv_forces_bulk_batch")
    if f is not None:
        a = [x.arg for x in f.node.args.args]
        n, real = ("arg", a[1]), ("arg", a[2])
        b = ("attr", ("arg", "self"), "batch_size")
        for p in paths(f, drv):
            if p.exit != "return":
                continue
            rx = [e for e in events(p) if e[0] == "rx"]
            if len(rx) < 6:
                continue
            ok = [e[2] for e in rx[:6]] == ["u1", "f8", "i4", "f8", "f8", "i4"] and rx[0][3] == c(12) and rx[1][3] == b and rx[3][3] == mul(mul(c(3), n), b) and rx[4][3] == mul(c(9), b)
            ok = ok and [e[4] for e in rx[:6]] == [0, 0, 0, 0, 0, 1]
            R.ob("results", "_recv_forces_bulk_batch", ok, "_recv_forces_bulk_batch reads %s" % [(e[2], show(e[3])[:40] if e[3] else None) for e in rx], f.loc(f.node))
            lp = [l[3] for l in p.log if l[0] == "call" and l[1][0] == "rx" and l[1][1] == 5]
            if lp and lp[0]:
                it = lp[0][-1][1]
                R.ob("results", "_recv_forces_bulk_batch: extras", it == ("call", ("ext", "range"), (b,), ()) or it[0] != "call" or it[1] != ("ext", "range"), "one extra string per structure of the batch is sent, %s are read" % show(it)[:40], f.loc(f.node))
            chk = [y for t, bb in p.guards if t[0] == "cmp" and n in t[2:] for y in t[2:]]
            R.ob("results", "_recv_forces_bulk_batch: atom count", any(y[0] == "rx" and y[1] == 2 for t in chk for y in subterms(t)), "_recv_forces_bulk_batch does not compare the number of atoms in the reply with the request", f.loc(f.node))
            for l in p.log:
                if l[0] == "call" and l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "append" and len(l[1][2]) == 1 and l[1][2][0][0] == "tup" and len(l[1][2][0][2]) == 4:
                    e = [bare(plain(y)) for y in l[1][2][0][2]]
                    if all(y[0] == "ix" and y[1][0] == "rx" for y in e[:3]):
                        R.ob("results", "_recv_forces_bulk_batch: roles", [y[1][1] for y in e[:3]] == [1, 3, 4] and all(y[2][0] == "iv" for y in e[:3]), "_recv_forces_bulk_batch returns fields %s as potential, forces, virial" % [y[1][1] for y in e[:3]], f.loc(l[2]))
                    g = [bb for t, bb in p.guards if t[0] == "cmp" and real in t[2:]]
                    R.ob("results", "_recv_forces_bulk_batch: padding", bool(g), "results of the padding are returned as well", f.loc(l[2]))
    # client replies
    for p in per.get("GETFORCE", []):
        if p.exit is not None:
            continue
        m = mode(p)
        ev = [e for e in events(p) if e[0] == "tx"]
        x = [e[1] for e in ev]
        dep = [e[4] for e in ev]
        if not x:
            R.fail("results", "run_driver: reply", "the client does not answer GETFORCE", f_run.loc(f_run.node))
            continue
        kinds = [y[0] if y[0] != "msg" else y[1] for y in x]
        R.ob("results", "run_driver: FORCEREADY first", kinds[0] == "FORCEREADY" and kinds.count("FORCEREADY") == 1, "the client answers GETFORCE with %s" % kinds, f_run.loc(f_run.node))
        if m == "single":
            nm += 1
            kk = [k if k != "txt" else "raw" for k in kinds]
            ok = kk == ["FORCEREADY", "f8", "i4", "raw", "raw", "i4", "raw"]
            R.ob("results", "run_driver: single", ok, "the client answers GETFORCE with %s instead of the potential, number of atoms, forces, virial and extras" % kinds, f_run.loc(f_run.node))
            if ok:
                roles = results_roles(per.get("POSDATA", []), mode)
                if roles:
                    nmz = [name_of(x[1][1]), name_of(x[3][1]), name_of(x[4][1])]
                    if all(z in roles for z in nmz):
                        R.ob("results", "run_driver: single roles", [roles[z] for z in nmz] == [0, 1, 2], "the client sends results %s of the potential as potential, forces, virial" % [roles[z] for z in nmz], f_run.loc(f_run.node))
                ln = plain(x[5][1])
                tm = x[6][2] if len(x[6]) > 2 else x[6][1]
                if ln[0] == "len":
                    enc = [y for y in subterms(ln) if y[0] == "call" and show(y[1]).endswith("encode")]
                    R.ob("results", "run_driver: extra length", bool(enc) or x[6][0] == "raw" and ln[1] == tm, "the client announces the length of the extra string before it is encoded", f_run.loc(f_run.node))
                # types are checked before sending
                for v, w in ((x[3][1], "forces"), (x[4][1], "virial")):
                    if v[0] == "st":
                        def about(t):
                            return [y for y in subterms(t) if y[0] == "attr" and y[1] == v and y[2] == "dtype" or y[0] == "call" and y[1] == ("ext", "isinstance") and y[2] and y[2][0] == v]
                        G = [(t, b) for t, b in p.guards if about(t)]
                        inst = [b for t, b in G if t[0] == "call"]
                        dt = [b for t, b in G if t[0] == "cmp"]
                        if G:
                            R.ob("results", "run_driver: %s type" % w, True in inst and (True in dt), "the client sends %s whose type was not established to be 64-bit floats (%s)" % (w, "; ".join("%s=%s" % (show(t)[:50], b) for t, b in G)), f_run.loc(f_run.node))
        elif m == "batch":
            nm += 1
            kk = [k if k != "txt" else "raw" for k in kinds]
            ok = kk == ["FORCEREADY", "raw", "i4", "raw", "raw", "i4", "raw"] and dep == [dep[0]] * 5 + [dep[0] + 1] * 2
            R.ob("results", "run_driver: batch", ok, "the client answers a batch with %s" % kinds, f_run.loc(f_run.node))
            if ok:
                ids = []
                for k in (1, 3, 4):
                    y = x[k][1]
                    e = bare(y[1]) if y[0] == "comp" else None
                    ids.append(e[2][1] if e is not None and e[0] == "ix" and e[2][0] == "c" else None)
                if None not in ids:
                    R.ob("results", "run_driver: batch roles", ids == [0, 1, 2], "the client sends results %s of each structure as potential, forces, virial" % ids, f_run.loc(f_run.node))
                t = [y[2][1] for y in subterms(x[6][1]) if y[0] == "ix" and y[2][0] == "c" and y[1][0] == "elem"]
                if t:
                    R.ob("results", "run_driver: batch extras", t == [3], "the client sends result %s as the extra string" % t, f_run.loc(f_run.node))
        elif m == "shm":
            nm += 1
            sets = [l for l in p.log if l[0] == "set" and l[1][0] == "ix" and l[1][1][0] in ("ix", "st") and l[4 if len(l) > 5 else 4]]
            got = {}
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and l[1][1][0] == "ix" and l[1][1][2][0] == "c" and l[1][1][2][1] in ("pot", "force", "vir"):
                    v = bare(l[2])
                    if v[0] == "ix" and v[2][0] == "c":
                        got[l[1][1][2][1]] = v[2][1]
                        i = [y for y in subterms(v[1]) if y[0] == "iv"]
                        R.ob("results", "run_driver: shm slot", not i or l[1][2] == i[0], "the client stores the results of structure %s in slot %s" % (show(i[0])[:30] if i else "?", show(l[1][2])[:30]), f_run.loc(l[3]))
            if len(got) == 3:
                R.ob("results", "run_driver: shm roles", got == {"pot": 0, "force": 1, "vir": 2}, "the client stores results %s in shared memory" % got, f_run.loc(f_run.node))
            # results are in place before FORCEREADY is sent
            pos_set = [i for i, l in enumerate(p.log) if l[0] == "set" and l[1][0] == "ix" and l[1][1][0] == "ix" and l[1][1][2] in (c("pot"), c("force"), c("vir"))]
            pos_tx = [i for i, l in enumerate(p.log) if l[0] == "call" and l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "sendall" and pieces(l[1][2][0]) == [("msg", "FORCEREADY")]]
            if pos_set and pos_tx:
                R.ob("results", "run_driver: shm before FORCEREADY", max(pos_set) < min(pos_tx), "the client announces FORCEREADY before the results are in shared memory", f_run.loc(f_run.node))
            kk = [k if k != "txt" else "raw" for k in kinds]
            R.ob("results", "run_driver: shm", kk == ["FORCEREADY", "i4", "raw"], "with shared memory the client answers with %s" % kinds, f_run.loc(f_run.node))
    if not nm:
        R.fail("results", "run_driver", "no path of run_driver handles POSDATA and GETFORCE", f_run.loc(f_run.node))

    # extras
    R.rule("extras", "any extra string is accepted and kept", 1)
    try:
        f = prog.module("ipi.interfaces.utils").functions.get("parse_extra")
    except Exception:
        f = None
    if f is not None:
        for p in W(prog).run(f):
            if p.exit != "return" or p.ret is None:
                continue
            a0 = ("arg", f.node.args.args[0].arg)
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and l[1][1][0] == "call" and l[1][1][1] == ("ext", "json.loads"):
                    ok = any(b and t[0] == "call" and t[1] == ("ext", "isinstance") and t[2][0] == l[1][1] for t, b in p.guards)
                    R.ob("extras", "parse_extra: object", ok, "parse_extra stores a field in what json.loads returned without knowing that it is a dictionary: an extra string like '1.5' stops the run", f.loc(l[3]))
                if l[0] == "set" and l[1][0] == "ix" and l[1][2] == c("raw"):
                    R.ob("extras", "parse_extra: raw", l[2] == a0, "parse_extra keeps %s as the raw string" % show(l[2])[:60], f.loc(l[3]))
    if shm is not None:
        R.part("shm_rules", shm_rules, R, prog, paths, events, tx, shm, per, mode, f_run, S)
    R.part("fanout", fanout, R, prog, TE_, drv)
    R.part("mpi_rules", mpi_rules, R, prog, paths, D)
    return R.finish()


def gt1(t):
    """is the comparison x > 1 (or its negation) of an integer"""
    k = [x for x in t[2:] if isnum(x)]
    if len(k) != 1:
        return True
    first = isnum(t[2])
    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(t[1], t[1]) if first else t[1]
    return (op, k[0][1]) in ((">", 1), (">=", 2), ("<=", 1), ("<", 2), ("==", 1), ("!=", 1))


def up(t):
    """the outcome of a comparison that means 'more than one'"""
    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(t[1], t[1]) if isnum(t[2]) else t[1]
    return op in (">", ">=", "!=")


def e_arg(p, k):
    for l in p.log:
        if l[0] == "call" and l[1][0] == "rx" and l[1][1] == k:
            return l[1][4]
    return NONE


def name_of(t):
    t = bare(t)
    return t[1] if t[0] == "st" else None


def results_roles(ps, mode):
    """{variable: component of what the potential returned}"""
    for p in ps:
        if mode(p) == "single" and p.exit is None:
            out = {}
            for n, v in p.env.items():
                if v[0] == "ix" and v[2][0] == "c" and v[1][0] == "call" and v[1][1] == ("arg", "driver"):
                    out[n] = v[2][1]
            return out
    return {}


def pad_rule(R, prog, paths, classes, reqs):
    b = ("attr", ("arg", "self"), "batch_size")
    for cls in classes:
        f = cls.methods.get("dispatch_send_batch")
        if f is None:
            continue
        for p in paths(f, cls):
            its = {y for l in p.log if l[0] == "call" for y in subterms(l[1]) if y[0] == "p" and any(z[0] == "tup" and z[1] == "List" for m, v in y[1] for z, e in m)}
            for t in its:
                d = poly(t)
                lst = [(m, v) for m, v in d.items() if any(z[0] == "tup" and z[1] == "List" for z, e in m)]
                base = [m[0][0] for m, v in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ("call", "arg") and v == 1]
                if not lst or len(base) != 1:
                    continue
                el = [z for m, v in lst for z, e in m if z[0] == "tup"][0]
                times = {}
                for m, v in lst:
                    times[tuple(x for x in m if x[0] != el)] = v
                from vlib.term import mkpoly
                k = mkpoly(times)
                want = add(b, ("len", base[0]), -1)
                want2 = add(b, ("len", reqs), -1)
                R.ob("posdata", "%s: padding" % cls.name, k in (want, want2), "%s pads the batch with %s structures instead of %s" % (f.qual, show(k)[:60], show(want2)), f.loc(f.node))
                R.ob("posdata", "%s: padding structure" % cls.name, len(el[2]) == 1 and any(y in (reqs, base[0]) for y in subterms(el[2][0])), "%s pads the batch with %s" % (f.qual, show(el)[:60]), f.loc(f.node))


def shm_rules(R, prog, paths, events, tx, shm, per, mode, f_run, S):
    R.rule("shm", "both sides attach the same segments, of the same shapes, for the same quantities", 1)
    kinds = None
    a = shm.find_assign("_SHM_KINDS") if hasattr(shm, "find_assign") else None
    a = a[1] if isinstance(a, tuple) else a
    if isinstance(a, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Constant) for e in a.elts):
        kinds = [e.value for e in a.elts]
    ck = [l for x in ast.walk(f_run.node) if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Tuple, ast.List)) and len(x.value.elts) == 6 and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in x.value.elts) for l in [[e.value for e in x.value.elts]]]
    if kinds and ck:
        R.ob("shm", "order", kinds == ck[0], "i-PI sends the names of the segments in the order %s, the client takes them for %s" % (kinds, ck[0]), f_run.loc(f_run.node))
    # sizes
    want = {"pos": 3, "h": 9, "ih": 9, "pot": 1, "force": 3, "vir": 9}
    pern = {"pos", "force"}
    f = shm.find("_alloc_shm")
    if f is not None:
        for d in ast.walk(f.node):
            if isinstance(d, ast.Dict) and d.keys and all(isinstance(k, ast.Constant) for k in d.keys) and {k.value for k in d.keys} & set(want):
                for k, v in zip(d.keys, d.values):
                    if k.value not in want or not isinstance(v, (ast.Tuple, ast.List)):
                        continue
                    te = W(prog)
                    t = dictvalue(te, f, shm, v)
                    if t is None:
                        continue
                    n = size(t)
                    w = mul(c(want[k.value]), ("attr", ("arg", "self"), "batch_size"))
                    if k.value in pern:
                        w = mul(w, ("arg", f.node.args.args[1].arg))
                    R.ob("shm", "_alloc_shm: " + k.value, n == w, "the segment %s holds %s numbers instead of %s" % (k.value, show(n), show(w)), f.loc(v))
    for p in per.get("POSDATA", []):
        if mode(p) != "shm":
            continue
        for l in p.log:
            if l[0] == "set" and l[1][0] == "ix" and l[1][2][0] == "c" and l[1][2][1] in want:
                v = l[2][2] if l[2][0] == "new" else l[2]
                if v[0] == "call" and v[1] == ("ext", "numpy.ndarray") and v[2]:
                    n = size(v[2][0])
                    k = l[1][2][1]
                    b = [y for y in subterms(n) if y[0] == "st" and y[1] == "batch_n"]
                    nt = [y for y in subterms(n) if y[0] == "rx" and y[1] == 1]
                    if not b or k in pern and not nt:
                        if not b:
                            R.fail("shm", "run_driver: " + k, "the client takes %s numbers for %s of the batch" % (show(n), k), f_run.loc(l[3]))
                        continue
                    w = mul(c(want[k]), b[0])
                    if k in pern:
                        w = mul(w, nt[0])
                    R.ob("shm", "run_driver: " + k, n == w, "the client takes %s numbers for %s" % (show(n)[:60], k), f_run.loc(l[3]))
                    buf = dict(v[3]).get("buffer")
                    dt = dtname(v[2][1]) if len(v[2]) > 1 else dtname(dict(v[3]).get("dtype", ("ext", "float")))
                    R.ob("shm", "run_driver: %s type" % k, dt == "f8", "the client reads %s as %s" % (k, dt), f_run.loc(l[3]))
                    if buf is not None and kinds:
                        rxs = sorted({y[1] for y in subterms(buf) if y[0] == "rx" and y[2] == "u1"})
                        if rxs and all((r - 3) % 2 == 0 and 0 <= (r - 3) // 2 < 6 for r in rxs):
                            R.ob("shm", "run_driver: %s segment" % k, kinds[(rxs[0] - 3) // 2] == k, "the client uses the segment of %s for %s" % (kinds[(rxs[0] - 3) // 2], k), f_run.loc(l[3]))
        for l in p.log:
            if l[0] == "call" and l[1][0] == "call" and l[1][1] == ("arg", "driver") and len(l[1][2]) == 2:
                got = []
                for y in l[1][2]:
                    e = bare(y[1]) if y[0] == "comp" else None
                    ks = [z[2][1] for z in subterms(e) if z[0] == "ix" and z[2][0] == "c" and z[2][1] in want] if e is not None else []
                    got.append(ks[0] if ks else None)
                if None not in got:
                    R.ob("shm", "run_driver: driver(cells, positions)", got == ["h", "pos"], "the potential is given %s" % got, f_run.loc(l[2]))
    f = shm.find("_fill_shm")
    if f is not None:
        W_ = {"pos": lambda e: ("ix", e, c(0)), "h": lambda e: ("ix", ("ix", e, c(1)), c(0)), "ih": lambda e: ("ix", ("ix", e, c(1)), c(1))}
        for p in W(prog, keep=lambda fn: fn.name in ("_alloc_shm", "warning")).run(f, shm):
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and l[1][1][0] == "ix" and l[1][1][2][0] == "c" and l[1][1][2][1] in W_:
                    k = l[1][1][2][1]
                    v = bare(l[2])
                    e = [y for y in subterms(v) if y[0] == "elem"]
                    if e and v[0] == "ix":
                        R.ob("shm", "_fill_shm: " + k, v == W_[k](e[0]) and l[1][2][0] == "iv", "_fill_shm stores %s in slot %s of %s" % (show(v)[:40], show(l[1][2])[:40], k), f.loc(l[3]))
            if p.ret is not None and p.exit == "return":
                x = pieces(p.ret)
                ks = [y[0] if y[0] != "msg" else y[1] for y in x]
                if "raw" in ks:
                    continue
                first = [b for t, b in p.guards if t == ("attr", ("arg", "self"), "_first_posdata")]
                if ks[:2] == ["POSDATA", "i4"] and (not first or not first[0]):
                    if first:
                        R.ob("shm", "_fill_shm: later", ks == ["POSDATA", "i4"], "after the first exchange _fill_shm sends %s" % ks, f.loc(f.node))
                elif first:
                    ok = ks == ["POSDATA", "i4", "rep"] and [y[0] for y in x[2][2]] == ["i4", "txt"] or ks == ["POSDATA", "i4"] + ["i4", "txt"] * 6
                    R.ob("shm", "_fill_shm: first", ok, "in the first exchange _fill_shm sends %s" % [fdx(y) for y in x], f.loc(f.node))
                    if ok and first[0]:
                        last = p.heap.get(("arg", "self"), {}) if isinstance(p.heap.get(("arg", "self")), dict) else None
                        sets = [l for l in p.log if l[0] == "set" and l[1] == ("attr", ("arg", "self"), "_first_posdata")]
                        R.ob("shm", "_fill_shm: once", bool(sets) and sets[-1][2] == FALSE, "the names of the segments are sent again with every structure", f.loc(f.node))
                else:
                    R.ob("shm", "_fill_shm: header", ks[:2] == ["POSDATA", "i4"], "_fill_shm sends %s" % ks, f.loc(f.node))
    f = shm.find("_read_shm_results")
    if f is not None:
        for p in paths(f, shm):
            if p.exit == "return" and p.ret is not None and p.ret[0] == "comp" and p.ret[1][0] == "tup" and len(p.ret[1][2]) == 3:
                e = [bare(plain(y)) for y in p.ret[1][2]]
                ks = [y[1][2][1] if y[0] == "ix" and y[1][0] == "ix" and y[1][2][0] == "c" else None for y in e]
                if None not in ks:
                    R.ob("shm", "_read_shm_results", ks == ["pot", "force", "vir"] and all(y[2][0] == "iv" for y in e), "_read_shm_results returns %s" % ks, f.loc(f.node))
                # the segments are overwritten by the next exchange
                for y, k in zip(p.ret[1][2], ks):
                    if k in ("force", "vir"):
                        R.ob("shm", "_read_shm_results: copy", any(z[0] == "call" and (z[1][0] == "attr" and z[1][2] in ("copy", "tolist", "astype", "flatten") or z[1][0] == "ext" and z[1][1] in ("numpy.array", "numpy.copy")) for z in subterms(y)),
                             "_read_shm_results returns a view of the segment of %s, which the next exchange overwrites" % k, f.loc(f.node))
    for fn in ("sendpos", "dispatch_send", "dispatch_send_batch"):
        f = shm.methods.get(fn)
        if f is None:
            continue
        for p in W(prog, keep=lambda x: x.name in ("_fill_shm", "warning", "get_status", "initialize")).run(f, shm):
            for l in p.log:
                if l[0] == "call" and l[1][0] == "call" and l[1][1] == ("attr", ("arg", "self"), "sendall") and len(l[1][2]) == 1:
                    t = l[1][2][0]
                    ms = [y for y in (t[1] if t[0] == "cat" else (t,))]
                    hasg = any(_msgof(y) == "GETFORCE" for y in ms) or "getforce" in show(t)
                    R.ob("shm", "SHMDriver.%s: GETFORCE" % fn, hasg == (fn != "sendpos"), "SHMDriver.%s %s" % (fn, "sends GETFORCE, which getforce sends again" if hasg else "does not ask for the forces"), f.loc(l[2]))
                    fills = [y for y in subterms(t) if y[0] == "call" and y[1] == ("attr", ("arg", "self"), "_fill_shm") and len(y[2]) == 1]
                    for y in fills:
                        s = y[2][0]
                        e = None
                        if s[0] == "tup" and len(s[2]) == 1:
                            e = s[2][0]
                        elif s[0] == "comp":
                            e = s[1]
                        if e is not None and e[0] == "tup" and len(e[2]) == 2:
                            ps, ce = [bare(z) for z in e[2]]
                            isp = any(z[0] == "ix" and z[2] == c("pos") or z == ("arg", "pos") for z in subterms(ps))
                            isc = ce == ("arg", "h_ih") or ce[0] == "ix" and ce[2] == c("cell")
                            if ps[0] in ("ix", "arg") and ce[0] in ("ix", "arg"):
                                R.ob("shm", "SHMDriver.%s: structure" % fn, isp and isc and (fn == "sendpos" or ps[0] == "ix" and ps[2][0] == "ix" and ps[2][2] == c("active")), "SHMDriver.%s stages %s" % (fn, show(e)[:80]), f.loc(l[2]))
    for fn, need in (("_recv_forces_bulk", True), ("_recv_forces_bulk_batch", True), ("_recv_force_data", False)):
        f = shm.methods.get(fn)
        if f is None:
            continue
        for p in paths(f, shm):
            if p.exit != "return":
                continue
            rx = [e for e in events(p) if e[0] == "rx"]
            ty = [e[2] for e in rx]
            if need:
                R.ob("shm", fn + ": FORCEREADY", ty[:2] == ["u1", "i4"] and rx[0][3] == c(12), "SHMDriver.%s reads %s" % (fn, ty), f.loc(f.node))
            else:
                R.ob("shm", fn + ": extras", ty[:1] == ["i4"], "SHMDriver.%s reads %s" % (fn, ty), f.loc(f.node))
            if fn == "_recv_forces_bulk_batch":
                lp = [l[3] for l in p.log if l[0] == "call" and l[1][0] == "rx" and l[1][1] == 1]
                if lp and lp[0] and lp[0][-1][1][0] == "call" and lp[0][-1][1][1] == ("ext", "range"):
                    R.ob("shm", fn + ": all extras", lp[0][-1][1][2] == (("attr", ("arg", "self"), "batch_size"),), "one extra string per structure of the batch is sent, %s are read" % show(lp[0][-1][1])[:50], f.loc(f.node))


def _msgof(t):
    return msg(t)


def fdx(f):
    return f[1] if f[0] == "msg" else f[0]


def dictvalue(te, f, cls, v):
    """the term of an expression at its place in f, with local constants substituted"""
    loc = {}
    for s in f.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Attribute, ast.Name, ast.Constant)):
            loc[s.targets[0].id] = s.value

    class Sub(ast.NodeTransformer):
        def visit_Name(self, n):
            return loc[n.id] if n.id in loc else n
    import copy
    e = Sub().visit(copy.deepcopy(v))
    try:
        from vlib.term import Path, Fr
        p = Path()
        for a in f.node.args.args:
            p.env[a.arg] = ("arg", a.arg)
        r = te.ev(e, p, Fr(f, cls, 0, (), cls))
        return r[0][1]
    except Exception:
        return None


def fanout(R, prog, TE_, drv):
    R.rule("fan-out", "each request gets its own result: its offset subtracted, forces on its active atoms, zero elsewhere", 1)
    f = drv.find("dispatch_recv_batch")
    if f is not None:
        for p in TE_(enter=lambda fn, fv: fn.name != "_recv_forces_bulk_batch").run(f, drv):
            if p.exit != "return" or p.ret != TRUE:
                continue
            call = [l[1] for l in p.log if l[0] == "call" and l[1][0] == "call" and l[1][1] == ("attr", ("arg", "self"), "_recv_forces_bulk_batch")]
            if call:
                a = call[0][2]
                R.ob("fan-out", "dispatch_recv_batch: count", len(a) < 2 or a[1] == ("len", ("arg", "reqs")), "results of %s requests are taken" % show(a[1] if len(a) > 1 else NONE)[:40], f.loc(f.node))
                R.ob("fan-out", "dispatch_recv_batch: atoms", not a or natact(a[0]), "the number of atoms expected in the reply is %s" % show(a[0])[:80], f.loc(f.node))
    f = drv.find("dispatch_recv")
    if f is not None:
        for p in TE_(enter=lambda fn, fv: fn.name != "_recv_forces_bulk").run(f, drv):
            for l in p.log:
                if l[0] == "call" and l[1][0] == "call" and l[1][1] == ("attr", ("arg", "self"), "_recv_forces_bulk") and l[1][2]:
                    R.ob("fan-out", "dispatch_recv: atoms", natact(l[1][2][0]), "the number of atoms expected in the reply is %s" % show(l[1][2][0])[:80], f.loc(l[2]))
    for fn in ("dispatch", "dispatch_recv", "dispatch_recv_batch"):
        f = drv.find(fn)
        if f is None:
            continue
        for p in TE_(enter=lambda fn2, fv: fn2.name not in ("_recv_forces_bulk_batch", "_recv_forces_bulk", "sendpos", "getforce")).run(f, drv):
            done = [l for l in p.log if l[0] == "set" and l[1][0] == "ix" and l[1][2] == c("status") and l[2] == c("Done")]
            if not done:
                continue
            r = done[0][1][1]
            # potential
            ev = []
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and l[1][2] == c(0):
                    d = poly(l[2])
                    off = d.get(((("ix", r, c("offset")), 1),))
                    ev.append((l, off))
            R.ob("fan-out", fn + ": offset", len(ev) == 1 and ev[0][1] == -1 or not ev and any(l[0] == "set" and l[1] == ("ix", r, c("result")) and ("ix", r, c("offset")) in list(subterms(l[2])) for l in p.log), "%s completes a request %s" % (fn, "without subtracting its offset from the potential" if not ev else "with the potential set to %s" % show(ev[0][0][2])[:80]), f.loc(f.node))
            g = [(t, b) for t, b in p.guards if t[0] == "cmp" and t[1] in ("!=", "==") and {("len", ("ix", r, c("active"))), ("len", ("ix", r, c("pos")))} == set(t[2:])]
            if g:
                part = g[-1][1] if g[-1][0][1] == "!=" else not g[-1][1]
                sc = [l for l in p.log if l[0] == "set" and l[1][0] == "ix" and l[1][2] == ("ix", r, c("active"))]
                z = [l for l in p.log if l[0] == "set" and l[1][0] == "ix" and l[1][2] == c(1)]
                if part:
                    R.ob("fan-out", fn + ": active", len(sc) == 1 and (bool(z) or any(l[0] == "set" and l[1] == ("ix", r, c("result")) and l[2][0] == "tup" and l[2][2][1:2] == (sc[0][1][1],) for l in p.log)), "%s does not put the forces of an active subset in their place" % fn, f.loc(f.node))
                    for l in z:
                        v = l[2][2] if l[2][0] == "new" else l[2]
                        if v[0] == "call" and v[1] == ("ext", "numpy.zeros"):
                            R.ob("fan-out", fn + ": size", v[2][:1] == (("len", ("ix", r, c("pos"))),), "%s makes forces of size %s" % (fn, show(v)[:60]), f.loc(l[3]))
                        elif v[0] == "call" and v[1] == ("ext", "numpy.empty"):
                            R.fail("fan-out", fn + ": zero", "%s leaves the forces on inactive atoms undefined" % fn, f.loc(l[3]))
                else:
                    R.ob("fan-out", fn + ": whole system", not sc and not z, "%s replaces the forces of a request for the whole system" % fn, f.loc(f.node))
            if fn == "dispatch_recv_batch":
                lp = [t for k, t in done[0][4]] if len(done[0]) > 4 else []
                it = lp[-1] if lp else None
                if it is not None and it[0] == "call" and it[1] == ("ext", "zip") and len(it[2]) == 2:
                    res = [l for l in p.log if l[0] == "set" and l[1] == ("ix", r, c("result"))]
                    oth = [x for x in it[2] if x != ("arg", "reqs")]
                    ok = len(oth) == 1 and not (oth[0][0] == "ix" and oth[0][2][0] == "slice" and oth[0][2][1:] != (NONE, NONE, NONE) or oth[0][0] == "call" and oth[0][1] in (("ext", "reversed"), ("ext", "sorted")))
                    R.ob("fan-out", "dispatch_recv_batch: order", ok, "results are handed out over %s" % show(it)[:80], f.loc(f.node))


def natact(t):
    pos = [y for y in subterms(t) if y[0] == "ix" and y[2][0] == "ix" and y[2][2] == c("active")]
    if not pos:
        return not any(y[0] == "len" for y in subterms(t))
    return nat_of(t, pos[0]) == NAT


def mpi_rules(R, prog, paths, D):
    R.rule("mpi", "MPI messages have the same tags, types, sizes and layout on both sides", 1)
    try:
        M = prog.module("ipi.interfaces.mpi")
    except Exception:
        return
    for n in ("HELLO", "INIT", "WORK", "RESULT", "EXTRA", "EXIT"):
        a, b = M.assigns.get("MPI_TAG_" + n), D.assigns.get("MPI_TAG_" + n)
        if isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
            R.ob("mpi", "tag " + n, a.value == b.value == dict(HELLO=1, INIT=2, WORK=3, RESULT=4, EXTRA=5, EXIT=6)[n], "the tag of %s is %s in i-PI, %s in the Python client (%s in the Fortran client)" % (n, a.value, b.value, dict(HELLO=1, INIT=2, WORK=3, RESULT=4, EXTRA=5, EXIT=6)[n]), "%s:%d" % (M.path, a.lineno))

    def tag(t):
        """name of a tag"""
        v = {"1": 1}
        if t is None:
            return None
        if t[0] == "glob":
            return t[2].replace("MPI_TAG_", "")
        if t[0] == "c":
            for n in ("HELLO", "INIT", "WORK", "RESULT", "EXTRA", "EXIT"):
                if isinstance(M.assigns.get("MPI_TAG_" + n), ast.Constant) and M.assigns["MPI_TAG_" + n].value == t[1]:
                    return n
        return None

    def io(p):
        out = []
        for l in p.log:
            if l[0] == "call" and l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] in ("Send", "Recv") and l[1][2] and l[1][2][0][0] == "tup" and len(l[1][2][0][2]) == 2:
                kw = dict(l[1][3])
                buf, ty = l[1][2][0][2]
                out.append((l[1][1][2], buf, ty[2] if ty[0] == "attr" else ty[1].split(".")[-1] if ty[0] == "ext" else None, tag(kw.get("tag", l[1][2][2] if len(l[1][2]) > 2 else None)), l))
        return out
    im = prog.cls("InterfaceMPI")
    mw = prog.cls("MPIWorldManager")
    run_mpi = D.functions.get("run_driver_mpi")

    def dt_of(buf):
        v = buf[2] if buf[0] == "new" else buf
        if v[0] == "call" and v[1][0] == "ext":
            kw = dict(v[3])
            d = kw.get("dtype")
            if d is None and v[1][1].split(".")[-1] in ("array", "frombuffer", "zeros", "empty") and len(v[2]) > 1:
                d = v[2][1]
            return dtname(d) if d is not None else None
        return None
    T = {"INT": "i4", "DOUBLE": "f8", "BYTE": "u1"}

    def types(fq, p, f):
        for k, buf, ty, tg, l in io(p):
            d = dt_of(buf)
            if d is not None and ty in T:
                R.ob("mpi", "%s: type of %s" % (fq, tg), T[ty] == d, "%s: %s of %s transfers an array of %s as MPI.%s" % (fq, k, tg, d, ty), f.loc(l[2]))
    seqs = {}
    fns = [(im.find("_send_init"), im), (im.find("_collect"), im), (im.find("_dispatch"), im), (im.find("close"), im), (mw.find("_handshake"), mw)]
    for f, cls in fns:
        if f is None:
            continue
        for p in W(prog, keep=lambda x: x.name in ("_unpack_results", "_assign", "info", "warning")).run(f, cls):
            types(f.name, p, f)
            s = [(k, ty, tg) for k, buf, ty, tg, l in io(p)]
            if s and p.exit != "raise":
                seqs.setdefault(f.name, []).append((s, p, f))
    EXP = {"_send_init": [("Send", "INT", "INIT"), ("Send", "BYTE", "INIT")], "_collect": [("Recv", "DOUBLE", "RESULT"), ("Recv", "BYTE", "EXTRA")],
           "_dispatch": [("Send", "INT", "WORK"), ("Send", "DOUBLE", "WORK")], "close": [("Send", "INT", "EXIT")], "_handshake": [("Recv", "INT", "HELLO"), ("Recv", "BYTE", "HELLO")]}
    for n, want in EXP.items():
        for s, p, f in seqs.get(n, []):
            if all(x[2] is not None and x[1] is not None for x in s):
                R.ob("mpi", n + ": messages", s == want, "%s exchanges %s instead of %s" % (n, s, want), f.loc(f.node))
    # _dispatch: layout of the work
    for s, p, f in seqs.get("_dispatch", []):
        snd = io(p)
        hdr, body = snd[0][1], snd[1][1] if len(snd) > 1 else None
        hv = hdr[2] if hdr[0] == "new" else hdr
        if body is None:
            continue
        lay, dup = {}, []
        for l in p.log:
            if l[0] == "set" and l[1][0] == "ix" and l[1][1] == body and l[1][2][0] == "slice":
                v = bare(l[2])
                if v[0] == "attr" and v[2] == "T":
                    R.fail("mpi", "_dispatch: transpose", "_dispatch packs the transpose of %s" % show(v[1])[:40], f.loc(l[3]))
                k = v[2] if v[0] == "ix" else None
                role = "h" if k == c(0) else "ih" if k == c(1) else "pos" if k == c("pos") else None
                if role in lay and role is not None:
                    R.fail("mpi", "_dispatch: twice", "_dispatch packs %s twice" % role, f.loc(l[3]))
                lay[role] = (l[1][2][1], l[1][2][2], l)
        if set(lay) == {"h", "ih", "pos"} and hv[0] == "call" and hv[2] and hv[2][0][0] == "tup" and len(hv[2][0][2]) == 2:
            nat, nb = hv[2][0][2]
            iv = [y for y in subterms(lay["h"][0]) if y[0] == "iv"]
            if not iv:
                continue
            st = add(c(18), mul(c(3), nat))
            off = mul(iv[0], st)
            for role, a, b in (("h", c(0), c(9)), ("ih", c(9), c(18)), ("pos", c(18), st)):
                R.ob("mpi", "_dispatch: " + role, lay[role][0] == add(off, a) and lay[role][1] == add(off, b), "_dispatch packs %s of a structure at [%s:%s]" % (role, show(lay[role][0])[:60], show(lay[role][1])[:60]), f.loc(lay[role][2][3]))
            bv = body[2] if body[0] == "new" else body
            if bv[0] == "call" and bv[2]:
                R.ob("mpi", "_dispatch: size", size(bv[2][0]) == mul(nb, st), "_dispatch sends %s numbers for a batch" % show(size(bv[2][0]))[:60], f.loc(f.node))
            bt = [y for y in subterms(nb) if y[0] == "len"]
            R.ob("mpi", "_dispatch: header", nb[0] == "len" and natlike(nat), "_dispatch announces [%s, %s] as number of atoms and batch" % (show(nat)[:40], show(nb)[:40]), f.loc(f.node))
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and l[1][2] == c("nat"):
                    R.ob("mpi", "_dispatch: slot", l[2] == nat, "the slot remembers %s as the number of atoms" % show(l[2])[:40], f.loc(l[3]))
                if l[0] == "set" and l[1][0] == "ix" and l[1][2] == c("requests") and nb[0] == "len":
                    R.ob("mpi", "_dispatch: slot requests", l[2] == nb[1], "the slot remembers other requests than those sent", f.loc(l[3]))
    f = D.functions.get("_mpi_eval_batch")
    if f is not None:
        ar = [x.arg for x in f.node.args.args]
        body, nat = ("arg", ar[1]), ("arg", ar[2])
        st = add(c(18), mul(c(3), nat))
        for p in paths(f):
            cd = [l for l in p.log if l[0] == "call" and l[1][0] == "call" and l[1][1] == ("arg", ar[0])]
            for l in cd:
                got = []
                for y in l[1][2]:
                    ap = [z[1][2][0] for z in p.log if z[0] == "call" and z[1][0] == "call" and z[1][1] == ("attr", y, "append") and len(z[1][2]) == 1]
                    e = bare(ap[0]) if ap else bare(y[1]) if y[0] == "comp" else None
                    got.append((e[2][1], e[2][2]) if e is not None and e[0] == "ix" and e[1] == body and e[2][0] == "slice" else None)
                if len(got) == 2 and None not in got:
                    iv = [y for y in subterms(got[0][0]) if y[0] == "iv"]
                    if iv:
                        off = mul(iv[0], st)
                        R.ob("mpi", "_mpi_eval_batch: cell", got[0] == (off, add(off, c(9))), "the client takes the cell from [%s:%s]" % tuple(show(x)[:50] for x in got[0]), f.loc(l[2]))
                        R.ob("mpi", "_mpi_eval_batch: positions", got[1] == (add(off, c(18)), add(off, st)), "the client takes the positions from [%s:%s]" % tuple(show(x)[:50] for x in got[1]), f.loc(l[2]))
    # results
    f = D.functions.get("_mpi_send_results")
    if f is not None:
        ar = [x.arg for x in f.node.args.args]
        nat = ("arg", "nat") if "nat" in ar else ("arg", ar[3])
        st = add(c(10), mul(c(3), nat))
        for p in paths(f):
            types("_mpi_send_results", p, f)
            snd = io(p)
            s = [(k, ty, tg) for k, b, ty, tg, l in snd]
            if s and all(x[2] is not None for x in s):
                R.ob("mpi", "_mpi_send_results: messages", s == [("Send", "DOUBLE", "RESULT"), ("Send", "BYTE", "EXTRA")], "the client answers with %s" % s, f.loc(f.node))
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and snd and l[1][1] == snd[0][1]:
                    v = bare(l[2])
                    if v[0] == "attr" and v[2] == "T":
                        R.fail("mpi", "_mpi_send_results: transpose", "the client packs the transpose of %s" % show(v[1])[:40], f.loc(l[3]))
                    if v[0] != "ix" or v[2][0] != "c":
                        continue
                    iv = [y for y in subterms(l[1][2]) if y[0] == "iv"]
                    if not iv:
                        continue
                    off = mul(iv[0], st)
                    role = {0: "pot", 1: "force", 2: "vir"}.get(v[2][1])
                    want = {"pot": off, "force": ("slice", add(off, c(1)), add(off, add(c(1), mul(c(3), nat))), NONE), "vir": ("slice", add(off, add(c(1), mul(c(3), nat))), add(off, st), NONE)}.get(role)
                    if want is not None:
                        R.ob("mpi", "_mpi_send_results: " + role, l[1][2] == want, "the client packs %s at %s" % (role, show(l[1][2])[:100]), f.loc(l[3]))
            if snd:
                bv = snd[0][1][2] if snd[0][1][0] == "new" else snd[0][1]
                if bv[0] == "call" and bv[2]:
                    n = size(bv[2][0])
                    R.ob("mpi", "_mpi_send_results: size", n == mul(("len", ("arg", "results")), st) or not any(y == nat for y in subterms(n)), "the client sends %s numbers" % show(n)[:60], f.loc(f.node))
    f = im.find("_unpack_results")
    if f is not None:
        ar = [x.arg for x in f.node.args.args]
        nat, num, eb = ("arg", ar[2]), ("arg", ar[3]), ("arg", ar[4])
        st = add(c(10), mul(c(3), nat))
        for p in paths(f, im):
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and l[1][2] == c("result") and l[2][0] == "tup" and len(l[2][2]) == 4:
                    pot, fo, vi, ex = l[2][2]
                    iv = [y for y in subterms(l[2]) if y[0] == "iv"]
                    if not iv:
                        continue
                    off = mul(iv[0], st)
                    d = poly(pot)
                    src = [m[0][0] for m, v in d.items() if v == 1 and len(m) == 1]
                    other = [(m[0][0], v) for m, v in d.items() if len(m) == 1 and v != 1]
                    src = [plain(x) for x in src]
                    if src and src[0][0] == "ix" and src[0][1] == num:
                        R.ob("mpi", "_unpack_results: pot", src[0][2] == off, "the potential is taken from %s" % show(src[0][2])[:60], f.loc(l[3]))
                        o = [x for x in other if x[0][0] == "attr" and x[0][2] == "offset" or x[0][0] == "ix" and x[0][2] == c("offset")]
                        R.ob("mpi", "_unpack_results: offset", len(o) == 1 and o[0][1] == -1 and len(d) == 2, "the potential becomes %s" % show(pot)[:80], f.loc(l[3]))
                    for role, t, a, b in (("force", fo, add(off, c(1)), add(off, add(c(1), mul(c(3), nat)))), ("vir", vi, add(off, add(c(1), mul(c(3), nat))), add(off, st))):
                        v = bare(t)
                        if v[0] == "ix" and v[1] == num and v[2][0] == "slice":
                            R.ob("mpi", "_unpack_results: " + role, v[2][1:3] == (a, b), "%s is taken from [%s:%s]" % (role, show(v[2][1])[:60], show(v[2][2])[:60]), f.loc(l[3]))
                    # the extras follow each other: length, then that many bytes
                    ln = [y for q in p.log if q[0] == "call" for y in subterms(q[1]) if y[0] == "call" and y[1] == ("ext", "numpy.frombuffer") and y[2] and y[2][0][0] == "ix" and y[2][0][1] == eb and y[2][0][2][0] == "slice"]
                    if ln:
                        lo, hi = ln[0][2][0][2][1:3]
                        el = ("call", ("ext", "int"), (("ix", ln[0], c(0)),), ())
                        R.ob("mpi", "_unpack_results: extra length", hi == add(lo, c(4)), "the length of an extra string is read from [%s:%s]" % (show(lo)[:40], show(hi)[:40]), f.loc(l[3]))
                        for y in [y for y in subterms(ex) if y[0] == "ix" and y[1] == eb and y[2][0] == "slice" and y != ln[0][2][0]]:
                            if el in list(subterms(y[2][2])):
                                R.ob("mpi", "_unpack_results: extra text", y[2][1] == add(lo, c(4)) and y[2][2] == add(add(lo, c(4)), el), "an extra string is read from [%s:%s]" % (show(y[2][1])[:60], show(y[2][2])[:60]), f.loc(l[3]))
                        if lo[0] == "carry":
                            fin = p.env.get(lo[1])
                            R.ob("mpi", "_unpack_results: next extra", fin is None or fin == add(add(lo, c(4)), el) or fin[0] not in ("p", "carry"), "after an extra string the next one is looked for at %s" % show(fin or NONE)[:60], f.loc(l[3]))
    for s, p, f in seqs.get("_collect", []):
        rc = io(p)
        if rc:
            bv = rc[0][1][2] if rc[0][1][0] == "new" else rc[0][1]
            n = size(bv[2][0]) if bv[0] == "call" and bv[2] else None
            call = [l[1][2] for l in p.log if l[0] == "call" and l[1][0] == "call" and l[1][1] == ("attr", ("arg", "self"), "_unpack_results")]
            if n is not None and call and len(call[0]) == 4:
                a = call[0]
                R.ob("mpi", "_collect: size", n == mul(("len", a[0]), add(c(10), mul(c(3), a[1]))), "_collect makes room for %s numbers" % show(n)[:80], f.loc(f.node))
                R.ob("mpi", "_collect: roles", a[2] == rc[0][1] and (len(rc) < 2 or a[3] == rc[1][1]), "_collect hands on the received buffers in another order", f.loc(f.node))
    # handshake
    for s, p, f in seqs.get("_handshake", []):
        rc = io(p)
        for l in p.log:
            if l[0] == "call" and l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "append" and len(l[1][2]) == 1:
                v = plain(l[1][2][0])
                if v[0] == "ix" and v[1] == rc[0][1]:
                    R.ob("mpi", "_handshake: root", v[2] == c(0), "the root rank is taken from entry %s of HELLO" % show(v[2]), f.loc(l[2]))
        for t in {y for l in p.log for y in subterms(l[1]) if y[0] == "ix" and y[1] == rc[0][1] and y[2][0] == "slice"}:
            R.ob("mpi", "_handshake: members", t[2][1] == c(2) and t[2][2] == NONE, "the members of a group are taken from entries %s of HELLO" % show(t[2]), f.loc(f.node))
    if run_mpi is not None:
        groups = {}
        for p in paths(run_mpi):
            types("run_driver_mpi", p, run_mpi)
            for k, buf, ty, tg, l in io(p):
                groups.setdefault((k, tg), set()).add(ty)
                v = buf[2] if buf[0] == "new" else buf
                if k == "Recv" and tg == "WORK" and ty == "DOUBLE" and v[0] == "call" and v[2]:
                    n = size(v[2][0])
                    hd = [y[1] for y in subterms(n) if y[0] == "ix" and y[2] in (c(0), c(1))]
                    if hd:
                        nt, nb = [ci for ci in ({y for y in subterms(n) if y[0] == "call" and y[1] == ("ext", "int") and y[2][0] == ("ix", hd[0], c(i))} or {("ix", hd[0], c(i))} for i in (0, 1))]
                        nt, nb = list(nt)[0], list(nb)[0]
                        R.ob("mpi", "run_driver_mpi: work size", n == mul(nb, add(c(18), mul(c(3), nt))), "the client makes room for %s numbers" % show(n)[:80], run_mpi.loc(l[2]))
                if k == "Recv" and tg == "INIT" and ty == "BYTE" and v[0] == "call" and v[2]:
                    n = plain(size(v[2][0]))
                    if n[0] == "ix":
                        R.ob("mpi", "run_driver_mpi: init length", n[2] == c(1), "the client takes the length of the parameters from entry %s of the header" % show(n[2]), run_mpi.loc(l[2]))
                if k == "Send" and tg == "HELLO" and ty == "INT" and v[0] == "call" and v[2]:
                    t = v[2][0]
                    d = poly(t) if t[0] == "p" else None
                    lst = [m[0][0] for m in (d or {}) if len(m) == 1 and m[0][0][0] == "tup"]
                    if lst and len(lst[0][2]) == 2:
                        a, b = lst[0][2]
                        R.ob("mpi", "run_driver_mpi: hello", "Get_size" in show(b) and "Get_size" not in show(a) and "Get_rank" in show(a), "the client introduces itself with [%s, %s, members]" % (show(a)[:40], show(b)[:40]), run_mpi.loc(l[2]))
            ev = [l for l in p.log if l[0] == "call" and l[1][0] == "call" and l[1][1][0] == "fn" and l[1][1][1].endswith((":_mpi_eval_batch", ":_mpi_send_results"))]
        for kt, want in ((("Recv", "INIT"), {"INT", "BYTE"}), (("Recv", "WORK"), {"INT", "DOUBLE"}), (("Recv", "EXIT"), {"INT"}), (("Send", "HELLO"), {"INT", "BYTE"})):
            if groups and all(k[1] is not None for k in groups):
                R.ob("mpi", "run_driver_mpi: %s %s" % kt, groups.get(kt) == want, "the client transfers %s as %s, i-PI as %s" % (kt[1], sorted(groups.get(kt, [])), sorted(want)), run_mpi.loc(run_mpi.node))


def natlike(t):
    pos = [y for y in subterms(t) if y[0] == "ix" and y[2] == c("pos")]
    return not pos or nat_of(t, pos[0]) == NAT


if __name__ == "__main__":
    main(run, PID)
