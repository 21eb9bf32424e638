"""C07: random numbers come from the seeded generator of the simulation, completely and for every thread count."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.interp import events, walk, Branch, pstr
from vlib.futures import submitted, names
from vlib.flow import CFlow
from vlib.repo import AnalysisBroken

PID = "C07"
OWN = "ipi.utils.prng"
SCOPE = ("ipi.engine", "ipi.utils", "ipi.inputs", "ipi.interfaces")


def scoped(m):
    for n, mod in sorted(m.prog.modules.items()):
        if n.startswith(SCOPE):
            yield n, mod


# ---------------------------------------------------------------- R1: no other source of randomness
def sources(rep, m):
    rep.rule("source", "no random number comes from another generator than the one the simulation stores in its checkpoints", 60)
    for n, mod in scoped(m):
        rnd = set()
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Import):
                rnd |= {(a.asname or a.name).split(".")[0] for a in x.names if a.name.split(".")[0] in ("random", "secrets", "uuid") or a.name == "numpy.random" and a.asname}
            elif isinstance(x, ast.ImportFrom) and x.module and not x.level and (x.module.split(".")[0] in ("random", "secrets") or x.module == "numpy.random"):
                rnd |= {a.asname or a.name for a in x.names}
            elif isinstance(x, ast.ImportFrom) and x.module in ("numpy", "scipy") and any(a.name == "random" for a in x.names):
                rnd |= {a.asname or a.name for a in x.names if a.name == "random"}
        bad = []
        if n != OWN:
            for x in ast.walk(mod.tree):
                if isinstance(x, ast.Attribute) and x.attr == "random" and isinstance(x.value, ast.Name) and x.value.id in ("np", "numpy", "scipy"):
                    bad.append(x)
                elif isinstance(x, ast.Name) and x.id in rnd and isinstance(x.ctx, ast.Load):
                    bad.append(x)
                elif isinstance(x, ast.Attribute) and x.attr == "urandom":
                    bad.append(x)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "rvs" and not any(k.arg == "random_state" for k in x.keywords):
                    bad.append(x)
        rep.ob("source", n, not bad, "random numbers are drawn from a generator that is neither seeded by the input nor stored in the checkpoint", "%s:%d" % (mod.path if hasattr(mod, "path") else n, bad[0].lineno) if bad else "")
        # generators made on the side
        if n == OWN or n.startswith("ipi.inputs"):
            continue
        for f in mod_functions(mod):
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "Random" or isinstance(x.func, ast.Attribute) and x.func.attr == "Random"):
                    rep.ob("source", "%s.%s:own" % (n, f.name), none_guard(f, x), "a component makes its own generator although it may be given the one of the simulation", "%s:%d" % (getattr(mod, "path", n), x.lineno))


def mod_functions(mod):
    seen = set()
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.FunctionDef) and x not in seen:
            seen.add(x)
            yield x


def none_guard(f, call):
    """only when no generator was given"""
    def test(e, pol):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return test(e.operand, not pol)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and "prng" in ast.dump(e.left):
            return isinstance(e.ops[0], (ast.Is, ast.Eq)) == pol
        if isinstance(e, (ast.Name, ast.Attribute)) and "prng" in ast.dump(e):
            return not pol
        return False
    for x in ast.walk(f):
        if isinstance(x, ast.If):
            if any(y is call for b in x.body for y in ast.walk(b)) and test(x.test, True):
                return True
            if any(y is call for b in x.orelse for y in ast.walk(b)) and test(x.test, False):
                return True
            # if prng is not None: self.prng = prng; return
            if test(x.test, False) and x.body and isinstance(x.body[-1], (ast.Return, ast.Raise)) and call.lineno > x.lineno:
                return True
        if isinstance(x, ast.IfExp):
            if any(y is call for y in ast.walk(x.body)) and test(x.test, True) or any(y is call for y in ast.walk(x.orelse)) and test(x.test, False):
                return True
        if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.Or) and any(y is call for y in ast.walk(x.values[-1])) and "prng" in ast.dump(x.values[0]):
            return True
    return False


# ---------------------------------------------------------------- R2: the generator is handed on
def has_prng(fn):
    return fn is not None and "prng" in [a.arg for a in fn.node.args.args + fn.node.args.kwonlyargs]


def good(v):
    return any(a[0] == "obj" and a[1] and a[1][-1].split(":")[-1] in ("prng", "_prng") for a in v or ())


def handed(rep, m):
    rep.rule("handed-on", "every part that draws random numbers is given the generator of what it belongs to, on every path", 60)
    nb = 0
    for c in sorted(m.prog.all_classes(), key=lambda k: (k.module.name, k.name)):
        if not c.module.name.startswith("ipi.engine"):
            continue
        todo = [f for n, f in sorted(c.methods.items()) if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "bind" for x in ast.walk(f.node))]
        for f in todo:
            ip = m.interp(maxdepth=3, inline=lambda fn, k, d: fn.name != "bind" and fn.module.name.startswith("ipi.engine"))
            ip.roots[("self",)] = c
            t = ip.run(f, c)
            for e in events(t):
                if e.kind != "call" or not (e.label or "").endswith(".bind") or e.fn is not f:
                    continue
                tg = [a[1].func for a in e.fval or () if a[0] == "func" and getattr(a[1], "func", None) is not None]
                tg = [g for g in tg if has_prng(g)]
                if not tg:
                    continue
                for g in tg:
                    v = arg_of(e, g)
                    nb += 1
                    star = isinstance(e.node, ast.Call) and (any(isinstance(a, ast.Starred) for a in e.node.args) or any(k.arg is None for k in e.node.keywords))
                    rep.ob("handed-on", "%s.%s>%s" % (c.name, f.name, e.label), star or good(v),
                           "%s is set up without the generator: it draws from one of its own, or fails" % e.label, e.loc())
        # kept
        b = c.find("bind")
        if not has_prng(b) or not any(isinstance(x, ast.Attribute) and x.attr == "prng" and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self"
                                      for k in c.mro() for g in k.methods.values() for x in ast.walk(g.node)):
            continue
        ip = m.interp(maxdepth=5, inline=lambda fn, k, d: fn.module.name.startswith("ipi.engine") and (fn.name != "bind" or fn.cls is not None and fn.cls in c.mro()))
        ip.roots[("self",)] = c
        t = ip.run(b, c)
        bad = {}

        def step(e, s):
            if e.kind == "write" and e.path == ("self", "prng") and e.how == "set":
                inst = any(a[0] == "inst" for a in e.val)
                if good(e.val):
                    return [1]
                if inst and s != "none":
                    bad["own"] = (e, "it replaces the generator it was given by one of its own")
                elif not inst and not good(e.val):
                    bad["own"] = (e, "it keeps something else than the generator it was given")
                return [1]
            return [s]

        def at(test, fn, s):
            if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None \
                    and isinstance(test.left, ast.Name) and test.left.id == "prng":
                return (["none"], [s]) if isinstance(test.ops[0], (ast.Is, ast.Eq)) else ([s], ["none"])
            return None
        r = CFlow(step, catom=at).run(t, [0])
        if any(s == 0 for k in ("fall", "return") for s in r.get(k, ())):
            # parts may keep it instead (composite thermostats)
            uses = any(isinstance(x, ast.Attribute) and x.attr == "prng" and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self" for g in active(c) for x in ast.walk(g.node))
            if uses:
                bad.setdefault("kept", (None, "there is a path through %s on which it does not keep the generator" % b.qual))
        for k in ("own", "kept"):
            q = bad.get(k)
            rep.ob("handed-on", "%s:%s" % (c.name, k), q is None, q[1] if q else "", (q[0].loc() if q[0] else b.loc(b.node)) if q else b.loc(b.node))
    if nb < 20:
        raise AnalysisBroken("only %d calls that hand on the generator were resolved" % nb)


def active(c):
    seen = {}
    for k in c.mro():
        for n, g in k.methods.items():
            seen.setdefault(n, g)
    return seen.values()


def arg_of(e, g):
    if "prng" in e.kwargs:
        return e.kwargs["prng"]
    ps = [a.arg for a in g.node.args.args]
    if ps and ps[0] == "self":
        ps = ps[1:]
    i = ps.index("prng") if "prng" in ps else None
    if i is not None and i < len(e.args):
        return e.args[i]
    return None


# ---------------------------------------------------------------- R3: the generator itself
def generator(rep, m):
    rep.rule("complete", "an array of random numbers is filled completely, with every thread count, before it is returned", 5)
    rep.rule("state", "seed and state cover all generators, and each thread has its own", 4)
    rep.rule("interface", "draws are passed on to the generator with their parameters", 6)
    c = m.prog.cls("Random")
    fills = [f for n, f in sorted(c.methods.items()) if "out" in [a.arg for a in f.node.args.args]]
    if len(fills) < 1:
        raise AnalysisBroken("no method that fills an array")
    for f in fills:
        fill(rep, c, f)
    for n, f in sorted(c.methods.items()):
        for call, ok in submitted(f.node):
            rep.ob("complete", "%s:waited" % n, ok is not False, "the array is returned while threads are still filling it", f.loc(call))
    # arrays that are returned
    fnames = {f.name for f in fills} | {x.targets[0].attr for k in c.methods.values() for x in ast.walk(k.node) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute)
                                        and isinstance(x.value, ast.Attribute) and x.value.attr in {f.name for f in fills}}
    for n, f in sorted(c.methods.items()):
        new = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in ("empty", "zeros", "ones", "full", "empty_like")
               for t in x.targets if isinstance(t, ast.Name)}
        if not new or f in fills:
            continue
        rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
        for r in rets:
            v = names(r.value) & new
            ok = not v or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr in fnames and any(names(a) & v for a in x.args) or any(k.arg == "out" and names(k.value) & v for k in x.keywords))
                              and x.lineno <= r.lineno for x in ast.walk(f.node)) \
                or any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and names(x.targets[0].value) & v for x in ast.walk(f.node))
            rep.ob("complete", n + ":filled", ok, "an array is returned without having been filled", f.loc(r))
    # dispatch by thread count
    init = c.find("__init__")
    for at in ("gvec", "gfill"):
        if at in c.methods:
            rep.ob("interface", at, True)
            continue
        pairs = []
        for x in ast.walk(init.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Tuple) and isinstance(x.value, ast.Tuple) and len(t.elts) == len(x.value.elts):
                        pairs += list(zip(t.elts, x.value.elts))
                    else:
                        pairs.append((t, x.value))
        vals = {z.attr for t, v in pairs if isinstance(t, ast.Attribute) and t.attr == at for z in ([v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]) if isinstance(z, ast.Attribute)}
        if not vals and any(isinstance(t, ast.Attribute) and t.attr == at for t, v in pairs):
            continue
        ok = bool(vals) and all(v in c.methods and (at == "gfill") == ("out" in [a.arg for a in c.methods[v].node.args.args]) for v in vals)
        rep.ob("interface", at, ok, "%s stands for %s" % (at, sorted(vals)), init.loc(init.node))
    # interface
    std = {"u": ("uniform", "random", "random_sample"), "g": ("standard_normal", "normal")}
    for n, f in sorted(c.methods.items()):
        if n in fnames or n.startswith("_") or n in ("get_state", "set_state") or "shape" in [a.arg for a in f.node.args.args] or f in fills:
            continue
        calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and "'rng'" in ast.dump(x.func.value)]
        if not calls:
            continue
        ps = [a.arg for a in f.node.args.args][1:]
        ok = True
        why = ""
        for x in calls:
            if n in std and x.func.attr not in std[n] or n not in std and x.func.attr != n and n in ("gamma", "poisson", "uniform", "integers", "shuffle"):
                ok, why = False, "%s draws from the distribution %s" % (n, x.func.attr)
            got = [getattr(a, "id", "?") for a in x.args]
            kw = {k.arg: getattr(k.value, "id", "?") for k in x.keywords}
            exp = [p for p in ps]
            for i, p in enumerate(exp):
                if i < len(got):
                    if got[i] != p and got[i] in ps:
                        ok, why = False, "the parameters are passed in the wrong order"
                elif p not in kw.values():
                    ok, why = False, "the parameter %s is not passed on" % p
        rep.ob("interface", n, ok, why, f.loc(f.node))
    # seeds
    gens = [x for x in ast.walk(init.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "rng" for t in x.targets)]
    ok = bool(gens)
    why = "no generators are made"
    for x in gens:
        v = x.value
        if isinstance(v, ast.ListComp):
            tv = names(v.generators[0].target)
            it = v.generators[0].iter
            if not tv & names(v.elt) or isinstance(it, ast.BinOp) and isinstance(it.op, ast.Mult) and any(isinstance(y, (ast.List, ast.Tuple)) for y in (it.left, it.right)):
                ok, why = False, "all threads use the same random numbers: their generators are seeded alike"
            src = names(v.generators[0].iter) | names(v.elt)
            d = ast.dump(v.generators[0].iter) + ast.dump(v.elt)
            if "'seed'" not in d and not any(isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id in src for t in y.targets) and "'seed'" in ast.dump(y.value) for y in ast.walk(init.node)):
                ok, why = False, "the generators do not depend on the seed"
        elif isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
            ok, why = False, "all threads share one generator"
    rep.ob("state", "seeds", ok, why, init.loc(init.node))
    ok = any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "state" for t in x.targets) and "state" in names(x.value) for x in ast.walk(init.node)) \
        or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "set_state" and any("state" in names(a) for a in x.args) for x in ast.walk(init.node))
    uses = [x for x in ast.walk(init.node) if isinstance(x, ast.If) and any(isinstance(y, ast.Attribute) and y.attr in ("state", "set_state") for b in x.body for y in ast.walk(b))]
    odd = [x for x in uses if names(x.test) - {"state", "None"} or any(isinstance(y, ast.Attribute) for y in ast.walk(x.test))]
    ok = ok and not odd
    rs = [x for x in ast.walk(init.node) if isinstance(x, ast.If) and any(isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "seed" or isinstance(t, ast.Attribute) and t.attr == "seed" for t in y.targets) and "seed" not in names(y.value) for b in x.body for y in ast.walk(b))]
    rep.ob("state", "seed-given", all(names(x.test) == {"seed"} and not isinstance(x.test, ast.Name) for x in rs), "a seed that is given is replaced by another", init.loc(init.node))
    rep.ob("state", "given", ok, "a state that is given is not used", init.loc(init.node))
    g, s = c.find("get_state"), c.find("set_state")
    if g is None or s is None:
        raise AnalysisBroken("Random.get_state/set_state not found")
    for f, what in ((g, "stored"), (s, "restored")):
        lo = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.comprehension)) and "'rng'" in ast.dump(x.iter) or isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Call) and getattr(x.iter.func, "id", "") in ("range", "enumerate")]
        ok = bool(lo) and all(not getattr(x, "ifs", []) and not any(isinstance(y, ast.Slice) for y in ast.walk(x.iter)) for x in lo) \
            and any(isinstance(y, ast.Attribute) and y.attr == "state" and isinstance(y.ctx, ast.Store if f is s else ast.Load) for y in ast.walk(f.node)) \
            and not any(isinstance(y, (ast.Break, ast.Continue)) for y in ast.walk(f.node)) and not any(isinstance(y, ast.Return) for x in lo if isinstance(x, ast.For) for b in x.body for y in ast.walk(b))
        rep.ob("state", what, ok, "not the state of all generators is %s" % what, f.loc(f.node))


COPY = ("flatten", "copy", "tolist", "astype")
VIEW = ("reshape", "ravel", "view", "squeeze", "swapaxes", "transpose")


def whole(sl):
    """the index does not leave out elements by a constant"""
    return not any(isinstance(y, ast.Constant) and isinstance(y.value, int) for y in ([sl] if not isinstance(sl, ast.Tuple) else sl.elts)) \
        and not any(isinstance(y, ast.Constant) and y.value not in (0, None, Ellipsis) for y in ast.walk(sl))


def fill(rep, c, f):
    n = f.name
    alias, copies = {"out"}, set()
    for _ in range(3):
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)):
                continue
            t, v = x.targets[0].id, x.value
            if isinstance(v, ast.Name) and v.id in alias or isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and v.value.id in alias or isinstance(v, ast.Attribute) and v.attr in ("T", "flat") and names(v) <= alias:
                alias.add(t)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in VIEW and isinstance(v.func.value, ast.Name) and v.func.value.id in alias:
                alias.add(t)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and (v.func.attr in COPY and names(v.func.value) & alias or v.func.attr in ("empty", "zeros", "empty_like", "array", "ascontiguousarray", "standard_normal")):
                copies.add(t)
    back = {}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and names(t.value) & alias and whole(t.slice) or isinstance(t, ast.Attribute) and t.attr == "flat" and names(t.value) & alias for t in x.targets):
            for y in names(x.value) & copies:
                if not any(isinstance(z, ast.Subscript) and names(z.value) & copies and not whole(z.slice) for z in ast.walk(x.value)):
                    back[y] = x
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("copyto",) and len(x.args) == 2 and names(x.args[0]) & alias:
            for y in names(x.args[1]) & copies:
                back[y] = x
    fillers = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and any(k.arg == "out" for k in x.keywords)]
    for x in fillers:
        e = [k.value for k in x.keywords if k.arg == "out"][0]
        r = names(e) & (alias | copies)
        if r & copies and not r & alias:
            ok = all(y in back and back[y].lineno > x.lineno for y in r & copies)
            rep.ob("complete", "%s:target" % n, ok, "the random numbers go into a copy: the array that was to be filled stays as it was", f.loc(x))
        elif r:
            rep.ob("complete", "%s:target" % n, True)

    # every path fills
    ok = paths_fill(f.node.body, alias)
    rep.ob("complete", "%s:paths" % n, ok, "there is a path on which the array is not filled", f.loc(f.node))

    # the pieces of the threads cover the array
    for x in fillers + [y for y in ast.walk(f.node) if isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Subscript) and names(y.targets[0].value) & (alias | copies)]:
        e = [k.value for k in x.keywords if k.arg == "out"][0] if isinstance(x, ast.Call) else x.targets[0]
        if not (isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice)) or e.slice.lower is None and e.slice.upper is None:
            continue
        lp = [y for y in ast.walk(f.node) if isinstance(y, (ast.For, ast.comprehension)) and isinstance(y.iter, ast.Call) and getattr(y.iter.func, "id", "") == "range" and names(y.target) & names(e.slice)]
        if not lp:
            continue
        iv = next(iter(names(lp[0].target)))
        # one generator for each piece
        if isinstance(x, ast.Call):
            sub = [y for y in ast.walk(f.node) if isinstance(y, ast.Call) and any(z is x for z in ast.walk(y))]
            gi = [y for q in sub for y in ast.walk(q) if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Attribute) and y.value.attr == "rng"]
            rep.ob("state", "%s:own-generator" % n, all(iv in names(y.slice) for y in gi), "several threads draw from the same generator at the same time", f.loc(x))
        bad = None
        for nt in (1, 2, 3, 4, 7):
            for ln in range(nt, 40):
                env = {"n_threads": nt, "__len__": ln}
                rng = lp[0].iter.args
                cnt = num(rng[-1] if len(rng) < 3 else None, f, env)
                if cnt is None or cnt is False:
                    bad = "?"
                    break
                cov = set()
                for i in range(int(cnt)):
                    lo = num(e.slice.lower, f, dict(env, **{iv: i})) if e.slice.lower is not None else 0
                    up = num(e.slice.upper, f, dict(env, **{iv: i})) if e.slice.upper is not None else ln
                    if lo is None or up is None:
                        bad = "?"
                        break
                    cov |= set(range(int(lo), min(int(up), ln)))
                if bad:
                    break
                if len(cov) != ln:
                    bad = (nt, ln, len(cov))
                    break
            if bad:
                break
        if bad == "?":
            continue
        rep.ob("complete", "%s:pieces" % n, bad is None, "with %d threads only %d of %d random numbers are drawn" % (bad[0], bad[2], bad[1]) if bad else "", f.loc(e))


def paths_fill(stmts, alias, k=0):
    """all paths from stmts[k] fill"""
    for i in range(k, len(stmts)):
        s = stmts[i]
        if isinstance(s, ast.If):
            if isinstance(s.test, ast.Constant):
                return paths_fill((s.body if s.test.value else s.orelse) + stmts[i + 1:], alias)
            return paths_fill(s.body + stmts[i + 1:], alias) and paths_fill(s.orelse + stmts[i + 1:], alias)
        if isinstance(s, ast.Return):
            return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and "fill" in x.func.attr for x in ast.walk(s))
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and (any(q.arg == "out" for q in x.keywords) or isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and any(names(a) & alias for a in x.args)):
                return True
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and names(t.value) & alias for t in x.targets):
                return True
    return False


def num(e, f, env, depth=0):
    """folds an integer expression of the number of threads and the length of the array"""
    import math
    if e is None or depth > 12:
        return None
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, (int, float)) else None
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        ds = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
        return num(ds[0], f, env, depth + 1) if len(ds) == 1 else None
    if isinstance(e, ast.Attribute):
        if e.attr in env:
            return env[e.attr]
        if e.attr == "size":
            return env["__len__"]
        return None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = num(e.operand, f, env, depth + 1)
        return None if v is None else -v
    if isinstance(e, ast.BinOp):
        a, b = num(e.left, f, env, depth + 1), num(e.right, f, env, depth + 1)
        if a is None or b is None:
            return None
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}[type(e.op)]()
        except (KeyError, ZeroDivisionError):
            return None
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if nm == "astype":
            v = num(e.func.value, f, env, depth + 1)
            return None if v is None else int(v)
        if nm == "len":
            return env["__len__"]
        vs = [num(a, f, env, depth + 1) for a in e.args]
        if any(v is None for v in vs) or not vs:
            return None
        if nm == "ceil":
            return math.ceil(vs[0])
        if nm == "floor":
            return math.floor(vs[0])
        if nm in ("int", "int32", "int64", "round"):
            return int(vs[0])
        if nm == "max":
            return max(vs)
        if nm == "min":
            return min(vs)
    return None


def check(tier):
    rep = Report(PID, tier, "effect analysis of who draws from which generator; dataflow of the filled arrays", "all modules of ipi.engine, ipi.utils, ipi.inputs and ipi.interfaces; class Random")
    m = model()
    rep.part("sources", sources, rep, m)
    rep.part("handed", handed, rep, m)
    rep.part("generator", generator, rep, m)
    return rep.finish()


if __name__ == "__main__":
    main(check, PID)
