"""C04: observing a simulation does not change it."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.repo import Cls, AnalysisBroken
from vlib.interp import pstr, events, Frame, Seq, FuncVal
from vlib.depgraph import _caller
from vlib.flow import Flow

PID = "C04"
SCRATCH = {"dbeads", "dcell", "dforces"}
# bookkeeping of what was already written, part of the output machinery rather than of the physical state
OUTPUT_BOOKKEEPING = {("InputAlKMC.store", "ncache_stored")}
DRAWS = {"step"}


def partial(e):
    """whether a write sets only some of the coordinates of the beads it goes to"""
    if e.how not in ("item", "itemaug"):
        return e.how == "aug"
    t = None
    for x in ast.walk(e.node):
        if isinstance(x, (ast.Assign, ast.AugAssign)):
            for y in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                if isinstance(y, ast.Subscript):
                    t = y
    if e.how == "itemaug" or t is None:
        return True
    sl = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]

    def whole(x):
        return (isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None) or (isinstance(x, ast.Constant) and x.value is Ellipsis)
    return not all(whole(x) for x in sl[1:]) or not (whole(sl[0]) or isinstance(sl[0], ast.Name))


def run(tier):
    m = model()
    prog = m.prog
    rep = Report(PID, tier, technique="interprocedural effect (purity) analysis of everything reachable from property, trajectory, checkpoint and output code",
                 explanation="All functions registered as properties or trajectories, the writers of output files and the code storing objects into checkpoints are "
                             "interpreted abstractly with callees inlined; every assignment, in-place change or random draw they can reach must concern "
                             "their own bookkeeping, locally made objects or the scratch copies, and the scratch copies must be independent objects.",
                 assumptions=["objects are reached under the attribute names used in the source; dynamic dispatch goes to methods of the inferred class",
                              "force evaluation by an external client is stateless"])
    rep.rule("property-pure", "computing a property or trajectory frame changes neither the simulated system nor the random stream", minimum=60)
    rep.rule("scratch-separate", "virtual displacements are made on copies that share nothing with the simulated system", minimum=3)
    rep.rule("scratch-reset", "virtual displacements start from the current positions and cell, whatever was computed before", minimum=3)
    rep.rule("writer-pure", "writing outputs changes only the writer's own state", minimum=5)
    rep.rule("store-pure", "storing an object into a checkpoint does not change the object", minimum=30)

    def inl(fn, k, d):
        return fn.module.name != "ipi.utils.depend" and not fn.module.name.startswith("ipi.utils.messages") and fn.module.name != "ipi.utils.softexit"

    def mk(c):
        ip = m.interp(maxdepth=7 if tier == "quick" else 9, inline=inl)
        if c is not None:
            ip.roots[("self",)] = c
        return ip

    def effects(ip, tree):
        for e in events(tree):
            if e.kind in ("write", "mut") and e.path:
                if e.label == "local" and not e.raw:
                    continue
                yield e, e.path
            elif e.kind == "call" and e.label:
                parts = e.label.split(".")
                if e.label.startswith(("numpy.random.", "random.")):
                    yield e, ("random stream",)
                    continue
                if any(a[0] in ("obj", "inst", "dep") and rng_path(ip, a) for a in e.val) and draws(parts[-1]):
                    yield e, ("random stream",)

    def draws(name):
        return name not in ("get_state", "set_state", "__init__") and prog.cls("Input").find(name) is None and not name.startswith("__")

    def rng_path(ip, a):
        if a[0] == "obj":
            c = ip.path_cls(a[1])
            return isinstance(c, Cls) and c.name == "Random"
        return False

    def check_self(rule, inst, c, ip, tree, f):
        ok = True
        for e, p in effects(ip, tree):
            if p == ("random stream",):
                rep.fail(rule, inst, "draws from the random stream (%s)" % e.label, e.loc())
                ok = False
                continue
            if p[0].startswith("inst:") or p[0].startswith("global:softexit"):
                continue
            if p[0] == "self":
                if len(p) >= 2 and p[1].lstrip("_") in SCRATCH:
                    continue
                # own bookkeeping: attributes of the observer that are not (parts of) simulation objects
                if len(p) == 2 and e.kind == "write" and e.how in ("set", "aug") and not m.is_depend(c, p[1]) and not alias_of_state(ip, c, p[1]):
                    continue
                if len(p) == 2 and not alias_of_state(ip, c, p[1]) and (rule == "writer-pure" or not m.is_depend(c, p[1])):
                    continue
            rep.fail(rule, inst, "changes %s (%s)" % (pstr(p), e.kind + ":" + str(e.how)), e.loc())
            ok = False
        if ok:
            rep.ob(rule, inst, True)

    def alias_of_state(ip, c, attr):
        return attr in ("beads", "nm", "cell", "forces", "ensemble", "motion", "system", "simul", "bias", "prng", "syslist", "fflist", "ff")

    nprop = 0
    for cn in ("Properties", "Trajectories"):
        c = prog.cls(cn)
        seen = set()
        for n, f in c.methods.items():
            if n in ("__init__", "bind"):
                continue
            ip = mk(c)
            check_self("property-pure", f.qual, c, ip, ip.run(f, c), f)
            seen.add(f.node)
            nprop += 1
        # functions registered in the dictionaries as lambdas
        ip0 = mk(c)
        trees = [ip0.run(c.find(n), c) for n in ("__init__", "bind") if c.find(n) is not None]
        lams = {}
        for t in trees:
            for e in events(t):
                if e.kind == "write" and e.path and e.path[0] == "self":
                    collect_funcs(e.val, lams)
        for fv in lams.values():
            if fv.func.node in seen:
                continue
            ip = mk(c)
            caller = Frame(ip, _caller(fv.func), {}, (), c, 0)
            caller.out = Seq()
            caller.call_func(fv, [], {}, fv.func.node, "property")
            nprop += 1
            check_self("property-pure", "%s:%s@%s" % (cn, fv.func.name, ast.unparse(fv.func.node)[:80] if isinstance(fv.func.node, ast.Lambda) else fv.func.qual), c, ip, caller.out, fv.func)
        # a property must not see what another property left in the scratch copies
        for n, f in c.methods.items():
            if n in ("__init__", "bind"):
                continue
            ip = mk(c)
            tree = ip.run(f, c)
            if not any(e.kind == "read" and e.path[:2] == ("self", "dforces") and len(e.path) > 2 for e in events(tree)):
                continue
            bad = []

            def step(e, st):
                if e.kind == "write" and e.path[:2] == ("self", "dbeads"):
                    if partial(e):
                        if "used" in st:        # displaced on top of the previous displacement
                            st = st - {"q"}
                    else:
                        st = (st | {"q"}) - {"used"}
                if e.kind == "write" and e.path[:2] == ("self", "dcell"):
                    st = st | {"h"}
                if e.kind == "write" and e.path[:2] == ("self", "dforces") and e.path[-1] == "omegan2":
                    st = st | {"omegan2"}
                if e.kind == "write" and e.path[:2] == ("self", "dforces") and e.path[-1] == "alpha":
                    st = st | {"alpha"}
                need = {"q", "h"} | ({"omegan2", "alpha"} if e.kind == "read" and e.path[-1].endswith("sc") else set())
                if e.kind == "read" and e.path[:2] == ("self", "dforces") and len(e.path) > 2 and e.path[2] not in ("omegan2", "alpha", "beads", "cell") and need - st:
                    bad.append((e, need - st))
                elif e.kind == "read" and e.path[:2] == ("self", "dforces") and len(e.path) > 2 and e.path[2] not in ("omegan2", "alpha", "beads", "cell"):
                    st = st | {"used"}
                return [st]
            Flow(step, loop_once=lambda n: True).run(tree, [frozenset()])
            rep.ob("scratch-reset", f.qual, not bad, "the scratch forces are evaluated without first setting the scratch %s" % (
                " and ".join({"q": "positions", "h": "cell"}.get(x, x) for x in sorted(bad[0][1])) if bad else ""), bad[0][0].loc() if bad else "")
        # scratch copies
        for t in trees:
            for e in events(t):
                if e.kind == "write" and e.path and len(e.path) == 2 and e.path[0] == "self" and e.path[1] in SCRATCH and e.how == "set":
                    src = scratch_source(e)
                    rep.ob("scratch-separate", "%s.%s" % (cn, e.path[1]), src, "the scratch object is not a fresh copy", e.loc())
    # clone functions return fresh objects
    for cn in ("Beads", "Cell", "Forces"):
        c = prog.cls(cn)
        f = c.find("clone")
        if f is None:
            raise AnalysisBroken("%s has no clone" % cn)
        ip = mk(c)
        tree = ip.run(f, c)
        rets = [e for e in events(tree) if e.kind == "return" and e.fn is f]
        ok = bool(rets) and all(any(a[0] in ("inst", "fresh") for a in e.val) and not any(a[0] in ("obj", "raw", "dep") for a in e.val) for e in rets)
        # nothing of the original may be handed over by reference into the clone
        shared = []
        for e in events(tree):
            if e.kind == "write" and e.path and e.path[0].startswith("inst:") and e.how == "set" and not is_setter(m, ip, e.path):
                for a in e.val:
                    if a[0] in ("obj", "raw", "dep") and a[1][0] == "self" and ip.dep_kind(a[1]) is not None:
                        shared.append(e)
        rep.ob("scratch-separate", "%s.clone" % cn, ok and not shared, "the copy shares storage with the original", (shared[0].loc() if shared else f.loc(f.node)))
        bad = [e for e, p in effects(ip, tree) if p[0] == "self"]
        rep.ob("scratch-separate", "%s.clone:pure" % cn, not bad, "copying changes the original", bad[0].loc() if bad else f.loc(f.node))

    # writers --------------------------------------------------------------------
    for c in prog.all_classes():
        if c.module.name == "ipi.engine.outputs":
            for n, f in c.methods.items():
                if n.startswith("write") or n in ("force_flush", "print_header"):
                    ip = mk(c)
                    check_self("writer-pure", f.qual, c, ip, ip.run(f, c), f)
    for mod in prog.modules.values():
        if mod.name.startswith("ipi.utils.io"):
            for f in mod.functions.values():
                if f.name.startswith("print"):
                    ip = mk(None)
                    ip.roots[("arg:atoms",)] = prog.cls("Atoms")
                    ip.roots[("arg:cell",)] = prog.cls("Cell")
                    ip.roots[("arg:beads",)] = prog.cls("Beads")
                    tree = ip.run(f, None)
                    bad = [(e, p) for e, p in effects(ip, tree) if p[0].startswith("arg:") and p[0] not in ("arg:filedesc", "arg:file_descriptor")]
                    rep.ob("writer-pure", "%s.%s" % (mod.name, f.name), not bad, "changes its argument %s" % (pstr(bad[0][1]) if bad else ""),
                           bad[0][0].loc() if bad else "")

    # checkpoints ------------------------------------------------------------------
    inp = prog.cls("Input")
    for c in prog.all_classes():
        if c.is_sub(inp) and "store" in c.methods:
            f = c.methods["store"]
            ip = mk(c)
            tree = ip.run(f, c)
            bad = []
            for e, p in effects(ip, tree):
                if p == ("random stream",):
                    bad.append((e, p))
                elif p[0].startswith("arg:") and (f.qual, p[-1]) not in OUTPUT_BOOKKEEPING and (e.fn.qual, p[-1]) not in OUTPUT_BOOKKEEPING:
                    bad.append((e, p))
            rep.ob("store-pure", f.qual, not bad, "changes the stored object: %s" % (pstr(bad[0][1]) if bad else ""), bad[0][0].loc() if bad else "")
    rep.extra["property_functions"] = nprop
    return rep.finish()


def is_setter(m, ip, p):
    """assignment through the invalidating setter copies the value"""
    return ip.dep_kind(p) is not None


def scratch_source(e):
    aux = e.aux
    v = aux.value if isinstance(aux, ast.Assign) else None
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("clone", "copy", "deepcopy"):
        return True
    return any(a[0] in ("inst", "fresh") for a in e.val) and not any(a[0] in ("obj", "raw", "dep") for a in e.val) or e.val == frozenset({("const", None)})


def collect_funcs(v, out, depth=0):
    if depth > 6:
        return
    for a in v:
        if a[0] == "func":
            out[id(a[1].func.node)] = a[1]
        elif a[0] in ("list", "tuple"):
            for x in a[1]:
                collect_funcs(x, out, depth + 1)
        elif a[0] == "dict":
            for k, x in a[1]:
                collect_funcs(x, out, depth + 1)


if __name__ == "__main__":
    main(run, PID)
