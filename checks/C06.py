"""C06: everything a simulation carries from one step to the next is part of the checkpoint."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.repo import Cls, AnalysisBroken
from vlib.interp import V, pstr, events, walk
from vlib.flow import Flow
from vlib.inputs import InputModel, store_sources, pairs, class_dict, field_cls
from C03 import auto_quantities, is_auto

PID = "C06"
# objects whose content is always recomputed from the stored state
RECOMPUTED = {"Forces", "ForceBead", "ForceComponent", "ScaledForceComponent", "ForceField", "Properties", "BaseOutput"}
# state that a restarted run rebuilds or does not need, by (class, attribute): reason
REBUILT = {
    ("*", "qtime"): "wall-clock timing", ("*", "ptime"): "wall-clock timing", ("*", "ttime"): "wall-clock timing", ("*", "tttime"): "wall-clock timing",
    ("*", "fcount"): "counter printed to the log", ("*", "converged"): "set by the step that ends the run", ("*", "exit"): "set by the step that ends the run",
    ("*", "_stresscheck"): "one-off warning", ("*", "finished"): "set by the step that ends the run",
    ("Replay", "rstep"): "after a restart the frames already used are read and skipped",
    ("Thermostat", "p"): "view on the momenta of the object the thermostat is bound to",
    ("DummyOptimizer", "init"): "first-step flag: initialisation is repeated after a restart", ("Mapper", "f"): "recomputed by the initialisation after a restart",
    ("PesMapper", "f"): "recomputed by the initialisation after a restart",
    ("NEBClimbGrMapper", "q_prev"): "taken from the stored path by the initialisation after a restart", ("NEBClimbGrMapper", "q_next"): "taken from the stored path by the initialisation after a restart",
    ("StringClimbGrMapper", "q_prev"): "taken from the stored path by the initialisation after a restart", ("StringClimbGrMapper", "q_next"): "taken from the stored path by the initialisation after a restart",
}


def inl(fn, k, d):
    return fn.module.name not in ("ipi.utils.depend", "ipi.utils.softexit", "ipi.utils.prng", "ipi.engine.properties", "ipi.engine.outputs") \
        and not fn.module.name.startswith("ipi.utils.messages")


def keyed(e):
    """path written by an event, with constant keys"""
    p = e.path
    if e.kind == "write" and e.how in ("item", "itemaug") and e.args:
        ks = [c[1] for c in e.args[0] if c[0] == "const" and isinstance(c[1], str)]
        if len(e.args[0]) == 1 and ks:
            p = p + ("[%r]" % ks[0],)
    return norm(p)


def norm(p):
    return tuple(x for x in p if not x.startswith("[") or x.startswith("['"))


def full_slices(prog):
    """ids of statements that overwrite a whole array, and of the expressions that only name the target of an item assignment"""
    full, names = set(), set()
    for mod in prog.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for s in ast.walk(t):
                        if isinstance(s, ast.Subscript) and isinstance(s.ctx, ast.Store):
                            names.add(id(s.value))
                            if whole(s.slice):
                                full.add(id(n))
    return full, names


def whole(s):
    if isinstance(s, ast.Tuple):
        return all(whole(x) for x in s.elts)
    if isinstance(s, ast.Constant) and s.value is Ellipsis:
        return True
    return isinstance(s, ast.Slice) and s.lower is None and s.upper is None and s.step is None


class Carried:
    def __init__(self, m):
        self.m = m
        self.full, self.names = full_slices(m.prog)

    def tree(self, C, meth, subs, known):
        f = C.find(meth)
        if f is None:
            return None
        ip = self.m.interp(maxdepth=8, inline=inl)
        ip.roots[("self",)] = C
        ip.roots.update(subs)
        ip.known.update(known)
        return ip, ip.run(f, C)

    def __call__(self, C, meth, subs={}, known={}):
        """{path: (first exposed event, [write events])}"""
        r = self.tree(C, meth, subs, known)
        if r is None:
            return None
        ip, tree = r
        wr = {}
        for e in events(tree):
            if e.kind in ("write", "mut") and e.path and e.path[0] == "self" and e.label != "local":
                wr.setdefault(keyed(e), []).append(e)
        out = {}
        for q, ws in wr.items():
            hit = []

            def step(e, s):
                if not e.path:
                    return [s]
                if e.kind in ("read", "vread"):
                    if norm(e.path) == q and not s and id(e.node) not in self.names:
                        hit.append(e)
                elif e.kind == "write":
                    if keyed(e) == q:
                        if e.how == "set" or (e.how == "item" and (id(e.node) in self.full or q[-1].startswith("['"))):
                            return [True]
                        if e.how in ("aug", "itemaug") and not s:
                            hit.append(e)
                        elif not s:
                            # part of the array is overwritten: the rest is carried over
                            hit.append(e)
                elif e.kind == "mut" and norm(e.path) == q and not s:
                    hit.append(e)
                return [s]
            Flow(step, loop_once=lambda n: n.kind == "for").run(tree, [False])
            if hit:
                out[q] = (hit[0], ws)
        return ip, out


def synchro(m):
    """(class, attr) of quantities that mirror another one"""
    out = set()
    for c in m.prog.all_classes():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and m._is_dep_ctor(c, n.value):
                    t = n.targets[0]
                    if isinstance(t, ast.Attribute) and t.attr.startswith("_") and any(k.arg == "synchro" for k in n.value.keywords):
                        out.add((c, t.attr[1:]))
    return out


def options(im, I):
    """{field: [options]} of the constant choices of an input class"""
    out = {}
    d, at = im.fields(I)
    for f, (node, c) in list(d.items()) + list(at.items()):
        for n in ast.walk(node):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == "options" and isinstance(v, (ast.List, ast.Tuple)):
                        vs = [x.value for x in v.elts if isinstance(x, ast.Constant)]
                        if len(vs) == len(v.elts) and len(vs) > 1:
                            out[f] = vs
    return out


def run(tier):
    m = model()
    prog = m.prog
    im = InputModel(m)
    rep = Report(PID, tier, technique="upward-exposed-read (liveness) analysis of every step function: what is read before it is overwritten must flow into the checkpoint",
                 explanation="For every motion, thermostat, barostat and multi-system motion, in every mode that selects a different integrator or optimiser, the effects of one step are computed. "
                             "Attributes that a step changes and that a later step reads before overwriting them are state; each must be stored by the input class of its owner, "
                             "be the same array as a stored attribute of the owner's parent, or mirror another stored quantity.",
                 assumptions=["for-loops over beads, atoms and systems run at least once", "arrays overwritten through [:] are overwritten completely"])
    rep.rule("state-stored", "state carried from step to step is stored in the checkpoint", minimum=60)
    rep.rule("scenarios", "step functions analysed (class, mode)", minimum=30)

    inp = prog.cls("Input")
    inputs = [c for c in prog.all_classes() if c.module.name.startswith("ipi.inputs") and c.is_sub(inp) and c.module.name != "ipi.inputs.initializer"]
    prs = set(pairs(im, inputs))
    by_cls = {}
    for I, C, via in prs:
        by_cls.setdefault(C, []).append((I, via))
    car = Carried(m)
    mirror = synchro(m)
    auto = auto_quantities(m)
    cache = {}

    def stored(C, known):
        key = (C, tuple(sorted(known.items())))
        if key not in cache:
            s = set()
            for I, via in by_cls.get(C, ()):
                r = im.stored(I, C, known=known)
                if r is not None:
                    s |= store_sources(im, *r)
            cache[key] = s
        return cache[key]

    def storable(c):
        return isinstance(c, Cls) and any(k in by_cls for k in c.mro())

    def is_stored(o, q, known, exact=False):
        """q: attribute (and keys) of an object of class o"""
        if not isinstance(o, Cls):
            return False
        cands = [o] if o in by_cls and exact else ([k for k in by_cls if k.is_sub(o)] or [k for k in o.mro() if k in by_cls])
        for k in cands:
            kn = known if k is o else {}
            for s in stored(k, kn):
                s = norm(s)
                if s and s[0].lstrip("_") == q[0].lstrip("_") and (len(s) == 1 or len(q) == 1 or s[:len(q)] == q or q[:len(s)] == s):
                    return True
        return False

    scen = []
    for b, meths in (("Thermostat", ("step",)), ("Barostat", ("pstep", "qcstep")), ("Motion", ("step",)), ("Smotion", ("step",))):
        for C in prog.subclasses(prog.cls(b)):
            if C.name in OUT_OF_SCOPE:
                continue
            for meth in meths:
                for subs, known in scenarios(m, im, C, by_cls, storable):
                    scen.append((C, meth, subs, known))
    for C, meth, subs, known in scen:
        r = car(C, meth, subs, {("self", a): V(("const", v)) for a, v in known.items()})
        if r is None:
            continue
        ip, out = r
        name = "%s%s.%s" % (C.name, "".join("[%s]" % v for v in known.values()) or "".join("[%s]" % k.name for k in subs.values()), meth)
        rep.ob("scenarios", name, True)
        bind = None
        for q, (ev, ws) in sorted(out.items()):
            own = q[:-1]
            while own and own[-1].startswith("["):
                own = own[:-1]
            at = q[len(own):]
            o = ip.path_cls(own)
            inst = "%s:%s" % (name, ".".join(q[1:]))
            if not isinstance(o, Cls) or o.name in RECOMPUTED or any(k.name in RECOMPUTED for k in o.mro()):
                continue
            if ("*", at[0]) in REBUILT or any((k.name, at[0]) in REBUILT for k in o.mro()):
                continue
            if any((k, at[0]) in mirror for k in o.mro()) or is_auto(m, auto, o, at[0]):
                continue
            if is_stored(o, at, known if own == ("self",) else {}, own == ("self",)):
                rep.ob("state-stored", inst, True)
                continue
            # the same object as a stored attribute of the parent
            if len(own) >= 2:
                if bind is None:
                    t = car.tree(C, "bind", subs, {("self", a): V(("const", v)) for a, v in known.items()})
                    bind = list(events(t[1])) if t is not None else []
                al = set()
                for e in bind:
                    if e.kind == "write" and (e.how == "set" and norm(e.path) == own + (at[0],) or e.how == "item" and keyed(e)[:len(own) + len(at)] == own + at):
                        al |= {norm(a[1]) + (at[1:] if e.how == "set" else ()) for a in e.val if a[0] in ("obj", "raw")}
                ok = any(a[0] == "self" and (is_stored(ip.path_cls(a[:i]), a[i:], known if i == 1 else {}, i == 1)) for a in al for i in range(1, len(a)))
                if ok:
                    sets = [e for e in ws if e.how == "set" and not at[1:]]
                    rep.ob("state-stored", inst, not sets,
                           "%s shares the stored array of its parent, but the step replaces it: the checkpoint keeps the old one" % pstr(q), (sets or ws)[0].loc())
                    continue
            rep.fail("state-stored", inst, "%s is changed by a step and used by the next one, but is not stored in the checkpoint" % pstr(q), ws[0].loc())
    return rep.finish()


# kept outside: movers that evaluate a fixed list of displacements and keep their results in files, and the evaluation caches of al-kmc
OUT_OF_SCOPE = {"AlKMC", "DynMatrixMover", "NormalModeMover", "SCPhononsMover", "Planetary"}


def scenarios(m, im, C, by_cls, storable):
    """alternatives of the parts of C that are not stored themselves (integrators, optimisers), by mode where a mode selects them"""
    prog = m.prog
    parts = {}
    for k in C.mro():
        for at, cs in m.infer(k).items():
            if at.endswith("[]") or at.startswith("_"):
                continue
            cs = {c for c in cs if not storable(c) and c.module.name.startswith("ipi.engine")}
            if len(cs) > 1:
                parts.setdefault(at, set()).update(cs)
    if not parts:
        return [({}, {})]
    out = []
    for I, via in by_cls.get(C, ()):
        for f, opts in options(im, I).items():
            r = im.stored(I, C)
            if r is None:
                continue
            attrs = set()
            for e in events(r[1], ("fstore",)):
                if e.path[1] == f:
                    for v in e.args:
                        for p, s in im.flows(r[0], v, im.news(r[1])):
                            if p[:1] == r[2]:
                                attrs.add(p[1:] + s)
            if len(attrs) != 1 or len(next(iter(attrs))) != 1:
                continue
            at = next(iter(attrs))[0]
            for v in opts:
                ip = im.interp(I)
                ip.call_hook = None
                ip.taint = False
                ip.known[("self", at)] = V(("const", v))
                ip.roots[("self",)] = C
                tree = ip.run(C.find("__init__"), C)
                subs = {}
                for e in events(tree, ("write",)):
                    if len(e.path) == 2 and e.path[0] == "self" and e.path[1] in parts:
                        ks = [a[1] for a in e.val if a[0] == "inst"]
                        if len(ks) == 1:
                            subs.setdefault(e.path, set()).add(ks[0])
                if subs and all(len(x) == 1 for x in subs.values()):
                    out.append(({p: next(iter(x)) for p, x in subs.items()}, {at: v}))
    if out:
        # options that do not select a part are covered by the others
        return out
    at, cs = sorted(parts.items())[0]
    return [({("self", at): c}, {}) for c in sorted(cs, key=lambda c: c.name)]


if __name__ == "__main__":
    main(run, PID)
