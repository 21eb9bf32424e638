"""C22: control parameters reach every component that uses them (pipes between cached quantities)."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.snapshot import frozen
from vlib.repo import AnalysisBroken
from vlib.interp import pstr, events, Branch, Ev, Seq, walk
from vlib.flow import Flow
from vlib.depgraph import canon

PID = "C22"

# (base class, entry methods run in order, destination, accepted sources, why)
SPEC = [
    ("Dynamics", ("__init__", "bind"), "thermostat.temp", ["ntemp"], "the thermostat works at the ring-polymer temperature"),
    ("Dynamics", ("__init__", "bind"), "barostat.temp", ["ntemp"], "the barostat works at the ring-polymer temperature"),
    ("Dynamics", ("__init__", "bind"), "barostat.pext", ["ensemble.pext"], "target pressure"),
    ("Dynamics", ("__init__", "bind"), "barostat.stressext", ["ensemble.stressext"], "target stress"),
    ("Dynamics", ("__init__", "bind"), "nm.dt", ["integrator.qdt", "qdt"], "free propagation uses the position time step"),
    ("Dynamics", ("__init__", "bind"), "barostat.dt", ["integrator.dt", "dt"], "time step"),
    ("Dynamics", ("__init__", "bind"), "barostat.qdt", ["integrator.qdt", "qdt"], "time step of positions"),
    ("Dynamics", ("__init__", "bind"), "barostat.pdt", ["integrator.pdt", "pdt"], "time step of momenta"),
    ("Dynamics", ("__init__", "bind"), "barostat.tdt", ["integrator.tdt", "tdt"], "time step of the thermostat"),
    ("Dynamics", ("__init__", "bind"), "thermostat.dt", ["integrator.tdt", "tdt"], "time step of the thermostat"),
] + [("DummyIntegrator", ("__init__", "bind"), d, [x], "time step fraction") for d, x in (
    ("nm.dt", "qdt"), ("barostat.dt", "dt"), ("barostat.qdt", "qdt"), ("barostat.pdt", "pdt"), ("barostat.tdt", "tdt"),
    ("thermostat.dt", "tdt"))] + [
    ("ConstrainedIntegrator", ("__init__", "bind"), "csolver.dt", ["qdt"], "the constraint solver uses the position time step"),
    ("DrivenDynamics", ("__init__", "bind"), "time", ["ensemble.time"], "driving fields follow the simulation time"),
    ("EDAIntegrator", ("__init__", "bind"), "time", ["motion.time"], "driving fields follow the simulation time"),
    ("BEC", ("__init__", "bind"), "asr_threshold", ["asr_threshold"], "acoustic sum rule threshold"),
    ("Barostat", ("__init__", "bind"), "thermostat.temp", ["temp"], "cell thermostat temperature"),
    ("Barostat", ("__init__", "bind"), "thermostat.dt", ["tdt"], "cell thermostat time step"),
    ("NormalModes", ("__init__", "bind"), "dt", ["motion.dt"], "free ring-polymer propagator time step"),
    ("System", ("bind",), "forces.omegan2", ["nm.omegan2"], "high-order forces use the ring-polymer frequency"),
    ("ExchangePotential", ("__init__", "bind"), "omegan2", ["nm.omegan2"], "exchange springs use the ring-polymer frequency"),
    ("ExchangePotential", ("__init__", "bind"), "bosons", ["nm.bosons"], "list of bosons"),
    ("Ensemble", ("__init__", "bind"), "bias.mforces[].weight", ["bweights"], "bias weights"),
    ("ScaledForceComponent", ("__init__",), "weight", ["bf.weight"], "a scaled component carries the weight of its base component"),
]
THERMO_REQ = {"temp": {"temp", "npilect"}, "dt": {"dt"}}


def strip(p):
    """('self','barostat','_qdt') -> ('self','barostat','qdt')"""
    if p and p[-1].startswith("_") and not p[-1].startswith("__"):
        return p[:-1] + (p[-1][1:],)
    return p


class W:
    def __init__(self, m, c, entries):
        self.c = c
        self.ip = m.interp(maxdepth=7, inline=lambda fn, k, d: fn.module.name != "ipi.utils.depend"
                           and not fn.module.name.startswith("ipi.utils.messages"))
        self.ip.roots[("self",)] = c
        self.trees = []
        for n in entries:
            f = c.find(n)
            if f is not None:
                self.trees.append(self.ip.run(f, c))
        self.cache = {}

    def norm(self, p):
        for n in range(min(len(p) - 1, 4), 0, -1):
            if p[:n] in self.ip.aliases:
                p = self.ip.aliases[p[:n]] + p[n:]
                break
        p = canon(strip(p))
        return p

    def short(self, p):
        p = self.norm(p)
        p = p[1:] if p[:1] == ("self",) else p
        if p[:1] == ("integrator",) and len(p) > 2:
            p = p[1:]
        s = pstr(p)
        return s[4:] if s.startswith("arg:") else s

    def vals(self, v):
        out = set()
        for a in v or ():
            if a[0] in ("obj", "dep"):
                out.add(self.short(a[1]))
            elif a[0] in ("inst",):
                out.add("inst:" + a[1].name)
        return out

    def pipe(self, e):
        """-> (sources, destinations, item) of a pipe event"""
        a = list(e.args) + [None] * 3
        s = e.kwargs.get("dfrom", a[0])
        d = e.kwargs.get("dto", a[1])
        return self.vals(s), self.vals(d), e.kwargs.get("item", a[2])


def is_pipe(e):
    return e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] == "dpipe"


def skip_arm(n):
    """branches that only skip absent elements (`if t is None: continue`)"""
    ex = [x for x in walk(n) if isinstance(x, Ev)]
    return bool(ex) and ex[-1].kind == "continue" and all(x.kind in ("continue", "read") for x in ex)


def nonnull_branch(n, s):
    if skip_arm(n.a):
        return [], [s]
    if skip_arm(n.b):
        return [s], []
    return [s], [s]


CONTROL = {"temp", "pext", "stressext", "dt", "qdt", "pdt", "tdt", "qdt_on_m", "nmts", "splitting", "tau", "omegan", "omegan2", "omegak", "o_omegak", "prop_pq",
           "T", "S", "KT", "beta", "kT", "npilect", "bweights", "hweights"}


def run(tier):
    m = model()
    prog = m.prog
    rep = Report(PID, tier, technique="must-pass-through (typestate) analysis of pipe events over the set-up code of each concrete class",
                 explanation="For every concrete class the constructor and binding code is interpreted abstractly with all callees inlined; on every "
                             "path the last pipe into each control parameter must come from the required source, and no later re-creation of the "
                             "quantity may drop it.",
                 assumptions=["components are reached under the attribute names used in the source", "loops over the components run at least once"])
    rep.rule("wired", "a control parameter of a component is piped from the quantity that controls it, on every path of the set-up code", minimum=8)
    rep.rule("thermo-parts", "every partial thermostat created by a composite thermostat follows its temperature and time step and its heat is part of the total", minimum=3)
    rep.rule("thermo-sum", "the conserved-energy contribution of a composite thermostat is the sum over its parts")

    rep.rule("no-copy", "no component keeps its own copy, made once, of a control parameter or of a quantity computed from one", minimum=1)
    for inst, msg, q, loc, _ in frozen(m):
        if any(x[1] in CONTROL for x in q):
            rep.ob("no-copy", inst, False, msg, loc)
    rep.ob("no-copy", "set-up code", True, "", "")
    for base, entries, dst, srcs, why in SPEC:
        if not prog.has_cls(base):
            raise AnalysisBroken("no class %s" % base)
        for c in [prog.cls(base)] + prog.subclasses(prog.cls(base), strict=True):
            w = cached(m, c, entries)
            cands = {dst}
            owner, _, leaf = dst.rpartition(".")

            def step(e, st):
                if is_pipe(e):
                    s, d, item = w.pipe(e)
                    if d & cands or (len(d) > 1 and d & cands):
                        return [frozenset(s)]
                if e.kind == "write" and e.how == "set" and e.path and e.path[-1] == "_" + leaf and any(
                        a[0] == "inst" and a[1].name.startswith("depend_") for a in e.val):
                    if w.short(e.path) in cands:
                        return [frozenset()]
                return [st]
            st = [frozenset()]
            for t in w.trees:
                out = Flow(step, branch=nonnull_branch, loop_once=lambda n: True).run(t, st)
                st = list(out.get("fall", frozenset()) | out.get("return", frozenset()))
            ok = bool(st) and all(x and (x & set(srcs)) for x in st)
            got = sorted({pstr_set(x) for x in st})
            rep.ob("wired", "%s:%s<-%s" % (c.name, dst, "|".join(srcs)), ok,
                   "%s: on some path of the set-up code %s is left connected to %s instead of %s" % (why, dst, got, srcs), c.loc())

    # composite thermostats ------------------------------------------------------
    th = prog.cls("Thermostat")
    for c in prog.subclasses(th, strict=True):
        own = {}
        w = cached(m, c, ("__init__", "bind"))
        holds = False
        for t in w.trees:
            for e in events(t):
                if e.kind == "new" and prog.has_cls(e.label or "") and prog.cls(e.label).is_sub(th):
                    holds = True
                if e.kind == "write" and e.path and e.path[:1] == ("self",) and e.path[-1] in ("tlist", "_thermos"):
                    holds = True
        if not holds:
            continue

        def step(e, st):
            if e.kind == "new" and prog.has_cls(e.label or "") and prog.cls(e.label).is_sub(th):
                part = prog.cls(e.label)
                return [frozenset(("need", x) for x in ("tau", "A", "C") if any(x in m.dep_names.get(k, ()) for k in part.mro()))]
            if e.kind == "write" and e.path and e.path[-1] == "_func" and len(e.path) >= 3:
                st = st - {("need", strip(e.path[:-1])[-1])}
            if is_pipe(e):
                s, d, _ = w.pipe(e)
                for x in d:
                    leaf = x.rsplit(".", 1)[-1].lstrip("_")
                    if "." in x and leaf in s:
                        st = st - {("need", leaf)}
                    if leaf in THERMO_REQ and x not in ("temp", "dt"):
                        st = frozenset(y for y in st if y[0] != leaf) | {(leaf, "ok" if s & THERMO_REQ[leaf] else "bad")}
            if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] in ("add_dependency", "add_dependant") and e.args:
                a = {x.rsplit(".", 1)[-1].lstrip("_") for x in w.vals(e.val)} | {x.rsplit(".", 1)[-1].lstrip("_") for x in w.vals(e.args[0])}
                both = w.vals(e.val) | w.vals(e.args[0])
                if a == {"ethermo"} and len(both) >= 2:
                    st = st | {("ethermo", "ok")}
            return [st]
        st = [frozenset()]
        for t in w.trees:
            out = Flow(step, branch=nonnull_branch, loop_once=lambda n: True).run(t, st)
            st = list(out.get("fall", frozenset()) | out.get("return", frozenset()))
        for req in ("temp", "dt", "ethermo"):
            ok = bool(st) and all((req, "ok") in x and (req, "bad") not in x for x in st)
            rep.ob("thermo-parts", "%s:%s" % (c.name, req), ok,
                   "on some path a partial thermostat is created whose %s is not linked to the composite thermostat" % req, c.loc())
        left = sorted({x[1] for y in st for x in y if x[0] == "need"})
        rep.ob("thermo-parts", "%s:parameters" % c.name, not left, "on some path a partial thermostat is created whose %s is not linked to "
               "the composite thermostat" % ", ".join(left), c.loc())
        # the total ethermo must be recomputed from the parts
        ok = False
        for t in w.trees:
            for e in events(t):
                if e.kind == "write" and e.path and e.path[-1] == "_func" and strip(e.path[:-1])[-1:] == ("ethermo",):
                    ok = any(a[0] == "func" for a in e.val) or ok
        rep.ob("thermo-sum", c.name, ok, "the total of the composite thermostat is not computed from its parts", c.loc())
    return rep.finish()


_C = {}


def cached(m, c, entries):
    k = (c, entries)
    if k not in _C:
        _C[k] = W(m, c, entries)
    return _C[k]


def pstr_set(x):
    return "|".join(sorted(x)) or "nothing"


if __name__ == "__main__":
    main(run, PID)
