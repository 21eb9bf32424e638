"""C10: every exchange of energy with a bath, a constraint or a move is booked in the conserved quantity."""
import ast, os, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.interp import events
from vlib.flow import Flow
from vlib.vn import VN, Poly, Path, Event, atom, num, vsum

PID = "C10"
HALF = num(F(1, 2))


def cell(v, st, path, cls):
    return v.num(st, v.read(st, Path(path, cls)))


def initial(v, path, cls):
    from vlib.vn import State
    return v.num(State(), v.read(State(), Path(path, cls)))


def short(p, n=220):
    s = str(p)
    return s if len(s) < n else s[:n] + "..."


# ---------------------------------------------------------------- thermostats
def composite(c, f):
    """a step that only advances sub-thermostats"""
    return not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store,)) for x in ast.walk(f.node)) and \
        not any(isinstance(x, ast.AugAssign) for x in ast.walk(f.node))


def thermostats(m, rep):
    base = m.prog.cls("Thermostat")
    for c in m.prog.subclasses(base):
        f = c.find("step")
        if f is None or f.cls is base and c is not base:
            continue
        v = VN(m, c, expand={"sm", "T_on_sm"}, kinds={"p": "a", "m": "a", "s": "a"})
        sts = v.run(f)
        n = 0
        for st in sts:
            wp = [e for e in st.log if e.kind == "write" and e.path.startswith("self.p") and e.path[6:7] in ("", "[")]
            we = [e for e in st.log if e.kind == "write" and e.path == "self.ethermo"]
            if not wp and not we:
                continue
            n += 1
            p0, m0, e0 = (initial(v, "self." + a, c) for a in ("p", "m", "ethermo"))
            p1, e1 = cell(v, st, "self.p", c), cell(v, st, "self.ethermo", c)
            d = e1 - e0 + HALF * vsum(p1 * p1 / m0) - HALF * vsum(p0 * p0 / m0)
            g = ",".join("%s" % (b) for k, b in sorted(st.guards.items()))
            rep.ob("heat", "%s.step[%s]" % (c.name, g), not d.t,
                   "ethermo changes by %s, which is not minus the change of the kinetic energy of the momenta written by the step; unaccounted: %s" % (short(e1 - e0), short(d)),
                   f.loc((we or wp)[-1].node))
            rep.ob("heat", "%s.step:last[%s]" % (c.name, g), all(e.path == "self.p" for e in wp[-1:]), "momenta written only in part", f.loc())
        if n == 0 and not composite(c, f):
            rep.ob("heat", "%s.step" % c.name, False, "the step changes the thermostat without booking heat", f.loc())


# ---------------------------------------------------------------- barostats
def increments(st, path):
    """(event, previous value, new value) for each write of path"""
    out, prev = [], None
    for e in st.log:
        if e.kind == "write" and (e.path == path or e.path.startswith(path + "[")):
            out.append((e, prev, e.val))
            prev = e.val
    return out


def flow_like(old, new, p0):
    """does the write add only terms proportional to a time step?"""
    d = new - (old if old is not None else p0)
    return all(any(a.startswith(("self.pdt", "self.qdt", "self.dt@")) for a, _ in mono) for mono in d.t)


def barostats(m, rep):
    base = m.prog.cls("Barostat")
    for c in m.prog.subclasses(base, strict=True):
        for fn in ("pstep", "pscstep"):
            f = c.find(fn)
            if f is None or f.cls is base:
                continue
            v = VN(m, c, kinds={"p": "a"}, inline=lambda g, s: not (g.name.startswith("stress") or g.name.startswith("get_") or g.name.startswith("kstress")))
            lvl = atom("var:level", scalar=True)
            sts = v.run(f, args=[lvl] if len(f.node.args.args) > 1 else [])
            for st in sts:
                g = ",".join("%s" % b for k, b in sorted(st.guards.items()))
                inst = "%s.%s[%s]" % (c.name, fn, g)
                p0 = initial(v, "self.p", c)
                proj = [e for e, o, n in increments(st, "self.p") if isinstance(n, Poly) and not flow_like(o, n, p0)]
                wes = [e for e in st.log if e.kind == "write" and e.path == "self.thermostat.ethermo"]
                if not proj and not wes:
                    rep.ob("cell-mask", inst, True)
                    continue
                if not proj:
                    rep.ob("cell-mask", inst, True) if not (wes[-1].val - initial(v, "self.thermostat.ethermo", m.prog.cls("Thermostat"))).t else \
                        rep.ob("cell-mask", inst, False, "heat is booked although the cell momentum is not projected", f.loc(wes[-1].node))
                    continue
                first, last = proj[0].seq, proj[-1].seq
                allw = [e.seq for e in st.log if e.kind == "write" and e.path.startswith("self.p") and e.path[6:7] in ("", "[")]
                before = max([s for s in allw if s < first], default=0)
                final = max(allw)
                d = (wes[-1].val - initial(v, "self.thermostat.ethermo", m.prog.cls("Thermostat"))) if wes else Poly()
                want = atom("self.kin@%d" % before) - atom("self.kin@%d" % final)
                rep.ob("cell-mask", inst, d == want and final == last,
                       "a part of the cell momentum is removed by line %d but the heat booked is %s (expected kin before - kin after)" % (proj[0].node.lineno, short(d)), f.loc(proj[0].node))
        # energy of the barostat
        f = c.find("get_ebaro")
        if f is not None:
            v = VN(m, c)
            for st in v.run(f):
                r = v.num(st, st.ret)
                need = {"self.thermostat.ethermo@0", "self.kin@0", "self.pot@0", "self.cell_jacobian@0"}
                ok = r == sum((atom(a) for a in sorted(need)), Poly())
                rep.ob("total", "%s.ebaro" % c.name, ok, "the barostat's contribution to the conserved quantity is %s, expected ethermo + kin + pot + cell_jacobian" % short(r), f.loc())


# ---------------------------------------------------------------- constraints
def is_mom(p):
    q = p.replace("~", "")
    return q.split("[")[0] in ("self.beads.p",)


def constraints(m, rep):
    base = m.prog.cls("DummyIntegrator")
    done = set()
    for c in m.prog.subclasses(base):
        f = c.find("pconstraints")
        if f is None or (f.qual in done):
            continue
        done.add(f.qual)
        v = VN(m, c, kinds={"dynm3": "a"}, inline=lambda g, s: isinstance(s, Path) and s.p == "self")
        for st in v.run(f):
            g = ",".join("%s" % b for k, b in sorted(st.guards.items()))
            prev = None
            eprev = initial(v, "self.ensemble.eens", m.prog.cls("Ensemble"))
            booked = Poly()
            need = []
            for e in st.log:
                if e.kind != "write":
                    continue
                if e.path == "self.ensemble.eens":
                    booked = booked + (v.num(st, e.val) - eprev)
                    eprev = v.num(st, e.val)
                elif is_mom(e.path):
                    need.append(e)
            if not need and not booked.t:
                rep.ob("constraint", "%s[%s]" % (f.qual, g), True)
                continue
            total = Poly()
            ok = True
            why = ""
            for e in need:
                val = v.num(st, e.val)
                if not val.t:                       # components set to zero
                    old = old_value(v, st, e)
                    ix = e.path.split("[", 1)[1][:-1] if "[" in e.path else ""
                    mass = [a for a in booked.atoms() | set()]
                    dyn = atom("self.nm.dynm3%s@0" % ("[" + ix + "]" if ix else ""))
                    total = total + HALF * vsum(old * old / dyn)
                else:
                    old = old_value(v, st, e)
                    d = val - old
                    s = d.single()
                    # p -= m3 * S / M with S the total momentum
                    if s is None:
                        ok, why = False, "momenta changed by %s" % short(d)
                        continue
                    mono, c0 = s
                    ms = [(a, x) for a, x in mono if "m3" in a]
                    ss = [(a, x) for a, x in mono if a.startswith(("np.sum", "sum")) and "p@" in a]
                    rest = Poly({tuple(q for q in mono if q not in ms and q not in ss): c0})
                    if len(ms) != 1 or len(ss) != 1 or c0 >= 0:
                        ok, why = False, "momenta changed by %s" % short(d)
                        continue
                    S = atom(ss[0][0])
                    total = total + HALF * vsum(S * S) * (-rest) if True else total
                    # vsum only pulls factors known to be scalar out of the sum: use the same rest inside
                    total2 = HALF * vsum(S * S * rest * rest) * rest.power(-1)
                    total = total - HALF * vsum(S * S) * (-rest) - total2
            diff = booked - total
            if diff.t and ok:
                diff = expand_sums(booked) - expand_sums(total)
            rep.ob("constraint", "%s[%s]" % (f.qual, g), ok and not diff.t,
                   why or "the kinetic energy taken out by the constraint is %s but %s is added to the conserved quantity" % (short(total), short(booked)), f.loc((need or [None])[0].node if need else None))


def expand_sums(p):
    """scalar factors that were left inside a sum (beads mass, bead number) pulled out"""
    from vlib.vn import SUMS
    out = Poly()
    for mono, c in p.t.items():
        q = num(c)
        for a, x in mono:
            if a in SUMS and x == 1:
                inner = SUMS[a]
                sc = [(b, y) for b, y in inner if b.endswith(".M@0") or "nbeads" in b or ".M@" in b]
                ar = [(b, y) for b, y in inner if (b, y) not in sc]
                q = q * Poly({tuple(sc): F(1)}) * atom("sum{%s}" % Poly({tuple(ar): F(1)}))
            else:
                q = q * Poly({((a, x),): F(1)})
        out = out + q
    return out


def old_value(v, st, ev):
    """value of the written path just before the event"""
    s2 = st.copy()
    s2.writes = [w for w in st.writes if w[2] < ev.seq]
    return v.num(s2, v.read(s2, Path(ev.path.replace("~", ""), m_beads(v)))) if "~" not in ev.path else \
        v.num(s2, v.read(s2, Path(ev.path.replace("self.beads.p~", "self.nm.pnm"), None)))


def m_beads(v):
    return v.m.prog.cls("Beads")


# ---------------------------------------------------------------- projected thermostats (constrained dynamics)
def projections(m, rep):
    """momenta projected by the constraint solver after a thermostat: kinetic energy before - after is booked"""
    base = m.prog.cls("DummyIntegrator")
    done = set()
    for c in m.prog.subclasses(base):
        for n, f in [(n, c.find(n)) for k in c.mro() for n in k.methods]:
            if f is None or f.qual in done:
                continue
            src = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)]
            if not any(x.func.attr == "step" and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "thermostat" for x in src):
                continue
            done.add(f.qual)
            v = VN(m, c, inline=lambda g, s: isinstance(s, Path) and s.p == "self" and g.name not in ("proj_cotangent", "proj_manifold", "pconstraints", "step"))
            hook(v)
            for st in v.run(f):
                e0 = initial(v, "self.ensemble.eens", m.prog.cls("Ensemble"))
                prj = [e for e in st.log if e.kind == "write" and e.how == "proj"]
                if not prj:
                    continue
                ths = [e.seq for e in st.log if e.kind == "write" and e.how == "thermo"]
                B = m.prog.cls("Beads")
                want = Poly()
                for e in prj:
                    if not any(t < e.seq for t in ths):
                        continue
                    old = old_value(v, st, e)
                    want = want + HALF * vsum(old * old / atom("self.beads.m3@0")) - HALF * vsum(e.val * e.val / atom("self.beads.m3@0"))
                got = cell(v, st, "self.ensemble.eens", m.prog.cls("Ensemble")) - e0
                d = expand_loops(got - want)
                rep.ob("projection", "%s" % f.qual, not d.t, "momenta are projected after the thermostat: kinetic energy removed %s, booked %s" % (short(want), short(got)), f.loc(prj[0].node))


def centroid(m, rep):
    """a fixed centroid: momenta a thermostat has put into the zero mode are booked before they are removed, each time"""
    from vlib.formula import FT, norm
    from vlib.term import poly, add, show, c as const
    base = m.prog.cls("DummyIntegrator")
    done = set()
    for k in m.prog.subclasses(base):
        f = k.find("step")
        if f is None or f.qual in done or f.cls is base:
            continue
        done.add(f.qual)
        te = FT(m.prog, keep=lambda g: g.name in ("pconstraints", "pstep", "qcstep", "free_qstep", "mtsprop", "mtsprop_ba", "mtsprop_ab", "proj_cotangent", "proj_manifold") or (g.name == "step" and g is not f))
        for p in te.run(f, k):
            ev = []
            fin = None
            for l in p.log:
                if l[0] == "call":
                    t = l[1]
                    fv = t[1] if t[0] == "call" else t
                    if fv[0] == "attr" and fv[2] in ("step", "tstep") and "thermostat" in show(fv):
                        ev.append(("T", l))
                    elif fv[0] == "attr" and fv[2] == "tstep":
                        ev.append(("T", l))
                elif l[0] == "set":
                    s = show(l[1])
                    if s.startswith("self.nm.pnm[") and l[2] == const(0) and ("[[0," in s or s == "self.nm.pnm[0]"):
                        ev.append(("Z", l))
                    elif s == "self.ensemble.eens":
                        ev.append(("E", l))
                        fin = l[2]
            if not any(x == "Z" for x, l in ev):
                continue
            hot, booked, bad, n = False, False, None, 0
            for x, l in ev:
                if x == "T":
                    hot, booked = True, False
                elif x == "E":
                    booked = True
                elif x == "Z":
                    if hot:
                        n += 1
                        if not booked:
                            bad = l
                    hot = False
            inc = norm(add(fin, ("attr", ("attr", ("arg", "self"), "ensemble"), "eens"), -1)) if fin is not None else const(0)
            d = poly(inc)
            val = len(d) == 1 and list(d.values())[0] == 0.5 * n and "dynm3" in show(inc) and show(inc).count("pnm") == (1 if "pnm[0]^2" in show(inc) else 2)
            rep.ob("constraint", "%s:centroid" % f.qual, bad is None and val,
                   "the momentum of the centroid is removed after the thermostat without booking its kinetic energy" if bad is not None else
                   "the kinetic energy booked for the centroid is %s, %d removals" % (show(inc)[:120], n), f.loc(bad[3]) if bad is not None else f.loc())


def expand_loops(d):
    return d


def hook(v):
    """calls that change the momenta: thermostat steps and projections"""
    orig = v.opaque

    def op(what, args, kw, st, fr, node, recv=None):
        r = orig(what, args, kw, st, fr, node, recv)
        k = "thermo" if what.endswith("thermostat.step") else "proj" if what.endswith("proj_cotangent") else None
        if k:
            val = atom("p<%s%d>" % (k, v.n))
            v.write(st, Path("self.beads.p", m_beads(v)), val, node, fr.func, k)
        return r
    v.opaque = op


# ---------------------------------------------------------------- metadynamics
def metad(m, rep):
    c = m.prog.cls("MetaDyn")
    f = c.find("step")
    v = VN(m, c, inline=lambda g, s: isinstance(s, Path) and s.p == "self")
    n = 0
    for st in v.run(f):
        ups = [e for e in st.log if e.kind == "call" and e.path.endswith("mtd_update")]
        if not ups:
            continue
        n += 1
        work = [atom(a) for e in st.log for a in (e.val.atoms() if isinstance(e.val, Poly) else []) if a.startswith("ret:") and "mtd_update" in a]
        wes = [e for e in st.log if e.kind == "write" and e.path.endswith(".ensemble.eens")]
        ok = False
        why = "the work done by adding hills is not booked"
        if wes and work:
            w = work[0]
            d = wes[-1].val
            nb = [a for a in d.atoms() if "nbeads" in a]
            rest = d - (w * atom(nb[0]) if nb else w)
            ok = len(wes) == 1 and nb and all(not a.startswith("ret:") for a in rest.atoms()) and len(rest.t) == 1 and list(rest.t.values())[0] == 1
            why = "%s is added to the conserved quantity for metadynamics work (expected work x number of beads)" % short(d)
        rep.ob("moves", "MetaDyn.step[%s]" % ",".join(str(b) for b in st.guards.values()), ok, why, f.loc((wes or ups)[0].node))
        # the cached bias energy is shifted by the same work
        for e in st.log:
            if e.kind == "write" and "_ufvx" in e.path and work:
                old = [a for a in e.val.atoms() if a not in work[0].atoms()]
                c1 = e.val.t.get(((list(work[0].atoms())[0], F(1)),))
                rep.ob("moves", "MetaDyn.step:cache", c1 == -1, "the cached bias energy is changed by %s times the work (expected -1)" % c1, f.loc(e.node))
    rep.ob("moves", "MetaDyn.step", n > 0, "no path updates the hills", f.loc())


# ---------------------------------------------------------------- totals and registration
def linear_terms(m, rep, cn, fn, need, elists, scale=None):
    c = m.prog.cls(cn)
    f = c.find(fn)
    v = VN(m, c)
    inits = {}
    orig = v.loop

    def loop(s, st, fr):
        before = dict(st.env)
        n0 = len(st.writes)
        out = orig(s, st, fr)
        for o in out:
            for k, val in list(o.env.items()):
                if isinstance(val, Poly):
                    la = [a for a in val.atoms() if a.startswith("loop:%s@" % k)]
                    if la and isinstance(before.get(k), (Poly, Path)):
                        val2 = val - atom(la[0]) + v.num(st, before[k])
                        o.env[k] = val2
        return out
    v.loop = loop
    for st in v.run(f):
        r = v.num(st, st.ret)
        if scale is not None:
            r = r * scale(v, st)
        missing = [a for a in need if r.t.get((("self.%s@0" % a, F(1)),)) != 1]
        got = dict(r.t)
        for a in need:
            got.pop((("self.%s@0" % a, F(1)),), None)
        lists = {}
        extra = []
        for mono, cf in got.items():
            tx = str(Poly({mono: F(1)}))
            hit = [l for l in elists if "self.%s" % l in tx]
            if len(mono) == 1 and hit and cf == 1:
                lists[hit[0]] = 1
            else:
                extra.append("%s*%s" % (cf, tx[:80]))
        ok = not missing and not extra and set(lists) == set(elists)
        rep.ob("total", "%s.%s" % (cn, fn), ok, "terms missing or not entering with weight one: %s; unexpected: %s" % (missing + [l for l in elists if l not in lists], extra), f.loc())


def registers(m, rep):
    """the parts of the conserved quantity are registered on every path of bind"""
    want = [("Dynamics", [("add_econs", "thermostat.ethermo"), ("add_econs", "barostat.ebaro"), ("add_xlpot", "barostat.pot"), ("add_xlpot", "barostat.cell_jacobian"), ("add_xlkin", "barostat.kin")]),
            ("AtomSwap", [("add_econs", "ealc")]), ("AlchemyMC", [("add_econs", "ealc")]),
            ("SCIntegrator", [("add_econs", "forces.potsc"), ("add_xlpot", "forces.potsc")])]
    for cn, pairs in want:
        for c in m.prog.subclasses(m.prog.cls(cn)):
            f = c.find("bind")
            ip = m.interp(maxdepth=4, inline=lambda g, k, d: g.name not in ("add_econs", "add_xlpot", "add_xlkin"))
            tree = ip.run(f, c)

            def step(e, s):
                nm = str(e.label or "").rpartition(".")[2]
                if e.kind == "call" and nm in ("add_econs", "add_xlpot", "add_xlkin"):
                    for x in (e.args[0] if e.args else ()):
                        if x[0] == "dep":
                            s = s | {(nm, ".".join(map(str, x[1])))}
                return [s]
            fl = Flow(step)
            out = fl.run(tree, [frozenset()])
            fin = [s for k in ("fall", "return") for s in out.get(k, ())]
            for nm, what in pairs:
                ok = bool(fin) and all(sum(1 for a, p in st_set(s) if a == nm and p.endswith(what)) >= 1 for s in fin)
                rep.ob("registered", "%s.bind:%s(%s)" % (c.name, nm, what), ok, "%s is not registered in the ensemble on every path of bind" % what, f.loc())


def st_set(s):
    for x in (s if isinstance(s, (frozenset, set)) else s[0] if isinstance(s, tuple) else ()):
        yield x


def run(tier):
    m = model()
    rep = Report(PID, tier, "value numbering (algebraic dataflow) of energies and momenta", "thermostats, barostats, constraints, projections, metadynamics, totals")
    rep.rule("heat", "a thermostat books exactly the kinetic energy it removes", 8)
    rep.rule("cell-mask", "removing parts of the cell momentum is booked as kin before - kin after", 4)
    rep.rule("constraint", "the kinetic energy taken out by constraints is added to the conserved quantity", 2)
    rep.rule("projection", "projecting momenta after a thermostat is booked", 1)
    rep.rule("moves", "metadynamics work is booked for every bead", 1)
    rep.rule("total", "the conserved quantity, ensemble probability and barostat energy contain every part with weight one", 5)
    rep.rule("registered", "every part of the conserved quantity is registered on every path of the set-up", 8)
    rep.part("thermostats", thermostats, m, rep)
    rep.part("barostats", barostats, m, rep)
    rep.part("constraints", constraints, m, rep)
    rep.part("projections", projections, m, rep)
    rep.part("centroid", centroid, m, rep)
    rep.part("metad", metad, m, rep)
    rep.part("linear_terms", linear_terms, m, rep, "Ensemble", "get_econs", ["nm.vspring", "nm.kin", "forces.pot", "bias.pot", "eens"], ["_elist"])
    rep.part("linear_terms", linear_terms, m, rep, "Ensemble", "get_lpens", ["nm.vspring", "nm.kin", "forces.pot", "bias.pot"], ["_xlpot", "_xlkin"],
                 lambda v, st: num(-1) * atom("const:Constants.kb") * atom("self.temp@0") * atom("self.beads.nbeads@0"))
    rep.part("registers", registers, m, rep)
    return rep.finish()


if __name__ == "__main__":
    main(run, PID)
