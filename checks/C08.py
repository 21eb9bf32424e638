"""C08: a step of every integrator is time-symmetric and advances every part by exactly one time step."""
import ast
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from fractions import Fraction as F
from vlib.model import model
from vlib.report import Report, main
from vlib.vn import VN, Poly, Path, State, Frame, atom, num
from vlib.opterm import Terms, OVN, strip, strip_poly, show

PID = "C08"
POS, KICK, THERM = ("D", "F", "Q"), ("K", "B", "Bs"), ("O", "Ob")


def subst(p, env):
    """replace atoms by polynomials"""
    out = Poly()
    for mono, c in p.t.items():
        t = Poly({(): c})
        for a, e in mono:
            r = env(a)
            t = t * ((r if r is not None else atom(a)).power(e))
        out = out + t
    return out


def H(x):
    return atom("half(%s)" % x, scalar=True)


def norm_count(p, g):
    """counts in terms of h(level) and r(level), nmts = 2h + r"""
    def env(a):
        m = re.match(r"^(int|floor|np\.floor)\{1/2\*self\.nmts\[(.*)\]\}$|^floordiv\{self\.nmts\[(.*)\]\}\{2\}$", a)
        if m:
            return H(m.group(2) or m.group(3))
        m = re.match(r"^int\{1/2 \+ 1/2\*self\.nmts\[(.*)\]\}$", a)
        if m:
            return H(m.group(1)) + R(m.group(1), g)
        m = re.match(r"^self\.nmts\[(.*)\]$", a)
        if m:
            return num(2) * H(m.group(1)) + R(m.group(1), g)
        m = re.match(r"^mod\{self\.nmts\[(.*)\]\}\{2\}$", a)
        if m:
            return R(m.group(1), g)
    return subst(p, env)


def R(x, g):
    for k, v in g.items():
        k = k.replace(" ", "")
        m = "mod{self.nmts[%s]}{2}" % x.replace(" ", "")
        if k in ("eq{1;%s}" % m, m, "eq{%s;1}" % m, "lt{0<%s}" % m):
            return num(1 if v else 0)
        if k in ("eq{0;%s}" % m, "not{%s}" % m):
            return num(0 if v else 1)
    return atom("odd(%s)" % x, scalar=True)


def mirror_force(k):
    """driven dynamics: the field at time t + c dt corresponds, in the reversed step, to t + (1-c) dt"""
    def f(m):
        a = m.group(1)
        c = re.match(r"^(?:(?:(\S+)\*)?self\.dt \+ )?self\.time$", a)
        if not c:
            return m.group(0)
        cf = F(c.group(1)) if c.group(1) else F(1) if "self.dt" in a else F(0)
        cf = 1 - cf
        return "Efield(%s)" % ("self.time" if cf == 0 else "self.dt + self.time" if cf == 1 else "%s*self.dt + self.time" % cf)
    return re.sub(r"Efield\(([^()]*)\)", f, k)


def canon(w, drop=("C", "M")):
    """normal form: constraints dropped, runs of commuting operations sorted and merged"""
    out = []
    for o in w:
        if o[0] in drop:
            continue
        if o[0] == "L":
            b = canon(o[2], drop)
            if b:
                out.append(("L", str(o[1]), tuple(b)))
        elif o[0] in ("K", "D"):
            out.append((o[0], o[1], o[2]))
        elif o[0] == "N":
            out.append(("N", o[1], o[2]))
        elif o[0] in ("B", "X"):
            out.append((o[0], o[1]))
        else:
            out.append((o[0],))
    res, run, cls = [], [], None

    def flush():
        acc = {}
        for o in run:
            k = o[:2]
            acc[k] = acc.get(k, Poly()) + (o[2] if len(o) > 2 else num(1))
        if run:
            res.append(tuple(sorted((k, str(v)) for k, v in acc.items())))
        run.clear()
    for o in out:
        c = POS if o[0] in POS else KICK if o[0] in KICK else THERM if o[0] in THERM else None
        if c is None or c is not cls:
            flush()
        cls = c
        if c is None:
            res.append(o)
        else:
            run.append(o)
    flush()
    return res


def rev(w, sigma):
    out = []
    for o in reversed(w):
        if isinstance(o[0], str) and o[0] == "L":
            out.append(("L", o[1], tuple(rev(list(o[2]), sigma))))
        elif isinstance(o[0], str) and o[0] == "N":
            out.append(("N", sigma.get(o[1], o[1]), o[2]))
        elif isinstance(o[0], tuple):
            out.append(tuple(sorted((((k[0], mirror_force(k[1])) if k[0] == "K" else k), v) for k, v in o)))
        else:
            out.append(o)
    return out


def compatible(g1, g2):
    return all(g2.get(k, v) == v for k, v in g1.items())


def involutions(names):
    names = sorted(names)
    if not names:
        yield {}
        return
    a, rest = names[0], names[1:]
    for s in involutions(rest):
        yield dict(s, **{a: a})
    for b in rest:
        for s in involutions([x for x in rest if x != b]):
            yield dict(s, **{a: b, b: a})


def total(w, g, pick):
    """sum over the word of count * amount(op)"""
    out = Poly()
    for o in w:
        if o[0] == "L":
            out = out + norm_count(o[1], g) * total(o[2], g, pick)
        else:
            v = pick(o)
            if v is not None:
                out = out + v
    return out


def flat(w):
    for o in w:
        if o[0] == "L":
            yield from flat(o[2])
        else:
            yield o


def derived(m, cls, name):
    """[(guards, value)] of a cached quantity of the integrator, from the function registered for it"""
    fn = None
    for k in cls.mro():
        for f in getattr(k, "methods", {}).values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "_" + name and isinstance(n.value, ast.Call):
                    for kw in n.value.keywords:
                        if kw.arg == "func":
                            fn = fn or (kw.value, f)
    if fn is None:
        return None
    node, host = fn
    vn = OVN(m, cls)
    if isinstance(node, ast.Attribute) and cls.find(node.attr) is not None:
        f = cls.find(node.attr)
        return [({strip(k): v for k, v in st.guards.items()}, st.ret, f, st) for st in vn.run(f) if st.exit == "return"]
    if isinstance(node, ast.Lambda):
        st = State({})
        st.env = {"self": Path("self")}
        fr = Frame(host.module, host.cls, Path("self"), cls, 0, host, None, frozenset())
        return [({}, vn._ev(node.body, st, fr), host, st)]
    return None


def run(tier):
    rep = Report(PID, tier, "operator words of every integrator (loops and recursion kept symbolic): reversal symmetry and symbolic time counting",
                 "ipi/engine/motion/dynamics.py, constrained_dynamics.py, driven_dynamics.py, ipi/engine/normalmodes.py, ipi/engine/barostats.py")
    m = model()
    rep.rule("symmetric", "the sequence of operations of a step read backwards is the same step", 20)
    rep.rule("weight", "kicks, free propagation and thermostats add up to one time step for each part", 40)
    rep.rule("level", "the forces of a level are applied with the time step of the same level, in the routine of that level", 8)
    rep.rule("bias", "the bias is applied with the outermost level only, as often as its forces", 6)
    rep.rule("order", "the barostat is kicked with the momenta before the kick of the same level", 2)
    rep.rule("split", "time step fractions: qdt, pdt, tdt and the numbers they are made of", 8)
    rep.rule("reversible", "the cell propagator undoes itself when all momenta are reversed", 2)
    rep.rule("cell-flow", "cell, positions and momenta move with the same exponential of the cell velocity over the same time", 4)
    rep.rule("kick-first", "forces act first and last (velocity Verlet order), thermostats outside or in the middle", 4)
    rep.rule("parts", "constant-temperature integrators apply the thermostat, constant-pressure ones the barostat and its thermostat", 6)
    rep.rule("cell-kick", "a barostat kick integrates volume times (stress - external stress) over the time of its level, with momenta that change linearly in time", 5)
    rep.rule("clock", "the simulation time advances by one time step, after the step", 1)
    rep.rule("fieldtime", "the driving field of the two half kicks is taken at the start and the end of the step", 2)
    base = m.prog.cls("DummyIntegrator")
    classes = [c for c in m.prog.subclasses(base) if c.find("step") is not None and c.find("step").cls is not base]
    classes = sorted({c.name: c for c in classes}.values(), key=lambda c: c.name)
    rep.note("integrators", [c.name for c in classes]) if hasattr(rep, "note") else None
    done_rec = set()
    for c in classes:
        rep.part("one", one, rep, m, c, done_rec)
    rep.part("cell_props", cell_props, rep, m)
    rep.part("cell_flow", cell_flow, rep, m)
    rep.part("cell_kick", cell_kick, rep, m)
    rep.part("ring", ring, rep, m)
    rep.part("clock", clock, rep, m)
    return rep.finish()


ISO = """
def ref(self, level=0):
    dt = self.pdt[level]
    nb = self.beads.nbeads
    self.p += dt * self.cell.V * np.trace(self.%s(level))
    if level == self.nmtslevels - 1:
        pc = dstrip(self.beads.pc)
        fc = np.sum(dstrip(self.forces.mts_forces[level].f)%s, axis=0) / nb
        fm = fc / dstrip(self.beads.m3)[0]
        self.p += 3 * dt * (Constants.kb * self.temp - self.cell.V * nb * self.pext) + nb * (dt**2 * np.dot(pc, fm) + dt**3 / 3 * np.dot(fc, fm))
"""
ANI = """
def ref(self, level=0):
    dt = self.pdt[level]
    nb = self.beads.nbeads
    %s
    self.p += dt * self.cell.V * np.triu(self.stress_mts(level))
    if level == self.nmtslevels - 1:
        self.p += dt * (Constants.kb * self.temp * self.L - self.cell.V * nb * np.triu(ext))
        pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
        fc = np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(self.beads.natoms, 3) / nb
        fm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
        self.p += nb * np.triu(dt**2 * np.dot(fm, pc) + dt**3 / 3 * np.dot(fm, fc))
    self.p *= self.hmask
    %s
"""
REFS = [
    ("BaroBZP", "pstep", ISO % ("stress_mts", "")),
    ("BaroSCBZP", "pstep", ISO % ("stress_mts_sc", " * (1 + self.forces.coeffsc_part_1)")),
    ("BaroSCBZP", "pscstep", "def ref(self):\n    self.p += 0.5 * self.dt * self.cell.V * np.trace(self.stress_sc)\n"),
    ("BaroRGB", "pstep", ANI % ("hh0 = np.dot(self.cell.h, self.h0.ih)\n    ext = np.dot(hh0, np.dot(self.stressext, hh0.T)) * self.h0.V / self.cell.V", "pass")),
    ("BaroMTK", "pstep", ANI % ("ext = np.eye(3) * self.pext", "if self.vol_constraint is True:\n        self.p -= np.eye(3) * np.trace(self.p) / 3.0")),
    ("Barostat", "stress_mts", """
def ref(self, level):
    bvir = np.zeros((3, 3), float)
    if self.bias is not None and level == 0:
        bvir[:] = self.bias.vir
    return (self.kstress_mts(level) + self.forces.mts_forces[level].vir + bvir) / self.cell.V
"""),
    ("Barostat", "stress_mts_sc", """
def ref(self, level):
    bvir = np.zeros((3, 3), float)
    if self.bias is not None and level == 0:
        bvir[:] = self.bias.vir
    c = (1 + self.forces.coeffsc_part_1).reshape((self.beads.nbeads, 1, 1))
    return (self.kstress_mts_sc(level) + np.sum(self.forces.mts_forces[level].virs * c, axis=0) + bvir) / self.cell.V
"""),
    ("Barostat", "get_stress_sc", "def ref(self):\n    return (self.kstress_sc + np.sum(dstrip(self.forces.virssc_part_2), axis=0)) / self.cell.V\n"),
]


def cell_kick(rep, m):
    from vlib import formula
    prog = m.prog
    for cn, fn, src in REFS:
        if not prog.has_cls(cn):
            continue
        c = prog.cls(cn)
        if c.find(fn) is None:
            continue
        formula.check(rep, "cell-kick", "%s.%s" % (cn, fn), prog, c, fn, src, keep=("stress_mts", "stress_mts_sc", "kstress_mts", "kstress_mts_sc"),
                      ignore=lambda t: "ethermo" in repr(t))
    # positions move with the momenta over the masses for qdt
    b = prog.cls("DummyIntegrator")
    for c in [b] + list(prog.subclasses(b)):
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "_qdt_on_m" and isinstance(n.value, ast.Call):
                    fu = next((k.value for k in n.value.keywords if k.arg == "func"), None)
                    body = None
                    if isinstance(fu, ast.Lambda):
                        body = ast.unparse(fu.body)
                    elif isinstance(fu, ast.Attribute):
                        body = "%s()" % ast.unparse(fu)
                    if body is None:
                        continue
                    g = formula.ref_func("def got(self):\n    return " + body, f, c)
                    r = formula.compare(prog, c, g, "def ref(self):\n    return self.qdt / dstrip(self.beads.m3)[0]\n")
                    if r is None or r[0] == "no":
                        rep.ob("cell-kick", "%s.qdt_on_m" % c.name, r is None, r[1] if r else "", f.loc(n))


def loc(m, c, name):
    f = c.find(name)
    return f.loc(f.node)


def one(rep, m, c, done_rec):
    T = Terms(m, c)
    words = {}
    todo = ["step"]
    while todo:
        n = todo.pop()
        if n in words:
            continue
        ws, _ = T.words(n)
        if n == "step":
            # an unknown splitting makes the set-up of the thermostat time step fail
            ws = [(g, w) for g, w in ws if not (any(k.startswith("eq{lit:") and "splitting" in k for k in g) and not any(v for k, v in g.items() if k.startswith("eq{lit:") and "splitting" in k))]
        words[n] = ws
        for g, w in ws:
            todo += [o[1] for o in flat(w) if o[0] == "N"]
    rec = sorted(n for n in words if n != "step")
    if not any(list(flat(w)) for g, w in words["step"]):
        return
    # ---------------------------------------------------------------- symmetry
    cw = {n: [(g, canon(w)) for g, w in ws] for n, ws in words.items()}
    best = None
    for sigma in involutions(rec):
        bad = []
        for n in words:
            k = sigma.get(n, n)
            for g, w in cw[n]:
                for g2, w2 in cw[k]:
                    if compatible(g, g2) and rev(w, sigma) != w2:
                        bad.append((n, k, g, w, w2))
        if best is None or len(bad) < len(best[1]):
            best = (sigma, bad)
    sigma, bad = best
    badn = {b[0]: b for b in bad}
    for n in words:
        b = badn.get(n)
        rep.ob("symmetric", "%s.%s" % (c.name, n), b is None,
               "" if b is None else "the operations of %s are not those of %s in reverse order%s: %s" % (n, b[1], glabel(b[2]), diff(rev(b[3], sigma), b[4])), loc(m, c, n))
    # ---------------------------------------------------------------- order and completeness of the parts
    syms = {o[0] for ws in words.values() for g, w in ws for o in flat(w)}
    if rec:
        for g, w in words["step"]:
            for rv in (False, True):
                fs = firsts(words, w, g, rv, set())
                rep.ob("kick-first", "%s.step%s:%s" % (c.name, glabel(g).replace(" ", ""), "last" if rv else "first"), not fs & {"D", "F", "Q"},
                       "the %s operation of the step%s may be a movement of the positions, not a kick" % ("last" if rv else "first", glabel(g)), loc(m, c, "step"))
    need = set()
    for anc, what in (("NVTIntegrator", "O"), ("NVTConstrainedIntegrator", "O")):
        if m.prog.cls(anc) is not None and c.is_sub(m.prog.cls(anc)):
            need.add("O")
    for anc in ("NPTIntegrator", "SCNPTIntegrator"):
        if m.prog.cls(anc) is not None and c.is_sub(m.prog.cls(anc)):
            need |= {"B", "Q", "Ob"}
    if m.prog.cls("SCNPTIntegrator") is not None and c.is_sub(m.prog.cls("SCNPTIntegrator")):
        need.add("Bs")
    if need:
        txt = {"O": "thermostat", "B": "kick of the cell momentum", "Q": "propagation of the cell", "Ob": "thermostat of the barostat", "Bs": "Suzuki-Chin kick of the cell momentum"}
        rep.ob("parts", c.name, not need - syms, "the step never applies the " + ", ".join(txt[x] for x in sorted(need - syms)), loc(m, c, "step"))
    # ---------------------------------------------------------------- fractions
    der = {}
    for nm in ("qdt", "tdt", "pdt", "inmts", "nmtslevels"):
        der[nm] = derived(m, c, nm)
    fractions(rep, m, c, der)
    qv = der["qdt"][0][1] if der["qdt"] and len(der["qdt"]) == 1 and isinstance(der["qdt"][0][1], Poly) else None
    qv = strip_poly(qv) if qv is not None else atom("self.qdt")
    tv = {}
    for g, v, f, st in der["tdt"] or []:
        for k, b in g.items():
            mm = re.match(r"eq\{lit:'(\w+)'; self\.splitting\}", k)
            if mm and b:
                tv[mm.group(1)] = strip_poly(v)

    def times(p, g, at0=False):
        def env(a):
            if a == "self.qdt" or a == "self.qdt_on_m":
                return qv
            mm = re.match(r"^self\.pdt\[(.*)\]$", a)
            if mm and mm.group(1) == "0" and (g.get("eq{0; index}") or g.get("eq{index; 0}")):
                return atom("self.pdt[index]")
            if mm and mm.group(1) == "0" and at0:
                return num(F(1, 2)) * atom("self.dt") * atom("self.nmts[0]").power(-1)
        return subst(p, env)
    # ---------------------------------------------------------------- weights of the recursive routines
    n_ = lambda g: num(2) * H("index") + R("index", g)
    unit = num(F(1, 2)) * atom("self.dt") * atom("self.inmts").power(-1)
    hasF = {n: any(o[0] == "F" for g, w in ws for o in flat(w)) for n, ws in words.items()}
    anyF = any(hasF.values())
    applies_bias = any(o[0] == "K" and "bias" in o[1] for n in rec for g, w in words[n] for o in flat(w))
    if rec:
        best = None
        for ws_ in itertools.product((1, 2), repeat=len(rec)):
            wt = dict(zip(rec, ws_))
            obs = []
            for n in rec:
                for g, w in words[n]:
                    obs += wob(c, n, g, w, wt, times, n_, unit, anyF)
            for g, w in words["step"]:
                t = total(w, g, lambda o: num(wt[o[1]]) if o[0] == "N" else None)
                obs.append(("step:levels" + glabel(g), t == num(2), "the multiple-time-step recursion is entered for %s half steps instead of 2%s" % (t, glabel(g)), "step"))
            nb = len({(o[0].split("|")[0], o[3]) for o in obs if not o[1]})
            if best is None or nb < best[0]:
                best = (nb, obs)
        emit(rep, m, c, best[1], done_rec, T)
    # ---------------------------------------------------------------- levels, bias, order
    for n in rec:
        lev, bias = [], []
        own = c.find(n).cls.name + ":" + ("" if c.find("pstep") is None else c.find("pstep").cls.name)
        for g, w in words[n]:
            for o in flat(w):
                if o[0] == "K":
                    tl = set(re.findall(r"self\.pdt\[(.*?)\]", str(o[2])))
                    fl = set(re.findall(r"mts_forces\[(.*?)\]|forces_mts\((.*?)\)", o[1]))
                    fl = {x or y for x, y in fl}
                    at0 = g.get("eq{0; index}")
                    ok = all(x in ("index",) or (x == "0" and at0) for x in tl | fl)
                    ok = ok and (fl or "mts" not in o[1]) and (fl or "bias" in o[1] or "forces" not in o[1])
                    if not ok:
                        lev.append("forces of level %s applied with the time step of level %s in the routine of level index" % (sorted(fl), sorted(tl)))
                    if "bias" in o[1] and at0 is not True:
                        bias.append("bias force applied at inner levels%s" % glabel(g))
                elif o[0] == "B" and o[1] != "index":
                    lev.append("barostat kicked for level %s in the routine of level index" % o[1])
            ks = [o for o in flat(w) if o[0] == "K"]
            if applies_bias and ks and g.get("eq{0; index}") and g.get("self.ensemble.has_bias", True):
                pickf = lambda o: times(o[2], g) if o[0] == "K" and "bias" in o[1] else None
                tb = total(w, g, pickf)
                want = n_(g) * atom("self.pdt[index]") * num(best_w(words, n, rec))
                if tb != want and not (best_w(words, n, rec) is None):
                    bias.append("bias force applied for %s instead of %s%s" % (tb, want, glabel(g)))
        if any(o[0] in ("K", "B") for g, w in words[n] for o in flat(w)):
            rep.ob("level", "%s.%s" % (c.name, n), not lev, "; ".join(sorted(set(lev))[:2]), loc(m, c, n))
            if applies_bias:
                rep.ob("bias", "%s.%s" % (c.name, n), not bias, "; ".join(sorted(set(bias))[:2]), loc(m, c, n))
        if any(o[0] in ("B", "Bs") for g, w in words[n] for o in flat(w)):
            bad = [x for g, w in words[n] for x in border(w)]
            rep.ob("order", "%s.%s" % (c.name, n), not bad, "; ".join(sorted(set(bad))[:2]), loc(m, c, n))
    # ---------------------------------------------------------------- the step itself
    forces = sorted({re.sub(r"Efield\([^()]*\)", "Efield", o[1]) for g, w in words["step"] for o in flat(w) if o[0] == "K"})
    for g, w in words["step"]:
        sp = [re.match(r"eq\{lit:'(\w+)'", k).group(1) for k, v in g.items() if v and k.startswith("eq{lit:") and "splitting" in k]
        lab = ":" + sp[0] if sp else ""
        if sp and not any(True for o in flat(w)):
            rep.ob("weight", "%s.step%s:work" % (c.name, lab), False, "nothing is done for the %s splitting" % sp[0], loc(m, c, "step"))
            continue
        one_dt = atom("self.dt")
        for k in forces:
            t = total(w, g, lambda o: times(o[2], g, True) if o[0] == "K" and re.sub(r"Efield\([^()]*\)", "Efield", o[1]) == k else None)
            rep.ob("weight", "%s.step%s:kick:%s" % (c.name, lab, short(k)), t == one_dt, "the force %s is applied for %s in one step instead of dt" % (short(k), t), loc(m, c, "step"))
        ef = [re.search(r"Efield\(([^()]*)\)", o[1]).group(1) for o in flat(w) if o[0] == "K" and "Efield(" in o[1]]
        if ef:
            ok = mirror_force("Efield(%s)" % ef[0]) == "Efield(%s)" % ef[-1]
            rep.ob("fieldtime", "%s.step%s" % (c.name, lab), ok and sorted(ef) == sorted(["self.time", "self.dt + self.time"]), "the driving field is evaluated at %s" % ", ".join(ef), loc(m, c, "step"))
        if not rec:
            t = total(w, g, lambda o: qv if o[0] == "F" else None)
            t2 = subst(t, lambda a: atom("self.dt") if False else None)
            rep.ob("weight", "%s.step%s:free" % (c.name, lab), t2 == one_dt, "the free ring polymer is propagated for %s in one step instead of dt" % t2, loc(m, c, "step"))
        for sym, txt in (("O", "thermostat"), ("Ob", "barostat thermostat")):
            if any(o[0] == sym for gg, ww in words["step"] for o in flat(ww)):
                opts = [sp[0]] if sp else ["obabo"]
                for s in opts:
                    if s in tv:
                        t = total(w, g, lambda o: tv[s] if o[0] == sym else None)
                        t = norm_count(t, g)
                        rep.ob("weight", "%s.step%s:%s" % (c.name, lab, txt.replace(" ", "-")), t == one_dt, "the %s acts for %s in one step instead of dt" % (txt, t), loc(m, c, "step"))
        if any(o[0] in ("B", "Bs") for o in flat(w)):
            bad = border(w)
            rep.ob("order", "%s.step%s" % (c.name, lab), not bad, "; ".join(sorted(set(bad))[:2]), loc(m, c, "step"))
            nB = total(w, g, lambda o: num(1) if o[0] == "Bs" else None)
            rep.ob("weight", "%s.step%s:cell-kick" % (c.name, lab), nB == num(2), "the cell momentum is kicked %s times instead of 2" % nB, loc(m, c, "step"))


def firsts(words, w, g, rv, seen):
    """symbols that can be the first (last) operation of a word, thermostats and constraints skipped"""
    out = set()
    for o in (reversed(w) if rv else w):
        if o[0] in ("C", "M", "O", "Ob", "X"):
            continue
        if o[0] == "L":
            out |= firsts(words, o[2], g, rv, seen)
            if norm_count(o[1], g).const() is None and "half(" in str(norm_count(o[1], g)) and R("index", g) != num(0):
                continue
            return out
        if o[0] == "N":
            if o[1] not in seen:
                for g2, w2 in words[o[1]]:
                    out |= firsts(words, w2, g2, rv, seen | {o[1]})
            return out
        out.add(o[0])
        return out
    return out


def clock(rep, m):
    dyn = m.prog.cls("Dynamics")
    for c in [dyn] + sorted(m.prog.subclasses(dyn), key=lambda k: k.name):
        f = c.find("step")
        vn = VN(m, c, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self")
        bad = []
        for st in vn.run(f):
            ev = [e for e in st.log if (e.kind == "call" and e.path == "self.integrator.step") or (e.kind == "write" and e.path == "self.ensemble.time")]
            tw = [e for e in ev if e.kind == "write"]
            if [e.kind for e in ev] != ["call", "write"]:
                bad.append("the clock is not advanced exactly once after the step of the integrator")
            elif strip_poly(tw[0].val) != atom("self.ensemble.time") + atom("self.dt"):
                bad.append("the time becomes %s" % strip(str(tw[0].val)))
        rep.ob("clock", c.name + ".step", not bad, "; ".join(sorted(set(bad))), f.loc(f.node))


def cell_flow(rep, m):
    """h' = E h, q' = E q + drift p/m, p' = E^-1 p with E = exp(v qdt) and a drift over qdt"""
    for c in sorted(m.prog.subclasses(m.prog.cls("Barostat")), key=lambda k: k.name):
        f = c.find("qcstep")
        if f is None or f.cls.name == "Barostat":
            continue
        vn = VN(m, c, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self")
        bad, n = set(), 0
        for st in vn.run(f):
            val = {}
            for e in st.log:
                if e.kind == "write":
                    val[re.sub(r"~", "", strip(e.path))] = strip_poly(e.val) if isinstance(e.val, Poly) else None
            h, q, p = val.get("self.cell.h"), val.get("self.beads.q[0]"), val.get("self.beads.p[0]")
            if h is None or q is None or p is None:
                bad.add("the cell, the centroid positions and the centroid momenta are not all propagated")
                n += 1
                continue
            H0, Q0, P0 = atom("self.cell.h"), atom("self.beads.q~[0]"), atom("self.beads.p~[0]")
            v, t, mass = atom("self.p[0]") / atom("self.m[0]"), atom("self.qdt"), atom("self.beads.m3[0]")
            ex = re.findall(r"(?:ret:)?(\w*exp\w*)\(([^()]*)\)", str(h))
            if len(h.t) == 1 and "e^{" in str(h):
                n += 1
                a = h / H0
                from vlib.vn import vexp
                if a != vexp(v * t):
                    bad.add("the cell is scaled by %s" % a)
                if p != P0 / a:
                    bad.add("momenta are scaled by %s, not by the inverse of the scaling of the cell" % (p / P0))
                if q != Q0 * a + (a - a.power(-1)) / (num(2) * v) * P0 / mass:
                    bad.add("positions do not follow the cell: q' = %s" % q)
            elif len(ex) == 1:
                n += 1
                A = ex[0][1]
                if not all(x in A for x in ("self.qdt", "self.p", "self.m[0]^-1")):
                    bad.add("the cell moves by exp(%s)" % A)
                eq = {x for _, x in re.findall(r"(?:ret:)?(\w*exp\w*)\(([^()]*)\)", str(q))}
                ep = {x for _, x in re.findall(r"(?:ret:)?(\w*exp\w*)\(([^()]*)\)", str(p))}
                if eq != {A}:
                    bad.add("positions move by exp(%s), the cell by exp(%s)" % (sorted(eq), A))
                if ep != {"-1*" + A}:
                    bad.add("momenta move by exp(%s), the cell by exp(%s)" % (sorted(ep), A))
                dr = [mo for mo in q.t if any("beads.p" in a for a, _ in mo)]
                if not dr or any(dict(mo).get("self.qdt") != 1 for mo in dr):
                    bad.add("the drift of the positions is not proportional to the time step%s" % (" (%s)" % "; ".join("%s is %s" % (strip(k)[:80], v) for k, v in sorted(st.guards.items())[:1]) if st.guards else ""))
                if len(q.t) != 2 or not any("beads.q" in a for mo in q.t for a, _ in mo):
                    bad.add("positions do not follow the cell")
        if n:
            rep.ob("cell-flow", c.name + ".qcstep", not bad, "; ".join(sorted(bad)[:2]), f.loc(f.node))


def best_w(words, n, rec):
    """half (1) or whole (2): routines that enter two routines of the same level are whole"""
    for g, w in words[n]:
        s = [o for o in flat(w) if o[0] == "N" and o[2] == "index"]
        if s:
            return 2
    return 1


def wob(c, n, g, w, wt, times, n_, unit, anyF):
    """obligations of one word of a recursive routine under the weight hypothesis wt"""
    obs = []
    W = num(wt[n])
    gl = glabel(g)
    same = [o for o in flat(w) if o[0] == "N" and o[2] == "index"]
    last = g.get("eq{-1 + self.nmtslevels; index}", g.get("eq{index; -1 + self.nmtslevels}"))
    if same:
        t = total(w, g, lambda o: num(wt[o[1]]) if o[0] == "N" and o[2] == "index" else None)
        obs.append(("parts|" + gl, t == W and not any(o[0] in ("K", "D", "F", "Q", "B") for o in flat(w)), "the routines of the same level do not add up%s" % gl, n))
        return obs
    others = [o for o in flat(w) if o[0] == "N" and o[2] != "1 + index"]
    obs.append(("next-level|" + gl, not others, "recursion to level %s instead of the next one" % (others[0][2] if others else ""), n))
    ks = sorted({o[1] for o in flat(w) if o[0] == "K" and "bias" not in o[1]})
    obs.append(("kicked|" + gl, bool(ks), "no force of this level is applied%s" % gl, n))
    for k in ks:
        t = total(w, g, lambda o: times(o[2], g) if o[0] == "K" and o[1] == k else None)
        obs.append(("kick|" + k + gl, t == W * n_(g) * atom("self.pdt[index]"), "the force %s is applied for %s instead of nmts*pdt = %s%s" % (short(k), t, W * n_(g) * atom("self.pdt[index]"), gl), n))
    if any(o[0] == "B" for o in flat(w)):
        t = total(w, g, lambda o: num(1) if o[0] == "B" else None)
        obs.append(("cell-kick|" + gl, t == W * n_(g), "the barostat is kicked %s times instead of %s%s" % (t, W * n_(g), gl), n))
    pos = total(w, g, lambda o: times(o[2], g) if o[0] == "D" else times(atom("self.qdt"), g) if o[0] == "Q" else None)
    free = total(w, g, lambda o: times(atom("self.qdt"), g) if o[0] == "F" else None)
    nxt = total(w, g, lambda o: num(wt[o[1]]) if o[0] == "N" and o[2] == "1 + index" else None)
    if last is True:
        obs.append(("drift|" + gl, pos == W * n_(g) * unit, "positions are propagated for %s instead of %s at the innermost level%s" % (pos, W * n_(g) * unit, gl), n))
        if anyF:
            obs.append(("free|" + gl, free == W * n_(g) * unit, "the ring polymer is propagated for %s instead of %s at the innermost level%s" % (free, W * n_(g) * unit, gl), n))
        obs.append(("leaf|" + gl, nxt == num(0), "recursion beyond the innermost level%s" % gl, n))
    elif last is False:
        obs.append(("recursion|" + gl, nxt == W * n_(g), "the next level is propagated for %s half slices instead of %s%s" % (nxt, W * n_(g), gl), n))
        obs.append(("inner|" + gl, pos == num(0) and free == num(0), "positions move at an outer level%s" % gl, n))
    return obs


def emit(rep, m, c, obs, done, T):
    by = {}
    for k, ok, msg, n in obs:
        kk = (n, k.split("|")[0])
        cur = by.get(kk)
        if cur is None or (cur[0] and not ok):
            by[kk] = (ok, msg)
    for (n, k), (ok, msg) in sorted(by.items()):
        rep.ob("weight", "%s.%s:%s" % (c.name, n, k), ok, msg, loc(m, c, n))


def border(w):
    """every barostat kick is followed, with no other operation in between, by the kick of the particles"""
    bad = []
    for i, o in enumerate(w):
        if o[0] == "L":
            bad += border(o[2])
        elif o[0] in ("B", "Bs"):
            if not (i + 1 < len(w) and w[i + 1][0] == "K"):
                bad.append("the barostat is kicked after or apart from the momenta of the particles")
            elif o[0] == "Bs" and "fsc" not in w[i + 1][1]:
                bad.append("the cell kick of the Suzuki-Chin correction does not go with the Suzuki-Chin force")
    return bad


def glabel(g):
    out = []
    for k, v in sorted(g.items()):
        if "mod{self.nmts" in k:
            odd = v if k.startswith("eq{1") or k.startswith("mod") else not v
            out.append("odd nmts" if odd else "even nmts")
        elif "nmtslevels" in k:
            out.append("innermost level" if v else "outer level")
        elif "splitting" in k and v:
            out.append(re.search(r"'(\w+)'", k).group(1))
    return " (%s)" % ", ".join(out) if out else ""


def short(k):
    k = re.sub(r"self\.|\[:,activeatoms_mask\]", "", k)
    return k if len(k) < 60 else k[:57] + "..."


def diff(a, b):
    for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y:
            return "operation %d is %s, its mirror image %s" % (i + 1, sho(y), sho(x))
    return ""


def sho(o):
    if o is None:
        return "missing"
    s = str(o)
    return s if len(s) < 160 else s[:157] + "..."


def fractions(rep, m, c, der):
    one_dt = atom("self.dt")
    lc = loc(m, c, "get_qdt") if c.find("get_qdt") else ""
    if der["inmts"]:
        v = strip(str(der["inmts"][0][1]))
        rep.ob("split", c.name + ":inmts", v in ("prod(self.nmts)", "np.prod(self.nmts)"), "the number of innermost steps is %s, not the product of nmts" % v, lc)
    if der["nmtslevels"]:
        v = strip(str(der["nmtslevels"][0][1]))
        rep.ob("split", c.name + ":nmtslevels", v == "len{self.nmts}", "the number of levels is %s" % v, lc)
    for g, v, f, st in der["pdt"] or []:
        s = strip(str(v))
        lc = f.loc(f.node)
        cum = "self.nmts^-1"
        ok = True
        msg = "the time step of each level is %s, not dt/2 divided by the product of nmts up to that level" % s
        p = strip_poly(v) if isinstance(v, Poly) else None
        if p is None or len(p.t) != 1:
            ok = "upd{" not in s
        else:
            (mono, co), = p.t.items()
            at = dict(mono)
            ok = co == F(1, 2) and at.get("self.dt") == 1
            rest = [a for a in at if a != "self.dt"]
            if ok and len(rest) == 1 and rest[0].startswith("upd{"):
                ok = bool(re.match(r"^upd\{self\.nmts\^-1\}\[var:(\w+)\]\{idx\{self\.nmts\}\[-1 \+ var:\1\]\^-1\*idx\{self\.nmts\}\[var:\1\]\^-1\}$", rest[0]))
                cnt = [strip(str(e.val)) for e in st.log if e.kind == "loop"]
                if ok and cnt and cnt[0] not in ("-1 + len{self.nmts^-1}", "-1 + len{self.nmts}", "-1 + self.nmtslevels"):
                    ok, msg = False, "the loop that accumulates the time step of the levels runs %s times" % cnt[0]
            elif ok and not rest:
                ok, msg = False, "the time step of the levels does not depend on nmts"
        rep.ob("split", c.name + ":pdt", ok, msg, lc)
    tv = {}
    for g, v, f, st in der["tdt"] or []:
        for k, b in g.items():
            mm = re.match(r"eq\{lit:'(\w+)'; self\.splitting\}", k)
            if mm and b:
                tv[mm.group(1)] = (v, f)
    for s in ("obabo", "baoab"):
        if s in tv:
            v = strip_poly(tv[s][0])
            ok = any(dict(mo).get("self.dt") == 1 for mo in v.t) and len(v.t) == 1
            rep.ob("split", c.name + ":tdt:" + s, ok, "thermostat time step for %s is %s" % (s, v), tv[s][1].loc(tv[s][1].node))


def ring(rep, m):
    """numerical free ring-polymer propagator: spring kicks and drifts add up to the time step, kick-drift-kick"""
    c = m.prog.cls("NormalModes")
    f = c.find("free_babstep")
    if f is None:
        return
    T = Terms(m, c, ("dt", "nmts"))
    vn = OVN(m, c, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self", maxdepth=6)
    for st in vn.run(f):
        w = T._word(st.log)
        if not w:
            continue
        g = {strip(k): v for k, v in st.guards.items()}
        dt = atom("self.dt")
        dq = lambda full: total(w, {}, lambda o: o[2] if o[0] == "D" and ("[0]" not in o[1].split(" ")[0]) == full else None)
        cnt = lambda p: subst(p, lambda a: None)
        k = total(w, {}, lambda o: o[2] if o[0] == "K" else None)
        rep.ob("weight", "NormalModes.free_babstep:spring", cnt(k) == dt, "spring forces are applied for %s instead of dt" % k, f.loc(f.node))
        rep.ob("weight", "NormalModes.free_babstep:drift", cnt(dq(True)) == dt, "beads are propagated for %s instead of dt" % dq(True), f.loc(f.node))
        rep.ob("weight", "NormalModes.free_babstep:centroid", cnt(dq(False)) == -dt, "the centroid step done elsewhere is undone for %s instead of dt" % dq(False), f.loc(f.node))
        for o in w:
            if o[0] == "L":
                b = canon(o[2])
                rep.ob("symmetric", "NormalModes.free_babstep:loop", rev(b, {}) == b, "kick - drift - kick is not symmetric: %s" % show(o[2])[:200], f.loc(f.node))


def cell_props(rep, m):
    """isotropic cell propagators: applying them, reversing all momenta and applying them again gives the old state"""
    for c in sorted(m.prog.subclasses(m.prog.cls("Barostat")), key=lambda k: k.name):
        f = c.find("qcstep")
        if f is None or f.cls.name == "Barostat":
            continue
        vn = VN(m, c, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self")
        outs = vn.run(f)
        if len(outs) != 1 or any(e.kind == "call" for e in outs[0].log):
            continue
        st = outs[0]
        P = {k: Path(k) for k in ("self.nm.qnm[0]", "self.nm.pnm[0]", "self.cell.h")}
        first = {k: vn.num(st, vn.read(st, Path(k))) for k in P}
        txt = " ".join(str(v) for v in first.values())
        if "e^{" not in txt:
            continue
        bp, pc = Path("self.p[0]"), Path("self.nm.pnm[0]")
        if "dot{" in txt or "eigensystem" in txt or "expm" in txt or "invert" in txt:
            continue
        v0 = {}
        st0 = State({})
        for k in P:
            v0[k] = vn.num(st0, vn.read(st0, Path(k)))
        vn.write(st, bp, -vn.num(st, vn.read(st, bp)), f.node, f)
        vn.write(st, pc, -vn.num(st, vn.read(st, pc)), f.node, f)
        fr = Frame(f.module, f.cls, Path("self"), c, 0, f, None, frozenset([f.qual]))
        st.env = {"self": Path("self")}
        st.exit = None
        o2 = vn.block(f.node.body, [st], fr)
        if len(o2) != 1:
            continue
        st = o2[0]
        for k in P:
            got = vn.num(st, vn.read(st, Path(k)))
            want = -v0[k] if "pnm" in k else v0[k]
            rep.ob("reversible", "%s.qcstep:%s" % (c.name, k.replace("self.", "")), strip_poly(got) == strip_poly(want),
                   "forward, momentum reversal and forward again gives %s instead of the initial value" % strip(str(got))[:300], f.loc(f.node))


if __name__ == "__main__":
    main(run, PID)
