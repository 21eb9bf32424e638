"""C09: constraints (fixed atoms, fixed centre of mass, holonomic constraints, fixed centroid) hold whenever positions
move and at the end of every step."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.model import model
from vlib.report import Report, main
from vlib.vn import VN, Poly, Path, atom, num
from vlib.opterm import Terms, strip, strip_poly

PID = "C09"
NAME = {"p": "fixed atoms / centre of mass", "cot": "cotangent space of the constraints", "q": "constraint manifold", "cc": "fixed centroid"}


REFS = [
    ("ConstraintBase", "Gfunc", """
def ref(self):
    dg = dstrip(self.Dg).copy()
    return np.dot(dg, (dg / self.m3).T)
"""),
    ("RigidBondConstraint", "gfunc", """
def ref(self):
    q = dstrip(self.q)
    r = np.zeros(self.ncons)
    for i in range(self.ncons):
        k = self.i3_indirect[i]
        r[i] = np.sum((q[k[0]] - q[k[1]]) ** 2) - dstrip(self.constraint_values)[i] ** 2
    return r
"""),
    ("RigidBondConstraint", "Dgfunc", """
def ref(self, reduced=False):
    q = dstrip(self.qprev)
    r = np.zeros((self.ncons, self.n_unique * 3))
    for i in range(self.ncons):
        k = self.i3_indirect[i]
        r[i][k[0]] = 2.0 * (q[k[0]] - q[k[1]])
        r[i][k[1]] = -2.0 * (q[k[0]] - q[k[1]])
    return r
"""),
    ("AngleConstraint", "gfunc", """
def ref(self):
    q = dstrip(self.q)
    r = np.zeros(self.ncons)
    for i in range(self.ncons):
        k = self.i3_indirect[i]
        q1 = q[k[1]] - q[k[0]]
        q2 = q[k[2]] - q[k[0]]
        r[i] = np.dot(q1, q2) / np.sqrt(np.dot(q1, q1)) / np.sqrt(np.dot(q2, q2)) - np.cos(dstrip(self.constraint_values))[i]
    return r
"""),
    ("AngleConstraint", "Dgfunc", """
def ref(self, reduced=False):
    q = dstrip(self.qprev)
    r = np.zeros((self.ncons, self.n_unique * 3))
    for i in range(self.ncons):
        k = self.i3_indirect[i]
        q1 = q[k[1]] - q[k[0]]
        r1 = np.sqrt(np.dot(q1, q1))
        q1 = q1 / r1
        q2 = q[k[2]] - q[k[0]]
        r2 = np.sqrt(np.dot(q2, q2))
        q2 = q2 / r2
        ct = np.dot(q1, q2)
        r[i][k[1]] = (q2 - ct * q1) / r1
        r[i][k[2]] = (q1 - ct * q2) / r2
        r[i][k[0]] = -(r[i][k[1]] + r[i][k[2]])
    return r
"""),
    ("EckartConstraint", "gfunc", """
def ref(self):
    r = np.zeros(self.ncons)
    d = dstrip(self.q).reshape((-1, 3)) - dstrip(self.qref)
    r[:3] = np.sum(dstrip(self.m3).reshape((-1, 3)) * d, axis=0) / self.mtot
    r[3:] = np.sum(np.cross(dstrip(self.mqref_rel), d), axis=0) / self.mtot
    return r
"""),
    ("EckartConstraint", "Dgfunc", """
def ref(self, reduced=False):
    r = np.zeros((self.ncons, self.n_unique, 3))
    m = dstrip(self.m3).reshape((-1, 3))
    x = dstrip(self.mqref_rel)
    for i in range(3):
        r[i, :, i] = m[:, i]
    r[3, :, 1] = -x[:, 2]
    r[3, :, 2] = x[:, 1]
    r[4, :, 0] = x[:, 2]
    r[4, :, 2] = -x[:, 0]
    r[5, :, 0] = -x[:, 1]
    r[5, :, 1] = x[:, 0]
    r /= self.mtot
    r.shape = (self.ncons, -1)
    return r
"""),
    ("ConstraintList", "gfunc", """
def ref(self):
    r = np.zeros(self.ncons)
    si = 0
    for k in self.constraint_list:
        r[si : si + k.ncons] = k.g
        si += k.ncons
    return r
"""),
    ("ConstraintList", "Dgfunc", """
def ref(self):
    r = np.zeros((self.ncons, np.size(dstrip(self.qprev))))
    si = 0
    for i, k in enumerate(self.constraint_list):
        r[si : si + k.ncons, self.ic3_map[i]] = k.Dg
        si += k.ncons
    return r
"""),
    ("ConstraintSolver", "bind", """
def ref(self, beads):
    self.beads = beads
    q = dstrip(beads.q[0])
    for k in self.constraint_list:
        k.qprev = q[k.i3_unique.flatten()]
"""),
    ("ConstraintSolver", "proj_cotangent", """
def ref(self):
    p = dstrip(self.beads.p[0]).copy()
    for k in self.constraint_list:
        dg = dstrip(k.Dg)
        ic = k.i3_unique
        b = np.dot(dg, p[ic] / k.m3)
        if spla is None:
            x = np.linalg.solve(dstrip(k.Gram), b)
        else:
            x = spla.cho_solve(dstrip(k.GramChol), b)
        p[ic] -= np.dot(np.transpose(dg), x)
    self.beads.p[0] = p
"""),
    ("ConstraintSolver", "proj_manifold", """
def ref(self):
    m3 = dstrip(self.beads.m3[0])
    p = dstrip(self.beads.p[0]).copy()
    q = dstrip(self.beads.q[0]).copy()
    for k in self.constraint_list:
        dg = dstrip(k.Dg)
        if spla is None:
            gram = dstrip(k.Gram)
        else:
            gram = dstrip(k.GramChol)
        ic = k.i3_unique
        k.q = q[ic]
        for i in range(self.maxit):
            g = dstrip(k.g)
            if self.tolerance > np.linalg.norm(g, ord=self.norm_order):
                break
            if spla is None:
                l = np.linalg.solve(gram, g)
            else:
                l = spla.cho_solve(gram, g)
            d = np.dot(np.transpose(dg), l)
            q[ic] -= d / m3[ic]
            k.q = q[ic]
            p[ic] -= d / self.dt
    for k in self.constraint_list:
        k.qprev = q[k.i3_unique.flatten()]
    self.beads.p[0] = p
    self.beads.q[0] = q
"""),
]


def solver(rep, m):
    """The constraints, their derivatives and the two projections of the constraint solver."""
    from vlib import formula
    for cn, fn, src in REFS:
        if m.prog.has_cls(cn) and m.prog.cls(cn).find(fn) is not None:
            formula.check(rep, "projection", "%s.%s" % (cn, fn), m.prog, m.prog.cls(cn), fn, src, zeros=False, conditions=False)


def run(tier):
    rep = Report(PID, tier, "typestate of the momentum and position constraints over the operator words of every integrator (loops and recursion by fixpoint)",
                 "ipi/engine/motion/dynamics.py, constrained_dynamics.py, driven_dynamics.py")
    m = model()
    rep.rule("before-move", "momenta are projected between every kick or thermostat and the next movement of the positions", 10)
    rep.rule("end", "constraints hold at the end of every step", 10)
    rep.rule("manifold", "positions are put back on the constraint manifold after every movement, before anything uses them", 2)
    rep.rule("projection", "the projection removes exactly the constrained momenta", 2)
    rep.rule("start", "the momenta given in the input are projected before the first step", 1)
    base = m.prog.cls("DummyIntegrator")
    cons = m.prog.cls("ConstrainedIntegrator")
    for c in sorted({k.name: k for k in m.prog.subclasses(base)}.values(), key=lambda k: k.name):
        if c.find("step") is None or c.find("step").cls is base:
            continue
        rep.part("integrator", integrator, rep, m, c, cons)
    rep.part("pcons", pcons, rep, m, base)
    rep.part("start", start, rep, m)
    rep.part("solver", solver, rep, m)
    return rep.finish()


def even(g):
    for k, v in g.items():
        if "mod{self.nmts[" in k:
            odd = v if (k.startswith("eq{1;") or k.startswith("mod{") or k.startswith("lt{0")) else not v
            return not odd
    return None


def integrator(rep, m, c, cons):
    T = Terms(m, c)
    words, todo = {}, ["step"]
    while todo:
        n = todo.pop()
        if n in words:
            continue
        words[n] = T.words(n)[0]
        todo += [o[1] for g, w in words[n] for o in flat(w) if o[0] == "N"]
    allops = [o for ws in words.values() for g, w in ws for o in flat(w)]
    if not allops:
        return
    kinds = ["p"]
    if cons is not None and c.is_sub(cons):
        kinds += ["cot", "q"]
    if any(iszero(o) for o in allops):
        kinds.append("cc")
    viol, summ, work = {}, {}, []

    def apply(o, bits, where):
        """bits: frozenset of violated constraints"""
        k = o[0]
        if k in ("D", "F", "Q"):
            for b in ("p", "cot", "cc", "q"):
                if b in bits:
                    viol.setdefault(("manifold" if b == "q" else "before-move", where[0], b), (o[-1], where[1]))
            bits = bits - {"p", "cot", "cc", "q"}
            if k == "D" and "q" in kinds:
                bits = bits | {"q"}
            return bits
        if k in ("K", "O"):
            if "q" in bits:
                viol.setdefault(("manifold", where[0], "q"), (o[-1], where[1]))
                bits = bits - {"q"}
            return bits | frozenset(x for x in ("p", "cot", "cc") if x in kinds)
        if k == "M":
            return (bits - {"q"}) | frozenset(["cot"])
        if k == "C" and o[1] in ("p", "cot"):
            return bits - {o[1]}
        if iszero(o):
            return bits - {"cc"}
        return bits

    def flow(w, S, g, where):
        for o in w:
            if not S:
                return S
            if o[0] == "L":
                acc, cur = set(), S
                h = bool(re.search(r"\{1/2\*self\.nmts|floordiv", str(o[1])))
                if h and even(g) is not True:
                    acc |= S
                seen = set()
                while cur - seen:
                    seen |= cur
                    cur = flow(o[2], cur, g, where)
                    acc |= cur
                S = acc
            elif o[0] == "N":
                out = set()
                for b in S:
                    out |= call(o[1], b)
                S = out
            else:
                S = {apply(o, b, where) for b in S}
        return S

    def call(n, b):
        key = (n, b)
        if key not in summ:
            summ[key] = set()
            work.append(key)
        return summ[key]

    def settle():
        changed = True
        while changed:
            changed = False
            for key in list(summ):
                n, b = key
                out = set()
                for g, w in words[n]:
                    out |= flow(w, {b}, g, (n, glabel(g)))
                if not out <= summ[key]:
                    summ[key] |= out
                    changed = True
            if len(work) > len(summ):
                changed = True
    res = {}
    call("step", frozenset())
    n0 = -1
    while n0 != len(summ) + sum(len(x) for x in summ.values()):
        n0 = len(summ) + sum(len(x) for x in summ.values())
        settle()
    ends = set()
    for g, w in words["step"]:
        for b in flow(w, {frozenset()}, g, ("step", glabel(g))):
            for x in b:
                ends.add((x, glabel(g)))
    for k in kinds:
        for n in sorted(words):
            rule = "manifold" if k == "q" else "before-move"
            if not any(o[0] in ("D", "F", "Q", "K", "O", "N") for g, w in words[n] for o in flat(w)):
                continue
            v = viol.get((rule, n, k))
            rep.ob(rule, "%s.%s:%s" % (c.name, n, k), v is None,
                   "" if v is None else "%s%s: positions move or are used while the %s constraint is violated" % (n, v[1], NAME[k]),
                   v[0].func.loc(v[0].node) if v is not None and v[0].func is not None else floc(c, n))
        e = sorted(x[1] for x in ends if x[0] == k)
        rep.ob("end", "%s:%s" % (c.name, k), not e, "the step%s ends with the %s constraint violated: no projection after the last kick or thermostat" % (e[0] if e else "", NAME[k]), floc(c, "step"))


def iszero(o):
    if o[0] != "C" or o[1] != "z":
        return False
    e = o[-1]
    return isinstance(e.extra, Poly) and e.extra == num(0) and "[0]" in e.path


def flat(w):
    for o in w:
        if o[0] == "L":
            yield from flat(o[2])
        else:
            yield o


def floc(c, n):
    f = c.find(n)
    return f.loc(f.node)


def glabel(g):
    out = []
    for k, v in sorted(g.items()):
        if "splitting" in k and v:
            out.append(re.search(r"'(\w+)'", k).group(1))
        elif "nmtslevels" in k:
            out.append("innermost level" if v else "outer level")
        elif "mod{self.nmts" in k:
            out.append("even nmts" if even(g) else "odd nmts")
    return " (%s)" % ", ".join(out) if out else ""


def pcons(rep, m, base):
    """the momenta removed: the whole centre-of-mass velocity; all momenta of the fixed degrees of freedom"""
    f = base.find("pconstraints")
    impl = {k.find("pconstraints").qual: (k, k.find("pconstraints")) for k in [base] + list(m.prog.subclasses(base)) if k.find("pconstraints") is not None}
    for q, (k, f) in sorted(impl.items()):
        vn = VN(m, k, inline=lambda fn, recv: True)
        com, fix, seen = [], [], [False, False]
        for st in vn.run(f):
            g = st.guards
            fc = [v for x, v in g.items() if "fixcom" in x]
            fa = [v for x, v in g.items() if "fixatoms" in x]
            ws = [e for e in st.log if e.kind == "write" and re.search(r"beads\.p|pnm", e.path)]
            cw = [e for e in ws if "fixatoms" not in e.path]
            fw = [e for e in ws if "fixatoms" in e.path]
            if fc and fc[0]:
                seen[0] = True
                ok = len(cw) == 1 and com_ok(cw[0])
                com.append(ok)
            elif fc:
                com.append(not cw)
            if fa and fa[0]:
                seen[1] = True
                fix.append(len(fw) == 1 and fw[0].val == num(0) and re.search(r"(beads\.p|pnm)~?\[:,\s*self\.fixatoms_dof", fw[0].path) is not None)
            elif fa:
                fix.append(not fw)
        rep.ob("projection", q + ":fixcom", seen[0] and all(com), "with fixcom, the momentum taken out is not mass times the velocity of the centre of mass of all beads", f.loc(f.node))
        rep.ob("projection", q + ":fixatoms", seen[1] and all(fix), "the momenta of the fixed degrees of freedom are not all set to zero", f.loc(f.node))


def com_ok(e):
    p = strip_poly(e.val)
    old = [mo for mo, co in p.t.items() if len(mo) == 1 and re.match(r"^self\.beads\.p~?$|^self\.nm\.pnm~?$", mo[0][0]) and mo[0][1] == 1 and co == 1]
    if len(old) != 1 or len(p.t) != 2:
        return False
    (mo, co), = [(a, b) for a, b in p.t.items() if a != old[0]]
    d = dict(mo)
    m3 = [a for a in d if re.search(r"beads\.m3?$", a)]
    M = [a for a in d if re.search(r"\.M$", a)]
    nb = [a for a in d if re.search(r"nbeads$", a)]
    s = [a for a in d if "sum" in a]
    return co == -1 and len(d) == 4 and len(m3) == len(M) == len(nb) == len(s) == 1 and d[m3[0]] == 1 and d[M[0]] == -1 and d[nb[0]] == -1 and d[s[0]] == 1 and "axis=0" in s[0]


def start(rep, m):
    dyn = m.prog.cls("Dynamics")
    for c in [dyn] + sorted(m.prog.subclasses(dyn), key=lambda k: k.name):
        f = c.find("bind")
        vn = VN(m, c, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self" and fn.name == "bind", max_states=512)
        bad = 0
        outs = [st for st in vn.run(f) if st.exit != "raise"]
        for st in outs:
            names = [e.path for e in st.log if e.kind == "call" and e.path.startswith("self.integrator.")]
            if "self.integrator.pconstraints" not in names or names.index("self.integrator.pconstraints") < (names.index("self.integrator.bind") if "self.integrator.bind" in names else 0):
                bad += 1
        rep.ob("start", c.name + ".bind", bool(outs) and not bad, "a path of the set-up does not project the initial momenta after the integrator is set up", f.loc(f.node))


if __name__ == "__main__":
    main(run, PID)
