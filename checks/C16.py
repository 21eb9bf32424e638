"""C16: total energy, force and virial are the same weighted combination of the same components."""
import ast
import copy
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from fractions import Fraction as F
from vlib import comp16
from vlib.model import model
from vlib.report import Report, main
from vlib.vn import VN, Poly, Path, Tup, Lit, SCA, atom, num
from vlib.opterm import strip, strip_poly

PID = "C16"


class CVN(VN):
    """value numbering with linear ring-polymer maps, zero arrays as zero, and the sequences that loops run over"""

    def __init__(self, *a, **k):
        VN.__init__(self, *a, **k)
        self.over = {}
        self.filters = []

    def _ev(self, e, st, fr):
        # sum of a generator: a loop that adds
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "sum" and e.args and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) \
                and len(e.args[0].generators) == 1:
            g = e.args[0].generators[0]
            s2 = st.copy()
            self.bind_loop(g.target, self._ev(g.iter, s2, fr), s2, fr, e, src=g.iter)
            for x in g.ifs:
                T, Fs = self.split(x, s2, fr)
                self.filters += [dict(o.guards) for o in Fs]
                s2 = T[0] if T else s2
            self.n += 1
            nm = "loop:sum@%d" % self.n
            self.pre[nm] = Poly()
            v = atom(nm) + self.num(s2, VN._ev(self, e.args[0].elt, s2, fr))
            return v + self.num(st, self._ev(e.args[1], st, fr)) if len(e.args) > 1 else v
        return VN._ev(self, e, st, fr)

    def loop(self, s, st, fr):
        if isinstance(s, ast.While) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], (ast.Lt, ast.NotEq)):
            nm = s.test.left.id
            st0 = st.env.get(nm)
            inc = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == nm and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
            if isinstance(st0, Poly) and st0 == Poly() and len(inc) == 1:
                self.over.setdefault(nm, set()).add("range(%s)" % ast.unparse(s.test.comparators[0]))
        return VN.loop(self, s, st, fr)

    def external(self, full, e, st, fr):
        name = full.rpartition(".")[2]
        if name in ("zeros", "zeros_like"):
            self.args(e, st, fr)
            return Poly()
        return VN.external(self, full, e, st, fr)

    def opaque(self, what, args, kw, st, fr, node, recv=None):
        nm = what.rpartition(".")[2]
        if nm in ("b2tob1", "b1tob2") and len(args) == 1:
            out = Poly()
            for mono, c in self.num(st, args[0]).t.items():
                sc = tuple(q for q in mono if q[0] in SCA and not q[0].startswith(("var:", "each:")) or re.search(r"\.(weight|scaling)(@\d+)?$", q[0]))
                rest = tuple(q for q in mono if q not in sc)
                out = out + Poly({sc: c}) * atom("%s{%s}(%s)" % (nm, what.rpartition(".")[0], Poly({rest: F(1)})), array=True)
            return out
        return VN.opaque(self, what, args, kw, st, fr, node, recv)

    def bind_loop(self, target, it, st, fr, node, src=None):
        v = src if src is not None else getattr(node, "iter", None)
        for t in ast.walk(target):
            if isinstance(t, ast.Name):
                self.over.setdefault(t.id, set()).add(strip(it.p) if isinstance(it, Path) else ast.unparse(v) if v is not None and not isinstance(v, ast.Name) else strip(str(it)))
        VN.bind_loop(self, target, it, st, fr, node, src)


def body_of(f, expr):
    """a function whose body returns the value of expr, in the scope of f"""
    g = copy.copy(f)
    g.node = ast.copy_location(ast.FunctionDef(name="value", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="self")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                               body=[ast.copy_location(ast.Return(value=expr), expr)], decorator_list=[], type_params=[]), expr)
    return g


def declared(m, c, attr):
    """[(function, class)] computing a dependent attribute of c"""
    VN(m, c)
    out = []
    for k in c.mro():
        for expr, f in m._vn_names[3].get((k, attr), ()):
            if isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name) and expr.value.id == "self":
                g = c.find(expr.attr)
                if g is not None:
                    out.append(g)
            elif isinstance(expr, ast.Lambda):
                out.append(body_of(f, expr.body))
        if out:
            break
    return out


NOINLINE = {"queue", "queue_mts"}


def paths(m, c, f, args=None, **k):
    vn = CVN(m, c, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self" and fn.name not in NOINLINE, **k)
    return vn, [st for st in vn.run(f, args=args) if st.exit != "raise"]


IX = re.compile(r"\b(mforces|mrpc|mbeads|_forces|fflist)\[([^\[\]]*)\]")


def unindex(s):
    """(text with component indices replaced by #, set of the indices)"""
    ix = set(x for _, x in IX.findall(s))
    return IX.sub(r"\1[#]", s), ix


def terms(p):
    return {tuple(sorted((unindex(strip(a))[0], e) for a, e in mono)): c for mono, c in p.t.items()}


def zero_guard(g, names, lens=None):
    for k, v in g.items():
        k = unindex(strip(k))[0]
        mo = re.match(r"eq\{0; (.*)\}$", k) or re.match(r"eq\{(.*); 0\}$", k)
        if v and mo and mo.group(1) in names:
            return True
        if lens and lens.get(k) == v:
            return True
    return False


def split_acc(p):
    """(loop-carried accumulator or None, increment)"""
    acc = [a for mono in p.t for a, e in mono if a.startswith("loop:") and len(mono) == 1 and p.t[mono] == 1 and e == 1]
    if len(acc) == 1:
        q = Poly({mono: c for mono, c in p.t.items() if mono != ((acc[0], 1),)})
        return acc[0], q
    return None, p


def combine(rep, m, rule, c, attr, want, zeros, lens=None, label=None, funcs=None, pick=None):
    """every path of the functions computing `attr` adds `want` per component, or nothing when a weight is zero"""
    fs = funcs or declared(m, c, attr)
    inst = label or "%s.%s" % (c.name, attr)
    if not fs:
        rep.ob(rule, inst, False, "no function computes this quantity", c.name)
        return
    for f in fs:
        vn, sts = paths(m, c, f)
        bad, full = None, False
        for st in sts:
            r = st.ret if pick is None else (st.ret.items[pick] if isinstance(st.ret, Tup) and pick < len(st.ret.items) else None)
            if not isinstance(r, Poly):
                r = vn.num(st, r) if isinstance(r, Path) else None
            if r is None:
                bad = bad or "its value is not recognised"
                continue
            r = strip_loop(r)
            acc, inc = split_acc(r)
            if acc is not None and vn.pre.get(acc) != Poly():
                bad = bad or "the sum over components starts from %s" % strip(str(vn.pre.get(acc)))
            if acc is None and inc != Poly():
                bad = bad or "the components are not summed: the value is %s" % strip(str(inc))
                continue
            if inc == Poly():
                if not zero_guard(st.guards, zeros, lens):
                    g = ", ".join("%s%s" % ("" if v else "not ", unindex(strip(k))[0]) for k, v in st.guards.items() if "mforces" in k)
                    bad = bad or "a component is left out although its weight is not zero (%s)" % g[:160]
                continue
            full = True
            got = terms(inc)
            ix = set().union(*[unindex(strip(a))[1] for mono in inc.t for a, e in mono])
            if got != want:
                bad = bad or "a component contributes %s" % strip(str(inc))
            elif len(ix) != 1:
                bad = bad or "weight, map and value belong to different components (%s)" % ", ".join(sorted(ix))
            else:
                lab = re.sub(r"var:|loop:|@\d+", "", ix.pop())
                src = vn.over.get(lab, set())
                okr = src and all(re.search(r"^range\(.*(nforces|len\(.*mforces\)|len\{.*mforces\}).*\)$|^(self\.|parent\.)?(mforces|mrpc)$|^(zip|enumerate)\([\w., ]*(mforces|mrpc)[\w., ]*\)$", x) and not re.search(r"\[|range\([^,]*,", x) for x in src)
                if not okr:
                    bad = bad or "the sum runs over %s, not over all components" % ", ".join(sorted(src))
        if not bad and any(not zero_guard(g, zeros, lens) for g in vn.filters):
            bad = "a component is left out although its weight is not zero"
        if not full and not bad:
            bad = "no path adds a component"
        rep.ob(rule, inst, bad is None, bad or "", f.loc(f.node))


def strip_loop(p):
    return p


def mono(*fs):
    return tuple(sorted((a, 1) for a in fs))


def run(tier):
    rep = Report(PID, tier, "value numbering of every function that combines, scales, sums, contracts or rotates force components; increments compared as canonical polynomials, siblings compared under renaming",
                 "ipi/engine/forces.py, ipi/engine/ensembles.py, ipi/engine/forcefields.py, ipi/utils/nmtransform.py")
    m = model()
    rep.rule("total", "energy, force, virial (and interpolated extras) of all components are added with weight x sum of the multiple-time-step weights", 5)
    rep.rule("level", "the force and virial of a multiple-time-step level contain every component with weight x its weight at that level", 2)
    rep.rule("component", "single components are given with or without weight and expansion as asked", 3)
    rep.rule("scaled", "a scaled component has energy, force and virial multiplied by the same factor", 3)
    rep.rule("sum", "the total energy and virial are the sums over all beads", 6)
    rep.rule("gather", "bead i of a component is the i-th evaluation", 3)
    rep.rule("suzuki-chin", "the Suzuki-Chin energy, force and virial use the same coefficients", 8)
    rep.rule("contraction", "forces are expanded with the transpose of the contraction of the positions", 3)
    rep.rule("bias", "bias components are part of the forces whenever one of them has a non-zero weight", 3)
    rep.rule("rotation", "rotation averages undo for forces and virial exactly the rotation of positions and cell", 4)
    rep.rule("committee", "committee averages of energy, force and virial correspond to each other", 3)
    rep.rule("transfer", "force data carried from one object to another is that of the same component, bead and quantity, with the positions it belongs to", 3)
    rep.rule("setup", "each component has its own options and one number of beads for its positions, contraction and results", 3)
    forces, mts, comp, scaled = (m.prog.cls(x) for x in ("Forces", "MTSForces", "ForceComponent", "ScaledForceComponent"))
    W, MW = "self.mforces[#].weight", "self.mforces[#].mts_weights"
    SUM = "sum{%s}" % MW
    ex = lambda x: "b2tob1{self.mrpc[#]}(%s)" % x
    for a in ("f", "pots", "virs"):
        rep.part("combine", combine, rep, m, "total", forces, a, {mono(W, SUM, ex("self.mforces[#].%s" % a)): F(1)}, {W, SUM})
        lev = "%s[self.level]" % MW
        if a != "pots":
            combine(rep, m, "level", mts, a, {mono(W, lev, ex("self.mforces[#].%s" % a)): F(1)}, {W, lev}, lens={"lt{self.level < len{%s}}" % MW: False, "le{len{%s} < self.level}" % MW: True})
    rep.part("fourth", fourth, rep, m, forces, W, SUM)
    rep.part("extras", extras, rep, m, forces, W, SUM, ex)
    rep.part("component", component, rep, m, forces)
    rep.part("scale", scale, rep, m, scaled)
    rep.part("sums", sums, rep, m, [forces, mts, comp, scaled])
    rep.part("gather", gather, rep, m, comp)
    rep.part("suzuki", suzuki, rep, m, forces)
    rep.part("contraction", contraction, rep, m)
    rep.part("bias", bias, rep, m)
    rep.part("rotations", rotations, rep, m)
    rep.part("committee", committee, rep, m)
    comp16.extend(rep, m.prog)
    return rep.finish()


def fourth(rep, m, c, W, SUM):
    fs = declared(m, c, "fvir_4th_order")
    NOINLINE.add("forcesvirs_4th_order")
    try:
        for i, nm in ((0, "force"), (1, "virial")):
            want = {mono(W, SUM, "item#%d" % i): F(1)}
            for f in fs:
                vn, sts = paths(m, c, f)
                bad, full = None, False
                for st in sts:
                    r = st.ret.items[i] if isinstance(st.ret, Tup) and len(st.ret.items) == 2 else None
                    if not isinstance(r, Poly):
                        bad = bad or "the value is not recognised"
                        continue
                    acc, inc = split_acc(r)
                    if acc is not None and vn.pre.get(acc) != Poly():
                        bad = bad or "the sum does not start from zero"
                    if inc == Poly():
                        if not zero_guard(st.guards, {W, SUM}):
                            bad = bad or "a component is left out although its weight is not zero"
                        continue
                    full = True
                    got = {tuple(sorted((norm4(unindex(strip(a))[0]), e) for a, e in mo)): co for mo, co in inc.t.items()}
                    if got != want:
                        bad = bad or "a component contributes %s" % strip(str(inc))[:150]
                rep.ob("total", "Forces.4th-order-" + nm, bad is None and full, bad or "no path adds a component", f.loc(f.node))
    finally:
        NOINLINE.discard("forcesvirs_4th_order")


def norm4(a):
    mo = re.search(r"forcesvirs_4th_order\(.*\)\}?\[(\d)\]$", a)
    return "item#%s" % mo.group(1) if mo else a


def extras(rep, m, c, W, SUM, ex):
    for f in declared(m, c, "extras"):
        vn, sts = paths(m, c, f)
        bad, full = None, False
        for st in sts:
            r = strip(str(st.ret))
            ip = [v for k, v in st.guards.items() if "interpolate_extras" in k]
            if not ip or not ip[0]:
                if re.search(r"weight|b2tob1", r):
                    bad = bad or "an extra that is not interpolated is scaled: %s" % r[:120]
                continue
            full = True
            mo = re.search(r"upd\{.*\}\[var:\w+\]\{(.*)\}$", r)
            got = sorted(re.split(r"\*", re.sub(r"^idx\{[^{}]*\}\[var:\w+\] \+ | \+ idx\{[^{}]*\}\[var:\w+\]$", "", unindex(mo.group(1))[0]))) if mo else None
            want = lambda v: sorted([W, SUM, ex(v)])
            if got is None or not any(got == want(v) for v in re.findall(r"b2tob1\{[^{}]*\}\(([^()]*)\)", r)):
                bad = bad or "an interpolated extra contributes %s" % (mo.group(1) if mo else r)[:140]
            ind = [v for k, v in st.guards.items() if k.startswith("cmp{") and " In dict" in k]
            if ind and ind[0] and not re.search(r"\{idx\{[^{}]*\}\[var:\w+\] \+ | \+ idx\{[^{}]*\}\[var:\w+\]\}$", r):
                bad = bad or "an interpolated extra of a second component replaces the first one"
        rep.ob("total", "Forces.extras(interpolated)", bad is None and full, bad or "no path interpolates extras", f.loc(f.node))


def component(rep, m, c):
    for a, q in (("pots_component", "pots"), ("forces_component", "f"), ("virs_component", "virs")):
        f = c.find(a)
        if f is None:
            rep.ob("component", a, False, "missing", c.name)
            continue
        for w in (True, False):
            for ip in (True, False):
                W, X = "self.mforces[#].weight", "self.mforces[#].%s" % q
                want = {mono(*([W] if w else []), "b2tob1{self.mrpc[#]}(%s)" % X if ip else X): F(1)}
                vn, sts = paths(m, c, f, args=[atom("arg:index", scalar=True), Lit(w), Lit(ip)])
                bad, full = None, False
                for st in sts:
                    r = vn.num(st, st.ret)
                    if r == Poly():
                        if not (w and zero_guard(st.guards, {W})):
                            bad = bad or "zero is returned although the weight is not zero"
                        continue
                    full = True
                    if terms(r) != want:
                        bad = bad or "the value is %s" % strip(str(r))
                rep.ob("component", "%s(weighted=%s, interpolate=%s)" % (a, w, ip), bad is None and full, bad or "no value", f.loc(f.node))


def scale(rep, m, c):
    for a in ("f", "pots", "virs"):
        for f in declared(m, c, a):
            vn, sts = paths(m, c, f)
            bad, full = None, False
            for st in sts:
                r = vn.num(st, st.ret)
                if r == Poly():
                    if not zero_guard(st.guards, {"self.scaling"}):
                        bad = bad or "zero although the factor is not"
                    continue
                full = True
                if terms(r) != {mono("self.scaling", "self.bf.%s" % a): F(1)}:
                    bad = bad or "the value is %s" % strip(str(r))
            rep.ob("scaled", "%s.%s" % (c.name, a), bad is None and full, bad or "no value", f.loc(f.node))


def sums(rep, m, cs):
    for c in cs:
        for a, q in (("pot", "pots"), ("vir", "virs")):
            for f in declared(m, c, a):
                vn, sts = paths(m, c, f)
                bad = None if sts else "no value"
                for st in sts:
                    r = vn.num(st, st.ret)
                    acc, inc = split_acc(r)
                    t = strip(str(inc))
                    if acc is not None:
                        lab = re.match(r"self\.%s\[(\w+|var:\w+)\]$" % q, t)
                        lab = lab.group(1).replace("var:", "") if lab else None
                        src = vn.over.get(lab, set()) if lab else set()
                        if vn.pre.get(acc) != Poly() or not src or not all(re.search(r"^self\.%s$|dstrip\(self\.%s\)$|^range\((len\(.*self\.%s\)|self\.nbeads|self\.beads\.nbeads)\)$" % (q, q, q), x) for x in src):
                            bad = bad or "the sum over the beads is %s over %s" % (strip(str(r)), ", ".join(sorted(src)))
                    elif not (t == "sum{self.%s}" % q and q == "pots" or t in ("ret:self.virs.sum(axis=0)", "ret:self.virs.sum(0)") and q == "virs" or re.match(r"(np\.|numpy\.|m:)?sum(\(self\.virs; axis=0\)|\(self\.virs, axis=0\)|\{self\.virs\}\(.*axis=0\)|\(self\.virs.*axis=0.*\))$", t) and q == "virs"):
                        bad = bad or "the total is %s" % t
                rep.ob("sum", "%s.%s" % (c.name, a), bad is None, bad or "", f.loc(f.node))


def gather(rep, m, c):
    for a, q in (("pots", "pot"), ("f", "f"), ("virs", "vir")):
        for f in declared(m, c, a):
            vn, sts = paths(m, c, f)
            bad = None if sts else "no value"
            for st in sts:
                t = strip(str(vn.num(st, st.ret)))
                mo = re.search(r"comp\{self\._forces\[([^\]]+)\]\.%s for (.*)\}" % q, t)
                if mo:
                    if not re.search(r"^self\._forces$|^range\((self\.nbeads|len\(self\._forces\))\)$|^(enumerate|zip)\(self\._forces\)", mo.group(2)):
                        bad = bad or "collected over %s" % mo.group(2)
                    continue
                mo = re.match(r"upd\{.*\}\[([^\]]+)\]\{self\._forces\[([^\]]+)\]\.%s\}$" % q, t)
                if mo and mo.group(1) == mo.group(2):
                    src = vn.over.get(mo.group(1).replace("var:", ""), set())
                    if not all(re.search(r"^range\((self\.nbeads|len\(self\._forces\))\)$|^(enumerate|zip)\(self\._forces\)|^self\._forces$", x) for x in src):
                        bad = bad or "collected over %s" % ", ".join(src)
                    continue
                bad = bad or "the value is %s" % t[:160]
            rep.ob("gather", "%s.%s" % (c.name, a), bad is None, bad or "", f.loc(f.node))


def single(m, c, a):
    out = []
    for f in declared(m, c, a):
        vn, sts = paths(m, c, f)
        for st in sts:
            if st.exit in ("return", None) and st.ret is not None:
                out.append((f, vn.num(st, st.ret)))
    return out


def clean(p):
    s = {}
    for mo, co in p.t.items():
        k = tuple(sorted((re.sub(r"~|\.T\b|^transpose\((.*)\)$|^(?:m:)?reshape\{(.*)\}\(.*\)$", lambda x: x.group(1) or x.group(2) or "", strip(a)), e) for a, e in mo))
        s[k] = s.get(k, 0) + co
    return s


def suzuki(rep, m, c):
    spec = {"fsc_part_1": {mono("self.coeffsc_part_1", "self.f"): F(1)}, "fsc_part_2": {mono("self.coeffsc_part_2", "self.f_4th_order"): F(1)},
            "virssc_part_1": {mono("self.coeffsc_part_1", "self.virs"): F(1)}, "virssc_part_2": {mono("self.coeffsc_part_2", "self.vir_4th_order"): F(1)},
            "fsc": {mono("self.fsc_part_1"): F(1), mono("self.fsc_part_2"): F(1)}, "virssc": {mono("self.virssc_part_1"): F(1), mono("self.virssc_part_2"): F(1)}}
    for a, want in sorted(spec.items()):
        vs = single(m, c, a)
        bad = None if vs else "no value"
        for f, p in vs:
            got = {k: v for k, v in clean(p).items()}
            if got != want:
                bad = bad or "the value is %s" % strip(str(p))[:160]
        rep.ob("suzuki-chin", "%s.%s" % (c.name, a), bad is None, bad or "", vs[0][0].loc(vs[0][0].node) if vs else c.name)
    # the energy: c1 V + c2 |f|^2 / m
    vs = single(m, c, "potssc")
    bad = None if vs else "no value"
    for f, p in vs:
        got = clean(p)
        sq = [k for k in got if any(a == "self.coeffsc_part_2" for a, e in k)]
        if got.get(mono("self.coeffsc_part_1", "self.pots")) != 1 or len(sq) != 1 or len(got) != 2 or got[sq[0]] != 1 or \
                not re.search(r"self\.beads\.m3\^-1\*self\.f\^2", str(sq[0])) or not re.search(r"axis=1", str(sq[0])):
            bad = bad or "the value is %s" % strip(str(p))[:200]
    rep.ob("suzuki-chin", "%s.potssc" % c.name, bad is None, bad or "", vs[0][0].loc(vs[0][0].node) if vs else c.name)
    al, om = "self.alpha", "self.omegan2"
    want = {"coeffsc_part_1": {"0::2": {(): F(-1, 3)}, "1::2": {(): F(1, 3)}},
            "coeffsc_part_2": {"0::2": {((al, 1), (om, -1)): F(1, 9)}, "1::2": {((om, -1),): F(1, 9), ((al, 1), (om, -1)): F(-1, 9)}}}
    for a, w in sorted(want.items()):
        for f in declared(m, c, a):
            vn, sts = paths(m, c, f)
            bad = None if sts else "no value"
            for st in sts:
                t = strip(str(vn.num(st, st.ret)))
                for sl, v in w.items():
                    mo = re.search(r"\[%s\]\{([^{}]*)\}" % sl.replace("0::2", "0?::2"), t)
                    if mo is None or mo.group(1) != str(Poly(v)):
                        bad = bad or "the coefficient of the %s beads is %s" % ("even" if sl[0] == "0" else "odd", mo.group(1) if mo else "not recognised (%s)" % t[:120])
            rep.ob("suzuki-chin", "%s.%s" % (c.name, a), bad is None, bad or "", f.loc(f.node))


def contraction(rep, m):
    c = m.prog.cls("nm_rescale")
    f = c.find("__init__")
    vn, sts = paths(m, c, f)
    bad, seen = None, 0
    for st in sts:
        w = {e.path: strip(str(e.val)) for e in st.log if e.kind == "write"}
        for p in ("_b1tob2", "_o_b1tob2"):
            q = p.replace("b1tob2", "b2tob1")
            v = w.get("self." + q)
            if v is None:
                continue
            seen += 1
            ok = re.match(r"^arg:nbeads1\*arg:nbeads2\^-1\*(.*)$", v)
            src = w.get("self." + p, "?")
            if not ok or re.sub(r"^transpose\(|\)$|\.T$|@\d+", "", ok.group(1)) not in ("self." + p, re.sub(r"\)$", "", src), src):
                bad = bad or "the expansion matrix %s is %s, not the transposed contraction matrix times nbeads1/nbeads2" % (q, v[:140])
    rep.ob("contraction", "nm_rescale.__init__", bad is None and seen >= 2, bad or "matrices not recognised", f.loc(f.node))
    # the two maps do the same thing with exchanged matrices
    out = {}
    for n in ("b1tob2", "b2tob1"):
        f = c.find(n)
        vn, sts = paths(m, c, f)
        o = n.replace("b1tob2", "X") if n == "b1tob2" else n.replace("b2tob1", "X")
        out[n] = {(tuple(sorted((strip(k).replace(n, "X"), v) for k, v in st.guards.items())), re.sub(r"loop:(\w+)@\d+", r"loop:\1", strip(str(vn.num(st, st.ret))).replace(n, "X"))) for st in sts}
        rep.ob("contraction", "nm_rescale.%s:values" % n, len(out[n]) >= 2, "not recognised", f.loc(f.node))
    f = c.find("b2tob1")
    d = out["b1tob2"] ^ out["b2tob1"]
    rep.ob("contraction", "nm_rescale.b2tob1=b1tob2", not d, "contraction and expansion treat the same atoms differently: %s" % (sorted(d)[0][1][:160] if d else ""), f.loc(f.node))


def bias(rep, m):
    c = m.prog.cls("Ensemble")
    fs = declared(m, c, "has_bias")
    for f in fs:
        vn, sts = paths(m, c, f)
        t = " ".join(strip(str(vn.num(st, st.ret))) for st in sts) + " " + " ".join(strip(k) for st in sts for k in st.guards)
        rep.ob("bias", "has_bias:components", "self.bcomp" in t, "the explicit bias components do not count", f.loc(f.node))
        h = re.search(r"self\.hweights", t) is not None and re.search(r"\^2|abs\(|any\(|array_equal|allclose|count_nonzero|norm\(|all\(", t) is not None
        rep.ob("bias", "has_bias:hweights", h, "weights of Hamiltonian replica exchange that differ from one do not always count (%s)" % t[:120], f.loc(f.node))
    if not fs:
        rep.ob("bias", "has_bias", False, "has_bias is not computed", c.name)
    # the scaled copies: factor weight - 1, for the same component
    b = c.find("bind")
    vn, sts = paths(m, c, b, max_states=64)
    lam = [n for k in c.methods.values() for n in ast.walk(k.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "_func"
           and isinstance(n.value, ast.Lambda)]
    ok = False
    for n in lam:
        g = body_of(b, n.value.body)
        v2, s2 = paths(m, c, g)
        for st in s2:
            t = strip(str(v2.num(st, st.ret)))
            ok = ok or re.match(r"^-1 \+ self\.hweights\[.*\]$|^self\.hweights\[.*\] \+ -1$|^self\.hweights\[.*\] - 1$", t) is not None or bool(re.match(r"^(-1 \+ )?idx\{self\.hweights\}.*$", t) and "-1" in t)
        bound = {a.arg: d for a, d in zip(n.value.args.args[-len(n.value.args.defaults):], n.value.args.defaults)} if n.value.args.defaults else {}
        used = {x.id for x in ast.walk(n.value.body) if isinstance(x, ast.Name)} - {"self"}
        inloop = [l for k in c.methods.values() for l in ast.walk(k.node) if isinstance(l, ast.For) and any(x is n for x in ast.walk(l))]
        tv = {x.id for l in inloop for x in ast.walk(l.target) if isinstance(x, ast.Name)}
        rep.ob("bias", "hweights:late-binding", not (used & tv - set(bound)), "the factor of every scaled component uses the last index of the loop", b.loc(n))
    if lam:
        rep.ob("bias", "hweights:factor", ok, "the scaled copy of a component is not multiplied with its weight - 1", b.loc(lam[0]))
    calls = [e for st in sts for e in st.log if e.kind == "call" and e.path == "self.bias.add_component"]
    for st in sts[:1]:
        rep.ob("bias", "hweights:components", any(e.path == "self.bias.add_component" for e in st.log if e.kind == "call") if calls else False, "the scaled components are not added to the bias", b.loc(b.node))


class RVN(CVN):
    """value numbering with non-commutative matrix products, written mm{A | B' | ...}"""

    def word(self, p):
        s = p.single()
        if not s:
            return None
        mo, co = s
        sc = Poly({tuple(q for q in mo if q[0] in SCA): co})
        rest = [q for q in mo if q[0] not in SCA]
        if len(rest) != 1 or rest[0][1] != 1:
            return None
        a = rest[0][0]
        return sc, a[3:-1].split(" | ") if a.startswith("mm{") else [a]

    def dot(self, a, b):
        x, y = self.word(a), self.word(b)
        if x is None or y is None:
            return atom("mm{(%s) | (%s)}" % (a, b), array=True)
        return x[0] * y[0] * atom("mm{%s}" % " | ".join(x[1] + y[1]), array=True)

    def transp(self, p):
        x = self.word(p)
        if x is None:
            return atom("mm{(%s)'}" % p, array=True)
        return x[0] * atom("mm{%s}" % " | ".join(w[:-1] if w.endswith("'") else w + "'" for w in reversed(x[1])), array=True)

    def _ev(self, e, st, fr):
        if isinstance(e, ast.Attribute) and e.attr == "T":
            return self.transp(self.num(st, self._ev(e.value, st, fr)))
        return CVN._ev(self, e, st, fr)

    def call(self, e, st, fr):
        if isinstance(e.func, ast.Attribute) and e.func.attr == "clone":
            b = self._ev(e.func.value, st, fr)
            if isinstance(b, Path):
                self.n += 1
                return Path("clone%d" % self.n)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "transpose":
            a = e.func.value if not e.args else e.args[0]
            if not (isinstance(a, ast.Name) and a.id in ("np", "numpy")):
                return self.transp(self.num(st, self._ev(a, st, fr)))
        return CVN.call(self, e, st, fr)

    def bind_loop(self, target, it, st, fr, node, src=None):
        CVN.bind_loop(self, target, it, st, fr, node, src)
        for t in ast.walk(target):
            if isinstance(t, ast.Name) and isinstance(st.env.get(t.id), Poly):
                st.env[t.id] = atom("each:%s" % t.id, array=True)


def rvn(m, c):
    return RVN(m, c, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self" and fn.cls is c and fn.name not in ("release",), max_states=1024)


def rotations(rep, m):
    c = m.prog.cls("FFRotations")
    q, g = c.find("queue"), c.find("gather")
    vn = rvn(m, c)
    names = [a.arg for a in q.node.args.args[1:]]
    badq = badc = badm = None
    n = 0
    for st in vn.run(q, args=[Path("atoms"), Path("cell")]):
        if st.exit == "raise":
            continue
        pos, asked = {}, []
        rots = [v for v in st.env.values() if isinstance(v, Tup) and v.items and all(isinstance(x, Tup) and len(x.items) == 2 for x in v.items)]
        if not rots and isinstance(st.ret, (Poly, Path)):
            badm = badm or "the rotations are not remembered with the request"
            continue
        rots = rots[0].items if rots else []
        for e in st.log:
            if e.kind == "write" and re.match(r"clone\d+\.q", e.path):
                pos[e.path.split(".")[0]] = e.val
            if e.kind == "call" and e.path.endswith(".ff.queue") and e.extra[0]:
                asked.append((e.extra[0][0], e.extra[0][1] if len(e.extra[0]) > 1 else None))
        n += len(asked)
        if len(asked) != len(rots):
            badm = badm or "%d evaluations are asked for and %d rotations remembered" % (len(asked), len(rots))
        for (a, cell), r in zip(asked, rots):
            w = vn.word(vn.num(st, r.items[0]))
            x = vn.word(pos[a.p]) if isinstance(a, Path) and a.p in pos and isinstance(pos[a.p], Poly) else None
            if w is None or x is None:
                badq = badq or "rotated positions not recognised"
                continue
            back = [y[:-1] if y.endswith("'") else y + "'" for y in reversed(w[1])]
            if not (x[0] == w[0] and len(x[1]) == len(back) + 1 and x[1][1:] == back and ".q" in x[1][0]):
                badq = badq or "positions become %s for the remembered rotation %s" % (strip(str(pos[a.p])), strip(str(r.items[0])))
            ct = strip(str(vn.num(st, cell))) if cell is not None else ""
            fw = strip(str(w[0] * atom("mm{%s}" % " | ".join(w[1] + ["#h"]), array=True)))
            if not re.match("^" + re.escape("GenericCell(" + fw + ")").replace(re.escape("#h"), r"[\w.:{}@~]*\bh[\w}]*") + "$", ct):
                badc = badc or "the cell becomes %s for the remembered rotation %s" % (ct, strip(str(r.items[0])))
    rep.ob("rotation", "queue:positions", badq is None and n > 0, badq or "no evaluation found", q.loc(q.node))
    rep.ob("rotation", "queue:cell", badc is None and n > 0, badc or "no evaluation found", q.loc(q.node))
    rep.ob("rotation", "queue:remembered", badm is None and n > 0, badm or "no evaluation found", q.loc(q.node))
    # the way back
    vn = rvn(m, c)
    bad = {}
    n = 0
    for st in vn.run(g, args=[Path("r")]):
        if st.exit == "raise":
            continue
        n += 1
        res = results(st)
        form = {}
        for i in (0, 1, 2):
            t = res.get(i)
            if t is None:
                bad[i] = "the result is not stored"
                continue
            el = elem(vn, t)
            if el is None:
                bad[i] = "the average is %s" % t[:120]
                continue
            v, label = el
            R = r"(mm\{)?([\w:]+)"
            ok = {0: lambda v: re.search(r"\]\}?\[0\]\}?$|\[0\]$", v) is not None and "mm{" not in v,
                  1: lambda v: re.match(r"^mm\{[^|]*\[1\][^|]* \| [^|']+\}$", v) is not None,
                  2: lambda v: (lambda x: x is not None and x.group(1) == x.group(2))(re.match(r"^mm\{([^|]+)' \| [^|]*\[2\][^|']* \| ([^|']+)\}$", v))}[i]
            if not ok(v):
                bad[i] = "each evaluation contributes %s" % v[:140]
            form[i] = re.sub(r"item\{(list:\w+@\w+)\}\[:(,[^\]]*newaxis'?\)?)+\]", r"\1", t.replace(label, "X"))
        fs = {i: "*".join(sorted(re.split(r"\*(?![^(]*\))", canon_sum(f)))) for i, f in form.items()}
        if len(set(fs.values())) > 1:
            odd = [i for i in fs if list(fs.values()).count(fs[i]) == 1]
            bad["w"] = "energy, force and virial are averaged differently: %s" % form[odd[0] if odd else 0][:140]
        elif fs and not re.search(r"list:\w*|each:|comp\{", next(iter(fs.values())).replace("X", "")):
            bad["w"] = "the average has no weights: %s" % next(iter(form.values()))[:120]
    for i, nm in ((0, "energy"), (1, "forces"), (2, "virial"), ("w", "weights")):
        rep.ob("rotation", "gather:" + nm, n > 0 and i not in bad, bad.get(i, "no path"), g.loc(g.node))


def canon_sum(f):
    """factors inside np.sum in a fixed order"""
    def s(mo):
        return "np.sum(%s, axis=0)" % "*".join(sorted(mo.group(1).split("*")))
    return re.sub(r"np\.sum\(([^()]*), axis=0\)", s, f)


def results(st):
    res = {}
    for e in st.log:
        if e.kind == "write":
            mo = re.search(r"\[lit:'result'\]\[(\d)\]$", strip(e.path))
            if mo:
                res[int(mo.group(1))] = strip(str(e.val))
    return res


def elem(vn, t):
    """(value of an element, label) of the list that is averaged in t -- the one that is not the list of weights"""
    c = re.search(r"comp\{(.*) for [^{}]*\}", t)
    labs = re.findall(r"list:(\w+)@\w+", t)
    den = re.findall(r"sum\{list:(\w+)@\w+\}\^-1|weights=list:(\w+)@", t)
    wts = {x for d in den for x in d if x}
    labs = [x for x in dict.fromkeys(labs) if x not in wts]
    if len(labs) == 1 and len({strip(str(v)) for v in vn.appended.get(labs[0], [])}) == 1:
        return strip(str(vn.appended[labs[0]][0])), re.search(r"list:%s@\w+" % labs[0], t).group(0)
    if c and not labs:
        return c.group(1), c.group(0)
    return None


def committee(rep, m):
    c = m.prog.cls("FFCommittee")
    g = c.find("gather")
    vn = RVN(m, c, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self" and fn.cls is c, max_states=2048)
    bad, n = {}, {"plain": 0, "baseline": 0}
    for st in vn.run(g, args=[Path("r")]):
        if st.exit == "raise" or any("committee_" in k and v for k, v in st.guards.items()):
            continue
        base = [v for k, v in st.guards.items() if "baseline_name" in k and k.startswith("eq{lit:")]
        kind = "baseline" if base and not base[0] else "plain"
        res = results(st)
        if any(i not in res for i in (0, 1, 2)) or "global" in "".join(res.values()):
            continue
        n[kind] += 1
        L = ["X", "F", "V"]
        val = {}
        for e in st.log:
            if e.kind == "write":
                mo = re.search(r"\[lit:'result'\]\[(\d)\]$", strip(e.path))
                if mo:
                    val[int(mo.group(1))] = e.val
        labs = [dict.fromkeys(re.findall(r"mean\((list:\w+@\w+|comp\{.*?\}), axis=0\)", res[i])) for i in (0, 1, 2)]
        P = list(labs[0])
        fl, vl = [x for x in labs[1] if x not in P], [x for x in labs[2] if x not in P]
        if kind == "plain":
            P = P[:1]
        if len(P) != 1 or len(fl) != 1 or len(vl) != 1:
            bad[kind] = "the averages are %s; %s; %s" % tuple(res[i][:80] for i in (0, 1, 2))
            continue
        for i, lab in ((0, P[0]), (1, fl[0]), (2, vl[0])):
            nm = re.match(r"list:(\w+)@", lab)
            el = {strip(str(v)) for v in vn.appended.get(nm.group(1), [])} if nm else {lab}
            el = {x for x in el if "committee_" not in x}
            if not el or not all(re.search(r"\[%d\]" % i, x) and not re.search(r"\[lit:'result'\]\}?\[[^%d]\]" % i, x) for x in el):
                bad["members"] = "the list averaged for result %d holds %s" % (i, ", ".join(sorted(el))[:120])
        keep = set(re.findall(r"\b(?:each|var):\w+", res[0]))
        f1, v1 = norm_comp(res[1], fl[0], 1, keep), norm_comp(res[2], vl[0], 2, keep)
        if f1 != v1:
            bad[kind] = "force and virial are mixed differently: %s / %s" % (res[1][:160], res[2][:160])
        if kind == "plain" and (res[0] != "mean(%s, axis=0)" % P[0] or res[1] != "mean(%s, axis=0)" % fl[0]):
            bad[kind] = "the result is not the mean over the members: %s" % res[0][:120]
        if kind == "baseline":
            why = derivative(val[0], val[1])
            if why:
                bad["gradient"] = why
    for k in ("plain", "baseline"):
        rep.ob("committee", k, n[k] > 0 and k not in bad, bad.get(k, "no path recognised"), g.loc(g.node))
    rep.ob("committee", "gradient", "gradient" not in bad, bad.get("gradient", ""), g.loc(g.node))
    rep.ob("committee", "members", "members" not in bad, bad.get("members", ""), g.loc(g.node))


def norm_comp(t, lab, i, keep):
    """the mixture formula with the averaged list, its name and its loop variables renamed"""
    nm = re.match(r"list:(\w+)@", lab)
    t = re.sub(r"\[lit:'result'\](\}?)\[%d\]" % i, r"[lit:'result']\1[#]", t.replace(lab, "LIST"))
    if nm:
        t = re.sub(r"\b%s\b" % nm.group(1), "LIST", t)
    t = re.sub(r"\b(each|var):(\w+)", lambda mo: mo.group(0) if mo.group(0) in keep else "EACH", t)
    # the order of factors and terms follows the names
    return sorted(re.findall(r"[\w.:]+|[-+*^]\d*", t))


def derivative(E, f):
    """the force of the mixture is the derivative of its energy: b + m s/(s+v) -> b' + m' s/(s+v) - m s v'/(s+v)^2"""
    E, f = strip_poly(E), strip_poly(f)
    mix = [(mo, co) for mo, co in E.t.items() if any(a.startswith("(") and "np.var" in a for a, e in mo)]
    if len(mix) != 1 or len(E.t) != 2 or set(E.t.values()) != {F(1)}:
        return "the energy of the mixture is not baseline + s/(s+v) mean: %s" % str(E)[:120]
    mo = dict(mix[0][0])
    D = [a for a in mo if a.startswith("(") and "np.var" in a]
    M = [a for a in mo if a.startswith("mean(")]
    S = [a for a in mo if a not in D + M]
    if len(D) != 1 or len(M) != 1 or len(S) != 1 or mo[D[0]] != -1 or mo[M[0]] != 1 or mo[S[0]] != 2:
        return "the energy of the mixture is not baseline + s/(s+v) mean: %s" % str(E)[:120]
    V = re.match(r"^\((np\.var\(.*\)) \+ %s\^2\)$" % re.escape(S[0]), D[0])
    if V is None:
        return "the mixing factor is not s/(s+v): %s" % D[0][:120]
    ddof = re.search(r"ddof=(\d+)\)$", V.group(1))
    s2 = Poly({((S[0], F(2)),): F(1)})
    D2 = str((atom(V.group(1)) + s2) * (atom(V.group(1)) + s2))
    terms_ = []
    for m2, co in f.t.items():
        d = dict(m2)
        var = [a for a in d if a.startswith("(") and "np.var" in a]
        if not var:
            terms_.append("b" if len(d) == 1 and co == 1 else "?baseline")
        elif var == D:
            ok = co == 1 and d[D[0]] == -1 and d.get(S[0]) == 2 and len(d) == 3 and any(a.startswith("mean(") and a != M[0] for a in d)
            terms_.append("m" if ok else "?mean force")
        else:
            n = [a for a in d if a.startswith("(") and "len{" in a]
            u = [a for a in d if a.startswith(("np.sum(", "sum{"))]
            ok = co == -2 and len(var) == 1 and var[0] == "(%s)" % D2 and d[var[0]] == -1 and d.get(M[0]) == 1 and d.get(S[0]) == 2 and len(u) == 1 and d[u[0]] == 1 \
                and len(n) == 1 and d[n[0]] == -1 and ddof is not None and n[0].startswith("(-%s + len{" % ddof.group(1)) \
                and d.get("self.alpha") == 2 and len(d) == 6 and u_ok(u[0], M[0])
            terms_.append("v" if ok else "?derivative of the uncertainty")
    if sorted(terms_) != ["b", "m", "v"]:
        return "the force of the mixture is not the derivative of its energy (%s)" % ", ".join(t.strip("?") for t in terms_ if t.startswith("?") or True)
    return None


def u_ok(u, M):
    """sum over the members of (p - mean p)(f - mean f)"""
    mo = re.search(r"comp\{(.*) for ", u)
    if mo is None:
        return False
    ts = [t.split("*") for t in mo.group(1).split(" + ")]
    sg = sorted(("-" if "-1" in t else "+") + "".join(sorted("m" if x.startswith("mean(") else "e" for x in t if x != "-1")) for t in ts)
    return sg == ["+ee", "+mm", "-em", "-em"]


if __name__ == "__main__":
    main(run, PID)
