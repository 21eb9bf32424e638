"""Operator words of integrators.

The step of an integrator is turned into words over elementary operations -- kicks, free propagations, thermostat and
barostat operations, constraints -- with loops kept as loops (body and symbolic count) and mutually recursive methods
(the multiple-time-step recursion) kept as nonterminals.  One word per combination of the tests on the way; helper
methods are inlined, so only the order and the amounts of the operations matter, not how they are grouped in methods.
"""
import ast
import copy
import re
from fractions import Fraction as F
from .repo import Cls
from .vn import VN, Poly, Path, Event, atom, num, tail, is_scalar

FORCE = re.compile(r"\bforces\b|\bbias\b|Efield|Electric|\bfnm\b|\bfspring\b|\bf\b|\bfsc\w*\b")
COUNTS = {"inmts", "nmts", "nmtslevels", "nsteps_geo", "nsteps_o"}
TIME = ("dt", "pdt", "qdt", "tdt", "qdt_on_m")
CONST = {"nmtslevels", "nmts", "splitting", "inmts", "dt", "pdt", "qdt", "tdt", "qdt_on_m", "nsteps_geo", "nsteps_o", "fixatoms_dof", "fixcom"}


def strip(s):
    return re.sub(r"@\d+", "", s)


def strip_poly(p):
    out = Poly()
    for mono, c in p.t.items():
        m = {}
        for a, e in mono:
            m[strip(a)] = m.get(strip(a), 0) + e
        out = out + Poly({tuple(sorted((a, e) for a, e in m.items() if e)): c})
    return out


class _Subst(ast.NodeTransformer):
    def __init__(self, name, e):
        self.name, self.e = name, e

    def visit_Name(self, n):
        return copy.deepcopy(self.e) if n.id == self.name and isinstance(n.ctx, ast.Load) else n


class OVN(VN):
    """value numbering that logs the increments of positions and momenta and keeps loop boundaries"""

    def write(self, st, path, val, node, func, how="="):
        cp = self.canon_path(path.p)
        nm = tail(re.sub(r"\[[^\]]*\]$", "", cp).replace("~", ""))[1]
        if nm in ("p", "q", "pnm", "qnm"):
            self.n += 1
            old = self.read(st, path)
            new = self.num(st, val) if not isinstance(val, Poly) else val
            st.log.append(Event("write", cp, new - old if isinstance(old, Poly) else new, node, func, how, new, self.n, st.guards))
            return
        VN.write(self, st, path, val, node, func, how)

    def count(self, s, st, fr):
        if isinstance(s, ast.For):
            it = s.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and not it.keywords:
                a = [self.num(st, self._ev(x, st, fr)) for x in it.args]
                if len(a) == 1:
                    return a[0]
                if len(a) == 2:
                    return a[1] - a[0]
                if len(a) == 3 and a[2].const() is not None and abs(a[2].const()) == 1:
                    return (a[1] - a[0]) * a[2]
            v = self._ev(it, st, fr)
            return atom("items{%s}" % (v.p if isinstance(v, Path) else v), scalar=True)
        # while i < n: ... i += 1
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
            incs = [n for x in s.body for n in ast.walk(x) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == t.left.id]
            if len(incs) == 1 and incs[0] in s.body and t.left.id in st.env:
                d = self.num(st, self._ev(incs[0].value, st, fr)).const()
                if isinstance(incs[0].op, ast.Sub) and d is not None:
                    d = -d
                a, b = self.num(st, st.env[t.left.id]), self.num(st, self._ev(t.comparators[0], st, fr))
                if d in (1, -1):
                    return (b - a) * num(d) + num(1 if isinstance(t.ops[0], (ast.LtE, ast.GtE)) else 0)
        return atom("while{%s}" % ast.unparse(t), scalar=True)

    def loop(self, s, st, fr):
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) and isinstance(s.target, ast.Name) and not s.orelse \
                and all(isinstance(x, (ast.Attribute, ast.Constant, ast.Name)) for x in s.iter.elts) \
                and not any(isinstance(n, (ast.Break, ast.Continue)) or (isinstance(n, ast.Name) and n.id == s.target.id and not isinstance(n.ctx, ast.Load)) for x in s.body for n in ast.walk(x)):
            # a loop over a literal tuple: its elements one after the other
            body = [ast.fix_missing_locations(_Subst(s.target.id, el).visit(copy.deepcopy(x))) for el in s.iter.elts for x in s.body]
            return self.block(body, [st], fr)
        c = self.count(s, st.copy(), fr)
        if isinstance(s, ast.While):
            s = ast.copy_location(ast.For(target=ast.Name(id="__w", ctx=ast.Store()), iter=ast.Constant(value=0), body=s.body, orelse=[]), s)
        self.n += 1
        st.log.append(Event("loop", "", c, s, fr.func, seq=self.n))
        outs = VN.loop(self, s, st, fr)
        uniq = list({id(o): o for o in outs}.values())
        for o in uniq:
            o.log.append(Event("end", "", None, s, fr.func, seq=self.n))
        return uniq

    def split(self, test, st, fr):
        T, Fs = VN.split(self, test, st, fr)
        return [x for x in T if self.consistent(x)], [x for x in Fs if self.consistent(x)]

    def consistent(self, st):
        seen = {}
        for k, v in st.guards.items():
            k = strip(k)
            if seen.setdefault(k, v) != v:
                return False
        lits = [k for k, v in seen.items() if v and k.startswith("eq{lit:")]
        by = {}
        for k in lits:
            m = re.match(r"eq\{(lit:'[^']*'); (.*)\}$", k)
            if m and by.setdefault(m.group(2), m.group(1)) != m.group(1):
                return False
        return True


class Terms:
    def __init__(self, model, cls, time=TIME):
        self.m, self.cls, self.time = model, cls, time
        self.rec = self._recursive() if cls.find("step") is not None else set()

    def _callees(self, f):
        """methods of this object called by f, resolved for an object of class cls"""
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                v, a, t = n.value, n.attr, None
                if isinstance(v, ast.Name):
                    k = self.m.prog.resolve_expr(f.module, v)
                    t = k.find(a) if isinstance(k, Cls) else self.cls.find(a)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                    t = self.cls.find_after(f.cls, a)
                if t is not None:
                    out.append(t)
        return out

    def _recursive(self):
        g, fn, todo = {}, {}, [self.cls.find("step")]
        while todo:
            f = todo.pop()
            if f is None or f.qual in g:
                continue
            fn[f.qual] = f
            cs = self._callees(f)
            g[f.qual] = {c.qual for c in cs}
            todo += cs

        def reach(a):
            seen, st = set(), list(g.get(a, ()))
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += list(g.get(x, ()))
            return seen
        return {fn[n].name for n in g if n in reach(n)}

    def words(self, name):
        """[(guards, word)] of method `name`; a level argument is the atom 'index'"""
        f = self.cls.find(name)
        vn = OVN(self.m, self.cls, inline=lambda fn, recv: isinstance(recv, Path) and recv.p == "self" and fn.name not in self.rec and fn.name != "pconstraints", maxdepth=12, max_states=512)
        nargs = len(f.node.args.args) - 1
        args = [atom("index", scalar=True)] + [atom("arg%d" % i) for i in range(1, nargs)] if name in self.rec else []
        if name in self.rec:
            # further parameters keep their defaults
            nd = len(f.node.args.defaults)
            args = args[:max(1, nargs - nd)]
        out, seen = [], set()
        for st in vn.run(f, args=args):
            if st.exit == "raise" or not vn.consistent(st):
                continue
            g = {strip(k): v for k, v in st.guards.items()}
            w = self._word(st.log)
            key = (str(sorted(g.items())), str(w))
            if key not in seen:
                seen.add(key)
                out.append((g, w))
        return out, vn

    def _word(self, log):
        stack = [[]]
        for e in log:
            if e.kind == "loop":
                stack.append([])
                stack[-1].append(("#", strip_poly(e.val), e))
            elif e.kind == "end":
                b = stack.pop()
                if len(b) > 1:
                    stack[-1].append(("L", b[0][1], b[1:], b[0][2]))
            else:
                stack[-1] += self._ops(e)
        while len(stack) > 1:                       # left by break
            b = stack.pop()
            stack[-1].append(("L", b[0][1], b[1:], b[0][2]))
        return stack[0]

    def _ops(self, e):
        if e.kind == "call":
            p = e.path
            parts = p.split(".")
            a = [strip(str(x.p if isinstance(x, Path) else x)) for x in e.extra[0]] + ["%s" % strip(str(x)) for k, x in sorted(e.extra[1].items())]
            if len(parts) == 2 and parts[0] == "self" and parts[1] in self.rec:
                return [("N", parts[1], a[0] if a else "", e)]
            if p == "self.pconstraints":
                return [("C", "p", e)]
            if parts[-2:-1] == ["csolver"]:
                return [("M" if parts[-1] == "proj_manifold" else "C", "cot" if parts[-1] != "proj_manifold" else "q", e)]
            if p == "self.nm.free_qstep":
                return [("F", e)]
            if p == "self.barostat.qcstep":
                return [("Q", e)]
            if p == "self.barostat.pstep":
                return [("B", a[0] if a else "0", e)]
            if p == "self.barostat.pscstep":
                return [("Bs", e)]
            if p == "self.thermostat.step":
                return [("O", e)]
            if p == "self.barostat.thermostat.step":
                return [("Ob", e)]
            if re.search(r"\.(barostat|thermostat|nm|beads)\.", p):
                return [("X", p + "(" + ",".join(a) + ")", e)]
            return []
        if e.kind != "write":
            return []
        nm = tail(re.sub(r"\[[^\]]*\]$", "", e.path).replace("~", ""))[1]
        base = re.sub(r"\[[^\]]*\]$", "", strip(e.path)).replace("~", "")
        d = strip_poly(e.val)
        if nm in ("p", "pnm") and re.match(r"self\.((beads|nm)\.)?\w+$", base):
            groups = self._split(d)
            if groups and all(FORCE.search(k) for k in groups) and all(t.t and all(x for x in t.t) for t in groups.values()):
                return [("K", k, t, e) for k, t in sorted(groups.items())]
            if any(FORCE.search(k) for k in groups):
                return [("K", k, t, e) for k, t in sorted(groups.items())]
            return [("C", "z", e)]
        if nm in ("q", "qnm") and re.match(r"self\.((beads|nm)\.)?\w+$", base):
            return [("D", base + re.sub(r"^[^\[]*", "", strip(e.path)) + " " + k, t, e) for k, t in sorted(self._split(d).items())]
        return []

    def _split(self, d):
        """{non-time part: time factor}"""
        out = {}
        for mono, c in d.t.items():
            t, o = [], []
            for a, ex in mono:
                nm = tail(re.sub(r"\[[^\]]*\]$", "", a))[1]
                (t if (nm in self.time or nm in COUNTS) and a.startswith("self.") else o).append((a, ex))
            k = str(Poly({tuple(o): F(1)}))
            out[k] = out.get(k, Poly()) + Poly({tuple(t): c})
        return out


def show(w):
    out = []
    for o in w:
        if o[0] == "L":
            out.append("(%s)^{%s}" % (show(o[2]), o[1]))
        elif o[0] == "N":
            out.append("%s(%s)" % (o[1], o[2]))
        elif o[0] in ("K", "D"):
            out.append("%s[%s * %s]" % (o[0], o[2], o[1]))
        elif o[0] in ("B", "C", "X"):
            out.append("%s(%s)" % (o[0], o[1]))
        else:
            out.append(o[0])
    return " ".join(out)
