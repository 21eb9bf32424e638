"""C19: a structure written to a file is read back as the same structure."""
import ast, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.repo import load, AnalysisBroken
from vlib.term import TE, show, mul, div, add, power, c, poly, mkpoly, subterms, NONE, TRUE, FALSE

PID = "C19"
PI = ("ext", "math.pi")
KEEP = ("h2abc_deg", "h2abc", "abc2h", "genh2abc", "mass")


def canon(t):
    """one name for pi, square roots as powers, dot products and norms of columns/rows expanded, element access as h[i, j]"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "ext" and t[1] in ("numpy.pi", "math.pi"):
        return PI
    if t[0] == "p":
        r = c(0)
        for m, v in t[1]:
            x = c(v)
            for f, e in m:
                x = mul(x, power(canon(f), e))
            r = add(r, x)
        return r
    if not isinstance(t[0], str):
        return tuple(canon(x) for x in t)
    t = tuple(canon(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "call" and t[1][0] == "ext" and not t[3]:
        n, a = t[1][1].split(".")[-1], t[2]
        if n in ("float", "float64") and len(a) == 1:
            return a[0]
        if n == "sqrt" and len(a) == 1:
            return power(a[0], 0.5)
        if n == "hypot" and len(a) == 2:
            return power(add(mul(a[0], a[0]), mul(a[1], a[1])), 0.5)
        if n in ("degrees", "rad2deg") and len(a) == 1:
            return mul(c(180), div(a[0], PI))
        if n in ("radians", "deg2rad") and len(a) == 1:
            return mul(div(PI, c(180)), a[0])
        if n == "norm" and len(a) == 1:
            return power(dotv(a[0], a[0]), 0.5)
        if n in ("dot", "inner", "vdot") and len(a) == 2:
            return dotv(*a)
        n = {"acos": "arccos", "asin": "arcsin", "atan2": "arctan2"}.get(n, n)
        return ("f", n) + a
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "dot" and len(t[2]) == 1:
        return dotv(t[1][1], t[2][0])
    if t[0] == "bin" and t[1] == "MatMult":
        return dotv(t[2], t[3])
    if t[0] == "ix" and t[1][0] == "ix" and t[2][0] == "c" and t[1][2][0] == "c":
        return ("ix", t[1][1], ("tup", "Tuple", (t[1][2], t[2])))
    return t


def vec(t):
    """(matrix, index, 'col'/'row') of a column or row"""
    if t[0] == "ix" and t[2][0] == "tup" and len(t[2][2]) == 2:
        i, j = t[2][2]
        full = ("slice", NONE, NONE, NONE)
        if i == full and j[0] == "c":
            return t[1], j[1], "col"
        if j == full and i[0] == "c":
            return t[1], i[1], "row"
    if t[0] == "ix" and t[2][0] == "c" and isinstance(t[2][1], int):
        b = t[1]
        if b[0] == "attr" and b[2] == "T":
            return b[1], t[2][1], "col"
        return b, t[2][1], "row"
    return None


def el(m, i, j):
    return ("ix", m, ("tup", "Tuple", (c(i), c(j))))


def dotv(a, b):
    va, vb = vec(a), vec(b)
    if va and vb and va[0] == vb[0] and va[2] == vb[2]:
        r = c(0)
        for k in range(3):
            ia, ib = ((k, va[1]), (k, vb[1])) if va[2] == "col" else ((va[1], k), (vb[1], k))
            r = add(r, mul(el(va[0], *ia), el(vb[0], *ib)))
        return r
    return ("f", "dot", a, b)


def lower0(t, m):
    """elements below the diagonal of an upper triangular matrix are zero"""
    if not isinstance(t, tuple) or not t:
        return t
    if t in (el(m, 1, 0), el(m, 2, 0), el(m, 2, 1)):
        return c(0)
    if t[0] == "p":
        r = c(0)
        for mo, v in t[1]:
            x = c(v)
            for f, e in mo:
                x = mul(x, power(lower0(f, m), e))
            r = add(r, x)
        return r
    return tuple(lower0(x, m) if isinstance(x, tuple) else x for x in t)


SPEC = re.compile(r"%(-?)(0?)(\d*)(?:\.(\d+))?([difeEgs%])")
FSP = re.compile(r"([<>^]?)(0?)(\d*)(?:\.(\d+))?([dfeEgs]?)$")


def layout(t):
    """[(literal, None...)] / [(None, term, width, precision, kind)] of a formatted string, or None"""
    if t[0] == "c" and isinstance(t[1], str):
        return [(t[1],)]
    if t[0] == "cat":
        out = []
        for x in t[1]:
            l = layout(x)
            out += l if l is not None else [(None, x, 0, None, "s")]
        return out
    if t[0] == "fspec":
        m = FSP.match(t[2])
        return [(None, t[1], int(m.group(3) or 0), int(m.group(4)) if m.group(4) else None, m.group(5) or "s")] if m else None
    if t[0] == "fmt" and t[1][0] == "c":
        args = list(t[2][2]) if t[2][0] == "tup" else [t[2]]
        out, pos = [], 0
        for m in SPEC.finditer(t[1][1]):
            if m.start() > pos:
                out.append((t[1][1][pos:m.start()],))
            pos = m.end()
            if m.group(5) == "%":
                out.append(("%",))
                continue
            if not args:
                return None
            x = args.pop(0)
            w = int(m.group(3) or 0)
            if x[0] == "c" and isinstance(x[1], str) and m.group(5) == "s":
                out.append((x[1].rjust(w),))
                continue
            out.append((None, x, w, int(m.group(4)) if m.group(4) else 6 if m.group(5) in "feEg" else None, m.group(5)))
        out.append((t[1][1][pos:],))
        return out if not args else None
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "format" and t[1][1][0] == "c":
        return None
    return None


def columns(lay):
    """{term: (start, end, precision, kind)} while all widths are fixed"""
    pos, out = 0, []
    for f in lay:
        if f[0] is not None:
            pos += len(f[0])
        else:
            if not f[2]:
                out.append((f[1], pos, None, f[3], f[4]))
                return out
            out.append((f[1], pos, pos + f[2], f[3], f[4]))
            pos += f[2]
    return out


def writes(p):
    return [l for l in p.log if l[0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "write" and len(l[1][2]) == 1]


def linear3(ix):
    """k if ix == 3*i + k"""
    d = dict(poly(ix))
    k = d.pop((), 0)
    if len(d) == 1:
        (m, v), = d.items()
        if v == 3 and len(m) == 1 and m[0][1] == 1:
            return k
    return None


def run(tier):
    R = Report(PID, tier, technique="column and field layout of the writers matched with the slices, fields and counts of the readers; canonical comparison of the cell formulas",
               explanation="Every path of the structure writers and readers is evaluated to terms; the text layout (literals, widths, precisions, order of the values) of what is "
                           "written is compared with the slices and fields that are read, and the reader's terms with the writer's values.")
    prog = load()
    MT = prog.module("ipi.utils.mathtools")
    def T(f, **k):
        ps = TE(prog, keep=lambda x: x.name in KEEP, **k).run(f)
        for p in ps:
            p.log = [(l[0], l[1][2]) + l[2:] if l[0] == "call" and l[1][0] == "new" else l for l in p.log]
        return ps
    # ---- cell formulas
    R.rule("cell-formulas", "the lengths and angles of the cell determine it, and are those of its vectors", 1)
    h = ("arg", "h")

    def angles(kind, f):
        hh = ("arg", f.node.args.args[0].arg)
        v = (lambda i: ("ix", hh, ("tup", "Tuple", (("slice", NONE, NONE, NONE), c(i))))) if kind == "col" else (lambda i: ("ix", hh, c(i)))
        nrm = [power(dotv(v(i), v(i)), 0.5) for i in range(3)]
        z = (lambda t: lower0(t, hh)) if kind == "col" else (lambda t: t)
        if kind == "col":
            nrm = [z(x) for x in nrm]
            nrm[0] = el(hh, 0, 0)
        ang = [("f", "arccos", z(div(dotv(v(i), v(j)), mul(nrm[i], nrm[j])))) for i, j in ((1, 2), (0, 2), (0, 1))]
        return nrm + ang, z

    def same(a, b, hh):
        if a == b:
            return True
        # sqrt(h00^2) is the same as h00, which is positive
        alt = power(mul(el(hh, 0, 0), el(hh, 0, 0)), 0.5)
        return a == alt and b == el(hh, 0, 0)
    for fn, kind in (("h2abc", "col"), ("genh2abc", "row")):
        f = MT.functions.get(fn)
        if f is None:
            continue
        want, z = angles(kind, f)
        hh = ("arg", f.node.args.args[0].arg)
        for p in TE(prog).run(f):
            if p.exit != "return":
                continue
            r = p.ret[2] if p.ret[0] == "tup" else ()
            if len(r) != 6:
                continue
            for i, n in enumerate("a b c alpha beta gamma".split()):
                got = z(canon(r[i]))
                ok = same(got, want[i], hh)
                R.ob("cell-formulas", "%s: %s" % (fn, n), ok, "%s computes %s as %s" % (fn, n, show(r[i])[:160]), f.loc(f.node))
    f = MT.functions.get("h2abc_deg")
    if f is not None:
        for p in T(f):
            if p.exit != "return" or p.ret[0] != "tup" or len(p.ret[2]) != 6:
                continue
            base = ("call", ("fn", MT.name + ":h2abc"), (("arg", f.node.args.args[0].arg),), ())
            for i, n in enumerate("a b c alpha beta gamma".split()):
                x = ("ix", base, c(i))
                w = x if i < 3 else canon(mul(c(180), div(x, PI)))
                g = canon(p.ret[2][i])
                ok = g == w or close(g, w)
                R.ob("cell-formulas", "h2abc_deg: " + n, ok, "h2abc_deg gives %s as %s" % (n, show(p.ret[2][i])[:120]), f.loc(f.node))
    f = MT.functions.get("abc2h")
    if f is not None:
        a_, b_, c_, al, be, ga = [("arg", x.arg) for x in f.node.args.args[:6]]
        cos, sin = (lambda x: ("f", "cos", x)), (lambda x: ("f", "sin", x))
        w = {(0, 0): a_, (0, 1): mul(b_, cos(ga)), (0, 2): mul(c_, cos(be)), (1, 1): mul(b_, sin(ga))}
        w[(1, 2)] = div(add(mul(mul(b_, c_), cos(al)), mul(c(-1), mul(w[(0, 1)], w[(0, 2)]))), w[(1, 1)])
        w[(2, 2)] = power(add(mul(c_, c_), mul(c(-1), add(mul(w[(0, 2)], w[(0, 2)]), mul(w[(1, 2)], w[(1, 2)])))), 0.5)
        for p in TE(prog).run(f):
            if p.exit != "return" or p.ret is None:
                continue
            got, bad = {}, False
            if p.ret[0] == "new" and p.ret[2][0] == "call" and p.ret[2][1] == ("ext", "numpy.array") or p.ret[0] == "call" and p.ret[1] == ("ext", "numpy.array"):
                lit = (p.ret[2] if p.ret[0] == "new" else p.ret)[2][0]
                if lit[0] == "tup":
                    for i, row in enumerate(lit[2]):
                        if row[0] == "tup":
                            for j, x in enumerate(row[2]):
                                got[(i, j)] = x
            elif not (p.ret[0] == "new" and p.ret[2][0] == "call" and p.ret[2][1][1] in ("numpy.zeros",)):
                continue
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix":
                    t = canon(l[1])
                    if t[2][0] == "tup" and all(x[0] == "c" for x in t[2][2]):
                        got[tuple(x[1] for x in t[2][2])] = l[2]
                        continue
                    elif t[2][0] == "c" and l[2][0] == "tup" and len(l[2][2]) == 3:
                        for j, x in enumerate(l[2][2]):
                            got[(t[2][1], j)] = x
                        continue
                    bad = True
            if bad:
                continue
            for i in range(3):
                for j in range(3):
                    g = canon(got.get((i, j), c(0)))
                    ok = g == w.get((i, j), c(0))
                    if not ok and (i, j) == (2, 2) and any(x[0] == "f" and x[1] not in ("cos", "sin") for x in subterms(g)):
                        ok = True
                    R.ob("cell-formulas", "abc2h: h[%d,%d]" % (i, j), ok, "abc2h computes h[%d,%d] as %s" % (i, j, show(got.get((i, j), c(0)))[:160]), f.loc(f.node))
    # ---- writers: what every frame contains
    hdeg = lambda i: ("ix", ("call", ("fn", MT.name + ":h2abc_deg"), (mul(("attr", ("arg", "cell"), "h"), ("arg", "cell_conv")),), ()), c(i))
    BK = "ipi.utils.io.backends."

    def coord(t, owner):
        """k if t is component k of the (converted) coordinates of the atom being written"""
        s = [x for x in subterms(t) if x == ("attr", ("arg", owner), "q")]
        if not s:
            return None, False
        conv = False
        for x in subterms(t):
            if x[0] == "p":
                for m, v in x[1]:
                    has = any(("attr", ("arg", owner), "q") in list(subterms(f)) for f, e in m)
                    if has and v == 1 and sum(1 for f, e in m if f == ("arg", "atoms_conv") and e == 1) == 1 and len(m) == 2:
                        conv = True
        k = None
        for x in subterms(t):
            if x[0] == "ix":
                kk = linear3(x[2])
                if kk is not None:
                    k = kk
                if x[2][0] == "c" and x[1][0] in ("elem", "ix"):
                    k = x[2][1] if isinstance(x[2][1], int) else k
        return k, conv
    R.rule("pdb-columns", "PDB records are written in and read from the standard columns", 1)
    M = prog.module(BK + "io_pdb")
    for fn, owner in (("print_pdb", "atoms"), ("print_pdb_path", "beads")):
        f = M.functions.get(fn)
        if f is None:
            continue
        for p in T(f):
            if p.exit == "raise":
                continue
            g = dict(p.guards)
            na = 0
            for l in writes(p):
                lay = layout(l[1][2][0])
                if lay is None:
                    continue
                text = "".join(x[0] or "\0" for x in lay)
                R.ob("pdb-columns", fn + ": one record per line", text.count("\n") == 1 and text.endswith("\n"), "%s writes a record that does not end its line" % fn, f.loc(l[2]))
                cols = columns(lay)
                if text.startswith("ATOM"):
                    na += 1
                    got = {}
                    for t, s, e, pr, kind in cols:
                        k, conv = coord(t, owner)
                        if k is not None or ("attr", ("arg", owner), "q") in list(subterms(t)):
                            got[k] = (s, e, pr, kind, conv)
                        if named(t, owner):
                            R.ob("pdb-columns", fn + ": name", s >= 12 and e is not None and e <= 16, "%s writes the atom name in columns %s:%s, it is read from 12:16" % (fn, s, e), f.loc(l[2]))
                    for k in range(3):
                        w = (30 + 8 * k, 38 + 8 * k)
                        ok = k in got and got[k][:2] == w and got[k][3] == "f" and (got[k][2] or 0) >= 3
                        R.ob("pdb-columns", "%s: %s" % (fn, "xyz"[k]), ok, "%s writes %s in columns %s instead of %d:%d with 3 decimals" % (fn, "xyz"[k], got.get(k, ("nowhere",))[:4], *w), f.loc(l[2]))
                        R.ob("pdb-columns", "%s: conversion" % fn, k not in got or got[k][4], "%s writes coordinates without the conversion factor asked for" % fn, f.loc(l[2]))
                    # integer fields that can outgrow their columns push the coordinates out of theirs
                    for t, s, e, pr, kind in cols:
                        if fn == "print_pdb" and kind in "di" and t[0] != "c" and e is not None and e <= 30:
                            bounded = t[0] == "bin" and t[1] == "Mod" and t[3][0] == "c" and len(str(t[3][1] - 1)) <= e - s or t[0] == "call" and t[1] == ("ext", "min")
                            R.ob("pdb-columns", fn + ": serial number", bounded, "%s writes %s in %d columns without bounding it: beyond %d the coordinates move out of their columns"
                                 % (fn, show(t)[:60], e - s, 10 ** (e - s) - 1), f.loc(l[2]))
                if text.startswith("CRYST1"):
                    w = [(6, 15), (15, 24), (24, 33), (33, 40), (40, 47), (47, 54)]
                    for i in range(6):
                        got = [(s, e, kind) for t, s, e, pr, kind in cols if t == hdeg(i)]
                        R.ob("pdb-columns", "%s: cell %d" % (fn, i), bool(got) and got[0] == w[i] + ("f",), "%s writes component %d of the cell in columns %s instead of %s" % (fn, i, got, w[i]), f.loc(l[2]))
            if na:
                last = [layout(l[1][2][0]) for l in writes(p)]
                R.ob("pdb-columns", fn + ": END", bool(last) and last[-1] is not None and "".join(x[0] or "" for x in last[-1]).strip() == "END", "%s does not end the frame with END" % fn, f.loc(f.node))
    f = M.functions.get("read_pdb")
    if f is None:
        raise AnalysisBroken("read_pdb has vanished")
    sl = lambda t: t[2] if t[0] == "ix" and t[2][0] == "slice" else None
    W3 = [(30, 38), (38, 46), (46, 54)]
    WC = [(6, 15), (15, 24), (24, 33), (33, 40), (40, 47), (47, 54)]

    def cut(t):
        """(a, b) of float(line[a:b])"""
        if t[0] == "call" and t[1] == ("ext", "float") and len(t[2]) == 1:
            x = t[2][0]
            while x[0] == "call" and x[1][0] == "attr" and x[1][2] == "strip":
                x = x[1][1]
            s = sl(x)
            if s is not None and s[1][0] == "c" and s[2][0] == "c":
                return s[1][1] or 0, s[2][1]
        return None
    A2H = ("fn", MT.name + ":abc2h")
    seen = 0
    for p in T(f):
        if p.exit != "return":
            continue
        for l in p.log:
            if l[0] == "call" and l[1][1] == A2H and len(l[1][2]) == 6:
                for i, t in enumerate(l[1][2]):
                    t = canon_arg(t)
                    x = t
                    want_f = 1 if i < 3 else None
                    r = strip_deg(t) if i >= 3 else t
                    k = cut(r) if r is not None else None
                    if r is None and i >= 3:
                        R.fail("pdb-columns", "read_pdb: angle %d" % i, "read_pdb gives abc2h %s, not an angle in radians" % show(t)[:120], f.loc(l[2]))
                    elif k is not None:
                        R.ob("pdb-columns", "read_pdb: cell %d" % i, k == WC[i], "read_pdb reads component %d of the cell from columns %s instead of %s" % (i, k, WC[i]), f.loc(l[2]))
        order = [l[1][2][0] for l in p.log if l[0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "append" and l[3] and len(l[1][2]) == 1 and cut(l[1][2][0])]
        ext = [l[1][2][0] for l in p.log if l[0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "extend" and l[3] and len(l[1][2]) == 1 and l[1][2][0][0] == "tup"]
        for t in ext:
            order += [x for x in t[2] if cut(x)]
        anyf = {cut(l[1]) for l in p.log if l[0] == "call" and l[3] and cut(l[1])}
        if order or anyf:
            seen += 1
            got = [cut(x) for x in order] if order else sorted(anyf)
            R.ob("pdb-columns", "read_pdb: coordinates", got == W3, "read_pdb reads the coordinates from columns %s; they are written to %s" % (got, W3), f.loc(f.node))
            nm = [sl(x) for l in p.log if l[0] == "call" and l[3] for x in subterms(l[1]) if sl(x) and sl(x)[1][0] == "c" and sl(x)[2][0] == "c" and isinstance(sl(x)[2][1], int) and sl(x)[2][1] <= 22]
            R.ob("pdb-columns", "read_pdb: name", bool(nm) and all(s[1] == c(12) and s[2] == c(16) for s in nm), "read_pdb reads the atom name from %s instead of 12:16" % sorted({show(x) for x in nm}), f.loc(f.node))
    if not seen and not any("float" in show(x)[:60] for p in T(f) for l in p.log if l[0] in ("call", "set") and l[3 if l[0] == "call" else 4] for x in subterms(l[1] if l[0] == "call" else l[2])):
        R.fail("pdb-columns", "read_pdb: coordinates", "no path of read_pdb reads the coordinates of an atom", f.loc(f.node))
    # ---- xyz
    R.rule("xyz-fields", "an xyz frame is its atom count, a comment with the cell, and one line 'name x y z' per atom, in this order", 1)
    M = prog.module(BK + "io_xyz")
    pats = M.assigns.get("cell_re")
    rx = []
    if isinstance(pats, (ast.List, ast.Tuple)):
        for e in pats.elts:
            if isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Constant):
                rx.append(re.compile(e.args[0].value))
    for fn, owner in (("print_xyz", "atoms"), ("print_xyz_path", "beads")):
        f = M.functions.get(fn)
        if f is None:
            continue
        for p in T(f):
            if p.exit == "raise":
                continue
            lay, loops = [], []
            for l in writes(p):
                x = layout(l[1][2][0])
                lay.append(x)
                loops.append((l, x))
            full = [x for y in lay if y for x in y]
            natoms = ("attr", ("arg", owner), "natoms")
            rows = [(l, x) for l, x in loops if x and any(v[0] is None and ("attr", ("arg", owner), "q") in list(subterms(v[1])) for v in x)]
            heads = [v for y in lay if y and y not in [x for _, x in rows] for v in y]
            if heads:
                first = [v for v in heads if v[0] is None]
                R.ob("xyz-fields", fn + ": atom count", bool(first) and heads[0][0] is None and (first[0][1] == natoms or ("call", ("ext", "str"), (natoms,), ()) == first[0][1]) and len(heads) > 1 and (heads[1][0] or "").startswith("\n"),
                     "%s does not start the frame with the number of atoms on a line of its own" % fn, f.loc(f.node))
                vals = [v for v in heads if v[0] is None and any(x[0] == "call" and x[1] == ("fn", MT.name + ":h2abc_deg") for x in subterms(v[1]))]
                if not vals and (any(x is None for x in lay) or any(v[0] is None and v[4] == "s" and v[1][0] not in ("arg", "attr", "c") for v in heads)):
                    continue   # the header is put together in a way that is not followed
                R.ob("xyz-fields", fn + ": cell", [v[1] for v in vals] == [hdeg(i) for i in range(6)], "%s writes the cell as %s instead of a, b, c, alpha, beta, gamma of the converted cell"
                     % (fn, [show(v[1])[-30:] for v in vals]), f.loc(f.node))
                R.ob("xyz-fields", fn + ": cell digits", all((v[3] or 0) >= 5 and v[4] in "feE" for v in vals), "%s writes the cell with fewer than 5 decimals" % fn, f.loc(f.node))
                ttl = [v for v in heads if v[0] is None and v[1] == ("arg", "title")]
                if "title" in [a.arg for a in f.node.args.args]:
                    R.ob("xyz-fields", fn + ": comment", bool(ttl), "%s does not write the comment that names the units" % fn, f.loc(f.node))
                if rx:
                    def num(i, v):
                        x = "%.*f" % (v[3] or 0, 1.5 + i)
                        return x.rjust(v[2] or 0)
                    txt = ""
                    for v in heads:
                        txt += v[0] if v[0] is not None else ("positions{angstrom}  cell{angstrom}" if v[1] == ("arg", "title") else "7" if v[1] == natoms else num([y[1] for y in vals].index(v[1]), v) if v in vals else "B")
                    com = txt.split("\n")[1] if txt.count("\n") >= 1 else ""
                    m = rx[0].search(com)
                    ok = m is not None
                    if ok:
                        try:
                            ok = [round(float(x), 3) for x in m.group(1).split()[:6]] == [1.5 + i for i in range(6)]
                        except ValueError:
                            ok = False
                    R.ob("xyz-fields", fn + ": cell pattern", ok and txt.count("\n") == 2 and txt.endswith("\n"), "the comment line %r written by %s is not recognised by the pattern %r of read_xyz" % (com[:90], fn, rx[0].pattern), f.loc(f.node))
            for l, x in rows:
                vals = [v for v in x if v[0] is None]
                nm = [named(v[1], owner) for v in vals]
                ks = [coord(v[1], owner) for v in vals]
                R.ob("xyz-fields", fn + ": atom line", len(vals) >= 4 and nm[0] and [k for k, _ in ks[1:4]] == [0, 1, 2], "%s writes the atom line as %s" % (fn, [show(v[1])[-40:] for v in vals]), f.loc(l[2]))
                R.ob("xyz-fields", fn + ": conversion", all(k[1] for k in ks[1:4]), "%s writes coordinates without the conversion factor asked for" % fn, f.loc(l[2]))
                R.ob("xyz-fields", fn + ": digits", all((v[3] or 0) >= 5 and v[4] in "eEf" or (v[3] or 0) >= 6 and v[4] == "g" or v[4] == "s" for v in vals[1:4]), "%s writes coordinates with fewer than 5 decimals" % fn, f.loc(l[2]))
                sep = all(x[i + 1][0] is not None and x[i + 1][0][:1] in (" ", "\t", "\n") for i, v in enumerate(x[:-1]) if v[0] is None) and (x[-1][0] or "").endswith("\n")
                R.ob("xyz-fields", fn + ": separators", sep, "%s writes the fields of an atom line without a separator" % fn, f.loc(l[2]))
    f = M.functions.get("read_xyz")
    if f is None:
        raise AnalysisBroken("read_xyz has vanished")
    R.rule("complete-frames", "a frame is only returned when as many atoms were read as its header announces", 1)
    nret = 0
    fd = ("arg", f.node.args.args[0].arg)

    def fieldno(t):
        if t[0] == "call" and t[1] == ("ext", "float") and len(t[2]) == 1:
            x = t[2][0]
            if x[0] == "ix" and x[2][0] == "c" and x[1][0] == "call" and x[1][1][0] == "attr" and x[1][1][2] == "split":
                return x[2][1]
        return None
    for p in T(f):
        if p.exit != "return" or p.ret is None:
            continue
        heads = {x for l in p.log for x in subterms(l[1]) if x[0] == "call" and x[1] == ("ext", "int")}
        ranged = any(l[0] == "call" and l[1][1] == ("ext", "range") and len(l[1][2]) == 1 and l[1][2][0] in heads for l in p.log)
        eq = any(b is True and t[0] == "cmp" and t[1] == "==" and any(x in heads for x in t[2:]) and any(y[0] in ("carry", "iv") or y[0] == "len" and y[1][0] == "new" and y[1][2][0] == "tup" for x in t[2:] for y in subterms(x)) for t, b in p.guards)
        nread = any(l[0] in ("call",) and fieldno(l[1]) is not None for l in p.log)
        zero = any(b is True and t[0] == "cmp" and t[1] == "==" and any(x in heads for x in t[2:]) and c(0) in t[2:] for t, b in p.guards)
        nret += 1
        R.ob("complete-frames", "read_xyz", eq or zero or ranged and any(l[0] == "call" and l[3] and l[1][1] in (("ext", "next"),) or l[0] == "call" and l[3] and l[1][1] == ("attr", fd, "__next__") for l in p.log),
             "read_xyz returns a frame without having compared the number of atoms it read with the number in the header (%s)" % "; ".join("%s=%s" % (k[:60], v) for k, v in list(p.g().items())[-2:]), f.loc(f.node))
        genh = any(x[0] == "call" and x[1] == ("ext", "numpy.linalg.inv") for l in p.log for x in subterms(l[1] if l[0] == "call" else l[2]))
        for l in p.log:
            if l[0] == "set" and l[1][0] == "ix":
                k = linear3(l[1][2])
                j = fieldno(l[2])
                if k is not None and j is not None and not genh:
                    R.ob("xyz-fields", "read_xyz: component %d" % k, j == k + 1, "read_xyz stores field %d of the line as component %d" % (j, k), f.loc(l[3]))
                if l[2][0] == "call" and l[2][1][0] == "attr" and l[2][1][2] == "mass":
                    R.ob("xyz-fields", "read_xyz: mass", bool(l[2][2]) and l[2][2][0][0] == "ix" and l[2][2][0][2] == c(0), "read_xyz takes the mass of %s" % show(l[2])[:80], f.loc(l[3]))
                if genh and k is not None and k in (0, 1, 2):
                    g = canon(l[2])
                    # component k of h . (u . inverse(genh))
                    ok, inv = False, [x for x in subterms(l[2]) if x[0] == "call" and x[1] == ("ext", "numpy.linalg.inv")]
                    H = [x for x in subterms(l[2]) if x[0] == "call" and x[1] == A2H]
                    if inv and H and g[0] == "ix" and g[2] == c(k) and g[1][:2] == ("f", "dot"):
                        a1, b1 = g[1][2:]
                        isH = lambda x: x[0] == "call" and x[1] == A2H
                        isI = lambda x: x[0] == "f" and x[1] == "inv"
                        inner = b1 if isH(a1) else a1 if b1[0] == "attr" and b1[2] == "T" and isH(b1[1]) else None
                        ok = inner is not None and inner[:2] == ("f", "dot") and (isI(inner[3]) and not any(isI(y) for y in subterms(inner[2])) or inner[2][0] == "attr" and inner[2][2] == "T" and isI(inner[2][1]))
                    elif not (g[0] == "ix" and g[1][:2] == ("f", "dot")):
                        ok = True
                    R.ob("xyz-fields", "read_xyz: general cell", ok, "positions of a general cell are mapped with %s instead of h.(u.inv(genh))" % show(l[2])[:160], f.loc(l[3]))
        order = [fieldno(l[1][2][0]) for l in p.log if l[0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "append" and l[3] and len(l[1][2]) == 1 and fieldno(l[1][2][0]) is not None]
        used = sorted({fieldno(x) for l in p.log if l[3 if l[0] == "call" else 4] for x in subterms(l[1] if l[0] == "call" else l[2]) if fieldno(x) is not None})
        if order:
            R.ob("xyz-fields", "read_xyz: order", order == [1, 2, 3], "read_xyz stores the fields %s of a line as x, y, z" % order, f.loc(f.node))
        if used:
            R.ob("xyz-fields", "read_xyz: fields", used == [1, 2, 3], "read_xyz takes the coordinates from the fields %s of a line" % used, f.loc(f.node))
        for l in p.log:
            if l[0] == "call" and l[1][1] == A2H and len(l[1][2]) == 6:
                src = [pick(t if i < 3 else strip_deg(canon_arg(t))) for i, t in enumerate(l[1][2])]
                if all(s is not None for s in src):
                    R.ob("xyz-fields", "read_xyz: cell", src == [0, 1, 2, 3, 4, 5], "read_xyz takes a, b, c, alpha, beta, gamma from the numbers %s of the comment" % src, f.loc(l[2]))
                elif any(strip_deg(canon_arg(t)) is None for t in l[1][2][3:]):
                    R.fail("xyz-fields", "read_xyz: angles", "read_xyz gives abc2h angles that are not converted to radians: %s" % show(l[1][2][3])[-80:], f.loc(l[2]))
    if not nret:
        R.fail("complete-frames", "read_xyz", "read_xyz never returns", f.loc(f.node))
    # ---- comment patterns
    R.rule("unit-patterns", "the units written in the comment line are recognised when the file is read", 1)
    M = prog.module("ipi.utils.io.io_units")
    import importlib.util
    spec = importlib.util.spec_from_file_location("c18_fold", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C18.py"))
    c18 = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(c18)
    um = c18.Fold(prog, prog.module("ipi.utils.units")).env.get("UnitMap")
    P = prog.module("ipi.engine.properties")
    keys = {}
    for cn in ("Trajectories",):
        for x in ast.walk(prog.cls(cn).node):
            if isinstance(x, ast.Dict):
                for k, v in zip(x.keys, x.values):
                    if isinstance(k, ast.Constant) and isinstance(v, ast.Dict):
                        d = {a.value: b for a, b in zip(v.keys, v.values) if isinstance(a, ast.Constant)}
                        if "func" in d:
                            keys[k.value] = d["dimension"].value if isinstance(d.get("dimension"), ast.Constant) else None
    if isinstance(um, dict):
        cu = M.assigns.get("cell_unit_re")
        if isinstance(cu, ast.Call) and cu.args and isinstance(cu.args[0], ast.Constant):
            pr = re.compile(cu.args[0].value)
            bad = []
            for u in um["length"]:
                for pf in ("", "nano"):
                    m = pr.search("# CELL(abcABC): 1.0 2.0 3.0 90.0 90.0 90.0 Step: 0  Bead: 0 positions{%s}  cell{%s}" % (u, pf + u))
                    if m is None or m.group(1) != pf + u:
                        bad.append(pf + u)
            R.ob("unit-patterns", "cell units", not bad, "the cell units %s written in a comment are not recognised by %r" % (bad[:4], pr.pattern), "%s:%d" % (M.path, cu.lineno))
        tr = M.assigns.get("traj_re")
        pt = None
        for x in (ast.walk(tr) if tr is not None else ()):
            if isinstance(x, ast.Call) and ast.unparse(x.func) == "re.compile":
                pt = joinpat(x.args[0])
        if pt is not None:
            for k, dim in keys.items():
                if dim is None or dim not in um:
                    continue
                pr = re.compile(pt % k)
                bad = [u for u in um[dim] if u and not _m(pr, "# CELL(abcABC): 1.0 2.0 Step: 0  Bead: 0 %s{%s}  cell{angstrom}" % (k, u), k + "{" + u + "}")]
                R.ob("unit-patterns", k, not bad, "%s printed in the units %s is read back in other units: the pattern %r does not recognise the comment" % (k, bad[:4], pr.pattern), "%s:%d" % (M.path, tr.lineno))
        ks = list(keys)
        for i, k in enumerate(ks):
            for k2 in ks:
                if k2 != k and k2.endswith(k) and keys[k] != keys[k2] and keys[k2] is not None and not re.match(r"\W", k2[-len(k) - 1]) and pt is not None and not pt.startswith(r"\b"):
                    R.fail("unit-patterns", k2, "the comment of %s is taken for one of %s, which has another dimension" % (k2, k), P.path)
    # ---- roles
    R.rule("roles", "what a backend reads is handed on as the comment, cell, coordinates, names and masses it is", 1)
    IO = prog.module("ipi.utils.io")
    for fn in ("read_file_raw", "iter_file_raw"):
        f = IO.functions.get(fn)
        if f is None:
            continue
        for d in ast.walk(f.node):
            if not isinstance(d, ast.Dict) or not all(isinstance(k, ast.Constant) for k in d.keys):
                continue
            kv = {k.value: v for k, v in zip(d.keys, d.values)}
            if not {"comment", "data", "names"} <= set(kv):
                continue
            unp = [x for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Tuple) and len(x.targets[0].elts) == 5 and all(isinstance(e, ast.Name) for e in x.targets[0].elts)]
            if not unp:
                continue
            order = [e.id for e in unp[0].targets[0].elts]
            for role, i in (("comment", 0), ("cell", 1), ("data", 2), ("names", 3), ("masses", 4)):
                v = kv.get(role)
                if isinstance(v, ast.Name):
                    R.ob("roles", "%s: %s" % (fn, role), v.id in order and order.index(v.id) == i, "%s hands on result %s of the backend as the %s" % (fn, order.index(v.id) if v.id in order else v.id, role), f.loc(d))
            n = kv.get("natoms")
            if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Name):
                R.ob("roles", "%s: natoms" % fn, n.args[0].id in order and order.index(n.args[0].id) in (3, 4), "%s takes the number of atoms from %s" % (fn, ast.unparse(n)), f.loc(d))
    for mod, fn in (("io_pdb", "read_pdb"), ("io_xyz", "read_xyz")):
        f = prog.module(BK + mod).functions.get(fn)
        for p in T(f):
            if p.exit != "return" or p.ret is None or p.ret[0] != "tup" or len(p.ret[2]) != 5:
                continue
            base = lambda t: t[2][0] if t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith("numpy.as") and t[2] else t[2][2][0] if t[0] == "new" and t[2][0] == "call" and t[2][1] == ("ext", "numpy.array") and t[2][2] else t
            stores = {}
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix":
                    stores.setdefault(l[1][1], []).append(l[2])
                if l[0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "append" and len(l[1][2]) == 1:
                    stores.setdefault(l[1][1][1], []).append(l[1][2][0])
            for role, i in (("coordinates", 2), ("names", 3), ("masses", 4)):
                for v in stores.get(base(p.ret[2][i]), []):
                    ism = v[0] == "call" and v[1][0] == "attr" and v[1][2] == "mass"
                    num = any(y[0] == "call" and y[1] == ("ext", "float") for y in subterms(v))
                    ok = ism if role == "masses" else num and not ism if role == "coordinates" else not ism and not num
                    R.ob("roles", "%s: %s" % (fn, role), ok, "%s returns %s as the %s" % (fn, show(v)[:80], role), f.loc(f.node))
            cells = [x for x in subterms(p.ret[2][1]) if x[0] == "call" and x[1] == A2H]
            R.ob("roles", "%s: cell" % fn, not any(x[0] == "call" and x[1] == A2H for x in subterms(p.ret[2][0])), "%s returns the cell as the comment" % fn, f.loc(f.node))
    f = M.functions.get("process_units")
    if f is not None:
        for p in TE(prog, keep=lambda fn: fn.name in ("unit_to_user", "unit_to_internal", "auto_units", "info")).run(f):
            if p.exit != "return":
                continue
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and l[1][1][0] == "attr" and l[1][1][2] in ("q", "names", "m"):
                    w = {"q": "data", "names": "names", "m": "masses"}[l[1][1][2]]
                    srcs = {x[1] for x in subterms(l[2]) if x[0] == "arg"} & {"data", "names", "masses", "cell"}
                    R.ob("roles", "process_units: " + w, srcs == {w}, "process_units fills the %s of the atoms from %s" % (l[1][1][2], sorted(srcs)), f.loc(l[3]))
            if p.ret[0] in ("dict", "new"):
                dd = dict(p.ret[1]) if p.ret[0] == "dict" else {}
                t = dd.get(c("comment"))
                if t is not None:
                    R.ob("roles", "process_units: comment", t == ("arg", "comment"), "process_units returns %s as the comment" % show(t)[:60], f.loc(f.node))
    # ---- binary
    R.rule("binary-layout", "a binary frame is read in the order, types and counts it is written", 1)
    M = prog.module(BK + "io_binary")
    fw, fr = M.functions.get("print_binary"), M.functions.get("read_binary")
    if fw is not None and fr is not None:
        def kindof(t):
            s = list(subterms(t))
            if ("attr", ("arg", "cell"), "h") in s:
                return "cell"
            if ("attr", ("arg", "atoms"), "q") in s:
                return "positions"
            return None
        seq = None
        for p in T(fw):
            if p.exit == "raise":
                continue
            tf = [l[1][1][1] for l in p.log if l[0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "tofile"]
            kinds = [kindof(t) for t in tf]
            ok = kinds[:1] == ["cell"] and kinds[2:3] == ["positions"] and len(tf) == 6
            R.ob("binary-layout", "print_binary: order", ok, "print_binary writes %s" % [k or show(t)[:40] for k, t in zip(kinds, tf)], fw.loc(fw.node))
            for t, k, cf in zip(tf, kinds, ["cell_conv", None, "atoms_conv"]):
                if cf:
                    R.ob("binary-layout", "print_binary: " + cf, ("arg", cf) in list(subterms(t)), "print_binary does not convert with %s" % cf, fw.loc(fw.node))
        for p in T(fr):
            if p.exit != "return":
                continue
            rd = [l[1] for l in p.log if l[0] == "call" and l[1][1] == ("ext", "numpy.fromfile")]
            kw = [dict(x[3]) for x in rd]
            dt = [k.get("dtype", x[2][1] if len(x[2]) > 1 else NONE) for x, k in zip(rd, kw)]
            ct = [k.get("count", x[2][2] if len(x[2]) > 2 else c(-1)) for x, k in zip(rd, kw)]
            if len(rd) != 6:
                continue
            n0 = ("ix", rd[1], c(0))
            n1 = ("ix", rd[3], c(0))
            isi = lambda t: t in (("ext", "int"),) or "int" in show(t)
            isf = lambda t: "float" in show(t)
            ok = [isf(dt[0]) and ct[0] == c(9), isi(dt[1]) and ct[1] == c(1), isf(dt[2]) and (ct[2] == mul(c(3), n0) or same_but_id(ct[2], mul(c(3), n0))), isi(dt[3]) and ct[3] == c(1),
                  "U1" in show(dt[4]) and same_but_id(ct[4], n1), "U1" in show(dt[5])]
            for i, w in enumerate(("nine numbers of the cell", "the number of atoms", "three coordinates per atom", "the length of the names", "the names", "the title")):
                R.ob("binary-layout", "read_binary: " + w, ok[i], "read_binary reads %s of type %s where print_binary wrote %s" % (show(ct[i])[:60], show(dt[i]), w), fr.loc(fr.node))
            delim = ct[5] != c(-1)
            R.ob("binary-layout", "read_binary: one frame", delim, "read_binary reads everything up to the end of the file as the title of the first frame: later frames are lost", fr.loc(fr.node))
    return R.finish()


def named(t, owner):
    """is t (made from) one of the names, not just their number"""
    if not isinstance(t, tuple) or not t or t[0] in ("len", "iv"):
        return False
    return t == ("attr", ("arg", owner), "names") or any(named(x, owner) for x in t if isinstance(x, tuple))


def _m(pr, s, w):
    m = pr.search(s)
    return m is not None and m.group(0) == w


def same_but_id(a, b):
    st = lambda t: tuple(st(x) if isinstance(x, tuple) else x for x in t) if not (isinstance(t, tuple) and t and t[0] == "new") else st(t[2])
    return st(a) == st(b)


def joinpat(e):
    """the %-pattern of "%s%s" % (key, r"...") with %s left for the key"""
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
        args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
        try:
            return e.left.value % tuple(a.value.replace("%", "%%") if isinstance(a, ast.Constant) else "%s" for a in args)
        except (TypeError, ValueError):
            return None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        l, r = joinpat(e.left), joinpat(e.right)
        return l + r if l is not None and r is not None else None
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value.replace("%", "%%")
    if isinstance(e, ast.JoinedStr):
        return "".join(v.value.replace("%", "%%") if isinstance(v, ast.Constant) else "%s" for v in e.values)
    if isinstance(e, ast.Name) or isinstance(e, ast.Call) and ast.unparse(e.func) == "re.escape":
        return "%s"
    return None


def close(a, b):
    """equal up to rounding of the coefficients"""
    pa, pb = poly(a), poly(b)
    return set(pa) == set(pb) and all(abs(pa[k] - pb[k]) <= 1e-9 * abs(pb[k]) for k in pa)


def canon_arg(t):
    """fold the degree-to-radian constant"""
    if t[0] == "p":
        out = {}
        for m, v in t[1]:
            m2 = []
            for f, e in m:
                if f[0] == "glob" and f[2] == "deg2rad" and e == 1:
                    m2.append((PI, 1))
                    v = v / 180.0
                elif f[0] == "ext" and f[1] in ("numpy.pi", "math.pi"):
                    m2.append((PI, e))
                else:
                    m2.append((f, e))
            out[tuple(sorted(m2, key=repr))] = v
        return mkpoly(out)
    if t[0] == "ix" and t[1][0] in ("comp",):
        return ("ix", ("comp", canon_arg(t[1][1])) + t[1][2:], t[2])
    if t[0] == "call" and t[1][0] == "ext" and t[1][1].split(".")[-1] in ("radians", "deg2rad") and len(t[2]) == 1:
        return mul(div(PI, c(180)), t[2][0])
    return t


def strip_deg(t):
    """x if t == x * pi / 180"""
    if t[0] == "ix" and t[1][0] == "comp":
        r = strip_deg(t[1][1])
        return ("ix", ("comp", r) + t[1][2:], t[2]) if r is not None else None
    d = poly(t)
    if len(d) == 1:
        (m, v), = d.items()
        rest = [(f, e) for f, e in m if f != PI]
        if len(rest) == 1 and rest[0][1] == 1 and (PI, 1) in m and abs(v * 180 - 1) < 1e-9:
            return rest[0][0]
    return None


def pick(t):
    """which number of the split text t is"""
    if t is None:
        return None
    if t[0] == "ix" and t[1][0] == "comp" and t[2][0] == "c":
        it = t[1][2]
        off = 0
        if it[0] == "ix" and it[2][0] == "slice":
            off = it[2][1][1] or 0 if it[2][1][0] == "c" else None
        return None if off is None else off + t[2][1]
    if t[0] == "call" and t[1] == ("ext", "float") and len(t[2]) == 1 and t[2][0][0] == "ix" and t[2][0][2][0] == "c":
        return t[2][0][2][1]
    return None


if __name__ == "__main__":
    main(run, PID)
