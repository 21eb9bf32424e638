"""Term rules for C16: Suzuki-Chin finite differences, transfer of force data, set-up of components, committee members."""
from .term import TE, TooMany, add, c, mkpoly, mul, poly, show, subterms, NONE

SELF = ("arg", "self")
PLAIN = {"b2tob1", "b1tob2", "clone", "warning", "info", "bind", "queue", "release"}


class T16(TE):
    """dstrip, copy and flatten keep the value; zero arrays are zero; results of displaced systems carry the displacement"""
    zeros = True
    copies = True

    def docall(self, q, fv, a, kw, node, fr, fn, slf, cls):
        if fn is not None and fn.name == "dstrip" and len(a) == 1:
            return a[0]
        if self.copies and fv[0] == "attr" and fv[2] in ("copy", "flatten") and not a and not kw:
            return fv[1]
        if self.zeros and fv[0] == "ext" and fv[1] in ("numpy.zeros", "numpy.zeros_like"):
            return c(0)
        if fv[0] == "ext" and fv[1] in ("numpy.asarray", "numpy.array", "copy.copy", "copy.deepcopy", "list", "int") and len(a) == 1 and a[0][0] not in ("tup", "new"):
            return a[0]
        return TE.docall(self, q, fv, a, kw, node, fr, fn, slf, cls)

    def attr(self, q, b, n):
        t = TE.attr(self, q, b, n)
        if n in ("f", "virs", "pots") and b[0] == "ix" and b[1][0] == "attr" and b[1][2] == "mforces" and b[1][1] != SELF:
            es = [(l[1], l[2]) for l in q.log if l[0] == "set" and isq(l[1])]
            last = max([i for i, e in enumerate(es) if e[0][0] == "attr" or e[0][2] == ("slice", NONE, NONE, NONE)], default=0)
            return ("at", t, tuple(es[last:]))
        return t


def isq(t):
    if t[0] == "ix":
        t = t[1]
    return t[0] == "attr" and t[2] == "q" and t[1][0] == "attr"


def rewrite(t, f):
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str):
        r = f(t)
        if r is not None:
            return r
        if t[0] == "p":
            out = c(0)
            for k, v in t[1]:
                x = c(v)
                for a, e in k:
                    b = rewrite(a, f)
                    if isinstance(e, int) and e > 0:
                        for _ in range(e):
                            x = mul(x, b)
                    else:
                        x = mul(x, mkpoly({tuple((y, z * e) for y, z in next(iter(poly(b)))): 1}) if len(poly(b)) == 1 and list(poly(b).values()) == [1] else mkpoly({((b, e),): 1}))
                out = add(out, x)
            return out
    return tuple(rewrite(x, f) for x in t)


def kind(t):
    ks = {x[2] for x in subterms(t) if x[0] == "attr" and x[2] in ("f", "virs") and x[1][0] == "ix" and x[1][1][0] == "attr" and x[1][1][2] == "mforces"}
    return ks.pop() if len(ks) == 1 else None


def merge(t):
    """force and virial of a component under one name"""
    return rewrite(t, lambda x: ("attr", rewrite(x[1], lambda y: None), "*") if x[0] == "attr" and x[2] in ("f", "virs") and x[1][0] == "ix" and x[1][1][0] == "attr" and x[1][1][2] == "mforces" else None)


def fourth(rep, prog):
    cls = prog.cls("Forces")
    fn = cls.find("forcesvirs_4th_order")
    loc = fn.loc(fn.node)

    for eps in (1, -1):
        def asm(t):
            s = show(t)
            if "dforces" in s and "None" in s:
                return False
            if t[0] == "cmp" and "epsilon" in s and any(x == c(0) for x in t[1:] if isinstance(x, tuple)) and "numpy" not in s:
                e, z = [x for x in t[1:] if isinstance(x, tuple)][:2]
                val = lambda x: 0 if x == c(0) else eps
                if t[1] in ("<", "<=", ">", ">=", "=="):
                    return {"<": val(e) < val(z), "<=": val(e) <= val(z), ">": val(e) > val(z), ">=": val(e) >= val(z), "==": val(e) == val(z)}[t[1]]
            return None
        te = T16(prog, enter=lambda f, fv: f.name not in PLAIN, assume=asm)
        bad, n, fd, badfd = None, 0, 0, None
        for p in te.run(fn, cls):
            if p.exit == "raise":
                continue
            obs = []
            if p.ret is not None and p.ret[0] == "tup" and len(p.ret[2]) == 2:
                obs += [(("ret",), x) for x in p.ret[2]]
            for l in p.log:
                if l[0] == "set" and l[1][0] == "ix" and kind(l[2]) is not None and kind(l[1]) is None:
                    obs.append((l[1][2], l[2]))
            got = {"f": [], "virs": []}
            for w, v in obs:
                k = kind(v)
                if k is not None:
                    got[k].append((w, merge(v)))
            if not got["f"] and not got["virs"]:
                continue
            n += 1
            if sorted(map(repr, got["f"])) != sorted(map(repr, got["virs"])):
                d = [v for _, v in got["virs"] if (_, v) not in got["f"]] or [v for _, v in got["f"] if (_, v) not in got["virs"]]
                bad = bad or "the virial correction is not the force correction with virials for forces: %s" % (show(d[0])[:150] if d else "")
            if p.ret is not None and p.ret[0] == "tup" and len(p.ret[2]) == 2 and (kind(p.ret[2][0]) == "virs" or kind(p.ret[2][1]) == "f"):
                bad = bad or "the force correction is not returned first"
            for _, v in got["f"]:
                r = derivative(v)
                if r is not None:
                    fd += 1
                    if r is not True:
                        badfd = badfd or r
        lab = "forward" if eps > 0 else "centred"
        rep.ob("suzuki-chin", "4th-order-%s:force=virial" % lab, bad is None and n > 0, bad or "the values are not recognised", loc)
        rep.ob("suzuki-chin", "4th-order-%s:difference" % lab, badfd is None and fd > 0, badfd or "the finite difference is not recognised", loc)


def derivative(v):
    """the value is -2 times the derivative of the force along f/m, written with displaced configurations; None if not recognised"""
    sl = ("slice", c(1), NONE, c(2))
    x = unslice(v, sl)
    tot, mom = c(0), c(0)
    seen = set()
    for k, co in poly(x).items():
        ats = [(a, e) for a, e in k if any(y[0] == "at" or y[0] == "attr" and y[2] == "*" for y in subterms(a)) and "b2tob1" in show(a)]
        if len(ats) != 1 or ats[0][1] != 1:
            return None
        C = mkpoly({tuple(z for z in k if z[0] != ats[0][0]): co})
        disp = [y for y in subterms(ats[0][0]) if y[0] == "at"]
        S = c(0)
        if disp:
            seen.add(repr(ats[0][0]))
            sets = disp[0][2]
            if len(sets) == 1 and ats[0][0][0] == "call":
                val = sets[0][1]
            elif len(sets) == 2 and ats[0][0][0] == "ix":
                ix = ats[0][0][2]
                first = [s for t, s in sets if t[0] == "ix" and t[2][0] == "slice" and t[2][1] in (NONE, c(0))]
                last = [s for t, s in sets if t[0] == "ix" and t[2][0] == "slice" and t[2][1] not in (NONE, c(0)) and t[2][2] == NONE]
                if len(first) != 1 or len(last) != 1:
                    return None
                if ix[0] == "iv":
                    val = first[0]
                elif len(poly(ix)) == 2 and any(a[0] == "iv" for m in poly(ix) for a, e in m):
                    val = last[0]
                else:
                    return None
            else:
                return None
            val = unslice(val, sl)
            q = [m for m in poly(val) if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "attr" and m[0][0][2] == "q"]
            if len(q) != 1:
                return None
            S = add(val, mkpoly({q[0]: 1}), -1)
        tot = add(tot, C)
        mom = add(mom, mul(C, S))
    if not seen:
        return None
    if tot != c(0):
        return "the finite difference does not vanish for a constant force: %s" % show(x)[:140]
    ok = [m for m in poly(mom)]
    fm = [m for m in ok if sorted((a[2], e) for a, e in m if a[0] == "attr") == [("f", 1), ("m3", -1)] and len(m) == 2]
    if len(ok) != 1 or not fm:
        return "the finite difference is not divided by the length of its displacement: %s" % show(mom)[:140]
    if poly(mom)[fm[0]] != -2:
        return "the finite difference gives %s times the derivative of the force along the acceleration, not -2" % poly(mom)[fm[0]]
    return True


def unslice(v, sl):
    return rewrite(v, lambda t: unslice(t[1], sl) if t[0] == "ix" and t[2] == sl else None)


def eachname(t):
    """element of a sequence in a loop, by index or directly: ("E", sequence, "o"uter | "i"nner)"""
    def f(x):
        if x[0] == "ix" and (x[2][0] == "iv"):
            return ("E", rewrite(x[1], f), "i" if inner(x[2][1]) else "o")
        if x[0] == "elem":
            return ("E", rewrite(x[1], f), "i" if inner(x[1]) else "o")
        return None

    def inner(y):
        return any(z[0] in ("iv", "elem") for z in subterms(y))
    return rewrite(t, f)


def transfer(rep, prog):
    cls = prog.cls("Forces")
    E = lambda x, k: ("E", x, k)
    comp = E(("attr", SELF, "mforces"), "o")
    bead = E(("attr", comp, "_forces"), "i")
    run = lambda fn: [p for p in T16(prog, enter=lambda f, fv: f.name not in PLAIN | {"set", "taint"}).run(fn, cls) if p.exit != "raise"]

    def sets(p):
        """[(target, value)] of the direct stores"""
        out = []
        for l in p.log:
            if l[0] == l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "set" and l[1][2]:
                out.append((eachname(l[1][1][1]), eachname(l[1][2][0]), ("manual", c(False)) in l[1][3] or l[1][2][1:2] == (c(False),)))
        return out

    def untaint(p):
        return {eachname(l[1][1][1]) for l in p.log if l[0] == l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "taint" and (("taintme", c(False)) in l[1][3] or l[1][2][:1] == (c(False),))}
    # what is dumped, and where
    fn = cls.find("dump_state")
    lay = {}
    for p in run(fn):
        new = {}
        for l in p.log:
            if l[0] == l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "append" and len(l[1][2]) == 1:
                new.setdefault(l[1][1][1], []).append(l[1][2][0])
        for lst in new.values():
            for v in lst:
                if v[0] == "tup":
                    for i, x in enumerate(v[2]):
                        if eachname(x) == ("attr", ("attr", comp, "beads"), "q"):
                            lay["q"] = i
                        elif x in new and [eachname(y) for y in new[x]] == [("attr", bead, "ufvx")]:
                            lay["ufvx"] = i
                        elif x[0] == "comp" or x[0] == "listcomp":
                            lay.setdefault("ufvx", i)
    rep.ob("transfer", "Forces.dump_state", set(lay) == {"q", "ufvx"}, "the dumped state is not, for every component, its bead positions and the results of all its beads", fn.loc(fn.node))
    fn = cls.find("load_state")
    st = E(("arg", "state"), "o")
    bad, n = None, 0
    for p in run(fn):
        for t, v, man in sets(p):
            if t[0] != "attr":
                continue
            n += 1
            want = {"_q": (("attr", ("attr", comp, "beads"), "_q"), ("ix", st, c(lay.get("q", 0)))), "_ufvx": (("attr", bead, "_ufvx"), E(("ix", st, c(lay.get("ufvx", 1))), "i"))}.get(t[2])
            if want is None or (t, v) != want or not man:
                bad = bad or "%s gets %s" % (show(t)[:80], show(v)[:100])
        if n and ("attr", bead, "_ufvx") not in untaint(p):
            bad = bad or "the loaded results are left marked as stale"
    rep.ob("transfer", "Forces.load_state", bad is None and n >= 2, bad or "positions and results are not both restored", fn.loc(fn.node))
    fn = cls.find("transfer_forces_manual")
    bad, n = None, 0
    a = lambda x: E(("arg", x), "o")
    for p in run(fn):
        for t, v, man in sets(p):
            if t[0] != "attr":
                continue
            n += 1
            if t[2] == "_q":
                ok = (t, v) == (("attr", ("attr", comp, "beads"), "_q"), a("new_q"))
            else:
                ok = t == ("attr", bead, "_ufvx") and v[0] == "tup" and len(v[2]) == 4 and v[2][:3] == (E(a("new_v"), "i"), E(a("new_forces"), "i"), ("arg", "vir"))
            if not ok or not man:
                bad = bad or "%s gets %s" % (show(t)[:80], show(v)[:120])
        if ("attr", bead, "_ufvx") not in untaint(p):
            bad = bad or "the transferred results are left marked as stale"
    rep.ob("transfer", "Forces.transfer_forces_manual", bad is None and n >= 2, bad or "not recognised", fn.loc(fn.node))


def ival(t, env):
    """integer or truth value of a term for given values of its leaves; None if unknown"""
    if t in env:
        return env[t]
    if t[0] == "c" and isinstance(t[1], (int, float, bool)):
        return t[1]
    if t[0] == "p":
        s = 0
        for k, v in t[1]:
            x = v
            for a, e in k:
                y = ival(a, env)
                if y is None or e < 0:
                    return None
                x = x * y ** e
            s += x
        return s
    if t[0] == "cmp":
        a, b = ival(t[2], env), ival(t[3], env)
        if a is None or b is None:
            return None
        return {"==": a == b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "!=": a != b}.get(t[1])
    if t[0] == "not":
        v = ival(t[1], env)
        return None if v is None else not v
    if t[0] == "call" and t[1] in (("ext", "min"), ("ext", "max")) and not t[3]:
        vs = [ival(x, env) for x in t[2]]
        return None if None in vs else (min if t[1][1] == "min" else max)(vs)
    return None


def setup(rep, prog):
    """every component gets its own options, and its beads, contraction and results have one and the same number of beads"""
    cls = prog.cls("Forces")
    fn = cls.find("bind")
    fc, nb = ("elem", ("arg", "fcomponents")), ("attr", ("arg", "beads"), "nbeads")
    bad, n = None, 0
    comp = prog.cls("ForceComponent").find("__init__")
    names = [a.arg for a in comp.node.args.args][1:]
    rp = [a.arg for a in prog.cls("nm_rescale").find("__init__").node.args.args][1:]
    for p in T16(prog, enter=lambda f, fv: f.name not in PLAIN).run(fn, cls):
        if p.exit == "raise":
            continue
        cs = {}
        for l in p.log:
            if l[0] == l[1][0] == "call" and l[1][1][0] in ("cls", "ext") and l[1][1][1].rpartition(".")[2].rpartition(":")[2] in ("ForceComponent", "Beads", "nm_rescale"):
                cs.setdefault(l[1][1][1].rpartition(".")[2].rpartition(":")[2], []).append(l[1])
        if set(cs) != {"ForceComponent", "Beads", "nm_rescale"}:
            continue
        n += 1
        f = cs["ForceComponent"][0]
        kw = dict(zip(names, f[2]))
        kw.update(dict(f[3]))
        for k in ("ffield", "name", "weight", "mts_weights", "interpolate_extras", "epsilon"):
            if kw.get(k) != ("attr", fc, k) and kw.get(k) != ("attr", eachname(fc), k) and eachname(kw.get(k, NONE)) != ("attr", eachname(fc), k):
                bad = bad or "the option '%s' of a component is %s" % (k, show(kw.get(k, NONE))[:80])
        N = kw.get("nbeads", NONE)
        b = cs["Beads"][0]
        if (b[2][1] if len(b[2]) > 1 else dict(b[3]).get("nbeads")) != N:
            bad = bad or "the beads of a component and its results differ in number"
        r = dict(zip(rp, cs["nm_rescale"][0][2]))
        r.update(dict(cs["nm_rescale"][0][3]))
        if r.get("nbeads1") != nb or r.get("nbeads2") != N:
            bad = bad or "the contraction is made for %s -> %s beads" % (show(r.get("nbeads1", NONE))[:50], show(r.get("nbeads2", NONE))[:50])
        if r.get("open_paths") not in (("arg", "open_paths"), ("attr", SELF, "open_paths")):
            bad = bad or "the contraction does not know the open paths"
        fb = [x for x in subterms(N) if x[0] == "attr" and x[2] == "nbeads" and eachname(x[1]) == eachname(fc)] + [x for g, _ in p.guards for x in subterms(g) if x[0] == "attr" and x[2] == "nbeads" and eachname(x[1]) == eachname(fc)]
        fb = fb[0] if fb else ("attr", fc, "nbeads")
        for B in (1, 2, 4):
            for A in range(0, 7):
                env = {fb: A, nb: B, ("attr", SELF, "nbeads"): B}
                if any(ival(g, env) not in (None, y) for g, y in p.guards):
                    continue
                v = ival(N, env)
                if v is not None and v != (B if A == 0 or A > B else A):
                    bad = bad or "a component with nbeads=%d of %d beads is evaluated on %d beads" % (A, B, v)
    rep.ob("setup", "Forces.bind", bad is None and n > 0, bad or "not recognised", fn.loc(fn.node))
    # the copy used for displaced configurations is set up alike
    fn = cls.find("clone")
    par = [a.arg for a in cls.find("bind").node.args.args][1:]
    bad, n = None, 0
    for p in T16(prog, enter=lambda f, fv: f.name not in PLAIN).run(fn, cls):
        for l in p.log:
            if p.exit != "raise" and l[0] == l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "bind":
                n += 1
                kw = dict(zip(par, l[1][2]))
                kw.update(dict(l[1][3]))
                for k, v in (("beads", ("arg", "beads")), ("cell", ("arg", "cell")), ("fcomponents", ("attr", SELF, "fcomp")), ("fflist", ("attr", SELF, "ff")), ("open_paths", ("attr", SELF, "open_paths"))):
                    if kw.get(k) != v:
                        bad = bad or "the copy is bound with %s for %s" % (show(kw.get(k, NONE))[:60], k)
    rep.ob("setup", "Forces.clone", bad is None and n > 0, bad or "not recognised", fn.loc(fn.node))
    # per-bead virial: upper triangle only
    cls = prog.cls("ForceBead")
    fn = cls.find("get_vir")
    bad, n = None, 0
    for p in T16(prog).run(fn, cls):
        if p.exit == "raise" or p.ret is None:
            continue
        n += 1
        r = p.ret
        if r[0] == "call" and r[1] == ("ext", "numpy.triu"):
            continue
        z = set()
        for l in p.log:
            if l[0] == "set" and l[1][0] == "ix" and l[1][1] == r and l[2] == c(0) and l[1][2][0] == "tup" and len(l[1][2][2]) == 2:
                axes = []
                for i in l[1][2][2]:
                    if i[0] == "slice" and all(x[0] == "c" for x in i[1:]):
                        axes.append(list(range(3))[slice(*[x[1] for x in i[1:]])])
                    elif i[0] == "c":
                        axes.append([i[1] % 3])
                    else:
                        axes.append([])
                z |= {(x, y) for x in axes[0] for y in axes[1]}
        if z != {(1, 0), (2, 0), (2, 1)} and any(l[0] == "set" for l in p.log):
            bad = bad or "the elements %s of the virial are cleared, not the lower triangle" % sorted(z)
    rep.ob("setup", "ForceBead.get_vir", bad is None and n > 0, bad or "not recognised", fn.loc(fn.node))


def members(rep, prog):
    """energies, forces and virials of the members of a committee come from the same source, and the baseline is not a member"""
    cls = prog.cls("FFCommittee")
    fn = cls.find("gather")
    te = T16(prog, enter=lambda f, fv: f.name not in PLAIN)
    te.zeros = te.copies = False
    bad, n, base = None, 0, 0
    res = lambda t, i: t[0] == "ix" and t[2] == c(i) and t[1][0] == "ix" and t[1][2] == c("result")
    for p in te.run(fn, cls):
        if p.exit == "raise":
            continue
        src, owner = {0: set(), 1: set(), 2: set()}, set()
        for l in p.log:
            if l[0] != "call" or l[1][0] != "call":
                continue
            fv = l[1][1]
            if fv[0] == "attr" and fv[2] in ("append", "extend") or fv == ("ext", "numpy.mean"):
                for x in l[1][2]:
                    for y in subterms(x):
                        for i, nm in ((0, "pot"), (1, "force"), (2, "virial")):
                            if res(y, i) and (y == x or fv[0] == "ext"):
                                src[i].add("result")
                                owner |= {z[1] for z in subterms(y) if z[0] == "elem"}
                            if y[0] == "ix" and y[2] == c("committee_" + nm) and res(y[1], 3):
                                src[i].add("committee")
                                owner |= {z[1] for z in subterms(y) if z[0] == "elem"}
        if not all(src.values()):
            continue
        n += 1
        has = {}
        for g, y in p.guards:
            if g[0] == "cmp" and g[1] == "in" and g[2][0] == "c":
                has[g[2][1]] = y
        if src[0] == {"committee"}:
            for i, nm in ((1, "force"), (2, "virial")):
                want = {"committee"} if has.get("committee_" + nm) is not False else {"result"}
                if src[i] != want:
                    bad = bad or "the energies of the committee are used with the %s of %s" % (nm, "the whole model although those of the members are there" if want == {"committee"} else "members that are not there")
        elif src[0] != {"result"} or src[1] != {"result"} or src[2] != {"result"}:
            bad = bad or "energies, forces and virials come from different sources"
        found = [g for g, y in p.guards if y and g[0] == "cmp" and g[1] == "==" and ("attr", SELF, "baseline_name") in (g[2], g[3]) and c("") not in (g[2], g[3])]
        if found:
            base += 1
            own = ("ix", ("arg", "r"), c("ff_handles"))
            for l in p.log:
                if l[0] == l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] in ("pop", "remove") and l[1][1][1] == own:
                    bad = bad or "the handle of the baseline is taken out of the request itself, so it is never released"
            took = any(l[0] == l[1][0] == "call" and l[1][1][0] == "attr" and l[1][1][2] in ("pop", "remove") and any(o == l[1][1][1] for o in owner) for l in p.log) or any(l[0] == "del" for l in p.log)
            if not took and any(own in set(subterms(o)) for o in owner):
                bad = bad or "the baseline is also counted as a member of the committee"
    rep.ob("committee", "FFCommittee.gather:members", bad is None and n > 0, bad or "the members are not recognised", fn.loc(fn.node))


def extend(rep, prog):
    for f in (fourth, transfer, setup, members):
        rep.part(f.__name__, f, rep, prog)
