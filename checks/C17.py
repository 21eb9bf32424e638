"""C17: Monte Carlo moves and replica exchanges are all or nothing, and their energy is booked."""
import ast, os, re, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.vn import VN, Poly, Path, State, atom, num, tail, Lit

PID = "C17"
SWAPPED = ("temp", "pext", "stressext", "bweights", "hweights")


def short(p, n=160):
    s = str(p)
    return s if len(s) < n else s[:n] + "..."


def decision(st):
    """(accepted?, log of the acceptance probability as Poly, number of events before the decision) or None"""
    for k, b in st.guards.items():
        if "rng.u#" not in k or not k.startswith(("lt{", "le{")):
            continue
        l, _, r = k[3:-1].partition(" < ")
        lr, rr = l.startswith("rng.u#"), r.startswith("rng.u#")
        if lr == rr:
            continue
        pr = r if lr else l
        if "e^{" not in pr and pr != "1":
            continue
        acc = b if lr else not b
        return acc, pr, st.gpos.get(k, 0), k
    return None


def parse_log(pr):
    """exponents of the e^{...} factors of a product, or None"""
    out, i, n = {}, 0, len(pr)
    if pr == "1":
        return out
    while i < n:
        if not pr.startswith("e^{", i):
            return None
        d, j = 0, i + 2
        while j < n:
            d += pr[j] == "{"
            d -= pr[j] == "}"
            j += 1
            if d == 0:
                break
        body = pr[i + 3:j - 1]
        e = F(1)
        if pr.startswith("^", j):
            k = j + 1
            while k < n and pr[k] not in "*":
                k += 1
            e = F(pr[j + 1:k])
            j = k
        out[body] = out.get(body, 0) + e
        if j < n:
            if pr[j] != "*":
                return None
            j += 1
        i = j
    return out


def ver(a):
    return int(a.rpartition("@")[2])


def name_of(a):
    return a.rpartition("@")[0]


def value(v, st, path):
    """final value of a (canonical) written path"""
    for w in reversed(st.writes):
        if v.overlap(w[0], path):
            return w[1] if w[0] == path else None
    return None


def guards_text(st):
    return ",".join("TF"[not b] for b in st.guards.values())


# ---------------------------------------------------------------- replica exchange
def remd(m, rep):
    c = m.prog.cls("ReplicaExchange")
    f = c.find("step")
    v = VN(m, c, inline=lambda g, s: g.name not in ("gle_scale", "motion_scale", "thermo_scale", "info", "warning"), max_states=20000)
    sts = v.run(f)
    seen = {True: 0, False: 0}
    loc = f.loc()
    for st in sts:
        d = decision(st)
        if d is None:
            bad = [e for e in st.log if e.kind == "write"]
            rep.ob("undecided", "ReplicaExchange.step", not bad, "%s is changed although no exchange is attempted" % (bad[0].path if bad else ""), f.loc(bad[0].node) if bad else loc)
            continue
        acc, pr, pos, _ = d
        seen[acc] += 1
        pre = [e for e in st.log[:pos] if e.kind == "write"]
        # ---- acceptance probability
        ex = parse_log(pr)
        ok, why = False, "acceptance probability %s is not the exponential of a difference of ensemble probabilities" % short(pr)
        reps = sorted({e.path.split(".ensemble")[0] for e in pre if ".ensemble" in e.path} | {n.split(".ensemble")[0] for n in (ex or {}) if ".ensemble" in n})
        if ex is not None and len(reps) == 2:
            want_new = {n: e for n, e in ex.items() if e == 1}
            want_old = {n: e for n, e in ex.items() if e == -1}
            names = {r + ".ensemble.lpens" for r in reps}
            cl = v.closure_names("lpens")
            last = max([e.seq for e in pre if tail(e.path.replace("~", ""))[1] in cl], default=0)
            ok = len(ex) == 4 and {name_of(n) for n in want_new} == names and {name_of(n) for n in want_old} == names and \
                all(ver(n) == 0 for n in want_old) and all(ver(n) == last for n in want_new)
            if not pre:
                ok = True
                if len(ex) == 0:
                    ok = True
            why = "the acceptance probability compares %s (it must compare the ensemble probabilities of both replicas after and before all trial changes)" % short(pr)
        elif ex is not None and not ex or pr == "1":
            ok = True
        if not pre and (ex is None or len(ex) == 0):
            ok = True
        rep.ob("probability", "ReplicaExchange.step", ok, why, loc)
        finals = {}
        for w in st.writes:
            if ".ensemble." in w[0] or ".beads." in w[0] or ".motion." in w[0] or ".nm." in w[0] or ".cell." in w[0]:
                finals[w[0]] = w[1]
        gl = [e for e in st.log if e.kind == "call" and e.path.endswith("gle_scale")]
        if not acc:
            for p, val in sorted(finals.items()):
                init = v.num(State(), v.read(State(), Path(p.replace("~", ""), owner(m, p))))
                same = isinstance(val, Poly) and strip_ver(val) == strip_ver(init)
                ev = [e for e in st.log if e.kind == "write" and e.path == p][-1]
                rep.ob("reject", "ReplicaExchange.step:%s" % norm(p), same, "after a rejected exchange %s is %s" % (p, short(val)), f.loc(ev.node) if ev.func is f else ev.func.loc(ev.node))
            rep.ob("reject", "ReplicaExchange.step:thermostat variables", not gl, "thermostat variables are rescaled although the exchange is rejected", loc)
            bad = [e for e in st.log if e.kind == "write" and e.path.startswith("self.repindex")]
            rep.ob("reject", "ReplicaExchange.step:repindex", not bad, "the replica index is changed although the exchange is rejected", f.loc(bad[0].node) if bad else loc)
            continue
        # ---- accepted
        if len(reps) != 2:
            # all control parameters equal: nothing to exchange but the bookkeeping
            reps = sorted({x for x in (e.path.split(".ensemble")[0] for e in st.log if e.kind == "write" and ".ensemble" in e.path)})
        if len(reps) == 2:
            a, b = reps
            for at in SWAPPED:
                pa, pb = "%s.ensemble.%s" % (a, at), "%s.ensemble.%s" % (b, at)
                if pa in finals or pb in finals:
                    ia, ib = (strip_ver(v.num(State(), v.read(State(), Path(x, m.prog.cls("Ensemble"))))) for x in (pa, pb))
                    ok = pa in finals and pb in finals and strip_ver(finals[pa]) == ib and strip_ver(finals[pb]) == ia
                    rep.ob("exchange", "ReplicaExchange.step:%s" % at, ok, "after an accepted exchange %s is %s and %s is %s" % (pa, short(finals.get(pa)), pb, short(finals.get(pb))), loc)
                else:
                    ok = any(k.count(".ensemble.%s@" % at) >= 2 for k in st.guards)
                    rep.ob("exchange", "ReplicaExchange.step:%s" % at, ok, "%s is not exchanged" % at, loc)
            # conserved quantity: corrected by what it was before the exchange minus what it is now
            for r in reps:
                pe = r + ".ensemble.eens"
                wr = [w for w in st.writes if w[0] == pe]
                ok, why = False, "the conserved quantity of the replica is not corrected after the exchange"
                if len(wr) == 1:
                    dlt = wr[0][1] - v.num(State(), v.read(State(), Path(pe, m.prog.cls("Ensemble"))))
                    cl = v.closure_names("econs") - {"eens"}
                    last = max([w[2] for w in st.writes if w[2] < wr[0][2] and tail(w[0].replace("~", ""))[1] in cl], default=0)
                    t = {name_of(mo[0][0]): [] for mo in dlt.t if len(mo) == 1}
                    ok = set(t) <= {r + ".ensemble.econs"} and all(len(mo) == 1 for mo in dlt.t)
                    pos_ = [ver(mo[0][0]) for mo, cf in dlt.t.items() if cf == 1] if ok else []
                    neg_ = [ver(mo[0][0]) for mo, cf in dlt.t.items() if cf == -1] if ok else []
                    # nothing that enters the conserved quantity changes after the correction
                    late = [w for w in st.writes if w[2] > wr[0][2] and tail(w[0].replace("~", ""))[1] in cl and not w[0].startswith("self.repindex")]
                    ok = ok and not late and (pos_ == [0] and len(neg_) == 1 and neg_[0] >= last or not dlt.t and last == 0)
                    why = "the conserved quantity is corrected by %s (expected its value before the exchange minus the one after it)" % short(dlt)
                rep.ob("booked", "ReplicaExchange.step:eens", ok, why, loc)
        # momenta and thermostat variables are scaled reciprocally
        sc = [e.extra[0][1] for e in gl if len(e.extra[0]) > 1]
        objs = {e.extra[0][0].p for e in gl if e.extra[0] and isinstance(e.extra[0][0], Path)}
        ok = len(gl) == 2 and len(objs) == 2 and len(sc) == 2 and (sc[0] * sc[1]) == num(1)
        rep.ob("exchange", "ReplicaExchange.step:thermostat variables", ok, "the thermostat variables of both replicas must be rescaled by reciprocal factors", loc)
        ri = [w for w in st.writes if w[0].startswith("self.repindex")]
        ok = len(ri) == 2 and {str(w[1]) for w in ri} == {"%s@0" % w[0] for w in ri} and all(str(w[1]) != "%s@0" % w[0] for w in ri)
        rep.ob("exchange", "ReplicaExchange.step:repindex", ok, "the replica indices are not exchanged: %s" % [(w[0], str(w[1])) for w in ri], loc)
        for p, val in sorted(finals.items()):
            if tail(p)[1] not in ("p", "p~"):
                continue
            other = [q for q in finals if q != p and norm(q) == norm(p)]
            i0 = v.num(State(), v.read(State(), Path(p.replace("~", ""), owner(m, p))))
            ok = False
            if len(other) == 1:
                i1 = v.num(State(), v.read(State(), Path(other[0].replace("~", ""), owner(m, p))))
                fa, fb = strip_ver(val) / strip_ver(i0), strip_ver(finals[other[0]]) / strip_ver(i1)
                up = fa.single()
                ok = fa * fb == num(1) and up is not None and up[1] == 1 and dict(up[0]) != {} and temp_ratio(up[0], p)
            rep.ob("exchange", "ReplicaExchange.step:%s" % norm(p), ok, "momenta of the two replicas must be rescaled by reciprocal powers of new over old temperature (now %s)" % short(val), loc)
    rep.ob("probability", "ReplicaExchange.step:both outcomes", seen[True] and seen[False], "accepted %d, rejected %d paths" % (seen[True], seen[False]), loc)


def temp_ratio(mono, p):
    """factor = (temperature of the other replica / own temperature)^x with x > 0"""
    own = p.split(".beads")[0].split(".motion")[0].split(".nm")[0]
    d = dict(mono)
    up = [a for a, e in d.items() if e > 0]
    dn = [a for a, e in d.items() if e < 0]
    return len(up) == 1 and len(dn) == 1 and d[up[0]] == -d[dn[0]] and up[0].endswith("ensemble.temp") and dn[0] == own + ".ensemble.temp"


def strip_ver(p):
    """forget versions (used for quantities compared with their initial value: all atoms at version 0)"""
    if not isinstance(p, Poly):
        return p
    t = {}
    for mono, c in p.t.items():
        k = tuple(sorted((a[:-2] if a.endswith("@0") else a, e) for a, e in mono))
        t[k] = t.get(k, 0) + c
    return Poly(t)


def owner(m, p):
    for k, cn in (("ensemble", "Ensemble"), ("beads", "Beads"), ("nm", "NormalModes"), ("barostat", "Barostat"), ("cell", "Cell")):
        if tail(tail(p)[0])[1] == k:
            return m.prog.cls(cn)
    return None


def norm(p):
    """path without the element that identifies the replica"""
    i = p.find("]")
    return p[i + 2:] if p.startswith("self.syslist[") else p


# ---------------------------------------------------------------- Monte Carlo moves of atoms
def mc_common(m, rep, cn):
    c = m.prog.cls(cn)
    f = c.find("step")
    v = VN(m, c, inline=lambda g, s: isinstance(s, Path) and s.p == "self" or s is None, max_states=4000)
    sts = v.run(f)
    return c, f, v, sts


def frozen_on_reject(rep, cn, f, v, sts):
    n = {True: 0, False: 0}
    for st in sts:
        d = decision(st)
        if d is not None:
            n[d[0]] += 1
        if d is not None and d[0]:
            continue
        bad = [e for e in st.log if e.kind == "write" and (e.path.startswith(("self.beads.", "self.nm.", "self.cell.", "self.ensemble.", "self.forces.", "self.ealc")))]
        bad += [e for e in st.log if e.kind == "call" and e.path.startswith("self.forces.") and e.path.endswith("transfer_forces")]
        rep.ob("reject", "%s.step" % cn, not bad, "%s is changed although the move is not accepted" % (bad[0].path if bad else ""), f.loc(bad[0].node) if bad else f.loc())
    rep.ob("probability", "%s.step:both outcomes" % cn, n[True] and n[False], "accepted %d, rejected %d paths" % (n[True], n[False]), f.loc())


def keeps_energy(f, t):
    """a variable of the loop that always holds the current energy: it is only set to it, or to that of an accepted trial"""
    for x in re.findall(r"loop:(\w+)@", t):
        vals = [y.value for y in ast.walk(f.node) if isinstance(y, ast.Assign) and any(isinstance(q, ast.Name) and q.id == x for q in y.targets)]
        tr = {q.id for y in ast.walk(f.node) if isinstance(y, ast.Assign) and ast.unparse(y.value) == "self.dforces.pot" for q in y.targets if isinstance(q, ast.Name)}
        inside = [y for y in vals if isinstance(y, ast.Name) and y.id in tr or ast.unparse(y) == "self.dforces.pot"]
        if inside and all(y in inside or ast.unparse(y) == "self.forces.pot" for y in vals):
            return True
    return False


def beta_energy(v, st, pr):
    """minus log of the acceptance probability times kB T x beads, as {term: coefficient}"""
    ex = parse_log(pr)
    return ex


def atomswap(m, rep):
    cn = "AtomSwap"
    c, f, v, sts = mc_common(m, rep, cn)
    frozen_on_reject(rep, cn, f, v, sts)
    for st in sts:
        d = decision(st)
        if d is None:
            continue
        acc, pr, pos, _ = d
        pre = [e for e in st.log[:pos] if e.kind == "write"]
        ex = parse_log(pr)
        last = max([e.seq for e in pre if e.path.startswith(("self.dbeads.", "self.dcell."))], default=0)
        BETA = "const:Constants.kb^-1"
        news = [(n, e) for n, e in (ex or {}).items() if "self.dforces.pot@" in n]
        olds = [(n, e) for n, e in (ex or {}).items() if "self.forces.pot@" in n or keeps_energy(f, n)]
        ok = ex is not None and len(ex) == 2 and len(news) == 1 and len(olds) == 1 and news[0][1] == -1 and olds[0][1] == 1 and \
            all(BETA in n and "self.ensemble.temp@0^-1" in n and "self.beads.nbeads@0^-1" in n and n.count("*") == 3 for n in ex)
        rep.ob("probability", "AtomSwap.step", ok, "acceptance probability is %s, expected exp(-(E_new - E_old)/(kB T nbeads))" % short(pr, 300), f.loc())
        fresh = len(news) == 1 and ver(news[0][0].split("self.dforces.pot")[1].split("*")[0]) == last
        rep.ob("probability", "AtomSwap.step:energy of the trial", fresh, "the trial energy is read before the trial configuration is complete", f.loc())
        # the trial configuration
        w = [e for e in pre if e.path.startswith("self.dbeads.q")]
        ok, why = False, "the trial configuration is not a copy of the current one with two atoms exchanged"
        if len(w) >= 3 and w[-3].path == "self.dbeads.q":
            whole, a, b = w[-3:]
            ok = whole.val == atom("self.beads.q@0") and a.path != b.path and \
                str(a.val) == "self.beads.q%s@0" % b.path[len("self.dbeads.q"):] and str(b.val) == "self.beads.q%s@0" % a.path[len("self.dbeads.q"):]
            if not ok:
                why = "trial positions: %s; %s = %s; %s = %s" % (whole.val, a.path, a.val, b.path, b.val)
        rep.ob("trial", "AtomSwap.step:positions", ok, why, f.loc(w[-1].node) if w else f.loc())
        cw = [e for e in pre if e.path.startswith("self.dcell.")]
        rep.ob("trial", "AtomSwap.step:cell", bool(cw) and cw[-1].path == "self.dcell.h" and str(cw[-1].val).startswith("self.cell.h@"), "the trial energy is evaluated in an old cell", f.loc())
        if not acc:
            continue
        post = st.log[pos:]
        q = [e for e in post if e.kind == "write" and e.path.startswith("self.beads.q")]
        tr = [e for e in post if e.kind == "call" and e.path.endswith("transfer_forces")]
        fin = v.num(st, v.read(st, Path("self.dbeads.q", m.prog.cls("Beads"))))
        ok = len(q) == 1 and q[0].path == "self.beads.q" and q[0].val == fin
        rep.ob("exchange", "AtomSwap.step:positions", ok, "accepting the move does not install the trial positions", f.loc())
        ok = len(tr) == 1 and q and tr[0].seq > q[0].seq and tr[0].path == "self.forces.transfer_forces" and tr[0].extra[0] and isinstance(tr[0].extra[0][0], Path) and tr[0].extra[0][0].p == "self.dforces"
        rep.ob("exchange", "AtomSwap.step:forces", ok, "the forces of the trial configuration must be transferred to the real one after the positions", f.loc())
        booked(rep, v, st, post, ex, f, "AtomSwap")


def booked(rep, v, st, post, ex, f, cn):
    e = [x for x in post if x.kind == "write" and x.path == "self.ealc"]
    ok, why = False, "the energy change of an accepted move is not booked"
    if len(e) == 1:
        dlt = e[0].val - atom("self.ealc@0")
        # d(ealc) = log(p) * kB T nbeads
        # exponents are printed terms of log p = sum_i ex_i * term_i with term = beta * x
        beta = ("const:Constants.kb^-1", "self.beads.nbeads@0^-1", "self.ensemble.temp@0^-1")
        got = {str(Poly({mo: F(1)})): cf for mo, cf in dlt.t.items()}
        want = {}
        for t, x in (ex or {}).items():
            parts = split_top(t)
            if all(b in parts for b in beta):
                r = "*".join(p for p in parts if p not in beta)
                want[r] = want.get(r, 0) + x
            else:
                want[t] = x
        ok = bool(want) and got == want
        why = "ealc changes by %s, but the energy difference in the acceptance test is %s" % (short(dlt), want)
    rep.ob("booked", "%s.step:ealc" % cn, ok, why, f.loc(e[0].node) if e else f.loc())


def split_top(t):
    out, cur, d = [], "", 0
    for ch in t:
        d += ch in "([{"
        d -= ch in ")]}"
        if ch == "*" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def alchemy(m, rep):
    cn = "AlchemyMC"
    c, f, v, sts = mc_common(m, rep, cn)
    frozen_on_reject(rep, cn, f, v, sts)
    # the spring energy covers all modes (the first has none)
    for fn in c.methods.values():
        wk = {"omegak2", "omegak"} | {t.id for x in ast.walk(fn.node) if isinstance(x, ast.Assign) and "omegak" in ast.dump(x.value) for t in x.targets if isinstance(t, ast.Name)}
        for x in ast.walk(fn.node):
            if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Call) and getattr(x.iter.func, "id", "") == "range" and isinstance(x.target, ast.Name):
                own = [y for y in ast.walk(fn.node) if isinstance(y, ast.Subscript) and {z.id if isinstance(z, ast.Name) else getattr(z, "attr", "") for z in ast.walk(y.value)} & wk
                       and any(isinstance(z, ast.Name) and z.id == x.target.id for z in ast.walk(y.slice))]
                if own:
                    ar = x.iter.args
                    bad = len(ar) > 1 and isinstance(ar[0], ast.Constant) and ar[0].value > 1 or isinstance(ar[0 if len(ar) == 1 else 1], ast.BinOp) or len(ar) > 2
                    rep.ob("probability", "AlchemyMC:modes", not bad, "the spring energy leaves out normal modes: %s" % ast.unparse(x.iter), fn.loc(own[0]))
    for st in sts:
        d = decision(st)
        if d is None:
            continue
        acc, pr, pos, _ = d
        spring_change(rep, f, parse_log(pr))
        if not acc:
            continue
        post = st.log[pos:]
        fin = {}
        for e in post:
            if e.kind == "write":
                fin[e.path] = e.val
        for at in ("names", "m"):
            ws = sorted(p for p in fin if p.startswith("self.beads.%s[" % at))
            ok = len(ws) == 2 and str(fin[ws[0]]) == ws[1] + "@0" and str(fin[ws[1]]) == ws[0] + "@0"
            rep.ob("exchange", "AlchemyMC.step:%s" % at, ok, "%s of the two atoms are not exchanged: %s" % (at, [(w, short(fin[w])) for w in ws]), f.loc())
        ms = sorted(p for p in fin if p.startswith("self.beads.m["))
        ps = sorted(p for p in fin if p.startswith("self.beads.p["))
        ok = len(ms) == 2 and len(ps) == 2
        part = [p for p in ps if not p[len("self.beads.p["):].startswith((":", "...", "slice"))]
        rep.ob("exchange", "AlchemyMC.step:beads", not part, "only the momenta of some beads are rescaled: %s" % short(part, 120), f.loc())
        why = "the momenta of both atoms must be rescaled"
        if ok:
            for p in ps:
                own = [x for x in ms if index_atom(x) in p]
                if len(own) != 1:
                    ok, why = False, "momenta %s belong to neither exchanged atom" % p
                    continue
                new_m, old_m = fin[own[0]], atom(own[0] + "@0")
                r = fin[p] / atom(p + "@0")
                if not (r * r / new_m * old_m == num(1)):
                    ok, why = False, "momenta %s are scaled by %s, which does not keep the kinetic energy of the atom" % (p, short(r))
        rep.ob("exchange", "AlchemyMC.step:momenta", ok, why, f.loc())
        booked(rep, v, st, post, parse_log(pr), f, cn)


def spring_change(rep, f, ex):
    """log p = -(change of the spring energy)/(kB T nbeads): S_i m_i + S_j m_j before, S_i m_j + S_j m_i after"""
    got = {}
    for t, e in (ex or {}).items():
        ps = split_top(t)
        ms = [q for q in ps if q.startswith("self.beads.m[")]
        sp = [q for q in ps if "omegak2" in q]
        if len(ms) != 1 or len(sp) != 1:
            return
        im, isp = re.findall(r"\[([^\[\]]*)\]", ms[0]), re.findall(r"\[([^\[\]]*)\]$", sp[0])
        if not im or not isp:
            return
        got[(im[-1], isp[-1])] = e
        for cf, arg in re.findall(r"((?:\d+(?:/\d+)?\*)?)self\.nm\.omegak2\[var:\w+\]@\d+\*sum\{([^}]*)\}", sp[0]):
            c = F(cf[:-1]) if cf else F(1)
            if not cf and re.search(r"\d/\d+\*", sp[0]):
                continue
            rep.ob("probability", "AlchemyMC.step:spring", abs(c * e) == F(1, 2), "the spring energy is %s m w^2 q^2" % abs(c * e), f.loc())
            w = re.findall(r",([^,\]]*?):(\d+) \+ ([^,\]]*?)\]", arg)
            rep.ob("probability", "AlchemyMC.step:components", all(a != b or n == "3" for a, n, b in w), "the spring energy is not summed over three components", f.loc())
    if len(got) == 4:
        ok = all((e > 0) == (a == b) for (a, b), e in got.items()) and len({a for a, b in got}) == 2 and len({b for a, b in got}) == 2 and all(BETA3 <= set(split_top(t)) for t in ex)
        rep.ob("probability", "AlchemyMC.step", ok, "the acceptance probability is not exp(-(change of the spring energy)/(kB T nbeads))", f.loc())


BETA3 = {"const:Constants.kb^-1", "self.beads.nbeads@0^-1", "self.ensemble.temp@0^-1"}


def carried_over(rep, c, f, changing):
    """a number taken before the attempts and used in all of them does not change when an attempt is accepted"""
    for fn in {g.name: g for k in reversed(c.mro()) for g in k.methods.values()}.values():
        loops = [x for x in ast.walk(fn.node) if isinstance(x, (ast.For, ast.While)) and any(isinstance(y, ast.Attribute) and y.attr == "prng" for b in x.body for y in ast.walk(b))]
        for lp in loops:
            inside = {t.id for b in lp.body for y in ast.walk(b) if isinstance(y, (ast.Assign, ast.AugAssign, ast.For, ast.comprehension, ast.NamedExpr))
                      for t0 in (y.targets if isinstance(y, ast.Assign) else [y.target]) for t in ast.walk(t0) if isinstance(t, ast.Name)}
            used = {y.id for b in lp.body for y in ast.walk(b) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
            stale, why = {}, {}
            body = [x for x in ast.walk(fn.node) if isinstance(x, ast.Assign) and not any(x is y for y in ast.walk(lp))]
            for _ in range(3):
                for x in body:
                    if len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        src = [y for y in ast.walk(x.value) if isinstance(y, ast.Attribute) and y.attr in changing and isinstance(y.ctx, ast.Load)
                               or isinstance(y, ast.Name) and y.id in stale]
                        if src and not (isinstance(x.value, ast.Attribute) and x.value.attr not in SCALARS) and not isinstance(x.value, ast.Subscript) \
                                and not (isinstance(x.value, ast.Call) and getattr(x.value.func, "id", "") == "dstrip"):
                            stale[x.targets[0].id] = x
            for n in sorted(set(stale) & used - inside):
                rep.ob("probability", "%s:%s" % (fn.qual, n), False, "%s is taken before the attempts (%s) and used in all of them, although an accepted attempt changes it" % (n, ast.unparse(stale[n].value)), fn.loc(stale[n]))


SCALARS = ("pot", "econs", "lpens", "eens", "temp", "pext", "kin")


def index_atom(p):
    return p[p.index("[") + 1:-1]


def run(tier):
    m = model()
    rep = Report(PID, tier, "value numbering of the state before, during and after a move", "replica exchange, atom swap and alchemical moves")
    rep.rule("reject", "after a rejected move every quantity changed for the trial has its old value", 5)
    rep.rule("undecided", "nothing is changed when no move is attempted", 1)
    rep.rule("probability", "the acceptance probability uses energies of exactly the old and the trial state", 5)
    rep.rule("trial", "the trial configuration is built from the current one", 2)
    rep.rule("exchange", "an accepted move exchanges everything", 10)
    rep.rule("booked", "the change of the conserved quantity by an accepted move is booked", 3)
    rep.part("remd", remd, m, rep)
    rep.part("atomswap", atomswap, m, rep)
    for cn, ch in (("AtomSwap", ("pot", "pots", "kin", "econs")), ("AlchemyMC", ("kin", "econs", "m", "m3", "vspring")), ("ReplicaExchange", ("temp", "pext", "lpens", "econs", "eens"))):
        c = m.prog.cls(cn)
        rep.part("carried:" + cn, carried_over, rep, c, c.find("step"), ch)
    rep.part("alchemy", alchemy, m, rep)
    return rep.finish()


if __name__ == "__main__":
    main(run, PID)
