"""C18: what the user writes reaches the simulation in the units the user wrote it in, or is rejected."""
import ast, math, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.repo import load, AnalysisBroken, Cls, Func
from vlib.inputs import class_dict
from vlib.term import TE, show, mul, div, c, subterms, NONE, TRUE, FALSE

PID = "C18"
# --- independent reference data: CODATA 2018 / SI definitions ------------------------------------------------
HART = 4.3597447222071e-18      # J
BOHR = 5.29177210903e-11        # m
HBAR = 1.054571817e-34
ME = 9.1093837015e-31
KB = 1.380649e-23
EV = 1.602176634e-19
NA = 6.02214076e23
CC = 299792458.0
AUT = HBAR / HART
DEBYE = 1e-21 / CC
REF = {
    "energy": {"electronvolt": EV / HART, "j/mol": 1 / NA / HART, "cal/mol": 4.1868 / NA / HART, "kelvin": KB / HART},
    "temperature": {"kelvin": KB / HART},
    "time": {"second": 1 / AUT},
    "frequency": {"inversecm": 2 * math.pi * CC * 100 * AUT, "hertz*rad": AUT, "hertz": 2 * math.pi * AUT, "hz": 2 * math.pi * AUT, "thz": 2e12 * math.pi * AUT},
    "electric-field": {"v/ang": EV / HART * BOHR * 1e10},
    "electric-dipole": {"eang": 1e-10 / BOHR, "debye": DEBYE / (EV * BOHR)},
    "ms-momentum": {}, "momentum": {}, "undefined": {},
    "length": {"angstrom": 1e-10 / BOHR, "meter": 1 / BOHR, "radian": 1.0, "degree": math.pi / 180},
    "action": {"joule*second": 1 / HBAR},
    "volume": {"angstrom3": (1e-10 / BOHR) ** 3},
    "velocity": {"m/s": AUT / BOHR},
    "mass": {"dalton": 1.66053906660e-27 / ME, "electronmass": 1.0},
    "pressure": {"bar": 1e5 * BOHR ** 3 / HART, "atmosphere": 101325 * BOHR ** 3 / HART, "pascal": BOHR ** 3 / HART, "ev/ang3": EV / HART * (BOHR * 1e10) ** 3},
    "density": {"g/cm3": 1000 * BOHR ** 3 / ME},
    "force": {"newton": BOHR / HART, "ev/ang": EV / HART * BOHR * 1e10},
    "hessian": {"ev/ang^2": EV / HART * (BOHR * 1e10) ** 2},
}
TOL = 1e-5
PTOL = 1e-4      # the table keeps the older CODATA value of the atomic unit of pressure
PREFIX = {"": 0, "yotta": 24, "zetta": 21, "exa": 18, "peta": 15, "tera": 12, "giga": 9, "mega": 6, "kilo": 3, "milli": -3, "micro": -6, "nano": -9,
          "pico": -12, "femto": -15, "atto": -18, "zepto": -21, "yocto": -24}
# standard atomic weights / isotope masses (IUPAC), u
MASS = dict(H=1.008, He=4.0026, Li=6.941, Be=9.01218, B=10.811, C=12.011, N=14.007, O=15.999, F=18.9984, Ne=20.1797, Na=22.98977, Mg=24.305,
            Al=26.98154, Si=28.0855, P=30.97376, S=32.065, Cl=35.453, Ar=39.948, K=39.0983, Ca=40.078, Sc=44.95591, Ti=47.867, V=50.9415, Cr=51.9961,
            Mn=54.93804, Fe=55.845, Co=58.93319, Ni=58.6934, Cu=63.546, Zn=65.38, Ga=69.723, Ge=72.63, As=74.9216, Se=78.97, Br=79.904, Kr=83.798,
            Rb=85.4678, Sr=87.62, Y=88.90584, Zr=91.224, Nb=92.90637, Mo=95.95, Tc=98, Ru=101.07, Rh=102.9055, Pd=106.42, Ag=107.8682, Cd=112.414,
            In=114.818, Sn=118.71, Sb=121.76, Te=127.6, I=126.90447, Xe=131.293, Cs=132.90545, Ba=137.327, La=138.90547, Ce=140.116, Pr=140.90766,
            Nd=144.242, Pm=145, Sm=150.36, Eu=151.964, Gd=157.25, Tb=158.92535, Dy=162.5, Ho=164.93033, Er=167.259, Tm=168.93422, Yb=173.045, Lu=174.9668,
            Hf=178.49, Ta=180.94788, W=183.84, Re=186.207, Os=190.23, Ir=192.217, Pt=195.084, Au=196.96657, Hg=200.592, Tl=204.38, Pb=207.2, Bi=208.9804,
            Po=209, At=210, Rn=222, Fr=223, Ra=226, Ac=227, Th=232.0377, Pa=231.03588, U=238.02891, Np=237, Pu=244, Am=243, Cm=247, Bk=247, Cf=251, Es=252,
            Fm=257, Md=258, No=259)
MASS.update({"D": 2.014102, "T": 3.016049, "C13": 13.003355, "C14": 14.003242, "O17": 16.999132, "O18": 17.999160, "Cl37": 36.965903, "Br81": 80.916290,
             "H2": 2.01588, "X": 1 / 1822.888486, "L": 1 / 1822.888486, "Z": 1.382943})
# what each physical quantity of the input is measured in
DIM = {"timestep": "time", "time": "time", "tau": "time", "idtau": "time", "intau": "time", "apat": "time", "dmd_dt": "time", "tottime": "time", "peak": "time",
       "temperature": "temperature", "pile_centroid_t": "temperature", "t_start": ("energy", "temperature"), "t_end": ("energy", "temperature"),
       "pressure": "pressure", "stress": "pressure", "p_start": "pressure", "p_end": "pressure", "h0": "length", "q": "length", "m": "mass", "p": "momentum",
       "A": "frequency", "freq": "frequency", "dmd_freq": "frequency", "omega_c": "frequency", "amp": "electric-field", "offset": "energy", "eens": "energy",
       "ethermo": "energy", "active_thresh": "energy", "baseline_uncertainty": "energy", "energy_shift": "energy", "max_e": "energy", "v_reference": "energy",
       "old_pot": "energy", "full_pots": "energy", "old_force": "force", "full_force": "force", "old_pos": "length", "old_coord": "length", "x_reference": "length",
       "hessian": "hessian", "s": "ms-momentum", "biggest_step": "length", "screen": "length", "a0": "length", "values": "length",
       "diffusion_barrier_al": "energy", "diffusion_barrier_mg": "energy", "diffusion_barrier_si": "energy", "diffusion_prefactor_al": "frequency",
       "diffusion_prefactor_mg": "frequency", "diffusion_prefactor_si": "frequency"}
DIMLIST = {"tolerances": {"energy": "energy", "force": "force", "position": "length"}, "ls_options": {"tolerance": "energy", "step": "length"}}
# units of the printed quantities
PROP = {"time": "time", "temperature": "temperature", "ensemble_temperature": "temperature", "density": "density", "volume": "volume", "cell_h": "length",
        "r_gyration": "length", "atom_x": "length", "atom_x_path": "length", "atom_f_path": "force", "positions": "length", "x_centroid": "length",
        "x_centroid_even": "length", "x_centroid_odd": "length", "forcemod": "force", "atom_f": "force", "forces": "force", "forces_spring": "force",
        "forces_sc": "force", "f_centroid": "force", "forces_component": "force", "forces_component_raw": "force", "Eforces": "force",
        "atom_v": "velocity", "vcom": "velocity", "velocities": "velocity", "v_centroid": "velocity", "v_centroid_even": "velocity", "v_centroid_odd": "velocity",
        "atom_p": "momentum", "momenta": "momentum", "p_centroid": "momentum", "Efield": "electric-field", "dipole": "electric-dipole"}
for k in ("conserved interaction_energy ensemble_bias potential bead_potentials potential_opsc potential_tdsc pot_component pot_component_raw spring kinetic_md "
          "kinetic_cv kinetic_td kinetic_prsc kinetic_tdsc kinetic_opsc kinetic_tens kinetic_ij virial_fq ti_pot kinetic_od").split():
    PROP[k] = "energy"
for k in "ensemble_pressure stress_md pressure_md kstress_md virial_md stress_cv pressure_tdsc vir_tdsc kstress_tdsc pressure_cv kstress_cv virial_cv".split():
    PROP[k] = "pressure"


# --- folding of the module-level tables ---------------------------------------------------------------------
class NoFold(Exception):
    pass


class Fold:
    """constant folding of module-level assignments (literals, arithmetic, dictionaries, loops over folded tables)"""
    ASE = {"Bohr": BOHR * 1e10, "Hartree": HART / EV, "eV": 1.0, "Angstrom": 1.0, "kB": KB / EV}

    def __init__(self, prog, mod):
        self.prog, self.mod, self.env = prog, mod, {}
        self.env["ase"] = object()
        self.env.update(self.ASE)
        self.block(mod.tree.body)

    def block(self, body):
        for s in body:
            try:
                self.stmt(s)
            except NoFold:
                for t in ast.walk(s):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.env.pop(t.id, None)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.put(t, v)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.put(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            ld = ast.parse(ast.unparse(s.target), mode="eval").body
            self.put(s.target, self.op(s.op, self.ev(ld), self.ev(s.value)))
        elif isinstance(s, ast.For):
            for v in list(self.ev(s.iter)):
                self.put(s.target, v)
                for x in s.body:
                    self.stmt(x)
        elif isinstance(s, ast.If):
            t = self.ev(s.test)
            self.block(s.body if t else s.orelse)
        elif isinstance(s, ast.Try):
            pass
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "update":
            d = self.ev(s.value.func.value)
            for a in s.value.args:
                d.update(self.ev(a))
            for k in s.value.keywords:
                d[k.arg] = self.ev(k.value)

    def put(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, ast.Subscript):
            self.ev(t.value)[self.ev(t.slice)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, y in zip(t.elts, v):
                self.put(x, y)

    def op(self, o, a, b):
        f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b, ast.BitOr: lambda: {**a, **b}}.get(type(o))
        if f is None:
            raise NoFold()
        try:
            return f()
        except Exception:
            raise NoFold()

    def ev(self, e, env=None):
        env = self.env if env is None else env
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.env:
                return self.env[e.id]
            raise NoFold()
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d.update(self.ev(v, env))
                else:
                    d[self.ev(k, env)] = self.ev(v, env)
            return d
        if isinstance(e, (ast.Tuple, ast.List)):
            return [self.ev(x, env) for x in e.elts]
        if isinstance(e, ast.BinOp):
            return self.op(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -self.ev(e.operand, env)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            r = {ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b, ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}.get(type(e.ops[0]))
            if r:
                return r()
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "math" or isinstance(e.value, ast.Name) and e.value.id == "np":
                if e.attr == "pi":
                    return math.pi
            r = self.prog.resolve_expr(self.mod, e.value)
            if isinstance(r, Cls):
                a = r.find_assign(e.attr)
                if a is not None:
                    x = a[1] if isinstance(a, tuple) else a
                    return self.cls_value(r, e.attr)
            raise NoFold()
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            if isinstance(e.slice, ast.Slice):
                return b[slice(*[None if x is None else self.ev(x, env) for x in (e.slice.lower, e.slice.upper, e.slice.step)])]
            try:
                return b[self.ev(e.slice, env)]
            except Exception:
                raise NoFold()
        if isinstance(e, ast.Call):
            f = ast.unparse(e.func)
            if f == "re.compile":
                return ("re", self.ev(e.args[0], env))
            if f == "dict" and not e.args:
                return {k.arg: self.ev(k.value, env) for k in e.keywords}
            if isinstance(e.func, ast.Attribute) and e.func.attr == "join" and e.args:
                return self.ev(e.func.value, env).join(self.ev(e.args[0], env))
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "items", "values") and not e.args:
                return list(getattr(self.ev(e.func.value, env), e.func.attr)())
            if f in ("list", "sorted", "tuple"):
                return list(self.ev(e.args[0], env))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].target, ast.Name):
            return [self.ev(e.elt, {**env, e.generators[0].target.id: x}) for x in self.ev(e.generators[0].iter, env)]
        raise NoFold()

    def cls_value(self, k, name):
        env = {}
        for st in k.node.body:
            if isinstance(st, ast.Assign):
                try:
                    v = self.ev(st.value, env)
                except NoFold:
                    continue
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = v
                    elif isinstance(t, ast.Subscript):
                        self.ev(t.value, env)[self.ev(t.slice, env)] = v
        if name in env:
            return env[name]
        raise NoFold()


def close(a, b, tol):
    return isinstance(a, (int, float)) and abs(a - b) <= tol * abs(b)


def keepunits(f):
    return f.name in ("unit_to_internal", "unit_to_user")


def conv(te_paths):
    pass


def run(tier):
    R = Report(PID, tier, technique="constant folding of the unit tables against independent reference data; path-wise term evaluation of the conversion, parsing and checking code",
               explanation="Tables are folded from the source and compared entry by entry with reference constants; the functions that convert, parse, validate and print "
                           "quantities are evaluated path by path over uninterpreted terms and the terms compared with the required ones.")
    prog = load()
    U = prog.module("ipi.utils.units")
    F = Fold(prog, U)
    loc = "ipi/utils/units.py"
    R.rule("unit-table", "every unit the tables offer converts with the factor given by the SI/CODATA definition", 1)
    um = F.env.get("UnitMap")
    if not isinstance(um, dict):
        raise AnalysisBroken("the unit table cannot be folded")
    lineof = {}
    for x in ast.walk(U.tree):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            lineof.setdefault(x.value, x.lineno)
    for fam, tab in REF.items():
        got = um.get(fam)
        if got is None:
            R.fail("unit-table", fam, "the unit family %r is gone" % fam, loc)
            continue
        want = dict({"": 1.0, "automatic": 1.0, "atomic_unit": 1.0}, **tab)
        if "ase" in got:
            L, E, t = 1e-10 / BOHR, EV / HART, (1e-10 / BOHR) * (1822.8885 / (EV / HART)) ** 0.5
            v = L / t
            want["ase"] = {"undefined": 1.0, "energy": E, "length": L, "temperature": KB / HART, "time": t, "velocity": v, "force": E / L, "volume": L ** 3, "frequency": 1 / t,
                           "action": E * t, "mass": E / v ** 2, "pressure": E / L ** 3, "momentum": E / v, "density": E / v ** 2 / L ** 3, "hessian": E / L ** 2,
                           "electric-dipole": L, "electric-field": E / L}.get(fam, got["ase"])
        for u, w in want.items():
            R.ob("unit-table", "%s: 1 %s = %.9g" % (fam, u or "''", w), u in got and close(got[u], w, PTOL if fam == "pressure" else TOL),
                 "%s unit %r: the table says %r, the definition gives %.9g" % (fam, u, got.get(u), w), "%s:%s" % (loc, lineof.get(u, 0)))
        for u in got:
            if u not in want and u.lower() in want:
                R.fail("unit-table", "%s: %s" % (fam, u), "unit %r differs from a known one only in case" % u, loc)
    R.rule("prefixes", "every SI prefix multiplies by its power of ten, and prefix+unit is split into exactly these two parts", 1)
    up = F.env.get("UnitPrefix")
    if not isinstance(up, dict):
        raise AnalysisBroken("the prefix table cannot be folded")
    for p, e in PREFIX.items():
        R.ob("prefixes", "prefix %r = 1e%d" % (p, e), p in up and close(up[p], 10.0 ** e, 1e-12), "prefix %r is %r instead of 1e%d" % (p, up.get(p), e), "%s:%s" % (loc, lineof.get(p, 0)))
    rx = F.env.get("UnitPrefixRE")
    if isinstance(rx, tuple) and rx[0] == "re":
        pat = re.compile(rx[1])
        for fam, tab in um.items():
            bad = []
            for u in tab:
                for p in PREFIX:
                    m = pat.match(p + u) if p + u else None
                    if p + u and (m is None or len(m.groups()) < 2 or (m.group(1), m.group(2)) != (p, u)):
                        bad.append(p + u)
            R.ob("prefixes", "splitting the units of " + fam, not bad, "the pattern %r splits %s into the wrong prefix and unit" % (rx[1], bad[:3]), loc)
    else:
        raise AnalysisBroken("the prefix pattern cannot be folded")
    R.rule("masses", "the default mass of every element and isotope is its atomic mass", 1)
    E = prog.cls("Elements")
    try:
        ml = F.cls_value(E, "mass_list")
    except NoFold:
        raise AnalysisBroken("the table of masses cannot be folded")
    for el, w in MASS.items():
        R.ob("masses", el, el in ml and close(ml[el], w, 6e-4), "the mass of %s is %r, should be %g" % (el, ml.get(el), w), "%s:%s" % (loc, lineof.get(el, 0)))
    R.ob("masses", "dalton", close(F.cls_value(prog.cls("Constants"), "amu"), 1822.888486, 1e-6), "the atomic mass unit is not 1822.8885 electron masses", loc)
    for cn, w in (("kb", 1), ("hbar", 1), ("e", 1)):
        R.ob("masses", "Constants." + cn, F.cls_value(prog.cls("Constants"), cn) == w, "%s is not 1 in atomic units" % cn, loc)
    # ---- conversion functions
    R.rule("conversion", "values are multiplied by the factor of exactly the unit that was asked for, and undefined units raise", 1)
    amu = lambda f: False
    te = TE(prog)
    fi = U.functions.get("unit_to_internal")
    fu = U.functions.get("unit_to_user")
    if fi is None or fu is None:
        raise AnalysisBroken("unit conversion functions have vanished")
    fam, unit, number = ("arg", "family"), ("arg", "unit"), ("arg", "number")
    args = [a.arg for a in fi.node.args.args]
    fam, unit, number = [("arg", a) for a in args[:3]]
    UM, UP, RX = ("glob", U.name, "UnitMap"), ("glob", U.name, "UnitPrefix"), ("glob", U.name, "UnitPrefixRE")
    nret = 0
    for p in te.run(fi):
        if p.exit == "raise":
            continue
        g = dict(p.guards)
        isnum = g.get(te.cmp("==", fam, c("number")))
        loc1 = fi.loc(fi.node)
        if isnum is True:
            R.ob("conversion", "plain numbers are not converted", p.ret == number, "unit_to_internal returns %s for a dimensionless number" % show(p.ret or NONE), loc1)
            continue
        nret += 1
        if g.get(te.cmp("==", unit, c(""))) is True:
            pre, base = c(""), c("")
        else:
            m = ("call", ("attr", RX, "match"), (unit,), ())
            pre = base = None
            cand = [t for t in subterms(p.ret) if t[0] == "ix" and t[1] == UP] + [t for t in subterms(p.ret) if t[0] == "ix" and t[1] == ("ix", UM, fam)]
            ok = False
            for mt in (m,):
                for pre in (("call", ("attr", mt, "group"), (c(1),), ()), ("ix", ("call", ("attr", mt, "groups"), (), ()), c(0)), ("ix", mt, c(1)),
                            ("ix", ("call", ("attr", mt, "group"), (c(1), c(2)), ()), c(0))):
                    for base in (("call", ("attr", mt, "group"), (c(2),), ()), ("ix", ("call", ("attr", mt, "groups"), (), ()), c(1)), ("ix", mt, c(2)),
                                 ("ix", ("call", ("attr", mt, "group"), (c(1), c(2)), ()), c(1))):
                        low = ("call", ("attr", base, "lower"), (), ())
                        if p.ret == mul(number, mul(("ix", ("ix", UM, fam), low), ("ix", UP, pre))):
                            ok = True
            R.ob("conversion", "unit_to_internal", ok, "unit_to_internal returns %s, not number * factor of the unit * prefix" % show(p.ret or NONE), loc1)
            continue
        e1 = mul(number, mul(("ix", ("ix", UM, fam), base), ("ix", UP, pre)))
        ok = p.ret in (e1, number, mul(number, ("ix", ("ix", UM, fam), base)))
        R.ob("conversion", "unit_to_internal with no unit", ok, "unit_to_internal returns %s when no unit is given" % show(p.ret or NONE), loc1)
    if not nret:
        R.fail("conversion", "unit_to_internal", "unit_to_internal never converts", fi.loc(fi.node))
    raises = [p for p in te.run(fi) if p.exit == "raise"]
    R.ob("conversion", "unknown unit kind", any(dict(p.guards).get(("cmp", "in", fam, UM)) is False for p in raises),
         "an unknown dimension is not rejected", fi.loc(fi.node))
    R.ob("conversion", "unknown unit", any(g[0] == "cmp" and g[1] == "in" and g[3] == ("ix", UM, fam) and b is False for p in raises for g, b in p.guards)
         or all(("ix", UM, fam) in [x[1] for x in subterms(p.ret) if x[0] == "ix"] for p in te.run(fi) if p.exit == "return" and dict(p.guards).get(te.cmp("==", fam, c("number"))) is not True),
         "a unit that is not in the table is not rejected", fi.loc(fi.node))
    te = TE(prog, keep=keepunits)
    a = [("arg", x.arg) for x in fu.node.args.args]
    FI = ("fn", U.name + ":unit_to_internal")
    for p in te.run(fu):
        if p.exit == "raise":
            continue
        good = [div(a[2], ("call", FI, tuple(a[:2]), ())), div(a[2], ("call", FI, tuple(a[:2]) + (c(1),), ())),
                div(a[2], ("call", FI, (), tuple(sorted([(args[0], a[0]), (args[1], a[1])]))))]
        R.ob("conversion", "unit_to_user", p.ret in good, "unit_to_user returns %s, not the inverse of unit_to_internal" % show(p.ret or NONE), fu.loc(fu.node))
    # ---- input values
    FUt = ("fn", U.name + ":unit_to_user")
    IV = prog.cls("InputValue")

    def U2(f, dim, unit, x=None):
        """possible terms of x converted with f(dim, unit)"""
        out = []
        for t in (("call", f, (dim, unit, c(1)), ()), ("call", f, (dim, unit), ())):
            out += [mul(x, t)] if x is not None else [t]
        if x is not None:
            out.append(("call", f, (dim, unit, x), ()))
        return out
    # a conversion a / unit_to_internal or * unit_to_user are the same thing
    dim = ("attr", ("arg", "self"), "_dimension")
    val = ("attr", ("arg", "self"), "value")
    ufetch = ("call", ("attr", ("attr", ("arg", "self"), "units"), "fetch"), (), ())
    uval = ("attr", ("attr", ("arg", "self"), "units"), "value")
    und = te.cmp("==", dim, c("undefined"))
    R.rule("input-units", "a value of the input is multiplied by the factor of its own units exactly once when it is handed to the simulation", 1)
    for p in TE(prog, keep=keepunits, maxdepth=8).run(IV.find("fetch"), IV):
        if p.exit == "raise":
            continue
        g = dict(p.guards)
        if g.get(und) is True:
            ok = p.ret in [val] + U2(FI, dim, ufetch, val)
        else:
            ok = p.ret in U2(FI, dim, ufetch, val) + U2(FI, dim, uval, val)
        R.ob("input-units", "InputValue.fetch" + (" (dimensionless)" if g.get(und) else ""), ok,
             "InputValue.fetch returns %s, not the value converted from its units" % show(p.ret or NONE), IV.find("fetch").loc(IV.find("fetch").node))
    sf = IV.find("store")
    sa = [x.arg for x in sf.node.args.args]
    v, u = ("arg", sa[1]), ("arg", sa[2]) if len(sa) > 2 else c("")
    for p in TE(prog, keep=keepunits, maxdepth=8).run(sf, IV):
        if p.exit == "raise":
            continue
        got = p.heap.get(val)
        g = dict(p.guards)
        stored = [l for l in p.log if l[0] == "call" and l[1][1] == ("attr", ("attr", ("arg", "self"), "units"), "store")]
        nou = g.get(te.cmp("==", u, c(""))) is True
        ok = got in ([v] if g.get(und) is True else []) + U2(FUt, dim, u, v) + ([v] + U2(FUt, dim, c(""), v) if nou else []) + \
            ([div(v, t) for t in U2(FI, dim, u)])
        R.ob("input-units", "InputValue.store" + (" (dimensionless)" if g.get(und) else "") + ("" if nou else " (units given)"), ok,
             "InputValue.store keeps %s, which fetch does not turn back into the value" % show(got or NONE), sf.loc(sf.node))
        if not nou:
            R.ob("input-units", "InputValue.store keeps the units", bool(stored) and stored[-1][1][2] == (u,),
                 "the units a value is stored in are not kept with it", sf.loc(sf.node))
    # ---- options, required values
    R.rule("validated", "a value that is not among its allowed options, or a missing required value, raises before it is used", 1)
    valid = ("attr", ("arg", "self"), "_valid")
    inv = ("cmp", "in", val, valid)
    for cn in ("InputAttribute", "InputValue", "InputArray"):
        k = prog.cls(cn)
        f = k.find("fetch")
        for p in TE(prog, keep=keepunits, maxdepth=9).run(f, k):
            if p.exit == "raise":
                continue
            g = dict(p.guards)
            R.ob("validated", cn + ".fetch checks the options", g.get(("cmp", "is", valid, NONE)) is True or g.get(inv) is True,
                 "%s.fetch returns a value on a path that never compared it with the allowed options" % cn, f.loc(f.node))
            ex, op = g.get(("attr", ("arg", "self"), "_explicit")), g.get(("attr", ("arg", "self"), "_optional"))
            R.ob("validated", cn + ".fetch refuses missing values", ex is True or op is True, "%s.fetch returns a required value that was never given" % cn, f.loc(f.node))
    # ---- parse
    R.rule("parse-complete", "every attribute and tag of the input is parsed into its place, or the input is rejected by name", 1)
    I = prog.cls("Input")
    f = I.find("parse")
    xml = ("arg", "xml")
    aitems, fitems = ("attr", xml, "attribs"), ("attr", xml, "fields")
    self_ = ("arg", "self")
    d = ("attr", self_, "__dict__")

    def entries(src):
        it = ("elem", src)
        return [(("key", src), it), (("ix", it, c(0)), ("ix", it, c(1))), (it, ("ix", src, it))]

    def member(name):
        return [("ix", d, name), ("call", ("ext", "getattr"), (self_, name), ())]
    nt = {"attribs": 0, "fields": 0}
    paths = TE(prog, maxdepth=6).run(f, I)
    for p in paths:
        if p.exit == "raise":
            continue
        g = dict(p.guards)
        if g.get(te.cmp("is", xml, NONE)) is True or any(t[0] == "exc" for t in g):
            continue
        calls = [l[1] for l in p.log if l[0] == "call"]
        for what, src, own in (("attribs", aitems, ("attr", self_, "attribs")), ("fields", fitems, ("attr", self_, "instancefields"))):
            ok = False
            for name, v in entries(src):
                if g.get(te.cmp("==", name, c("_text"))) is True:
                    ok = ok or what == "attribs" or any(l[0] == "set" and l[1] == ("attr", self_, "_text") and l[2] == v for l in p.log)
                for mb in member(name):
                    for cl in calls:
                        if cl[1] == ("attr", mb, "parse") and v in list(cl[2]) + [x for _, x in cl[3]]:
                            ok = True
                for cl in calls:
                    if isinstance(cl[1], tuple) and cl[1][0] == "attr" and cl[1][2] == "parse" and cl[1][1][0] in ("call", "new", "obj") and v in list(cl[2]) + [x for _, x in cl[3]]:
                        # dynamic element: must also be kept
                        if any(x[1][0] == "attr" and x[1][2] in ("append", "extend", "insert") and any(cl[1][1] in list(subterms(y)) for y in x[2]) for x in calls):
                            ok = True
            nt[what] += 1
            R.ob("parse-complete", "%s of a tag" % what, ok, "Input.parse accepts one of the %s of the input without storing it (tests passed: %s)"
                 % (what, "; ".join("%s=%s" % x for x in p.g().items() if "xml" in x[0])), f.loc(f.node))
            need = None
            for t, b in g.items():
                if t[0] == "attr" and t[2] in ("_explicit", "_optional") and b is True and any(y[0] == "elem" and y[1] == own or y[0] == "key" and y[1] == own for y in subterms(t)):
                    need = True
            R.ob("parse-complete", "required %s" % what, need is True, "Input.parse returns without having checked that every required member of self.%s was given or has a default" % own[2], f.loc(f.node))
    if not nt["attribs"]:
        R.fail("parse-complete", "Input.parse", "no path of Input.parse reads the attributes and tags", f.loc(f.node))
    R.rule("defaults-reset", "parsing starts from the defaults, so nothing of an earlier parse survives", 1)
    for p in paths:
        if p.exit == "raise":
            continue
        sd = [l[1] for l in p.log if l[0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "set_default"]
        for own in ("attribs", "instancefields"):
            ok = any(y[0] in ("elem", "key", "iv") and ("attr", self_, own) in list(subterms(y)) for t in sd for y in subterms(t))
            R.ob("defaults-reset", own, ok, "Input.parse does not reset self.%s to the defaults" % own, f.loc(f.node))
    # ---- readers
    R.rule("readers", "text is converted to the declared type, and text that is not of that type raises", 1)
    X = prog.module("ipi.utils.io.inputs.io_xml")
    tab = X.assigns.get("readtype_funcs")
    if not isinstance(tab, ast.Dict):
        raise AnalysisBroken("the table of readers has vanished")
    want = {"float": "float", "int": "int", "bool": "bool", "str": "str", "tuple": "tuple", "dict": "dict"}
    for k, v in zip(tab.keys, tab.values):
        n = ast.unparse(k)
        if n not in want:
            continue
        fn = X.functions.get(v.id) if isinstance(v, ast.Name) else None
        l = "%s:%d" % (X.path, k.lineno)
        if n == "str":
            R.ob("readers", n, ast.unparse(v) in ("str.strip", "str") or fn is not None, "strings are read with %s" % ast.unparse(v), l)
            continue
        if fn is None:
            R.ob("readers", n, ast.unparse(v) == n and n != "bool", "%s values are read with %s" % (n, ast.unparse(v)), l)
            continue
        data = ("arg", fn.node.args.args[0].arg)
        strip = lambda t: {x[1][1] if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("strip", "upper", "lower") else x for x in subterms(t)}
        ps = [p for p in TE(prog).run(fn)]
        for p in ps:
            if p.exit == "raise":
                continue
            if n == "bool":
                ok = False
                if p.ret in (TRUE, FALSE):
                    w = "true" if p.ret == TRUE else "false"
                    ok = any(b is True and t[0] == "cmp" and t[1] == "==" and any(x[0] == "c" and isinstance(x[1], str) and x[1].lower() == w for x in t[2:])
                             and data in list(subterms(t)) or b is True and t[0] == "cmp" and t[1] == "in" and t[3][0] == "tup"
                             and all(isinstance(x[1], str) and x[1].lower() in ((w, "1", "yes", "on") if w == "true" else (w, "0", "no", "off")) for x in t[3][2]) for t, b in p.guards)
                elif p.ret is not None and p.ret[0] == "cmp" and p.ret[1] == "==":
                    ok = any(x == c("TRUE") or x == c("true") for x in p.ret[2:]) and any(b is True and t[0] == "cmp" and t[1] == "in" for t, b in p.guards)
                R.ob("readers", "bool: " + show(p.ret or NONE), ok, "read_bool returns %s without having found the matching word" % show(p.ret or NONE), fn.loc(fn.node))
            elif n in ("float", "int"):
                st = lambda t: t[1][1] if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "strip" and not t[2] else t
                ok = p.ret is not None and p.ret[0] == "call" and p.ret[1] == ("ext", n) and len(p.ret[2]) == 1 and st(p.ret[2][0]) == data and not any(t[0] == "exc" for t, _ in p.guards)
                R.ob("readers", n, ok, "%s values are read as %s" % (n, show(p.ret or NONE)), fn.loc(fn.node))
            else:
                R.ob("readers", n, p.ret is not None and p.ret != NONE, "the reader of %s returns nothing" % n, fn.loc(fn.node))
    R.ob("readers", "table", {ast.unparse(k) for k in tab.keys} >= set(want), "a type lost its reader", X.path)
    rl = X.functions.get("read_list")
    if rl is not None:
        da = [x.arg for x in rl.node.args.args]
        begin = ("call", ("attr", ("arg", da[0]), "index"), (("ix", ("arg", da[1]), c(0)),), ())
        ends = [("call", ("attr", ("arg", da[0]), n), (("ix", ("arg", da[1]), c(1)),), ()) for n in ("index", "rindex")]
        ok = False
        for p in TE(prog).run(rl):
            for l in p.log:
                if l[0] == "call" and l[1][1][0] == "attr" and l[1][1][2] == "split" and l[1][2] == (("arg", da[2]),):
                    x = l[1][1][1]
                    ok = ok or any(x == ("ix", ("arg", da[0]), ("slice", te.bin(ast.Add(), begin, c(1)), e, NONE)) for e in ends)
        R.ob("readers", "read_list", ok, "read_list does not split exactly the text between the delimiters", rl.loc(rl.node))
    ra = X.functions.get("read_array")
    if ra is not None:
        dt, da = [("arg", x.arg) for x in ra.node.args.args[:2]]
        ok = False
        for p in TE(prog, keep=lambda f: f.name in ("read_list", "read_type")).run(ra):
            rt = [l[1] for l in p.log if l[0] == "call" and l[1][1] == ("fn", X.name + ":read_type")]
            ok = p.exit == "return" and bool(rt) and all(t[2][0] == dt for t in rt)
        R.ob("readers", "read_array", ok, "read_array does not convert every element to the declared type", ra.loc(ra.node))
    rt = X.functions.get("read_type")
    if rt is not None:
        ty, da = [("arg", x.arg) for x in rt.node.args.args[:2]]
        T = ("glob", X.name, "readtype_funcs")
        for p in TE(prog).run(rt):
            if p.exit == "raise":
                continue
            core = ("call", ("ix", T, ty), (da,), ())
            R.ob("readers", "read_type", p.ret in (core, ("call", ty, (core,), ())), "read_type returns %s" % show(p.ret or NONE), rt.loc(rt.node))
    # ---- declared dimensions
    R.rule("dimensions", "every declared dimension exists, and each physical quantity of the input is declared with its own dimension", 1)
    fams = set(um) | {"number"}
    used = set()
    for k in prog.subclasses(I):
        for nm in ("fields", "attribs", "dynamic"):
            for fld, (node, k0) in class_dict(prog, k, nm).items():
                if (k0, nm, fld) in used or not (isinstance(node, ast.Tuple) and len(node.elts) > 1):
                    continue
                used.add((k0, nm, fld))
                kv = node.elts[1]
                dd = {}
                if isinstance(kv, ast.Dict):
                    dd = {a.value: b for a, b in zip(kv.keys, kv.values) if isinstance(a, ast.Constant)}
                elif isinstance(kv, ast.Call) and ast.unparse(kv.func) == "dict":
                    dd = {a.arg: a.value for a in kv.keywords}
                b = dd.get("dimension")
                l = "%s:%d" % (k0.module.path, node.lineno)
                want = DIM.get(fld)
                if isinstance(b, ast.Constant) and isinstance(b.value, str):
                    R.ob("dimensions", "%s.%s: %s exists" % (k0.name, fld, b.value), b.value in fams, "the dimension %r of %s.%s does not exist" % (b.value, k0.name, fld), l)
                    if want and k0.name != "InputForceComponent":
                        R.ob("dimensions", "%s.%s" % (k0.name, fld), b.value in (want if isinstance(want, tuple) else (want,)),
                             "%s.%s is declared with dimension %r but is a quantity of %s" % (k0.name, fld, b.value, want), l)
                elif isinstance(b, (ast.List, ast.Tuple)):
                    ops = dd.get("options")
                    ds = [x.value if isinstance(x, ast.Constant) else None for x in b.elts]
                    R.ob("dimensions", "%s.%s: list" % (k0.name, fld), all(x in fams for x in ds), "%s.%s uses a dimension that does not exist" % (k0.name, fld), l)
                    if isinstance(ops, (ast.List, ast.Tuple)):
                        for o, x in zip(ops.elts, ds):
                            w = DIMLIST.get(fld, {}).get(getattr(o, "value", None))
                            if w:
                                R.ob("dimensions", "%s.%s.%s" % (k0.name, fld, o.value), x == w, "%s.%s.%s is declared with dimension %r but is a %s" % (k0.name, fld, o.value, x, w), l)
                elif b is None and fld in ("timestep", "temperature", "pressure", "p_start", "t_start", "offset", "pile_centroid_t") \
                        and isinstance(node.elts[0], ast.Name) and node.elts[0].id in ("InputValue", "InputArray"):
                    R.fail("dimensions", "%s.%s" % (k0.name, fld), "%s.%s has lost its dimension: units given by the user are ignored" % (k0.name, fld), l)
    # ---- every literal unit in the program exists
    R.rule("literals", "every unit written in the program exists in its family", 1)
    bases = {fam: set(t) for fam, t in um.items()}

    def exists(fam, unit):
        if fam == "number":
            return True
        if fam not in bases:
            return False
        if unit == "":
            return True
        m = pat.match(unit)
        return m is not None and m.group(1) in up and m.group(2).lower() in bases[fam]
    for mod in prog.modules.values():
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call) and (getattr(x.func, "id", None) or getattr(x.func, "attr", None)) in ("unit_to_internal", "unit_to_user") and len(x.args) >= 2:
                a, b = x.args[:2]
                l = "%s:%d" % (mod.path, x.lineno)
                if isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
                    R.ob("literals", "%s{%s} in %s" % (a.value, b.value, mod.path), exists(a.value, b.value), "there is no unit %r of %r" % (b.value, a.value), l)
                elif isinstance(a, ast.Constant):
                    R.ob("literals", "%s in %s" % (a.value, mod.path), a.value in bases or a.value == "number", "there is no unit family %r" % a.value, l)
    # ---- printed quantities
    R.rule("printed-dimension", "every printed quantity is declared with its own dimension", 1)
    P = prog.module("ipi.engine.properties")
    for x in ast.walk(P.tree):
        if not isinstance(x, ast.Dict):
            continue
        for k, v in zip(x.keys, x.values):
            if isinstance(k, ast.Constant) and isinstance(v, ast.Dict):
                dd = {a.value: b for a, b in zip(v.keys, v.values) if isinstance(a, ast.Constant)}
                if "func" not in dd:
                    continue
                dm = dd.get("dimension")
                dv = dm.value if isinstance(dm, ast.Constant) else None
                l = "%s:%d" % (P.path, k.lineno)
                if dv:
                    R.ob("printed-dimension", "%s: %s exists" % (k.value, dv), dv in fams, "property %s has the dimension %r, which does not exist" % (k.value, dv), l)
                if k.value in PROP:
                    R.ob("printed-dimension", k.value, dv == PROP[k.value], "%s is printed with units of %r but is a quantity of %s" % (k.value, dv, PROP[k.value]), l)
    R.rule("printed-units", "a printed number is the internal value divided by the factor of the unit named next to it", 1)
    for cn in ("Properties", "Trajectories"):
        k = prog.cls(cn)
        f = k.find("__getitem__")
        ga = ("fn", P.name + ":getall")
        for p in TE(prog, keep=lambda fn: fn.name == "getall").run(f, k):
            if p.exit != "return":
                continue
            key = ("arg", f.node.args.args[1].arg)
            parts = ("call", ga, (key,), ())
            name, unit, al, kl = [("ix", parts, c(i)) for i in range(4)]
            tabs = [("attr", self_, n) for n in ("property_dict", "traj_dict")]
            ret = p.ret
            ok = ret is not None and ret[0] == "tup" and len(ret[2]) == 3 and ret[2][2] == unit
            if ok:
                v, dmn = ret[2][0], ret[2][1]
                ok = v[0] == "call" and any(v[1] == ("ix", ("ix", t, name), c("func")) for t in tabs) and v[2] == (("star", al),) and v[3] == (("**", kl),) \
                    and (dmn in (c("undefined"), c("")) or any(dmn == ("ix", ("ix", t, name), c("dimension")) for t in tabs)
                         or any(dmn[:3] == ("call", ("attr", ("ix", t, name), "get"), (c("dimension"), c(x))) for t in tabs for x in ("undefined", "")))
                ok = ok and not (dmn in (c("undefined"), c("")) and any(b is True and t == ("cmp", "in", c("dimension"), ("ix", tt, name)) for tt in tabs for t, b in p.guards))
            R.ob("printed-units", cn + ".__getitem__", ok, "%s['name{unit}(args)'] returns %s instead of (value, declared dimension, unit asked for)" % (cn, show(ret or NONE)[:200]), f.loc(f.node))
    k = prog.cls("PropertyOutput")
    f = k.find("write")
    seen = 0
    for p in TE(prog, keep=lambda fn: fn.name in ("unit_to_user", "unit_to_internal", "write_type", "force_flush", "active"), maxdepth=5).run(f, k):
        if p.exit == "raise" or any(t[0] == "exc" for t, _ in p.guards):
            continue
        item = [t for l in p.log if l[0] == "call" for t in subterms(l[1]) if t[0] == "ix" and t[1] == ("attr", ("attr", self_, "system"), "properties")]
        if not item:
            continue
        q, dm, un = [("ix", item[0], c(i)) for i in range(3)]
        conv = set(U2(FUt, dm, un, q)) | {div(q, t) for t in U2(FI, dm, un)}
        g = dict(p.guards)
        nounit = g.get(te.cmp("==", un, c(""))) is True or g.get(te.cmp("==", dm, c(""))) is True
        wr = [l[1] for l in p.log if l[0] == "call" and l[1][1][0] == "fn" and l[1][1][1].endswith(":write_type")]
        for w in wr:
            seen += 1
            x = w[2][1]
            src = x[1] if x[0] in ("elem",) else x
            ok = src in conv or nounit and src == q
            R.ob("printed-units", "PropertyOutput.write" + (" (no unit)" if nounit else ""), ok, "the number printed is %s; it should be the value in the unit asked for" % show(x)[:200], f.loc(f.node))
    if not seen:
        R.fail("printed-units", "PropertyOutput.write", "the printed value could not be located", f.loc(f.node))
    IO = prog.module("ipi.utils.io")
    for fn_ in ("print_file", "print_file_path"):
        f = IO.functions.get(fn_)
        if f is None:
            continue
        n = 0
        for p in TE(prog, keep=lambda fn: fn.name in ("unit_to_user", "unit_to_internal", "_get_io_function")).run(f):
            if p.exit == "raise":
                continue
            out = [l for l in p.log if l[0] == "call" and {"cell_conv", "atoms_conv"} <= {x for x, _ in l[1][3]}]
            for l in out:
                n += 1
                kw = dict(l[1][3])
                ok, why = True, ""
                cc, ac, ti = kw["cell_conv"], kw["atoms_conv"], kw.get("title")
                cu = cc[2][1] if cc[0] == "call" and cc[1] == FUt and len(cc[2]) > 1 and cc[2][0] == c("length") and cc[2][2:] in ((), (c(1),)) else None
                au = ac[2][1] if ac[0] == "call" and ac[1] == FUt and len(ac[2]) > 1 and ac[2][0] == ("arg", "dimension") and ac[2][2:] in ((), (c(1),)) else None
                if cu is None or au is None:
                    ok, why = False, "the conversion factors are %s and %s" % (show(cc), show(ac))
                elif ti is None and fn_ == "print_file_path":
                    pass          # the backends of this one write no units at all: only one fixed unit per format is possible
                elif ti is None:
                    ok, why = False, "the comment line naming the units is not written"
                else:
                    s = [x[1] if x[0] == "c" else x for x in (ti[1] if ti[0] == "cat" else (ti,))]
                    flat, cur = [], ""
                    st = "".join(x if isinstance(x, str) else "\0%d\0" % i for i, x in enumerate(s))
                    un = lambda t: t[1] if t[0] == "c" else None
                    rep = lambda t: re.escape(t[1]) if t[0] == "c" and isinstance(t[1], str) else "(?:%s)" % "|".join("\0%d\0" % i for i, x in enumerate(s) if x == t) if any(x == t for x in s) else "(?!)"
                    ok = re.search(r"\{%s\}\s*cell\{%s\}" % (rep(au), rep(cu)), st) is not None
                    why = "the comment line does not name the units the numbers are converted to: %s with factors for %s and %s" % (show(ti)[:160], show(au), show(cu))
                mode = dict(p.guards).get(te.cmp("==", ("arg", "mode"), c("pdb")))
                if ok and mode and dict(p.guards).get(te.cmp("==", ("arg", "units"), c("automatic"))) is True and au != c("angstrom"):
                    ok, why = False, "PDB frames are not in angstrom"
                R.ob("printed-units", "%s%s" % (fn_, " (pdb)" if mode else ""), ok, fn_ + ": " + why, f.loc(l[2]))
        if not n:
            R.fail("printed-units", fn_, "no frame is printed", f.loc(f.node))
    M = prog.module("ipi.utils.io.io_units")
    f = M.functions.get("process_units")
    n = 0
    au = ("fn", M.name + ":auto_units")
    for p in TE(prog, keep=lambda fn: fn.name in ("unit_to_user", "unit_to_internal", "auto_units", "info")).run(f):
        if p.exit != "return":
            continue
        n += 1
        calls = [l[1] for l in p.log if l[0] == "call" and l[1][1] == au]
        a3 = [("ix", calls[0], c(i)) for i in range(3)] if calls else []
        cells = [l[1][2][0] for l in p.log if l[0] == "call" and l[1][1] == ("cls", "Cell") and l[1][2]]
        qs = [l[2] for l in p.log if l[0] == "set" and l[1][0] == "ix" and l[1][1][0] == "attr" and l[1][1][2] == "q"]
        if not a3:
            R.fail("printed-units", "process_units", "units of a file being read are not resolved", f.loc(f.node))
            continue
        R.ob("printed-units", "process_units: cell", bool(cells) and all(x in U2(FI, c("length"), a3[2], ("arg", "cell")) for x in cells),
             "the cell of a file is read as %s, not in the cell units" % [show(x) for x in cells], f.loc(f.node))
        R.ob("printed-units", "process_units: data", bool(qs) and all(x in U2(FI, a3[0], a3[1], ("arg", "data")) for x in qs),
             "the coordinates of a file are read as %s, not in the units of the file" % [show(x) for x in qs], f.loc(f.node))
        R.ob("printed-units", "process_units: arguments", list(calls[0][2]) == [("arg", x) for x in ("comment", "dimension", "units", "cell_units", "mode")]
             or dict(calls[0][3]) and all(v == ("arg", kk) for kk, v in calls[0][3]), "auto_units is not asked about the units given", f.loc(f.node))
    # ---- which units a file is in
    R.rule("file-units", "the units of a file are those asked for, else those its comment names, else those of its format", 1)
    f = M.functions.get("auto_units")
    if f is not None:
        names = [x.arg for x in f.node.args.args]
        roles = {"dimension": 0, "units": 1, "cell_units": 2}
        default = {"pdb": ("length", "angstrom", "angstrom"), "ase": ("undefined", "ase", "ase"), None: ("undefined", "atomic_unit", "atomic_unit")}

        def src(t, re_):
            return any(x == ("glob", M.name, re_) or x[0] == "attr" and x[2] == re_ for x in subterms(t))
        for p in TE(prog).run(f):
            if p.exit != "return" or p.ret is None or p.ret[0] != "tup" or len(p.ret[2]) != 3:
                continue
            g = dict(p.guards)
            if any(t[0] == "exc" for t in g):
                continue
            mode = None
            for t, bb in g.items():
                if bb is True and t[0] == "cmp" and t[1] == "==" and ("arg", "mode") in t[2:]:
                    mode = [x[1] for x in t[2:] if x[0] == "c"][0]
            for role, i in roles.items():
                v = p.ret[2][i]
                auto = g.get(te.cmp("==", ("arg", role), c("automatic")))
                re_ = "cell_unit_re" if i == 2 else "traj_re"
                found = [bb if t[0] == "cmp" and t[1] in ("<", "!=") else (not bb) if t[0] == "cmp" else bb for t, bb in g.items() if src(t, re_) and ("arg", role) not in list(subterms(t))
                         and (t[0] == "cmp" and t[1] in ("<", "is", "==", "!=") and any(x in t[2:] for x in (c(0), NONE)) or t[0] in ("comp", "call"))]
                built = any(y[0] == "len" and y[1][0] == "new" for t in g for y in subterms(t)) and i < 2
                if built or v[0] not in ("c", "arg") and not src(v, re_):
                    ok = v[0] != "c" or auto is not True or v == c(default.get(mode, default[None])[i])       # a form that is not followed further
                elif auto is True:
                    ok = v == c(default.get(mode, default[None])[i]) and True not in found or src(v, re_) and (True in found or not found)
                elif auto is False:
                    ok = v == ("arg", role)
                    if i < 2 and True in found:
                        ok = ok and any(bb is True and t[0] == "cmp" and t[1] == "==" and ("arg", role) in t[2:] and any(src(x, re_) for x in t[2:]) for t, bb in g.items())
                else:
                    ok = True
                R.ob("file-units", "auto_units: %s%s" % (role, "" if auto is False else " of a %s file" % mode if mode else " by default"), ok,
                     "auto_units takes %s for the %s (tests passed: %s)" % (show(v)[:100], role, "; ".join("%s=%s" % x for x in list(p.g().items())[:6])[:300]), f.loc(f.node))
    # ---- parsing 'name{unit}(arguments)'
    R.rule("unit-strings", "the unit of a printed quantity is the text between its braces, the name what precedes braces and arguments", 1)
    for fn_ in ("getkey", "getall"):
        f = P.functions.get(fn_)
        if f is None:
            continue
        s_ = ("arg", f.node.args.args[0].arg)
        find = lambda *a: ("call", ("attr", s_, "find"), tuple(c(x) if isinstance(x, str) else x for x in a), ())
        index = lambda *a: ("call", ("attr", s_, "index"), tuple(c(x) if isinstance(x, str) else x for x in a), ())
        ln = ("len", s_)
        for p in TE(prog, keep=lambda fn: fn.name == "read_tuple").run(f):
            if p.exit != "return" or p.ret is None or any(t[0] == "exc" for t, _ in p.guards):
                continue
            name = p.ret[2][0] if p.ret[0] == "tup" and p.ret[2] else p.ret
            g = dict(p.guards)
            hasu = g.get(("cmp", "in", c("}"), s_), g.get(("cmp", "in", c("{"), s_)))
            hasa = g.get(("cmp", "in", c("("), s_))
            if hasu is None:
                x = g.get(te.cmp("<", find("{"), c(0)))
                hasu = None if x is None else not x
            if hasa is None:
                x = g.get(te.cmp("<", find("("), c(0)))
                hasa = None if x is None else not x
            if name[0] == "call" and name[1][0] == "attr" and name[1][2] == "strip":
                cut = name[1][1]
                ends = ([find("{"), index("{")] if hasu else [ln]), ([find("("), index("(")] if hasa else [ln])
                good = [("slice", z, x, NONE) for z in (NONE, c(0)) for e1 in ends[0] for e2 in ends[1]
                        for x in [("call", ("ext", "min"), (e1, e2), ()), ("call", ("ext", "min"), (e2, e1), ())] + ([e1] if e2 == ln else []) + ([e2] if e1 == ln else []) + ([ln] if e1 == e2 == ln else [])] + ([NONE] if not hasu and not hasa else [])
                if hasu is not None and hasa is not None and cut[0] == "ix" and cut[1] == s_ and any(x[0] == "attr" and x[1] == s_ and x[2] in ("find", "index", "rfind") or x == ln for x in subterms(cut[2])):
                    R.ob("unit-strings", fn_ + ": name", cut[2] in good, "the name of a quantity is taken to be %s" % show(name)[:160], f.loc(f.node))
            if fn_ == "getall" and p.ret[0] == "tup" and len(p.ret[2]) == 4:
                u = p.ret[2][1]
                core = u[1][1] if u[0] == "call" and u[1][0] == "attr" and u[1][2] == "strip" else u
                if hasu is False:
                    R.ob("unit-strings", "getall: no unit", core[0] != "c" or core == c(""), "the unit of a quantity printed without one is %s" % show(u), f.loc(f.node))
                elif hasu and core[0] == "c":
                    R.fail("unit-strings", "getall: unit", "the unit written in braces is ignored: %s" % show(u), f.loc(f.node))
                elif hasu and core[0] == "ix" and core[1] == s_:
                    st = [find("{"), index("{")]
                    good = [("slice", te.bin(ast.Add(), a_, c(1)), e, NONE) for a_ in st for e in [find("}", b_) for b_ in st] + [index("}", b_) for b_ in st] + [find("}"), index("}")]]
                    R.ob("unit-strings", "getall: unit", core[2] in good, "the unit of a quantity is taken to be %s" % show(u)[:160], f.loc(f.node))
    # ---- initialisation values
    R.rule("init-units", "initial values given in the input are converted with the units given next to them, once, as quantities of their own kind", 1)
    IN = prog.module("ipi.engine.initializer")
    K = prog.cls("Initializer")
    kept = ("unit_to_internal", "init_vector", "init_beads", "init_chk", "init_file", "info", "warning", "set_vector")
    want = {"cell": "length", "masses": "mass", "positions": "length", "momenta": "momentum", "velocities": "velocity"}
    Q = ("attr", self_, "queue")
    item = ("elem", Q)
    kk, vv = ("ix", item, c(0)), ("ix", item, c(1))
    vval, vun, vmode = ("attr", vv, "value"), ("attr", vv, "units"), ("attr", vv, "mode")

    def unconverted(t, x, good, inside=False):
        """a subterm equal to x that is not in a product with one of the conversion factors"""
        if t == x:
            return not inside
        if not isinstance(t, tuple):
            return False
        if t and t[0] == "p":
            for mono, _ in t[1]:
                okf = any(f_ in good and e_ == 1 for f_, e_ in mono)
                other = any(f_[0] == "call" and f_[1] == FI and f_ not in good for f_, e_ in mono if isinstance(f_, tuple))
                for f_, e_ in mono:
                    if f_ not in good and unconverted(f_, x, good, okf and not other and e_ == 1):
                        return True
            return False
        if t and t[0] == "call" and t in good:
            return False
        if t and t[0] == "call" and t[1] == FI:
            return not (len(t[2]) == 3 and t[2][2] == x and ("call", FI, t[2][:2], ()) in good) and x in list(subterms(t))
        if t and t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("reshape", "copy", "flatten", "astype"):
            return unconverted(t[1][1], x, good, inside)
        if t and t[0] == "call" and t[1] in (("ext", "numpy.asarray"), ("ext", "numpy.array"), ("ext", "numpy.reshape"), ("ext", "float")) and t[2]:
            return unconverted(t[2][0], x, good, inside)
        return any(unconverted(y, x, good, False) for y in t if isinstance(y, tuple))

    for p in TE(prog, keep=lambda fn: fn.name in kept, maxdepth=3, enter=lambda fn, fv: fn.cls is K or fn.module is IN).run(K.find("init_stage1"), K):
        if p.exit == "raise":
            continue
        g = dict(p.guards)
        key = [x[1] for t, bb in g.items() if bb is True and t[0] == "cmp" and t[1] == "==" and kk in t[2:] for x in t[2:] if x[0] == "c"]
        md = [x[1] for t, bb in g.items() if bb is True and t[0] == "cmp" and t[1] == "==" and vmode in t[2:] for x in t[2:] if x[0] == "c"]
        if len(key) != 1 or key[0] not in want:
            continue
        key = key[0]
        dim_ = "temperature" if md == ["thermal"] else want[key]
        good = U2(FI, c(dim_), vun)
        if md in (["manual"], ["thermal"]):
            bad = None
            for l in p.log:
                if l[0] == "set" and unconverted(l[2], vval, good):
                    bad = l
            R.ob("init-units", "%s %s" % (md[0], key), bad is None, "the value given for the %s is stored without being converted from its units as a %s" % (key, dim_),
                 K.find("init_stage1").loc(bad[3] if bad else None))
        for l in p.log:
            if l[0] != "call" or l[1][1][0] != "fn":
                continue
            fn = l[1][1][1].split(":")[-1]
            fo = IN.functions.get(fn)
            if fo is None:
                continue
            pn = [a.arg for a in fo.node.args.args]
            kw = dict(zip(pn, l[1][2]))
            kw.update(l[1][3])
            if fn == "init_vector":
                R.ob("init-units", "init_vector for " + key, kw.get("dimension") == c(want[key]) and kw.get("units") == vun and (kw.get("momenta", FALSE) == TRUE) == (key == "momenta"),
                     "%s are read as %s in units %s%s" % (key, show(kw.get("dimension", NONE)), show(kw.get("units", NONE)), " from the momenta" if kw.get("momenta") == TRUE else ""),
                     K.find("init_stage1").loc(l[2]))
            if fn == "init_file" and key == "cell":
                used = any(x[0] == "set" and l[1] in list(subterms(x[2])) for x in p.log)
                if used:
                    R.ob("init-units", "cell from a file", kw.get("cell_units") == vun, "the cell of a file is read in units %s" % show(kw.get("cell_units", NONE)), K.find("init_stage1").loc(l[2]))
    f = IN.functions.get("init_vector")
    if f is not None:
        iif = ("arg", f.node.args.args[0].arg)
        val_, mode_ = ("attr", iif, "value"), ("attr", iif, "mode")
        good = U2(FI, ("arg", "dimension"), ("arg", "units"))
        for p in TE(prog, keep=lambda fn: fn.name in kept).run(f):
            if p.exit != "return" or p.ret is None:
                continue
            g = dict(p.guards)
            md = [x[1] for t, bb in g.items() if bb is True and t[0] == "cmp" and t[1] == "==" and mode_ in t[2:] for x in t[2:] if x[0] == "c"]
            if md == ["manual"]:
                ok = val_ in list(subterms(p.ret)) and not unconverted(p.ret, val_, good)
                R.ob("init-units", "init_vector: manual", ok, "a vector given in the input is returned as %s, without conversion from its units" % show(p.ret)[:160], f.loc(f.node))
            elif len(md) == 1 and md[0] != "chk":
                cl = [l[1] for l in p.log if l[0] == "call" and l[1][1][0] == "fn" and l[1][1][1].split(":")[-1] in ("init_beads", "init_file")]
                ok = bool(cl) and all({("arg", "dimension"), ("arg", "units"), ("arg", "cell_units")} <= set(list(x[2]) + [y for _, y in x[3]]) for x in cl)
                R.ob("init-units", "init_vector: " + md[0], ok, "a vector is read from a file without the units given in the input", f.loc(f.node))
            elif md == ["chk"]:
                mo = g.get(("arg", "momenta"))
                last = p.ret[2] if p.ret[0] == "attr" else None
                if last in ("p", "q") and mo is not None:
                    R.ob("init-units", "init_vector: chk %s" % mo, last == ("p" if mo else "q"), "from a checkpoint, .%s is read for %s" % (last, "momenta" if mo else "positions"), f.loc(f.node))
    f = IN.functions.get("init_beads")
    if f is not None:
        for p in TE(prog, keep=lambda fn: fn.name in kept).run(f):
            for l in p.log:
                if l[0] == "call" and l[1][1] == ("fn", IN.name + ":init_file"):
                    R.ob("init-units", "init_beads", {("arg", "dimension"), ("arg", "units"), ("arg", "cell_units")} <= set(list(l[1][2]) + [y for _, y in l[1][3]]),
                         "init_beads reads the file without the units it was given", f.loc(l[2]))
    return R.finish()


if __name__ == "__main__":
    main(run, PID)
