"""i-PI specific facts: static types of attributes, cached quantities (depend objects)."""
import ast
from .repo import Cls, Program, load, AnalysisBroken
from .interp import Interp, events, walk, pstr, Inline, V, EMPTY

# Attribute name -> class name, for objects handed in through bind()/constructor parameters.
# (Objects constructed in place are inferred from the source, see Model.infer.)
BYNAME = {
    "beads": "Beads", "dbeads": "Beads", "nm": "NormalModes", "cell": "Cell", "dcell": "Cell", "h0": "Cell",
    "forces": "Forces", "dforces": "Forces", "bias": "Forces", "ensemble": "Ensemble", "ens": "Ensemble",
    "motion": "Motion", "thermostat": "Thermostat", "barostat": "Barostat", "integrator": "DummyIntegrator",
    "prng": "Random", "simul": "Simulation", "system": "System", "atoms": "Atoms",
    "exchange_potential": "ExchangePotential", "csolver": "ConstraintSolverBase", "smotion": "Smotion",
    "output_maker": "OutputMaker", "init": "Initializer", "properties": "Properties", "trajs": "Trajectories",
    "syslist[]": "System", "constraint_list[]": "ConstraintBase", "mforces[]": "ForceComponent",
    "mts_forces[]": "MTSForces", "mbeads[]": "Beads", "mrpc[]": "nm_rescale", "_forces[]": "ForceBead",
    "_blist[]": "Atoms", "tlist[]": "Thermostat", "_thermos[]": "Thermostat", "mlist[]": "Motion",
    "ff": "ForceField", "bf": "ForceComponent",
}
# (class, attribute) pairs that deviate from the naming convention
BYCLASS = {
    ("ForceBead", "ff"): "ForceField",
    ("Forces", "ff"): None,
    ("Motion", "motion"): "Motion",
    ("MultiSmotion", "mlist[]"): "Smotion",
}


class Model:
    def __init__(self, prog):
        self.prog = prog
        self._infer_cache = {}
        self.dep_names = {}     # Cls -> set of attr names with a `_x = depend_*` declaration (own class)
        self.dep_kinds = {}     # (Cls, attr) -> {"depend_value", "depend_array"}
        self.dprops = {}        # Cls -> set of names in dproperties(cls, [...])
        self._scan_deps()

    # ---- types -----------------------------------------------------
    def infer(self, c):
        if c in self._infer_cache:
            return self._infer_cache[c]
        out = {}
        self._infer_cache[c] = out

        def add(k, cls):
            out.setdefault(k, set()).add(cls)
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t = n.targets[0]
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        v = n.value
                        if isinstance(v, ast.Call):
                            r = self.prog.resolve_expr(c.module, v.func)
                            if isinstance(r, Cls) and not r.name.startswith("depend_"):
                                add(t.attr, r)
                        elif isinstance(v, (ast.ListComp,)) and isinstance(v.elt, ast.Call):
                            r = self.prog.resolve_expr(c.module, v.elt.func)
                            if isinstance(r, Cls) and not r.name.startswith("depend_"):
                                add(t.attr + "[]", r)
        return out

    def _common(self, cs):
        cs = list(cs)
        if len(cs) == 1:
            return cs[0]
        for k in cs[0].mro():
            if all(k in c.mro() for c in cs):
                return k
        return None

    def attr_type(self, c, attr):
        if isinstance(c, Cls):
            for k in c.mro():
                if (k.name, attr) in BYCLASS:
                    nm = BYCLASS[(k.name, attr)]
                    return self.prog.cls(nm) if nm and self.prog.has_cls(nm) else None
        if attr in BYNAME and self.prog.has_cls(BYNAME[attr]):
            base = self.prog.cls(BYNAME[attr])
            return base
        if isinstance(c, Cls):
            for k in c.mro():
                t = self.infer(k)
                if attr in t:
                    return self._common(t[attr])
        return None

    # ---- cached quantities ------------------------------------------
    def _scan_deps(self):
        for m in self.prog.modules.values():
            for c in m.classes.values():
                s = set()
                for f in c.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr.startswith("_") \
                                and isinstance(n.value, ast.Name):
                            pass
                        if isinstance(n, ast.Assign):
                            tg = n.targets[0]
                            if isinstance(tg, ast.Attribute) and tg.attr.startswith("_") and isinstance(tg.value, ast.Name) and tg.value.id == "self":
                                if self._is_dep_ctor(c, n.value):
                                    s.add(tg.attr[1:])
                                    self.dep_kinds.setdefault((c, tg.attr[1:]), set()).add(
                                        self.prog.resolve_expr(c.module, n.value.func).name)
                self.dep_names[c] = s
            for st in ast.walk(m.tree):
                if isinstance(st, ast.Call):
                    fn = st.func
                    nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", None)
                    if nm == "dproperties" and len(st.args) >= 2:
                        r = self.prog.resolve_expr(m, st.args[0])
                        if isinstance(r, Cls):
                            names = set()
                            for x in ast.walk(st.args[1]):
                                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                    names.add(x.value)
                            self.dprops.setdefault(r, set()).update(names)

    def _is_dep_ctor(self, c, v):
        if isinstance(v, ast.Call):
            r = self.prog.resolve_expr(c.module, v.func)
            if isinstance(r, Cls) and r.name in ("depend_value", "depend_array"):
                return True
        return False

    def dprop_names(self, c):
        out = set()
        for k in c.mro():
            out |= self.dprops.get(k, set())
        return out

    def is_depend(self, c, attr):
        if not isinstance(c, Cls):
            return False
        for k in c.mro():
            if attr in self.dep_names.get(k, ()) or attr in self.dprops.get(k, ()):
                return True
        # a base-typed handle may hold a subclass instance
        for k in self.prog.subclasses(c, strict=True):
            if attr in self.dep_names.get(k, ()) or attr in self.dprops.get(k, ()):
                return True
        return False

    def dep_kind(self, c, attr):
        if not isinstance(c, Cls):
            return None
        out = set()
        for k in c.mro():
            out |= self.dep_kinds.get((k, attr), set())
        if not out:
            for k in self.prog.subclasses(c, strict=True):
                out |= self.dep_kinds.get((k, attr), set())
        return next(iter(out)) if len(out) == 1 else None

    def interp(self, **kw):
        kw.setdefault("dep_kind", self.dep_kind)
        kw.setdefault("attr_type", self.attr_type)
        kw.setdefault("is_depend", self.is_depend)
        return Interp(self.prog, **kw)


_m = {}


def model(root=None):
    p = load(root)
    if id(p) not in _m:
        _m[id(p)] = Model(p)
    return _m[id(p)]
