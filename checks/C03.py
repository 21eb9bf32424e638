"""C03: nobody modifies the storage of a cached quantity behind the dependency engine's back."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.repo import Cls
from vlib.interp import pstr, events, Ev
from vlib.flow import Flow

PID = "C03"
ENGINE = "ipi.utils.depend"


def base(p):
    while p and p[-1].startswith("["):
        p = p[:-1]
    return p


def run(tier):
    m = model()
    prog = m.prog
    rep = Report(PID, tier, technique="alias/effect analysis: storage of cached quantities handed out by strip, iteration, array conversion or views is never written",
                 explanation="Every function is interpreted abstractly with callees inlined; values obtained by stripping, iterating, converting or viewing a "
                             "cached quantity are tracked as aliases of its storage, and any in-place operation on such an alias (item or augmented assignment, "
                             "mutating method, out= argument, in-place numpy call) is reported unless the quantity is explicitly re-announced on every path.",
                 assumptions=["aliases through containers of unknown content and through third-party code are not tracked",
                              "indexing an alias is assumed to give an alias (never a copy)"])
    rep.rule("no-raw-write", "storage of a cached quantity is only modified through the invalidating interface", minimum=0)
    rep.rule("functions", "functions analysed for in-place modification of aliases", minimum=300)
    rep.rule("no-engine-internals", "the stale flag, the stored value and the list of dependants are only touched by the dependency engine", minimum=0)
    rep.rule("no-stale-read", "outside the dependency engine stored values are never read through a handle, which would skip the refresh", minimum=0)
    rep.rule("no-auto-write", "code never assigns (parts of) a quantity that is computed automatically", minimum=0)

    auto = auto_quantities(m)
    arrays = array_values(m)
    nfun = 0
    for mod in sorted(prog.modules.values(), key=lambda x: x.name):
        if mod.name == ENGINE or not mod.name.startswith("ipi"):
            continue
        fs = [(c, f) for c in mod.classes.values() for f in c.methods.values()] + [(None, f) for f in mod.functions.values()]
        for c, f in fs:
            ip = m.interp(maxdepth=4 if tier == "quick" else 6, inline=lambda fn, k, d: fn.module.name != ENGINE and not fn.module.name.startswith("ipi.utils.messages"))
            if c:
                ip.roots[("self",)] = c
            tree = ip.run(f, c)
            nfun += 1
            rep.ob("functions", f.qual, True)
            for e in events(tree):
                if e.kind not in ("write", "mut") or not e.path:
                    continue
                if e.path[0].startswith("inst:"):
                    continue                      # an object made and owned by this function
                if not e.raw and ip.dep_kind(base(e.path)) == "depend_value" and (
                        e.kind == "mut" or e.how in ("item", "itemaug") or (e.how == "aug" and e.label == "local" and array_valued(m, arrays, ip, base(e.path)))):
                    # what reading a plain cached value gives is the stored object itself
                    p = base(e.path)
                    rep.ob("no-raw-write", "%s:%s:%s" % (e.fn.qual, p[-1], e.how), reannounced(tree, e, p),
                           "in-place modification of the stored value of %s without invalidation (reached from %s)" % (pstr(p), f.qual), e.loc())
                elif e.raw and not (e.kind == "write" and e.how in ("set", "del") ):
                    p = base(e.path)
                    if ip.dep_kind(p) is None and not looks_dep(m, ip, p):
                        continue
                    ok = reannounced(tree, e, p)
                    rep.ob("no-raw-write", "%s:%s:%s" % (e.fn.qual, p[-1], e.how), ok,
                           "in-place modification of the storage of %s without invalidation (reached from %s)" % (pstr(p), f.qual), e.loc())
                elif e.kind == "write" and e.how in ("item", "itemaug", "set", "aug") and e.fn.name != "__init__":
                    p = base(e.path)
                    if e.label == "local" or len(p) < 2:
                        continue
                    oc = ip.path_cls(p[:-1])
                    if isinstance(oc, Cls) and is_auto(m, auto, oc, p[-1]):
                        rep.fail("no-auto-write", "%s:%s" % (e.fn.qual, p[-1]),
                                 "assignment to the automatically computed quantity %s" % pstr(p), e.loc())
            stores = set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        stores.update(id(y) for y in ast.walk(t))
            for e in events(tree):
                if e.kind == "call" and e.fn is f and e.label and e.label.rsplit(".", 1)[-1] == "dstrip" and e.args:
                    for a in e.args[0]:
                        if a[0] == "dep" and not refreshed_before(tree, e, a[1]):
                            rep.fail("no-stale-read", "%s:%s" % (f.qual, a[1][-1]), "the handle of %s is stripped without refreshing it" % pstr(a[1]), e.loc())
                if e.kind == "read" and e.fn is f and isinstance(e.node, ast.Attribute) and e.node.attr == "_value" and id(e.node) not in stores:
                    if not refreshed_before(tree, e, e.path):
                        rep.fail("no-stale-read", "%s:%s" % (f.qual, e.path[-1]), "the stored value of %s is read through its handle without refreshing it" % pstr(e.path), e.loc())
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ("_tainted", "_dependants"):
                    rep.fail("no-engine-internals", "%s:%s" % (f.qual, x.attr), "engine internals overwritten", f.loc(x))
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == "_tainted":
                    rep.fail("no-engine-internals", "%s:%s" % (f.qual, x.value.attr), "stale flag overwritten", f.loc(x))
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "_value" and not (
                        isinstance(x.value, ast.Name) and x.value.id == "self" and c is not None and not any(k.name.startswith("depend_") for k in c.mro())):
                    rep.fail("no-engine-internals", "%s:%s" % (f.qual, x.attr), "stored value replaced without invalidation", f.loc(x))
    rep.extra["functions_analysed"] = nfun
    return rep.finish()


NPARR = {"zeros", "ones", "empty", "array", "asarray", "zeros_like", "ones_like", "empty_like", "eye", "diag", "dot", "outer", "full", "concatenate"}


def array_values(m):
    """(class, name) of cached values (not arrays by declaration) whose stored value is a numpy array or list"""
    out = set()
    decl = []
    for c in m.prog.all_classes():
        for f in c.methods.values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and m._is_dep_ctor(c, x.value):
                    kw = {k.arg: k.value for k in x.value.keywords}
                    decl.append((c, x.targets[0].attr.lstrip("_"), kw.get("value"), kw.get("func")))

    def is_arr(c, e, env, depth=0):
        if isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            if nm in NPARR and (nm != "dot"):
                return True
            if nm in ("sum", "dot", "len", "float", "int", "max", "min", "prod", "trace", "det", "norm"):
                return False
            if nm == "dstrip" and e.args:
                return is_arr(c, e.args[0], env, depth)
            return False
        if isinstance(e, (ast.List, ast.Dict, ast.ListComp)):
            return True
        if isinstance(e, ast.BinOp):
            return is_arr(c, e.left, env, depth) or is_arr(c, e.right, env, depth)
        if isinstance(e, ast.UnaryOp):
            return is_arr(c, e.operand, env, depth)
        if isinstance(e, ast.Name):
            return e.id in env
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                return (c.name, e.attr) in out or m.dep_kind(c, e.attr) == "depend_array"
            b = e.value
            if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == "self":
                t = m.attr_type(c, b.attr)
                return t is not None and (m.dep_kind(t, e.attr) == "depend_array" or (t.name, e.attr) in out)
        return False

    def ret_arr(c, fn):
        if isinstance(fn, ast.Lambda):
            return is_arr(c, fn.body, set())
        env = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and is_arr(c, x.value, env):
                env.add(x.targets[0].id)
        rs = [x.value for x in ast.walk(fn) if isinstance(x, ast.Return) and x.value is not None]
        return bool(rs) and all(is_arr(c, r, env) for r in rs)
    for _ in range(3):
        for c, name, val, func in decl:
            if val is not None and is_arr(c, val, set()):
                out.add((c.name, name))
            if func is not None:
                if isinstance(func, ast.Attribute) and isinstance(func.value, ast.Name) and func.value.id == "self":
                    g = c.find(func.attr)
                    if g is not None and ret_arr(c, g.node):
                        out.add((c.name, name))
                elif isinstance(func, ast.Lambda) and ret_arr(c, func):
                    out.add((c.name, name))
    return out


def array_valued(m, arrays, ip, p):
    oc = ip.path_cls(p[:-1])
    if not isinstance(oc, Cls):
        return False
    return any((k.name, p[-1]) in arrays for k in list(oc.mro()) + list(m.prog.subclasses(oc)))


def refreshed_before(tree, ev, p):
    """on every path to `ev` the quantity was read through a refreshing accessor before, with no write in between"""
    bad = []

    def step(e, st):
        if e is ev:
            if not st:
                bad.append(e)
            return [True]
        if e.kind == "read" and e.path == p and not (isinstance(e.node, ast.Attribute) and e.node.attr == "_value"):
            return [True]
        if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] in ("_refresh", "get") and any(a[0] in ("dep", "obj") and a[1] == p for a in e.val):
            return [True]
        if e.kind in ("write", "mut"):
            return [False]
        return [st]
    Flow(step).run(tree, [False])
    return not bad


def looks_dep(m, ip, p):
    c = ip.path_cls(p[:-1]) if len(p) > 1 else None
    return m.is_depend(c, p[-1]) if c is not None else False


def auto_quantities(m):
    """(cls, attr) pairs always declared with a compute function and outside any synchronisation group"""
    good, bad = set(), set()
    for c in m.prog.all_classes():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and m._is_dep_ctor(c, n.value):
                    t = n.targets[0]
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr.startswith("_"):
                        kws = {k.arg for k in n.value.keywords}
                        (good if "func" in kws and "synchro" not in kws else bad).add((c, t.attr[1:]))
    # handles that are later freed from or attached to a function are not decided here
    for c in m.prog.all_classes():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr in ("_func", "add_synchro", "_synchro") and isinstance(n.value, ast.Attribute):
                    bad.add((None, n.value.attr.lstrip("_")))
    return good, bad


def is_auto(m, auto, c, attr):
    good, bad = auto
    if (None, attr) in bad:
        return False
    hit = False
    for k in c.mro():
        if (k, attr) in bad:
            return False
        hit = hit or (k, attr) in good
    for k in m.prog.subclasses(c, strict=True):
        if (k, attr) in bad:
            return False
    return hit


def reannounced(tree, ev, p):
    """on every path after `ev` the quantity's dependants are notified (handle.taint(...))"""
    def step(e, st):
        if e is ev:
            return ["dirty"]
        if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] == "taint" and any(
                a[0] in ("dep", "obj") and base(tuple(x.lstrip("_") if i == len(a[1]) - 1 else x for i, x in enumerate(a[1]))) == p for a in e.val):
            return ["clean"]
        return [st]
    out = Flow(step).run(tree, ["clean"])
    return all("dirty" not in s for k, s in out.items() if k in ("fall", "return"))


if __name__ == "__main__":
    main(run, PID)
