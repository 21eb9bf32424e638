"""C01: every cached quantity declares everything its recomputation reads."""
import ast
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.snapshot import frozen
from vlib.repo import Cls
from vlib.depgraph import DepGraph, canon
from vlib.interp import pstr, Interp, events
from vlib.flow import Flow

PID = "C01"


def owner_cls(ev):
    f = ev.fn
    if f.cls is None:
        for x in reversed(ev.stack):
            if x.cls is not None:
                return x.cls
    return f.cls


class Cover:
    def __init__(self, g, c):
        self.g, self.m, self.c = g, g.m, c
        self.ip = g.m.interp()
        self.ip.roots[("self",)] = c
        self._d = {}
        self._co = {}

    def cls_of(self, prefix):
        return self.ip.path_cls(prefix)

    def is_dep(self, path):
        if len(path) < 2:
            return False
        k = self.cls_of(path[:-1])
        return isinstance(k, Cls) and self.m.is_depend(k, path[-1])

    def declared(self, path):
        """list of (funcs, deps) alternatives declared for a path (own class context and owner's class)."""
        if path in self._d:
            return self._d[path]
        alts = []
        self._d[path] = alts
        own = self.g.decls(self.c).get(path)
        if own:
            alts += [(d.funcs, d.deps) for d in own if d.kind != "patch"]
        extra = set()
        exf = []
        if own:
            for d in own:
                if d.kind == "patch":
                    extra |= d.deps
                    exf += d.funcs
        if len(path) > 2:
            k = self.cls_of(path[:-1])
            if isinstance(k, Cls) and k is not self.c:
                ks = [k]
                if k.name == "ConstraintBase":
                    ks += [x for x in self.m.prog.subclasses(k, strict=True) if x is not self.c]
                for d in [d for kk in ks for d in self.g.decls(kk).get(("self", path[-1]), [])]:
                    deps = {canon(path[:-1] + p[1:]) if p[:1] == ("self",) else p for p in d.deps}
                    alts.append((d.funcs, deps))
        if extra or exf:
            alts[:] = [(list(f) + exf, d | extra) for f, d in alts] or [(exf, extra)]
        return alts

    def peers(self, path):
        self.g.decls(self.c)
        out = set(self.g.peers.get(self.c, {}).get(path, ()))
        if len(path) > 2:
            k = self.cls_of(path[:-1])
            if isinstance(k, Cls):
                self.g.decls(k)
                for p in self.g.peers.get(k, {}).get(("self", path[-1]), ()):
                    out.add(canon(path[:-1] + p[1:]))
        return out | {path}

    def closure(self, deps):
        seen = set()
        work = list(deps)
        while work:
            p = work.pop()
            for q in self.peers(p):
                if q in seen:
                    continue
                seen.add(q)
                for f, d in self.declared(q):
                    work.extend(d)
        return seen

    # -- live coverage -------------------------------------------------
    # Invalidation stops at a quantity that is already marked stale, so an intermediate D passes a
    # change of r on to X only if D was refreshed when X was last computed, i.e. D is read on
    # every path of the recomputation on which r is read.
    def coread(self, tree, norm, rs, D):
        """False when some path of the recomputation reads one of rs but not D"""
        pe = self.peers(D)
        rs = frozenset(rs)
        ck = (id(tree), rs, D)
        if ck in self._co:
            return self._co[ck]

        def step(ev, st):
            a, b = st
            if ev.kind == "read":
                p = norm(ev.path)
                if p in rs:
                    a = True
                if p in pe:
                    b = True
            return [(a, b)]
        out = Flow(step, loop_once=lambda n: True).run(tree, [(False, False)])
        bad = any((True, False) in out.get(k, ()) for k in ("fall", "return"))
        self._co[ck] = not bad
        return not bad

    def mayread(self, d, D):
        """D is read by the recomputation of d"""
        pe = self.peers(D)
        for key, f in d.funcs:
            reads, writes, tree = self.g.reads(self.c, f, d.norm)
            if not pe & set(reads):
                return False
        return bool(d.funcs)

    def own_decls(self, path):
        return [d for d in self.g.decls(self.c).get(path, [])]

    def reaches(self, r, D, depth=0, seen=()):
        """a change of r marks D stale (D having been refreshed last)"""
        if self.peers(r) & self.peers(D):
            return True
        if depth > 10 or D in seen:
            return False
        for q in self.peers(D):
            for f, deps in self.declared(q):
                if any(self.peers(r) & self.peers(x) for x in deps):
                    return True
                for x in deps:
                    if self.reaches(r, x, depth + 1, seen + (D,)):
                        # the intermediate x must be refreshed whenever D is
                        ds = self.own_decls(q)
                        if not ds or "[]" in q or all(self.mayread(d, x) for d in ds if d.funcs):
                            return True
        return False

    def covered(self, r, deps, tree, norm, via=None, depth=0, seen=()):
        """r: quantity read;  via: the quantity actually read by the recomputation"""
        via = via or {r}
        if self.peers(r) & {q for x in deps for q in self.peers(x)}:
            return True
        if depth > 12 or r in seen:
            return True
        for D in deps:
            if self.reaches(r, D) and self.coread(tree, norm, self.allpeers(via), D):
                return True
        alts = self.declared(r)
        if not alts:
            return False
        withf = [(f, d) for f, d in alts if f]
        if not withf or len(withf) < len(alts) and not any(d for f, d in withf):
            return False
        if self.g.peers.get(self.c, {}).get(r):
            return False
        for f, d in withf:
            for x in d:
                if not self.covered(x, deps, tree, norm, via, depth + 1, seen + (r,)):
                    return False
        return True

    def allpeers(self, xs):
        return frozenset(q for x in xs for q in self.peers(x))


# Access-path components that name private working copies owned by the object itself: they are
# overwritten from the physical system before being read.
SCRATCH = ("dbeads", "dcell", "dforces")
# (owner, quantity, read): reads that cannot make the cached value stale, with the reason.
EXEMPT = {
    ("Forces", "fvir_4th_order", "beads.p"): "copied into the scratch clone, not used by the force evaluation",
    ("Forces", "fvir_4th_order", "beads.names"): "copied into the scratch clone, fixed after initialisation",
    ("Forces", "fvir_4th_order", "beads.q"): "total force (declared) is itself invalidated by positions, see rule force-chain",
    ("NormalModes", "vspring_and_fspring", "bosons"): "the exchanging particles are fixed when the system is bound",
    ("Forces", "fvir_4th_order", "cell.h"): "total force (declared) is itself invalidated by the cell, see rule force-chain",
}


def scratch(path):
    return any(x in SCRATCH for x in path[1:-1])


def exempt(owner, path, r):
    return (owner, ".".join(path[1:]), ".".join(r[1:])) in EXEMPT


def append_sites(m, c):
    """methods (own or inherited) that append an argument to a list attribute of self"""
    import ast
    names = []
    for k in c.mro():
        for n, f in k.methods.items():
            if n not in names and any(isinstance(x, ast.Attribute) and x.attr in ("append", "insert", "extend")
                                      for x in ast.walk(f.node)):
                names.append(n)
    return names


def appends(rep, m, g, c, cov):
    """elements added to a list later must be registered with every quantity recomputed from that list"""
    want = {}      # list path -> {(X, component or None)}
    for path, ds in g.decls(c).items():
        if path[0] != "self":
            continue
        for d in ds:
            ocls = owner_cls(d.ev)
            if ocls is not None and ocls not in c.mro():
                continue
            for key, f in d.funcs:
                reads, writes, tree = g.reads(c, f, d.norm)
                for e in events(tree, "call"):
                    if e.label and e.label.endswith("[].get"):
                        for a in e.val:
                            if a[0] == "obj" and len(a[1]) == 3 and a[1][-1] == "[]":
                                want.setdefault(a[1][:2], set()).add((path, None, d.ev.fn))
                for r in reads:
                    if len(r) == 4 and r[0] == "self" and r[2] == "[]" and cov.is_dep(r) and r in d.deps:
                        want.setdefault(r[:2], set()).add((path, r[3], d.ev.fn))
    if not want:
        return
    for n in append_sites(m, c):
        f = c.find(n)
        ip = m.interp(maxdepth=4, inline=lambda fn, k, dd: g.inline_ok(fn, k, dd))
        ip.roots[("self",)] = c
        tree = ip.run(f, c)
        evs = list(events(tree))
        adds = set()
        for e in evs:
            if e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] in ("add_dependency", "add_dependant") and e.args:
                t, sr = set(), set()
                for dst, v in ((t, e.val), (sr, e.args[0])):
                    for a in v:
                        if a[0] in ("dep", "obj"):
                            p = a[1]
                            if a[0] == "obj" and p[-1].startswith("_"):
                                p = p[:-1] + (p[-1][1:],)
                            dst.add(p)
                if e.label.endswith("add_dependant"):
                    t, sr = sr, t
                adds |= {(x, y) for x in t for y in sr}
        for e in evs:
            if e.kind != "mut" or e.how not in ("append", "insert") or e.path not in want or not e.args:
                continue
            vs = [a[1] for v in e.args for a in v if a[0] == "obj" and a[1][0].startswith("arg:")]
            for v in vs:
                for X, y, dfn in want[e.path]:
                    if dfn is f:
                        continue
                    src = v if y is None else v + (y,)
                    rep.ob("late-elements", "%s.%s:%s+=%s" % (f.cls.name, n, ".".join(X[1:]), y or "element"),
                           (X, src) in adds,
                           "%s is appended to %s, which the recomputation of %s reads, without registering %s as its dependency" % (
                               pstr(v), pstr(e.path), pstr(X), pstr(src)), e.loc())


def plain_uses(m, c):
    """attribute names used as self.x in the class family"""
    import ast
    out = set()
    fam = set(c.mro()) | set(m.prog.subclasses(c, strict=False))
    for k in fam:
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)
    return out


def free_names(fn):
    a = fn.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]}
    load = set()
    for b in ([fn.body] if isinstance(fn, ast.Lambda) else fn.body):
        for n in ast.walk(b):
            if isinstance(n, ast.Name):
                (load if isinstance(n.ctx, ast.Load) else own).add(n.id)
    return load - own


def closures(rep, m):
    """functions of cached quantities that are made in a loop"""
    skip = (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)

    def stores(n, out):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, ast.FunctionDef):
                continue
            if isinstance(ch, skip):
                continue
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store):
                out.add(ch.id)
            stores(ch, out)
        return out
    for mod in m.prog.modules.values():
        for loop in ast.walk(mod.tree):
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            names, defs = None, {}
            for st in ast.walk(loop):
                if isinstance(st, ast.FunctionDef):
                    defs[st.name] = st
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Lambda):
                    defs[st.targets[0].id] = st.value
            uses = []
            for x in ast.walk(loop):
                if isinstance(x, ast.Call):
                    uses += [k.value for k in x.keywords if k.arg == "func"]
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_func" for t in x.targets):
                    uses.append(x.value)
            for u in uses:
                for f in [y for y in ast.walk(u) if isinstance(y, ast.Lambda)] + [defs[y.id] for y in ast.walk(u) if isinstance(y, ast.Name) and y.id in defs]:
                    if names is None:
                        names = stores(loop, set())
                    late = free_names(f) & (names - set(defs))
                    rep.ob("loop-closure", "%s:%s" % (mod.name, ast.unparse(f)[:60]), not late,
                           "the function uses '%s', which belongs to the loop: every quantity made in the loop ends up with the value of the last round" % "', '".join(sorted(late)), "%s:%d" % (mod.path, f.lineno))


def run(tier):
    m = model()
    g = DepGraph(m)
    rep = Report(PID, tier, "declared-vs-actual dependency analysis on effect trees (interprocedural read sets)",
                 "For every cached quantity of every class: the set of cached quantities read by its recomputation "
                 "function (callees, lambdas, closures and properties inlined; local aliases resolved to access paths) "
                 "is compared with the declared dependencies and their transitive closure.",
                 ["attributes that are not cached quantities (plain Python attributes) are configuration fixed before "
                  "the first evaluation", "objects whose static type is unknown are not tracked"])
    rep.rule("reads-declared", "each cached quantity read by a recomputation is among the declared dependencies or "
             "is itself derived only from them", 150)
    rep.rule("handle-exposed", "an attribute with a cached-quantity handle `_x` is exposed as property `x`, so that "
             "plain reads and writes of `x` refresh and invalidate", 120)
    rep.rule("late-elements", "an element added after set-up to a list that a recomputation walks through is registered "
             "as a dependency of the recomputed quantity", 4)
    rep.rule("synchro-keys", "each member of a synchronised group can be rebuilt from every other member", 4)
    rep.rule("loop-closure", "a function that computes a cached quantity and is made in a loop keeps the values of its own round of the loop", 0)
    rep.rule("no-frozen-copy", "no recomputation uses a copy of a cached quantity that was made once (during set-up or at first use) and is never renewed", 1)
    fz = [x for x in frozen(m) if x[4]]
    for inst, msg, q, loc, _ in fz:
        rep.ob("no-frozen-copy", inst, False, msg, loc)
    rep.ob("no-frozen-copy", "set-up code", True, "", "")
    ncls = nq = nscratch = 0
    for c in sorted(m.prog.all_classes(), key=lambda x: x.name):
        if not any(m.dep_names.get(k) or m.dprops.get(k) for k in c.mro()):
            continue
        if c.module.name == "ipi.utils.depend":
            continue
        ncls += 1
        cov = Cover(g, c)
        for path, ds in g.decls(c).items():
            for d in ds:
                if path[0] != "self" and not (d.kind == "patch" and path[0].startswith("inst:") and d.ev.fn.cls in c.mro()):
                    continue
                if not d.funcs:
                    continue
                ocls = owner_cls(d.ev)
                if ocls is not None and ocls not in c.mro():
                    continue
                if "constraint_list" in path and d.kind != "patch" and not getattr(d, "patched", None):
                    continue          # same class, analysed with its own self          # declared by another object's own setup code: analysed there
                nq += 1
                owner = ocls.name if ocls is not None else c.name
                deps = set(d.deps)
                # everything declared for this very path in this class context
                if d.kind == "patch":
                    for f, dd in cov.declared(path):
                        deps |= dd
                deps.discard(path)
                anc_peers = cov.peers(path)
                synced = len(anc_peers) > 1
                for key, f in d.funcs:
                    reads, writes, tree = g.reads(c, f, d.norm)
                    for r, evs in reads.items():
                        rr = r
                        e = evs[0]
                        if rr in anc_peers:
                            continue
                        if rr[0] != "self" or not cov.is_dep(rr):
                            continue
                        # attributed to the class that declares it, so it is reported once
                        if owner != "ForceBead" and all(any(
                                x.cls is not None and x.cls.name == "ForceBead" and x.name == "queue"
                                for x in e2.stack + (e2.fn,)) for e2 in evs):
                            continue      # dispatching the request: the result is cached by the force bead itself
                        if scratch(rr) or exempt(owner, path, rr):
                            nscratch += 1
                            continue
                        inst = "%s.%s<-%s" % (owner, ".".join(path[1:]), ".".join(rr[1:]))
                        ok = cov.covered(rr, deps, tree, d.norm)
                        rep.ob("reads-declared", inst, ok,
                               "recomputing %s (declared at %s) reads %s, which is neither declared as a dependency nor "
                               "derived from declared ones; declared: %s" % (
                                   pstr(path), d.ev.loc(), pstr(rr), sorted(pstr(x) for x in deps)),
                               e.loc())
        rep.part("appends", appends, rep, m, g, c, cov)
        # exposure
        used = plain_uses(m, c)
        for x in sorted(m.dep_names.get(c, ())):
            if x not in used and x not in m.dprop_names(c):
                continue
            rep.ob("handle-exposed", "%s.%s" % (c.name, x), x in m.dprop_names(c),
                   "`_%s` is a cached quantity but `%s` is not registered with dproperties: plain access bypasses "
                   "refresh and invalidation" % (x, x), c.loc())
        # synchronised groups
        for p, grp in g.peers.get(c, {}).items():
            names = {}
            for q in grp:
                for d in g.decls(c).get(q, []):
                    names.setdefault(q, set()).update(k for k, f in d.funcs if k is not None)
            if p not in names or len(grp) < 2:
                continue
            if "_blist" in p:
                continue
            others = {q[-1] for q in grp if q != p and "_blist" not in q} - {p[-1]}
            rep.ob("synchro-keys", "%s.%s" % (c.name, ".".join(p[1:])), others <= names[p],
                   "no rebuild function from %s" % sorted(others - names[p]), c.loc())
    rep.part("closures", closures, rep, m)
    rep.extra.update(classes=ncls, quantities=nq, recompute_functions=g.nfunc, files=m.prog.nfiles,
                     scratch_reads_skipped=nscratch)
    return rep.finish()


if __name__ == "__main__":
    main(run, PID)
