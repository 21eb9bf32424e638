"""C05: what a checkpoint stores is what a restart puts back."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.repo import Cls
from vlib.inputs import InputModel, field_cls, class_dict, top_returns
from vlib.interp import events, prov, Branch, Seq, Loop, Inline, Ev, walk, EMPTY
from vlib.flow import Flow

PID = "C05"
# inputs that are consumed when a simulation starts and are not part of its state
CONSUMED = {("InputSystem", "initialize")}
# work arrays which every step overwrites before reading, and start-up switches of quantities that are themselves stored
ALTERNATIVE = {"fixatoms"}       # read only: another field holds the same information in the checkpoint
TRANSIENT = {("InputGeop", "old_pos"), ("InputGeop", "old_pot"), ("InputInst", "old_pos"), ("InputInst", "hessian_init")}


def match(s, t):
    s = tuple(x for x in s if x != "[]")
    t = tuple(x for x in t if x != "[]")
    n = min(len(s), len(t))
    return s[:n] == t[:n] and (n > 0)


def selection(test):
    """Conditions under which leaving a field out is legitimate: choice of a mode, absent or automatically computed value."""
    for n in ast.walk(test):
        if isinstance(n, ast.Compare):
            for op, c in zip(n.ops, n.comparators):
                if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(n.left, ast.Attribute) and isinstance(c, ast.Constant) \
                        and isinstance(c.value, (int, float)) and not isinstance(c.value, bool):
                    return False          # a number decides, not a mode or an absent value
                if isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                    continue
                return False
    return True


def stored_fields(tree, selective=False):
    """Sets of fields stored on each normally ending path (selective: assume legitimate conditions hold either way)."""
    def step(ev, s):
        if ev.kind == "fstore":
            return [s | {ev.path[1]}]
        if ev.kind in ("write", "mut") and ev.path[:2] == ("self", "extra"):
            return [s | {"extra"}]
        return [s]
    r = Flow(step, loop_once=lambda n: True).run(tree, [frozenset()])
    return [s for k in ("fall", "return") for s in r.get(k, ())]


def guards(tree):
    """field -> list of lists of undecided tests guarding its stores."""
    out = {}

    def rec(n, g):
        if isinstance(n, Seq):
            for x in n.items:
                rec(x, g)
        elif isinstance(n, Branch):
            rec(n.test, g)
            t = n.node.test if hasattr(n.node, "test") else None
            rec(n.a, g + [t])
            rec(n.b, g + [t])
        elif isinstance(n, Loop):
            rec(n.head, g)
            rec(n.body, g)
        elif isinstance(n, Inline):
            rec(n.body, g)
        elif hasattr(n, "body") and not isinstance(n, Ev):
            rec(n.body, g)
        elif isinstance(n, Ev) and n.kind == "fstore":
            out.setdefault(n.path[1], []).append(g)
    rec(tree, [])
    return out


def run(tier):
    m = model()
    prog = m.prog
    im = InputModel(m)
    rep = Report(PID, tier, technique="provenance (dataflow) analysis of store(), fetch() and the constructors: every stored attribute must flow back to itself",
                 explanation="For every input class and every engine class it can build, store() is analysed for an object of exactly that class (type and mode tests decided), "
                             "giving for each checkpoint field the attribute it is taken from; fetch() and the constructors are analysed with the stored mode, giving the "
                             "attributes that receive each field. The two maps must be inverse of each other and the same class must come back.",
                 assumptions=["values are compared by provenance, not by value: a wrong conversion of the right attribute is not seen here",
                              "text encoding of the individual values is covered by its own property"])
    rep.rule("pairs", "input class and engine class pairs analysed", minimum=50)
    rep.rule("class-back", "storing an object and fetching it gives an object of the same class", minimum=40)
    rep.rule("field-back", "each attribute stored in a checkpoint field is restored from that same field", minimum=200)
    rep.rule("field-stored", "each field that restores an attribute was stored from that attribute", minimum=200)
    rep.rule("no-silent-skip", "a field is left out of the checkpoint only by choice of a mode or for automatically computed values", minimum=200)
    rep.rule("ctor-accepts", "the arguments fetched from the input are parameters of the constructor they are given to", minimum=30)
    rep.rule("list-current", "at every checkpoint each element of a list is stored, whether or not it was stored before", minimum=10)
    rep.rule("as-is", "stored and fetched values are passed on without arithmetic", minimum=60)
    rep.rule("fetch-always", "a restored attribute is set whatever the value in the checkpoint", minimum=10)
    rep.rule("kept-in-setup", "the set-up of an object replaces a restored attribute only when it is absent or does not fit", minimum=20)
    rep.rule("list-tags", "each element of a list is stored under a tag and input class that rebuilds it", minimum=12)

    inp = prog.cls("Input")
    classes = [c for c in prog.all_classes() if c.module.name.startswith("ipi.inputs") and c.is_sub(inp)
               and c.module.name != "ipi.inputs.initializer"]
    classes = [c for c in classes if used(prog, c)]      # classes no input file can reach are not part of any checkpoint
    pairs = []       # (I, C, via) ; via: None (fetch returns the object) or "dict"
    fetches = {}
    for I in classes:
        r = im.fetched(I)
        if r is None:
            continue
        ip, tree, ret = r
        fetches[I] = r
        if I.find("store") is None or im.is_base(I.find("store")):
            st = False
        else:
            st = True
        for a in ret:
            if a[0] == "inst":
                if st:
                    pairs.append((I, a[1], None))
                if True:
                    ev = im.news(tree).get(a[2])
                    star = ev.kwargs.get("**") if ev is not None else None
                    if star:
                        for p in prov(star):
                            if len(p) == 2 and p[0] == "self":
                                F = p[1]
                                d, at = im.fields(I)
                                if F in d:
                                    fc = field_cls(prog, d[F])
                                    if fc is not None and not im.is_base(fc.find("store")):
                                        pairs.append((fc, a[1], "dict"))
    seen = set()
    done = {}
    rep.part("as_is", as_is, rep, classes)
    rep.part("fetch_always", fetch_always, rep, classes)
    for I, C, via in pairs:
        if (I, C, via) in seen:
            continue
        seen.add((I, C, via))
        key = "%s:%s" % (I.name, C.name)
        rep.ob("pairs", key, True)
        rep.part("check_pair", check_pair, rep, im, I, C, via, key)
        rep.part("kept_in_setup", kept_in_setup, rep, m, im, I, C, via, done)
    for I, (ip, tree, ret) in fetches.items():
        rep.part("ctor_accepts", ctor_accepts, rep, im, I, tree)
    for I, C, via in seen:
        if via == "dict":
            d, at = im.fields(I)
            fip, ftree, ret = fetches[I] if I in fetches else (None, None, EMPTY)
            keys = set(d)
            for a in ret:
                if a[0] == "dict":
                    keys |= {c[1] for k, x in a[1] for c in k if c[0] == "const"}
            init = C.find("__init__")
            names = set(init.params) | {x.arg for x in init.node.args.kwonlyargs}
            if init.node.args.kwarg is not None:
                b = C.find_after(init.cls, "__init__")
                names |= set(b.params) if b is not None else set()
            extra = sorted(k for k in keys if k not in names)
            rep.ob("ctor-accepts", "%s:%s" % (I.name, C.name), not extra, "the constructor of %s has no parameter %s" % (C.name, ", ".join(extra)), init.loc())
    for I in classes:
        r = im.stored(I, None)
        if r is None:
            continue
        d, at = im.fields(I)
        tree = r[1]
        got = {e.path[1] for e in events(tree, ("fstore",))}
        if any(e.kind == "call" and e.label and e.label.rsplit(".", 1)[-1] == "store" and "__dict__" in e.label for e in events(tree)):
            continue
        for f in list(d) + list(at):
            if f in ("units", "mode", "shape") or (I.name, f) in CONSUMED | TRANSIENT or f in ALTERNATIVE:
                continue
            rep.ob("field-stored", "%s:*:%s" % (I.name, f), f in got, "field '%s' is never stored by %s" % (f, I.name), I.find("store").loc())
    rep.part("tuples", tuples, rep, im, classes, fetches)
    good = {(I, C) for I, C, via in seen if via is None}
    parents = {}
    for I, C, via in seen:
        if via is None:
            parents.setdefault(I, []).append(C)
    parents = {I: cs[0] for I, cs in parents.items() if len(cs) == 1}
    parents[prog.cls("InputThermo")] = prog.cls("MultiThermo")
    parents[prog.cls("InputMotion")] = prog.cls("MultiMotion")
    rep.part("dynamic_lists", dynamic_lists, rep, im, classes, good, parents)
    return rep.finish()


def used(prog, c):
    if c.name == "InputSimulation":
        return True
    for mod in prog.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Name) and n.id == c.name or isinstance(n, ast.Attribute) and n.attr == c.name:
                if not (mod is c.module and c.node.lineno <= n.lineno <= c.node.end_lineno):
                    return True
    return False


def consts_of(tree):
    c = {}
    for e in events(tree, ("fstore",)):
        if e.args and len(e.args[0]) == 1:
            a = next(iter(e.args[0]))
            if a[0] == "const":
                c.setdefault(e.path[1], set()).add(a[1])
                continue
        c.setdefault(e.path[1], set()).add(None)
    return {k: next(iter(v)) for k, v in c.items() if len(v) == 1 and None not in v}


def sources(im, ip, tree, root):
    """field -> [(set of attribute paths, event)]"""
    news = im.news(tree)
    out = {}
    for e in events(tree, ("fstore", "write", "mut")):
        if e.kind == "fstore":
            f = e.path[1]
            vals = e.args
        elif e.path[:2] == ("self", "extra"):
            f = "extra"
            vals = (e.val,) if e.kind == "write" else e.args
        else:
            continue
        tup = [a for v in vals for a in v if a[0] == "tuple"]
        if e.kind == "fstore" and len(vals) == 1 and len(vals[0]) == 1 and tup and len(tup[0][1]) > 1:
            for i, x in enumerate(tup[0][1]):
                ps = {p[1:] + s for p, s in im.flows(ip, x, news) if p[:1] == root}
                out.setdefault("%s[%d]" % (f, i), []).append((ps, False, e))
        ps = set()
        whole = False
        for v in vals:
            for p, s in im.flows(ip, v, news):
                if p[:1] == root:
                    ps.add(p[1:] + s)
                    whole |= len(p) == 1
        out.setdefault(f, []).append((ps, whole, e))
    return out


def sinks(im, ip, tree, ret, C, via):
    """field -> set of attribute paths of the rebuilt object"""
    news = im.news(tree)
    out = {}
    stars = set()
    for p, s in im.flows(ip, ret, news):
        if p[0] != "self" or len(p) < 2:
            continue
        f = p[1]
        if len(p) > 2 and p[2] in ("[0]", "[1]", "[2]") and via is None and f != "extra":
            out.setdefault(f + p[2], set()).add(s)
        if via == "dict":
            if s and s[0].startswith("['"):
                prm = s[0][2:-2]
                for at in im.ctor(C).get(prm, ()):
                    out.setdefault(f, set()).add(at + s[1:])
        else:
            out.setdefault(f, set()).add(s)
    for a in ret:
        if a[0] == "inst" and a[1] is C:
            ev = news.get(a[2])
            if ev is not None and "**" in ev.kwargs:
                for p in prov(ev.kwargs["**"]):
                    if p[0] == "self" and len(p) >= 2:
                        stars.add(p[1])
    return out, stars


def check_pair(rep, im, I, C, via, key):
    r = im.stored(I, C)
    if r is None:
        return
    sip, stree, root = r
    stloc = I.find("store").loc()
    ends = stored_fields(stree)
    if not ends:
        rep.fail("class-back", key, "objects of class %s cannot be stored: every path of store() raises" % C.name, stloc)
        return
    consts = consts_of(stree)
    fip, ftree, ret = im.fetched(I, consts)
    ftloc = I.find("fetch").loc()
    if via is None:
        got = {a[1] for a in ret if a[0] == "inst"}
        rep.ob("class-back", key, got == {C}, "an object of class %s is restored as %s" % (C.name, sorted(x.name for x in got) or "nothing"), ftloc)
        if got != {C}:
            return
    src = sources(im, sip, stree, root)
    snk, stars = sinks(im, fip, ftree, ret, C, via)
    allf = set(src) | set(snk)
    g = guards(stree)
    for f in sorted(src):
        if f.endswith("]") and f not in snk:
            continue
        ps = [(p, w, e) for p, w, e in src[f] if p or w]
        if not ps:
            continue
        t = snk.get(f, set())
        ok = f in stars
        for p, w, e in ps:
            if any(match(x, y) for x in p for y in t) or (w and (f in stars or t)):
                ok = True
                continue
            if f in stars:
                continue
            if not t and not any(match(x, y) for x in p for ys in im.ctor(C).values() for y in ys):
                continue      # the attribute cannot be chosen for this class: it is the same for every object
            owner = e.fn.cls.name if e.fn.cls is not None else I.name
            rep.ob("field-back", "%s:%s:%s" % (owner, C.name, f), False,
                   "field '%s' is stored from %s but restored into %s" % (f, names(p), names(t) or "nothing"), e.loc())
            break
        else:
            rep.ob("field-back", "%s:%s" % (key, f), True)
        some = [s for s in ends if f.split("[")[0] in s]
        if len(some) < len(ends):
            gs = g.get(f, [])
            ok = all(selection(t) for gg in gs for t in gg if t is not None)
            rep.ob("no-silent-skip", "%s:%s" % (key, f), ok, "field '%s' is stored only under a condition on its value" % f, ps[0][2].loc())
        else:
            rep.ob("no-silent-skip", "%s:%s" % (key, f), True)
    for f in sorted(snk):
        if (I.name, f) in CONSUMED or (I.name, f) in TRANSIENT or f in consts:
            continue
        if f in src and any(p or w for p, w, e in src[f]):
            rep.ob("field-stored", "%s:%s" % (key, f), True)
            continue
        # the attribute may be covered by another stored field
        cov = any(f2 != f and snk.get(f2) == snk[f] for f2 in src)      # an alternative way of giving the same thing
        rep.ob("field-stored", "%s:%s" % (key, f), cov,
               "field '%s' restores %s but is not stored for objects of class %s" % (f, names(snk[f]), C.name), stloc)


def sized(test):
    """Does the condition only look at the size or shape of something?"""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" or isinstance(n, ast.Attribute) and n.attr in ("shape", "size", "_explicit")
               for n in ast.walk(test))


def locals_of(fn):
    out = {}
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            out.setdefault(n.targets[0].id, []).append(n.value)
    return out


def calc(e, loc, leaf, depth=0):
    """An arithmetic operation on a value accepted by leaf, outside sizes, indices and texts."""
    if isinstance(e, ast.Name) and depth < 3 and len(loc.get(e.id, ())) == 1:
        return calc(loc[e.id][0], loc, leaf, depth + 1)
    if isinstance(e, ast.BinOp) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        ops = [e.left, e.right] if isinstance(e, ast.BinOp) else [e.operand]
        if not any(isinstance(n, (ast.JoinedStr, ast.List)) or isinstance(n, ast.Constant) and isinstance(n.value, str) for o in ops for n in ast.walk(o)):
            for o in ops:
                o2 = loc[o.id][0] if isinstance(o, ast.Name) and len(loc.get(o.id, ())) == 1 else o
                if leaf(o2) and not isinstance(o2, ast.Constant):
                    return e
    if isinstance(e, ast.Call):
        f = e.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if nm in ("zeros", "ones", "empty", "len", "range", "reshape", "eye"):
            return None
    if isinstance(e, (ast.Lambda, ast.Compare, ast.Subscript)):
        return None
    for ch in ast.iter_child_nodes(e):
        if isinstance(ch, ast.keyword):
            ch = ch.value
        if isinstance(ch, ast.expr):
            r = calc(ch, loc, leaf, depth)
            if r is not None:
                return r
    return None


def as_is(rep, classes):
    for I in classes:
        for nm in ("store", "fetch"):
            f = I.methods.get(nm)
            if f is None:
                continue
            loc = locals_of(f)
            bad = None
            if nm == "store":
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "store":
                        for a in n.args:
                            bad = bad or calc(a, loc, lambda e: isinstance(e, (ast.Attribute, ast.Subscript)))
            else:
                def fetched(e):
                    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "fetch"
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        bad = bad or calc(n.value, loc, fetched)
                    elif isinstance(n, ast.Return) and n.value is not None:
                        bad = bad or calc(n.value, loc, fetched)
                    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                        bad = bad or calc(n.value, loc, fetched)
            rep.ob("as-is", "%s.%s" % (I.name, nm), bad is None, "the value is changed on the way: %s" % (ast.unparse(bad)[:80] if bad is not None else ""),
                   f.loc(bad) if bad is not None else f.loc())


def fetch_always(rep, classes):
    """Attributes set from a fetched value: the condition may look at modes, presence or size, not at the value."""
    for I in classes:
        f = I.methods.get("fetch")
        if f is None:
            continue
        loc = locals_of(f)

        def value(e, depth=0):
            for n in ast.walk(e):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "fetch":
                    return True
                if isinstance(n, ast.Name) and depth < 2 and any(value(v, depth + 1) for v in loc.get(n.id, ())):
                    return True
            return False

        def rec(body, tests):
            for st in body:
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Attribute) for t in st.targets) and value(st.value):
                    t = next(t for t in st.targets if isinstance(t, ast.Attribute))
                    bad = [x for x in tests if not selection(x) and not sized(x)]
                    rep.ob("fetch-always", "%s:%s" % (I.name, t.attr), not bad,
                           "attribute '%s' is restored only if %s" % (t.attr, ast.unparse(bad[0])[:80] if bad else ""), f.loc(st))
                elif isinstance(st, ast.If):
                    rec(st.body, tests + [st.test])
                    rec(st.orelse, tests + [st.test])
                else:
                    for k in ("body", "orelse", "finalbody"):
                        if isinstance(getattr(st, k, None), list):
                            rec(getattr(st, k), tests)
        rec(f.node.body, [])


def branches(n, gs, out):
    """(event, [tests]) for every event of a tree."""
    if isinstance(n, Ev):
        out.append((n, gs))
    elif isinstance(n, Seq):
        for x in n.items:
            branches(x, gs, out)
    elif isinstance(n, Branch):
        branches(n.test, gs, out)
        t = n.node.test if hasattr(n.node, "test") else None
        branches(n.a, gs + [t], out)
        branches(n.b, gs + [t], out)
    else:
        for ch in kids(n):
            branches(ch, gs, out)
    return out


def mentions(test, attr, fn, depth=0):
    loc = locals_of(fn)
    for n in ast.walk(test):
        if isinstance(n, ast.Attribute) and n.attr.lstrip("_") == attr:
            return True
        if isinstance(n, ast.Name) and depth < 3:
            if any(mentions(v, attr, fn, depth + 1) for v in loc.get(n.id, ())):
                return True
    return False


def flag(test, attr, C):
    """self.<flag> (possibly negated) that a constructor sets from the restored value."""
    for n in ast.walk(test):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            for k in C.mro():
                i = k.methods.get("__init__")
                if i is None:
                    continue
                sets = {}
                for s in ast.walk(i.node):
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Attribute):
                                sets.setdefault(t.attr.lstrip("_"), []).append(s)
                if n.attr.lstrip("_") in sets and attr in sets:
                    return True
    return False


def kept_in_setup(rep, m, im, I, C, via, done):
    b = C.find("bind")
    if b is None or im.is_base(I.find("store")):
        return
    r = im.stored(I, C)
    if r is None:
        return
    sip, stree, root = r
    fip, ftree, ret = im.fetched(I, consts_of(stree))
    snk, stars = sinks(im, fip, ftree, ret, C, via)
    back = {s[0] for ss in snk.values() for s in ss if len(s) >= 1}
    key = "%s:%s" % (I.name, C.name)
    if C not in done:
        ip = m.interp(maxdepth=6)
        ip.roots[("self",)] = C
        done[C] = branches(ip.run(b, C), [], [])
    bad = {}
    for e, gs in done[C]:
        if not (e.kind == "write" and e.how == "set" and e.path and len(e.path) == 2 and e.path[0] == "self"):
            continue
        a = e.path[1].lstrip("_")
        if a not in back and e.path[1] not in back:
            continue
        own = e.val is not None and any(p[:2] in (("self", a), ("self", "_" + a)) for p in prov(e.val))
        gs = [g for g in gs if g is not None]
        handle = e.path[1].startswith("_") and gs
        ok = own or handle or any(mentions(g, a, e.fn) or flag(g, a, C) for g in gs)
        if not ok:
            bad[a] = e
    rep.ob("kept-in-setup", key, not bad, "; ".join("the restored '%s' is overwritten when the object is set up" % a for a in sorted(bad)),
           next(iter(bad.values())).loc() if bad else b.loc())
    shapes(rep, m, C, back, done)


def shapes(rep, m, C, back, done):
    """if self.x.shape != S: self.x = zeros(S) -- the same S."""
    b = C.find("bind")
    if ("shape", C) in done:
        return
    done[("shape", C)] = True
    src = ast.unparse(b.node)
    if ".shape" not in src and not any(".shape" in ast.unparse(k.methods["bind"].node) for k in C.mro() if "bind" in k.methods):
        return
    from vlib.term import TE, subterms
    for P in TE(m.prog).run(b, C):
        for l in P.log:
            if l[0] != "set" or not (l[1][0] == "attr" and l[1][1] == ("arg", "self") and l[1][2] in back):
                continue
            v = l[2]
            v = v[2] if v[0] == "new" else v
            if v[0] != "call" or v[1] not in (("ext", "numpy.zeros"), ("ext", "numpy.ones"), ("ext", "numpy.empty")) or not v[2]:
                continue
            for g, pol in P.guards:
                if g[0] == "cmp" and g[1] in ("==", "!=") and ("attr", l[1], "shape") in g[2:4]:
                    other = g[3] if g[2] == ("attr", l[1], "shape") else g[2]
                    same = list(other[2]) == list(v[2][0][2]) if other[0] == "tup" and v[2][0][0] == "tup" else other == v[2][0]
                    rep.ob("kept-in-setup", "%s:%s:shape" % (C.name, l[1][2]), same and pol is (g[1] == "!="),
                           "the restored '%s' is replaced although its shape is the one required" % l[1][2], l[5 if len(l) > 5 else -1].loc(l[3]))


def names(ps):
    return ", ".join(sorted({".".join(p) for p in ps}))[:120]


def tuples(rep, im, classes, fetches):
    """Input classes that pass plain tuples: position i comes back as position i."""
    for I in classes:
        r = im.stored(I, None)
        if r is None or I not in fetches:
            continue
        fip, ftree, ret = fetches[I]
        tups = [a for a in ret if a[0] == "tuple"]
        if not tups:
            continue
        ip, tree, root = r
        news = im.news(tree)
        idx = {}
        for e in events(tree, ("fstore",)):
            for v in e.args:
                for p, s in im.flows(ip, v, news):
                    if p[:1] == root and len(p) == 2 and p[1].startswith("["):
                        idx.setdefault(e.path[1], set()).add(p[1])
        fnews = im.news(ftree)
        for t in tups:
            for i, x in enumerate(t[1]):
                for p, s in im.flows(fip, x, fnews):
                    if p[0] == "self" and len(p) >= 2 and idx:
                        rep.ob("field-back", "%s:%s:%d" % (I.name, p[1], i), "[%d]" % i in idx.get(p[1], ()),
                               "field '%s' is stored from %s but restored as element %d" % (p[1], sorted(idx.get(p[1], ())) or "nothing", i), I.find("fetch").loc())


def ctor_accepts(rep, im, I, tree, key=None):
    """Arguments given to a constructor are parameters of that constructor."""
    for e in events(tree, ("new",)):
        c = next((a[1] for a in e.fval if a[0] == "cls"), None)
        if c is None or c.name.startswith("depend_"):
            continue
        init = c.find("__init__")
        if init is None:
            continue
        a = init.node.args
        if a.kwarg is not None:
            # passed on to the base class
            base = c.find_after(init.cls, "__init__")
            names = set(init.params) | ({x.arg for x in a.kwonlyargs})
            if base is not None and base.node.args.kwarg is None:
                names |= set(base.params)
            else:
                continue
        else:
            names = set(init.params) | {x.arg for x in a.kwonlyargs}
        given = [k for k in e.kwargs if k != "**"]
        extra = [k for k in given if k not in names]
        rep.ob("ctor-accepts", "%s:%s" % (I.name, c.name), not extra and len(e.args) < len(init.params) + (100 if a.vararg else 0),
               "the constructor of %s has no parameter %s" % (c.name, ", ".join(extra) or "for all positional arguments"), e.loc())


def list_current(rep, tree, key, C, st):
    """Each element is stored at every checkpoint: into a new input that joins the list, or into the one already there."""
    def find(n, acc):
        if isinstance(n, Loop) and any(True for e in events(n.body, ("instore",))):
            acc.append(n)
        for ch in kids(n):
            find(ch, acc)
        return acc
    for lp in find(tree, []):
        if any(x is not lp for x in find(lp.body, [])):
            continue

        def step(e, s):
            if e.kind == "instore":
                return [s | {"new"}]
            if e.kind in ("write", "mut") and e.path[:2] == ("self", "extra"):
                return [s | {"joined"}]
            if e.kind == "fstore" and e.path[:2] == ("self", "extra"):
                return [s | {"updated"}]
            return [s]
        out = Flow(step).run(lp.body, [frozenset()])
        bad = [s for k in ("fall", "continue", "break") for s in out.get(k, ()) if not ("updated" in s or {"new", "joined"} <= s)]
        rep.ob("list-current", key, not bad, "an element of class %s can be left out when the list is stored (again)" % C.name, st.loc(lp.node) if hasattr(lp.node, "lineno") else st.loc())


def kids(n):
    if isinstance(n, Seq):
        return n.items
    out = []
    for a in ("test", "a", "b", "head", "body", "orelse", "final"):
        x = getattr(n, a, None)
        if isinstance(x, (Seq, Branch, Loop, Inline)) or hasattr(x, "body"):
            out.append(x)
    for h in getattr(n, "handlers", ()) or ():
        out.append(h[1])
    return out


def dynamic_lists(rep, im, classes, good, parents):
    """Elements of lists (force fields, systems, outputs ...): tag, input class and rebuilt class agree."""
    prog = im.prog
    for I in classes:
        dyn = class_dict(prog, I, "dynamic")
        st = I.find("store")
        if not dyn or st is None or im.is_base(st):
            continue
        dcls = {t: field_cls(prog, v) for t, v in dyn.items()}
        for par in (parents.get(I), None):
            ip, tree, root = im.stored(I, par)
            src = set()
            for e in events(tree, ("instore", "fstore")):
                if e.kind == "fstore" and e.path[:2] != ("self", "extra"):
                    continue
                for v in e.args:
                    for p in prov(v):
                        if p[:1] == root:
                            src.add(tuple(x for x in p if not x.startswith("[")))
            if src:
                break
        if not src:
            continue
        cands = sorted({C for t, D in dcls.items() if D is not None for (J, C) in good if J is D}, key=lambda c: c.name)
        for C in cands:
            ty = {p: C for p in src if p != root}
            ip, tree, root = im.stored(I, parents.get(I), extra_types=ty) if ty else im.stored(I, None, extra_types={root + ("[]",): C})
            got = {e.label for e in events(tree, ("instore",))}
            list_current(rep, tree, "%s:%s" % (I.name, C.name), C, st)
            tags = set()
            for e in events(tree, ("write", "mut")):
                if e.path[:2] != ("self", "extra"):
                    continue
                for v in ([e.val] if e.kind == "write" else list(e.args)):
                    for a in v:
                        if a[0] == "tuple" and len(a[1]) == 2:
                            tags |= {c[1] for c in a[1][0] if c[0] == "const"}
            key = "%s:%s" % (I.name, C.name)
            ok = len(got) == 1 and len(tags) == 1
            why = "elements of class %s are stored by %s under %s" % (C.name, sorted(got) or "nothing", sorted(map(str, tags)) or "no tag")
            if ok:
                D = prog.cls(next(iter(got)))
                t = next(iter(tags))
                ok = (D, C) in good and (dcls.get(t) is D or (dcls.get(t) is not None and D.is_sub(dcls[t])))
            rep.ob("list-tags", key, ok, why, st.loc())
            # every tag must be picked up again by fetch
            if ok:
                r = im.fetched(I, None, tag=t)
                if r is not None:
                    fip, ftree, ret = r
                    hit = any(p[:2] == ("self", "extra") for p, s in im.flows(fip, ret, im.news(ftree)))
                    for a in ret:
                        ev = im.news(ftree).get(a[2]) if a[0] == "inst" else None
                        if ev is not None:
                            hit = hit or any(p[:2] == ("self", "extra") for v in list(ev.args) + list(ev.kwargs.values()) for p, s in im.flows(fip, v, im.news(ftree)))
                    rep.ob("list-tags", "%s:%s:fetch" % (I.name, t), hit, "elements tagged '%s' are not used when fetching" % t, I.find("fetch").loc())


if __name__ == "__main__":
    main(run, PID)
