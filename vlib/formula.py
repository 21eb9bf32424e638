"""Compare what a method computes with a reference formula.

Both are evaluated to terms (vlib.term) and brought to a normal form in which sums, products, traces, triangles, scalar products and
axis sums are (multi)linear; what is compared is the set of attribute updates with the conditions each one needs."""
import ast
from .repo import Func
from .term import add, c, mkpoly, mul, poly, power, show, subterms, TooMany, NONE
from .comp16 import T16

SCALAR = {"V", "nbeads", "temp", "pext", "dt", "qdt", "tdt", "pdt", "natoms", "kb", "nsteps_geo", "inmts", "omegan2", "ndof", "hbar", "M", "tau", "pace", "cp_matrix"}
LIN = {"numpy.trace": 0, "numpy.triu": 0, "numpy.tril": 0, "numpy.transpose": 0, "numpy.sum": 0, "numpy.mean": 0, "numpy.diag": 0}
# functions that can express the same thing in another way: nothing is claimed about a formula that uses one the reference does not
OTHER = ("einsum", "matmul", "tensordot", "inner", "vdot", "outer", "multiply", "add", "subtract", "divide", "negative", "square", "einsum_path", "fromfunction",
         "stack", "vstack", "hstack", "concatenate", "reduce", "add.reduce", "fsum", "linalg.norm", "linalg.multi_dot", "inv", "lstsq", "where", "ones", "full", "tile",
         "repeat", "broadcast_to", "array", "kron", "diagonal", "cumsum", "identity", "squeeze", "atleast_1d", "atleast_2d", "expand_dims", "average", "mean")


class FT(T16):
    def carried(self, s, p):
        names = {x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        names |= {t.id for x in ast.walk(s) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
        for n in names:
            if n in p.env and not (p.env[n][0] in ("new", "tup")):
                p.env[n] = ("carry", n, p.env[n])


def scalar(t):
    if t[0] == "c":
        return True
    if t[0] == "attr":
        return t[2] in SCALAR
    if t[0] == "ix":
        return scalar(t[1])
    if t[0] == "p":
        return all(scalar(a) for k, v in t[1] for a, e in k)
    if t[0] == "call" and t[1] == ("ext", "numpy.trace") or t[0] == "len":
        return True
    return False


def split(t):
    """term -> [(scalar factor, rest)]"""
    out = []
    for k, v in poly(t).items():
        s, r = c(v), []
        for a, e in k:
            if scalar(a):
                s = mul(s, power(a, e)) if isinstance(e, int) else mul(s, mkpoly({((a, e),): 1}))
            else:
                r.append((a, e))
        out.append((s, mkpoly({tuple(r): 1}) if r else c(1)))
    return out


def name(t):
    if t[0] == "ext":
        return t[1]
    if t[0] in ("fn", "glob", "attr"):
        return str(t[-1])
    return ""


def norm(t, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, tuple):
        return t
    if t in memo:
        return memo[t]
    r = _norm(t, memo)
    memo[t] = r
    return r


def _norm(t, memo):
    if not t or not isinstance(t[0], str):
        return tuple(norm(x, memo) for x in t)
    if t[0] == "p":
        out = c(0)
        for k, v in t[1]:
            x = c(round(v, 12) if isinstance(v, float) else v)
            for a, e in k:
                b = norm(a, memo)
                if isinstance(e, int) and 0 < e < 4:
                    for _ in range(e):
                        x = mul(x, b)
                else:
                    x = mul(x, power(b, e) if isinstance(e, (int, float)) else mkpoly({((b, e),): 1}))
            out = add(out, x)
        return tidy(out)
    t = tuple(norm(x, memo) for x in t)
    if t[0] == "new":
        return t[2]
    if t[0] == "carry" and len(t) > 2:
        return ("carry", "_") + t[2:]           # whatever the loop variable is called
    if t[0] == "bin" and t[1] == "MatMult":
        t = ("call", ("ext", "numpy.dot"), (t[2], t[3]), ())
    if t[0] == "attr" and t[2] == "T":
        t = ("call", ("ext", "numpy.transpose"), (t[1],), ())
    if t[0] == "call":
        f, a, kw = t[1], t[2], t[3]
        if f[0] == "attr" and f[2] == "reshape":
            shape = a[0][2] if len(a) == 1 and a[0][0] == "tup" else a
            if shape and shape[-1] == c(3):
                shape = (c(-1), c(3))
            if f[1][0] == "p" or f[1][0] == "c":
                out = c(0)
                for s, r in split(f[1]):
                    out = add(out, mul(s, ("call", ("attr", r, "reshape"), tuple(shape), ()) if r != c(1) else c(1)))
                return tidy(out)
            return ("call", f, tuple(shape), ())
        if f[0] == "attr" and f[2] in ("dot", "sum", "trace", "copy", "flatten", "ravel", "transpose", "mean") and f[1][0] not in ("ext", "mod"):
            if f[2] in ("copy", "flatten", "ravel"):
                return f[1]
            t = ("call", ("ext", "numpy." + f[2]), (f[1],) + a, kw)
            return norm(t)
        n = name(f)
        if n == "noddot":
            f = ("ext", "numpy.dot")
            n = "numpy.dot"
        if n in LIN and a:
            if n == "numpy.transpose" and a[0][0] == "call" and a[0][1] == ("ext", "numpy.transpose"):
                return a[0][2][0]
            out = c(0)
            for s, r in split(a[0]):
                out = add(out, mul(s, ("call", f, (r,) + a[1:], kw)))
            return tidy(out)
        if n == "numpy.dot" and len(a) == 2:
            out = c(0)
            for s1, r1 in split(a[0]):
                for s2, r2 in split(a[1]):
                    x, y = r1, r2
                    if not any(mat(z) for z in (x, y)):
                        x, y = shift(x, y)
                        out = add(out, mul(mul(s1, s2), ("call", ("ext", "numpy.sum"), (x,), ())))
                        continue
                    out = add(out, mul(mul(s1, s2), ("call", ("ext", "numpy.dot"), (x, y), ())))
            return tidy(out)
        t = ("call", f, a, kw)
    return t


def mat(t):
    return any(x[0] == "call" and name(x[1]) in ("numpy.transpose", "numpy.eye") or x[0] == "attr" and x[2] in ("Dg", "Gram", "GramChol", "h", "ih", "C", "T", "S", "transform", "b2t")
               for x in subterms(t)) or any(x[0] == "call" and name(x[1]) == "reshape" for x in subterms(t))


def shift(x, y):
    """scalar product of two products of vectors: all factors on both sides commute"""
    p = mul(x, y)
    (k, v), = poly(p).items()
    num = [(a, e) for a, e in k]
    num.sort(key=repr)
    return mkpoly({tuple(num): v}), c(1)


def tidy(t):
    if t[0] != "p":
        return t
    return mkpoly({k: (round(v, 10) if isinstance(v, float) else v) for k, v in t[1]})


def rooted(t):
    while t[0] in ("attr", "ix", "elem"):
        t = t[1]
    return t[0] in ("arg", "new")


def plain(g):
    s = show(g)
    return "verbosity" in s or s.startswith("isinstance(") or "spla" in s or "scipy" in s or "hasattr" in s


def effects(prog, fn, cls, keep=(), assume=None, args=None, maxdepth=5, ignore=None, zeros=True):
    te = FT(prog, keep=lambda f: f.name in keep or f.name in ("warning", "info"), assume=assume, maxdepth=maxdepth)
    te.zeros = zeros
    memo = {}
    out = {}
    n = 0
    for p in te.run(fn, cls, args):
        if p.exit == "raise":
            continue
        n += 1
        last = {}
        for l in p.log:
            if l[0] == "set" and rooted(l[1]):
                last[norm(l[1], memo)] = norm(l[2], memo)
        if p.ret is not None and p.ret != NONE:
            last[("return",)] = norm(p.ret, memo)
        gs = frozenset((norm(g, memo), b) for g, b in p.guards if not plain(g))
        for kv in last.items():
            if kv[0] == kv[1] or ignore is not None and ignore(kv[0]):
                continue
            out[kv] = out[kv] & gs if kv in out else gs
    return out, n


def ref_func(src, like, cls):
    node = ast.parse(src).body[0]
    return Func(node.name, node, like.module, cls)


def compare(prog, cls, fn, src, keep=(), assume=None, maxdepth=5, ignore=None, conditions=True, zeros=True):
    """None if equal, ('no', text) if different, ('?', text) if it cannot be told."""
    try:
        ref, _ = effects(prog, ref_func(src, fn, fn.cls), cls, keep, assume, None, maxdepth, ignore, zeros)
        got, _ = effects(prog, fn, cls, keep, assume, None, maxdepth, ignore, zeros)
    except TooMany:
        return ("?", "too many paths")
    if not ref:
        return ("?", "the reference has no effect")

    def heads(e):
        return {name(x[1]) for t, v in e for x in subterms((t, v)) if x[0] == "call"} | {"carry" for t, v in e for x in subterms((t, v)) if x[0] in ("carry", "comp", "fold")}
    new = heads(got) - heads(ref)
    extra = [k for k in got if k not in ref]
    miss = [k for k in ref if k not in got]
    if not extra and not miss:
        if conditions:
            for k in ref:
                if ref[k] != got[k]:
                    return ("no", "%s is set under other conditions: %s" % (show(k[0])[:60], ", ".join("%s is %s" % (show(g)[:60], b) for g, b in sorted(ref[k] ^ got[k], key=repr))[:160]))
        return None
    if any(h.split("numpy.")[-1] in OTHER or h == "carry" or "." not in h and h not in ("", "T") and not h.startswith("numpy") for h in new):
        return ("?", "uses %s" % ", ".join(sorted(new)))
    k = (extra or miss)[0]
    other = [r for r in ref if r[0] == k[0]]
    return ("no", "%s becomes %s%s" % (show(k[0])[:80], show(k[1])[:200] if extra else "nothing new", ", expected %s" % show(other[0][1])[:200] if other and extra else ""))


def check(rep, rule, key, prog, cls, method, src, **kw):
    fn = cls.find(method)
    if fn is None:
        return
    r = compare(prog, cls, fn, src, **kw)
    if r is not None and r[0] == "?":
        rep.undecided = list(rep.undecided) + ["%s %s: %s" % (rule, key, r[1])]
        return
    rep.ob(rule, key, r is None, r[1] if r else "", fn.loc())
