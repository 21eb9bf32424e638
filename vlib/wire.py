"""Wire traces: the sequence of fields a function sends and receives, on every path.

Built on the term evaluator. Concatenations of byte strings keep their order, additions in a loop become ("rep", iterable, pieces),
and every receive is a distinct term ("rx", k, dtype, size): the k-th thing received on the path.
"""
import ast
from .term import TE, c, mul, add, poly, mkpoly, subterms, isnum, NONE

STRIP_EXT = {"numpy.asarray", "numpy.ascontiguousarray", "numpy.array", "numpy.float64", "float", "ipi.utils.depend.dstrip"}
STRIP_ATTR = {"tobytes", "flatten", "ravel", "reshape", "copy", "astype", "view"}


def byteslike(t):
    if t[0] in ("cat", "rep"):
        return True
    if t[0] == "carry":
        return byteslike(t[2])
    if t[0] == "c":
        return isinstance(t[1], bytes)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("tobytes", "encode"):
        return True
    return msg(t) is not None


def msg(t):
    if t[0] == "ix" and t[1][0] == "glob" and t[1][2] == "MESSAGE" and t[2][0] == "c":
        return t[2][1].upper()
    if t[0] == "call" and t[1][0] == "fn" and t[1][1].endswith(":Message") and len(t[2]) == 1 and t[2][0][0] == "c":
        return t[2][0][1].upper()
    return None


class W(TE):
    RX = ("recvall", "recv_data")

    def bin(self, op, a, b):
        if isinstance(op, ast.Add) and (byteslike(a) or byteslike(b)):
            return self.cat(a, b)
        return TE.bin(self, op, a, b)

    def carried(self, s, p):
        names = {x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        it = p.loops[-1][1] if p.loops else NONE
        for n in names:
            if n in p.env and not (p.env[n][0] in ("new", "tup")):
                p.env[n] = ("carry", n, p.env[n], it)

    def s_For(self, s, p, fr):
        out = TE.s_For(self, s, p, fr)
        for q in out:
            for n, v in list(q.env.items()):
                if v[0] == "cat" and v[1][0][0] == "carry":
                    k = v[1][0]
                    q.env[n] = self.cat(k[2], ("rep", k[3], v[1][1:]))
                elif v[0] == "carry":
                    q.env[n] = v[2] if len(v) > 3 and byteslike(v[2]) else v
        return out

    def s_While(self, s, p, fr):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                v = p.env.get(x.id)
                p.env[x.id] = ("st", x.id) if v is None else ("st", x.id, v)
        return TE.s_While(self, s, p, fr)

    def docall(self, q, fv, a, kw, node, fr, fn, slf, cls):
        name = fv[2] if fv[0] == "attr" else fv[1].rsplit(":", 1)[-1] if fv[0] == "fn" else None
        if name in self.RX and a:
            k = sum(1 for l in q.log if l[0] == "call" and l[1][0] == "rx")
            dt, n = typed(a[-1])
            t = ("rx", k, dt, n, a[-1])
            q.log.append(("call", t, node, q.loops, fr.fn))
            return t
        return TE.docall(self, q, fv, a, kw, node, fr, fn, slf, cls)


def dtname(t):
    if t[0] == "ext":
        n = t[1].split(".")[-1]
        return {"float64": "f8", "float": "f8", "double": "f8", "int32": "i4", "intc": "i4", "uint8": "u1", "byte": "i1", "int64": "i8", "int": "i8", "float32": "f4", "single": "f4", "int16": "i2", "uint32": "u4"}.get(n, n)
    if t[0] == "call" and t[1] == ("ext", "numpy.dtype") and t[2]:
        return dtname(t[2][0])
    if t[0] == "c" and isinstance(t[1], str):
        return {"S1": "u1", "int32": "i4", "float64": "f8", "f8": "f8", "i4": "i4", "d": "f8", "i": "i4", "u1": "u1"}.get(t[1], t[1])
    return None


def size(t):
    """number of elements of a shape"""
    if t[0] == "tup":
        r = c(1)
        for x in t[2]:
            if x[0] == "star":
                return None
            r = mul(r, x)
        return r
    return t


def typed(t):
    """(dtype, number of elements) of a numpy value made for receiving"""
    if t[0] == "new":
        t = t[2]
    if t[0] == "st":
        return typed(t[2]) if len(t) > 2 else (None, None)
    if t[0] == "call" and t[1][0] == "ext":
        n = t[1][1].split(".")[-1]
        if n in ("zeros", "empty", "ones"):
            kw = dict(t[3])
            dt = kw.get("dtype", t[2][1] if len(t[2]) > 1 else ("ext", "float"))
            return dtname(dt), size(kw.get("shape", t[2][0] if t[2] else NONE))
        if n in ("float64", "int32"):
            return dtname(t[1]), c(1)
    return None, None


def bare(t):
    """t without conversions that keep the values and their order"""
    while True:
        if t[0] == "new":
            t = t[2]
        elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in STRIP_EXT and t[2] and t[2][0][0] != "tup":
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "fn" and t[1][1].endswith(":dstrip") and t[2]:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in STRIP_ATTR:
            if t[1][2] == "astype" and (not t[2] or dtname(t[2][0]) != "f8"):
                return t
            t = t[1][1]
        else:
            return t


def pieces(t):
    """fields of a sent byte string: ("msg", X) / ("i4", term) / ("raw", term) / ("txt", term) / ("rep", iterable, [fields])"""
    if t[0] == "cat":
        return [x for y in t[1] for x in pieces(y)]
    if t[0] == "rep":
        return [("rep", t[1], tuple(x for y in t[2] for x in pieces(y)))]
    m = msg(t)
    if m is not None:
        return [("msg", m)]
    x = t
    if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "tobytes":
        x = x[1][1]
    if x[0] == "call" and x[1] == ("ext", "numpy.int32") and len(x[2]) == 1:
        return [("i4", x[2][0])]
    if x[0] == "call" and x[1] == ("ext", "numpy.float64") and len(x[2]) == 1:
        return [("f8", x[2][0])]
    if x[0] == "call" and x[1] in (("ext", "numpy.int64"), ("ext", "numpy.int16"), ("ext", "numpy.uint32"), ("ext", "numpy.float32")):
        return [(dtname(x[1]), x[2][0] if x[2] else NONE)]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "encode":
        return [("txt", t[1][1])]
    if x is not t:
        return [("raw", bare(x), x)]
    return [("raw", bare(t), t)]


def nat_of(t, pos):
    """t with len(pos) and pos.size read as 3*nat, as a polynomial in ("nat",)"""
    n3 = mul(c(3), ("nat",))
    if t in (("len", pos), ("attr", pos, "size"), ("call", ("attr", pos, "__len__"), (), ())):
        return n3
    if t[0] == "ix" and t[1] == ("attr", pos, "shape") and t[2] == c(0):
        return n3
    if t[0] == "bin" and t[1] == "FloorDiv":
        a, b = nat_of(t[2], pos), t[3]
        if isnum(b) and b[1]:
            d = poly(a)
            if all(v % b[1] == 0 for v in d.values()):
                return mkpoly({k: v // b[1] for k, v in d.items()})
        return t
    if t[0] == "call" and t[1] == ("ext", "int") and len(t[2]) == 1:
        return nat_of(t[2][0], pos)
    if t[0] == "p":
        r = c(0)
        for m, v in t[1]:
            x = c(v)
            for f, e in m:
                y = nat_of(f, pos)
                for _ in range(int(e) if e == int(e) and e > 0 else 0):
                    x = mul(x, y)
                if e != int(e) or e <= 0:
                    return t
            r = add(r, x)
        return r
    return t


def plain(t):
    """drop int()/float() around a value"""
    while t[0] == "call" and t[1] in (("ext", "int"), ("ext", "float")) and len(t[2]) == 1:
        t = t[2][0]
    return t
