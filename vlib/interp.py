"""Abstract interpreter: turns a function (with callees inlined) into an *effect tree*.

Nothing is executed.  Local names are resolved to access paths ("self.beads.q"), raw buffer
aliases of such paths (what ``dstrip`` and numpy views hand out), constants, functions and
containers, so that the effect tree talks about *what is touched*, not how it is spelled:
extracting a helper, introducing an alias, renaming a local or re-ordering independent
statements leaves the effects unchanged.

Tree nodes (all subclasses of Node):
  Seq, Ev (leaf event), Branch, Loop, Try, Inline, With
Leaf event kinds:
  read   path
  write  path   how in {set, aug, item, itemaug, del}  raw: bool  val: Val
  mut    path   how = mutator method name (append, sort, ...)  raw: bool
  call   label  val/args
  return / raise / break / continue
"""
import ast
from .repo import Func, Cls, Module

FRESH = ("fresh",)
UNK = ("unk",)
NONE = ("const", None)
EMPTY = frozenset()


def V(*atoms):
    return frozenset(atoms)


VFRESH = V(FRESH)
VUNK = V(UNK)


class Node:
    __slots__ = ("node", "fn", "stack")


class Seq(Node):
    __slots__ = ("items",)

    def __init__(self, items=None):
        self.items = items if items is not None else []


class Ev(Node):
    __slots__ = ("kind", "path", "how", "raw", "val", "label", "args", "kwargs", "fval", "aux")

    def __init__(self, kind, node, fn, stack, path=None, how=None, raw=False, val=EMPTY,
                 label=None, args=(), kwargs=None, fval=EMPTY, aux=None):
        self.kind = kind
        self.node = node
        self.fn = fn
        self.stack = stack
        self.path = path
        self.how = how
        self.raw = raw
        self.val = val
        self.label = label
        self.args = args
        self.kwargs = kwargs or {}
        self.fval = fval
        self.aux = aux

    def loc(self):
        return self.fn.loc(self.node)

    def chain(self):
        return " > ".join(f.qual for f in self.stack + (self.fn,))

    def __repr__(self):
        return "<%s %s %s%s @%s>" % (self.kind, self.label or pstr(self.path), self.how or "",
                                     " raw" if self.raw else "", getattr(self.node, "lineno", 0))


class Branch(Node):
    __slots__ = ("test", "testval", "a", "b", "shortcut", "idx")

    def __init__(self, test, testval, a, b, node, fn, stack):
        self.test, self.testval, self.a, self.b = test, testval, a, b
        self.node, self.fn, self.stack = node, fn, stack


class Loop(Node):
    __slots__ = ("head", "body", "orelse", "kind", "iterval")

    def __init__(self, kind, head, body, orelse, iterval, node, fn, stack):
        self.kind, self.head, self.body, self.orelse, self.iterval = kind, head, body, orelse, iterval
        self.node, self.fn, self.stack = node, fn, stack


class Try(Node):
    __slots__ = ("body", "handlers", "orelse", "final")

    def __init__(self, body, handlers, orelse, final, node, fn, stack):
        self.body, self.handlers, self.orelse, self.final = body, handlers, orelse, final
        self.node, self.fn, self.stack = node, fn, stack


class Inline(Node):
    __slots__ = ("callee", "body", "self_path")

    def __init__(self, callee, body, node, fn, stack, self_path=None):
        self.callee, self.body = callee, body
        self.node, self.fn, self.stack = node, fn, stack
        self.self_path = self_path


class With(Node):
    __slots__ = ("ctx", "body")

    def __init__(self, ctx, body, node, fn, stack):
        self.ctx, self.body = ctx, body
        self.node, self.fn, self.stack = node, fn, stack


def pstr(p):
    if p is None:
        return "?"
    out = ""
    for c in p:
        if c.startswith("["):
            out += c
        else:
            out += ("." if out else "") + c
    return out


def walk(tree):
    """All nodes of an effect tree, in order."""
    stack = [tree]
    while stack:
        n = stack.pop()
        if n is None:
            continue
        yield n
        if isinstance(n, Seq):
            stack.extend(reversed(n.items))
        elif isinstance(n, Branch):
            stack.extend([n.b, n.a, n.test])
        elif isinstance(n, Loop):
            stack.extend([n.orelse, n.body, n.head])
        elif isinstance(n, Try):
            stack.extend([n.final, n.orelse] + [h for _, h in reversed(n.handlers)] + [n.body])
        elif isinstance(n, Inline):
            stack.append(n.body)
        elif isinstance(n, With):
            stack.extend([n.body] + [c for c in n.ctx])


def events(tree, kind=None):
    for n in walk(tree):
        if isinstance(n, Ev) and (kind is None or n.kind == kind or n.kind in kind):
            yield n


# numpy / array methods that return a view on (or the same object as) their receiver
VIEW_METHODS = {"reshape", "ravel", "view", "transpose", "squeeze", "swapaxes", "diagonal"}
VIEW_ATTRS = {"T", "real", "imag", "flat"}
COPY_METHODS = {"copy", "flatten", "astype", "tolist", "sum", "mean", "dot", "min", "max", "conj",
                "conjugate", "argsort", "nonzero", "any", "all", "prod", "item", "tobytes", "repeat"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "sort", "reverse", "fill",
            "resize", "itemset", "put", "popleft", "appendleft", "add", "discard", "setdefault", "setfield",
            "partition"}
ALIAS_FUNCS = {"asarray", "atleast_1d", "atleast_2d", "ascontiguousarray", "asanyarray", "reshape", "ravel",
               "transpose", "squeeze", "swapaxes", "moveaxis", "rollaxis", "diagonal", "broadcast_to", "real", "imag"}


INPLACE_FIRST = {"copyto", "put", "place", "putmask", "fill_diagonal", "at", "shuffle", "put_along_axis"}
BIN_UFUNCS = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power", "maximum", "minimum", "dot", "matmul"}
UN_UFUNCS = {"negative", "exp", "sqrt", "sin", "cos", "square", "absolute", "log", "conjugate"}


class Interp:
    """One analysis run.

    prog       : Program
    attr_type  : callable(cls, attr) -> Cls or None     static type of an attribute
    inline     : callable(func, self_cls, depth) -> bool  inlining policy
    is_depend  : callable(cls, attr) -> bool             is `_attr` a cached-quantity handle
    """

    def __init__(self, prog, attr_type=None, inline=None, maxdepth=8, is_depend=None, budget=60000,
                 class_of_root=None, dep_calls=None, dep_kind=None):
        self.prog = prog
        self.attr_type = attr_type or (lambda c, a: None)
        self.inline = inline or (lambda f, c, d: True)
        self.maxdepth = maxdepth
        self.is_depend = is_depend or (lambda c, a: False)
        self.budget = budget
        self.n = 0
        self.roots = dict(class_of_root or {})
        self._dep_kind = dep_kind or (lambda c, a: None)
        self.instances = {}
        self.aliases = {}          # param path -> self path, learnt from `self.x = x`
        self.assigned = {}         # path -> Val joined over all writes seen (set only)
        self.unresolved = []
        self.kw_consts = {}
        self.trace_locals = False  # emit an event for each assignment to a local name
        self.taint = False         # keep the provenance of computed values as ("src", path) atoms
        self.call_hook = None      # f(frame, call, recv, fval, args, kwargs) -> Val or None
        self.decide = None         # f(frame, test) -> True / False / None
        self.known = {}            # path -> Val fixed by the scenario
        self.unroll = False        # unroll loops over literal sequences

    # -- typing --------------------------------------------------------
    def path_cls(self, path):
        if not path:
            return None
        if path[:1] in self.roots:
            c = self.roots[path[:1]]
        elif path in self.roots:
            return self.roots[path]
        else:
            c = None
        c_prev = None
        i = 1
        while i < len(path):
            if path[: i + 1] in self.roots:
                c_prev, c = c, self.roots[path[: i + 1]]
                i += 1
                continue
            comp = path[i]
            if comp.startswith("["):
                # element of a typed list: attr_type may answer for "attr[]"
                c2 = self.attr_type(c_prev, path[i - 1] + "[]") if i >= 1 else None
                c_prev, c = c, c2
            else:
                c_prev = c
                c = self.attr_type(c, comp)
            i += 1
        return c

    def dep_kind(self, p):
        """depend_value / depend_array / None for a path (element components ignored)."""
        while p and p[-1].startswith("["):
            p = p[:-1]
        if len(p) < 2 or not self._dep_kind:
            return None
        return self._dep_kind(self.path_cls(p[:-1]), p[-1])

    # -- entry ---------------------------------------------------------
    def run(self, func, self_cls=None, self_path=("self",), args=None, closure=None, emit_inline=False):
        """Effect tree of one function; parameters become root paths unless given."""
        if self_cls is not None:
            self.roots[self_path] = self_cls
        env = dict(closure or {})
        ps = func.params
        a = func.node.args
        allp = list(ps) + [x.arg for x in a.kwonlyargs]
        static = "staticmethod" in func.decorators
        classm = "classmethod" in func.decorators
        for i, p in enumerate(allp):
            if i == 0 and func.cls is not None and not static and not isinstance(func.node, ast.Lambda):
                env[p] = V(("cls", func.cls)) if classm else V(("obj", self_path))
            elif args and p in args:
                env[p] = args[p]
            else:
                env[p] = V(("obj", ("arg:" + p,)))
        if a.vararg:
            env[a.vararg.arg] = V(("obj", ("arg:*" + a.vararg.arg,)))
        if a.kwarg:
            env[a.kwarg.arg] = V(("obj", ("arg:**" + a.kwarg.arg,)))
        fr = Frame(self, func, env, (), self_cls, 0)
        return fr.body()


class Frame:
    def __init__(self, ip, func, env, stack, self_cls, depth):
        self.ip = ip
        self.fn = func
        self.env = env
        self.stack = stack
        self.self_cls = self_cls
        self.depth = depth
        self.rets = EMPTY
        self.out = None
        self.globals = set()
        self.neq = {}
        self.jumps = []

    def tnt(self, *vals):
        """Provenance atoms of computed values (only when the analysis asks for them)."""
        if not self.ip.taint:
            return EMPTY
        return frozenset(("src", q) for v in vals for q in prov(v))

    # -- emission ------------------------------------------------------
    def emit(self, kind, node, **kw):
        self.ip.n += 1
        e = Ev(kind, node, self.fn, self.stack, **kw)
        self.out.items.append(e)
        return e

    def sub(self, f):
        save = self.out
        self.out = Seq()
        f()
        r = self.out
        self.out = save
        return r

    def body(self):
        n = self.fn.node
        if isinstance(n, ast.Lambda):
            def f():
                v = self.ev(n.body)
                self.rets |= v
                self.emit("return", n, val=v)
            return self.sub(f)
        return self.sub(lambda: self.block(n.body))

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    # -- statements ----------------------------------------------------
    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            m(s)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)
                elif isinstance(c, ast.stmt):
                    self.stmt(c)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.globals.update(s.names)

    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            m = self.ip.prog.modules.get(a.name if a.asname else a.name.split(".")[0])
            self.env[nm] = V(("mod", m)) if m else V(("ext", a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        for a in s.names:
            if a.name == "*":
                continue
            mod = self.fn.module._abs(s.level, s.module)
            m = self.ip.prog.modules.get(mod)
            r = self.ip.prog.lookup(m, a.name) if m else None
            self.env[a.asname or a.name] = self.wrap(r) if r is not None else V(("ext", "%s.%s" % (mod, a.name)))

    def s_FunctionDef(self, s):
        f = Func(s.name, s, self.fn.module, self.fn.cls, parent=self.fn)
        self.env[s.name] = V(("func", FuncVal(f, dict(self.env), None, self.self_cls, lexical=self)))

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        self.env[s.name] = VUNK

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else V(NONE)
        self.rets |= v
        self.emit("return", s, val=v)

    def s_Raise(self, s):
        lab = None
        if s.exc is not None:
            self.ev(s.exc)
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            try:
                lab = ast.unparse(e)
            except Exception:
                lab = None
        self.emit("raise", s, label=lab)

    def s_Break(self, s):
        if self.jumps:
            self.jumps[-1].append(dict(self.env))
        self.emit("break", s)

    def s_Continue(self, s):
        if self.jumps:
            self.jumps[-1].append(dict(self.env))
        self.emit("continue", s)

    def looped(self, f):
        """runs f (a pass over a loop body) and joins the environments of its jumps"""
        self.jumps.append([])
        r = self.sub(f)
        for e in self.jumps.pop():
            self.env = join(self.env, e)
        return r

    def s_Assert(self, s):
        self.ev(s.test)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                for p, raw in self.paths(self.ev(t.value)):
                    self.emit("write", s, path=p + (t.attr.lstrip("_") if False else t.attr,), how="del")
            elif isinstance(t, ast.Subscript):
                self.ev(t.slice)
                for p, raw in self.paths(self.ev(t.value)):
                    self.emit("write", s, path=p, how="del", raw=raw)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s, s.value)
            if self.ip.trace_locals:
                self.local(t, s.value)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            self.assign(s.target, v, s, s.value)

    def local(self, t, value):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.out.items.append(Ev("local", value if x is t else None, self.fn, self.stack, label=x.id))

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        t = s.target
        if self.ip.trace_locals:
            self.local(t, None)
        if isinstance(t, ast.Name):
            old = self.name(t.id)
            aliased = False
            for p, raw in self.paths(old):
                aliased = True
                self.emit("write", s, path=p, how="aug", raw=raw, val=v, aux=s, label="local")
            if not aliased:
                if any(a[0] in ("list", "tuple") for a in old):
                    self.env[t.id] = old | frozenset(a for a in v if a[0] in ("list", "tuple")) | VUNK
                else:
                    self.env[t.id] = frozenset(a for a in old if a[0] not in ("const",)) | VFRESH | self.tnt(old, v)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.attr(base, t.attr, t)
            for p, raw in self.paths(base):
                self.emit("write", s, path=p + (self.canon(p, t.attr),), how="aug", val=v, raw=t.attr.startswith("__value"), aux=s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            iv_ = self.ev(t.slice)
            for p, raw in self.paths(base):
                self.emit("write", s, path=p + self.idx(t.slice, base), how="itemaug", raw=raw, val=v, aux=s, args=(iv_,))

    def idx(self, sl, base=None):
        return ()

    def canon(self, p, attr):
        """Attribute component; cached-quantity handles `_x` keep a marker only in value kind."""
        return attr

    def assign(self, t, v, s, vexpr=None):
        if isinstance(t, ast.Name):
            if t.id in self.neq:
                self.neq = {a: b for a, b in self.neq.items() if a != t.id}
            if t.id in self.globals:
                self.emit("write", s, path=("global:" + t.id,), how="set", val=v, aux=s)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            parts = None
            for a in v:
                if a[0] in ("tuple", "list") and len(a[1]) == n and not any(isinstance(e, ast.Starred) for e in t.elts):
                    parts = [x | (parts[i] if parts else EMPTY) for i, x in enumerate(a[1])]
            for i, e in enumerate(t.elts):
                if parts is not None:
                    self.assign(e, parts[i], s)
                else:
                    if isinstance(e, ast.Starred):
                        e = e.value
                    self.assign(e, self.elem(v, i), s)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            for p, raw in self.paths(base):
                np_ = p + (t.attr,)
                self.emit("write", s, path=np_, how="set", val=v, aux=s, raw=raw)
                self.ip.assigned[np_] = self.ip.assigned.get(np_, EMPTY) | v
                if p == ("self",):
                    for a in v:
                        if a[0] == "obj" and a[1][0].startswith("arg:") and len(a[1]) <= 3:
                            self.ip.aliases.setdefault(a[1], np_)
                        elif a[0] == "inst" and not a[1].name.startswith("depend_"):
                            self.ip.aliases.setdefault(("inst:" + a[1].name,), np_)
            # objects constructed locally
            for a in base:
                if a[0] == "inst":
                    self.emit("iwrite", s, path=("inst:" + a[1].name, t.attr), how="set", val=v, aux=a[2])
                    self.ip.instances.setdefault(a[2], {})[t.attr] = v
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            iv = self.ev(t.slice)
            for p, raw in self.paths(base):
                self.emit("write", s, path=p, how="item", raw=raw, val=v, aux=s, args=(iv,))
            if isinstance(t.value, ast.Name) and t.value.id in self.env and any(x[0] == "dict" for x in self.env[t.value.id]):
                keys = [x[1] for x in iv if x[0] == "const"]
                new = EMPTY
                for x in self.env[t.value.id]:
                    if x[0] == "dict":
                        if len(iv) == 1 and keys:
                            new |= V(("dict", tuple(kv for kv in x[1] if kv[0] != iv) + ((iv, v),)))
                        else:
                            ex = self.neq.get(t.slice.id) if isinstance(t.slice, ast.Name) else None
                            kk = V(("notkeys", ex)) if ex else VUNK
                            new |= V(("dict", x[1] + ((kk, v),))) if len(x[1]) < 40 and (kk, v) not in x[1] else V(x)
                    else:
                        new |= V(x)
                self.env[t.value.id] = new
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def elem(self, v, i=None):
        out = EMPTY
        for a in v:
            if a[0] in ("tuple", "list"):
                if i is not None and i < len(a[1]):
                    out |= a[1][i]
                else:
                    for x in a[1]:
                        out |= x
            elif a[0] == "dict":
                out |= VUNK
            elif a[0] == "obj":
                # iterating over / unpacking a cached quantity hands out its storage
                if self.ip.taint and i is not None:
                    out |= V(("obj", a[1] + ("[%d]" % i,)))
                else:
                    out |= V(("raw", a[1])) if self.ip.dep_kind(a[1]) else V(("obj", a[1] + ("[]",)))
            elif a[0] == "raw":
                out |= V(("raw", a[1]))
            elif a[0] == "iter":
                out |= a[1]
            elif a[0] == "src":
                out |= V(a)
            elif a[0] == "const" and isinstance(a[1], (tuple, list)) and i is not None and i < len(a[1]):
                out |= V(("const", a[1][i]))
            else:
                out |= VUNK if a != FRESH else VFRESH
        return out

    # control flow
    def s_If(self, s):
        tv = EMPTY

        def t():
            nonlocal tv
            tv = self.ev(s.test)
        test = self.sub(t)
        if self.ip.decide is not None:
            d = self.ip.decide(self, s.test)
            if d is not None:
                self.out.items.append(test)
                self.block(s.body if d else s.orelse)
                return
        e0 = dict(self.env)
        e1 = self.refine(s.test, True)
        self.env = dict(e0)
        self.env.update(e1)
        a = self.sub(lambda: self.block(s.body))
        ea = self.env
        ta = terminates(s.body)
        self.env = dict(e0)
        self.env.update(self.refine(s.test, False))
        neq0 = self.neq
        t_ = s.test
        if isinstance(t_, ast.Compare) and len(t_.ops) == 1 and isinstance(t_.ops[0], ast.Eq) and isinstance(t_.left, ast.Name) \
                and isinstance(t_.comparators[0], ast.Constant):
            self.neq = dict(neq0)
            self.neq[t_.left.id] = neq0.get(t_.left.id, frozenset()) | {t_.comparators[0].value}
        b = self.sub(lambda: self.block(s.orelse))
        self.neq = neq0
        eb = self.env
        tb = terminates(s.orelse)
        if ta and not tb:
            self.env = eb
        elif tb and not ta:
            self.env = ea
        else:
            self.env = join(ea, eb)
        self.out.items.append(Branch(test, tv, a, b, s, self.fn, self.stack))

    def refine(self, test, pol):
        return {}

    def s_While(self, s):
        def dry():
            self.ev(s.test)
            self.block(s.body)
        e0 = dict(self.env)
        self.looped(dry)
        self.env = join(e0, self.env)
        head = self.sub(lambda: self.ev(s.test))
        body = self.looped(lambda: self.block(s.body))
        self.env = join(e0, self.env)
        orelse = self.sub(lambda: self.block(s.orelse))
        inf = isinstance(s.test, ast.Constant) and bool(s.test.value)
        self.out.items.append(Loop("forever" if inf else "while", head, body, orelse, EMPTY, s, self.fn, self.stack))

    def s_For(self, s):
        itv = EMPTY

        def h():
            nonlocal itv
            itv = self.ev(s.iter)
        head = self.sub(h)
        if self.ip.unroll and len(itv) == 1 and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            at = next(iter(itv))
            if at[0] in ("list", "tuple") and len(at[1]) <= 16:
                self.out.items.append(head)
                for x in at[1]:
                    self.assign(s.target, x, s)
                    self.block(s.body)
                self.block(s.orelse)
                return
        e0 = dict(self.env)
        ev = self.iter_elem(itv, s.iter)
        self.looped(lambda: (self.assign(s.target, ev, s), self.block(s.body)))
        self.env = join(e0, self.env)

        def b():
            self.assign(s.target, ev, s)
            if self.ip.trace_locals:
                self.local(s.target, None)
            self.block(s.body)
        body = self.looped(b)
        self.env = join(e0, self.env)
        orelse = self.sub(lambda: self.block(s.orelse))
        self.out.items.append(Loop("for", head, body, orelse, itv, s, self.fn, self.stack))

    s_AsyncFor = s_For

    def iter_elem(self, v, expr):
        return self.elem(v)

    def s_With(self, s):
        ctx = []
        for it in s.items:
            cv = EMPTY

            def c(it=it):
                nonlocal cv
                cv = self.ev(it.context_expr)
            cs = self.sub(c)
            cs_ev = Ev("ctx", it.context_expr, self.fn, self.stack, val=cv, label=safe_unparse(it.context_expr))
            cs.items.append(cs_ev)
            ctx.append(cs)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, cv, s)
        body = self.sub(lambda: self.block(s.body))
        self.out.items.append(With(ctx, body, s, self.fn, self.stack))

    s_AsyncWith = s_With

    def s_Try(self, s):
        e0 = dict(self.env)
        body = self.sub(lambda: self.block(s.body))
        eb = self.env
        hs = []
        envs = []
        for h in s.handlers:
            self.env = join(e0, eb)
            lab = safe_unparse(h.type) if h.type is not None else None
            if h.name:
                self.env[h.name] = VFRESH
            hb = self.sub(lambda: self.block(h.body))
            hs.append((lab, hb))
            if not terminates(h.body):
                envs.append(self.env)
        self.env = eb
        orelse = self.sub(lambda: self.block(s.orelse))
        for e in envs:
            self.env = join(self.env, e)
        final = self.sub(lambda: self.block(s.finalbody))
        self.out.items.append(Try(body, hs, orelse, final, s, self.fn, self.stack))

    s_TryStar = s_Try

    def s_Match(self, s):
        self.ev(s.subject)
        e0 = dict(self.env)
        outs = []
        tail = Seq()
        cur = tail
        nodes = []
        envs = []
        for c in s.cases:
            self.env = dict(e0)
            b = self.sub(lambda: self.block(c.body))
            envs.append(self.env)
            nodes.append(b)
        acc = Seq()
        for b in reversed(nodes):
            acc = Seq([Branch(Seq(), EMPTY, b, acc, s, self.fn, self.stack)])
        for e in envs:
            self.env = join(self.env, e)
        self.out.items.append(acc)

    # -- expressions ---------------------------------------------------
    def ev(self, e):
        if e is None:
            return V(NONE)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return VFRESH

    def paths(self, v):
        seen = set()
        for a in v:
            if a[0] in ("obj", "dep"):
                if (a[1], False) not in seen:
                    seen.add((a[1], False))
                    yield a[1], False
            elif a[0] == "raw":
                if (a[1], True) not in seen:
                    seen.add((a[1], True))
                    yield a[1], True

    def wrap(self, r):
        if isinstance(r, Cls):
            return V(("cls", r))
        if isinstance(r, Func):
            return V(("func", FuncVal(r, None, None, None)))
        if isinstance(r, Module):
            return V(("mod", r))
        if isinstance(r, tuple) and r[0] == "ext":
            return V(("ext", r[1]))
        if isinstance(r, tuple) and r[0] == "assign":
            ex = r[3]
            if isinstance(ex, ast.Constant):
                return V(("const", ex.value))
            if isinstance(ex, ast.Call):
                c = self.ip.prog.resolve_expr(r[1], ex.func)
                if isinstance(c, Cls):
                    p = ("global:" + r[2],)
                    self.ip.roots.setdefault(p, c)
                    return V(("obj", p))
            if isinstance(ex, (ast.Attribute, ast.Name)):
                rr = self.ip.prog.resolve_expr(r[1], ex)
                if rr is not None and rr is not r:
                    return self.wrap(rr)
            return V(("gassign", r[1].name, r[2]), ("obj", ("global:" + r[2],)))
        return VUNK

    def name(self, nm):
        if nm in self.env:
            return self.env[nm]
        r = self.ip.prog.lookup(self.fn.module, nm)
        if r is not None:
            return self.wrap(r)
        return V(("builtin", nm))

    def e_Name(self, e):
        return self.name(e.id)

    def e_Constant(self, e):
        return V(("const", e.value)) if isinstance(e.value, (str, int, float, bool, bytes, type(None))) else VFRESH

    def e_Tuple(self, e):
        return V(("tuple", tuple(self.ev(x) for x in e.elts)))

    def e_List(self, e):
        return V(("list", tuple(self.ev(x) for x in e.elts)))

    def e_Set(self, e):
        return V(("list", tuple(self.ev(x) for x in e.elts)))

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            kv = self.ev(k) if k is not None else VUNK
            vv = self.ev(v)
            items.append((kv, vv))
        return V(("dict", tuple(items)))

    def e_Lambda(self, e):
        f = Func("<lambda>", e, self.fn.module, self.fn.cls, parent=self.fn)
        return V(("func", FuncVal(f, dict(self.env), None, self.self_cls, lexical=self)))

    def e_IfExp(self, e):
        tv = EMPTY

        def t():
            nonlocal tv
            tv = self.ev(e.test)
        test = self.sub(t)
        if self.ip.decide is not None:
            d = self.ip.decide(self, e.test)
            if d is not None:
                self.out.items.append(test)
                return self.ev(e.body if d else e.orelse)
        r = [EMPTY, EMPTY]

        def fa():
            r[0] = self.ev(e.body)

        def fb():
            r[1] = self.ev(e.orelse)
        a, b = self.sub(fa), self.sub(fb)
        self.out.items.append(Branch(test, tv, a, b, e, self.fn, self.stack))
        return r[0] | r[1]

    def e_BoolOp(self, e):
        out = self.ev(e.values[0])
        first = True
        for i, v in enumerate(e.values[1:], 1):
            r = [EMPTY]

            def f():
                r[0] = self.ev(v)
            b = self.sub(f)
            if b.items:
                br = Branch(Seq(), EMPTY, b, Seq(), e, self.fn, self.stack)
                br.shortcut = "first" if first else "next"
                br.idx = i
                first = False
                self.out.items.append(br)
            out |= r[0]
        return out

    def e_Compare(self, e):
        vs = [self.ev(e.left)]
        for c in e.comparators:
            vs.append(self.ev(c))
        return VFRESH | self.tnt(*vs)

    def e_BinOp(self, e):
        l, r = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, ast.Add):
            ll = [a for a in l if a[0] in ("list", "tuple")]
            rr = [a for a in r if a[0] in ("list", "tuple")]
            if ll and rr:
                return V((ll[0][0], ll[0][1] + rr[0][1]))
        lc = [a for a in l if a[0] == "const"]
        rc = [a for a in r if a[0] == "const"]
        if len(l) == 1 and len(r) == 1 and lc and rc:
            try:
                x, y = lc[0][1], rc[0][1]
                if isinstance(x, str) and isinstance(y, str) and isinstance(e.op, ast.Add):
                    return V(("const", x + y))
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    ops = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y,
                           ast.Div: lambda: x / y, ast.FloorDiv: lambda: x // y}
                    if type(e.op) in ops:
                        return V(("const", ops[type(e.op)]()))
            except Exception:
                pass
        return VFRESH | self.tnt(l, r)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub) and len(v) == 1:
            a = next(iter(v))
            if a[0] == "const" and isinstance(a[1], (int, float)):
                return V(("const", -a[1]))
        return VFRESH | self.tnt(v)

    def e_JoinedStr(self, e):
        out = VFRESH
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                out |= self.tnt(self.ev(v.value))
        return out

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value else V(NONE)
        self.rets |= v
        return VUNK

    def e_YieldFrom(self, e):
        self.rets |= self.ev(e.value)
        return VUNK

    def _comp(self, e, elts):
        saved = dict(self.env)
        res = [EMPTY]

        def gen(i):
            if i == len(e.generators):
                vs = [self.ev(x) for x in elts]
                res[0] |= vs[-1]
                return
            g = e.generators[i]
            itv = EMPTY

            def h():
                nonlocal itv
                itv = self.ev(g.iter)
            head = self.sub(h)

            def b():
                self.assign(g.target, self.iter_elem(itv, g.iter), e)

                def inner(j):
                    if j == len(g.ifs):
                        gen(i + 1)
                        return
                    test = self.sub(lambda: self.ev(g.ifs[j]))
                    a = self.sub(lambda: inner(j + 1))
                    self.out.items.append(Branch(test, EMPTY, a, Seq(), g.ifs[j], self.fn, self.stack))
                inner(0)
            body = self.sub(b)
            self.out.items.append(Loop("for", head, body, Seq(), itv, e, self.fn, self.stack))
        gen(0)
        self.env = saved
        return res[0]

    def e_ListComp(self, e):
        v = self._comp(e, [e.elt])
        return V(("iter", v))

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        v = self._comp(e, [e.key, e.value])
        return VFRESH | self.tnt(v)

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x)
        return VFRESH

    def e_Subscript(self, e):
        b = self.ev(e.value)
        iv = self.ev(e.slice)
        out = EMPTY
        key = None
        if len(iv) == 1:
            a = next(iter(iv))
            if a[0] == "const":
                key = a[1]
        for a in b:
            if a[0] == "obj":
                c = self.ip.path_cls(a[1])
                gi = c.find("__getitem__") if isinstance(c, Cls) else None
                if gi is not None and gi.module.name != "ipi.utils.depend":
                    out |= self.call_func(FuncVal(gi, None, a[1], c), [iv], {}, e, "getitem")
                    continue
                if isinstance(e.slice, ast.Slice):
                    out |= V(a)
                elif self.ip.dep_kind(a[1]) == "depend_value":
                    out |= V(("raw", a[1]))
                else:
                    comp = "[%r]" % (key,) if key is not None and isinstance(key, (str,)) else "[]"
                    np_ = a[1] + (comp,)
                    if comp != "[]":
                        self.emit("read", e, path=np_)
                    out |= V(("obj", np_))
            elif a[0] == "dep":
                out |= V(("dep", a[1]))
            elif a[0] == "raw":
                out |= V(("raw", a[1]))
            elif a[0] in ("tuple", "list"):
                if isinstance(key, int) and -len(a[1]) <= key < len(a[1]):
                    out |= a[1][key]
                elif isinstance(e.slice, ast.Slice):
                    out |= V(a)
                else:
                    for x in a[1]:
                        out |= x
                    if not a[1]:
                        out |= VUNK
            elif a[0] == "dict":
                hit = EMPTY
                allv = EMPTY
                for k, v in a[1]:
                    if key is not None and any(y[0] == "notkeys" and key in y[1] for y in k):
                        continue
                    allv |= v
                    if key is not None and ("const", key) in k:
                        hit |= v
                out |= hit or allv or VUNK
            elif a[0] == "iter":
                out |= a[1]
            elif a == FRESH:
                out |= VFRESH
            elif a[0] == "src":
                out |= V(a)
            else:
                out |= VUNK
        return out

    def e_Attribute(self, e):
        b = self.ev(e.value)
        return self.attr(b, e.attr, e)

    def attr(self, b, name, e, read=True):
        out = EMPTY
        for a in b:
            k = a[0]
            if k == "obj":
                p = a[1]
                if p + (name,) in self.ip.known:
                    self.emit("read", e, path=p + (name,))
                    out |= self.ip.known[p + (name,)]
                    continue
                c = self.ip.path_cls(p)
                m = c.find(name) if isinstance(c, Cls) else None
                if m is not None and not isinstance(m.node, ast.Lambda):
                    if self.ip.taint and "property" in m.decorators and not self.ip.inline(m, c, self.depth):
                        self.emit("read", e, path=p + (name,))
                        out |= V(("obj", p + (name,)))
                    elif "property" in m.decorators or any(d.endswith("property") for d in m.decorators):
                        out |= self.call_func(FuncVal(m, None, p, c), [], {}, e, "property:" + name)
                    elif "staticmethod" in m.decorators:
                        out |= V(("func", FuncVal(m, None, None, c)))
                    else:
                        out |= V(("func", FuncVal(m, None, p, c)))
                    continue
                if isinstance(c, Cls):
                    fa = c.find_assign(name)
                    if fa is not None and isinstance(fa[1], ast.Call) and isinstance(fa[1].func, ast.Name) \
                            and fa[1].func.id == "property" and fa[1].args and isinstance(fa[1].args[0], ast.Name):
                        g = c.find(fa[1].args[0].id)
                        if g is not None and self.ip.taint and not g.module.name.startswith("ipi.inputs"):
                            self.emit("read", e, path=p + (name,))
                            out |= V(("obj", p + (name,)))
                            continue
                        if g is not None:
                            out |= self.call_func(FuncVal(g, None, p, c), [], {}, e, "property:" + name)
                            continue
                    if fa is not None and isinstance(fa[1], ast.Constant) and (p + (name,)) not in self.ip.assigned:
                        if isinstance(fa[1].value, (str, int, float, bytes)):
                            self.emit("read", e, path=p + (name,))
                            out |= V(("const", fa[1].value))
                            continue
                    if fa is not None and isinstance(fa[1], (ast.Name, ast.Attribute)) and (p + (name,)) not in self.ip.assigned:
                        r = self.ip.prog.resolve_expr(fa[0].module, fa[1])
                        if isinstance(r, Cls):
                            out |= V(("cls", r))
                            continue
                if name in VIEW_ATTRS and c is None and len(p) > 1:
                    out |= V(("raw", p)) if self.ip.dep_kind(p) else V(a)
                    continue
                if name == "_value":
                    self.emit("vread", e, path=p)
                    out |= V(("raw", p))
                    continue
                if name.startswith("_") and not name.startswith("__") and self.ip.is_depend(c, name[1:]):
                    out |= V(("dep", p + (name[1:],)))
                    continue
                np_ = p + (name,)
                if read:
                    self.emit("read", e, path=np_)
                out |= V(("obj", np_))
                fv = self.ip.assigned.get(np_)
                if fv:
                    for x in fv:
                        if x[0] in ("func", "inst", "cls", "const"):
                            out |= V(x)
            elif k == "dep":
                if name in ("_value", "get", "__get__", "__getitem__"):
                    self.emit("read", e, path=a[1])
                if name == "_value":
                    out |= V(("raw", a[1]))
                else:
                    out |= V(("obj", a[1] + (name,)))
            elif k == "raw":
                if name in VIEW_ATTRS:
                    out |= V(a)
                else:
                    out |= V(("rawattr", a[1], name))
            elif k == "inst":
                vals = self.ip.instances.get(a[2], {})
                c = a[1]
                if name in vals:
                    out |= vals[name]
                m = c.find(name) if isinstance(c, Cls) else None
                if m is not None:
                    if "property" in m.decorators:
                        out |= self.call_func(FuncVal(m, None, ("inst:" + c.name,), c), [], {}, e, "property:" + name)
                    else:
                        self.ip.roots.setdefault(("inst:" + c.name,), c)
                        out |= V(("func", FuncVal(m, None, ("inst:" + c.name,), c)))
                elif name not in vals:
                    nm = name
                    out |= V(("obj", ("inst:" + c.name, nm)))
            elif k == "mod":
                r = self.ip.prog.lookup(a[1], name)
                if r is None and (a[1].name + "." + name) in self.ip.prog.modules:
                    r = self.ip.prog.modules[a[1].name + "." + name]
                out |= self.wrap(r)
            elif k == "ext":
                out |= V(("ext", a[1] + "." + name))
            elif k == "cls":
                m = a[1].find(name)
                if m is not None:
                    out |= V(("func", FuncVal(m, None, None, a[1])))
                else:
                    fa = a[1].find_assign(name)
                    if fa is not None and isinstance(fa[1], ast.Constant):
                        out |= V(("const", fa[1].value))
                    else:
                        out |= V(("obj", ("cls:" + a[1].name, name)))
            elif k == "super":
                owner, cls, p = a[1], a[2], a[3]
                m = cls.find_after(owner, name) if isinstance(cls, Cls) else None
                if m is not None:
                    out |= V(("func", FuncVal(m, None, p, cls)))
                else:
                    out |= V(("superunk", name))
            elif k == "builtin":
                out |= V(("ext", a[1] + "." + name))
            elif k == "src":
                out |= V(a)
            elif k in ("fresh", "list", "tuple", "dict", "iter", "const"):
                out |= V(("meth", k, name))
            else:
                out |= V(("unkattr", name))
        return out

    # -- calls ---------------------------------------------------------
    def e_Call(self, e):
        fx = e.func
        # super()
        if isinstance(fx, ast.Name) and fx.id == "super" and "super" not in self.env:
            owner = self.fn.cls
            f = self.fn
            while f.cls is None and f.parent is not None:
                f = f.parent
            owner = f.cls
            sp = None
            for nm, v in self.env.items():
                if nm == (f.params[0] if f.params else "self"):
                    for a in v:
                        if a[0] == "obj":
                            sp = a[1]
            if e.args and isinstance(e.args[0], ast.Name):
                r = self.ip.prog.lookup(self.fn.module, e.args[0].id)
                if isinstance(r, Cls):
                    owner = r
            return V(("super", owner, self.self_cls or owner, sp or ("self",)))
        recv = None
        if isinstance(fx, ast.Attribute):
            recv = self.ev(fx.value)
            fv = self.attr(recv, fx.attr, fx, read=False)
        else:
            fv = self.ev(fx)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                done = False
                for at in v:
                    if at[0] in ("tuple", "list") and len(v) == 1:
                        args.extend(at[1])
                        done = True
                if not done:
                    args.append(V(("star",)) | v)
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            kv = self.ev(k.value)
            if k.arg is None:
                for at in kv:
                    if at[0] == "dict":
                        for kk, vv in at[1]:
                            for c in kk:
                                if c[0] == "const" and isinstance(c[1], str):
                                    kwargs[c[1]] = vv
                kwargs.setdefault("**", kv)
            else:
                kwargs[k.arg] = kv
        label = self.label(fx, fv, recv)
        out = EMPTY
        handled = False
        if self.ip.call_hook is not None:
            hv = self.ip.call_hook(self, e, recv, fv, args, kwargs)
            if hv is not None:
                return hv
        ev = self.emit("call", e, label=label, args=tuple(args), kwargs=kwargs, fval=fv, val=recv or EMPTY)
        # apply mutator effects
        if isinstance(fx, ast.Attribute) and fx.attr in MUTATORS and recv:
            for p, raw in self.paths(recv):
                if not any(a[0] == "func" for a in fv):
                    self.emit("mut", e, path=p, how=fx.attr, raw=raw or bool(self.ip.dep_kind(p)), args=tuple(args))
            if isinstance(fx.value, ast.Name) and fx.attr in ("append", "extend", "insert", "add"):
                nm = fx.value.id
                add = args[-1] if args else EMPTY
                if fx.attr == "extend":
                    add = self.elem(add)
                if nm in self.env:
                    new = EMPTY
                    for a in self.env[nm]:
                        if a[0] == "list":
                            new |= V(("list", a[1] + (add,))) if len(a[1]) < 24 else V(a)
                        elif a[0] == "iter":
                            new |= V(("iter", a[1] | add))
                        else:
                            new |= V(a)
                    self.env[nm] = new
        # numpy out= / in-place ufuncs
        if "out" in kwargs:
            for p, raw in self.paths(kwargs["out"]):
                self.emit("write", e, path=p, how="item", raw=raw or bool(self.ip.dep_kind(p)), val=VFRESH, aux=e)
        for a in fv:
            k = a[0]
            if k == "func":
                out |= self.call_func(a[1], args, kwargs, e, label)
                handled = True
            elif k == "cls":
                out |= self.construct(a[1], args, kwargs, e)
                handled = True
            elif k in ("ext", "builtin"):
                out |= self.ext_call(a[1], args, kwargs, e)
                handled = True
            elif k == "rawattr":
                nm = a[2]
                if nm in VIEW_METHODS:
                    out |= V(("raw", a[1]))
                else:
                    out |= VFRESH
                handled = True
            elif k == "meth":
                out |= VFRESH if a[1] != "dict" else VUNK
                if a[2] in ("get", "pop", "items", "values", "keys") and recv:
                    for r in recv:
                        if r[0] == "dict":
                            for kk, vv in r[1]:
                                out |= vv if a[2] in ("get", "pop", "values") else EMPTY
                            if a[2] == "items":
                                out |= V(("iter", V(("tuple", (VUNK, frozenset().union(*[vv for kk, vv in r[1]]) if r[1] else VUNK)))))
                if a[2] == "copy" and recv:
                    pass
                handled = True
            elif k == "obj":
                # method of an untyped object
                if isinstance(fx, ast.Attribute):
                    nm = fx.attr
                    if nm in VIEW_METHODS or nm in ("get", "values"):
                        for r in (recv or EMPTY):
                            if r[0] in ("obj", "raw"):
                                out |= (V(("raw", r[1])) if nm != "reshape" and self.ip.dep_kind(r[1]) else V(r)) if nm in VIEW_METHODS else V(("obj", r[1] + ("[]",)) if r[0] == "obj" else r)
                    elif nm == "items":
                        for r in (recv or EMPTY):
                            if r[0] == "obj":
                                out |= V(("iter", V(("tuple", (VFRESH, V(("obj", r[1] + ("[]",))))))))
                    elif nm in ("pop", "popleft"):
                        for r in (recv or EMPTY):
                            if r[0] == "obj":
                                out |= V(("obj", r[1] + ("[]",)))
                    else:
                        out |= VFRESH if nm in COPY_METHODS else VUNK
                else:
                    out |= VUNK
                handled = True
        if not handled:
            out |= VUNK
        if self.ip.taint and not any(a[0] in ("func", "cls") for a in fv):
            out |= self.tnt(recv or EMPTY, *args, *kwargs.values())
        ev.aux = out
        return out

    def label(self, fx, fv, recv):
        if isinstance(fx, ast.Attribute):
            names = []
            for a in (recv or EMPTY):
                if a[0] in ("obj", "dep", "raw"):
                    names.append(pstr(a[1]) + "." + fx.attr)
                elif a[0] == "ext":
                    names.append(a[1] + "." + fx.attr)
                elif a[0] == "mod":
                    names.append(a[1].name + "." + fx.attr)
                elif a[0] == "cls":
                    names.append(a[1].name + "." + fx.attr)
                elif a[0] == "super":
                    names.append("super." + fx.attr)
                elif a[0] == "inst":
                    names.append(a[1].name + "()." + fx.attr)
            return sorted(names)[0] if names else "?." + fx.attr
        if isinstance(fx, ast.Name):
            for a in fv:
                if a[0] == "ext":
                    return a[1]
                if a[0] == "cls":
                    return a[1].name
                if a[0] == "func":
                    return a[1].func.qual
            return fx.id
        return "?"

    def bind_args(self, f, args, kwargs, self_val):
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if self_val is not None and ps:
            pos = [self_val] + pos
        star = None
        for v in pos:
            if ("star",) in v:
                star = v
        for i, p in enumerate(ps):
            if i < len(pos) and ("star",) not in pos[i]:
                env[p] = pos[i]
            elif p in kwargs:
                env[p] = kwargs[p]
            else:
                j = i - (len(ps) - len(a.defaults))
                if star is not None or "**" in kwargs:
                    env[p] = VUNK
                    if "**" in kwargs:
                        for at in kwargs["**"]:
                            if at[0] == "obj":
                                env[p] = V(("obj", at[1] + ("[%r]" % p,)))
                elif j >= 0:
                    d = a.defaults[j]
                    env[p] = self.const_default(d, f)
                else:
                    env[p] = VUNK
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs[x.arg]
            elif d is not None:
                env[x.arg] = self.const_default(d, f)
            else:
                env[x.arg] = VUNK
        if a.vararg:
            env[a.vararg.arg] = V(("tuple", tuple(pos[len(ps):])))
        if a.kwarg:
            extra = tuple((V(("const", k)), v) for k, v in kwargs.items() if k not in env and k != "**")
            env[a.kwarg.arg] = V(("dict", extra))
        return env

    def const_default(self, d, f):
        if isinstance(d, ast.Constant):
            return V(("const", d.value)) if isinstance(d.value, (str, int, float, bool, bytes, type(None))) else VFRESH
        if isinstance(d, ast.Name):
            r = self.ip.prog.lookup(f.module, d.id)
            if r is not None:
                return self.wrap(r)
            # default bound at definition time in the enclosing scope
            if d.id in self.env:
                return self.env[d.id]
        return VFRESH

    def call_func(self, fval, args, kwargs, e, label):
        f = fval.func
        # intrinsic models
        im = self.intrinsic(f, args, kwargs, e)
        if im is not None:
            return im
        if self.depth >= self.ip.maxdepth or self.ip.n > self.ip.budget:
            return VUNK
        if sum(1 for x in self.stack + (self.fn,) if x.node is f.node) >= 1:
            return VUNK
        if not self.ip.inline(f, fval.cls, self.depth):
            return VUNK
        sv = None
        if fval.self_path is not None:
            sv = V(("obj", fval.self_path))
            if isinstance(fval.cls, Cls):
                self.ip.roots.setdefault(fval.self_path, fval.cls) if self.ip.path_cls(fval.self_path) is None else None
        elif "classmethod" in f.decorators and fval.cls is not None:
            sv = V(("cls", fval.cls))
        env = {}
        if fval.env is not None:
            env.update(fval.env)
            if fval.lexical is not None:
                # late binding: names of the still-live enclosing frame
                for k, v in fval.lexical.env.items():
                    env[k] = env.get(k, EMPTY) | v if k in env else v
        self_cls = fval.cls if fval.self_path is not None else (fval.lexcls if fval.env is not None else fval.cls)
        env.update(self.bind_args(f, args, kwargs, sv))
        fr = Frame(self.ip, f, env, self.stack + (self.fn,), self_cls, self.depth + 1)
        body = fr.body()
        if fr.falls_through():
            fr.rets |= V(NONE)
        self.out.items.append(Inline(f, body, e, self.fn, self.stack, fval.self_path))
        return fr.rets

    def falls_through(self):
        if isinstance(self.fn.node, ast.Lambda):
            return False
        return not terminates(self.fn.node.body)

    def construct(self, c, args, kwargs, e):
        key = "%s@%s:%d:%d" % (c.name, self.fn.module.name, getattr(e, "lineno", 0), getattr(e, "col_offset", 0))
        if c.name in ("depend_value", "depend_array", "synchronizer"):
            # one cached quantity per owning object
            ctx = [".".join(a[1]) if a[0] == "obj" else str(a[2]) for a in self.env.get("self", ()) if a[0] in ("obj", "inst")]
            key += "/" + ",".join(sorted(ctx))
        self.ip.instances.setdefault(key, {})
        self.emit("new", e, label=c.name, args=tuple(args), kwargs=kwargs, fval=V(("cls", c)), aux=key)
        return V(("inst", c, key))

    def intrinsic(self, f, args, kwargs, e):
        if f.name == "dstrip" and f.cls is None and args:
            out = EMPTY
            for a in args[0]:
                if a[0] in ("obj", "dep"):
                    out |= V(("raw", a[1]))
                elif a[0] == "inst":
                    out |= VFRESH
                else:
                    out |= V(a)
            return out
        return None

    def ext_call(self, name, args, kwargs, e):
        last = name.split(".")[-1]
        dst = []
        if last in INPLACE_FIRST and args and "." in name:
            dst = [args[0]]
        elif last in BIN_UFUNCS and len(args) >= 3 and "." in name:
            dst = [args[2]]
        elif last in UN_UFUNCS and len(args) >= 2 and "." in name:
            dst = [args[1]]
        for v in dst:
            for p, raw in self.paths(v):
                self.emit("write", e, path=p, how="item", raw=True, val=VFRESH, aux=e, label=last)
        if last in ALIAS_FUNCS and args:
            out = EMPTY
            for a in args[0]:
                if a[0] == "obj":
                    out |= V(("raw", a[1]))
                elif a[0] == "raw":
                    out |= V(a)
                else:
                    out |= VFRESH
            return out
        if last in ("partial",) and args:
            return args[0]
        if name == "getattr" and len(args) >= 2:
            got = EMPTY
            for c in args[1]:
                if c[0] == "const" and isinstance(c[1], str):
                    got |= self.attr(args[0], c[1], e)
            return got or VUNK
        if name == "setattr" and len(args) >= 3:
            for c in args[1]:
                if c[0] == "const" and isinstance(c[1], str):
                    for p, raw in self.paths(args[0]):
                        self.emit("write", e, path=p + (c[1],), how="set", val=args[2], aux=e)
                    for a in args[0]:
                        if a[0] == "inst":
                            self.emit("iwrite", e, path=("inst:" + a[1].name, c[1]), how="set", val=args[2], aux=a[2])
                            self.ip.instances.setdefault(a[2], {})[c[1]] = args[2]
            return V(NONE)
        if name in ("list", "tuple", "sorted", "reversed", "set", "iter", "next") and args:
            if name == "next":
                return self.elem(args[0])
            if name in ("list", "tuple", "sorted"):
                keep = frozenset(a for a in args[0] if a[0] in ("list", "tuple", "iter", "dict"))
                if keep:
                    return keep
            return V(("iter", self.elem(args[0])))
        if name == "zip":
            return V(("iter", V(("tuple", tuple(self.elem(a) for a in args)))))
        if name == "enumerate" and args:
            return V(("iter", V(("tuple", (VFRESH, self.elem(args[0]))))))
        if name in ("range", "np.arange", "numpy.arange"):
            return V(("iter", V(("idx",))))
        if name == "dict":
            return V(("dict", tuple((V(("const", k)), v) for k, v in kwargs.items() if k != "**")))
        if name in ("float", "int", "str", "len", "abs", "bool", "type", "isinstance"):
            return VFRESH
        if name == "map" and len(args) >= 2:
            for a in args[0]:
                if a[0] == "func":
                    return V(("iter", self.call_func(a[1], [self.elem(x) for x in args[1:]], {}, e, "map")))
            return VFRESH
        if last in ("copy", "deepcopy"):
            return VFRESH
        return VFRESH


class FuncVal:
    """A (possibly bound) function value."""
    __slots__ = ("func", "env", "self_path", "cls", "lexical", "lexcls", "cap")

    def __init__(self, func, env, self_path, cls, lexical=None):
        self.func = func
        self.env = env
        self.self_path = self_path
        self.cls = cls
        self.lexical = lexical
        self.lexcls = cls
        cap = ()
        if env:
            cap = tuple(sorted(((n, env[n]) for n in free_names(func.node) if n in env), key=lambda x: x[0]))
        self.cap = cap

    def __eq__(self, o):
        return isinstance(o, FuncVal) and self.func.node is o.func.node and self.self_path == o.self_path \
            and self.cap == o.cap

    def __hash__(self):
        return hash((id(self.func.node), self.self_path, tuple(n for n, _ in self.cap)))

    def __repr__(self):
        return "FuncVal(%s)" % self.func.qual


_free = {}


def free_names(node):
    k = id(node)
    if k not in _free:
        _free[k] = (node, frozenset(n.id for n in ast.walk(node) if isinstance(n, ast.Name)))
    return _free[k][1]


def safe_unparse(e):
    try:
        return ast.unparse(e)
    except Exception:
        return "?"


def join(a, b):
    out = {}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if x is None:
            out[k] = y
        elif y is None:
            out[k] = x
        else:
            out[k] = limit(x | y)
    return out


def limit(v):
    if len(v) > 40:
        keep = [a for a in v if a[0] in ("obj", "raw", "dep", "func")]
        return frozenset(keep[:60]) | VUNK
    return v


def terminates(stmts):
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.If) and s.orelse and terminates(s.body) and terminates(s.orelse):
            return True
        if isinstance(s, ast.With) and terminates(s.body):
            return True
        if isinstance(s, ast.Try) and ((terminates(s.body) and all(terminates(h.body) for h in s.handlers)) or terminates(s.finalbody)):
            return True
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(
                isinstance(x, ast.Break) for x in ast.walk(s)):
            return True
    return False


def prov(v):
    """Access paths a value may have been computed from."""
    out = set()
    for a in v:
        if a[0] in ("obj", "raw", "dep", "src", "rawattr"):
            out.add(a[1])
        elif a[0] in ("tuple", "list"):
            for x in a[1]:
                out |= prov(x)
        elif a[0] == "iter":
            out |= prov(a[1])
        elif a[0] == "dict":
            for k, x in a[1]:
                out |= prov(x)
    return out
