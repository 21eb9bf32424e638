"""Loads i-PI's Python sources into a resolved program model (no import, no execution).

Modules, classes (with C3-like MRO over the classes found in the tree), functions,
import resolution (including ``from m import *``), and source positions.
"""
import ast
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the analysis needs has vanished: no verdict is possible."""


class Func:
    """A function or method definition (or a lambda)."""

    __slots__ = ("name", "node", "module", "cls", "qual", "decorators", "closure", "parent")

    def __init__(self, name, node, module, cls=None, parent=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.closure = None
        base = cls.name + "." if cls is not None else ""
        if parent is not None:
            base = parent.qual + "."
        self.qual = base + name
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            try:
                self.decorators.append(ast.unparse(d))
            except Exception:
                pass

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def loc(self, node=None):
        n = node if node is not None else self.node
        return "%s:%d (%s)" % (self.module.path, getattr(n, "lineno", 0), self.qual)

    def __repr__(self):
        return "<Func %s %s>" % (self.module.name, self.qual)


class Cls:
    __slots__ = ("name", "node", "module", "base_exprs", "methods", "attrs", "_mro", "prog", "body_assigns")

    def __init__(self, name, node, module, prog):
        self.name = name
        self.node = node
        self.module = module
        self.prog = prog
        self.base_exprs = node.bases
        self.methods = {}
        self.body_assigns = {}
        self._mro = None
        for st in node.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(st.name, st, self.module, self)
            # property setters share the getter's name: keep the getter under the name
            if any(d.endswith(".setter") for d in f.decorators):
                self.methods[st.name + ".setter"] = f
            else:
                self.methods[st.name] = f
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.body_assigns[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.body_assigns[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._collect(s)

    def bases(self):
        out = []
        for b in self.base_exprs:
            r = self.prog.resolve_expr(self.module, b)
            if isinstance(r, Cls):
                out.append(r)
        return out

    def mro(self):
        if self._mro is None:
            seqs = []
            out = [self]
            bs = self.bases()
            seqs = [list(b.mro()) for b in bs] + [list(bs)]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
            self._mro = out
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, owner, name):
        m = self.mro()
        if owner in m:
            m = m[m.index(owner) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_assign(self, name):
        for c in self.mro():
            if name in c.body_assigns:
                return c, c.body_assigns[name]
        return None

    def is_sub(self, other):
        return other in self.mro()

    def loc(self):
        return "%s:%d (%s)" % (self.module.path, self.node.lineno, self.name)

    def __repr__(self):
        return "<Cls %s>" % self.name


class Module:
    def __init__(self, name, path, tree, src, prog):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.prog = prog
        self.classes = {}
        self.functions = {}
        self.assigns = {}
        self.imports = {}      # local name -> ("mod", m) | ("from", m, name)
        self.star = []
        self.is_pkg = path.endswith("__init__.py")
        self._scan(tree.body)

    def _abs(self, level, mod):
        if not level:
            return mod or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)] if level > 1 else parts
        return ".".join(parts + ([mod] if mod else []))

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = Cls(st.name, st, self, self.prog)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(st.name, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns.setdefault(st.target.id, st.value)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                m = self._abs(st.level, st.module)
                for a in st.names:
                    if a.name == "*":
                        self.star.append(m)
                    else:
                        self.imports[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(st, (ast.If, ast.With)):
                self._scan(st.body)
                self._scan(getattr(st, "orelse", []))
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)


class Program:
    def __init__(self, root=None, extra=("drivers/py/driver.py",), pkg="ipi"):
        self.root = root or REPO
        self.modules = {}
        self.nfiles = 0
        self._load_tree(pkg)
        for e in extra:
            p = os.path.join(self.root, e)
            if os.path.exists(p):
                self._load(p, os.path.splitext(e.replace("/", "."))[0])
        self._byname = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self._byname.setdefault(c.name, []).append(c)

    def _load_tree(self, pkg):
        top = os.path.join(self.root, pkg)
        for d, dn, fn in os.walk(top):
            dn[:] = sorted(x for x in dn if x not in ("__pycache__", "tests", "test"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                self._load(p, name)

    def _load(self, p, name):
        with open(p, encoding="utf-8") as fh:
            src = fh.read()
        try:
            tree = ast.parse(src, p)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (p, e))
        self.nfiles += 1
        self.modules[name] = Module(name, os.path.relpath(p, self.root), tree, src, self)

    # ---- resolution -------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken("module %s has vanished" % name)
        return m

    def cls(self, name, module=None):
        if module is not None:
            m = self.module(module)
            r = self.lookup(m, name)
            if isinstance(r, Cls):
                return r
            raise AnalysisBroken("class %s.%s has vanished" % (module, name))
        cs = self._byname.get(name, [])
        if not cs:
            raise AnalysisBroken("class %s has vanished" % name)
        return cs[0]

    def has_cls(self, name):
        return name in self._byname

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def subclasses(self, c, strict=False):
        return [k for k in self.all_classes() if c in k.mro() and (not strict or k is not c)]

    def lookup(self, mod, name, seen=None):
        """Resolve a global name in a module to Cls / Func / Module / ('assign', mod, expr) / None."""
        seen = seen or set()
        key = (mod.name, name)
        if key in seen:
            return None
        seen.add(key)
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.functions:
            return mod.functions[name]
        if name in mod.imports:
            im = mod.imports[name]
            if im[0] == "mod":
                return self.modules.get(im[1]) or ("ext", im[1])
            m, nm = im[1], im[2]
            if m in self.modules:
                r = self.lookup(self.modules[m], nm, seen)
                if r is not None:
                    return r
            if m + "." + nm in self.modules:
                return self.modules[m + "." + nm]
            return ("ext", m + "." + nm)
        if name in mod.assigns:
            return ("assign", mod, name, mod.assigns[name])
        for s in mod.star:
            if s in self.modules:
                r = self.lookup(self.modules[s], name, seen)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, mod, expr):
        if isinstance(expr, ast.Name):
            return self.lookup(mod, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(mod, expr.value)
            if isinstance(b, Module):
                r = self.lookup(b, expr.attr)
                if r is None and b.name + "." + expr.attr in self.modules:
                    return self.modules[b.name + "." + expr.attr]
                return r
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + expr.attr)
        return None


_cache = {}


def load(root=None):
    root = root or REPO
    if root not in _cache:
        sys.setrecursionlimit(20000)
        _cache[root] = Program(root)
    return _cache[root]
