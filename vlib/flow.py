"""Typestate / must-pass-through engine over effect trees.

run(tree, init, step, branch) explores every path of the tree with a finite set of abstract
states (loops to a fixpoint, exceptions may leave a ``try`` body after any event) and returns
{exit kind: set of states} with exit kinds fall / return / raise / break / continue.

step(ev, state)   -> iterable of successor states (default: unchanged)
branch(node, state) -> (states for the true arm, states for the false arm)
"""
from .interp import Seq, Ev, Branch, Loop, Try, Inline, With


class Flow:
    on_iter = None
    on_loop_exit = None
    on_handler = None

    def __init__(self, step, branch=None, enter_with=None, leave_with=None, on_inline=None, on_uninline=None,
                 may_raise=None, loop_once=None, try_body_only=None):
        self.step = step
        self.branch = branch or (lambda n, s: ([s], [s]))
        self.enter_with = enter_with or (lambda n, s: [s])
        self.leave_with = leave_with or (lambda n, s: [s])
        self.on_inline = on_inline
        self.on_uninline = on_uninline
        self.may_raise = may_raise or (lambda e: e.kind == "call")
        self.loop_once = loop_once or (lambda n: False)
        self.trace = None

    def run(self, tree, init):
        return self._n(tree, frozenset(init), None)

    def _merge(self, d, k, s):
        if s:
            d[k] = d.get(k, frozenset()) | s

    def _n(self, n, states, exc):
        """exc: None or a list collecting states at which an exception may be raised."""
        out = {}
        if n is None:
            return {"fall": states}
        if isinstance(n, Seq):
            cur = states
            for it in n.items:
                if not cur:
                    break
                r = self._n(it, cur, exc)
                for k, s in r.items():
                    if k != "fall":
                        self._merge(out, k, s)
                cur = r.get("fall", frozenset())
            self._merge(out, "fall", cur)
            return out
        if isinstance(n, Ev):
            new = set()
            for s in states:
                new.update(self.step(n, s))
            new = frozenset(new)
            if exc is not None and self.may_raise(n):
                exc.append(states)
                exc.append(new)
            if n.kind in ("return", "raise", "break", "continue"):
                if n.kind == "raise" and exc is not None:
                    exc.append(new)
                return {n.kind: new} if new else {}
            return {"fall": new}
        if isinstance(n, Branch):
            r = self._n(n.test, states, exc)
            for k, s in r.items():
                if k != "fall":
                    self._merge(out, k, s)
            ta, fa = set(), set()
            for s in r.get("fall", ()):
                a, b = self.branch(n, s)
                ta.update(a)
                fa.update(b)
            for arm, st in ((n.a, ta), (n.b, fa)):
                if not st:
                    continue
                r = self._n(arm, frozenset(st), exc)
                for k, s in r.items():
                    self._merge(out, k, s)
            return out
        if isinstance(n, Loop):
            r = self._n(n.head, states, exc)
            for k, s in r.items():
                if k != "fall":
                    self._merge(out, k, s)
            entry = r.get("fall", frozenset())
            seen = frozenset()
            work = entry
            brk = frozenset()
            once = self.loop_once(n)
            done = frozenset() if (n.kind == "forever" or once) else entry
            it = 0
            while work - seen and it < 200:
                it += 1
                new = work - seen
                seen |= new
                if self.on_iter is not None:
                    st = set()
                    for x in new:
                        st.update(self.on_iter(n, x))
                    new = frozenset(st)
                r = self._n(n.body, new, exc)
                for k, s in r.items():
                    if k in ("return", "raise"):
                        self._merge(out, k, s)
                brk |= r.get("break", frozenset())
                nxt = r.get("fall", frozenset()) | r.get("continue", frozenset())
                if n.kind == "while":
                    r2 = self._n(n.head, nxt, exc) if nxt else {}
                    nxt = r2.get("fall", frozenset())
                if n.kind != "forever":
                    done |= nxt
                work = nxt
            if self.on_loop_exit is not None:
                st = set()
                for x in done:
                    st.update(self.on_loop_exit(n, x))
                done = frozenset(st)
            if done and n.orelse is not None and n.orelse.items:
                r = self._n(n.orelse, done, exc)
                for k, s in r.items():
                    if k != "fall":
                        self._merge(out, k, s)
                done = r.get("fall", frozenset())
            self._merge(out, "fall", done | brk)
            return out
        if isinstance(n, Try):
            ex = []
            r = self._n(n.body, states, ex)
            exst = frozenset().union(*ex) if ex else frozenset()
            pre = {}
            for k, s in r.items():
                if k == "raise" and n.handlers:
                    exst |= s
                    continue
                self._merge(pre, k, s)
            if n.orelse is not None and n.orelse.items and pre.get("fall"):
                r2 = self._n(n.orelse, pre.pop("fall"), exc)
                for k, s in r2.items():
                    self._merge(pre, k, s)
            for lab, h in n.handlers:
                if exst:
                    hst = exst
                    if self.on_handler is not None:
                        hst = frozenset(y for x in exst for y in self.on_handler(n, lab, x))
                    r2 = self._n(h, hst, exc)
                    for k, s in r2.items():
                        self._merge(pre, k, s)
            if not n.handlers and exst:
                self._merge(pre, "raise", exst)
            elif exst and exc is not None:
                exc.append(exst)
            if n.final is not None and n.final.items:
                for k, s in pre.items():
                    r2 = self._n(n.final, s, exc)
                    for k2, s2 in r2.items():
                        self._merge(out, k if k2 == "fall" else k2, s2)
            else:
                out = pre
            return out
        if isinstance(n, Inline):
            if self.on_inline is not None:
                st = set()
                for s in states:
                    st.update(self.on_inline(n, s))
                states = frozenset(st)
            r = self._n(n.body, states, exc)
            for k, s in r.items():
                if k in ("fall", "return"):
                    if self.on_uninline is not None:
                        st = set()
                        for x in s:
                            st.update(self.on_uninline(n, x))
                        s = frozenset(st)
                    self._merge(out, "fall", s)
                else:
                    self._merge(out, k, s)
            return out
        if isinstance(n, With):
            cur = states
            for c in n.ctx:
                r = self._n(c, cur, exc)
                cur = r.get("fall", frozenset())
            st = set()
            for s in cur:
                st.update(self.enter_with(n, s))
            r = self._n(n.body, frozenset(st), exc)
            for k, s in r.items():
                st = set()
                for x in s:
                    st.update(self.leave_with(n, x))
                self._merge(out, k, frozenset(st))
            return out
        raise TypeError(n)


import ast as _ast


class CFlow(Flow):
    """Flow with branch correlation.  The constants returned by inlined callees are remembered per call
    site and the constants held by locals per assignment, so that a later test of the value only follows
    the arms it can reach; a test is split into its conjuncts and disjuncts.

    Client states are wrapped as (state, facts, last); `cstep(ev, s)`, `citer(loop, s)`, `cexit(loop, s)`
    and the two refiners see the client's part only:
      cbranch(node, s)       -> (states of true arm, states of false arm) or None, for a whole branch node
      catom(test, fn, s)     -> the same for an atomic test (no and/or/not left)
    """

    cexit = None
    chandler = None

    def on_handler(self, n, lab, st):
        if self.chandler is None:
            return [st]
        return [(x, st[1], st[2]) for x in self.chandler(n, lab, st[0])]

    def __init__(self, cstep, cbranch=None, citer=None, catom=None, **kw):
        self.cstep, self.cbranch, self.citer, self.catom = cstep, cbranch, citer, catom
        self._defs = {}
        super().__init__(self._step, self._branch, on_uninline=self._un, **kw)

    def run(self, tree, init):
        r = super().run(tree, [(s, frozenset(), None) for s in init])
        self.raw = r
        return {k: frozenset(x[0] for x in v) for k, v in r.items()}

    def runx(self, tree, init):
        """As run, keeping the constant returned: {kind: {(state, const or '?')}}."""
        r = super().run(tree, [(s, frozenset(), None) for s in init])
        return {k: frozenset((x[0], x[2]) for x in v) for k, v in r.items()}

    # ---- events
    def _step(self, ev, st):
        if ev.kind == "local":
            return [z for x in self._local(ev, st) for z in [(y, x[1], x[2]) for y in self.cstep(ev, x[0])]]
        return self._step1(ev, st)

    def _local(self, ev, st):
        s, ret, last = st
        if ev.kind == "local":
            key = ("L", id(ev.fn.node), ev.label)
            ret2 = frozenset((k, v) for k, v in ret if k != key and not (k.__class__ is tuple and k[0] == "NE" and k[1] == key))
            if ev.node is None:
                return [(s, ret2, last)]
            v = self.value(ev.node, ev.fn, ret)
            if v is not None:
                return [(s, ret2 | {(key, v)}, last)]
            if self.boolish(ev.node):
                ta, fa = self.split(ev.node, ev.fn, [st])
                if not (ta == [st] and fa == [st]):
                    o = []
                    for b, xs in ((True, ta), (False, fa)):
                        for x in xs:
                            o.append((x[0], frozenset((k, v) for k, v in x[1] if k != key) | {(key, ("c", b))}, x[2]))
                    return o
            return [(s, ret2, last)]

    def _step1(self, ev, st):
        s, ret, last = st
        if ev.kind == "return":
            e = getattr(ev.node, "value", None)
            if isinstance(ev.node, _ast.Return) and e is None:
                return [(x, ret, ("c", None)) for x in self.cstep(ev, s)]
            v = None
            if ev.val and len(ev.val) == 1:
                a = next(iter(ev.val))
                if a[0] == "const":
                    v = ("c", a[1])
            if v is None and e is not None:
                v = self.value(e, ev.fn, ret)
            if v is None and e is not None and self.boolish(e):
                ta, fa = self.split(e, ev.fn, [st])
                if not (ta == [st] and fa == [st]):
                    return [(y, x[1], ("c", b)) for b, xs in ((True, ta), (False, fa)) for x in xs for y in self.cstep(ev, x[0])]
            last = v if v is not None else "?"
        return [(x, ret, last) for x in self.cstep(ev, s)]

    def boolish(self, e):
        return isinstance(e, (_ast.Compare, _ast.BoolOp)) or isinstance(e, _ast.UnaryOp) and isinstance(e.op, _ast.Not) \
            or isinstance(e, (_ast.Call, _ast.Attribute))

    def _un(self, n, st):
        s, ret, last = st
        key = id(n.node)
        ret = frozenset((k, v) for k, v in ret if k != key) | {(key, last if last is not None else ("c", None))}
        return [(s, ret, None)]

    # ---- values
    def _def(self, fn, name):
        d = self._defs.get(fn)
        if d is None:
            d = self._defs[fn] = {}
            for n in _ast.walk(fn.node):
                if isinstance(n, _ast.Assign):
                    for t in n.targets:
                        for x in _ast.walk(t):
                            if isinstance(x, _ast.Name):
                                d.setdefault(x.id, []).append(n.value if x is t else None)
                elif isinstance(n, (_ast.AugAssign, _ast.AnnAssign)) and isinstance(n.target, _ast.Name):
                    d.setdefault(n.target.id, []).append(None)
                elif isinstance(n, (_ast.For,)):
                    for x in _ast.walk(n.target):
                        if isinstance(x, _ast.Name):
                            d.setdefault(x.id, []).append(None)
        v = d.get(name)
        return v[0] if v and len(v) == 1 else None

    def value(self, e, fn, ret):
        """('c', const) or None."""
        if isinstance(e, _ast.Constant):
            return ("c", e.value)
        if isinstance(e, _ast.UnaryOp) and isinstance(e.op, _ast.USub) and isinstance(e.operand, _ast.Constant):
            return ("c", -e.operand.value)
        if isinstance(e, _ast.Name):
            key = ("L", id(fn.node), e.id)
            for k, v in ret:
                if k == key:
                    return v
            d = self._def(fn, e.id)
            return self.value(d, fn, ret) if d is not None and not isinstance(d, _ast.Constant) else None
        if isinstance(e, _ast.Call):
            for k, v in ret:
                if k == id(e):
                    return v if isinstance(v, tuple) else None
            return None
        if isinstance(e, (_ast.Compare, _ast.BoolOp)) or isinstance(e, _ast.UnaryOp) and isinstance(e.op, _ast.Not):
            t = self.truth(e, fn, ret)
            return None if t is None else ("c", t)
        return None

    def truth(self, e, fn, ret):
        if isinstance(e, _ast.UnaryOp) and isinstance(e.op, _ast.Not):
            t = self.truth(e.operand, fn, ret)
            return None if t is None else not t
        if isinstance(e, _ast.BoolOp):
            for k, v in ret:
                if k == id(e):
                    return v[1]
            ts = [self.truth(x, fn, ret) for x in e.values]
            if isinstance(e.op, _ast.And):
                return False if False in ts else (True if all(t is True for t in ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if isinstance(e, _ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            a = self.value(e.left, fn, ret)
            if isinstance(op, (_ast.In, _ast.NotIn)) and a is not None and isinstance(e.comparators[0], (_ast.Tuple, _ast.List, _ast.Set)):
                bs = [self.value(x, fn, ret) for x in e.comparators[0].elts]
                if None not in bs:
                    return (a in bs) == isinstance(op, _ast.In)
                return None
            b = self.value(e.comparators[0], fn, ret)
            if a is None or b is None:
                return None
            try:
                if isinstance(op, (_ast.Eq, _ast.Is)):
                    return a[1] == b[1]
                if isinstance(op, (_ast.NotEq, _ast.IsNot)):
                    return a[1] != b[1]
                if isinstance(op, _ast.Lt):
                    return a[1] < b[1]
                if isinstance(op, _ast.Gt):
                    return a[1] > b[1]
                if isinstance(op, _ast.LtE):
                    return a[1] <= b[1]
                if isinstance(op, _ast.GtE):
                    return a[1] >= b[1]
            except TypeError:
                pass
            return None
        if isinstance(e, (_ast.Constant, _ast.Name, _ast.Call)):
            v = self.value(e, fn, ret)
            return None if v is None else bool(v[1])
        return None

    # ---- tests
    def split(self, e, fn, sts, depth=0):
        """(states in which e holds, states in which it does not)"""
        if isinstance(e, _ast.UnaryOp) and isinstance(e.op, _ast.Not):
            a, b = self.split(e.operand, fn, sts, depth)
            return b, a
        if isinstance(e, _ast.BoolOp):
            t, f = [], []
            rest = []
            for st in sts:
                k = [v for kk, v in st[1] if kk == id(e)]
                if k:
                    (t if k[0][1] else f).append(st)
                else:
                    rest.append(st)
            conj = isinstance(e.op, _ast.And)
            for v in e.values:
                a, b = self.split(v, fn, rest, depth)
                if conj:
                    f += b
                    rest = a
                else:
                    t += a
                    rest = b
            (t if conj else f).extend(rest)
            return self._u(t), self._u(f)
        if isinstance(e, _ast.Compare) and len(e.ops) > 1:
            xs = [e.left] + e.comparators
            t, f = sts, []
            for i, op in enumerate(e.ops):
                a, b = self.split(self._pair(e, i, xs, op), fn, t, depth)
                f += b
                t = a
            return self._u(t), self._u(f)
        t, f = [], []
        for st in sts:
            k = self.truth(e, fn, st[1])
            if k is True:
                t.append(st)
                continue
            if k is False:
                f.append(st)
                continue
            r = self._atom(e, fn, st, depth)
            if r is None:
                t.append(st)
                f.append(st)
            else:
                t += r[0]
                f += r[1]
        return self._u(t), self._u(f)

    def _pair(self, e, i, xs, op):
        d = self._defs.setdefault("pairs", {})
        if (id(e), i) not in d:
            d[(id(e), i)] = _ast.copy_location(_ast.Compare(left=xs[i], ops=[op], comparators=[xs[i + 1]]), e)
        return d[(id(e), i)]

    def _u(self, xs):
        return list(dict.fromkeys(xs))

    def _atom(self, e, fn, st, depth):
        s, ret, last = st
        if self.catom is not None:
            r = self.catom(e, fn, s)
            if r is not None:
                return [(x, ret, last) for x in r[0]], [(x, ret, last) for x in r[1]]
        if isinstance(e, _ast.Name) and depth < 4:
            d = self._def(fn, e.id)
            if d is not None and not isinstance(d, _ast.Constant):
                r = self.split(d, fn, [st], depth + 1)
                if r != ([st], [st]):
                    return r
        if isinstance(e, _ast.Call) and isinstance(e.func, _ast.Name) and e.func.id in ("all", "any") and len(e.args) == 1 \
                and isinstance(e.args[0], (_ast.GeneratorExp, _ast.ListComp)) and not e.args[0].generators[0].ifs:
            a, b = self.split(e.args[0].elt, fn, [st], depth)
            if (a, b) == ([st], [st]):
                return None
            return (a, [st]) if e.func.id == "all" else ([st], b)
        if isinstance(e, _ast.Compare) and len(e.ops) == 1 and isinstance(e.left, _ast.Name) and isinstance(e.comparators[0], _ast.Constant) \
                and isinstance(e.ops[0], (_ast.Eq, _ast.NotEq)):
            key = ("L", id(fn.node), e.left.id)
            c = ("c", e.comparators[0].value)
            if ("NE", key, c) in [k for k, v in ret]:
                eq, ne = [], [st]
            else:
                eq, ne = [(s, ret | {(key, c)}, last)], [(s, ret | {(("NE", key, c), True)}, last)]
            return (eq, ne) if isinstance(e.ops[0], _ast.Eq) else (ne, eq)
        return None

    def _branch(self, n, st):
        s, ret, last = st
        if isinstance(n.node, _ast.BoolOp):
            # operand evaluated or skipped: remember the value that a skip implies
            key, done = id(n.node), ("c", isinstance(n.node.op, _ast.Or))
            if getattr(n, "shortcut", "") == "next" and (key, done) in ret:
                return [], [st]
            r0 = frozenset((k, v) for k, v in ret if k != key)
            i = getattr(n, "idx", 1)
            run, skip = [(s, r0, last)], []
            for v in n.node.values[:i]:
                a, b = self.split(v, n.fn, run)
                run, sk = (b, a) if done[1] else (a, b)
                skip += sk
            return self._u(run), self._u([(x[0], x[1] | {(key, done)}, x[2]) for x in skip])
        test = getattr(n.node, "test", None)
        if test is not None and self.cbranch is not None:
            r = self.cbranch(n, s)
            if r is not None:
                a, b = r
                return [(x, ret, last) for x in a], [(x, ret, last) for x in b]
        if test is None:
            return [st], [st]
        return self.split(test, n.fn, [st])

    # ---- loops
    def _wtest(self, n, st, pol):
        if isinstance(n.node, _ast.While) and n.kind == "while":
            return self.split(n.node.test, n.fn, [st])[0 if pol else 1]
        return [st]

    def on_loop_exit(self, n, st):
        out = []
        for s, ret, last in self._wtest(n, st, False):
            out += [(x, ret, last) for x in self.cexit(n, s)] if self.cexit is not None else [(s, ret, last)]
        return out

    def on_iter(self, n, st):
        out = []
        for s, ret, last in self._wtest(n, st, True):
            out += [(x, ret, last) for x in self.citer(n, s)] if self.citer is not None else [(s, ret, last)]
        return out
