"""C15: no run destroys output of an earlier one; every output is complete and written when it is due."""
import ast
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import Report, main
from vlib.model import model
from vlib.repo import AnalysisBroken
from vlib.interp import pstr, walk, Branch, Ev, Loop
from vlib.flow import CFlow
from vlib.futures import submitted

PID = "C15"
# files that are caches, logs of other programs or temporary by design: (function, what the name is)
SCRATCH = re.compile(r"\.tmp\b|cache_file|yafflog|_cache\b")
SKIP = ("ipi.utils.tools", "ipi.pes", "ipi.tests", "ipi.utils.setup", "ipi.utils.scripting", "drivers")


def is_flag(e, name):
    return isinstance(e, ast.Attribute) and e.attr == name


def need(m, cls, name):
    c = m.prog.cls(cls)
    f = c.find(name) if c is not None else None
    if f is None:
        raise AnalysisBroken("%s.%s not found" % (cls, name))
    return c, f


def tree(m, c, f, mods, depth=5):
    ip = m.interp(maxdepth=depth, inline=lambda fn, k, d: fn.module.name in mods)
    ip.trace_locals = True
    if c is not None:
        ip.roots[("self",)] = c
    return ip.run(f, c) if c is not None else ip.run(f)


def funcs(m):
    for mod in m.prog.modules.values():
        if not mod.name.startswith("ipi.") or mod.name.startswith(SKIP):
            continue
        for c in mod.classes.values():
            for f in c.methods.values():
                yield f
        for f in mod.functions.values():
            yield f


def kwarg(call, pos, name):
    v = next((k.value for k in call.keywords if k.arg == name), None)
    return v if v is not None else call.args[pos] if len(call.args) > pos else None


def local_defs(fn, name):
    return [x.value for x in ast.walk(fn.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets)] + \
        [i.context_expr for x in ast.walk(fn.node) if isinstance(x, ast.With) for i in x.items if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == name]


def opens(m):
    """every place that opens a file for writing"""
    for fn in funcs(m):
        for x in ast.walk(fn.node):
            if not isinstance(x, ast.Call):
                continue
            f = x.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            plain = isinstance(f, ast.Name) and f.id == "open" or isinstance(f, ast.Attribute) and f.attr == "open" and isinstance(f.value, ast.Name) and f.value.id in ("io", "codecs", "gzip", "bz2", "lzma")
            if plain:
                yield fn, x, "open", x.args[0] if x.args else None, kwarg(x, 1, "mode")
            elif nm in ("savetxt", "save", "savez", "savez_compressed") and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy") and x.args:
                yield fn, x, "np." + nm, x.args[0], ast.Constant("w")
            elif nm in ("tofile", "write_text", "write_bytes", "to_csv") and isinstance(f, ast.Attribute):
                yield fn, x, nm, x.args[0] if x.args else f.value, ast.Constant("w")


def no_clobber(rep, m):
    rep.rule("no-clobber", "every file opened for writing from its beginning is opened through the function that backs up an existing file (caches and temporary files aside)", 20)
    ob = [f for f in funcs(m) if f.qual == "open_backup"]
    if not ob:
        raise AnalysisBroken("open_backup not found")
    cp = m.prog.cls("CheckpointOutput").find("write")
    n = {}
    for fn, x, how, name, mode in opens(m):
        if fn is ob[0]:
            continue
        if how == "open":
            if mode is None:
                continue
            md = [mode] if not isinstance(mode, ast.Name) else local_defs(fn, mode.id) or [mode]
            vals = [q.value if isinstance(q, ast.Constant) else None for q in md]
            if all(isinstance(v, str) and not re.search(r"[wx+]", v) for v in vals):
                if not any("a" in v for v in vals):
                    continue
                continue
            if fn is cp:
                continue        # rule 'restart-file'
        key = "%s.%s" % (fn.module.name, fn.qual)
        n[key] = n.get(key, 0) + 1
        txt = ast.unparse(name) if name is not None else "?"
        ok, why = False, "an existing file %s is overwritten" % txt[:60]
        if SCRATCH.search(txt) or isinstance(name, ast.Name) and any(SCRATCH.search(ast.unparse(d)) for d in local_defs(fn, name.id)):
            ok = True
        elif how != "open" and name is not None:
            # a stream: what the name was assigned from
            ok = stream(m, fn, name)
            why = "data is saved to %s, which is not known to be a file opened with a backup" % txt[:60]
        rep.ob("no-clobber", "%s#%d" % (key, n[key]), ok, why, fn.loc(x))
    for fn in funcs(m):
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ("os", "shutil") and \
                    x.func.attr in ("rename", "replace", "remove", "unlink", "rmtree", "move", "copy", "copyfile", "removedirs", "truncate"):
                key = "%s.%s:%s" % (fn.module.name, fn.qual, x.func.attr)
                txt = ast.unparse(x.args[0]) if x.args else "?"
                own = fn.cls is not None and fn.cls.is_sub(m.prog.cls("BaseOutput")) if fn.cls is not None else False
                sock = fn.module.name.startswith("ipi.interfaces") and "sockets_prefix" in txt     # the socket this interface made
                ok = sock or fn is ob[0] and x.func.attr == "rename" or SCRATCH.search(txt) is not None or own and txt == "self.filename"
                rep.ob("no-clobber", key, ok, "%s(%s) may destroy a file of the user" % (x.func.attr, txt[:60]), fn.loc(x))


def stream(m, fn, e, depth=0):
    if isinstance(e, ast.Name):
        ds = local_defs(fn, e.id)
        if ds:
            return all(stream(m, fn, d, depth + 1) for d in ds)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if e.id in names and depth < 4:
            return True     # the caller's stream
        return False
    if isinstance(e, ast.Attribute):
        ok = False
        for f in funcs(m):
            if f.cls is not None and fn.cls is not None and (f.cls in fn.cls.mro() or fn.cls in f.cls.mro()):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign) and any(is_flag(t, e.attr) for t in x.targets):
                        if isinstance(x.value, ast.Constant) and x.value.value is None:
                            continue
                        if not stream(m, f, x.value, depth + 1):
                            return False
                        ok = True
        return ok
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if nm in ("get_output", "open_backup", "StringIO", "BytesIO"):
            return True
        if nm == "open":
            return True     # judged where it is opened
    return False


# ---------------------------------------------------------------- open_backup
def mode_truth(e, mode):
    """value of a test on the mode string"""
    try:
        return bool(eval(compile(ast.Expression(ast.fix_missing_locations(e)), "mode", "eval"), {"__builtins__": {}}, {"mode": mode}))
    except Exception:
        return None


def names_in(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def backup(rep, m):
    rep.rule("backup", "opening an existing file for writing first renames it to a name that does not exist, for every write mode; other modes leave it alone", 8)
    fn = [f for f in funcs(m) if f.qual == "open_backup"][0]
    t = tree(m, None, fn, {fn.module.name}, 3)
    par = [a.arg for a in fn.node.args.args]
    fname, fmode = par[0], par[1]
    alias = {}
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            alias.setdefault(x.targets[0].id, set()).add(x.value.id)
    for mode in ("w", "wb", "wt", "w+", "a", "ab", "r"):
        bad, opened = {}, [0]
        write = mode.startswith("w")

        def test(e):
            """(name tested for existence) or None"""
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("isfile", "exists", "lexists") and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
                return e.args[0].id
            return None

        # state: frozenset of facts: ("free", name), ("is", name) [holds the file name], "renamed", "absent"
        def cstep(ev, s):
            if ev.kind == "local":
                nm = ev.label
                s = frozenset(q for q in s if not (isinstance(q, tuple) and q[1] == nm))
                v = ev.node
                if isinstance(v, ast.Name):
                    if v.id == fname or ("is", v.id) in s:
                        s = s | {("is", nm)} | ({("free", nm)} if "absent" in s else set())
                    elif ("free", v.id) in s:
                        s = s | {("free", nm)}
                    if v.id == fname and nm == fname:
                        s = s | {("is", nm)}
                return [s]
            if ev.kind == "call" and isinstance(ev.node, ast.Call):
                f = ev.node.func
                lab = ev.label or ""
                if lab.endswith(("os.rename", "os.replace", "shutil.move")) or isinstance(f, ast.Attribute) and f.attr in ("rename", "replace") and isinstance(f.value, ast.Name) and f.value.id == "os":
                    a, b = (ev.node.args + [None, None])[:2]
                    an, bn = getattr(a, "id", "?"), getattr(b, "id", "?")
                    if not write:
                        bad["needless"] = "a file opened with mode '%s' is moved away" % mode
                    if not (an == fname or ("is", an) in s):
                        bad["source"] = "another file than the one opened is renamed"
                    if ("free", bn) not in s or ("is", bn) in s and "absent" not in s:
                        bad["target"] = "the backup name may exist already: an older backup is overwritten"
                    return [s | {"renamed"}]
                if isinstance(f, ast.Name) and f.id == "open" or lab == "io.open":
                    opened[0] += 1
                    if write and not ({"renamed", "absent"} & s):
                        bad["clobber"] = "an existing file opened with mode '%s' is overwritten without a backup" % mode
                    a = ev.node.args[0] if ev.node.args else None
                    if getattr(a, "id", None) != fname and not ("is", getattr(a, "id", "?")) in s:
                        bad["other"] = "another file than the one asked for is opened"
                    mm = kwarg(ev.node, 1, "mode")
                    if getattr(mm, "id", None) != fmode:
                        bad["mode"] = "the file is not opened with the mode asked for"
            return [s]

        def catom(e, fn_, s):
            n = test(e)
            if n is not None:
                isf = n == fname or ("is", n) in s
                yes = s - {"absent"} | ({"exists"} if isf else set())
                no = s | {("free", n)} | ({"absent"} if isf and "renamed" not in s else set())
                if isf and "absent" in s:
                    return [], [s]
                if isf and "exists" in s and "renamed" not in s:
                    return [s], []
                return [frozenset(yes)], [frozenset(no)]
            if fmode in names_in(e) and names_in(e) <= {fmode}:
                import copy
                v = mode_truth(ren(copy.deepcopy(e), fmode), mode)
                if v is not None:
                    return ([s], []) if v else ([], [s])
            if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Name):
                a, b = e.left.id, e.comparators[0].id
                if fname in (a, b):
                    o = b if a == fname else a
                    same = [s] if ("is", o) in s else []
                    diff = [] if ("is", o) in s else [s]
                    return (same, diff) if isinstance(e.ops[0], (ast.Eq, ast.Is)) else (diff, same)
            return None
        r = CFlow(cstep, catom=catom).run(t, [frozenset()])
        if not opened[0]:
            bad["never"] = "nothing is opened"
        if not r.get("return"):
            bad["ret"] = "the open file is not returned"
        rep.ob("backup", "mode:" + mode, not bad, "; ".join(sorted(bad.values())), fn.loc(fn.node))
    # the backup lies beside the file
    joins = [x for x in ast.walk(fn.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.BinOp) and isinstance(leftmost(x.value), ast.Constant)
             and fname in names_in(x.value)]
    # ... also when only the last part of the name is used
    base = set()
    dirs = set()
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Assign):
            nm = [y.id for t_ in x.targets for y in (t_.elts if isinstance(t_, ast.Tuple) else [t_]) if isinstance(y, ast.Name)]
            if isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute):
                if x.value.func.attr == "split" and len(nm) == 2:
                    dirs.add(nm[0])
                    base.add(nm[1])
                elif x.value.func.attr == "basename":
                    base |= set(nm)
                elif x.value.func.attr == "dirname":
                    dirs |= set(nm)
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Assign) and base & names_in(x.value) and not (isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in ("split", "basename")):
            pre = {t_.id for t_ in x.targets if isinstance(t_, ast.Name)}
            later = any(isinstance(y, (ast.Assign, ast.Call)) and pre & names_in(y.value if isinstance(y, ast.Assign) else y) and (dirs & names_in(y.value if isinstance(y, ast.Assign) else y) or "dirname" in ast.dump(y)) for y in ast.walk(fn.node) if y is not x)
            if not (dirs & names_in(x.value)) and "dirname" not in ast.dump(x.value) and not later:
                joins.append(x)
    rep.ob("backup", "beside", not joins, "the name of the backup is built in front of the directory of the file: a file in another directory cannot be backed up", fn.loc(joins[0]) if joins else fn.loc(fn.node))


def leftmost(e):
    while isinstance(e, ast.BinOp):
        e = e.left
    return e


def ren(e, name):
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and x.id == name:
            x.id = "mode"
    return e


# ---------------------------------------------------------------- start or continue
def starting(rep, m):
    rep.rule("append", "a run that starts from step 0 opens new files and writes headers, a continued run appends and writes none; two outputs never share a file", 6)
    c, f = need(m, "Simulation", "bind")
    t = tree(m, c, f, {c.module.name})
    bad, n = {}, {"bind": 0, "maker": 0, "header": 0}

    def val(e, s):
        """constant of an expression in this state: 'w', 'a', True, False or None"""
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return dict(s[1]).get(e.id)
        if isinstance(e, ast.IfExp):
            v = val(e.test, s)
            return None if v is None else val(e.body if v else e.orelse, s)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = val(e.operand, s)
            return None if v is None else not v
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Dict):
            k = val(e.slice, s)
            for a, b in zip(e.value.keys, e.value.values):
                if isinstance(a, ast.Constant) and a.value == k:
                    return val(b, s)
        z = zero(e)
        if z is not None and s[0] is not None:
            return s[0] == z
        return None

    def zero(e):
        """True: e says step == 0, False: step != 0 / > 0"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and is_flag(e.left, "step") and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value == 0:
            if isinstance(e.ops[0], (ast.Eq, ast.LtE)):
                return True
            if isinstance(e.ops[0], (ast.NotEq, ast.Gt)):
                return False
        return None

    def cstep(ev, s):
        if ev.kind == "local":
            d = {k: v for k, v in s[1] if k != ev.label}
            if ev.node is not None:
                v = val(ev.node, s)
                if v is not None:
                    d[ev.label] = v
            return [(s[0], tuple(sorted(d.items(), key=str)), s[2])]
        if ev.kind == "call" and isinstance(ev.node, ast.Call):
            fx = ev.node.func
            nm = fx.attr if isinstance(fx, ast.Attribute) else getattr(fx, "id", "")
            if nm == "OutputMaker":
                n["maker"] += 1
                v = val(kwarg(ev.node, 1, "f_start"), s)
                if s[0] is None or v is not s[0]:
                    bad["maker"] = "files made during the run are %s" % ("overwritten by a continued run" if v else "appended to files of another run")
            elif nm == "bind" and (len(ev.node.args) == 2 or any(k.arg == "mode" for k in ev.node.keywords)):
                n["bind"] += 1
                v = val(kwarg(ev.node, 1, "mode"), s)
                if s[0] is None or v != ("w" if s[0] else "a"):
                    bad["mode"] = "outputs are opened with mode %r in a run that %s" % (v, "starts from step 0" if s[0] else "may continue an earlier one")
                if "filename" not in s[2]:
                    bad["unique"] = "outputs are opened although two of them may have the same file name"
                if "prefix" not in s[2]:
                    bad["prefix"] = "outputs of several systems are opened although their prefixes may be the same: they share their files"
            elif nm == "print_header":
                n["header"] += 1
                if s[0] is not True:
                    bad["header"] = "a header is written into the files of a continued run"
        return [s]

    def catom(e, fn, s):
        z = zero(e)
        if z is None and isinstance(e, ast.Name):
            v = dict(s[1]).get(e.id)
            if isinstance(v, bool):
                return ([s], []) if v else ([], [s])
        if z is not None:
            if s[0] is None:
                a, b = (True,) + s[1:], (False,) + s[1:]
                return ([a], [b]) if z else ([b], [a])
            return ([s], []) if s[0] == z else ([], [s])
        if isinstance(e, ast.Compare) and any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "set" for x in ast.walk(e)) and sum(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "len" for x in ast.walk(e)) == 2:
            a, b = e.left, e.comparators[0]
            aset = any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "set" for x in ast.walk(a))
            op = e.ops[0]
            txt = ast.unparse(e) + " ".join(ast.unparse(d) for nm in names_in(e) for d in local_defs(f, nm))
            u = s[:2] + (s[2] | {q for q in ("filename", "prefix") if q in txt},)
            if isinstance(op, ast.Eq) or aset and isinstance(op, ast.GtE) or not aset and isinstance(op, ast.LtE):
                return [u], [s]
            if isinstance(op, ast.NotEq) or aset and isinstance(op, ast.Lt) or not aset and isinstance(op, ast.Gt):
                return [s], [u]
        return None
    CFlow(cstep, catom=catom).run(t, [(None, (), frozenset())])
    for k, what in (("maker", "OutputMaker"), ("mode", "bind"), ("unique", "bind"), ("prefix", "bind"), ("header", "header")):
        cnt = n["maker"] if k == "maker" else n["header"] if k == "header" else n["bind"]
        rep.ob("append", "bind:" + k, k not in bad and cnt > 0, bad.get(k, "no %s found" % what), f.loc(f.node))

    # files made during the run
    c, f = need(m, "OutputMaker", "get_output")
    t = tree(m, c, f, {c.module.name}, 3)
    bad, n = {}, [0]

    def cstep2(ev, s):
        if ev.kind == "local":
            d = {k: v for k, v in s[1] if k != ev.label}
            v = ev.node
            if isinstance(v, ast.Constant):
                d[ev.label] = v.value
            elif isinstance(v, ast.IfExp) and any(is_flag(x, "f_start") for x in ast.walk(v.test)) and s[0] is not None:
                pos = not isinstance(v.test, ast.UnaryOp)
                q = v.body if s[0] == pos else v.orelse
                d[ev.label] = q.value if isinstance(q, ast.Constant) else None
            return [(s[0], tuple(sorted(d.items(), key=str)), s[2])]
        if ev.kind == "call" and isinstance(ev.node, ast.Call) and isinstance(ev.node.func, ast.Attribute) and ev.node.func.attr == "bind" and ev.fn is f:
            n[0] += 1
            a = kwarg(ev.node, 0, "mode")
            v = dict(s[1]).get(a.id) if isinstance(a, ast.Name) else a.value if isinstance(a, ast.Constant) else None
            if isinstance(a, ast.IfExp):
                v = "?"
            if s[2] is False:
                return [s]      # the caller's mode
            if s[0] is None or v != ("w" if s[0] else "a"):
                bad["mode"] = "a file made during a run that %s is opened with mode %r" % ("starts from step 0" if s[0] else "continues an earlier one", v)
        return [s]

    def catom2(e, fn, s):
        if is_flag(e, "f_start"):
            if s[0] is None:
                return [(True,) + s[1:]], [(False,) + s[1:]]
            return ([s], []) if s[0] else ([], [s])
        if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and e.left.id == "mode" and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            a, b = s[:2] + (True,), s[:2] + (False,)
            return ([a], [b]) if isinstance(e.ops[0], (ast.Is, ast.Eq)) else ([b], [a])
        return None
    # ask for the start flag first so that conditional expressions can be resolved
    CFlow(cstep2, catom=catom2).run(t, [(True, (), None), (False, (), None)])
    rep.ob("append", "get_output", not bad and n[0] > 0, bad.get("mode", "no file is opened"), f.loc(f.node))

    # the mode reaches open_backup
    base = m.prog.cls("BaseOutput")
    for k in sorted(m.prog.subclasses(base) | {base} if isinstance(m.prog.subclasses(base), set) else set(m.prog.subclasses(base)) | {base}, key=lambda q: q.name):
        f = k.find("bind")
        t = tree(m, k, f, {k.module.name}, 5)
        bad, n = {}, [0]
        for ev in walk(t):
            if isinstance(ev, Ev) and ev.kind == "call" and isinstance(ev.node, ast.Call):
                fx = ev.node.func
                nm = fx.attr if isinstance(fx, ast.Attribute) else getattr(fx, "id", "")
                if nm == "open_backup":
                    n[0] += 1
                    v = ev.args[1] if len(ev.args or ()) > 1 else (ev.kwargs or {}).get("mode")
                    if not v or not any(a[0] in ("obj", "arg") and "mode" in str(a[1]) for a in v):
                        bad["m"] = "the mode asked for does not reach the file"
                elif nm == "open":
                    bad["o"] = "the file is opened without a backup"
        rep.ob("append", k.name + ".bind", not bad and n[0] > 0, "; ".join(bad.values()) or "the output does not open its file", f.loc(f.node))


# ---------------------------------------------------------------- restart file
def restart(rep, m):
    rep.rule("restart-file", "a checkpoint file is only overwritten if this run wrote it before", 3)
    c, f = need(m, "CheckpointOutput", "write")
    t = tree(m, c, f, {c.module.name}, 3)
    bad, n, used = {}, [0], set()
    # flags that tell that this run wrote the file: False in a new object, and
    # set to anything else only while the file is written
    init = c.find("__init__")
    flags = set()
    for x in ast.walk(init.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is False:
            flags |= {q.attr for q in x.targets if isinstance(q, ast.Attribute)}
    wfuncs = {id(f.node)} | {id(ev.fn.node) for ev in walk(t) if isinstance(ev, Ev) and ev.fn is not None}
    for x in ast.walk(init.node):
        if isinstance(x, ast.Assign) and not (isinstance(x.value, ast.Constant) and x.value.value is False):
            flags -= {q.attr for q in x.targets if isinstance(q, ast.Attribute)}
    for fn in funcs(m):
        if fn.cls is c and fn is not init:
            for x in ast.walk(fn.node):
                # (a flag that is also set back is not one of these)
                if isinstance(x, ast.Assign) and (id(fn.node) not in wfuncs) != (isinstance(x.value, ast.Constant) and x.value.value is False):
                    flags -= {q.attr for q in x.targets if isinstance(q, ast.Attribute)}

    def is_own(e):
        return any(is_flag(e, x) for x in flags)

    def cstep(ev, s):
        ov, co, loc, done = s
        if ev.kind == "local":
            d = {k: v for k, v in loc if k != ev.label}
            v = ev.node
            if isinstance(v, ast.Name):
                d[ev.label] = d.get(v.id, v.id)
            elif isinstance(v, ast.Attribute):
                d[ev.label] = v.attr
            elif isinstance(v, ast.IfExp):
                d[ev.label] = "?"
                x = {q.id for q in (v.body, v.orelse) if isinstance(q, ast.Name)}
                if x <= {"open", "open_backup"} and len(x) == 2:
                    d[ev.label] = ("if", ast.unparse(v.test), v.body.id, v.orelse.id)
            return [(ov, co, tuple(sorted(d.items(), key=str)), done)]
        if ev.kind == "call" and isinstance(ev.node, ast.Call) and ev.fn is f or ev.kind == "call" and isinstance(ev.node, ast.Call) and isinstance(ev.node.func, ast.Name):
            fx = ev.node.func
            nm = fx.id if isinstance(fx, ast.Name) else None
            which = [dict(loc).get(nm, nm)]
            if isinstance(which[0], tuple) and which[0][0] == "if":
                # chosen by a condition: the plain one must need both facts
                _, tst, a, b = which[0]
                tn = ast.parse(tst, mode="eval").body
                plain_if = a == "open"
                conj = [ast.unparse(v) for v in tn.values] if isinstance(tn, ast.BoolOp) and isinstance(tn.op, ast.And) else [tst]
                okc = plain_if and any(q.split(".")[-1] in flags for q in conj) and (ov or any(q.endswith("overwrite") for q in conj))
                n[0] += 1
                if not okc:
                    bad["plain"] = "a checkpoint file of an earlier run may be overwritten"
                return [(ov, co, loc, True)]
            if which[0] in ("open", "open_backup"):
                n[0] += 1
                if which[0] == "open" and not (ov is True and co is True):
                    bad["plain"] = "a checkpoint file %s is overwritten" % ("that this run has not written" if co is not True else "with a number")
                return [(ov, co, loc, True)]
        if ev.kind == "write" and len(ev.path) == 2 and ev.path[0] == "self" and ev.path[1] in used:
            if not done and {a[1] for a in ev.val if a[0] == "const"} != {False}:
                bad["early"] = "the file counts as written by this run before it is"
        return [s]

    def catom(e, fn, s):
        ov, co, loc, done = s
        if is_flag(e, "overwrite"):
            if ov is not None:
                return ([s], []) if ov else ([], [s])
            return [(True, co, loc, done)], [(False, co, loc, done)]
        if is_own(e):
            used.update(q.attr for q in ast.walk(e) if isinstance(q, ast.Attribute))
            if co is not None:
                return ([s], []) if co else ([], [s])
            return [(ov, True, loc, done)], [(ov, False, loc, done)]
        return None
    CFlow(cstep, catom=catom).run(t, [(None, None, (), False)])
    rep.ob("restart-file", "write", "plain" not in bad and n[0] > 0, bad.get("plain", "the checkpoint is not written"), f.loc(f.node))
    rep.ob("restart-file", "order", "early" not in bad, bad.get("early", ""), f.loc(f.node))
    others = []
    for fn in funcs(m):
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Assign) and any(is_own(q) for q in x.targets) and not (isinstance(x.value, ast.Constant) and x.value.value is False):
                if fn is not f and not (fn.cls is c):
                    others.append(fn.loc(x))
    rep.ob("restart-file", "owner", not others, "a checkpoint counts as written by this run although it is not: %s" % ", ".join(others), others[0] if others else "")


# ---------------------------------------------------------------- when and what is written
def frames(rep, m):
    rep.rule("due", "an output is written whenever the step is a multiple of its stride and at no other time; each frame goes to the stream of its bead, each requested property into its row", 8)
    base = m.prog.cls("BaseOutput")
    act = [k.methods["active"] for k in m.prog.all_classes() if "active" in k.methods and (k is base or base in k.mro() or k.name == "CheckpointOutput")]
    for f in act:
        rets = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Return)]
        ok = bool(rets)
        for e in rets:
            e2 = e
            while isinstance(e2, ast.Name) and local_defs(f, e2.id):
                e2 = local_defs(f, e2.id)[0]
            ok = ok and due(f, e2)
        rep.ob("due", f.qual, ok, "outputs are not due exactly when (step + 1) is a multiple of the stride", f.loc(f.node))
    for k in sorted(set(m.prog.subclasses(base)) | {m.prog.cls("CheckpointOutput")}, key=lambda q: q.name):
        f = k.find("write")
        if f is None or k is base or f.cls is base:
            continue
        t = tree(m, k, f, {k.module.name}, 4)
        bad, n = {}, [0]

        def cstep(ev, s):
            if ev.kind == "call":
                lab = ev.label or ""
                if lab.endswith((".write", "print_file")) and not lab.startswith("self.write") and not lab.endswith("status.write") or lab.endswith("status.write"):
                    n[0] += 1
                    if s[0] is not True:
                        bad["early"] = "the output is written in steps in which it is not due"
                    return [(s[0], s[1], True)]
            return [s]

        def catom(e, fn, s):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "active":
                if s[0] is not None:
                    return ([s], []) if s[0] else ([], [s])
                return [(True,) + s[1:]], [(False,) + s[1:]]
            if is_flag(e, "triggered"):
                return [(s[0], True, s[2])], [(s[0], False, s[2])]
            return None
        fl = CFlow(cstep, catom=catom)
        # loops over beads and properties run at least once
        r = fl.run(t, [(None, False, False)])
        wrote = any(s[2] for q in ("fall", "return") for s in r.get(q, ()))
        for q in ("fall", "return"):
            for s in r.get(q, ()):
                if s[0] is None and not s[1]:
                    bad["skip"] = "there is another condition on which the output is left out"
        # a path that leaves without looking at anything but 'due' and 'stop'
        rep.ob("due", k.name + ".write", not bad and n[0] > 0 and wrote, "; ".join(bad.values()) or "nothing is written", f.loc(f.node))
    # a frame per bead
    c, f = need(m, "TrajectoryOutput", "write")
    k = 0
    for fn in [q for q in funcs(m) if q.cls is c]:
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "write_traj":
                k += 1
                st, b = kwarg(x, 2, "stream"), kwarg(x, 3, "b")
                res = st
                if isinstance(st, ast.Name):
                    ds = local_defs(fn, st.id)
                    if len(ds) == 1:
                        res = ds[0]
                    else:
                        en = [y for y in ast.walk(fn.node) if isinstance(y, ast.For) and isinstance(y.target, ast.Tuple) and isinstance(y.iter, ast.Call) and getattr(y.iter.func, "id", "") == "enumerate"
                              and len(y.target.elts) == 2 and isinstance(y.target.elts[1], ast.Name) and y.target.elts[1].id == st.id]
                        if en:
                            res = ast.Subscript(value=en[0].iter.args[0], slice=ast.Name(id=en[0].target.elts[0].id, ctx=ast.Load()), ctx=ast.Load())
                if isinstance(res, ast.Subscript):
                    ok = b is not None and ast.unparse(res.slice) == ast.unparse(b)
                    why = "the frame of bead %s is written to the file of bead %s" % (ast.unparse(b) if b is not None else "0", ast.unparse(res.slice))
                else:
                    ok = b is None or isinstance(b, ast.Constant) and b.value == 0
                    why = "the frame of bead %s is written to the only file" % (ast.unparse(b) if b is not None else "?")
                rep.ob("due", "frame#%d" % k, ok, why, fn.loc(x))
    # the files of all beads are opened by default, and all are closed
    op, cl = c.find("open_stream"), c.find("close_stream")
    opened = 0
    for x in ast.walk(op.node):
        if isinstance(x, ast.If) and any(isinstance(y, ast.Call) and getattr(y.func, "id", getattr(y.func, "attr", "")) == "open_backup" for b in x.body + x.orelse for y in ast.walk(b)) \
                and any(is_flag(y, "ibead") for y in ast.walk(x.test)):
            inv = not any(isinstance(y, ast.Call) and getattr(y.func, "id", "") == "open_backup" for b in x.body for y in ast.walk(b))
            loopv = [y.id for z in ast.walk(op.node) if isinstance(z, ast.For) and any(q is x for q in ast.walk(z)) for y in ast.walk(z.target) if isinstance(y, ast.Name)]
            for ib, want in ((-1, (1, 1, 1, 1, 1)), (2, (0, 0, 1, 0, 0)), (0, (1, 0, 0, 0, 0)), (-2, (1, 0, 1, 0, 1)), (-3, (1, 0, 0, 1, 0))):
                got = [fold(x.test, dict.fromkeys(loopv, b), ib) for b in range(5)]
                if any(g is None for g in got):
                    continue
                opened += 1
                rep.ob("due", "beads:%d" % ib, [bool(g) != inv for g in got] == [bool(w) for w in want],
                       "with bead %d selected the files of beads %s are opened instead of %s" % (ib, [b for b in range(5) if bool(got[b]) != inv], [b for b in range(5) if want[b]]), op.loc(x))
    loops = [x for x in ast.walk(cl.node) if isinstance(x, (ast.For, ast.comprehension)) and any(is_flag(y, "out") for y in ast.walk(x.iter))]
    al = {t_.id for x in ast.walk(cl.node) if isinstance(x, ast.Assign) and any(is_flag(y, "out") for y in ast.walk(x.value)) for t_ in x.targets if isinstance(t_, ast.Name)}
    loops += [x for x in ast.walk(cl.node) if isinstance(x, ast.For) and any(isinstance(y, ast.Name) and y.id in al for y in ast.walk(x.iter))]
    ok = bool(loops) and not any(isinstance(y, (ast.Break, ast.Return)) for x in loops if isinstance(x, ast.For) for b in x.body for y in ast.walk(b)) \
        and not any(isinstance(x.iter, ast.Subscript) for x in loops)
    rep.ob("due", "close", ok, "not all files of a trajectory are closed at the end", cl.loc(cl.node))
    # outputs written by other threads are complete before the simulation goes on
    for k in [rcl for rcl in m.prog.all_classes() if rcl.name == "Simulation" or any(b.name == "Simulation" for b in rcl.mro())]:
        for fn in k.methods.values():
            for call, verdict in submitted(fn.node):
                rep.ob("due", "waited:%s:%s" % (fn.qual, ast.unparse(call)[:40]), verdict is not False,
                       "what is handed to another thread is not waited for: the simulation changes the state while it is written", fn.loc(call))
    # the loops that write the outputs leave none out that is due
    rc, rf = need(m, "Simulation", "run")
    for x in ast.walk(rf.node):
        if not (isinstance(x, ast.For) and any(isinstance(y, ast.Attribute) and y.attr == "outputs" for y in ast.walk(x.iter))):
            continue
        for y in [y for b in x.body for y in ast.walk(b)]:
            if isinstance(y, ast.If) and any(isinstance(z, ast.Attribute) and z.attr == "write" for b in y.body for z in ast.walk(b)):
                parts = y.test.values if isinstance(y.test, ast.BoolOp) and isinstance(y.test.op, ast.And) else [y.test]
                odd = [p_ for p_ in parts if not (isinstance(p_, ast.Call) and isinstance(p_.func, ast.Attribute) and p_.func.attr == "active") and not any(is_flag(z, "triggered") for z in ast.walk(p_))
                       and {z.id for z in ast.walk(p_) if isinstance(z, ast.Name)} & {z.id for z in ast.walk(x.target) if isinstance(z, ast.Name)}]
                if isinstance(y.test, ast.BoolOp) and isinstance(y.test.op, ast.Or):
                    odd = []
                rep.ob("due", "loop", not odd, "outputs that are due are left out unless %s" % (ast.unparse(odd[0]) if odd else ""), rf.loc(y))
    # the initial configuration
    c, f = need(m, "Simulation", "run")
    t = tree(m, c, f, {c.module.name}, 4)
    bad, n = {}, [0]

    def callee(ev):
        lab = ev.label or ""
        if lab.endswith(".submit") and ev.args:
            for a in ev.args[0] or ():
                if a[0] == "obj":
                    return pstr(a[1])
                if a[0] == "func" and getattr(a[1], "self_path", None):
                    return pstr(a[1].self_path) + "." + a[1].func.node.name
        return lab

    def makes(nd):
        return any(isinstance(x, Ev) and x.kind == "call" and callee(x).endswith(".motion.step") for x in walk(nd))
    loops = [x for x in walk(t) if isinstance(x, Loop) and makes(x)]
    ml = loops[0] if loops else None

    def cstep3(ev, s):
        z, stp, w = s
        if ev.kind == "write" and ev.path == ("self", "step"):
            v = {a[1] for a in ev.val if a[0] == "const"}
            stp = v.pop() if len(v) == 1 and len(ev.val) == 1 else "loop"
        elif ev.kind == "call" and "output" in callee(ev) and callee(ev).endswith(".write"):
            n[0] += 1
            if stp != "loop":
                if z is not True:
                    bad["again"] = "a continued run writes the configuration it starts from again"
                if stp != -1:
                    bad["label"] = "the initial configuration is written with the step %s" % ("of the first step" if stp is None else str(stp))
                w = True
        return [(z, stp, w)]

    def catom3(e, fn, s):
        z = None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and is_flag(e.left, "step") and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value == 0 and s[1] is None:
            a, b = (True,) + s[1:], (False,) + s[1:]
            if s[0] is not None:
                a, b = ([s], []) if s[0] else ([], [s])
            else:
                a, b = [a], [b]
            return (a, b) if isinstance(e.ops[0], ast.Eq) else (b, a)
        return None

    def citer3(nd, s):
        if nd is ml and s[1] == -1:
            bad["restore"] = "the step is not set back to 0 after the initial configuration was written"
        return [s]
    fl = CFlow(cstep3, catom=catom3, citer=citer3)
    fl.run(t, [(None, None, False)])
    # the value of the step just before the loop
    for kk in ("again", "label", "restore"):
        rep.ob("due", "initial:" + kk, kk not in bad and n[0] > 0, bad.get(kk, "outputs are not written"), f.loc(f.node))
    rows(rep, m)


def fold(e, env, ib):
    """value of an integer condition on the bead index and the selected bead, or None"""
    import operator as o
    B = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Mod: o.mod, ast.FloorDiv: o.floordiv}
    C = {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge, ast.Eq: o.eq, ast.NotEq: o.ne}
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if is_flag(e, "ibead"):
        return ib
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "abs" and len(e.args) == 1:
        v = fold(e.args[0], env, ib)
        return None if v is None else abs(v)
    if isinstance(e, ast.UnaryOp):
        v = fold(e.operand, env, ib)
        if v is None:
            return None
        return -v if isinstance(e.op, ast.USub) else (not v) if isinstance(e.op, ast.Not) else None
    if isinstance(e, ast.BinOp) and type(e.op) in B:
        a, b = fold(e.left, env, ib), fold(e.right, env, ib)
        if a is None or b is None or isinstance(e.op, (ast.Mod, ast.FloorDiv)) and b == 0:
            return None
        return B[type(e.op)](a, b)
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in C:
        a, b = fold(e.left, env, ib), fold(e.comparators[0], env, ib)
        return None if a is None or b is None else C[type(e.ops[0])](a, b)
    if isinstance(e, ast.BoolOp):
        isand = isinstance(e.op, ast.And)
        for v in e.values:
            r = fold(v, env, ib)
            if r is None:
                return None
            if bool(r) != isand:
                return r
        return isand
    return None


def due(f, e):
    """(step + 1) % stride == 0"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        x = e.operand
    elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq):
        a, b = e.left, e.comparators[0]
        if isinstance(a, ast.Constant):
            a, b = b, a
        if not (isinstance(b, ast.Constant) and b.value == 0):
            return False
        x = a
    else:
        return False
    while isinstance(x, ast.Name) and local_defs(f, x.id):
        x = local_defs(f, x.id)[0]
    if isinstance(x, ast.Call) and getattr(x.func, "attr", "") in ("mod", "fmod", "remainder") and len(x.args) == 2:
        l, r = x.args
    elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
        l, r = x.left, x.right
    else:
        return False
    def res(q):
        while isinstance(q, ast.Name) and local_defs(f, q.id):
            q = local_defs(f, q.id)[0]
        return q
    l, r = res(l), res(r)
    if not is_flag(r, "stride"):
        return False
    if not (isinstance(l, ast.BinOp) and isinstance(l.op, ast.Add)):
        return False
    p = [res(l.left), res(l.right)]
    return any(isinstance(q, ast.Constant) and q.value == 1 for q in p) and any(is_flag(q, "step") and ast.unparse(res(q.value)).endswith("simul") for q in p)


def rows(rep, m):
    """every property of the list is written into the row, which is ended once"""
    c, f = need(m, "PropertyOutput", "write")
    t = tree(m, c, f, {c.module.name}, 3)
    bad, n = {}, [0, 0]

    def over(nd):
        return isinstance(nd, Loop) and any(a[0] == "obj" and a[1][-1] == "outlist" for a in nd.iterval or ())

    def newline(ev):
        a = ev.node.args[0] if isinstance(ev.node, ast.Call) and ev.node.args else None
        return a is not None and any(isinstance(x, ast.Constant) and isinstance(x.value, str) and "\n" in x.value for x in ast.walk(a))

    def cstep(ev, s):
        it, nl = s
        if ev.kind == "call" and (ev.label or "").endswith("out.write"):
            if newline(ev):
                n[0] += 1
                if it == "in":
                    bad["nl"] = "the row is ended before all properties are written"
                return [(it, min(nl + 1, 2))]
            if it == "in":
                n[1] += 1
                return [("wrote", nl)]
        return [s]

    def citer(nd, s):
        if over(nd):
            if s[0] == "in":
                bad["skip"] = "a property of the list may be left out of its row"
            return [("in", s[1])]
        return [s]

    def cexit(nd, s):
        if over(nd):
            return [("after", s[1])]
        if isinstance(nd.node, ast.For) and s[0] == "in" and any(isinstance(x, Ev) and x.kind == "call" and (x.label or "").endswith("out.write") for x in walk(nd)):
            return [("wrote", s[1])]
        return [s]
    fl = CFlow(cstep, citer=citer)
    fl.cexit = cexit
    r = fl.run(t, [("before", 0)])
    for q in ("fall", "return"):
        for it, nl in r.get(q, ()):
            if it == "after" and nl != 1:
                bad["nl"] = "a row is not ended exactly once"
    if not n[0] or not n[1]:
        loops = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.GeneratorExp, ast.ListComp))]
        if not loops:
            bad["none"] = "no row is written"
    for x in ast.walk(f.node):
        if isinstance(x, (ast.For, ast.comprehension)) and not any(isinstance(y, ast.Attribute) and y.attr == "outlist" for y in ast.walk(x.iter)) \
                and isinstance(x.iter, ast.Subscript) and isinstance(x.iter.slice, ast.Slice) and (x.iter.slice.lower is not None or x.iter.slice.upper is not None):
            bad["part"] = "only a part of the values of a property is written into the row"
    rep.ob("due", "row", not bad, "; ".join(bad.values()), f.loc(f.node))


def check(tier):
    m = model()
    rep = Report(PID, tier, "typestate of files: existence facts, open modes and due conditions along every path; inventory of every place that opens, renames or removes a file",
                 "ipi/engine, ipi/utils (without the stand-alone tools), ipi/inputs")
    rep.part("no_clobber", no_clobber, rep, m)
    rep.part("backup", backup, rep, m)
    rep.part("starting", starting, rep, m)
    rep.part("restart", restart, rep, m)
    rep.part("frames", frames, rep, m)
    return rep.finish()


if __name__ == "__main__":
    main(check, PID)
