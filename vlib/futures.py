"""Where work handed to another thread is waited for (syntactic, block structured)."""
import ast


def blocks(fn):
    """statement -> (block id, chain of enclosing statements from the outside in)"""
    out = {}

    def go(stmts, chain):
        for s in stmts:
            out[s] = chain
            for fld in ("body", "orelse", "finalbody"):
                sub = getattr(s, fld, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    go(sub, chain + ((s, fld),))
            for h in getattr(s, "handlers", []) or []:
                go(h.body, chain + ((s, "handler"),))
    go(fn.body, ())
    return out


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def own(s):
    """expressions that belong to the statement itself (not to its nested blocks)"""
    for f, v in ast.iter_fields(s):
        for y in v if isinstance(v, list) else [v]:
            if isinstance(y, ast.AST) and not isinstance(y, (ast.stmt, ast.ExceptHandler)):
                for z in ast.walk(y):
                    yield z


def waits_for(s, L):
    """the statement (with everything in it) waits for the futures held by one of the names L"""
    for x in ast.walk(s):
        if isinstance(x, ast.Call):
            f = x.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm in ("wait", "as_completed", "gather") and any(names(a) & L for a in x.args):
                return True
            if nm in ("result", "exception", "join") and isinstance(f, ast.Attribute) and names(f.value) & L:
                return True
    for x in ast.walk(s):
        if isinstance(x, (ast.For, ast.comprehension)) and names(x.iter) & L:
            tv = names(x.target)
            body = x.body if isinstance(x, ast.For) else [s]
            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("result", "exception", "join") and names(y.func.value) & tv for b in body for y in ast.walk(b)):
                return True
    return False


def submitted(fn):
    """(call, verdict) for each submit; verdict None: stored in an object, True/False: waited for or not"""
    bl = blocks(fn)
    res = []
    for s in bl:
        for call in own(s):
            if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == "submit"):
                continue
            L, stored = set(), False
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        L.add(t.id)
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        L.add(t.value.id)
                    else:
                        stored = True
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "add"):
                if isinstance(s.value.func.value, ast.Name):
                    L.add(s.value.func.value.id)
                else:
                    stored = True
            elif isinstance(s, ast.Return):
                stored = True
            # collections the future is put into
            for _ in range(3):
                for x in ast.walk(fn):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "extend") and any(names(a) & L for a in x.args):
                        if isinstance(x.func.value, ast.Name):
                            L.add(x.func.value.id)
                        else:
                            stored = True
                    elif isinstance(x, ast.Assign) and names(x.value) & L and any(isinstance(t, ast.Name) for t in x.targets) and not isinstance(x.value, ast.Call):
                        L |= {t.id for t in x.targets if isinstance(t, ast.Name)}
            if stored:
                res.append((call, None))
                continue
            chain = bl[s]
            # loops and branches around the submit that may hold the waiting statement in the same block
            anc = [tuple(chain[:i]) for i in range(len(chain) + 1)]
            ok = False
            for w, ch in bl.items():
                if ch in anc and w.lineno > s.lineno and waits_for(w, L) and not (isinstance(w, ast.If) and not waits_for(w.test, L)):
                    # leaving the innermost repeated block before waiting?
                    outer = [c[0] for c in chain[len(ch):]]
                    lost = [c for c in outer if isinstance(c, (ast.For, ast.While)) and redefines(c, L)]
                    ok = ok or not lost
            res.append((call, ok))
    return res


def redefines(loop, L):
    """each pass of the loop starts a new collection (so that waiting after the loop only covers the last pass)"""
    cols = {t.id for x in ast.walk(loop) if isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.Dict, ast.Set)) and not getattr(x.value, "elts", getattr(x.value, "keys", None))
            for t in x.targets if isinstance(t, ast.Name)}
    return bool(cols & L)
