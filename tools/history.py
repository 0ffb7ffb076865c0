"""
Development tool (no check uses it): mutants that only show after some history of calls, or under two rare conditions at once.

python3-vt tools/history.py [--modules a,b] [--sample K] [--out FILE] [--jobs N] [--seed S]

As rare.py, but the mutated expression or statement is used only when: the function has been called on that object more
than n times; another method was called on it before (or was the last one called); a call of the function is under way (on that
object, or on another one); its last call raised, or concerned another object; or two conditions of rare.py hold together.
"""
import argparse
import ast
import copy
import json
import os
import random
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rare
from mutate import PROPS

HELPER = rare.HELPER + '''
import functools as _ft, weakref as _wr, collections as _co
_objs = {}       # id -> [Counter of calls, last method, before last]
_stack = []
_last = {}       # function -> (id of the object, raised)
_loop = {}
def _rec(x):
    r = _objs.get(id(x))
    if r is None:
        try:
            _wr.finalize(x, _objs.pop, id(x), None)
        except TypeError:
            return [_co.Counter(), None, None]
        r = _objs[id(x)] = [_co.Counter(), None, None]
    return r
def _track(f):
    name = f.__name__
    @_ft.wraps(f)
    def w(*a, **k):
        if _busy:
            return f(*a, **k)
        x = a[0] if a else None
        r = _rec(x)
        r[0][name] += 1
        r[2], r[1] = r[1], name
        _loop[name] = _last.get(name)
        _stack.append((name, id(x)))
        ok = False
        try:
            y = f(*a, **k)
            ok = True
            return y
        finally:
            _stack.pop()
            _last[name] = (id(x), not ok)
    return w
def _hist(kind, fname, arg, f):
    if _busy:
        return False
    _busy.append(1)
    try:
        x = f() if f else None
        r = _rec(x)
        if kind == "count":
            t = r[0][fname] > arg
        elif kind == "total":
            _tot[fname] = _tot.get(fname, 0) + 1
            t = _tot[fname] % arg == 0
        elif kind == "after":
            t = r[0][arg] > 0
        elif kind == "last":
            t = r[2] == arg
        elif kind == "nested":
            t = sum(n == fname for n, _ in _stack) > 1
        elif kind == "nested_same":
            t = sum(n == fname and i == id(x) for n, i in _stack) > 1
        elif kind == "within":
            t = any(n == arg for n, _ in _stack)
        elif kind == "raised":
            t = bool(_loop.get(fname) and _loop[fname][1])
        elif kind == "other":
            t = bool(_loop.get(fname) and _loop[fname][0] != id(x))
        elif kind == "same":
            t = bool(_loop.get(fname) and _loop[fname][0] == id(x))
    except Exception:
        t = False
    finally:
        _busy.pop()
    if t and not _seen:
        _seen.append(1)
        open(_os.environ["RARE_MARK"], "w").close()
    return t
_tot = {}
def _rare2(f, k1, g, k2):
    if _busy:
        return False
    _busy.append(1)
    try:
        t = _KINDS[k1](f()) and _KINDS[k2](g())
    except Exception:
        t = False
    finally:
        _busy.pop()
    if t and not _seen:
        _seen.append(1)
        open(_os.environ["RARE_MARK"], "w").close()
    return t
'''


class Track(ast.NodeTransformer):
    """_track on the functions of the module and the methods of its classes."""
    def visit_FunctionDef(self, node):
        if not (node.name.startswith("__") and node.name != "__init__"):
            node.decorator_list.append(ast.Name("_track", ast.Load()))
        return node

    def visit_Module(self, node):
        node.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in node.body]
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(x) if isinstance(x, ast.FunctionDef) else x for x in node.body]
        return node


def owner(tree, fname, lineno):
    """(outermost function around the line, names of its siblings, its first argument)"""
    for c in tree.body:
        fs = [c] if isinstance(c, ast.FunctionDef) else [x for x in c.body if isinstance(x, ast.FunctionDef)] if isinstance(c, ast.ClassDef) else []
        for f in fs:
            if f.lineno <= lineno <= f.end_lineno:
                return f, [x.name for x in fs if x is not f and not x.name.startswith("__")], isinstance(c, ast.ClassDef)
    return None, [], False


CHANGING = ("remove", "clear", "set", "add", "insert", "push", "pop", "decrease", "reverse", "swap")


def conditions(tree, y, names, rng):
    module, i, node, descr, new, name, kind, fname = y
    f, siblings, method = owner(tree, fname, node.lineno)
    if f is None:
        return
    arg0 = f.args.args[0].arg if f.args.args else None
    obj = "lambda: %s" % arg0 if arg0 and arg0 != "cls" else "None"
    if obj != "None":
        for n in (1, 6, 40):
            yield "_hist('count', %r, %d, %s)" % (f.name, n, obj)
        for g in siblings:
            if g.startswith(CHANGING):
                yield "_hist('after', %r, %r, %s)" % (f.name, g, obj)
                yield "_hist('last', %r, %r, %s)" % (f.name, g, obj)
        yield "_hist('nested_same', %r, 0, %s)" % (f.name, obj)
        yield "_hist('other', %r, 0, %s)" % (f.name, obj)
        yield "_hist('same', %r, 0, %s)" % (f.name, obj)
    for g in siblings[:3]:
        yield "_hist('within', %r, %r, %s)" % (f.name, g, obj)
    yield "_hist('nested', %r, 0, %s)" % (f.name, obj)
    yield "_hist('raised', %r, 0, %s)" % (f.name, obj)
    yield "_hist('total', %r, %d, None)" % (f.name, rng.choice([50, 400]))
    names = [n for n in names if rare.kinds_of(n)]
    for _ in range(4):
        if len(names) > 1:
            a, b = rng.sample(names, 2)
            yield "_rare2(lambda: %s, %r, lambda: %s, %r)" % (a, rng.choice(rare.kinds_of(a)), b, rng.choice(rare.kinds_of(b)))


def source(tree, y, cond):
    module, i, node, descr, new, name, kind, fname = y
    t = rare.Wrap(i, copy.deepcopy(new), cond).visit(copy.deepcopy(tree))
    t = ast.fix_missing_locations(Track().visit(t))
    body = ast.parse(HELPER).body
    at = 0
    while at < len(t.body) and isinstance(t.body[at], ast.ImportFrom) and t.body[at].module == "__future__":
        at += 1
    t.body[at:at] = body
    src = ast.unparse(t)
    compile(src, module, "exec")
    return src


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--modules")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--out", default="/tmp/history.jsonl")
    ap.add_argument("--sample", type=int, default=300)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    mods = a.modules.split(",") if a.modules else sorted(PROPS)
    rng = random.Random(a.seed)
    pick = []
    for x in mods:
        tree, ms = rare.mutants(x)
        by = {}
        for y in ms:
            by.setdefault((y[1], y[3]), []).append(y)
        pick += [(tree, v) for v in by.values()]
    pick = rng.sample(pick, min(a.sample, len(pick)))
    todo = []
    for tree, v in pick:
        y = v[0]
        conds = list(conditions(tree, y, sorted({z[5] for z in v}), rng))
        if not conds:
            continue
        cond = rng.choice(conds)
        try:
            src = source(tree, y, cond)
        except Exception:
            continue
        todo.append({"module": y[0], "line": y[2].lineno, "function": y[7], "what": y[3], "new": ast.unparse(y[4])[:100], "cond": cond, "src": src})
    print(len(todo), "mutants", flush=True)
    n = {}
    with open(a.out, "w") as f, ThreadPoolExecutor(a.jobs) as ex:
        for m, r in zip(todo, ex.map(lambda m: rare.run(m, a.workers), todo)):
            n[r.split()[0]] = n.get(r.split()[0], 0) + 1
            d = {k: m[k] for k in m if k != "src"}
            d["result"] = r
            f.write(json.dumps(d) + "\n")
            f.flush()
    print(n)


if __name__ == "__main__":
    main()
