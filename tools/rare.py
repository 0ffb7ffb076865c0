"""
Development tool (no check uses it): mutants that only show under a rare condition.

python3-vt tools/rare.py [--modules a,b] [--sample K] [--out FILE] [--jobs N] [--seed S] [--retry FILE]

As mutate.py, but the mutated expression or statement is used only when some local variable is rare in some way (a number
above nine, zero, a falsy value, a tuple, a long collection, a parallel edge, a loop, a big graph, ...). A surviving mutant is "UNTRIGGERED" if the condition never
held (a gap of the generators, or an impossible condition) and "SURVIVED" otherwise (a gap of the oracle, or an equivalent mutant).
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import HERE, PROPS, SRC, Order, mutations, strip_docstrings

HELPER = '''
import os as _os
_busy = []
def _rare(f, kind):
    if _busy:
        return False
    _busy.append(1)
    try:
        x = f()
        t = _KINDS[kind](x)
    except Exception:
        t = False
    finally:
        _busy.pop()
    if t and not _seen:
        _seen.append(1)
        open(_os.environ["RARE_MARK"], "w").close()
    return t
_seen = []
def _num(x):
    return isinstance(x, int) and not isinstance(x, bool)
def _sized(x):
    return isinstance(x, (list, tuple, set, frozenset, dict, str)) or type(x).__name__ in ("deque", "defaultdict")
_KINDS = {
    "gt9": lambda x: _num(x) and 9 < x < 10 ** 9,
    "gt300": lambda x: _num(x) and 300 < x < 10 ** 9,
    "zero": lambda x: _num(x) and x == 0,
    "falsy": lambda x: x is not None and not isinstance(x, bool) and not x,
    "tuple": lambda x: isinstance(x, tuple),
    "multi": lambda x: isinstance(x, str) and len(x) > 1,
    "wide": lambda x: isinstance(x, str) and any(ord(a) > 255 for a in x),
    "long": lambda x: _sized(x) and len(x) > 6,
    "vlong": lambda x: _sized(x) and len(x) > 40,
    "single": lambda x: _sized(x) and len(x) == 1,
    "par": lambda x: _num(x.distinguisher) and x.distinguisher > 1,
    "loop": lambda x: x.source == x.target,
    "desc": lambda x: x.source > x.target,
    "far": lambda x: x.target > 12,
    "gbig": lambda x: len(list(x.vertices())) > 12,
    "gone": lambda x: len(list(x.vertices())) == 1,
    "gholes": lambda x: max(x.vertices()) >= len(list(x.vertices())),
    "none": lambda x: x is None,
}
KINDS = list(_KINDS)
'''
ns = {}
exec(HELPER, ns)
KINDS = ns["KINDS"]


INTS = set("u v q r i j n m d f q0 q01 q02 f1 f2 idx k s t card start end d_u d_uv d_best h u_dup v_dup u_alias v_alias q_new r_new q1 q2 r1 r2 s1 s2".split())
EDGES = {"e", "e1", "e2", "e_dup", "e12"}
GRAPHS = set("g g1 g2 g12 gv gv1 gv2 nfa nfa1 nfa2 g_dup min_g dfa ast".split())
TEXTS = set("w s a x y expression unmatched matched line key value opts text s_dot element w_u name symbol k o a1 a2".split())


def kinds_of(name):
    """The conditions that make sense for a variable of this name."""
    ks = []
    if name in INTS:
        ks += ["gt9", "gt300", "zero"]
    if name in EDGES:
        ks += ["par", "loop", "desc", "far", "none"]
    if name in GRAPHS:
        ks += ["gbig", "gone", "gholes"]
    if name in TEXTS:
        ks += ["falsy", "tuple", "multi", "wide", "long", "zero", "gt9"]
    return ks or ["long", "vlong", "single", "falsy", "gt9", "none"]


class Wrap(ast.NodeTransformer):
    def __init__(self, index, new, cond):
        self.index, self.new, self.cond, self.i = index, new, cond, -1

    def visit(self, node):
        self.i += 1
        if self.i == self.index:
            c = ast.parse(self.cond, mode="eval").body
            if isinstance(node, ast.stmt):
                return ast.If(test=c, body=[self.new], orelse=[node])
            return ast.IfExp(test=c, body=self.new, orelse=node)
        return self.generic_visit(node)


def mutants(module):
    tree = strip_docstrings(ast.parse(open(os.path.join(SRC, module + ".py")).read()))
    order = Order()
    order.visit(tree)
    parents = {}
    for x in ast.walk(tree):
        for y in ast.iter_child_nodes(x):
            parents[y] = x
    out = []
    for i, node in enumerate(order.nodes):
        if not isinstance(node, (ast.expr, ast.stmt)):
            continue
        f = s = node
        while s in parents and not isinstance(s, ast.stmt):
            s = parents[s]
        while f in parents and not isinstance(f, ast.FunctionDef):
            f = parents[f]
        if not isinstance(f, ast.FunctionDef) or s is f or node in f.args.defaults:
            continue
        local = {a.arg for a in f.args.args} - {"self", "cls"}
        local |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        used = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        names = sorted(local & (used | {a.arg for a in f.args.args}))
        for descr, new in mutations(node):
            if not isinstance(new, (ast.expr, ast.stmt)):
                continue
            for name in names:
                for kind in kinds_of(name):
                    out.append((module, i, node, descr, new, name, kind, f.name))
    return tree, out


def source(tree, x):
    module, i, node, descr, new, name, kind, fname = x
    t = ast.fix_missing_locations(Wrap(i, copy.deepcopy(new), "_rare(lambda: %s, %r)" % (name, kind)).visit(copy.deepcopy(tree)))
    src = ast.unparse(t) + HELPER
    compile(src, module, "exec")
    return src


def run(m, workers=1):
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/src", os.path.join(tmp, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(tmp, "src", "pybgl", m["module"] + ".py"), "w") as f:
            f.write(m["src"])
        mark = os.path.join(tmp, "mark")
        env = dict(os.environ, PYBGL_SRC=os.path.join(tmp, "src"), PBT_OUT=tmp, PBT_NOSHRINK="1", PBT_CASE_CPU="4", RARE_MARK=mark)
        for p in PROPS[m["module"]].split():
            r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), p, "--workers", str(workers), "--tier", "quick"], env=env, cwd=tmp, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                return "caught " + p
            if r.returncode != 0:
                return "error %s %s" % (p, (r.stdout + r.stderr)[-200:].replace("\n", " "))
        return "SURVIVED" if os.path.exists(mark) else "UNTRIGGERED"
    finally:
        shutil.rmtree(tmp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--modules")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--out", default="/tmp/rare.jsonl")
    ap.add_argument("--sample", type=int, default=300)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--retry")
    a = ap.parse_args()
    mods = a.modules.split(",") if a.modules else sorted(PROPS)
    rng = random.Random(a.seed)
    todo = []
    per = {}
    for x in mods:
        tree, ms = mutants(x)
        # by (function, mutation) then a random condition
        by = {}
        for y in ms:
            by.setdefault((y[1], y[3]), []).append(y)
        per[x] = [(tree, rng.choice(v)) for v in by.values()] + [(tree, rng.choice(v)) for v in by.values()]
        if a.retry:
            per[x] = [(tree, y) for y in ms]
    if a.retry:
        keys = {(d["module"], d["line"], d["what"], d["new"], d["cond"]) for d in map(json.loads, open(a.retry)) if not d["result"].startswith("caught")}
        pick = [(t, y) for x in mods for t, y in per[x] if (y[0], y[2].lineno, y[3], ast.unparse(y[4])[:100], "%s(%s)" % (y[6], y[5])) in keys]
    else:
        pick = [p for x in mods for p in per[x]]
        pick = rng.sample(pick, min(a.sample, len(pick)))
    for tree, y in pick:
        try:
            src = source(tree, y)
        except Exception:
            continue
        todo.append({"module": y[0], "line": y[2].lineno, "function": y[7], "what": y[3], "new": ast.unparse(y[4])[:100], "cond": "%s(%s)" % (y[6], y[5]), "src": src})
    print(len(todo), "mutants", flush=True)
    n = {}
    with open(a.out, "w") as f, ThreadPoolExecutor(a.jobs) as ex:
        for m, r in zip(todo, ex.map(lambda m: run(m, a.workers), todo)):
            n[r.split()[0]] = n.get(r.split()[0], 0) + 1
            d = {k: m[k] for k in m if k != "src"}
            d["result"] = r
            f.write(json.dumps(d) + "\n")
            f.flush()
    print(n)


if __name__ == "__main__":
    main()
