"""
Development tool (no check uses it): mutation testing of the checks.

python3-vt tools/mutate.py [--modules a,b] [--scale X] [--out FILE] [--jobs N] [--sample K]

Each mutant is written in a scratch copy of the sources (PYBGL_SRC); the checks of the properties anchored in the
module run on it with one worker. The survivors are listed; those that are not equivalent show what a check misses.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pybgl"
PROPS = {
    "graph": "C01 C02 C06 C07 C23 C05", "incidence_graph": "C01 C11 C12 C10", "automaton": "C03 C25 C13 C19 C16 C23",
    "incidence_automaton": "C03 C11 C16 C25", "node_automaton": "C03 C25 C14 C16 C23", "incidence_node_automaton": "C03 C25 C16 C11",
    "nfa": "C04 C14 C17 C23", "graph_view": "C05 C23", "depth_first_search": "C06 C09", "breadth_first_search": "C07", "dijkstra_shortest_paths": "C08",
    "strong_components": "C09", "topological_sort": "C09", "graph_extract": "C10", "graph_copy": "C10", "automaton_copy": "C10",
    "reverse": "C11", "prune_incidence_automaton": "C11", "cut": "C12", "deterministic_union": "C13", "deterministic_intersection": "C13",
    "deterministic_inclusion": "C13", "product_mixin": "C13", "moore_determination": "C14 C17", "hopcroft_minimize": "C15", "revuz_minimize": "C16",
    "thompson_compile_nfa": "C17", "regexp": "C17", "shunting_yard_postfix": "C17 C18", "tokenize": "C30 C18", "trie": "C19 C30", "trie_matching": "C19",
    "digital_sequence": "C19 C13", "suffix_trie": "C30", "bk_tree": "C20", "levenshtein_distance": "C21", "lcs_distance": "C21",
    "damerau_levenshtein_distance": "C21", "heap": "C22 C08", "graphviz_impl": "C23 C24", "graphviz": "C23", "graph_dp": "C24", "color": "C27",
    "property_map": "C28", "algebra": "C28 C08", "parallel_breadth_first_search": "C26 C13", "aggregated_visitor": "C26", "graph_traversal": "C29",
}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.Add}
NAMES = {"append": "appendleft", "appendleft": "append", "pop": "popleft", "popleft": "pop", "min": "max", "max": "min", "any": "all", "all": "any",
         "keys": "values", "add": "discard", "source": "target", "target": "source", "union": "intersection", "intersection": "union",
         "issubset": "issuperset", "difference": "union", "out_edges": "in_edges", "in_edges": "out_edges", "vertices": "edges"}


def strip_docstrings(tree):
    for x in ast.walk(tree):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Module)) and x.body and isinstance(x.body[0], ast.Expr) \
                and isinstance(x.body[0].value, ast.Constant) and isinstance(x.body[0].value.value, str):
            x.body[0].value.value = ""
    return tree


def mutations(node):
    """Yields (description, replacement) of a node; replacement None: delete the statement."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP[type(op)]:
                n = copy.deepcopy(node)
                n.ops[i] = new()
                yield "%s -> %s" % (type(op).__name__, new.__name__), n
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "and/or", n
        for i in range(len(node.values)):
            rest = [copy.deepcopy(v) for j, v in enumerate(node.values) if j != i]
            yield "drop operand %d" % i, (rest[0] if len(rest) == 1 else ast.BoolOp(op=node.op, values=rest))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "drop not", copy.deepcopy(node.operand)
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        yield "%s" % type(node.op).__name__, n
    elif isinstance(node, ast.Constant) and type(node.value) in (bool, int, float):
        yield "constant", ast.Constant(value=(not node.value) if isinstance(node.value, bool) else node.value + 1)
    elif isinstance(node, (ast.If, ast.While)):
        if isinstance(node, ast.If):
            for v in (True, False):
                n = copy.deepcopy(node)
                n.test = ast.Constant(value=v)
                yield "if %s" % v, n
    elif isinstance(node, ast.IfExp):
        yield "then", copy.deepcopy(node.body)
        yield "else", copy.deepcopy(node.orelse)
    elif isinstance(node, ast.Call):
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if name in NAMES:
            n = copy.deepcopy(node)
            if isinstance(f, ast.Attribute):
                n.func.attr = NAMES[name]
            else:
                n.func.id = NAMES[name]
            yield "call %s" % name, n
        if len(node.args) >= 2 and name not in ("isinstance", "super"):
            n = copy.deepcopy(node)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            yield "swap arguments", n
        if name in ("set", "list", "sorted", "reversed", "deque", "tuple", "copy", "dict") and len(node.args) == 1 and not node.keywords:
            yield "drop %s()" % name, copy.deepcopy(node.args[0])
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            yield "drop keyword", n
    elif isinstance(node, ast.comprehension) and node.ifs:
        n = copy.deepcopy(node)
        n.ifs = []
        yield "drop comprehension filter", n
    elif isinstance(node, ast.Break):
        yield "break", ast.Continue()
    elif isinstance(node, ast.Continue):
        yield "continue", ast.Pass()
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield "delete call", ast.Pass()
    elif isinstance(node, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(node, "targets", [None])[0], ast.Name):
        yield "delete assignment", ast.Pass()
    elif isinstance(node, ast.AugAssign):
        n = copy.deepcopy(node)
        if type(n.op) in BIN:
            n.op = BIN[type(n.op)]()
            yield "augmented", n
    elif isinstance(node, ast.Delete):
        yield "delete del", ast.Pass()
    elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        yield "return None", ast.Return(value=ast.Constant(value=None))


PAIRS = [("u", "v"), ("q", "r"), ("g1", "g2"), ("q1", "q2"), ("r1", "r2"), ("s1", "s2"), ("e1", "e2"), ("i", "j"), ("m", "n"), ("x", "y"), ("q01", "q02"),
         ("f1", "f2"), ("s", "u"), ("s", "t"), ("q0", "q"), ("w_su", "w_uv"), ("w", "w_sv"), ("g", "g_dup"), ("u", "u_dup"), ("v", "v_dup"), ("nfa1", "nfa2"),
         ("dpv", "dpe"), ("dv", "de"), ("vs", "es"), ("start", "end"), ("a", "o"), ("d_u", "d_uv"), ("w_u", "w")]
OTHER = {}
for _a, _b in PAIRS:
    OTHER.setdefault(_a, []).append(_b)
    OTHER.setdefault(_b, []).append(_a)
IDENT = {ast.Eq: ast.Is, ast.NotEq: ast.IsNot}


def extra(node):
    """Identity for equality, truth for presence, a variable for its twin."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        op, right = node.ops[0], node.comparators[0]
        if type(op) in IDENT:
            n = copy.deepcopy(node)
            n.ops[0] = IDENT[type(op)]()
            yield "identity", n
        if isinstance(op, (ast.Is, ast.IsNot)) and ast.unparse(right) in ("None", "BOTTOM"):
            yield "truth", (ast.UnaryOp(ast.Not(), copy.deepcopy(node.left)) if isinstance(op, ast.Is) else copy.deepcopy(node.left))
        if isinstance(op, (ast.In, ast.NotIn)):
            q = ast.parse("any(_x is _y for _y in _z)", mode="eval").body
            q.args[0].elt.left = copy.deepcopy(node.left)
            q.args[0].generators[0].iter = copy.deepcopy(right)
            yield "identity in", (q if isinstance(op, ast.In) else ast.UnaryOp(ast.Not(), q))
    elif isinstance(node, (ast.If, ast.IfExp)) and isinstance(node.test, (ast.Name, ast.Attribute)):
        n = copy.deepcopy(node)
        n.test = ast.Compare(n.test, [ast.IsNot()], [ast.Constant(value=None)])
        yield "presence", n
    elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in OTHER:
        for o in OTHER[node.id]:
            yield "name " + o, ast.Name(id=o, ctx=ast.Load())
    elif isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load) and isinstance(node.slice, (ast.Constant, ast.Name)):
        yield "get", ast.Call(ast.Attribute(copy.deepcopy(node.value), "get", ast.Load()), [copy.deepcopy(node.slice)], [])
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "get" and len(node.args) == 2:
        yield "default", ast.Call(node.func, [node.args[0]], [])
    elif isinstance(node, ast.GeneratorExp):
        yield "set", ast.SetComp(node.elt, node.generators)


class Replace(ast.NodeTransformer):
    def __init__(self, index, new):
        self.index, self.new, self.i = index, new, -1

    def visit(self, node):
        self.i += 1
        if self.i == self.index:
            return self.new
        return self.generic_visit(node)


class Order(ast.NodeVisitor):
    def __init__(self):
        self.nodes = []

    def visit(self, node):
        self.nodes.append(node)
        self.generic_visit(node)


def mutants(module, mutations=mutations):
    path = os.path.join(SRC, module + ".py")
    tree = strip_docstrings(ast.parse(open(path).read()))
    order = Order()
    order.visit(tree)
    base = ast.unparse(tree)
    scope = {}
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            names = {x.arg for x in ast.walk(f) if isinstance(x, ast.arg)} | {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
            for x in ast.walk(f):
                scope[id(x)] = names
    out = []
    for i, node in enumerate(order.nodes):
        for descr, new in mutations(node):
            t = copy.deepcopy(tree)
            t = ast.fix_missing_locations(Replace(i, new).visit(t))
            try:
                src = ast.unparse(t)
                compile(src, module, "exec")
            except Exception:
                continue
            if src != base:
                line = getattr(node, "lineno", 0)
                out.append({"module": module, "line": line, "what": descr, "src": src, "scope": scope.get(id(node), ()), "new": ast.unparse(new)[:100] if not isinstance(new, ast.comprehension) else ""})
    return out


def run(m, scale, workers=1, first=True):
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/src", os.path.join(tmp, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(tmp, "src", "pybgl", m["module"] + ".py"), "w") as f:
            f.write(m["src"])
        env = dict(os.environ, PYBGL_SRC=os.path.join(tmp, "src"), PBT_SCALE=str(scale), PBT_OUT=tmp, PBT_NOSHRINK="1", PBT_CASE_CPU="4")
        for p in PROPS[m["module"]].split():
            r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), p, "--workers", str(workers), "--tier", "quick"], env=env, cwd=tmp,
                               capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                return "caught " + p
            if r.returncode != 0:
                return "error %s %s" % (p, (r.stdout + r.stderr)[-200:].replace("\n", " "))
        return "SURVIVED"
    finally:
        shutil.rmtree(tmp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--modules")
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--extra", action="store_true", help="identity, truth and twin variables instead of the usual mutations")
    ap.add_argument("--retry", help="only the survivors listed in this file")
    a = ap.parse_args()
    mods = a.modules.split(",") if a.modules else sorted(PROPS)
    todo = [m for x in mods for m in mutants(x, extra if a.extra else mutations)]
    if a.extra:     # a twin variable must be a name of the same function
        todo = [m for m in todo if not m["what"].startswith("name ") or m["what"][5:] in m["scope"]]
    if a.retry:
        keys = {(d["module"], d["line"], d["what"], d["new"]) for d in map(json.loads, open(a.retry)) if not d["result"].startswith("caught")}
        todo = [m for m in todo if (m["module"], m["line"], m["what"], m["new"]) in keys]
    if a.sample and len(todo) > a.sample:
        todo = random.Random(1).sample(todo, a.sample)
    print(len(todo), "mutants", flush=True)
    n = {"caught": 0, "SURVIVED": 0, "error": 0}
    with open(a.out, "w") as f, ThreadPoolExecutor(a.jobs) as ex:
        for m, r in zip(todo, ex.map(lambda m: run(m, a.scale, a.workers), todo)):
            n[r.split()[0]] += 1
            d = {k: m[k] for k in ("module", "line", "what", "new")}
            d["result"] = r
            f.write(json.dumps(d) + "\n")
            f.flush()
    print(n)


if __name__ == "__main__":
    main()
