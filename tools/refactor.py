"""
Rewrites the whole library with transformations that keep its behaviour, to see that the checks stay quiet.

    python3 tools/refactor.py OUT TRANSFORM...     copies /repo/src to OUT/src, transformed; then run the checks with PYBGL_SRC=OUT/src

Transformations: impl (the body of every function goes in a helper), swap (if/else inverted), lists (generator expressions returned become
iterators over lists), keys (x in d.keys() becomes x in d), loops (while becomes while True + break; for becomes while + next),
cond (conditional expressions and boolean operators become helpers), names (local variables renamed), noop (a statement that does nothing).
"""
import ast
import os
import shutil
import sys


class HasYield(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_FunctionDef(self, n):
        pass
    visit_Lambda = visit_GeneratorExp = visit_FunctionDef

    def visit_Yield(self, n):
        self.found = True
    visit_YieldFrom = visit_Yield


def is_generator(f):
    v = HasYield()
    for x in f.body:
        v.visit(x)
    return v.found


def docstring(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0


class Impl(ast.NodeTransformer):
    """The body of a function goes in a nested helper."""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = docstring(f.body)
        text = ast.unparse(f)
        if is_generator(f) or not f.body[k:] or "super()" in text or "nonlocal" in text or "locals()" in text or "__class__" in text:
            return f
        # the names assigned in the body become local to the helper: parameters assigned are passed as defaults
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        helper = ast.FunctionDef(
            name="_impl", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=f.body[k:], decorator_list=[], type_params=[])
        helper.lineno = 0
        call = ast.Return(value=ast.Call(func=ast.Name(id="_impl", ctx=ast.Load()), args=[ast.Name(id=n, ctx=ast.Load()) for n in names], keywords=[]))
        f.body = f.body[:k] + [helper, call]
        return f


class Swap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(op=ast.Not(), operand=n.test), n.orelse, n.body
        return n


class Lists(ast.NodeTransformer):
    def visit_Return(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.GeneratorExp):
            x = ast.ListComp(elt=n.value.elt, generators=n.value.generators)
            n.value = ast.Call(func=ast.Name(id="iter", ctx=ast.Load()), args=[x], keywords=[])
        return n


class Keys(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        c = n.comparators
        if len(c) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(c[0], ast.Call) and isinstance(c[0].func, ast.Attribute) and c[0].func.attr == "keys" and not c[0].args:
            n.comparators = [c[0].func.value]
        return n


class Loops(ast.NodeTransformer):
    n = 0

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        n.test, n.body = ast.Constant(value=True), [stop] + n.body
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        Loops.n += 1
        it = "_it%d" % Loops.n
        end = "_end%d" % Loops.n
        name = lambda x: ast.Name(id=x, ctx=ast.Load())     # noqa: E731
        start = ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=ast.Call(func=name("iter"), args=[n.iter], keywords=[]), lineno=0)
        mark = ast.Assign(targets=[ast.Name(id=end, ctx=ast.Store())], value=ast.Call(func=name("object"), args=[], keywords=[]), lineno=0)
        item = "_x%d" % Loops.n
        step = ast.Assign(targets=[ast.Name(id=item, ctx=ast.Store())], value=ast.Call(func=name("next"), args=[name(it), name(end)], keywords=[]), lineno=0)
        stop = ast.If(test=ast.Compare(left=name(item), ops=[ast.Is()], comparators=[name(end)]), body=[ast.Break()], orelse=[])
        bind = ast.Assign(targets=[n.target], value=name(item), lineno=0)
        return [start, mark, ast.While(test=ast.Constant(value=True), body=[step, stop, bind] + n.body, orelse=[])]


class Cond(ast.NodeTransformer):
    """Conditions are evaluated by lambdas; x if c else y becomes a choice between lambdas."""
    def __init__(self):
        self.depth = 0

    def visit_ClassDef(self, n):       # names of a class body are not visible in its lambdas
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    def visit_FunctionDef(self, f):
        self.depth += 1
        f.body = [self.visit(x) for x in f.body]
        self.depth -= 1
        return f

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if not self.depth or "super()" in ast.unparse(n) or ":=" in ast.unparse(n):
            return n
        lam = lambda x: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=x)      # noqa: E731
        return ast.Call(func=ast.IfExp(test=n.test, body=lam(n.body), orelse=lam(n.orelse)), args=[], keywords=[])


class Names(ast.NodeTransformer):
    """Local variables of functions without nested function are renamed."""
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for s in f.body for x in ast.walk(s)):
            self.generic_visit(f)
            return f
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        local = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in local:
                    x.id = "renamed_" + x.id
        return f


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = docstring(f.body)
        f.body[k:k] = ast.parse("_unused = None\ndel _unused").body
        return f


ALL = {"impl": Impl, "swap": Swap, "lists": Lists, "keys": Keys, "loops": Loops, "cond": Cond, "names": Names, "noop": Noop}


def main():
    out, names = sys.argv[1], sys.argv[2:]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree("/repo/src", out + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    d = out + "/src/pybgl"
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            with open(os.path.join(d, f)) as fd:
                tree = ast.parse(fd.read())
            for n in names:
                tree = ast.fix_missing_locations(ALL[n]().visit(tree))
            with open(os.path.join(d, f), "w") as fd:
                fd.write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    main()
