"""C18: algebraic expressions, shunting-yard."""
from collections import defaultdict, deque
from hypothesis import strategies as st
from pbt import dotparse
from pbt.core import target, expect, equal
from pybgl import make_assoc_property_map, make_func_property_map
from pybgl.shunting_yard_postfix import (
    LEFT, RIGHT, MAP_OPERATORS_ALG, Op, Ast, DefaultShuntingYardVisitor, tokenizer_alg, shunting_yard_postfix, shunting_yard_ast,
    shunting_yard_compute, RpnDequeAlg, RpnDequeOperation,
)

ALG = {"u+": (1, 3, "R"), "u-": (1, 3, "R"), "^": (2, 4, "R"), "*": (2, 3, "L"), "/": (2, 3, "L"), "+": (2, 2, "L"), "-": (2, 2, "L")}


# ------------------------------------------------------------------------------------------------- Reference parser

class Parser:
    """Operator-precedence parser by recursive descent (independent from the shunting-yard). Trees are (token, [children])."""
    def __init__(self, tokens, table):
        self.tokens, self.table, self.i = tokens, table, 0

    def peek(self):
        return self.tokens[self.i] if self.i < len(self.tokens) else None

    def take(self):
        self.i += 1
        return self.tokens[self.i - 1]

    def primary(self):
        a = self.take()
        if a == "(":
            x = self.expr(None)
            assert self.take() == ")"
            return x
        if a in self.table:
            card, prec, assoc = self.table[a]
            assert card == 1 and assoc == "R", a
            return (a, [self.expr(prec)])
        return (a, [])

    def expr(self, ctx):
        x = self.primary()
        while self.peek() in self.table:
            card, prec, assoc = self.table[self.peek()]
            if ctx is not None and not (prec > ctx or (prec == ctx and assoc == "R")):
                break
            a = self.take()
            x = (a, [x]) if card == 1 else (a, [x, self.expr(prec)])
        return x

    def parse(self):
        x = self.expr(None)
        assert self.i == len(self.tokens)
        return x


def postfix_of(x):
    return [y for c in x[1] for y in postfix_of(c)] + [x[0]]


def evaluate(x):
    vs = [evaluate(c) for c in x[1]]
    a = x[0]
    if not vs:
        return a
    if a == "u-":
        return -vs[0]
    if a == "u+":
        return vs[0]
    u, v = vs
    return u + v if a == "+" else u - v if a == "-" else u * v if a == "*" else u / v if a == "/" else u ** v


def value(f, *args, **kwargs):
    """The value of f(...), or the type of the arithmetic error it raises."""
    try:
        return repr(f(*args, **kwargs))
    except (ArithmeticError, ValueError, TypeError) as e:   # 0 / 0, overflow, order of complex numbers...
        return type(e).__name__


def text_of(x):
    return str(x[0]) if not x[1] else "(%s%s%s)" % (text_of(x[1][0]), x[0], text_of(x[1][1]))


def depth_of(x):
    return 1 + max([0] + [depth_of(c) for c in x[1]])


# ---------------------------------------------------------------------------------------------------------- Generators

@st.composite
def expressions(draw, operands, binaries, prefixes, postfixes, size):
    """Tokens of a well-formed expression with at most size operands."""
    out = []

    def visit(n, depth):
        for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2])) if prefixes else 0):
            out.append(draw(st.sampled_from(prefixes)))
        if n <= 1 and not (depth < 4 and draw(st.integers(0, 7)) == 0):
            out.append(draw(operands))
        elif n <= 1:
            out.append("(")
            visit(1, depth + 1)
            out.append(")")
        else:
            k = draw(st.integers(1, n - 1))
            par = draw(st.sampled_from([False, False, True]))
            if par:
                out.append("(")
            visit(k, depth + 1)
            out.append(draw(st.sampled_from(binaries)))
            visit(n - k, depth + 1)
            if par:
                out.append(")")
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])) if postfixes else 0):
            out.append(draw(st.sampled_from(postfixes)))

    visit(size, 0)
    return out


NUMBERS = st.one_of(
    st.integers(0, 9).map(str), st.integers(0, 5).map(str), st.integers(10, 400).map(str),
    st.tuples(st.integers(0, 30), st.integers(0, 99)).map(lambda t: "%d.%d" % t),
    st.one_of(st.floats(0.001, 10 ** 6).map(lambda x: "%.17f" % x), st.sampled_from([
        "0.1", "3.14159265358979323846", ".5", "2.", "007", "0.0000000001", "123456789012345678901234567890", "9007199254740993", "1" + "0" * 200, "0." + "0" * 30 + "25", "000.500"])),
)
SPACES = st.sampled_from(["", "", "", "", " ", "  ", "\t", "\n", " ", "\r\n", "\x0b", "\x0c", "\u00a0", "\u2003"])


@st.composite
def alg_cases(draw, big=False):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6, 8, 12, 20 if big else 12]))
    binaries = draw(st.sampled_from([["+", "-", "*", "/", "^"], ["+", "-", "*", "/"], ["-", "/"], ["^", "-", "*"]]))
    prefixes = draw(st.sampled_from([[], ["-"], ["-", "+"]]))
    toks = draw(expressions(NUMBERS, binaries, prefixes, [], n))
    return {"tokens": toks, "space": draw(st.lists(SPACES, min_size=len(toks) + 1, max_size=len(toks) + 1))}


class Events(DefaultShuntingYardVisitor):
    def __init__(self):
        self.stack, self.output, self.max = [], [], 0

    def on_push_operator(self, o):
        self.stack.append(o)
        self.max = max(self.max, len(self.stack))

    def on_pop_operator(self, o):
        expect(self.stack and self.stack[-1] == o, "pop of", o, "but the pushed operators are", self.stack)
        self.stack.pop()

    def on_push_output(self, a):
        self.output.append(a)


def check_ast(ast, root, tree):
    equal(ast.root, root, "root")
    n = [0]

    def visit(u, x):
        n[0] += 1
        equal(ast.symbol(u), x[0], "symbol of a node")
        cs = list(ast.children(u))
        equal(len(cs), len(x[1]), "number of children of %r" % (x[0],))
        for v, y in zip(cs, x[1]):
            visit(v, y)
    visit(root, tree)
    equal((ast.num_vertices(), ast.num_edges()), (n[0], n[0] - 1), "size of the tree")
    equal(ast.directed, True, "directed")


class Build(RpnDequeOperation):
    """A queue of the user, which builds the tree."""
    def __init__(self, ops):
        super().__init__(map_operators=ops)
        self.seen = []

    def on_append(self, a):
        self.seen.append(a)
        return (a, [])

    def on_operation(self, a, op, u, vs):
        expect(op is self.map_operators[a], "specification of the operator", a, "given to on_operation:", op)
        equal(u, (a, []), "value of on_append given to on_operation")
        equal(len(vs), op.cardinality, "number of operands given to on_operation")
        return (a, list(vs))


@target("C18", "arithmetic", alg_cases, quick=500, rule="infix arithmetic expressions (1 to 12 operands, random parentheses, unary "
        "signs and spaces) against a recursive-descent evaluator making the same floating-point operations; non-trivial: 3 operands or more")
def c18_alg(case, o):
    toks = case["tokens"]
    want, prev = [], None
    for t in toks:
        if t in ("+", "-") and (prev is None or prev == "(" or prev in ALG):
            t = "u" + t
        elif t not in ALG and t not in "()":
            t = float(t)
        want.append(t)
        prev = t
    text = "".join(s + t for s, t in zip(case["space"], toks)) + case["space"][-1]
    equal(list(tokenizer_alg(text)), want, "tokenizer_alg(%r)" % text)
    tree = Parser(want, ALG).parse()
    ref = value(evaluate, tree)
    equal(value(shunting_yard_compute, text), ref, "value of %r" % text)
    equal(value(shunting_yard_compute, text), ref, "value of %r computed again" % text)
    vis = Events()
    arg = list(want)
    equal(value(shunting_yard_compute, arg, tokenize=False, vis=vis), ref, "value of the tokens %r" % want)
    equal(arg, want, "tokens left unchanged")
    if ref[:1].isdigit() or ref[:1] in "-(":
        equal((vis.output, vis.stack), (postfix_of(tree), []), "events of the visitor given to shunting_yard_compute")
    if ref[:1].isdigit() or ref[:1] in "-(":
        q = shunting_yard_postfix(iter(want), MAP_OPERATORS_ALG, RpnDequeAlg())
        equal((len(q), value(lambda: q[0])), (1, ref), "queue of operations of %r" % text)
    out = shunting_yard_postfix(iter(want), MAP_OPERATORS_ALG)
    equal(list(out), postfix_of(tree), "postfix form of %r" % text)
    ast, root = shunting_yard_ast(want, MAP_OPERATORS_ALG)
    check_ast(ast, root, tree)
    o.nontrivial(sum(isinstance(t, float) for t in want) >= 3)
    o.label("unary" if any(t in ("u-", "u+") for t in want) else "binary only", "depth %d+" % (depth_of(tree) // 3 * 3))
    if not ref[0].isdigit() and ref[0] != "-":
        o.label("error or special")


# ------------------------------------------------------------------------------------------------- Any operator table

@st.composite
def table_cases(draw, big=False):
    names = draw(st.permutations("+-*/^|.&%<>=~!@#$;:?"))
    table = {}
    nb, npre, npost = draw(st.integers(1, 6)), draw(st.integers(0, 3)), draw(st.integers(0, 2))
    for i in range(nb):
        table[names[i]] = [2, draw(st.integers(0, 4)), draw(st.sampled_from("LLR"))]
    for i in range(nb, nb + npre):
        table[names[i]] = [1, draw(st.integers(0, 5)), "R"]
    for i in range(nb + npre, nb + npre + npost):
        table[names[i]] = [1, 6, "L"]
    scale = draw(st.sampled_from([1, 1, 1, 0.25, -1.5, 100, 10 ** 20]))      # precedences need not be small integers
    lowest = -7 if scale < 0 else 0
    for x in table.values():
        x[1] = (x[1] + lowest) * abs(scale)
    ops = list(names[:nb]), list(names[nb:nb + npre]), list(names[nb + npre:nb + npre + npost])
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 12]))
    toks = draw(expressions(st.sampled_from("abcdefxyz"), *ops, n))
    long = draw(st.sampled_from([False, False, True]))
    if long:
        # Operators and operands of several characters
        new = {a: draw(st.sampled_from([a, a + a, a + "=", "op" + a])) for a in table}
        new.update({a: draw(st.sampled_from([a, a + "1", a + "(", "10", 0, 1, 2.5, 0.0, True, "", " ", "%s"])) for a in set(toks) - set("()") - set(table)})
        table = {new[a]: x for a, x in table.items()}
        toks = [new.get(a, a) for a in toks]
    return {"table": table, "tokens": toks, "long": long, "pmap": draw(st.booleans())}


@target("C18", "tables", table_cases, quick=500, rule="random tables of binary (either associativity), prefix and postfix operators, random expressions: "
        "postfix form, visitor events and syntax tree against a recursive-descent parser; non-trivial: 3 operators or more")
def c18_tables(case, o):
    toks, table = case["tokens"], case["table"]
    ops = {a: Op(cardinality=c, precedence=p, associativity=LEFT if s == "L" else RIGHT) for a, (c, p, s) in table.items()}
    keep = dict(ops)
    tree = Parser(toks, table).parse()
    want = postfix_of(tree)
    out = shunting_yard_postfix(toks if case["long"] else "".join(toks), ops)
    equal(list(out), want, "postfix form of %s" % (toks,))
    vis, given = Events(), deque()
    out = shunting_yard_postfix(iter(toks), ops, given, vis)
    expect(out is given, "the output given is returned")
    equal(list(out), want, "postfix form of %s" % (toks,))
    equal(vis.output, want, "on_push_output events")
    equal(vis.stack, [], "operators left on the stack according to the events")
    q = shunting_yard_postfix(iter(toks), ops, Build(ops))
    equal((list(q), q.seen), ([tree], want), "tree built by a queue of operations from %s" % (toks,))
    q = shunting_yard_postfix(iter(toks), ops, RpnDequeOperation(map_operators=ops))
    equal(list(q), [tree[0]], "default queue of operations after %s" % (toks,))
    vis = Events()
    ast, root = shunting_yard_ast(list(toks), ops, vis)
    check_ast(ast, root, tree)
    equal(vis.output, want, "on_push_output events")
    equal(ops, keep, "operator table")
    # Drawing of the tree, and its copy in an Ast made by hand
    d = dotparse.parse(ast.to_dot())
    labels = {int(u): a["label"] for u, a in d.nodes}
    equal(labels, {u: "%s %s" % (u, ast.symbol(u)) for u in ast.vertices()}, "labels of the drawing of the tree")
    equal(sorted((int(u), int(v)) for u, _, v, _ in d.edges), sorted((ast.source(e), ast.target(e)) for e in ast.edges()), "arcs of the drawing")
    d = dotparse.parse(ast.to_dot(dpv={"label": make_func_property_map(lambda u: "s%s" % ast.symbol(u)), "color": make_func_property_map(lambda u: "c%d" % u)}))
    equal({int(u): a for u, a in d.nodes}, {u: {"label": "s%s" % ast.symbol(u), "color": "c%d" % u} for u in ast.vertices()}, "drawing with dpv given")
    d = dotparse.parse(ast.to_dot(dpv={"color": make_func_property_map(lambda u: "c%d" % u)}))
    equal({int(u): a for u, a in d.nodes}, {u: {"label": "%s %s" % (u, ast.symbol(u)), "color": "c%d" % u} for u in ast.vertices()}, "drawing with colours given")
    d = defaultdict()
    mine = Ast(make_assoc_property_map(d)) if case["pmap"] else Ast()
    ids = {u: mine.add_vertex(ast.symbol(u)) for u in sorted(ast.vertices())}
    for u in sorted(ast.vertices()):
        for v in ast.children(u):
            mine.add_edge(ids[u], ids[v])
    mine.root = ids[root]
    check_ast(mine, mine.root, tree)
    if case["pmap"]:
        equal(dict(d), {ids[u]: ast.symbol(u) for u in ast.vertices()}, "symbols in the property map given to Ast")
    equal(mine.to_expr(), ast.to_expr(), "to_expr of the copy of the tree")
    if case["long"] and not any(c == 1 for c, p, s in table.values()):
        equal(ast.to_expr(), text_of(tree), "to_expr()")
    if not case["long"] and not any(c == 1 and s == "R" for c, p, s in table.values()):
        # Without prefix operator, the text of the tree denotes the tree
        text = ast.to_expr()
        equal(Parser(list(text), table).parse(), tree, "to_expr() = %r read again" % text)
        o.label("to_expr")
    o.nontrivial(sum(t in table for t in toks) >= 3)
    o.label("prefix" if any(table[t][0] == 1 and table[t][2] == "R" for t in toks if t in table) else "no prefix")
