"""C20: BK-trees; C21: string distances; C22: heap; C30: tokenize, factors and suffix tries."""
import re
from itertools import product
from hypothesis import strategies as st
from pbt import dotparse, gen
from pbt.core import target, expect, equal
from pbt.props.lang import model_of, compare_model, trie_model
from pbt.props.tries import numbered_trie, prefixes, trie_of
from pybgl import BKTree, Comparable, Heap, Trie, compare_to_key, make_bk_tree, make_suffix_trie
from pybgl.bk_tree import bk_tree_insert
from pybgl.damerau_levenshtein_distance import DamerauLevenshteinDistance, damerau_levenshtein_distance, damerau_levenshtein_distance_naive
from pybgl.lcs_distance import LcsDistance, lcs_distance, lcs_distance_naive
from pybgl.levenshtein_distance import LevenshteinDistance, levenshtein_distance, levenshtein_distance_naive
from pybgl.suffix_trie import factors, slices
from pybgl.tokenize import TokenizeVisitor, tokenize


# ------------------------------------------------------------------------------------------------------ C21: distances

def dp(x, y, sub, swap):
    """Edit distance by dynamic programming over the prefixes; sub: cost of a substitution, swap: transpositions are allowed."""
    d = [[i + j if not i or not j else 0 for j in range(len(y) + 1)] for i in range(len(x) + 1)]
    for i in range(1, len(x) + 1):
        for j in range(1, len(y) + 1):
            v = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (0 if x[i - 1] == y[j - 1] else sub))
            if swap and i > 1 and j > 1 and x[i - 1] == y[j - 2] and x[i - 2] == y[j - 1]:
                v = min(v, d[i - 2][j - 2] + 1)
            d[i][j] = v
    return d[len(x)][len(y)]


DISTANCES = {
    "levenshtein": (levenshtein_distance, levenshtein_distance_naive, LevenshteinDistance, (1, False)),
    "lcs": (lcs_distance, lcs_distance_naive, LcsDistance, (2, False)),
    "damerau": (damerau_levenshtein_distance, damerau_levenshtein_distance_naive, DamerauLevenshteinDistance, (1, True)),
}


@st.composite
def string_pairs(draw, big=False):
    k = draw(st.sampled_from(["any", "edit", "edit", "edit", "small", "long"]))
    alpha = draw(st.sampled_from(["ab", "abc", "abcdefgh", "aé\u0301\U0001f600 ", gen.TRICKY[:5]]))
    if k == "small":
        return [draw(st.text("ab", max_size=5)), draw(st.text("ab", max_size=5))]
    if k == "any":
        return [draw(st.text(alpha, max_size=14)), draw(st.text(alpha, max_size=14))]
    x = draw(st.text(alpha, min_size=4, max_size=20 if k == "edit" else 30))
    if k == "long":
        x = x * draw(st.integers(2, 5))
    y = list(x)
    for _ in range(draw(st.integers(0, 8))):
        op = draw(st.sampled_from(["ins", "del", "sub", "swap", "swap", "move"]))
        i = draw(st.integers(0, max(0, len(y) - 1)))
        if op == "ins":
            y.insert(i, draw(st.sampled_from(alpha)))
        elif op == "del" and y:
            del y[i]
        elif op == "sub" and y:
            y[i] = draw(st.sampled_from(alpha))
        elif op == "swap" and i + 1 < len(y):
            y[i], y[i + 1] = y[i + 1], y[i]
        elif op == "move" and y:
            y = y[i:] + y[:i]
    return [x[:160], "".join(y)[:160]]


def check_pair(x, y, o, naive):
    for name, (f, nf, cls, ref) in DISTANCES.items():
        want = dp(x, y, *ref)
        what = "%s(%r, %r)" % (name, x, y)
        equal(f(x, y), want, what)
        equal(f(y, x), want, what + " with the strings swapped")
        equal(f(x[::-1], y[::-1]), want, what + " with the strings reversed")
        equal(f(x, x), 0, "%s(%r, %r)" % (name, x, x))
        expect((want == 0) == (x == y), what, "=", want)
        c = cls(x, y)
        equal(c.compute(), want, what + " by its class")
        for i, j in ((1, 0), (0, 1), (len(x) // 2, len(y) // 2), (len(x), len(y))):
            if i <= len(x) and j <= len(y):
                equal(c.compute(i, j), dp(x[i:], y[j:], *ref), what + " by its class from %d, %d" % (i, j))
        if naive:
            equal(nf(x, y), want, what + " (naive)")


@target("C21", "pairs", string_pairs, quick=450, rule="pairs of strings, often one edited from the other, up to 150 characters, against dynamic "
        "programming over the prefixes; non-trivial: the strings differ and have 3 characters or more each")
def c21(case, o):
    x, y = case
    check_pair(x, y, o, len(x) + len(y) <= 9)
    o.nontrivial(x != y and len(x) >= 3 and len(y) >= 3)
    ds = [dp(x, y, *DISTANCES[k][3]) for k in ("levenshtein", "damerau")]
    o.label("transposition" if ds[0] != ds[1] else "no transposition", "len %d+" % (max(len(x), len(y)) // 20 * 20))


def all_pairs(big):
    words = ["".join(w) for n in range(5 if big else 4) for w in product("abc", repeat=n)]
    for x in words:
        for y in words:
            if (x == "" or x[0] == "a") and x <= y:
                yield [x, y]


@target("C21", "small", enum=all_pairs, rule="every pair of words over {a, b, c} of length at most 3 (4 in the thorough tier), up to order and the first "
        "letter; non-trivial: the words differ")
def c21_small(case, o):
    x, y = case
    check_pair(x, y, o, True)
    o.nontrivial(x != y)


# ------------------------------------------------------------------------------------------------------- C20: BK-trees

def hamming(x, y):
    return bin(x ^ y).count("1")


def discrete(x, y):
    return 0 if x == y else 3


METRICS = {
    "levenshtein": lambda x, y: dp(x, y, 1, False),
    "lcs": lambda x, y: dp(x, y, 2, False),
    "abs": lambda x, y: abs(x - y),
    "abs3": lambda x, y: 3 * abs(x - y),
    "hamming": hamming,
    "discrete": discrete,
    "l1": lambda x, y: abs(x[0] - y[0]) + abs(x[1] - y[1]),
    "lists": lambda x, y: abs(x[0] - y[0]) + abs(x[1] - y[1]),
    "linf": lambda x, y: max(abs(x[0] - y[0]), abs(x[1] - y[1])),
    "tree": lambda x, y: len(x) + len(y) - 2 * max(i for i in range(min(len(x), len(y)) + 1) if x[:i] == y[:i]),
    "scaled": lambda x, y: 0 if x == y else 10 + abs(x - y),
}


def elements_of(metric):
    if metric in ("levenshtein", "lcs"):
        return st.one_of(st.text("ab", max_size=5), st.text("abc", min_size=2, max_size=7))
    if metric == "tree":
        return st.text("ab", max_size=6)
    if metric in ("l1", "linf", "lists"):
        return st.tuples(st.integers(0, 7), st.integers(0, 7)).map(list)
    if metric in ("abs", "abs3", "scaled"):
        return st.one_of(st.integers(0, 31), st.integers(-50, 50), st.sampled_from([0, 7, -10 ** 7, 10 ** 7, 2 ** 60, 2 ** 60 + 9, -10 ** 15]))
    return st.one_of(st.integers(0, 31), st.integers(-50, 50) if metric != "hamming" else st.integers(0, 255))


@st.composite
def bk_cases(draw, big=False):
    metric = draw(st.sampled_from(sorted(METRICS)))
    el = elements_of(metric)
    n = draw(st.sampled_from([0, 1, 4, 8, 8, 12]))
    xs = draw(st.lists(el, min_size=n, max_size=n + 8 * (2 if big else 1)))
    dup = draw(st.lists(st.integers(0, 30), max_size=3))
    xs += [xs[i % len(xs)] for i in dup if xs]
    return {"metric": metric, "xs": xs, "qs": draw(st.lists(el, min_size=2, max_size=6)), "d": draw(st.integers(0, 6)), "make": draw(st.booleans())}


@target("C20", "histories", bk_cases, quick=360, rule="insertions then searches under eleven integer metrics (Levenshtein, LCS, L1, Hamming, discrete, tree...), "
        "thresholds around the true distance, whole tree and subtrees, against exhaustive search; the tree structure and its content are "
        "checked; non-trivial: 5 distinct elements or more")
def c20(case, o):
    metric = case["metric"]
    fix = (lambda x: tuple(x)) if metric in ("l1", "linf") else (lambda x: x)
    xs, qs = [fix(x) for x in case["xs"]], [fix(x) for x in case["qs"]]
    d = METRICS[metric]
    if case["make"]:
        if metric == "levenshtein":
            t = make_bk_tree(iter(xs))
        else:
            t = make_bk_tree(iter(xs) if len(xs) % 2 else xs, d)
        first = []
        for x in xs:
            if x not in first:
                first.append(x)
        equal([t.element(u) for u in t.vertices()], first, "elements of the tree, in the order of their insertion")
    else:
        t = BKTree(d)
        equal(t.search(qs[0]), None, "search in an empty tree")
        vertex = {}
        for i, x in enumerate(xs):
            u = t.insert(x) if i % 2 else bk_tree_insert(x, t)
            equal(t.element(u), x, "element of the vertex returned by insert")
            equal(vertex.setdefault(repr(x), u), u, "vertex returned by the insertion of %r again" % (x,))
            equal(t.num_vertices(), len(vertex), "number of vertices after the insertion of %r" % (x,))
    keep = [x for i, x in enumerate(sorted(xs)) if not i or x != sorted(xs)[i - 1]]

    def content():
        equal(sorted(t.element(u) for u in t.vertices()), keep, "elements of the tree")
        equal(t.num_edges(), max(0, len(keep) - 1), "number of edges")
        sub = {}

        def visit(u):
            s = [t.element(u)]
            labels = set()
            for e in t.out_edges(u):
                a = t.label(e)
                expect(a not in labels, "two children of %r at distance %r" % (t.element(u), a))
                labels.add(a)
                below = visit(t.target(e))
                for y in below:
                    equal(d(t.element(u), y), a, "distance from %r to %r, found below the edge labelled %r" % (t.element(u), y, a))
                s += below
            sub[u] = s
            return s
        if keep:
            equal(sorted(visit(t.root)), keep, "elements below the root")
        return sub

    sub = content()
    for q in qs + xs[:2]:
        for r in [None] + sorted(sub)[:3]:
            among = keep if r is None else sub[r]
            best = min((d(q, x) for x in among), default=None)
            for m in {case["d"], 0} | (set() if best is None else {best, best - 1, best + 1, best + case["d"]}):
                if m < 0:
                    continue
                got = t.search(q, m) if r is None else t.search(q, m, r)
                what = "search(%r, %r%s)" % (q, m, "" if r is None else ", r=%r" % r)
                if best is None or best > m:
                    equal(got, None, what)
                else:
                    expect(got is not None, what, "found nothing although", best, "is the smallest distance")
                    x, dx = got
                    expect(x in among, what, "returned", x, "which is not an element")
                    equal((dx, d(q, x)), (best, best), what + ": distance of %r" % (x,))
            got = t.search(q) if r is None else t.search(q, r=r)
            equal(None if got is None else got[1], best, "search(%r) without threshold" % (q,))
    content()
    dot = dotparse.parse(t.to_dot())
    equal(sorted((u, a.get("label", "")) for u, a in dot.nodes), sorted((str(u), str(t.element(u))) for u in t.vertices()), "vertices exported by to_dot")
    equal(sorted((u, v, a.get("label")) for u, _, v, a in dot.edges), sorted((str(t.source(e)), str(t.target(e)), str(t.label(e))) for e in t.edges()),
          "edges exported by to_dot")
    o.nontrivial(len(keep) >= 5)
    o.label(metric)


# ------------------------------------------------------------------------------------------------------------ C22: heap

class Thing:
    """An element that only knows equality (and may be false)."""
    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Thing) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __bool__(self):
        return self.name[-1] not in "036"

    def __repr__(self):
        return self.name


HEAP_OPS = st.one_of(
    st.tuples(st.just("push"), st.integers(0, 8)), st.tuples(st.just("push"), st.integers(-3, 30)), st.tuples(st.just("push"), st.integers(0, 8)),
    st.tuples(st.just("pop"), st.just(0)), st.tuples(st.just("pop"), st.just(0)),
    st.tuples(st.just("dec"), st.tuples(st.integers(0, 20), st.integers(0, 12)).map(list)),
    st.tuples(st.just("dec"), st.tuples(st.integers(0, 20), st.integers(0, 3)).map(list)),
    st.tuples(st.just("again"), st.integers(0, 8)), st.tuples(st.just("twin"), st.integers(0, 8)),
    st.tuples(st.just("iter"), st.just(0)), st.tuples(st.just("absent"), st.just(0)),
).map(list)


@st.composite
def heap_cases(draw, big=False):
    n = draw(st.sampled_from([0, 0, 3, 6, 10]))
    k = draw(st.sampled_from([4, 12, 25, 60 if big else 30]))
    return {
        "init": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n + 6)), "gen": draw(st.booleans()),
        "key": draw(st.sampled_from(["plain", "tuple", "le", "ge", "len"])), "ops": draw(st.lists(HEAP_OPS, min_size=k, max_size=k + 10)),
    }


@target("C22", "histories", heap_cases, quick=450, rule="histories of push (of elements absent from or present in the heap), pop, decrease_key, re-insertion and iteration over elements that "
        "only know equality, whose priorities (plain, tuples, Comparable over <=, >= or a preorder with ties) live in a dictionary; each pop must have minimal "
        "priority; non-trivial: 3 pops of a heap of 3 elements or more, and a decrease_key")
def c22(case, o):
    kind = case["key"]
    prio = {}
    rank = (lambda p: p // 3) if kind == "len" else (lambda p: p)
    if kind == "ge":       # "smaller" means greater
        rank = lambda p: -p     # noqa: E731
    if kind == "plain":
        key = lambda x: prio[x]     # noqa: E731
    elif kind == "tuple":
        key = lambda x: (prio[x], "z")     # noqa: E731
    else:
        key = compare_to_key({
            "le": lambda x, y: prio[x] <= prio[y], "ge": lambda x, y: prio[x] >= prio[y], "len": lambda x, y: prio[x] // 3 <= prio[y] // 3,
        }[kind])
    first = []
    for i, p in enumerate(case["init"]):
        x = Thing("i%d" % i)
        prio[x] = p
        first.append(x)
    h = Heap((x for x in first) if case["gen"] else list(first), to_comparable=key)
    if not first:
        h = Heap(to_comparable=key)
    inside, gone = list(first), []
    pops = decs = 0

    def look(what):
        equal(len(h), len(inside), "len after " + what)
        equal(bool(h), bool(inside), "truth value after " + what)

    def pop():
        x = h.pop()
        expect(x in inside, "pop returned", x, "which is not in the heap")
        low = min(rank(prio[y]) for y in inside)
        equal(rank(prio[x]), low, "priority of the popped element %r" % x)
        inside.remove(x)
        gone.append(x)

    look("the construction")
    for n, (op, arg) in enumerate(case["ops"]):
        if op == "push":
            x = Thing("p%d" % n)
            prio[x] = arg
            h.push(x)
            inside.append(x)
        elif op == "again" and [x for x in gone if x not in inside]:
            gone = [x for x in gone if x not in inside]
            x = gone.pop(arg % len(gone))
            prio[x] = arg
            h.push(x)
            inside.append(x)
        elif op == "twin" and inside:       # an element that is in the heap already
            x = Thing(inside[arg % len(inside)].name)
            h.push(x)
            inside.append(x)
        elif op == "pop" and inside:
            pops += len(inside) >= 3
            pop()
        elif op == "pop":
            try:
                h.pop()
            except IndexError:
                pass
            else:
                expect(False, "pop of an empty heap returned something")
        elif op == "dec" and inside:
            x = inside[arg[0] % len(inside)]
            prio[x] += arg[1] if kind == "ge" else -arg[1]
            decs += len(inside) >= 3 and arg[1] > 0
            h.decrease_key(Thing(x.name))
        elif op == "absent":
            y = Thing("absent")
            prio[y] = 0
            h.decrease_key(y)
        elif op == "iter":
            xs = list(h)
            equal(sorted(x.name for x in xs), sorted(x.name for x in inside), "elements iterated")
            rs = [rank(prio[x]) for x in xs]
            equal(rs, sorted(rs), "priorities of the elements iterated")
        look(op)
    while inside:
        pop()
        look("the final pops")
    o.nontrivial(pops >= 3 and decs)
    o.label(kind)


PREORDERS = {
    "int <=": (st.integers(-4, 4), lambda x, y: x <= y),
    "int >=": (st.integers(-4, 4), lambda x, y: x >= y),
    "mod 3": (st.integers(0, 12), lambda x, y: x % 3 <= y % 3),
    "len": (st.text("ab", max_size=4), lambda x, y: len(x) <= len(y)),
    "reversed": (st.text("ab", max_size=4), lambda x, y: x[::-1] <= y[::-1]),
    "all equal": (st.integers(0, 5), lambda x, y: True),
    "kinds": (st.sampled_from([None, 0, "", 2, [], False]), lambda x, y: type(x).__name__ <= type(y).__name__),
    "first of a list": (st.lists(st.integers(0, 2), min_size=1, max_size=3), lambda x, y: x[0] <= y[0]),
    "first of a tuple": (st.lists(st.integers(0, 2), min_size=1, max_size=3), lambda x, y: x[0] <= y[0]),
}


@st.composite
def preorder_cases(draw, big=False):
    k = draw(st.sampled_from(sorted(PREORDERS)))
    return {"preorder": k, "xs": draw(st.lists(PREORDERS[k][0], min_size=draw(st.sampled_from([1, 3, 5])), max_size=8))}


@target("C22", "comparable", preorder_cases, quick=200, rule="lists of objects under total preorders: the six comparisons of Comparable over every pair, "
        "sorted(), min() and a Heap of them; non-trivial: 3 objects or more, with a tie between different objects or not all equal")
def c22_comparable(case, o):
    le = PREORDERS[case["preorder"]][1]
    xs = [tuple(x) for x in case["xs"]] if case["preorder"].endswith("tuple") else case["xs"]
    key = compare_to_key(le)
    for x in xs:
        for y in xs:
            a, b = (key(x), key(y)) if len(xs) % 2 else (Comparable(x, le), Comparable(y, le))
            got = tuple(bool(v) for v in (a < b, a <= b, a == b, a != b, a > b, a >= b))
            p, q = le(x, y), le(y, x)
            equal(got, (p and not q, p, p and q, not (p and q), q and not p, q), "(<, <=, ==, !=, >, >=) of %r and %r" % (x, y))
    want = sorted(xs, key=key)
    for i in range(len(want) - 1):
        expect(le(want[i], want[i + 1]), "sorted() with compare_to_key:", want)
    h = Heap(xs, to_comparable=key)
    it = list(h)
    out = []
    while h:
        out.append(h.pop())
    equal(len(h), 0, "len of the emptied heap")
    for seq in (it, out):
        equal(sorted(seq, key=repr), sorted(xs, key=repr), "elements")
        for i in range(len(seq) - 1):
            expect(le(seq[i], seq[i + 1]), "order of the elements:", seq)
    if case["preorder"].startswith("int"):
        h = Heap(list(xs))
        for x in xs:
            h.push(x)
        equal([h.pop() for _ in range(2 * len(xs))], sorted(xs + xs), "pops of a heap without key")
    o.nontrivial(len(xs) >= 3 and any(x != xs[0] for x in xs))
    o.label(case["preorder"])


# ---------------------------------------------------------------------------------- C30: tokenize, factors, suffix tries

TOKENS = ["a", "b", "ab", "a*", "b+", "a?", "(a)(b)?", "[ab]", "c", " ", "\\s+", "x*", "(?=b)", "b$", "^a", "", "a{2}", "(?<=a)b", "\\d+", "."]


@st.composite
def token_cases(draw, big=False):
    return {"pattern": "|".join(draw(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=3))),
            "s": draw(st.one_of(st.text("abc 1", max_size=16), st.text("ab", min_size=3, max_size=10)))}


class Pieces(TokenizeVisitor):
    def __init__(self):
        self.pieces = []

    def on_matched(self, matched, start, end, s):
        self.pieces.append((True, matched, start, end, s))

    def on_unmatched(self, unmatched, start, end, s):
        self.pieces.append((False, unmatched, start, end, s))


@target("C30", "tokenize", token_cases, quick=350, rule="random strings split with random regular expressions (which may match the empty word, look "
        "around, ...): pieces, spans and matches; non-trivial: a matched and an unmatched piece")
def c30_tokenize(case, o):
    s = case["s"]
    tokenizer = re.compile(case["pattern"])
    vis = Pieces()
    equal(tokenize(tokenizer, s, vis), None, "tokenize")
    pos = 0
    for i, (matched, text, start, end, given) in enumerate(vis.pieces):
        equal(given, s, "string given to the visitor")
        equal(start, pos, "start of the piece %d" % i)
        expect(text != "", "empty piece at", start)
        pos += len(text)
        expect(end == pos or (end is None and not matched and pos == len(s)), "end of the piece", i, "is", end)
        equal(s[start:pos], text, "text of the piece %d" % i)
    equal("".join(p[1] for p in vis.pieces), s, "concatenation of the pieces")
    want = [(m.group(0), m.start(), m.end()) for m in tokenizer.finditer(s) if m.group(0)]
    equal([p[1:4] for p in vis.pieces if p[0]], want, "matched pieces of %r by %r" % (s, case["pattern"]))
    tokenize(tokenizer, s)
    o.nontrivial(len({p[0] for p in vis.pieces}) == 2)
    o.label("empty matches" if tokenizer.match("") or any(not m.group(0) for m in tokenizer.finditer(s)) else "non-empty matches")


@st.composite
def factor_cases(draw, big=False):
    return {"ws": draw(st.lists(st.one_of(st.text("ab", max_size=9), st.text("abc", max_size=7), st.text("a", max_size=6), st.text(gen.TRICKY, max_size=6)), min_size=1, max_size=4)),
            "m": draw(st.sampled_from([None, None, 0, 1, 2, 3, 4, 9])), "words": draw(st.lists(st.text("ab", max_size=5), max_size=4)),
            "empty": draw(st.booleans()), "num": draw(st.sampled_from([None, None, 1, 2, 3]))}


@target("C30", "factors", factor_cases, quick=300, rule="words and maximal lengths (0 and None included): slices, factors and suffix tries (new, or added "
        "to a given trie, several times) against the sets of factors; non-trivial: a word of 3 letters or more")
def c30_factors(case, o):
    m = case["m"]

    def cut(w):
        n = len(w)
        return [(0, 0)] + [(i, j) for i in range(n) for j in range(i + 1, n + 1) if m is None or j - i <= m]

    total = set()
    for w in case["ws"]:
        want = cut(w)
        equal(sorted(slices(len(w), m)), sorted(want), "slices(%d, %r)" % (len(w), m))
        equal(sorted(factors(w, m)), sorted(w[i:j] for i, j in want), "factors(%r, %r)" % (w, m))
        if m is None:
            equal(sorted(slices(len(w))), sorted(want), "slices(%d)" % len(w))
            equal(sorted(factors(w)), sorted(w[i:j] for i, j in want), "factors(%r)" % w)
        fs = {w[i:j] for i, j in want}
        t = make_suffix_trie(w, m) if m is not None else make_suffix_trie(w)
        equal((t.num_vertices(), t.num_edges()), (len(fs), len(fs) - 1), "size of the suffix trie of %r, %r" % (w, m))
        compare_model(t, trie_model(fs), "suffix trie of %r, %r" % (w, m))
        total |= fs
        o.nontrivial(len(w) >= 3)
    # Added to a trie
    g = Trie(num_vertices=0) if case["empty"] else trie_of(case["words"]) if case["num"] is None else numbered_trie(set(case["words"]), case["num"])
    words = set() if case["empty"] else set(case["words"])
    for w in case["ws"]:
        expect(make_suffix_trie(w, max_len=m, g=g) is g, "make_suffix_trie does not return the trie given")
    states = prefixes(words) | total
    equal((g.num_vertices(), g.num_edges()), (len(states), len(states) - 1), "size of the trie after the factors were added")
    model = trie_model(states)
    model.final = words
    compare_model(g, model, "trie after the factors were added")
    for x in states:
        expect(g.delta_word(g.initial(), x) is not None, "no state for", x)
    o.label("max_len=%r" % m)
