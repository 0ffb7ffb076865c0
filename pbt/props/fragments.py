"""C33: the fragments that combine NFAs (literal, concatenation, alternation, repetitions...)."""
import random
from itertools import product
from hypothesis import strategies as st
from pbt import gen
from pbt.core import target, expect, equal
from pbt.props.automata import EPS, NfaModel, srt
from pybgl.nfa import Nfa
from pybgl.thompson_compile_nfa import (
    alternation, bracket, concatenation, insert_automaton, literal, one_or_more, repetition, repetition_range, zero_or_more, zero_or_one,
)

# Expressions: ["lit", i] ["br", [i..]] ["nfa", {n, t, q0, f, rm}] ["cat", x, y] ["alt", x, y] ["opt", x] ["star", x] ["plus", x]
# ["rep", x, m] ["range", x, m, n or None]; i is the index of a symbol

SIZE = 4
LEAVES = {"lit", "br", "nfa"}
OPS = LEAVES | {"cat", "alt", "opt", "star", "plus", "rep", "range"}
ALPHABETS = [["a", "b", "c"], ["ab", "a", "b"], [0, 1, 2], ["a", 0, "x y"], ["\n", "|", "*"], [7, "7", "é"]]


def shown(g):
    return (srt((g.source(e), g.label(e), g.target(e)) for e in g.edges()), sorted(g.vertices()), sorted(g.initials), sorted(g.finals()))


def leaf_nfa(draw):
    n = draw(st.integers(1, 5))
    q = st.integers(0, n - 1)
    m = draw(st.sampled_from([n, n // 2, 0]))
    return {"n": n, "t": draw(st.lists(st.tuples(q, st.integers(-1, 2), q).map(list), min_size=m, max_size=2 * n + 2)), "q0": draw(q), "f": draw(q),
            "gap": draw(st.sampled_from([0, 0, 1]))}


@st.composite
def trees(draw, big=False):
    def tree(depth):
        k = draw(st.sampled_from(["cat", "alt", "opt", "star", "plus", "rep", "range", "cat", "alt"])) if depth else \
            draw(st.sampled_from(["lit", "nfa", "nfa", "br"]))
        if k == "lit":
            return [k, draw(st.integers(0, 2))]
        if k == "br":
            return [k, draw(st.lists(st.integers(0, 2), max_size=3, unique=True))]
        if k == "nfa":
            return [k, leaf_nfa(draw)]
        d = draw(st.integers(0, depth - 1))
        if k in ("cat", "alt"):
            x, y = tree(depth - 1), tree(d)
            return [k, x, y] if draw(st.booleans()) else [k, y, x]
        x = tree(depth - 1 if k not in ("rep", "range") else d)
        if k == "rep":
            return [k, x, draw(st.integers(0, 4))]
        if k == "range":
            m = draw(st.integers(0, 3))
            return [k, x, m, draw(st.one_of(st.none(), st.integers(m, m + 3)))]
        return [k, x]
    return {"tree": tree(draw(st.sampled_from([1, 1, 2, 2, 3]))), "syms": draw(st.integers(0, len(ALPHABETS) - 1)),
            "eps": draw(st.sampled_from(sorted(EPS)))}


class Builder:
    def __init__(self, case, o):
        self.o = o
        self.default, self.eps = case["eps"] == "default", EPS[case["eps"]]
        self.syms = [a if a != self.eps else "z" for a in ALPHABETS[case["syms"]]]
        self.words = [w for n in range(SIZE + 1) for w in product(range(3), repeat=n)]

    def leaf(self, x):
        """A fragment and its language."""
        m = NfaModel(-1)
        if x[0] == "nfa":
            n, q0, f, gap, trans = x[1]["n"], x[1]["q0"], x[1]["f"], x[1]["gap"], x[1]["t"]
        else:
            n, q0, f, gap, trans = 2, 0, 1, 0, [[0, i, 1] for i in x[1:]] if x[0] == "lit" else [[0, i, 1] for i in x[1]]
        m.trans, m.initials, m.final = set(map(tuple, trans)), {q0}, {f}
        lang = {w for w in self.words if f in m.delta_word(w)}
        if self.default and x[0] == "lit":
            return literal(self.syms[x[1]]), lang
        if self.default and x[0] == "br":
            return bracket(self.syms[i] for i in x[1]), lang
        g = Nfa(n + gap) if self.default else Nfa(n + gap, epsilon=self.eps)
        if gap:       # the numbers of the states do not start from 0
            g.remove_vertex(0)
        for q, i, r in trans:
            g.add_edge(q + gap, r + gap, self.eps if i < 0 else gen.again(self.syms[i]))
        g.set_initials({q0 + gap})
        g.set_final(f + gap)
        return (g, q0 + gap, f + gap), lang

    def build(self, x):
        """A fragment and its language; each step is checked."""
        k = x[0]
        self.o.label(k)
        if k in ("lit", "br", "nfa"):
            ret, lang = self.leaf(x)
        else:
            t1, l1 = self.build(x[1])
            if k in ("cat", "alt"):
                t2, l2 = self.build(x[2])
                before = shown(t2[0])
                ret = (concatenation if k == "cat" else alternation)(*t1, *t2)
                equal(shown(t2[0]), before, "second operand of %s" % k)
                lang = cat(l1, l2) if k == "cat" else l1 | l2
            elif k in ("opt", "star", "plus"):
                ret = {"opt": zero_or_one, "star": zero_or_more, "plus": one_or_more}[k](*t1)
                lang = l1 | {()} if k == "opt" else star(l1) if k == "star" else cat(l1, star(l1))
            elif k == "rep":
                ret = repetition(*t1, x[2])
                lang = power(l1, x[2])
            else:
                ret = repetition_range(*t1, x[2], x[3])
                lang = cat(power(l1, x[2]), star(l1) if x[3] is None else power(l1 | {()}, x[3] - x[2]))
        what = "%s%s" % (k, x[2:] if k in ("rep", "range") else "")
        g, q0, f = ret
        expect(isinstance(g, Nfa), what, "returns", type(g).__name__)
        equal((set(g.initials), set(g.finals())), ({q0}, {f}), "initial and final states of %s" % what)
        for w in self.words:
            word = [gen.again(self.syms[i]) for i in w]
            if bool(g.accepts(word)) != (w in lang):
                expect(False, what, "refuses" if w in lang else "accepts", word)
        return ret, lang


def cat(x, y):
    return {u + v for u in x for v in y if len(u) + len(v) <= SIZE}


def power(x, n):
    ret = {()}
    for _ in range(n):
        ret = cat(ret, x)
    return ret


def star(x):
    ret = {()}
    while True:
        new = ret | cat(ret, x)
        if new == ret:
            return ret
        ret = new


@target("C33", "fragments", trees, quick=250, rule="combinations of fragments (concatenation, alternation, repetitions) over symbols of several kinds, made of literals, brackets "
        "and arbitrary epsilon-NFAs with one initial and one final state; the languages, truncated to words of 4 symbols, against the operations on sets of words, after "
        "each step; non-trivial: two operations, and a language neither empty nor full")
def c33(case, o):
    b = Builder(case, o)
    _, lang = b.build(case["tree"])
    depth = lambda x: 1 + max(depth(y) for y in x[1:3] if isinstance(y, list) and y[0] in OPS) if x[0] in OPS and x[0] not in LEAVES else 0     # noqa: E731
    o.nontrivial(depth(case["tree"]) >= 2 and 0 < len(lang) < len(b.words))


# Languages over a single symbol are sets of lengths: integers whose bit n tells whether the length n is accepted

TOP = 360
FULL = (1 << TOP + 1) - 1


def lcat(x, y):
    ret = 0
    while y:
        low = y & -y
        ret |= x * low
        y ^= low
    return ret & FULL


def lpower(x, n):
    ret = 1
    for bit in bin(n)[2:]:
        ret = lcat(ret, ret)
        if bit == "1":
            ret = lcat(ret, x)
    return ret


def lstar(x):
    ret = x | 1
    while True:
        new = lcat(ret, ret)
        if new == ret:
            return ret
        ret = new


def lengths(n, trans, q0, f):
    m = NfaModel(-1)
    m.trans = {tuple(t) for t in trans}
    qs, ret, seen = frozenset(m.closure({q0})), 0, {}
    for k in range(TOP + 1):
        if f in qs:
            ret |= 1 << k
        if qs not in seen:
            seen[qs] = frozenset(m.closure(m.step(qs, 0)))
        qs = seen[qs]
    return ret


def unary(g):
    """The lengths accepted by the automaton g, according to its transitions."""
    eps, step = {}, {}
    for e in g.edges():
        (eps if g.label(e) == g.epsilon else step).setdefault(g.source(e), []).append(g.target(e))

    def closure(qs):
        ret = set(qs)
        todo = list(ret)
        while todo:
            for r in eps.get(todo.pop(), ()):
                if r not in ret:
                    ret.add(r)
                    todo.append(r)
        return ret
    qs, ret, finals = closure(g.initials), 0, set(g.finals())
    for k in range(TOP + 1):
        if not qs:
            break
        if qs & finals:
            ret |= 1 << k
        qs = closure(r for q in qs for r in step.get(q, ()))
    return ret


@st.composite
def long_trees(draw, big=False):
    def leaf():
        k = draw(st.sampled_from(["lit", "chain", "chain", "nfa"]))
        if k == "lit":
            return {"n": 2, "t": [[0, 0, 1]], "q0": 0, "f": 1}
        if k == "chain":     # a path, with a few more transitions
            n = draw(st.sampled_from([1, 2, 3, 4, 9, 30, 50, 110]))
            q = st.integers(0, n)
            t = [[i, draw(st.sampled_from([0, 0, 0, -1])) if i < 4 else 0, i + 1] for i in range(n)]
            return {"n": n + 1, "t": t + draw(st.lists(st.tuples(q, st.integers(-1, 0), q).map(list), max_size=2)), "q0": 0, "f": n}
        n = draw(st.integers(1, 4))
        q = st.integers(0, n - 1)
        return {"n": n, "t": draw(st.lists(st.tuples(q, st.integers(-1, 0), q).map(list), max_size=n + 2)), "q0": draw(q), "f": draw(q)}

    many = st.one_of(st.integers(4, 40), st.sampled_from([63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300]))

    def tree(depth):
        if not depth:
            return leaf()
        k = draw(st.sampled_from(["cat", "alt", "opt", "star", "plus", "rep", "range", "rep", "range"]))
        if k in ("cat", "alt"):
            return [k, tree(depth - 1), tree(draw(st.integers(0, depth - 1)))]
        x = tree(depth - 1)
        if k == "rep":
            return [k, x, draw(many)]
        if k == "range":
            m = draw(st.one_of(st.integers(0, 3), many))
            n = draw(st.sampled_from([None, m, m + draw(st.integers(1, 20)), m + draw(many), 300]))
            return [k, x, m, n if n is None else max(m, n)]
        return [k, x]
    return {"tree": tree(draw(st.sampled_from([1, 1, 2, 2, 3]))), "at": draw(st.lists(st.integers(0, TOP), min_size=2, max_size=2))}


def predicted(x):
    """Number of states of the fragment built, more or less."""
    if isinstance(x, dict):
        return x["n"]
    k = x[0]
    n = predicted(x[1])
    if k in ("cat", "alt"):
        return n + predicted(x[2]) + 2
    if k == "rep":
        return n * x[2] + 1
    if k == "range":
        return n * (x[2] + 1 if x[3] is None else x[3]) + 3
    return n + 2


def build_long(x):
    if isinstance(x, dict):
        g = Nfa(x["n"])
        for q, a, r in x["t"]:
            g.add_edge(q, r, "a" if a == 0 else g.epsilon)
        g.set_initials({x["q0"]})
        g.set_final(x["f"])
        return (g, x["q0"], x["f"]), lengths(x["n"], x["t"], x["q0"], x["f"])
    k = x[0]
    t1, l1 = build_long(x[1])
    if k in ("cat", "alt"):
        t2, l2 = build_long(x[2])
        return (concatenation if k == "cat" else alternation)(*t1, *t2), lcat(l1, l2) if k == "cat" else l1 | l2
    if k in ("opt", "star", "plus"):
        return {"opt": zero_or_one, "star": zero_or_more, "plus": one_or_more}[k](*t1), l1 | 1 if k == "opt" else lstar(l1) if k == "star" else lcat(l1, lstar(l1))
    if k == "rep":
        return repetition(*t1, x[2]), lpower(l1, x[2])
    return repetition_range(*t1, x[2], x[3]), lcat(lpower(l1, x[2]), lstar(l1) if x[3] is None else lpower(l1 | 1, x[3] - x[2]))


LITERAL = {"n": 2, "t": [[0, 0, 1]], "q0": 0, "f": 1}
TWO = {"n": 3, "t": [[0, 0, 1], [1, 0, 2]], "q0": 0, "f": 2}
LOOPS = {"n": 3, "t": [[0, 0, 1], [1, 0, 2], [2, 0, 1], [0, -1, 1]], "q0": 0, "f": 2}


def bounds(big):
    for x in (LITERAL, TWO, LOOPS):
        for m in (*range(9), 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, *((300, 350) if big else ())):
            if x is LITERAL or m < 140:
                yield ["rep", x, m]
                yield ["range", x, m, None]
                yield ["range", x, 0, m]
                yield ["range", x, m // 2, m]
                yield ["range", x, m, m + 3]


@target("C33", "bounds", enum=lambda big: ({"tree": t, "at": []} for t in bounds(big)), rule="repetitions of three small fragments with every bound up to 8, and bounds around the powers of 2, "
        "up to 257: the lengths accepted; non-trivial: at least 60 states", pairs=0)
def c33_bounds(case, o):
    c33_long(case, o)


@target("C33", "long", lambda big: long_trees(big).filter(lambda c: predicted(c["tree"]) <= 900), quick=60, rule="combinations of fragments over a single symbol, with paths of up to 110 transitions and "
        "repetitions whose bounds go up to 300 (at most 900 states); the lengths accepted, up to 360 (read on the transitions; with accepts() for the short ones), against the operations on sets of lengths; non-trivial: at least 60 states")
def c33_long(case, o):
    (g, q0, f), want = build_long(case["tree"])
    equal((set(g.initials), set(g.finals())), ({q0}, {f}), "initial and final states")
    # The lengths where acceptance changes, and a few others
    edges = [k for k in range(1, TOP) if (want >> k ^ want >> k - 1) & 1]
    near = sorted({0, 1, *edges[:3], *edges[-3:], *(k - 1 for k in edges[:3] + edges[-3:]), *case["at"]})
    got = unary(g)
    equal(got ^ want, 0, "lengths for which the automaton is wrong, as a set of bits;")
    for n in near:
        if n <= 12 or n * g.num_vertices() <= 3000:
            equal(bool(g.accepts("a" * n)), bool(want >> n & 1), "accepts() of a word of %d symbols" % n)
    o.nontrivial(g.num_vertices() >= 60)
    o.label("%d+ states" % (g.num_vertices() // 100 * 100))


@target("C33", "insert", lambda big: st.tuples(trees(), trees()).map(list), quick=120, rule="two fragments; insert_automaton makes the first one the disjoint union of both and leaves the "
        "second unchanged; non-trivial: two transitions each")
def c33_insert(case, o):
    case[1]["eps"] = case[0]["eps"]
    g1, g2 = (Builder(c, o).build(c["tree"])[0][0] for c in case)
    s1, s2 = shown(g1), shown(g2)
    m = insert_automaton(g1, g2)
    equal(shown(g2), s2, "the automaton inserted")
    equal((set(m), len(set(m.values()))), (set(s2[1]), len(s2[1])), "states mapped by insert_automaton")
    expect(not set(m.values()) & set(s1[1]), "states of the first automaton are used again")
    equal(shown(g1), (srt(s1[0] + [(m[q], a, m[r]) for q, a, r in s2[0]]), sorted(s1[1] + list(m.values())), s1[2], sorted(s1[3] + [m[q] for q in s2[3]])),
          "the union (transitions, states, initial states, final states)")
    o.nontrivial(len(s1[0]) >= 2 and len(s2[0]) >= 2)


@target("C33", "insert large", enum=lambda big: ([n, seed] for n in (70, 300, 1100, 2200) for seed in range(4)), rule="insert_automaton of an NFA of up to 2,200 states, with transitions between "
        "states far apart, into another one; non-trivial: every case", pairs=0)
def c33_insert_large(case, o):
    n, seed = case
    rnd = random.Random(repr(case))
    g1, g2 = Nfa(rnd.randrange(1, 400)), Nfa(n)
    for g, k in ((g1, 30), (g2, 2 * n)):
        m = g.num_vertices()
        for _ in range(k):
            g.add_edge(rnd.randrange(m), rnd.randrange(m), rnd.choice([g.epsilon, "a", "b"]))
        for _ in range(4):
            g.set_final(rnd.randrange(m))
    s1, s2 = shown(g1), shown(g2)
    m = insert_automaton(g1, g2)
    equal((set(m), len(set(m.values()))), (set(s2[1]), n), "states mapped by insert_automaton")
    expect(not set(m.values()) & set(s1[1]), "states of the first automaton are used again")
    got, want = shown(g1), (srt(s1[0] + [(m[q], a, m[r]) for q, a, r in s2[0]]), sorted(s1[1] + list(m.values())), s1[2], sorted(s1[3] + [m[q] for q in s2[3]]))
    for x, y, what in zip(got, want, ("transitions", "states", "initial states", "final states")):
        equal((srt(set(x) - set(y))[:5], srt(set(y) - set(x))[:5], len(x)), ([], [], len(y)), what + " of the union: in excess, missing, number")
    o.nontrivial(True)
    o.label(n)
