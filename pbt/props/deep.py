"""
Large and deep inputs of every part of the library, with results known in closed form or from a few lines of model: chains
longer than the recursion limit, many states, long words, many elements. Sizes that the other targets, which favour variety,
do not reach. The imports are inside the checks so that a module that cannot be imported breaks its own checks only.
"""
from collections import defaultdict

from hypothesis import strategies as st

from ..core import equal, expect, target
from .. import gen


def params(low, high, **more):
    """n and a few integers."""
    def strategy(big):
        return st.fixed_dictionaries({"n": st.integers(low, high * (2 if big else 1)), "a": st.integers(0, 9), "b": st.integers(2, 7),
                                      "c": st.integers(0, 10 ** 6), **more})
    return strategy


def deep(prop, low=1100, high=2200, quick=4, rule="", **more):
    return target(prop, "scale", params(low, high, **more), quick=quick, thorough=quick * 12, pairs=0, large=0,
                  rule=rule + " (%d to %d elements); all count" % (low, high))


def bits(c, n):
    """n pseudo-random integers, determined by c."""
    x = c * 2654435761 + 12345
    for _ in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        yield x >> 33


def word(c, n, alphabet):
    return "".join(alphabet[x % len(alphabet)] for x in bits(c, n))


@deep("C03", rule="chain automata read with long words")
def c03(case, o):
    from pybgl.automaton import Automaton
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.node_automaton import NodeAutomaton
    n, w = case["n"], word(case["c"], case["n"], "abc")
    for cls in (Automaton, IncidenceAutomaton, NodeAutomaton):
        if cls is NodeAutomaton:
            g = cls()
            g.add_vertex()
            for a in w:
                g.add_vertex(a)
        else:
            g = cls(n + 1)
        for i, a in enumerate(w):
            e, added = g.add_edge(i, i + 1) if cls is NodeAutomaton else g.add_edge(i, i + 1, a)
            expect(added, "edge", i)
        g.set_final(n)
        expect(g.accepts(w), cls.__name__, "refuses a word of", n, "symbols")
        expect(not g.accepts(w[:-1]) and not g.accepts(w + "a"), cls.__name__, "accepts a wrong long word")
        equal(g.delta_word(0, w), n, "delta_word")
        equal(g.delta_best_effort(w + "zz"), (n, n), "delta_best_effort")
        equal(g.delta_best_effort(w[: n // 2] + "z"), (n // 2, n // 2), "delta_best_effort")
        equal((g.num_vertices(), g.num_edges(), g.alphabet() - {None}, g.finals()), (n + 1, n, set(w), {n}), "counts")
        for q in list(range(255, 260)) + [n // 2, n - 1]:
            args = (q, q + 1) if cls is NodeAutomaton else (q, q + 1, "".join(w[q]))
            e, found = g.edge(*args)
            expect(found and (g.source(e), g.target(e), g.label(e)) == (q, q + 1, w[q]), "edge", args)
            equal((g.is_initial(q), g.is_final(q), g.sigma(q), g.out_degree(q)), (False, False, {w[q]}, 1), "state %d" % q)
        g.set_initial(300)
        equal([q for q in g.vertices() if g.is_initial(q)], [300], "initial state")
        expect(g.accepts(w[300:]) and not g.accepts(w), "words read from state 300")
        g.set_initial(int("300"), False)
        equal(g.initial(), None, "initial state")
        g.remove_vertex(n // 2)
        equal((g.num_vertices(), g.num_edges()), (n, n - 2), "counts after a removal")
        if cls is IncidenceAutomaton:
            equal([len(list(g.in_edges(q))) for q in (n // 2 - 1, n // 2 + 1, n // 2 + 2)], [1, 0, 1], "in-edges after a removal")
    o.nontrivial()


@deep("C04", rule="long epsilon chains and cycles, long words")
def c04(case, o):
    from pybgl.nfa import Nfa
    n, k = case["n"], case["b"]
    g = Nfa(n)
    for i in range(n - 1):
        g.add_edge(i, i + 1, g.epsilon if i % k else "a")
    g.add_edge(n - 1, 0, g.epsilon)
    g.set_final(n - 1)
    # Letters leave 0, k, 2k...
    letters = len(range(0, n - 1, k))
    equal(g.delta_epsilon({n - 1}), {n - 1, 0}, "delta_epsilon of the last state")
    expect(g.accepts("a" * letters), "long word refused")
    expect(g.accepts("a" * (2 * letters)), "word of two turns refused")
    expect(not g.accepts("a" * (letters - 1)), "short word accepted")
    h = Nfa(n)
    for i in range(n - 1):
        h.add_edge(i, i + 1, h.epsilon)
    equal(h.delta_epsilon({0}), set(range(n)), "closure of a chain")
    h.add_edge(n - 1, 0, "b")
    equal(h.delta(0, "b"), set(range(n)), "delta along a chain")
    equal(h.sigma(0), {"b"}, "sigma along a chain")
    h = Nfa(n)
    h.add_edge(n - 1, 500, "b")
    h.add_edge(500, n - 1, h.epsilon)
    h.set_initials([int("400"), n - 1])
    h.set_final(int("500"))
    equal([q for q in range(n) if h.is_initial(q)], [400, n - 1], "initial states")
    equal(list(h.finals()), [500], "final states")
    h.set_initial(int("400"), False)
    equal([q for q in range(n) if h.is_initial(q)], [n - 1], "initial states")
    equal([h.accepts(x) for x in ("", "b", "bb", "a")], [False, True, True, False], "words from the last state")
    o.nontrivial()


@deep("C05", low=60, high=120, quick=4, rule="unions, intersections and differences of many views")
def c05(case, o):
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.graph_view import GraphView
    from pybgl.property_map import make_func_property_map
    n = case["n"]
    g = (DirectedGraph if case["a"] % 2 else UndirectedGraph)(n)
    for i in range(n):
        g.add_edge(i, (i + 1) % n)
        g.add_edge(i, (i * 7 + 3) % n)

    def view(f):
        return GraphView(g, pmap_vrelevant=make_func_property_map(f))

    def check(v, keep, what):
        equal(set(v.vertices()), keep, "vertices of " + what)
        es = {gen.ekey(g, e) for e in g.edges() if g.source(e) in keep and g.target(e) in keep}
        equal({gen.ekey(g, e) for e in v.edges()}, es, "edges of " + what)
        equal((v.num_vertices(), v.num_edges()), (len(keep), len(es)), "counts of " + what)

    u = view(lambda q: q == 0)
    for i in range(1, n // 2):
        u = u | view(lambda q, i=i: q == i)
    check(u, set(range(n // 2)), "a union of %d views" % (n // 2))
    w = view(lambda q: True)
    for i in range(1, n // 2):
        w = w & view(lambda q, i=i: q != i)
    check(w, {0} | set(range(n // 2, n)), "an intersection of %d views" % (n // 2))
    # Edges filtered on both sides
    k, b = case["c"] % 5 + 2, case["b"]

    def view2(f, h):
        return GraphView(g, make_func_property_map(f), make_func_property_map(lambda e: h(g.source(e) + g.target(e))))

    def check2(v, keep, h, what):
        equal(set(v.vertices()), keep, "vertices of " + what)
        es = {gen.ekey(g, e) for e in g.edges() if g.source(e) in keep and g.target(e) in keep and h(g.source(e) + g.target(e))}
        equal({gen.ekey(g, e) for e in v.edges()}, es, "edges of " + what)
        for q in range(0, n, 5):
            if q in keep:
                equal({gen.ekey(g, e) for e in v.out_edges(q)}, {x for x in es if q in ends[x][: 1 if g.directed else 2]}, "out-edges of %d in " % q + what)
    ends = {gen.ekey(g, e): (g.source(e), g.target(e)) for e in g.edges()}
    v1, v2 = view2(lambda q: q % 7, lambda x: x % k), view2(lambda q: q % b == 0, lambda x: x % 3)
    check2(v1 | v2, {q for q in range(n) if q % 7 or q % b == 0}, lambda x: x % k or x % 3, "a union")
    check2(v1 & v2, {q for q in range(n) if q % 7 and q % b == 0}, lambda x: x % k and x % 3, "an intersection")
    check2(v1 - v2, {q for q in range(n) if q % 7 and q % b}, lambda x: x % k, "a difference")
    o.nontrivial()


@deep("C08", rule="chains with shortcuts against the recurrence on a DAG")
def c08(case, o):
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_path, dijkstra_shortest_paths, make_shortest_path, make_shortest_paths_dag
    from pybgl.property_map import make_assoc_property_map
    n = case["n"]
    g = DirectedGraph(n) if case["a"] < 7 else UndirectedGraph(n)
    weight = {}
    r = bits(case["c"], 4 * n)
    for i in range(n - 1):
        e, _ = g.add_edge(i, i + 1)
        weight[e] = next(r) % 10
        if g.directed and i + case["b"] < n and next(r) % 3 == 0:
            e, _ = g.add_edge(i, i + case["b"])
            weight[e] = next(r) % (8 * case["b"])
    best = {0: 0}
    ins = defaultdict(list)
    for e, x in weight.items():
        ins[g.target(e)].append((e, x))
    for v in range(1, n):
        best[v] = min(best[g.source(e)] + x for e, x in ins[v])
    pw = make_assoc_property_map(defaultdict(int, {
        **weight, **({} if g.directed else {type(e)(g.target(e), g.source(e), e.distinguisher): x for e, x in weight.items()})}))
    preds, dist = defaultdict(set), defaultdict(int)
    dijkstra_shortest_paths(g, 0, pw, make_assoc_property_map(preds), make_assoc_property_map(dist))
    equal({v: dist[v] for v in range(n)}, best, "distances")
    path = make_shortest_path(g, 0, n - 1, make_assoc_property_map(preds))
    equal([g.source(path[0]), g.target(path[-1])], [0, n - 1], "ends of the path")
    equal(sum(pw[e] for e in path), best[n - 1], "weight of the path")
    dag = make_shortest_paths_dag(g, 0, n - 1, make_assoc_property_map(preds))
    tight, todo = set(), {n - 1}
    for v in range(n - 1, 0, -1):
        if v in todo:
            for e, x in ins[v]:
                if best[g.source(e)] + x == best[v]:
                    tight.add((g.source(e), v, e.distinguisher))
                    todo.add(g.source(e))
    if g.directed:
        equal({(e.source, e.target, e.distinguisher) for e in dag}, tight, "make_shortest_paths_dag")
    s = 300 + case["a"]
    if g.directed:
        preds, dist = defaultdict(set), defaultdict(int)
        path = dijkstra_shortest_path(g, int(str(s)), n - 1, pw, make_assoc_property_map(preds), make_assoc_property_map(dist))
        far = {s: 0}
        for v in range(s + 1, n):
            far[v] = min([far[g.source(e)] + x for e, x in ins[v] if g.source(e) in far])
        equal((g.source(path[0]), g.target(path[-1]), sum(pw[e] for e in path)), (s, n - 1, far[n - 1]), "path from %d" % s)
        equal(make_shortest_paths_dag(g, s, s, make_assoc_property_map(preds)), set(), "make_shortest_paths_dag to the source")
        equal(len(make_shortest_paths_dag(g, s, n - 1, make_assoc_property_map(preds), single_path=True)), len(path), "single path from %d" % s)
    preds, dist = defaultdict(set), defaultdict(int)
    path = dijkstra_shortest_path(g, 0, n - 1, pw, make_assoc_property_map(preds), make_assoc_property_map(dist))
    equal(sum(pw[e] for e in path), best[n - 1], "weight of the path of dijkstra_shortest_path")
    o.nontrivial()
    o.label("directed" if g.directed else "undirected")


@deep("C10", rule="extraction and copies of chains, cycles and stars")
def c10(case, o):
    from pybgl.automaton import Automaton
    from pybgl.automaton_copy import automaton_copy
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.graph_copy import graph_copy
    from pybgl.graph_extract import graph_extract
    from pybgl.property_map import make_assoc_property_map
    n, shape = case["n"], case["a"] % 3
    if shape == 2:      # The search lists the out-edges of the centre at each leaf
        n //= 8
    edges = {0: [(i, i + 1) for i in range(n - 1)], 1: [(i, (i + 1) % n) for i in range(n)], 2: [(0, i) for i in range(n)]}[shape]
    for cls, copy in ((DirectedGraph, graph_copy), (UndirectedGraph, graph_copy), (Automaton, automaton_copy)):
        g = cls(n)
        for i, (u, v) in enumerate(edges):
            if cls is Automaton:
                g.add_edge(u, v, str(i))
            else:
                g.add_edge(u, v)
        vs, es = [], []
        graph_extract(0, g, callback_vertex_extract=lambda u, g: vs.append(u), callback_edge_extract=lambda e, g: es.append(e))
        equal(sorted(vs), list(range(n)), "vertices extracted from a large " + cls.__name__)
        equal({gen.ekey(g, e) for e in es}, {gen.ekey(g, e) for e in g.edges()}, "edges extracted")
        h = cls(0)
        mv = defaultdict(lambda: None)
        copy(0, g, h, pmap_vertices=make_assoc_property_map(mv))
        equal((h.num_vertices(), h.num_edges()), (n, len(edges)), "size of the copy")
        equal(sorted(mv.values()), list(range(n)), "vertices of the copy")
        norm = (lambda u, v: (u, v)) if g.directed else (lambda u, v: (min(u, v), max(u, v)))
        equal(sorted(norm(h.source(e), h.target(e)) + ((h.label(e),) if cls is Automaton else ()) for e in h.edges()),
              sorted(norm(mv[g.source(e)], mv[g.target(e)]) + ((g.label(e),) if cls is Automaton else ()) for e in g.edges()),
              "edges of the copy")
    o.nontrivial()
    o.label("shape %d" % shape)


@deep("C11", rule="reversal and pruning of a chain with side branches")
def c11(case, o):
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.incidence_graph import IncidenceGraph
    from pybgl.prune_incidence_automaton import prune_incidence_automaton, find_reachable_vertices
    from pybgl.reverse import reverse_graph
    n, k = case["n"], case["b"] + 1
    g = IncidenceGraph(n)
    for i in range(n - 1):
        g.add_edge(i, i + 1)
    equal(find_reachable_vertices(g, {n // 2}), set(range(n // 2, n)), "reachable vertices of a chain")
    reverse_graph(g)
    equal(find_reachable_vertices(g, {n // 2}), set(range(n // 2 + 1)), "reachable vertices of the reversed chain")
    reverse_graph(g)
    # A chain, whose every k-th state has a dead-end and a source that is not reachable
    a = IncidenceAutomaton(n)
    for i in range(n - 1):
        a.add_edge(i, i + 1, "a")
    a.set_final(n - 1)
    for i in range(0, n, k):
        a.add_edge(i, a.add_vertex(), "b")
        a.add_edge(a.add_vertex(), i, "c")
    prune_incidence_automaton(a)
    equal(set(a.vertices()), set(range(n)), "states left")
    equal(sorted((a.source(e), a.target(e), a.label(e)) for e in a.edges()), [(i, i + 1, "a") for i in range(n - 1)], "transitions left")
    expect(a.accepts("a" * (n - 1)), "language lost")
    o.nontrivial()


@deep("C12", rule="cuts of long chains and combs")
def c12(case, o):
    from pybgl.cut import cut
    from pybgl.graph import DirectedGraph
    n, k = case["n"], case["b"] + 3
    g = DirectedGraph(2 * n)
    cuts = set()
    for i in range(n):
        if i + 1 < n:
            g.add_edge(i, i + 1)
        e, _ = g.add_edge(i, n + i)
        if i % k == 0:
            cuts.add(e)
    got = cut(0, g, lambda e, g: e in cuts)
    equal(got, set(range(n, 2 * n)), "cut of a comb")
    m = n - 1 - case["a"]
    got = cut(int("400"), g, lambda e, g: e in cuts)
    equal(got, set(range(n + 400, 2 * n)), "cut of a comb from vertex 400")
    got = cut(0, g, lambda e, g: g.source(e) == m and g.target(e) == m + 1)
    equal(got, {n + i for i in range(m + 1)} | {m + 1}, "cut of the spine of a comb")
    o.nontrivial()


@deep("C13", rule="operations on long chain automata")
def c13(case, o):
    from pybgl.automaton import Automaton
    from pybgl.deterministic_inclusion import deterministic_inclusion
    from pybgl.deterministic_intersection import deterministic_intersection
    from pybgl.deterministic_union import deterministic_union
    n = case["n"]
    w = word(case["c"], n, "ab")
    k = n - 1 - case["a"] * 50
    w2 = w[:k] + ("b" if w[k] == "a" else "a") + w[k + 1:]

    def chain(x, finals):
        g = Automaton(len(x) + 1)
        for i, a in enumerate(x):
            g.add_edge(i, i + 1, a)
        for q in finals:
            g.set_final(q)
        return g
    g1, g2 = chain(w, {n, k}), chain(w2, {n, k})
    u, i = deterministic_union(g1, g2), deterministic_intersection(g1, g2)
    for x in (w, w2, w[:k], w[:k + 1], w[:-1], w2[:-1], w + "a", ""):
        equal(u.accepts(x), x in (w, w2, w[:k]), "union on a word of %d symbols" % len(x))
        equal(i.accepts(x), x == w[:k], "intersection on a word of %d symbols" % len(x))
    equal(deterministic_inclusion(g1, g2), None, "inclusion")
    equal(deterministic_inclusion(g1, chain(w, {n, k})), 0, "inclusion in an equal one")
    both = {deterministic_inclusion(g1, u), -deterministic_inclusion(u, g1)}
    equal(both, {1}, "inclusion in the union")
    o.nontrivial()


@deep("C14", low=300, high=700, rule="determination of long chains, and of (a|b)*a(a|b)^k")
def c14(case, o):
    from pybgl.moore_determination import moore_determination
    from pybgl.nfa import Nfa
    n = case["n"]
    w = word(case["c"], n, "ab")
    g = Nfa(n + 1)
    for i, a in enumerate(w):
        g.add_edge(i, i + 1, a)
    g.set_final(n)
    for complete in (False, True):
        d = moore_determination(g, complete=complete)
        expect(d.accepts(w) and not d.accepts(w[:-1]) and not d.accepts(w + "a"), "language of a chain")
        equal(d.num_vertices(), n + 1 + complete, "states of the automaton of one word")
    k = case["b"]
    g = Nfa(k + 2)
    g.add_edge(0, 0, "a"), g.add_edge(0, 0, "b"), g.add_edge(0, 1, "a")
    for i in range(1, k + 1):
        g.add_edge(i, i + 1, "a"), g.add_edge(i, i + 1, "b")
    g.set_final(k + 1)
    d = moore_determination(g)
    equal(d.num_vertices(), 2 ** (k + 1), "states of (a|b)*a(a|b)^%d" % k)
    for x in (w, w[:k], w[:k + 1], w[5:]):
        equal(d.accepts(x), len(x) > k and x[-k - 1] == "a", "language of (a|b)*a(a|b)^%d" % k)
    # A fan: "c" leads from the initial states to all the others, and only one of them is final
    n //= 4
    last = 1 + case["c"] % n
    g = Nfa(n + 1)
    for q in range(1, n + 1):
        g.add_edge(0, q, "c")
        g.add_edge(q, 1 + q % n, chr(0x100 + q))
    g.set_final(last)
    g.set_initials(set(range(case["a"])) | {0})
    for complete in (False, True):
        d = moore_determination(g, complete=complete)
        equal([d.accepts(x) for x in ("", "c", "cc")], [0 < last < case["a"], True, False], "language of a fan")
        for q in (1, 1 + n // 2, n, 1 + (last - 2) % n):
            equal(d.accepts("c" + chr(0x100 + q)), 1 + q % n == last, "symbol %d of a fan" % q)
        equal(d.num_vertices(), n + 2 + complete, "states of the automaton of a fan")
    o.nontrivial()


@deep("C15", low=12, high=40, rule="chains of equivalent states, and counters modulo p*q that reduce to p")
def c15(case, o):
    from pybgl.hopcroft_minimize import hopcroft_minimize
    from pybgl.incidence_automaton import IncidenceAutomaton
    n, p = case["n"], case["b"]
    g = IncidenceAutomaton(n * p)
    for q in range(n * p):
        g.add_edge(q, (q + 1) % (n * p), "a")
        g.add_edge(q, q - q % p, "b")
        if q % p == p - 1:
            g.set_final(q)
    m = hopcroft_minimize(g)
    equal(m.num_vertices(), p, "states of a counter modulo %d" % p)
    for x in (word(case["c"], n, "aab"), word(case["c"] + 1, 3 * n, "ab"), "a" * (p - 1), "a" * (n * p - 1), ""):
        equal(m.accepts(x), (len(x) - 1 - x.rfind("b")) % p == p - 1, "language")
    # A chain that counts to n: no two states are equivalent
    g = IncidenceAutomaton(n)
    for q in range(n):
        g.add_edge(q, min(q + 1, n - 1), "a")
    g.set_final(n - 1)
    m = hopcroft_minimize(g)
    equal(m.num_vertices(), n, "states of a saturating counter")
    expect(m.accepts("a" * (n - 1)) and not m.accepts("a" * (n - 2)), "language of a saturating counter")
    # A sum modulo p over a wide alphabet: copies of the same residue list their transitions in different orders
    symbols = [chr(0x100 + i) for i in range(3 * n // 2)]
    g = IncidenceAutomaton(2 * p)
    for q in range(2 * p):
        for i in range(len(symbols)):
            i = (i * (1 if q < p else -1) + q) % len(symbols)
            g.add_edge(q, (q + i) % p + p * (i * case["c"] // 7 % 2), symbols[i])
    g.set_final(p - 1), g.set_final(2 * p - 1)
    m = hopcroft_minimize(g)
    equal((m.num_vertices(), m.num_edges(), len(m.alphabet())), (p, p * len(symbols), len(symbols)), "size of a sum modulo %d" % p)
    for c in range(3):
        xs = list(bits(case["c"] + c, n + c))
        equal(m.accepts("".join(symbols[x % len(symbols)] for x in xs)), sum(x % len(symbols) for x in xs) % p == p - 1,
              "language of a sum modulo %d" % p)
    o.nontrivial()


@deep("C16", low=15, high=600, quick=6, rule="long chains of equivalent states in parallel, of unequal lengths")
def c16(case, o):
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.revuz_minimize import revuz_minimize
    n, width = case["n"], case["b"]
    g = IncidenceAutomaton(1)
    words = {}
    for k in range(width):
        # Branch k reads the last n - (k % 3) symbols of w
        m = n - k % 3
        w = word(case["c"], n, "ab")[n - m:]
        q = 0
        for i, a in enumerate(SYMBOLS[k] + w):
            r = g.add_vertex()
            g.add_edge(q, r, a)
            q = r
        g.set_final(q)
        words[SYMBOLS[k] + w] = True
    revuz_minimize(g)
    for x in words:
        expect(g.accepts(x) and not g.accepts(x[:-1]) and not g.accepts(x + "a"), "language")
    equal(g.num_vertices(), n + 2, "states")
    equal(g.num_edges(), n + width, "transitions")
    o.nontrivial()


SYMBOLS = "pqrstuvw"


@deep("C17", low=200, high=500, quick=2, rule="long patterns: words, alternations, deep parentheses, large repetitions")
def c17(case, o):
    from pybgl.regexp import compile_dfa, compile_nfa
    n, b = case["n"], case["b"]
    w = word(case["c"], n, "ab")
    nfa, _, _ = as_triple(compile_nfa(w))
    expect(nfa.accepts(w) and not nfa.accepts(w[:-1]) and not nfa.accepts(w + "a"), "a pattern that is a long word")
    words = {word(case["c"] + i, 1 + i % 9, "abc") for i in range(n // 5)}
    nfa, _, _ = as_triple(compile_nfa("|".join(sorted(words))))
    for i in range(40):
        x = word(case["c"] + 7 * i, 1 + i % 9, "abc")
        equal(nfa.accepts(x), x in words, "an alternation of %d words on %r" % (len(words), x))
    nfa, _, _ = as_triple(compile_nfa("(" * n + "ab" + ")" * n + "*"))
    expect(nfa.accepts("abab") and nfa.accepts("") and not nfa.accepts("aba"), "deep parentheses")
    k = 20 + b
    nfa, _, _ = as_triple(compile_nfa("a{%d}b{%d,%d}" % (k, b, k)))
    for i, j in ((k, b), (k, k), (k - 1, b), (k + 1, b), (k, b - 1), (k, k + 1), (k, (k + b) // 2)):
        equal(nfa.accepts("a" * i + "b" * j), i == k and b <= j <= k, "repetitions on a%d b%d" % (i, j))
    m = 301 + case["c"] % 40
    for p, f in (("ab{%d}" % m, lambda i: i == m), ("(ab){%d}" % m, None), ("ab{%d,%d}" % (m, m + b), lambda i: m <= i <= m + b), ("ab{%d,}" % m, lambda i: i >= m),
                 ("(a)(b{%d})" % m, lambda i: i == m), ("ab{,%d}" % m, lambda i: i <= m), ("a(b{3}){%d}" % m, lambda i: i == 3 * m), ("a|b{%d}" % m, lambda i: i == 0),
                 ("(a|%s)b{%d}" % ("c" * m, m), lambda i: i == m)):
        nfa, _, _ = as_triple(compile_nfa(p))
        if f is None:
            equal([nfa.accepts("ab" * i) for i in (m - 1, m, m + 1, 0)], [False, True, False, False], p)
            continue
        for i in (0, 1, m - 1, m, m + 1, m + b, m + b + 1, 3 * m):
            equal(nfa.accepts("a" + "b" * i), f(i), "%s on ab{%d}" % (p, i))
    dfa = compile_dfa("[ab]{%d}" % k)
    equal([dfa.accepts(w[:i]) for i in (k - 1, k, k + 1)], [False, True, False], "compile_dfa of a repetition")
    o.nontrivial()


def as_triple(x):
    return x if isinstance(x, tuple) else (x, None, None)


@deep("C18", rule="long sums, deep parentheses, long towers of signs")
def c18(case, o):
    from pybgl.shunting_yard_postfix import MAP_OPERATORS_ALG, shunting_yard_ast, shunting_yard_compute, shunting_yard_postfix, tokenizer_alg
    n = case["n"]
    xs = [x % 10 for x in bits(case["c"], n)]
    s = "".join("%s%d" % ("-" if x % 3 == 0 else "+", x) for x in xs)
    equal(shunting_yard_compute("0" + s), float(sum(-x if x % 3 == 0 else x for x in xs)), "a sum of %d terms" % n)
    k = case["b"]
    equal(shunting_yard_compute("(" * n + "%d" % k + ")" * n + "+1"), k + 1., "%d parentheses" % n)
    equal(shunting_yard_compute("1" + "-(1" * n + ")" * n), 0. if n % 2 else 1., "nested differences")
    equal(shunting_yard_compute("-" * n + "%d" % k), float(k if n % 2 == 0 else -k), "%d signs" % n)
    equal(shunting_yard_compute("2^1" + "^1" * n), 2., "a tower of powers")
    out = list(shunting_yard_postfix(tokenizer_alg("1" + "^1" * n), MAP_OPERATORS_ALG))
    equal(out, [1.] * (n + 1) + ["^"] * n, "a tower of powers in postfix notation")
    ast, root = shunting_yard_ast(tokenizer_alg("1" + "+2" * n), MAP_OPERATORS_ALG)
    equal((ast.num_vertices(), ast.num_edges(), ast.symbol(root)), (2 * n + 1, 2 * n, "+"), "tree of a long sum")
    u, depth = root, 0
    while ast.out_degree(u):
        left, right = ast.children(u)
        equal(ast.symbol(right), 2., "right operand")
        u, depth = left, depth + 1
    equal((depth, ast.symbol(u)), (n, 1.), "left spine of the tree")
    o.nontrivial()


@deep("C19", rule="long words and many words in tries; fusion; digital sequences")
def c19(case, o):
    from pybgl.digital_sequence import DigitalSequence
    from pybgl.trie import Trie
    from pybgl.trie_matching import trie_matching
    n = case["n"]
    w = word(case["c"], n, "ab")
    words = {w, w[: n // 2], w[: n // 3] + "c" + w[n // 3:]} | {word(case["c"] + i, 1 + i % 12, "abcd") for i in range(n // 10)}
    t, u = Trie(), Trie()
    for i, x in enumerate(sorted(words)):
        (t if i % 3 else u).insert(x)
    model_t = {x for i, x in enumerate(sorted(words)) if i % 3}
    model_u = words - model_t
    prefixes = lambda ws: {x[:i] for x in ws for i in range(len(x) + 1)} | {""}     # noqa: E731
    pt, pu = prefixes(model_t), prefixes(model_u)
    equal((t.num_vertices(), u.num_vertices()), (len(pt), len(pu)), "states of the tries")
    counters = [0] * 4
    for p in pt | pu:
        counters[(p in model_t) + 2 * (p in model_u)] += 1
    equal(trie_matching(t, u), counters, "trie_matching")
    d = DigitalSequence(w)
    expect(d.accepts(w) and not d.accepts(w[:-1]), "digital sequence")
    for q in (255, 256, 257, 300, n - 1, n):
        one = lambda es: [(d.source(e), d.target(e), d.label(e)) for e in es]     # noqa: E731
        equal(one(d.out_edges(q)), [(q, q + 1, w[q])] if q < n else [], "out-edges of state %d" % q)
        equal(one(d.in_edges(q)), [(q - 1, q, w[q - 1])], "in-edges of state %d" % q)
        equal((d.is_final(q), d.is_initial(q), d.sigma(q)), (q == n, False, set(w[q:q + 1])), "state %d" % q)
        equal([d.delta(q, a) for a in "ab"], [q + 1 if w[q:q + 1] == a else None for a in "ab"], "delta of state %d" % q)
    x = "".join(chr(0x100 + i) for i in range(n))
    e = DigitalSequence(x + "abc")
    equal((e.alphabet(), len(set(e.edges())), e.accepts(x + "abc")), (set(x + "abc"), n + 3, True), "digital sequence of many symbols")
    t.insert(u)
    equal(t.num_vertices(), len(pt | pu), "states of the fusion")
    t.insert(d)
    for x in sorted(words) + [w[:-1], w + "a", "zz"]:
        equal(t.accepts(x), x in words, "fusion on a word of %d symbols" % len(x))
    equal(t.num_edges(), t.num_vertices() - 1, "edges of the fusion")
    o.nontrivial()


@deep("C20", low=300, high=600, rule="a tree as deep as its number of elements (discrete metric), a wide one, and integers")
def c20(case, o):
    from pybgl.bk_tree import make_bk_tree
    n = case["n"]
    m = 1010 + case["a"]
    t = make_bk_tree(range(m), lambda x, y: int(x != y))
    equal(t.num_vertices(), m, "elements under the discrete metric")
    for x in (0, m // 2, m - 1):
        equal(t.search(x, 0), (x, 0), "search of an element under the discrete metric")
    equal(t.search(-1, 0), None, "search of an absent element")
    r = t.search(-1, 1)
    expect(r is not None and r[1] == 1 and r[0] in range(m), "search under the discrete metric:", r)
    xs = sorted({x % (50 * n) for x in bits(case["c"], n)}, key=lambda x: x * 7919 % 104729)
    t = make_bk_tree(xs, lambda x, y: abs(x - y))
    for y in [x % (50 * n) for x in bits(case["c"] + 1, 60)]:
        best = min(abs(x - y) for x in xs)
        for d_max in (best, best + 3, best - 1):
            r = t.search(y, d_max)
            if d_max < best:
                equal(r, None, "search of %d within %d" % (y, d_max))
            else:
                expect(r is not None and r[1] == best == abs(r[0] - y) and r[0] in xs, "search of", y, "within", d_max, ":", r, "best", best)
        r = t.search(y)
        expect(r is not None and r[1] == best == abs(r[0] - y), "search of", y, ":", r, "best", best)
    o.nontrivial()


def c21_wide(case):
    """A long string against a short one, made of parts of it: the distances have a closed form."""
    from pybgl.damerau_levenshtein_distance import damerau_levenshtein_distance
    from pybgl.lcs_distance import lcs_distance
    from pybgl.levenshtein_distance import levenshtein_distance
    n = 300 + case["n"] // 6
    x = word(case["c"], n, "abc")
    y = "".join(x[i] for i in sorted({i % n for i in bits(case["c"] + 3, 8)}))
    for f in (levenshtein_distance, lcs_distance, damerau_levenshtein_distance):
        equal(f(x, y), len(x) - len(y), f.__name__ + " of a string and one of its subsequences")
        equal(f(y, x), len(x) - len(y), f.__name__ + " of a subsequence and the string")
        equal(f(x, "z" + y), len(x) - len(y) + (1 if f is lcs_distance else 0), f.__name__ + " of a string and something else")


@deep("C21", low=80, high=180, rule="long strings against the dynamic programme")
def c21(case, o):
    c21_wide(case)
    from pybgl.damerau_levenshtein_distance import damerau_levenshtein_distance
    from pybgl.lcs_distance import lcs_distance
    from pybgl.levenshtein_distance import levenshtein_distance
    n = case["n"]
    x = word(case["c"], n, "abc")
    y = list(x if case["a"] % 2 else word(case["c"] + 1, n - case["a"], "abc"))
    for i in bits(case["c"] + 2, case["a"]):
        i %= len(y) - 1
        if i % 3 == 0:
            y[i], y[i + 1] = y[i + 1], y[i]
        elif i % 3 == 1:
            del y[i]
        else:
            y.insert(i, "abc"[i % 2])
    y = "".join(y)

    def table(sub, swap):
        prev2, prev = None, list(range(len(y) + 1))
        for i in range(1, len(x) + 1):
            row = [i]
            for j in range(1, len(y) + 1):
                v = min(prev[j] + 1, row[j - 1] + 1)
                if x[i - 1] == y[j - 1]:
                    v = min(v, prev[j - 1])
                elif sub:
                    v = min(v, prev[j - 1] + 1)
                if swap and i > 1 and j > 1 and x[i - 1] == y[j - 2] and x[i - 2] == y[j - 1]:
                    v = min(v, prev2[j - 2] + 1)
                row.append(v)
            prev2, prev = prev, row
        return prev[-1]
    equal(levenshtein_distance(x, y), table(True, False), "levenshtein_distance")
    equal(lcs_distance(x, y), table(False, False), "lcs_distance")
    equal(damerau_levenshtein_distance(x, y), table(True, True), "damerau_levenshtein_distance")
    o.nontrivial()


@deep("C22", low=400, high=1500, rule="heaps of many elements with ties and decrease_key")
def c22(case, o):
    from pybgl.heap import Comparable, Heap
    n = case["n"]
    prio = {i: x % (n // case["b"]) for i, x in enumerate(bits(case["c"], n))}
    key = (lambda i: prio[i]) if case["a"] % 2 else (lambda i: Comparable(prio[i], lambda x, y: x <= y))
    h = Heap(range(n // 2), to_comparable=key)
    for i in range(n // 2, n):
        h.push(i)
    for i in bits(case["c"] + 1, 20):
        i %= n
        prio[i] //= 2
        h.decrease_key(i)
    equal(len(h), n, "len")
    equal([prio[i] for i in h], sorted(prio.values()), "priorities iterated")
    got = [h.pop() for _ in range(n)]
    equal([prio[i] for i in got], sorted(prio.values()), "priorities popped")
    equal(sorted(got), list(range(n)), "elements popped")
    expect(not h, "the heap is not empty in the end")
    o.nontrivial()


@deep("C23", low=101, high=300, rule="drawings of many vertices, read back")
def c23(case, o):
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.graphviz import read_graphviz_dp
    from pybgl.property_map import make_assoc_property_map, make_func_property_map
    n = case["n"]
    g = (DirectedGraph if case["a"] % 2 else UndirectedGraph)(n)
    r = list(bits(case["c"], 4 * n))
    label = {}
    for i in range(n):
        e, _ = g.add_edge(r[2 * i] % n, r[2 * i + 1] % n)
        label[gen.ekey(g, e)] = "e%d" % i
    s = g.to_dot(dpv={"label": make_func_property_map(lambda u: "v%d" % (u * u))}, dpe={"label": make_func_property_map(lambda e: label[gen.ekey(g, e)])})
    h = type(g)(0)
    lv, le = defaultdict(str), defaultdict(str)
    read_graphviz_dp(s, h, dpv={"label": make_assoc_property_map(lv)}, dpe={"label": make_assoc_property_map(le)})
    equal(h.num_vertices(), n, "vertices read back")
    number = {x: u for u, x in lv.items()}
    equal(set(number), {"v%d" % (u * u) for u in range(n)}, "labels read back")
    back = {number["v%d" % (u * u)]: u for u in range(n)}
    norm = (lambda u, v: (u, v)) if g.directed else (lambda u, v: (min(u, v), max(u, v)))
    equal(sorted((norm(back[h.source(e)], back[h.target(e)]), le[e]) for e in h.edges()),
          sorted((norm(g.source(e), g.target(e)), label[gen.ekey(g, e)]) for e in g.edges()), "edges read back")
    o.nontrivial()


@deep("C24", low=101, high=300, rule="exports of many vertices")
def c24(case, o):
    import json
    from pybgl.graph import DirectedGraph
    from pybgl.graph_dp import GraphDp
    from pybgl.property_map import make_func_property_map
    n = case["n"]
    g = DirectedGraph(n)
    r = list(bits(case["c"], 4 * n))
    for i in range(n):
        g.add_edge(r[2 * i] % n, r[2 * i + 1] % n)
    for u in range(case["a"], n, 11):
        g.remove_vertex(u)
    d = json.loads(GraphDp(g, dpv={"label": make_func_property_map(lambda u: u * 3)}).to_json())
    equal(sorted((v["id"], v["label"]) for v in d["vertices"]), sorted((u, str(u * 3)) for u in g.vertices()), "vertices exported")
    equal(sorted((e["source"], e["target"]) for e in d["edges"]), sorted((g.source(e), g.target(e)) for e in g.edges()), "edges exported")
    o.nontrivial()


@deep("C25", low=101, high=400, rule="builders on hundreds of named states")
def c25(case, o):
    from pybgl.automaton import make_automaton
    from pybgl.incidence_automaton import make_incidence_automaton
    from pybgl.property_map import make_func_property_map
    n = case["n"]
    name = (lambda i: i * case["b"]) if case["a"] % 2 else (lambda i: "q%d" % i)
    r = list(bits(case["c"], 3 * n))
    transitions = [(name(r[2 * i] % n), name(r[2 * i + 1] % n), "abc"[r[2 * n + i] % 3]) for i in range(n)]
    names = sorted({x for t in transitions for x in t[:2]})
    q0 = names[case["c"] % len(names)]
    for make in (make_automaton, make_incidence_automaton):
        g = make(transitions, q0, make_func_property_map(lambda x: names.index(x) % 5 == 0))
        model = {}
        for q, s, a in transitions:
            model.setdefault((names.index(q), a), names.index(s))
        equal({(g.source(e), g.label(e)): g.target(e) for e in g.edges()}, model, make.__name__ + ": transitions")
        equal((g.initial(), g.finals()), (names.index(q0), set(range(0, len(names), 5))), make.__name__ + ": initial and final states")
    o.nontrivial()


@deep("C26", low=600, high=1500, rule="pairs of long chains and cycles")
def c26(case, o):
    from math import gcd
    from pybgl.automaton import Automaton
    from pybgl.parallel_breadth_first_search import ParallelBreadthFirstSearchVisitor, parallel_breadth_first_search

    def cycle(n):
        g = Automaton(n)
        for i in range(n):
            g.add_edge(i, (i + 1) % n, "a")
        return g
    p, q = case["n"] // 40 + case["a"], case["n"] // 45 + case["b"]
    g1, g2 = cycle(p), cycle(q)
    seen, order = set(), []

    class Vis(ParallelBreadthFirstSearchVisitor):
        def examine_vertex(self, q1, g1, q2, g2):
            order.append((q1, q2))

        def discover_vertex(self, q1, g1, q2, g2):
            seen.add((q1, q2))
    parallel_breadth_first_search(g1, g2, vis=Vis())
    k = p * q // gcd(p, q)
    equal(order, [(i % p, i % q) for i in range(k)], "pairs of two cycles of %d and %d states" % (p, q))
    equal(seen, set(order[1:]), "pairs discovered")
    n = case["n"]
    g3 = Automaton(n)
    for i in range(n - 1):
        g3.add_edge(i, i + 1, "a")
    del order[:]
    parallel_breadth_first_search(g3, g1, vis=Vis())
    equal(order[:n], [(i, i % p) for i in range(n)], "pairs of a chain and a cycle")
    equal(set(order[n:]), {(None, i) for i in range(p)}, "pairs after the end of the chain")
    o.nontrivial()


@deep("C29", rule="deep, wide and complete trees")
def c29(case, o):
    from pybgl.graph import DirectedGraph
    from pybgl.graph_traversal import DefaultTreeTraversalVisitor, bfs_tree, dfs_tree
    n, b = case["n"], case["b"] if case["a"] < 5 else 1
    g = DirectedGraph(n)
    s = 0 if case["c"] % 3 else 300 + case["c"] % 700
    kids = {u: [b * u + i for i in range(1, b + 1) if b * u + i < n] for u in range(n)}
    if case["a"] == 9:
        kids = {u: list(range(1, n)) if u == 0 else [] for u in range(n)}
    for u in range(n):
        for v in kids[u]:
            g.add_edge((u + s) % n, (v + s) % n)
    for search in (dfs_tree, bfs_tree):
        order = []

        class Vis(DefaultTreeTraversalVisitor):
            def discover_vertex(self, u, g):
                order.append((u - s) % n)
        search(int(str(s)), g, Vis())
        equal(sorted(order), list(range(n)), "vertices visited by " + search.__name__)
        at = {u: i for i, u in enumerate(order)}
        if search is bfs_tree:
            depth = {0: 0}
            for u in range(n):
                for v in kids[u]:
                    depth[v] = depth[u] + 1
            ds = [depth[u] for u in order]
            equal(ds, sorted(ds), "depths in order of visit")
        else:
            size = {}
            for u in reversed(range(n)):
                size[u] = 1 + sum(size[v] for v in kids[u])
            for u in range(n):
                for v in kids[u]:
                    expect(at[u] < at[v] < at[u] + size[u], "vertex", v, "is not visited with the subtree of", u)
    o.nontrivial()


@deep("C30", rule="long texts, factors of long words")
def c30(case, o):
    import re
    from pybgl.suffix_trie import factors, make_suffix_trie, slices
    from pybgl.tokenize import TokenizeVisitor, tokenize
    n, b = case["n"], case["b"]
    w = word(case["c"], n, "abc")
    pieces = []

    class Vis(TokenizeVisitor):
        def on_matched(self, matched, start, end, s):
            pieces.append((1, matched, start))

        def on_unmatched(self, unmatched, start, end, s):
            pieces.append((0, unmatched, start))
    tokenize(re.compile("a+b"), w, Vis())
    equal("".join(x for _, x, _ in pieces), w, "text put together")
    equal([(x, i) for k, x, i in pieces if k], [(m.group(), m.start()) for m in re.finditer("a+b", w)], "matches")
    model = {w[i:j] for i in range(n) for j in range(i, min(n, i + b) + 1)}
    t = make_suffix_trie(w, b)
    equal(t.num_vertices(), len(model), "states of the suffix trie")
    equal(set(factors(w, b)), model, "factors")
    for x in sorted(model)[:: max(1, len(model) // 50)]:
        expect(t.accepts(x), "factor", x, "is missing")
    k = 301 + b
    equal(set(slices(k)), {(i, j) for i in range(k) for j in range(i + 1, k + 1)} | {(0, 0)}, "slices(%d)" % k)
    equal(set(slices(k, b)), {(i, j) for i in range(k) for j in range(i + 1, min(k, i + b) + 1)} | {(0, 0)}, "slices(%d, %d)" % (k, b))
    v = w[: 60 + b] if case["c"] % 4 else "".join(chr(0x3b1 + i * i % 257) for i in range(90 + b))
    u = make_suffix_trie(v)
    equal(u.num_vertices(), len({v[i:j] for i in range(len(v)) for j in range(i, len(v) + 1)}), "states of the whole suffix trie")
    o.nontrivial()
