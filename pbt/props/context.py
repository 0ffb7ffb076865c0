"""C31: what an algorithm returns depends on its arguments only."""
import itertools
from collections import defaultdict, deque
from collections.abc import Set
from hypothesis import strategies as st
from pbt import gen
from pbt.core import target, expect, equal
from pbt.props.automata import SYMS, srt
from pybgl import (
    Automaton, DefaultBreadthFirstSearchVisitor, DefaultDepthFirstSearchVisitor, DijkstraVisitor, DirectedGraph, GraphDp, GraphView, IncidenceAutomaton,
    IncidenceGraph, IncidenceNodeAutomaton, Nfa, NodeAutomaton, ParallelBreadthFirstSearchVisitor, UndirectedGraph, breadth_first_search,
    breadth_first_search_graph, cut, depth_first_search, depth_first_search_graph, dijkstra_shortest_path, dijkstra_shortest_paths,
    make_assoc_property_map, make_automaton, make_func_property_map, make_shortest_paths_dag, parallel_breadth_first_search, reverse_graph, strong_components, topological_sort,
)
from pybgl.automaton_copy import automaton_copy
from pybgl.deterministic_inclusion import deterministic_inclusion
from pybgl.deterministic_intersection import deterministic_intersection
from pybgl.deterministic_union import deterministic_union
from pybgl.graph_copy import graph_copy
from pybgl.graph_extract import graph_extract
from pybgl.hopcroft_minimize import hopcroft_minimize
from pybgl.moore_determination import moore_determination

CLASSES = {"D": DirectedGraph, "U": UndirectedGraph, "I": IncidenceGraph, "A": Automaton, "IA": IncidenceAutomaton, "N": NodeAutomaton,
           "IN": IncidenceNodeAutomaton, "NFA": Nfa}
AUTOMATA = ("A", "IA", "N", "IN")
PLAIN = ("D", "U", "I")
NODES = ("N", "IN")


# Each operation is f(g, p, tick): p selects its parameters, tick() is called by each callback the operation is given,
# and the result (independent of the order in which a set is listed) is returned.

def pick(g, p):
    vs = sorted(g.vertices())
    return vs[p % len(vs)] if vs else None


def ticking(base, tick, log):
    """A visitor whose events all call tick()."""
    class Ticking(base):
        pass
    for name in dir(base):
        if not name.startswith("_"):
            def event(self, *args, _n=name):
                tick()
                log.append(_n)
            setattr(Ticking, name, event)
    return Ticking()


def weight(tick, g, p):
    def w(e):
        tick()
        return (g.source(e) * 7 + g.target(e) * 3 + p) % 5 if g.directed else (g.source(e) * g.target(e) + p) % 5
    return make_func_property_map(w)


def keys(g, es):
    return sorted((gen.ekey(g, e) for e in es), key=repr)


def op_dfs(g, p, tick):
    color, log = defaultdict(int), []
    depth_first_search(pick(g, p), g, make_assoc_property_map(color), ticking(DefaultDepthFirstSearchVisitor, tick, log), lambda e, h: tick() or True)
    return sorted(color.items()), log.count("examine_edge"), log.count("tree_edge")


def op_dfs_graph(g, p, tick):
    log = []
    depth_first_search_graph(g, None, vis=ticking(DefaultDepthFirstSearchVisitor, tick, log))
    return log.count("discover_vertex"), log.count("examine_edge")


def op_bfs(g, p, tick):
    color, log, dist = defaultdict(int), [], {pick(g, p): 0}
    vis = ticking(DefaultBreadthFirstSearchVisitor, tick, log)

    def tree_edge(e, h):
        u, v = h.source(e), h.target(e)
        dist[v] = dist[u] + 1
        tick()
    vis.tree_edge = tree_edge
    breadth_first_search(pick(g, p), g, make_assoc_property_map(color), vis, lambda e, h: tick() or True)
    return sorted(color.items()), sorted(dist.items()), log.count("examine_edge")


def op_bfs_graph(g, p, tick):
    log = []
    breadth_first_search_graph(g, {pick(g, p)}, vis=ticking(DefaultBreadthFirstSearchVisitor, tick, log))
    return log.count("discover_vertex"), log.count("examine_edge")


def op_dijkstra(g, p, tick):
    preds, dist, log = defaultdict(set), defaultdict(int), []
    dijkstra_shortest_paths(g, pick(g, p), weight(tick, g, p), make_assoc_property_map(preds), make_assoc_property_map(dist),
                            vis=ticking(DijkstraVisitor, tick, log))
    return sorted(dist.items()), sorted((v, keys(g, es)) for v, es in preds.items() if es), log.count("examine_vertex")


class Stop(Exception):
    """Raised by a callback to leave an algorithm."""


STOPS = [Stop] + [type("Stop" + x.__name__, (Stop, x), {}) for x in (
    RuntimeError, KeyError, ValueError, AttributeError, TypeError, IndexError, AssertionError, NotImplementedError, ArithmeticError)]


def op_path(g, p, tick):
    s, t = pick(g, p), pick(g, p // 7 + 1)
    preds, dist = defaultdict(set), defaultdict(int)
    path = dijkstra_shortest_path(g, s, t, weight(tick, g, p), make_assoc_property_map(preds), make_assoc_property_map(dist))
    return None if path is None else sum(weight(tick, g, p)[e] for e in path)


def op_paths_dag(g, p, tick):
    s, t = pick(g, p), pick(g, p // 7 + 1)
    preds, dist = defaultdict(set), defaultdict(int)
    w = weight(tick, g, p)
    one = make_func_property_map(lambda e: 1 + w[e])
    dijkstra_shortest_paths(g, s, one, make_assoc_property_map(preds), make_assoc_property_map(dist))
    return keys(g, make_shortest_paths_dag(g, s, t, make_assoc_property_map(preds)))


def op_scc(g, p, tick):
    class D(defaultdict):
        def __setitem__(self, k, v):
            tick()
            super().__setitem__(k, v)
    d = D(int)
    n = strong_components(g, make_assoc_property_map(d))
    parts = defaultdict(set)
    for u, c in d.items():
        parts[c].add(u)
    return n, sorted(map(sorted, parts.values()))


def op_toposort(g, p, tick):
    class D(deque):
        def appendleft(self, x):
            tick()
            super().appendleft(x)
    try:
        order = topological_sort(g, D())
    except Stop:
        raise
    except RuntimeError:
        return "cycle"
    pos = {u: i for i, u in enumerate(order)}
    return sorted(order), [gen.ekey(g, e) for e in g.edges() if pos[g.source(e)] >= pos[g.target(e)]]


def op_cut(g, p, tick):
    try:
        topological_sort(g)
    except RuntimeError:
        return "cycle"
    return sorted(cut(pick(g, p), g, lambda e, h: tick() or (h.source(e) + 2 * h.target(e) + p) % 3 == 0))


def relevant(g, p, tick):
    return {"pmap_vrelevant": make_func_property_map(lambda u: tick() or u == pick(g, p) or (u + p) % 4 != 0),
            "pmap_erelevant": make_func_property_map(lambda e: tick() or (g.source(e) + g.target(e) + p) % 5 != 0)}


def op_extract(g, p, tick):
    vs, es = [], []
    graph_extract(pick(g, p), g, callback_vertex_extract=lambda u, h: tick() or vs.append(u), callback_edge_extract=lambda e, h: tick() or es.append(e),
                  **relevant(g, p, tick))
    return sorted(vs), keys(g, es)


def op_copy(g, p, tick):
    auto = isinstance(g, Automaton)
    dup = (IncidenceAutomaton(0) if isinstance(g, IncidenceAutomaton) else Automaton(0)) if auto else DirectedGraph(0) if g.directed else UndirectedGraph(0)
    m = {}
    (automaton_copy if auto else graph_copy)(pick(g, p), g, dup, pmap_vertices=make_assoc_property_map(defaultdict(lambda: None, m)),
                                              callback_dup_vertex=lambda u, h, ud, hd: tick() or m.__setitem__(ud, u), **relevant(g, p, tick))
    es = []
    for e in dup.edges():
        u, v = m.get(dup.source(e)), m.get(dup.target(e))
        if not g.directed and u > v:
            u, v = v, u
        es.append((u, v, dup.label(e) if auto else None))
    return sorted(m.values()), sorted(es, key=repr)


def op_view(g, p, tick):
    v = GraphView(g, **relevant(g, p, tick))
    return gen.snapshot(v), v.num_vertices(), v.num_edges()


def op_content(g, p, tick):
    out = []
    for u in g.vertices():
        tick()
        for e in g.out_edges(u):
            tick()
            out.append((u, g.target(e), e.distinguisher))
    es = []
    for e in g.edges():
        tick()
        es.append(gen.ekey(g, e))
    return sorted(out, key=repr), sorted(es, key=repr), g.num_vertices(), g.num_edges()


def op_dot(g, p, tick):
    return sorted(g.to_dot(dpv={"my": make_func_property_map(lambda u: tick() or "v%d" % (u + p))},
                           dpe={"my": make_func_property_map(lambda e: tick() or "e%d" % (g.source(e) + g.target(e)))}).splitlines())


def op_json(g, p, tick):
    return sorted(GraphDp(g, dpv={"my": make_func_property_map(lambda u: tick() or "v%d" % (u + p))}, dpe={}).to_json().splitlines())


def words(g):
    alpha = srt(g.alphabet())[:4] + ["#"]
    return [w for n in range(4) for w in itertools.product(alpha, repeat=n)][:80]


def language(g):
    return [w for w in words(g) if g.accepts(w)]


def op_queries(g, p, tick):
    out = [sorted(g.finals()), srt(g.alphabet()), sorted(q for q in g.vertices() if g.is_initial(q))]
    for q in sorted(g.vertices()):
        out.append([g.is_final(q), srt(g.sigma(q))])
    if isinstance(g, Automaton):
        out.append(g.is_complete())
    for w in words(g):
        tick()
        out.append(g.accepts(w))
    return out


def other(g, p, tick=lambda: None):
    """An automaton close to the language of g."""
    h = Automaton(3, pmap_vfinal=make_func_property_map(lambda q: tick() or q == (p // 3) % 3))
    h.set_initial(p % 2)
    alpha = srt(g.alphabet())[:3] or ["a"]
    for q in range(3):
        for i, a in enumerate(alpha):
            if (p + q + i) % 4:
                h.add_edge(q, (q + i + p) % 3, a)
    return h


def op_pbfs(g, p, tick):
    log, seen = [], set()
    vis = ticking(ParallelBreadthFirstSearchVisitor, tick, log)

    def discover(s1, g1, s2, g2):
        tick()
        seen.add((s1, s2))
    vis.discover_vertex = discover
    parallel_breadth_first_search(g, other(g, p), vis=vis, if_push=lambda e1, g1, e2, g2: tick() or True)
    return sorted(seen, key=repr), log.count("examine_edge"), log.count("finish_vertex")


def op_union(g, p, tick):
    return [language(deterministic_union(g, other(g, p, tick))), language(deterministic_union(other(g, p, tick), g))]


def op_intersection(g, p, tick):
    return [language(deterministic_intersection(g, other(g, p, tick))), language(deterministic_intersection(other(g, p, tick), g))]


def op_inclusion(g, p, tick):
    return [deterministic_inclusion(g, other(g, p, tick)), deterministic_inclusion(other(g, p, tick), g), deterministic_inclusion(g, g)]


def op_hopcroft(g, p, tick):
    h = hopcroft_minimize(g)
    return h.num_vertices(), h.num_edges(), language(h)


def op_moore(g, p, tick):
    h = moore_determination(g, complete=bool(p % 2))
    return h.num_vertices(), h.num_edges(), language(h)


ANY = {"dfs": op_dfs, "dfs_graph": op_dfs_graph, "bfs": op_bfs, "bfs_graph": op_bfs_graph, "dijkstra": op_dijkstra, "path": op_path, "paths_dag": op_paths_dag,
       "extract": op_extract, "view": op_view, "content": op_content, "dot": op_dot, "json": op_json}
DIRECTED = {"scc": op_scc, "toposort": op_toposort, "cut": op_cut}
COPY = {"copy": op_copy}
LANG = {"pbfs": op_pbfs, "union": op_union, "intersection": op_intersection, "inclusion": op_inclusion}
OPS = {
    "U": {**ANY, **COPY}, "D": {**ANY, **DIRECTED, **COPY}, "I": {**ANY, **DIRECTED, **COPY},
    "A": {**ANY, **DIRECTED, **COPY, **LANG, "queries": op_queries},
    "IA": {**ANY, **DIRECTED, **COPY, **LANG, "queries": op_queries, "hopcroft": op_hopcroft},
    "N": {**ANY, **DIRECTED, **LANG, "queries": op_queries}, "IN": {**ANY, **DIRECTED, **LANG, "queries": op_queries},
    "NFA": {"content": op_content, "queries": op_queries, "moore": op_moore, "dot": op_dot, "dfs": op_dfs, "scc": op_scc},
}


def call(cls, op, g, tick=lambda: None):
    name, p = op
    if not list(g.vertices()):
        return None
    if name == "hopcroft" and (not g.is_complete() or g.initial() not in set(g.vertices())):
        return None
    return OPS[cls][name](g, p, tick)


# Histories

@st.composite
def changes(draw, cls, n):
    """Modifications of a graph."""
    i = st.integers(0, 30)
    ops = []
    for _ in range(draw(st.integers(0, n))):
        kinds = ["v", "e", "e", "e", "e", "-e", "-e", "-v"]
        if cls not in PLAIN:
            kinds += ["f", "f", "i"]
        if cls in ("I", "IA"):
            kinds.append("rev")
        ops.append([draw(st.sampled_from(kinds)), draw(i), draw(i), draw(st.integers(0, 3))])
    return ops


def change(cls, g, op):
    """Applies a modification; a graph is only modified the right way round."""
    k, x, y, a = op
    if k == "rev":
        g._pbt_reversed = not getattr(g, "_pbt_reversed", False)
        return reverse_graph(g)
    if getattr(g, "_pbt_reversed", False):
        change(cls, g, ["rev", 0, 0, 0])
    vs = sorted(g.vertices())
    if k == "v" or len(vs) < 2:
        return g.add_vertex(SYMS[a]) if cls in NODES else g.add_vertex()
    u, v = vs[x % len(vs)], vs[y % len(vs)]
    if k == "e":
        return g.add_edge(u, v) if cls in PLAIN or cls in NODES else g.add_edge(u, v, SYMS[a])
    if k == "-e":
        es = sorted(g.edges(), key=lambda e: repr(gen.ekey(g, e)))
        if es:
            g.remove_edge(es[x % len(es)])
    elif k == "-v":
        if cls in PLAIN or not g.is_initial(u):
            if cls not in PLAIN:
                g.set_final(u, False)
            g.remove_vertex(u)
    elif k == "f":
        g.set_final(u, a != 0)
    elif k == "i":
        if cls == "NFA":
            g.set_initials({u, v})
        else:
            g.set_initial(u)


def start(cls, n):
    if cls in NODES:
        g = CLASSES[cls]()
        for i in range(n):
            g.add_vertex(SYMS[i % 3])
        g.set_initial(0)
        return g
    return CLASSES[cls](n)


@st.composite
def cases(draw, big=False):
    cls = draw(st.sampled_from(sorted(CLASSES) + ["A", "IA", "D", "U"]))
    n = draw(st.integers(1, 6 if not big else 12))
    ops = draw(changes(cls, 4 + 2 * n))
    call_ = st.tuples(st.sampled_from(sorted(OPS[cls])), st.integers(0, 40)).map(list)
    return {"cls": cls, "n": n, "ops": ops, "calls": draw(st.lists(st.tuples(st.integers(0, len(ops)), call_).map(list), min_size=1, max_size=5)),
            "more": draw(changes(cls, 3)), "same": draw(st.booleans())}


@target("C31", "history", cases, quick=400, rule="a graph or automaton of eight classes modified, with calls to up to 5 of 20 algorithms in between: each result is "
        "that of the same call on a graph with the same history of modifications that no algorithm ever saw; non-trivial: an edge is left, an algorithm "
        "ran before a modification, and the same algorithm ran after it")
def c31_history(case, o):
    cls = case["cls"]
    ops = case["ops"]
    calls = sorted(case["calls"], key=lambda c: c[0])
    if case["same"]:   # the same call each time
        calls = [[i, calls[0][1]] for i, _ in calls] + [[len(ops), calls[0][1]]]

    def replay(upto):
        h = start(cls, case["n"])
        for op in ops[:upto]:
            change(cls, h, op)
        return h

    g = start(cls, case["n"])
    done = 0
    names = []
    for i, op in calls:
        while done < i:
            change(cls, g, ops[done])
            done += 1
        h = replay(done)
        want = call(cls, op, h)
        for what in ("first", "second"):
            equal(call(cls, op, g), want, "%s %s call on a %s after %d modifications" % (what, op, cls, done))
        equal(gen.snapshot(g), gen.snapshot(h), "content of the graph after", op)
        names.append((done, op[0]))
    o.label(cls, *{n for _, n in names})
    o.nontrivial(list(g.edges()) and any(a == b and i < j for i, a in names for j, b in names))


@st.composite
def nested(draw, big=False):
    cls = draw(st.sampled_from(sorted(CLASSES) + ["A", "IA", "D", "U"]))
    n = draw(st.integers(2, 7 if not big else 14))
    call_ = st.tuples(st.sampled_from(sorted(OPS[cls])), st.integers(0, 40)).map(list)
    return {"cls": cls, "n": n, "ops": [["e", draw(st.integers(0, 30)), draw(st.integers(0, 30)), draw(st.integers(0, 3))] for _ in range(draw(st.integers(n // 2, 3 * n)))]
            + draw(changes(cls, 5)), "a": draw(call_), "b": draw(call_), "at": draw(st.integers(0, 99)), "stop": draw(st.integers(0, len(STOPS) - 1))}


@target("C31", "nested", nested, quick=400, rule="two algorithms on the same graph, the second one called by a callback (visitor, filter, weight, property map, loop) of the "
        "first: both return what they return alone; non-trivial: the first one calls its callback at least 3 times")
def c31_nested(case, o):
    cls = case["cls"]
    g = start(cls, case["n"])
    for op in case["ops"]:
        change(cls, g, op)
    count = [0]

    def tick():
        count[0] += 1
    before = gen.snapshot(g)
    want_a = call(cls, case["a"], g, tick)
    n = count[0]
    want_b = call(cls, case["b"], g)
    at = 1 + case["at"] * n // 100
    count[0] = 0

    def tick2():
        count[0] += 1
        if count[0] == at:
            equal(call(cls, case["b"], g), want_b, "%s called by a callback of %s" % (case["b"], case["a"]))
    equal(call(cls, case["a"], g, tick2), want_a, "%s while a callback called %s" % (case["a"], case["b"]))
    equal(gen.snapshot(g), before, "the graph")
    expect(count[0] == n, "callbacks called", count[0], "times instead of", n)
    o.nontrivial(n >= 3)
    o.label(cls, case["a"][0])


# ------------------------------------------------------------------------------------------------------- kept results

def kept_env(p):
    """The arguments of the calls: the same p gives equal arguments."""
    from pybgl.trie import Trie
    bits = gen_bits(p)
    alpha = "ab" if next(bits) % 2 else "abc"

    def words_(k):
        return ["".join(alpha[next(bits) % len(alpha)] for _ in range(next(bits) % 5)) for _ in range(k)]

    class Env:
        pass
    v = Env()
    v.words, v.others = words_(4), words_(4)
    v.trie, v.trie2 = Trie(), Trie()
    for w in v.words:
        v.trie.insert(w)
    for w in v.others + v.words[:1]:
        v.trie2.insert(w)
    n = 3 + next(bits) % 4
    v.graph, v.dag, v.auto, v.auto2, v.nfa, v.inc = DirectedGraph(n), DirectedGraph(n), Automaton(n), Automaton(n), Nfa(n), IncidenceAutomaton(n)
    v.undirected = UndirectedGraph(n)
    for _ in range(2 * n):
        x, y, a = next(bits) % n, next(bits) % n, next(bits) % 3
        v.graph.add_edge(x, y)
        v.undirected.add_edge(x, y)
        if x != y:
            v.dag.add_edge(min(x, y), max(x, y))
        v.auto.add_edge(x, y, alpha[a % len(alpha)])
        v.auto2.add_edge(y, x, alpha[a % len(alpha)])
        v.nfa.add_edge(x, y, [v.nfa.epsilon, "a", "b"][a])
    for q in range(n):
        for a in alpha:
            v.inc.add_edge(q, next(bits) % n, a)
    v.node, v.inode = NodeAutomaton(), IncidenceNodeAutomaton()
    for g in (v.node, v.inode):
        for _ in range(n):
            g.add_vertex(alpha[next(bits) % len(alpha)])
        for _ in range(2 * n):
            g.add_edge(next(bits) % n, next(bits) % n)
    for g in (v.auto, v.auto2, v.nfa, v.inc, v.node, v.inode):
        g.set_final(next(bits) % n)
        g.set_final(next(bits) % n)
    v.q = next(bits) % n
    v.pattern = ["a*b|%s", "(a|b)+%s", "[ab]{1,2}%s?", "a%sb"][next(bits) % 4] % alpha[next(bits) % len(alpha)]
    v.bracket = ["[ab-d]", "[^a-z]", "[0-9_]"][next(bits) % 3]
    v.escaped = ["\\d", "\\n", "\\w", "\\*"][next(bits) % 4]
    v.sum = "+".join(str(next(bits) % 9) for _ in range(3)) + "*2"
    v.transitions = [(next(bits) % 4, next(bits) % 4, alpha[next(bits) % len(alpha)]) for _ in range(5)]
    v.numbers = [next(bits) % 20 for _ in range(5)]
    return v


def gen_bits(p):
    x = p * 2654435761 + 99991
    while True:
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        yield x >> 40


def kept_ops():
    from pybgl.bk_tree import make_bk_tree
    from pybgl.deterministic_inclusion import DeterministicInclusionVisitor
    from pybgl.digital_sequence import DigitalSequence
    from pybgl.heap import Heap
    from pybgl.hopcroft_minimize import hopcroft_agglomerate_states
    from pybgl.prune_incidence_automaton import find_reachable_vertices
    from pybgl.regexp import compile_dfa, compile_nfa
    from pybgl.reverse import reverse_dict
    from pybgl.shunting_yard_postfix import (
        Ast, MAP_OPERATORS_ALG, MAP_OPERATORS_RE, catify, shunting_yard_ast, shunting_yard_postfix, tokenizer_alg, tokenizer_re)
    from pybgl.suffix_trie import make_suffix_trie
    from pybgl.thompson_compile_nfa import parse_bracket, parse_escaped, thompson_compile_nfa
    from pybgl.aggregated_visitor import AggregatedVisitor
    from pybgl.trie import Trie
    from pybgl.trie_matching import TrieMatchingVisitor, trie_matching

    def dijkstra(v):
        preds, dist = defaultdict(set), defaultdict(int)
        dijkstra_shortest_paths(v.graph, 0, make_func_property_map(lambda e: 1 + e.source % 2), make_assoc_property_map(preds), make_assoc_property_map(dist))
        return {k: set(x) for k, x in preds.items()}, dict(dist)

    def dag(v):
        preds, dist = defaultdict(set), defaultdict(int)
        dijkstra_shortest_paths(v.graph, 0, make_func_property_map(lambda e: 1), make_assoc_property_map(preds), make_assoc_property_map(dist))
        return make_shortest_paths_dag(v.graph, 0, v.q, make_assoc_property_map(preds))

    def heap(v):
        h = Heap(v.numbers)
        h.push(3)
        return list(h)

    def new(cls, *args):
        return lambda v: cls(*args)
    return {
        "trie_matching": lambda v: trie_matching(v.trie, v.trie2), "inclusion": lambda v: deterministic_inclusion(v.auto, v.auto2),
        "union": lambda v: deterministic_union(v.auto, v.auto2), "intersection": lambda v: deterministic_intersection(v.auto, v.auto2),
        "moore": lambda v: moore_determination(v.nfa), "hopcroft": lambda v: hopcroft_minimize(v.inc),
        "classes": lambda v: hopcroft_agglomerate_states(v.inc), "cut": lambda v: cut(0, v.dag, lambda e, g: e.target % 2 == 0),
        "reachable": lambda v: find_reachable_vertices(v.graph, {v.q}), "toposort": lambda v: set(topological_sort(v.dag)),
        "dijkstra": dijkstra, "paths_dag": dag, "alphabet": lambda v: v.auto.alphabet(), "sigma": lambda v: v.auto.sigma(v.q),
        "node alphabet": lambda v: v.node.alphabet(), "node sigma": lambda v: v.node.sigma(v.q), "inode sigma": lambda v: v.inode.sigma(v.q),
        "inode finals": lambda v: v.inode.finals(), "inc sigma": lambda v: v.inc.sigma(v.q), "inc alphabet": lambda v: v.inc.alphabet(),
        "finals": lambda v: v.auto.finals(), "nfa alphabet": lambda v: v.nfa.alphabet(), "nfa sigma": lambda v: v.nfa.sigma(v.q),
        "nfa delta": lambda v: v.nfa.delta(v.q, "a"), "nfa closure": lambda v: v.nfa.delta_epsilon({v.q}), "nfa word": lambda v: v.nfa.delta_word("ab"),
        "nfa empty word": lambda v: v.nfa.delta_word(""), "compile_nfa": lambda v: compile_nfa(v.pattern), "compile_dfa": lambda v: compile_dfa(v.pattern),
        "thompson": lambda v: thompson_compile_nfa(v.pattern)[0], "bracket": lambda v: parse_bracket(v.bracket), "escaped": lambda v: parse_escaped(v.escaped),
        "tokenizer_re": lambda v: tokenizer_re(v.pattern), "catify": lambda v: catify(v.pattern), "tokenizer_alg": lambda v: tokenizer_alg(v.sum),
        "postfix": lambda v: shunting_yard_postfix(tokenizer_alg(v.sum), MAP_OPERATORS_ALG),
        "postfix re": lambda v: shunting_yard_postfix(tokenizer_re(v.pattern), MAP_OPERATORS_RE),
        "ast": lambda v: shunting_yard_ast(tokenizer_alg(v.sum), MAP_OPERATORS_ALG)[0], "make_automaton": lambda v: make_automaton(v.transitions, v.transitions[0][0]),
        "suffix trie": lambda v: make_suffix_trie(v.words[0] + "ab"), "bk tree": lambda v: make_bk_tree(v.words), "heap": heap,
        "digital": lambda v: DigitalSequence(v.words[0] + "a").alphabet(), "digital sigma": lambda v: DigitalSequence(v.words[0] + "a").sigma(0),
        "reverse_dict": lambda v: reverse_dict({k: i for i, k in enumerate(v.words)}), "fusion": lambda v: fused(Trie, v),
        "Trie": new(Trie), "Ast": new(Ast), "Nfa": new(Nfa, 2), "Automaton": new(Automaton, 2), "IncidenceAutomaton": new(IncidenceAutomaton, 2),
        "DirectedGraph": new(DirectedGraph, 2), "UndirectedGraph": new(UndirectedGraph, 2), "IncidenceGraph": new(IncidenceGraph, 2),
        "NodeAutomaton": new(NodeAutomaton, 2), "IncidenceNodeAutomaton": new(IncidenceNodeAutomaton, 2),
        "counters": lambda v: TrieMatchingVisitor().counters, "visitors": lambda v: AggregatedVisitor().visitors,
        "inclusion visitor": lambda v: DeterministicInclusionVisitor().ret, "dp dg": lambda v: GraphDp(v.graph).get_dg(),
        "dp dv": lambda v: GraphDp(v.graph).get_dv(), "dp de": lambda v: GraphDp(v.graph).get_de(), "dp dpv": lambda v: GraphDp(v.graph).get_dpv(),
        "dp dpe": lambda v: GraphDp(v.graph).get_dpe(), "dot": lambda v: sorted(v.graph.to_dot().splitlines()),
        "undirected dot": lambda v: sorted(GraphDp(v.undirected).to_dot().splitlines()), "json": lambda v: sorted(GraphDp(v.undirected).to_json().splitlines()),
    }


def fused(Trie, v):
    t = Trie()
    for w in v.words:
        t.insert(w)
    t.insert(v.trie2)
    return t


def show(x):
    """A comparable copy of a result."""
    if isinstance(x, (DirectedGraph, UndirectedGraph)):
        s = [x.num_vertices(), x.num_edges()]
        if isinstance(x, (Automaton, Nfa)):
            if not isinstance(x, (NodeAutomaton, IncidenceNodeAutomaton)):
                s += [srt(x.alphabet())]
            if type(x).__name__ != "BKTree" and list(x.vertices()):
                s += [[w for w in itertools.product("abc", repeat=3) if x.accepts(w)], [w for w in itertools.product("abc", repeat=2) if x.accepts(w)],
                      len(list(x.finals()))]
            s += [len([q for q in x.vertices() if x.is_initial(q)])]
            if isinstance(x, (NodeAutomaton, IncidenceNodeAutomaton)):
                s += [repr(srt(x.symbol(q) for q in x.vertices()))]
        elif hasattr(x, "symbol"):
            s += [srt(x.symbol(u) for u in x.vertices())]
        else:
            s += [gen.snapshot(x)]
        return s
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return tuple(x)
    if isinstance(x, tuple):
        return tuple(show(y) for y in x)
    if isinstance(x, (list, deque)):
        return [show(y) for y in x]
    if isinstance(x, Set):
        return srt(repr(show(y)) for y in x)
    if isinstance(x, dict):
        return sorted(((repr(k), show(y)) for k, y in x.items()))
    return x


def spoil(x):
    """Modifies a result in place."""
    if isinstance(x, (DirectedGraph, UndirectedGraph)):
        name = type(x).__name__
        if name in ("BKTree", "Ast"):
            x.add_vertex("spoiled")
            return
        u = x.add_vertex()
        for e in list(x.edges())[:2]:
            x.remove_edge(e)
        if isinstance(x, (Automaton, Nfa)):
            if isinstance(x, (NodeAutomaton, IncidenceNodeAutomaton)):
                x.pmap_vsymbol[0] = "spoiled"
            else:
                x.add_edge(0, u, "spoiled")
            x.set_initial(u)
            if name != "Trie" or hasattr(x, "map_vfinal"):
                for q in list(x.vertices()):
                    x.set_final(q, not x.is_final(q))
        else:
            x.add_edge(0, u)
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)
    elif isinstance(x, (list, deque)):
        x.append("spoiled") if len(x) % 2 else x.clear()
    elif isinstance(x, set):
        x.add("spoiled") if len(x) % 2 else x.clear()
    elif isinstance(x, dict):
        for y in list(x.values()):
            spoil(y)
        x["spoiled"] = "spoiled"


KEPT = kept_ops()


def kept_cases(big):
    name = st.sampled_from(sorted(KEPT))
    return st.fixed_dictionaries({"a": name, "b": st.one_of(st.none(), st.none(), name), "p": st.integers(0, 400), "q": st.integers(0, 400)})


@target("C31", "kept", kept_cases, quick=500, rule="the result of one of 66 calls is kept while another call is made on other or on the same arguments, and "
        "while the other result is modified in place: it does not change; the same call, after its first result was modified, returns what it returned "
        "before; non-trivial: the results can be modified and the two calls are of the same function")
def c31_kept(case, o):
    a, b = case["a"], case["b"] or case["a"]
    f, h = KEPT[a], KEPT[b]
    env = kept_env(case["p"])
    r = f(env)
    want = show(r)
    r2 = h(kept_env(case["q"]))
    want2 = show(r2)
    equal(show(r), want, "result of %s after a call of %s" % (a, b))
    spoil(r2)
    equal(show(r), want, "result of %s after the result of a call of %s was modified" % (a, b))
    equal(show(h(kept_env(case["q"]))), want2, "%s called again" % b)
    r3 = h(env)
    spoil(r3)
    equal(show(r), want, "result of %s after the result of a call of %s on the same arguments was modified" % (a, b))
    spoil(r)
    equal(show(f(env)), want, "%s called again on the same arguments after its result was modified" % a)
    equal(show(f(kept_env(case["p"]))), want, "%s called again after its result was modified" % a)
    o.nontrivial(a == b and not isinstance(r, (int, str, type(None))))
    o.label(a)


@target("C31", "interrupted", nested, quick=300, rule="a callback (visitor, filter, weight, property map, loop) ends an algorithm by an exception (of ten types): the exception reaches "
        "the caller, the graph is unchanged, and the same algorithm and another one, run afterwards, return what they return alone; non-trivial: the "
        "algorithm calls its callback at least 3 times, and is left before the last one")
def c31_interrupted(case, o):
    cls = case["cls"]
    g = start(cls, case["n"])
    for op in case["ops"]:
        change(cls, g, op)
    count = [0]

    def tick():
        count[0] += 1
    before = gen.snapshot(g)
    want_a = call(cls, case["a"], g, tick)
    n = count[0]
    want_b = call(cls, case["b"], g)
    at = 1 + case["at"] * n // 100

    def tick2():
        count[0] += 1
        if count[0] == at:
            raise STOPS[case.get("stop", 0)]()
    for _ in range(2):
        count[0] = 0
        if n:
            try:
                call(cls, case["a"], g, tick2)
            except Stop:
                equal(count[0], at, "callbacks called by %s until one raised" % case["a"])
            else:
                expect(False, "the exception raised by a callback of", case["a"], "is lost")
        equal(gen.snapshot(g), before, "the graph after %s was interrupted" % case["a"])
        equal(call(cls, case["b"], g), want_b, "%s after %s was interrupted" % (case["b"], case["a"]))
        equal(call(cls, case["a"], g), want_a, "%s after it was interrupted" % case["a"])
    o.nontrivial(n >= 3 and at < n)
    o.label(cls, case["a"][0])
