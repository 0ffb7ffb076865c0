"""C06: depth-first search; C07: breadth-first search; C26: parallel search; C29: tree traversals."""
from collections import defaultdict
from hypothesis import strategies as st
from pbt import gen
from pbt.core import target, expect, equal
from pybgl import (
    WHITE, GRAY, BLACK, BOTTOM, AggregatedVisitor, Automaton, IncidenceAutomaton, DirectedGraph, IncidenceGraph,
    UndirectedGraph, NodeAutomaton, Nfa, Trie, GraphView, DefaultDepthFirstSearchVisitor, DefaultBreadthFirstSearchVisitor,
    DefaultTreeTraversalVisitor, ParallelBreadthFirstSearchVisitor, depth_first_search, depth_first_search_graph,
    breadth_first_search, breadth_first_search_graph, parallel_breadth_first_search, dfs_tree, bfs_tree,
    make_assoc_property_map, make_func_property_map,
)

CLASSES = {"D": DirectedGraph, "I": IncidenceGraph, "U": UndirectedGraph, "A": Automaton, "IA": IncidenceAutomaton, "F": Nfa}


class World:
    """A graph (of any class) with its live vertices and its out-edges as (key, target) where key identifies (edge, direction)."""
    def __init__(self, cls, graph):
        self.cls = cls
        if cls in ("A", "IA", "F"):
            self.g = CLASSES[cls](graph["n"])
            self.vs, es = gen.live(graph)
            for u in range(graph["n"]):
                if u not in self.vs:
                    self.g.set_initial(u, False)
                    self.g.remove_vertex(u)
            self.es = []
            count = defaultdict(int)
            for (_, u, v) in es:
                e, _ = self.g.add_edge(u, v, "s%d" % count[u])
                count[u] += 1
                self.es.append((e, u, v))
        else:
            self.g, self.vs, self.es = gen.build(CLASSES[cls], graph)
        self.out = {u: [] for u in self.vs}
        for (e, u, v) in self.es:
            self.out[u].append((self.key(u, v, e), v))
            if cls == "U" and u != v:
                self.out[v].append((self.key(v, u, e), u))

    def key(self, u, v, e):
        return "%d>%d:%s" % (u, v, e.distinguisher)

    def ekey(self, e):
        return self.key(self.g.source(e), self.g.target(e), e)


def accept_of(bits, shift):
    """A predicate over edge keys given by bits."""
    if bits is None:
        return lambda k: True
    return lambda k: bool(bits[(sum(map(ord, k)) + shift) % len(bits)])


def recorder(base, names, log, idx=0):
    """A visitor that logs each of its events as (name, args)."""
    class Recorder(base):
        pass
    for name in names:
        setattr(Recorder, name, lambda self, *args, _n=name: log.append((idx, _n) + args))
    return Recorder()


def visitor(base, names, how):
    """
    A recording visitor: directly (0), or through an AggregatedVisitor with one (1) or two (2) recorders, the log
    being then checked to be duplicated event by event. Returns (visitor, function giving the list of events).
    """
    log = []
    if how == 0:
        return recorder(base, names, log), lambda: [x[1:] for x in log]
    if how == 1:
        return AggregatedVisitor([recorder(base, names, log)]), lambda: [x[1:] for x in log]

    def events():
        equal(len(log) % 2, 0, "events seen by two aggregated visitors")
        for a, b in zip(log[::2], log[1::2]):
            expect(a[0] == 0 and b[0] == 1 and a[1:] == b[1:], "aggregated visitors see", a, b)
        return [x[1:] for x in log[::2]]
    return AggregatedVisitor([recorder(base, names, log, 0), recorder(base, names, log, 1)]), events


def graph_cases(extra, min_n=1):
    @st.composite
    def cases(draw, big=False):
        c = {
            "graph": draw(gen.graphs(big, min_n=min_n, max_n=8, large_n=25)),
            "cls": draw(st.sampled_from(["D", "D", "I", "U", "U", "A", "IA", "F"])),
            "bits": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from([1, 1, 0]), min_size=2, max_size=11))),
            "shift": draw(st.integers(0, 5)), "vis": draw(st.sampled_from([0, 0, 1, 2])),
            "given": draw(st.booleans()),
        }
        c.update(draw(st.fixed_dictionaries(extra)))
        return c
    return cases


# ------------------------------------------------------------------------------------------------------------------
# C06
# ------------------------------------------------------------------------------------------------------------------

DFS_EVENTS = ["initialize_vertex", "start_vertex", "discover_vertex", "examine_edge", "tree_edge", "back_edge",
              "forward_or_cross_edge", "finish_vertex"]


def check_dfs(w, g, events, color, accept, sources, final_color):
    """Checks the events of a depth-first search started with the colours ``color`` (a dict, updated)."""
    before = dict(color)
    stack, examined = [], set()
    pending = None      # (kind, vertex) due: "root" or "tree"
    roots = []
    stats = set()
    i = 0
    done = set()
    while i < len(events):
        ev = events[i]
        name, x = ev[0], ev[1]
        expect(ev[2] is g, name, "received another graph")
        if name == "initialize_vertex":
            pass
        elif name == "start_vertex":
            expect(not stack and pending is None, "start_vertex(%s) inside a search" % x)
            expect(color[x] == WHITE, "start_vertex(%s) on a vertex already visited" % x)
            roots.append(x)
            pending = x
        elif name == "discover_vertex":
            expect(pending is not None and pending == x, "discover_vertex(%s) without start_vertex or tree_edge" % x)
            expect(color[x] == WHITE, "vertex %s discovered twice" % x)
            pending = None
            color[x] = GRAY
            stack.append(x)
        elif name == "examine_edge":
            k = w.ekey(x)
            expect(pending is None, "discovery of", pending, "missing")
            expect(stack and g.source(x) == stack[-1], "edge", k, "examined out of turn")
            expect(accept(k), "refused edge", k, "examined")
            expect(k not in examined, "edge", k, "examined twice")
            expect(any(kk == k for kk, _ in w.out[stack[-1]]), "unknown edge", k)
            examined.add(k)
            c = color[g.target(x)]
            want = {WHITE: "tree_edge", GRAY: "back_edge", BLACK: "forward_or_cross_edge"}[c]
            stats.add(want)
            expect(i + 1 < len(events) and events[i + 1][0] == want and w.ekey(events[i + 1][1]) == k,
                   "edge", k, "should be reported as", want, "but the next event is", events[i + 1: i + 2])
            expect(events[i + 1][2] is g, want, "received another graph")
            i += 1
            if want == "tree_edge":
                pending = g.target(x)
        elif name == "finish_vertex":
            expect(pending is None, "discovery of", pending, "missing")
            expect(stack and stack[-1] == x, "vertex %s finished out of turn, stack" % x, stack)
            left = [k for k, _ in w.out[x] if accept(k) and k not in examined]
            expect(not left, "vertex %s finished before examining" % x, left)
            color[x] = BLACK
            done.add(x)
            stack.pop()
        else:
            expect(False, "event", name, "on", x, "without examine_edge")
        i += 1
    expect(not stack and pending is None, "search stopped before the end, stack", stack)
    white = {u for u in w.vs if before[u] == WHITE}
    want = gen.reach([s for s in sources if s in white],
                     lambda u: [v for k, v in w.out[u] if accept(k) and v in white])
    equal(done, want, "vertices visited")
    for r in roots:
        expect(r in sources, "search root %s is not a source" % r)
    if final_color is not None:
        for u in w.vs:
            equal(final_color[u], BLACK if u in want else before[u], "final colour of %s" % u)
    return stats, roots


@target("C06", "single", graph_cases({
    "s": st.integers(0, 30), "pre": st.lists(st.tuples(st.integers(0, 30), st.sampled_from([GRAY, BLACK])).map(list), max_size=4),
}), quick=500, rule="graph of five classes, source, pre-coloured vertices, edge predicate; the whole event history is "
    "checked; non-trivial: at least two kinds of edges met and three vertices visited")
def c06_single(case, o):
    w = World(case["cls"], case["graph"])
    s = w.vs[case["s"] % len(w.vs)]
    color = {u: WHITE for u in w.vs}
    given = case["given"] or case["pre"]
    if given:
        for i, c in case["pre"]:
            u = w.vs[i % len(w.vs)]
            if u != s:
                color[u] = c
    accept = accept_of(case["bits"], case["shift"])
    d = defaultdict(int, {u: c for u, c in color.items() if c != WHITE})
    before = gen.snapshot(w.g)
    vis, events = visitor(DefaultDepthFirstSearchVisitor, DFS_EVENTS, case["vis"])
    kw = {"vis": vis}
    if given:
        kw["pmap_vcolor"] = make_assoc_property_map(d)
    if case["bits"] is not None:
        kw["if_push"] = gen.loose(case["graph"], lambda e, g: accept(w.ekey(e)))
    depth_first_search(s, w.g, **kw)
    stats, roots = check_dfs(w, w.g, events(), color, accept, [s], d if given else None)
    equal(roots, [s], "start_vertex events")
    equal(gen.snapshot(w.g), before, "the graph after the search")
    o.nontrivial(len(stats) >= 2 and sum(c == BLACK for c in color.values()) >= 3)
    o.label(case["cls"], *stats)
    # Without visitor, the colours are the same.
    d2 = defaultdict(int, {w.vs[i % len(w.vs)]: c for i, c in case["pre"] if w.vs[i % len(w.vs)] != s})
    kw.pop("vis")
    kw["pmap_vcolor"] = make_assoc_property_map(d2)
    depth_first_search(s, w.g, **kw)
    equal({u: d2[u] for u in w.vs}, color, "colours left by a search without visitor")


@target("C06", "graph", graph_cases({
    "sources": st.one_of(st.none(), st.just([]), st.lists(st.integers(0, 30), min_size=1, max_size=4)),
    "container": st.sampled_from(["list", "set", "iter"]),
    "pre": st.lists(st.tuples(st.integers(0, 30), st.sampled_from([GRAY, BLACK])).map(list), max_size=3),
}, min_n=0), quick=400, rule="as above over sets of sources (absent, empty, repeated) and the whole graph; non-trivial: several "
    "search roots")
def c06_graph(case, o):
    w = World(case["cls"], case["graph"])
    color = {u: WHITE for u in w.vs}
    given = case["given"] or case["pre"]
    if given and w.vs:
        for i, c in case["pre"]:
            color[w.vs[i % len(w.vs)]] = c
    d = defaultdict(int, {u: c for u, c in color.items() if c != WHITE})
    accept = accept_of(case["bits"], case["shift"])
    vis, events = visitor(DefaultDepthFirstSearchVisitor, DFS_EVENTS, case["vis"])
    kw = {"vis": vis}
    sources = case["sources"]
    if sources is None or not w.vs:
        sources = list(w.vs)
        if case["container"] == "list":
            kw["sources"] = None
    else:
        sources = [w.vs[i % len(w.vs)] for i in sources]
        kw["sources"] = {"list": list, "set": set, "iter": iter}[case["container"]](sources)
    if given:
        kw["pmap_vcolor"] = make_assoc_property_map(d)
    if case["bits"] is not None:
        kw["if_push"] = gen.loose(case["graph"], lambda e, g: accept(w.ekey(e)))
    before = gen.snapshot(w.g)
    depth_first_search_graph(w.g, **kw)
    stats, roots = check_dfs(w, w.g, events(), color, accept, sources, d if given else None)
    equal(gen.snapshot(w.g), before, "the graph after the search")
    o.nontrivial(len(roots) >= 2)
    o.label(case["cls"], "sources=%s" % ("None" if case["sources"] is None else "empty" if not case["sources"] else "some"))


def big_shapes(big):
    return st.fixed_dictionaries({
        "cls": st.sampled_from(["D", "U"]), "n": st.integers(200, 1500 if not big else 6000),
        "shape": st.sampled_from(["chain", "cycle", "star", "instar", "ladder", "comb", "broom", "tree", "grid", "formula"]), "s": st.integers(0, 3),
        "rev": st.booleans(),
    })


def big_graph(case):
    n, s = case["n"], case["shape"]
    f = {
        "chain": lambda: [(i, i + 1) for i in range(n - 1)],
        "cycle": lambda: [(i, (i + 1) % n) for i in range(n)],
        "star": lambda: [(0, i) for i in range(n)],
        "instar": lambda: [(i, 0) for i in range(n)],
        "ladder": lambda: [(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n - 1, 2)],
        "comb": lambda: [(i, i + 1) for i in range(n // 2 - 1)] + [(i, n // 2 + i) for i in range(n // 2)],
        "broom": lambda: [(0, i) for i in range(1, n // 3)] + [(i, i + n // 3) for i in range(1, n - n // 3)],
        "tree": lambda: [((i - 1) // (n % 7 + 2), i) for i in range(1, n)],
        "grid": lambda: [(i, i + 1) for i in range(n - 1) if (i + 1) % 15] + [(i, i + 15) for i in range(n - 15)],
        "formula": lambda: [(i, j % n) for i in range(n) for j in (7 * i + 1, 3 * i + 2, i * i)],
    }[s]()
    if case.get("rev"):
        f = [(n - 1 - u, n - 1 - v) for (u, v) in f]
    return {"n": n, "edges": [list(e) for e in f]}


def wide_graph(case):
    """case["graph"] = {"shape", "n", "k"}: a graph of n vertices or so; k: width, number of parallel edges."""
    n, k, shape = (case["graph"][x] for x in ("n", "k", "shape"))
    if shape == "layers":  # 0 -> k vertices -> k vertices ... -> 0 or not
        depth = max(1, n // k)
        at = lambda d, i: 1 + d * k + i
        es = [(0, at(0, i)) for i in range(k)]
        es += [(at(d, i), at(d + 1, j)) for d in range(min(depth, 400 // k + 1)) for i in range(k) for j in {i, (i * i + d) % k, 0}]
        n = max(map(max, es)) + 1
    elif shape == "parallel":  # few vertices, up to k edges between two of them
        n = min(n, 12)
        es = [(u, v) for u in range(n) for v in {(u + 1) % n, u * u % n, n - 1 - u} for _ in range(1 + (k * (u + 1) * (v + 2)) % k + k * (u % 2))]
    elif shape == "fan":  # 0 -> everything -> n - 1
        es = [(0, i) for i in range(1, n - 1)] + [(i, n - 1) for i in range(1, n - 1)] + [(i, i % k + 1) for i in range(k + 1, n - 1)]
    elif shape == "dense":
        n = min(n, 24)
        es = [(u, v) for u in range(n) for v in range(n) if (u * k + v) % 3]
    elif shape == "dag":
        es = [(u, v) for u in range(n) for v in {u + 1, u + 1 + u % k, 2 * u + 1} if u < v < n]
    else:
        es = big_graph(dict(shape=shape, n=n))["edges"]
        n = max([n] + [max(e) + 1 for e in es])
    return {"n": n, "edges": [list(e) for e in es]}


WIDE = ["layers", "parallel", "fan", "dense", "dag", "chain", "cycle", "star", "instar", "ladder", "tree", "grid", "formula"]


def wide(cases, shapes=WIDE, n=600):
    """cases(big) over a graph of wide_graph."""
    @st.composite
    def strategy(draw, big=False):
        case = draw(cases(False))
        case["graph"] = {"shape": draw(st.sampled_from(shapes)), "n": draw(st.integers(10, n * (1 + big))),
                         "k": draw(st.integers(2, 60))}
        return case
    return strategy


@target("C06", "deep", big_shapes, quick=12, rule="chains, cycles, stars, ladders of 200 to 1500 vertices; all count")
def c06_deep(case, o):
    w = World(case["cls"], big_graph(case))
    s = w.vs[{0: 0, 1: len(w.vs) // 2, 2: 1, 3: -1}[case["s"]]]
    vis, events = visitor(DefaultDepthFirstSearchVisitor, DFS_EVENTS, 0)
    color = {u: WHITE for u in w.vs}
    depth_first_search(s, w.g, vis=vis)
    check_dfs(w, w.g, events(), color, lambda k: True, [s], None)
    o.nontrivial()
    o.label(case["shape"])


# ------------------------------------------------------------------------------------------------------------------
# C07
# ------------------------------------------------------------------------------------------------------------------

BFS_EVENTS = ["initialize_vertex", "examine_vertex", "examine_edge", "tree_edge", "discover_vertex", "non_tree_edge",
              "gray_target", "black_target", "finish_vertex"]


def check_bfs(w, g, events, accept, sources, init):
    """Checks the events of a breadth-first search from white vertices."""
    dist = gen.bfs_dist(sources, lambda u: [v for k, v in w.out[u] if accept(k)])
    initialized, discovered, finished, examined = [], [], [], set()
    order = []
    current = None
    pending = None
    stats = set()
    i = 0
    while i < len(events):
        ev = events[i]
        name, x = ev[0], ev[1]
        expect(ev[2] is g, name, "received another graph")
        if name == "initialize_vertex":
            expect(not discovered, "initialize_vertex(%s) after the search started" % x)
            initialized.append(x)
        elif name == "discover_vertex":
            expect(x not in discovered, "vertex %s discovered twice" % x)
            expect(x in dist, "unreachable vertex %s discovered" % x)
            if current is None:
                expect(x in sources, "vertex %s discovered but not a source" % x)
            else:
                expect(pending == x, "discover_vertex(%s) without tree_edge" % x)
                pending = None
            discovered.append(x)
        elif name == "examine_vertex":
            expect(current is None and pending is None, "examine_vertex(%s) before finishing" % x, current)
            expect(x in discovered, "vertex %s examined before being discovered" % x)
            expect(x not in order, "vertex %s examined twice" % x)
            current = x
            order.append(x)
        elif name == "examine_edge":
            k = w.ekey(x)
            expect(pending is None, "discovery of", pending, "missing")
            expect(current is not None and g.source(x) == current, "edge", k, "examined out of turn")
            expect(accept(k), "refused edge", k, "examined")
            expect(k not in examined, "edge", k, "examined twice")
            expect(any(kk == k for kk, _ in w.out[current]), "unknown edge", k)
            examined.add(k)
            v = g.target(x)
            if v not in discovered:
                want = ["tree_edge"]
                expect(dist[v] == dist[current] + 1, "tree edge", k, "is not on a shortest hop path")
                pending = v
            else:
                want = ["non_tree_edge", "black_target" if v in finished else "gray_target"]
            stats |= set(want)
            for name2 in want:
                i += 1
                expect(i < len(events) and events[i][0] == name2 and w.ekey(events[i][1]) == k and events[i][2] is g,
                       "edge", k, "should be reported as", want, "but the next event is", events[i: i + 1])
        elif name == "finish_vertex":
            expect(current == x and pending is None, "finish_vertex(%s) while examining" % x, current)
            left = [k for k, _ in w.out[x] if accept(k) and k not in examined]
            expect(not left, "vertex %s finished before examining" % x, left)
            finished.append(x)
            current = None
        else:
            expect(False, "event", name, "on", x, "without examine_edge")
        i += 1
    expect(current is None and pending is None, "search stopped before the end")
    equal(sorted(finished), sorted(dist), "vertices visited")
    equal([dist[u] for u in order], sorted(dist[u] for u in order), "distances of the examined vertices")
    equal([dist[u] for u in discovered], sorted(dist[u] for u in discovered), "distances of the discovered vertices")
    if init:
        equal(sorted(initialized), sorted(w.vs), "initialised vertices")
    return dist, stats


@target("C07", "single", graph_cases({
    "s": st.integers(0, 30), "stale": st.lists(st.tuples(st.integers(0, 30), st.sampled_from([GRAY, BLACK])).map(list), max_size=4),
}), quick=500, rule="graph of five classes, source, stale colours, edge predicate; the whole event history is checked; "
    "non-trivial: a vertex at distance two and a non-tree edge")
def c07_single(case, o):
    w = World(case["cls"], case["graph"])
    s = w.vs[case["s"] % len(w.vs)]
    accept = accept_of(case["bits"], case["shift"])
    d = defaultdict(int, {w.vs[i % len(w.vs)]: c for i, c in case["stale"]})
    given = case["given"] or case["stale"]
    vis, events = visitor(DefaultBreadthFirstSearchVisitor, BFS_EVENTS, case["vis"])
    kw = {"vis": vis}
    if given:
        kw["pmap_vcolor"] = make_assoc_property_map(d)
    if case["bits"] is not None:
        kw["if_push"] = gen.loose(case["graph"], lambda e, g: accept(w.ekey(e)))
    before = gen.snapshot(w.g)
    breadth_first_search(s, w.g, **kw)
    dist, stats = check_bfs(w, w.g, events(), accept, [s], True)
    if given:
        for u in w.vs:
            equal(d[u], BLACK if u in dist else WHITE, "final colour of %s" % u)
    equal(gen.snapshot(w.g), before, "the graph after the search")
    o.nontrivial(max(dist.values()) >= 2 and "non_tree_edge" in stats)
    o.label(case["cls"], *stats)
    d2 = defaultdict(int, {w.vs[i % len(w.vs)]: c for i, c in case["stale"]})
    kw.pop("vis")
    kw["pmap_vcolor"] = make_assoc_property_map(d2)
    breadth_first_search(s, w.g, **kw)
    equal({u: d2[u] for u in w.vs}, {u: BLACK if u in dist else WHITE for u in w.vs}, "colours without visitor")


@target("C07", "graph", graph_cases({
    "sources": st.one_of(st.none(), st.just([]), st.lists(st.integers(0, 30), min_size=1, max_size=4)),
    "container": st.sampled_from(["list", "set", "iter"]),
}, min_n=0), quick=400, rule="as above with a set of sources (absent, empty or several); non-trivial: several sources")
def c07_graph(case, o):
    w = World(case["cls"], case["graph"])
    accept = accept_of(case["bits"], case["shift"])
    d = defaultdict(int)
    vis, events = visitor(DefaultBreadthFirstSearchVisitor, BFS_EVENTS, case["vis"])
    kw = {"vis": vis}
    sources = case["sources"]
    if sources is None or not w.vs:
        sources = list(w.vs)
        if case["container"] == "list":
            kw["sources"] = None
    else:
        sources = sorted({w.vs[i % len(w.vs)] for i in sources})
        kw["sources"] = {"list": list, "set": set, "iter": iter}[case["container"]](sources)
    if case["given"]:
        kw["pmap_vcolor"] = make_assoc_property_map(d)
    if case["bits"] is not None:
        kw["if_push"] = gen.loose(case["graph"], lambda e, g: accept(w.ekey(e)))
    before = gen.snapshot(w.g)
    breadth_first_search_graph(w.g, **kw)
    dist, stats = check_bfs(w, w.g, events(), accept, sources, False)
    if case["given"]:
        for u in w.vs:
            equal(d[u], BLACK if u in dist else WHITE, "final colour of %s" % u)
    equal(gen.snapshot(w.g), before, "the graph after the search")
    kw.pop("vis")
    kw["pmap_vcolor"] = make_assoc_property_map(defaultdict(int))
    if "sources" in kw and kw["sources"] is not None:
        kw["sources"] = list(sources)
    breadth_first_search_graph(w.g, **kw)
    equal({u: kw["pmap_vcolor"][u] for u in w.vs}, {u: BLACK if u in dist else WHITE for u in w.vs}, "colours without visitor")
    o.nontrivial(len(sources) >= 2)
    o.label("sources=%s" % ("None" if case["sources"] is None else "empty" if not case["sources"] else "some"))


@target("C07", "deep", big_shapes, quick=20, rule="chains, cycles, stars, ladders of 200 to 1500 vertices; all count")
def c07_deep(case, o):
    w = World(case["cls"], big_graph(case))
    s = w.vs[{0: 0, 1: len(w.vs) // 2, 2: 1, 3: -1}[case["s"]]]
    order = []
    seen = {}
    vis = DefaultBreadthFirstSearchVisitor()
    vis.examine_vertex = lambda u, g: order.append(u)
    dist = gen.bfs_dist([s], lambda u: [v for _, v in w.out[u]])

    def tree(e, g):
        v = g.target(e)
        expect(v not in seen, "vertex %s reached twice" % v)
        seen[v] = g.source(e)
        equal(dist[v], dist[g.source(e)] + 1, "tree edge to %s" % v)
    vis.tree_edge = tree
    breadth_first_search(s, w.g, vis=vis)
    equal(sorted(order), sorted(dist), "vertices visited")
    equal([dist[u] for u in order], sorted(dist.values()), "order of visit")
    equal(set(seen) | {s}, set(dist), "vertices reached by tree edges")
    o.nontrivial()
    o.label(case["shape"])


# ------------------------------------------------------------------------------------------------------------------
# C26
# ------------------------------------------------------------------------------------------------------------------

PBFS_EVENTS = ["start_vertex", "examine_vertex", "discover_vertex", "finish_vertex", "examine_symbol", "examine_edge",
               "tree_edge", "gray_target", "black_target"]

SYMS = ["a", "b", "c", 0, ""]


@st.composite
def small_dfa(draw, big=False, max_n=5):
    n = draw(st.integers(1, max_n * (2 if big else 1)))
    k = draw(st.integers(1, len(SYMS)))
    cells = draw(st.lists(st.one_of(st.none(), st.integers(0, n - 1), st.integers(0, n - 1)), min_size=n * k, max_size=n * k))
    return {"n": n, "k": k, "t": cells, "q0": draw(st.integers(0, n - 1)), "fin": draw(st.lists(st.integers(0, n - 1), max_size=n)),
            "cls": draw(st.sampled_from(["A", "IA"]))}


def build_dfa(c):
    g = CLASSES[c["cls"]](c["n"])
    trans = {q: {} for q in range(c["n"])}
    for i, r in enumerate(c["t"]):
        if r is not None:
            q, a = i // c["k"], SYMS[i % c["k"]] if i % c["k"] < len(SYMS) else "s%d" % (i % c["k"])
            g.add_edge(q, r, a)
            trans[q][a] = r
    g.set_initial(c["q0"])
    for q in c["fin"]:
        g.set_final(q)
    return g, trans


@st.composite
def pbfs_cases(draw, big=False):
    state = st.one_of(st.integers(0, 9), st.integers(0, 9), st.none())
    return {
        "g1": draw(small_dfa(big)), "g2": draw(small_dfa(big)), "same": draw(st.sampled_from([0, 0, 0, 0, 1])),
        "pairs": draw(st.one_of(st.none(), st.none(), st.lists(st.tuples(state, state).map(list), max_size=4))),
        "bits": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from([1, 1, 0]), min_size=2, max_size=7))),
        "given": draw(st.booleans()), "vis": draw(st.sampled_from([0, 0, 1, 2])),
    }


@target("C26", "pairs", pbfs_cases, quick=700,
        rule="two deterministic automata (possibly the same object), starting pairs with BOTTOM, predicate on target pairs; "
             "non-trivial: at least four pairs examined and a non-tree edge pair")
def c26_pairs(case, o):
    g1, t1 = build_dfa(case["g1"])
    g2, t2 = (g1, t1) if case["same"] else build_dfa(case["g2"])
    n1, n2 = len(t1), len(t2)
    bits = case["bits"]

    def acc(p):
        return bits is None or bool(bits[((p[0] if p[0] is not None else 3) * 2 + (p[1] if p[1] is not None else 5)) % len(bits)])
    kw = {}
    if case["pairs"] is None:
        starts = [(g1.initial(), g2.initial())]
    else:
        starts = []
        for (a, b) in case["pairs"]:
            p = (None if a is None else a % n1, None if b is None else b % n2)
            if p not in starts and p != (None, None):
                starts.append(p)
        kw["source_pairs"] = list(starts)
    if bits is not None:
        def if_push(e1, h1, e2, h2):
            expect(h1 is g1 and h2 is g2, "if_push received other automata")
            return acc((None if e1 is None else g1.target(e1), None if e2 is None else g2.target(e2)))
        kw["if_push"] = gen.loose(len(bits), if_push)
    colors = defaultdict(int)
    if case["given"]:
        kw["pmap_vcolor"] = make_assoc_property_map(colors)
    vis, events = visitor(ParallelBreadthFirstSearchVisitor, PBFS_EVENTS, case["vis"])
    snap = (gen.snapshot(g1), gen.snapshot(g2))
    parallel_breadth_first_search(g1, g2, vis=vis, **kw)
    equal((gen.snapshot(g1), gen.snapshot(g2)), snap, "the automata after the search")
    events = events()

    def succ(p):
        q1, q2 = p
        s = {}
        for a in set(t1.get(q1, {})) | set(t2.get(q2, {})):
            s[a] = (t1.get(q1, {}).get(a), t2.get(q2, {}).get(a))
        return s
    dist = gen.bfs_dist(starts, lambda p: [r for r in succ(p).values() if acc(r)])
    discovered, finished, order, started, examined = set(starts), set(), [], [], set()
    current = None
    todo = {}
    stats = set()
    i = 0
    while i < len(events):
        ev = events[i]
        name = ev[0]
        if name in ("start_vertex", "examine_vertex", "discover_vertex", "finish_vertex"):
            expect(len(ev) == 5 and ev[2] is g1 and ev[4] is g2, name, "received the wrong automata")
            p = (ev[1], ev[3])
        if name == "start_vertex":
            expect(not order, "start_vertex after the search began")
            started.append(p)
        elif name == "examine_vertex":
            expect(current is None, "examine_vertex", p, "before finishing", current)
            expect(p in dist, "pair", p, "examined but not reachable")
            expect(p not in examined, "pair", p, "examined twice")
            order.append(p)
            examined.add(p)
            current = p
            todo = dict(succ(p))
        elif name == "finish_vertex":
            expect(current == p, "finish_vertex", p, "while examining", current)
            expect(not todo, "pair", p, "finished before examining", todo)
            finished.add(p)
            current = None
        elif name == "examine_symbol":
            expect(ev[1:5:2] == current and ev[2] is g1 and ev[4] is g2, "examine_symbol", ev)
            expect(ev[5] in todo, "symbol", ev[5], "examined twice or not leaving", current)
            expect(i + 1 < len(events) and events[i + 1][0] == "examine_edge" and events[i + 1][5] == ev[5],
                   "examine_symbol not followed by examine_edge")
        elif name == "examine_edge":
            e1, h1, e2, h2, a = ev[1:]
            expect(current is not None and a in todo, "edge pair of", a, "examined twice or out of turn")
            expect(events[i - 1][0] == "examine_symbol", "examine_edge without examine_symbol")
            expect(h1 is g1 and h2 is g2, "examine_edge received the wrong automata")
            r = todo.pop(a)
            for e, h, q, rr in ((e1, g1, current[0], r[0]), (e2, g2, current[1], r[1])):
                if q is None:
                    expect(e is None, "edge", e, "for the BOTTOM source")
                else:
                    expect(e is not None and (h.source(e), h.target(e), h.label(e)) == (q, rr, a),
                           "edge", e, "instead of", (q, rr, a))
            want = "tree_edge" if r not in discovered else "black_target" if r in finished else "gray_target"
            stats.add(want)
            i += 1
            expect(i < len(events) and events[i][0] == want, "edge pair to", r, "should be reported as", want,
                   "but the next event is", events[i: i + 1])
            ev2 = events[i]
            expect(ev2[1] == e1 and ev2[2] is g1 and ev2[3] == e2 and ev2[4] is g2 and ev2[5] == a, want, "arguments", ev2)
            if want == "tree_edge":
                i += 1
                expect(i < len(events) and events[i][0] == "discover_vertex" and (events[i][1], events[i][3]) == r
                       and events[i][2] is g1 and events[i][4] is g2, "tree edge to", r, "not followed by its discovery")
                discovered.add(r)
        else:
            expect(False, "event", ev, "out of turn")
        i += 1
    expect(current is None, "search stopped before the end")
    equal(started, starts, "start_vertex events")
    equal(set(order), set(dist), "pairs examined")
    equal(finished, set(dist), "pairs finished")
    equal([dist[p] for p in order], sorted(dist.values()), "distances of the examined pairs")
    if case["given"]:
        equal({p: c for p, c in colors.items() if c != WHITE}, {p: BLACK if p in finished else GRAY for p in discovered},
              "colors of the pairs, in the map given")
    again = defaultdict(int)
    kw["pmap_vcolor"] = make_assoc_property_map(again)
    parallel_breadth_first_search(g1, g2, **kw)
    equal({p: c for p, c in again.items() if c != WHITE}, {p: BLACK if p in finished else GRAY for p in discovered}, "colors without visitor")
    o.nontrivial(len(order) >= 4 and stats & {"gray_target", "black_target"})
    o.label(*stats)
    if any(None in p for p in order):
        o.label("BOTTOM")


@st.composite
def wide_dfa(draw, big=False):
    return {"n": draw(st.integers(1, 40 if not big else 80)), "k": draw(st.integers(1, 40)), "mul": draw(st.integers(1, 60)),
            "miss": draw(st.integers(2, 9)), "fin": [], "q0": draw(st.integers(0, 39)), "cls": draw(st.sampled_from(["A", "IA"]))}


def wide_cases(big):
    return st.fixed_dictionaries({
        "g1": wide_dfa(big), "g2": wide_dfa(big), "same": st.sampled_from([0, 0, 0, 1]), "pairs": st.none(),
        "bits": st.one_of(st.none(), st.none(), st.lists(st.sampled_from([1, 1, 0]), min_size=2, max_size=7)),
        "given": st.booleans(), "vis": st.sampled_from([0, 0, 1]),
    })


@target("C26", "wide", wide_cases, quick=40, rule="automata of up to 40 states and 40 symbols given by a formula, so that many "
        "pairs wait; non-trivial: at least 30 pairs examined")
def c26_wide(case, o):
    case = dict(case)
    for g in ("g1", "g2"):
        c = dict(case[g])
        n, k = c["n"], c["k"]
        c["q0"] %= n
        c["t"] = [None if (q * 5 + i * 3) % c["miss"] == 0 else (q * c["mul"] + i * i + i) % n for q in range(n) for i in range(k)]
        case[g] = c
    c26_pairs(case, o)


@st.composite
def aggregated(draw, big=False):
    names = st.sampled_from(["f", "g_h", "examine_edge", "initialize_vertex", "start_vertex", "x1"])
    val = st.one_of(st.none(), st.integers(-3, 3), st.text(max_size=3), st.booleans())
    return {
        "n": draw(st.integers(0, 5)), "none": draw(st.booleans()),
        "calls": draw(st.lists(st.tuples(
            names, st.lists(val, max_size=4), st.dictionaries(st.sampled_from(["a", "b", "key", "g"]), val, max_size=3),
        ).map(list), max_size=8)),
        "add": draw(st.booleans()),
    }


@target("C26", "aggregated", aggregated, quick=300, rule="arbitrary event names, positional and keyword arguments sent to an "
        "AggregatedVisitor; non-trivial: at least two visitors and a call with arguments")
def c26_aggregated(case, o):
    log = []

    class V:
        def __init__(self, i):
            self.i = i

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: log.append((self.i, name, a, k))
    vs = [V(i) for i in range(case["n"])]
    agg = AggregatedVisitor() if case["none"] and not vs else AggregatedVisitor(list(vs))
    for name, args, kwargs in case["calls"]:
        del log[:]
        getattr(agg, name)(*args, **kwargs)
        equal(log, [(i, name, tuple(args), kwargs) for i in range(len(vs))], "events forwarded")
    classes = [type("V%d" % i, (V,), {}) for i in range(3)]
    if case["add"]:         # classes of the same name in three others
        classes = [type("V", (V,), {"__qualname__": "Outer%d.V" % i}) for i in range(3)]
    vs = [classes[i % 3](i) for i in range(case["n"])]
    agg = AggregatedVisitor(vs)
    found = {AggregatedVisitor.type_to_key(v): v for v in reversed(vs)}
    equal(len(found), min(3, len(vs)), "distinct keys of visitors of distinct types")
    equal(set(agg.keys()), set(found), "keys()")
    for key, v in found.items():
        expect(agg.get(key) is v, "get(%r) is not the first visitor of that type" % key)
    for key in ["no such key"] + [k for x in found for k in (x[1:], x[:-1], x.rpartition(".")[2], x + "x") if k not in found]:
        equal((agg.get(key), agg.get(key, 3), repr(agg.get(key, 0)), agg.get(key, "")), (None, 3, "0", ""), "get of a missing key %r" % key)
    if vs:              # the same visitor twice
        agg = AggregatedVisitor(vs + vs[::-1])
        del log[:]
        agg.examine_edge(1)
        equal([x[0] for x in log], list(range(len(vs))) + list(range(len(vs)))[::-1], "visitors called")
    o.nontrivial(len(vs) >= 2 and any(c[1] or c[2] for c in case["calls"]))


# ------------------------------------------------------------------------------------------------------------------
# C29
# ------------------------------------------------------------------------------------------------------------------

TREE_EVENTS = ["start_vertex", "discover_vertex", "examine_edge", "finish_vertex"]


@st.composite
def trees(draw, big=False):
    n = draw(st.one_of(st.integers(1, 9), st.integers(1, 60 if big else 30)))
    shape = draw(st.sampled_from(["random", "random", "chain", "star", "caterpillar", "binary"]))
    parents = draw(st.lists(st.integers(0, 60), min_size=n - 1, max_size=n - 1))
    return {
        "n": n, "shape": shape, "parents": parents, "perm": draw(st.permutations(range(n))),
        "cls": draw(st.sampled_from(["D", "I", "A", "T", "view"])), "s": draw(st.one_of(st.just(0), st.integers(0, 30))),
        "algo": draw(st.sampled_from(["dfs", "bfs"])), "vis": draw(st.sampled_from([0, 0, 1, 2])),
        "extra": draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60)).map(list), max_size=6)),
        "scale": draw(st.sampled_from([1] * 20 + [40])),
    }


def tree_parents(case):
    n = case["n"] * case["scale"]
    ps = case["parents"] or [0]
    f = {
        "random": lambda i: ps[(i - 1) % len(ps)] % i, "chain": lambda i: i - 1, "star": lambda i: 0,
        "caterpillar": lambda i: (i - 1) // 2 * 2 if i > 1 else 0, "binary": lambda i: (i - 1) // 2,
    }[case["shape"]]
    return n, {i: f(i) for i in range(1, n)}


@target("C29", "trees", trees, quick=700, rule="rooted trees of five shapes in five kinds of graphs (view of a graph with "
        "hidden edges included), start vertex anywhere; non-trivial: the visited subtree has at least four vertices and a "
        "vertex with two children")
def c29_trees(case, o):
    n, parent = tree_parents(case)
    perm = case["perm"] if case["scale"] == 1 else list(range(n))
    kids = {u: [] for u in range(n)}
    cls = case["cls"]
    edges = [(perm[p], perm[i]) for i, p in parent.items()]
    for (p, q) in edges:
        kids[p].append(q)
    hidden = set()
    if cls == "T":      # a Trie: edges in the order of a breadth-first search, so that prefixes exist
        g = Trie()
        perm = list(range(n))
        kids = {u: [] for u in range(n)}
        ident = {0: g.initial() if g.num_vertices() else g.add_vertex()}
        count = defaultdict(int)
        for i in range(1, n):
            ident[i] = g.add_vertex()
        for i, p in parent.items():
            g.add_edge(ident[p], ident[i], chr(97 + count[p]))
            count[p] += 1
        kids = {ident[u]: [] for u in range(n)}
        for i, p in parent.items():
            kids[ident[p]].append(ident[i])
        root = ident[0]
    elif cls == "A":
        g = Automaton(n)
        for j, (p, q) in enumerate(edges):
            g.add_edge(p, q, j)
        root = perm[0]
    else:
        g = {"D": DirectedGraph, "I": IncidenceGraph, "view": DirectedGraph}[cls](n)
        for (p, q) in edges:
            g.add_edge(p, q)
        root = perm[0]
        if cls == "view":
            base = g
            for (a, b) in case["extra"]:
                e, _ = base.add_edge(a % n, b % n)
                hidden.add(e)
            x = base.add_vertex()
            e, _ = base.add_edge(x, root)
            e, _ = base.add_edge(root, x)
            g = GraphView(base, make_func_property_map(lambda u: u != x), make_func_property_map(lambda e: e not in hidden))
    allv = sorted(kids)
    s = root if case["s"] == 0 else allv[case["s"] % len(allv)]
    sub = gen.reach([s], lambda u: kids[u])
    depth = gen.bfs_dist([s], lambda u: kids[u])
    vis, events = visitor(DefaultTreeTraversalVisitor, TREE_EVENTS, case["vis"])
    before = gen.snapshot(g)
    (dfs_tree if case["algo"] == "dfs" else bfs_tree)(s, g, vis)
    if case["vis"] == 0:
        equal((dfs_tree if case["algo"] == "dfs" else bfs_tree)(s, g), None, "call without visitor")
        evs = events()
    else:
        evs = events()
    equal(gen.snapshot(g), before, "the tree after the traversal")
    order, finished, examined = [], [], defaultdict(list)
    starts = 0
    for ev in evs:
        name, x = ev[0], ev[1]
        expect(ev[2] is g, name, "received another graph")
        if name == "start_vertex":
            expect(x == s and not order, "start_vertex(%s)" % x)
            starts += 1
        elif name == "discover_vertex":
            expect(x not in order, "vertex %s discovered twice" % x)
            order.append(x)
        elif name == "examine_edge":
            u = g.source(x)
            expect(u in order and u not in finished, "edge", x, "examined outside the visit of its source")
            examined[u].append(g.target(x))
        else:
            expect(x in order and x not in finished, "finish_vertex(%s)" % x)
            equal(sorted(examined[x]), sorted(kids[x]), "edges examined when vertex %s is finished" % x)
            finished.append(x)
    equal(starts, 1, "start_vertex events")
    equal(sorted(order), sorted(sub), "vertices visited")
    equal(sorted(finished), sorted(sub), "vertices finished")
    pos = {u: i for i, u in enumerate(order)}
    for u in sub:
        for v in kids[u]:
            expect(pos[u] < pos[v], "child %s before its parent %s" % (v, u))
    if case["algo"] == "bfs":
        equal([depth[u] for u in order], sorted(depth.values()), "depths in order of visit")
    else:
        size = {}
        for u in sorted(sub, key=lambda u: -depth[u]):
            size[u] = 1 + sum(size[v] for v in kids[u])
        for u in sub:   # each subtree is visited contiguously
            last = max(pos[v] for v in gen.reach([u], lambda x: kids[x])) if len(sub) < 60 else pos[u] + size[u] - 1
            equal(last - pos[u] + 1, size[u], "span of the visit of the subtree of %s" % u)
        if len(sub) >= 60:   # contiguity for large trees: interval of each child nested in that of its parent
            for u in sub:
                for v in kids[u]:
                    expect(pos[u] < pos[v] and pos[v] + size[v] <= pos[u] + size[u], "subtree of %s not contiguous" % u)
    o.nontrivial(len(sub) >= 4 and any(len(kids[u]) >= 2 for u in sub))
    o.label(case["algo"], cls)
