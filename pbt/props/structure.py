"""C09: strong components, topological sort; C10: extraction and copy; C11: reverse, prune; C12: cut."""
from collections import defaultdict, deque
from hypothesis import strategies as st
from pbt import dotparse, gen
from pbt.core import target, expect, equal
from pbt.props.automata import Dfa, check_dfa, srt, SYMS
from pbt.props.search import (
    BFS_EVENTS, DFS_EVENTS, World, accept_of, big_graph, big_shapes, check_bfs, check_dfs, visitor, wide, wide_graph,
)
from pybgl import (
    WHITE, Automaton, DefaultBreadthFirstSearchVisitor, DefaultDepthFirstSearchVisitor, DirectedGraph, GraphView,
    IncidenceAutomaton, IncidenceGraph, UndirectedGraph, breadth_first_search_graph, cut,
    depth_first_search_graph, dijkstra_shortest_paths, make_assoc_property_map,
    make_func_property_map, prune_incidence_automaton, reverse_graph, strong_components, topological_sort,
)
from pybgl.strong_components import TarjanVisitor
from pybgl.topological_sort import TopologicalSortVisitor
from pybgl.automaton_copy import automaton_copy
from pybgl.dijkstra_shortest_paths import INFINITY
from pybgl.graph_copy import graph_copy
from pybgl.graph_extract import graph_extract
from pybgl.prune_incidence_automaton import find_reachable_vertices


# ------------------------------------------------------------------------------------------------------------------
# C09
# ------------------------------------------------------------------------------------------------------------------

def sccs(vs, out):
    """Strong components (Kosaraju): {vertex: representative}."""
    order, seen = [], set()
    for s in vs:
        if s in seen:
            continue
        seen.add(s)
        stack = [(s, iter(out[s]))]
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(out[v])))
                    break
            else:
                order.append(u)
                stack.pop()
    rev = defaultdict(list)
    for u in vs:
        for v in out[u]:
            rev[v].append(u)
    comp = {}
    for s in reversed(order):
        if s not in comp:
            comp[s] = s
            todo = [s]
            while todo:
                u = todo.pop()
                for v in rev[u]:
                    if v not in comp:
                        comp[v] = s
                        todo.append(v)
    return comp


def check_components(g, vs, out, d=None):
    """out: {u: [v]}; d: what the map of the components holds."""
    comp = sccs(vs, out)
    d = defaultdict(int) if d is None else d
    n = strong_components(g, make_assoc_property_map(d))
    equal(n, len(set(comp.values())), "number of strong components")
    equal(set(d), set(vs), "vertices with a component")
    equal(set(d.values()), set(range(n)), "component numbers")
    number = {}
    for u in vs:
        equal(number.setdefault(comp[u], d[u]), d[u], "component of %s, in the same strong component as %s" % (u, comp[u]))
    equal(len(set(number.values())), n, "distinct component numbers")
    for u in vs:
        for v in out[u]:
            if comp[u] != comp[v]:
                expect(d[u] > d[v], "edge", (u, v), "goes from component", d[u], "to", d[v])
    return comp


def check_topological(g, vs, out, comp, given):
    cyclic = len(set(comp.values())) < len(vs) or any(u in out[u] for u in vs)
    stack = deque(given, maxlen=(None, 10 ** 6)[len(vs) % 2]) if given is not None else None
    try:
        got = topological_sort(g, stack) if given is not None else topological_sort(g)
    except RuntimeError:
        expect(cyclic, "topological_sort refuses an acyclic graph")
        return True
    expect(not cyclic, "topological_sort accepts a graph with a cycle")
    expect(isinstance(got, deque), "topological_sort returns", type(got).__name__)
    if given is not None:
        expect(got is stack, "topological_sort does not extend the deque it is given")
        equal(list(got)[len(vs):], list(given), "what the deque held")
    order = list(got)[:len(vs)]
    equal(sorted(got) if given is None else sorted(order), sorted(vs), "vertices in the topological order")
    pos = {u: i for i, u in enumerate(order)}
    for u in vs:
        for v in out[u]:
            expect(pos[u] < pos[v], "edge", (u, v), "goes backward in", order)
    return False


def check_visitors(g, vs, out, picks, incremental):
    """TarjanVisitor and TopologicalSortVisitor given to searches from some of the vertices."""
    sources = []
    for i in picks:
        s = vs[i % len(vs)]
        if s not in sources:
            sources.append(s)
    reached = [u for u in vs if u in gen.reach(sources, lambda u: out[u])]
    comp = sccs(reached, out)
    component, root, time, stack = defaultdict(int), defaultdict(int), defaultdict(int), deque()
    vis = TarjanVisitor(*map(make_assoc_property_map, (component, root, time)), stack)
    order = deque()
    tvis = TopologicalSortVisitor(order)
    colors, tcolors, cyclic = defaultdict(int), defaultdict(int), False
    for i, part in enumerate([[s] for s in sources] if incremental else [sources]):
        depth_first_search_graph(g, part, make_assoc_property_map(colors), vis)
        equal(len(stack), 0, "vertices that wait for a component after a search")
        if not cyclic:
            try:
                depth_first_search_graph(g, part, make_assoc_property_map(tcolors), tvis)
            except RuntimeError:
                cyclic = True
    n = len(set(comp.values()))
    equal((vis.total, set(component), set(root)), (n, set(reached), set(reached)), "TarjanVisitor: number of components, vertices")
    equal(len(set(time.values())), len(reached), "TarjanVisitor: times of discovery")
    first = {}
    for u in sorted(reached, key=time.get):
        first.setdefault(comp[u], u)
    number = {}
    for u in reached:
        equal(root[u], first[comp[u]], "TarjanVisitor: root of %s" % u)
        equal(number.setdefault(comp[u], component[u]), component[u], "TarjanVisitor: component of %s" % u)
        for v in out[u]:
            expect(comp[u] == comp[v] or component[u] > component[v], "TarjanVisitor: edge", (u, v), "to component", component[v])
    equal(sorted(number.values()), list(range(n)), "TarjanVisitor: component numbers")
    equal(cyclic, n < len(reached) or any(u in out[u] for u in reached), "TopologicalSortVisitor raises")
    if not cyclic:
        equal(sorted(order), sorted(reached), "vertices sorted by TopologicalSortVisitor")
        pos = {u: i for i, u in enumerate(order)}
        for u in reached:
            for v in out[u]:
                expect(pos[u] < pos[v], "edge", (u, v), "goes backward in", order)


@st.composite
def digraphs(draw, big=False):
    dag = draw(st.booleans())
    return {
        "graph": draw(gen.graphs(big, min_n=0, max_n=9, large_n=26, dag=dag, density=4)),
        "cls": draw(st.sampled_from(["D", "D", "I", "A", "IA", "F"])),
        "given": draw(st.sampled_from([None, None, [], [100, 101]])),
        "view": draw(st.sampled_from([None, None, None, [1, 1, 0], [1, 0, 1, 1, 1]])),
        "again": draw(st.booleans()),
        "picks": draw(st.lists(st.integers(0, 30), max_size=3)), "inc": draw(st.booleans()),
    }


def c09_graph(case):
    w = World(case["cls"], case["graph"])
    g, vs, out = w.g, w.vs, {u: [v for _, v in es] for u, es in w.out.items()}
    if case.get("view"):
        bits = case["view"]
        vs = [u for u in vs if bits[u % len(bits)]]
        keep = set(vs)
        g = GraphView(w.g, pmap_vrelevant=make_func_property_map(gen.loose(len(keep), lambda u: u in keep)))
        out = {u: [v for v in out[u] if v in keep] for u in vs}
    return g, vs, out


@target("C09", "random", digraphs, quick=600, rule="directed graph of four classes or a view (acyclic or not, loops, parallel "
        "edges, removed vertices); components against Kosaraju's algorithm, topological order checked edge by edge; "
        "non-trivial: a component of two vertices beside another one, or an acyclic graph with three edges")
def c09_random(case, o):
    g, vs, out = c09_graph(case)
    before = gen.snapshot(g)
    comp = check_components(g, vs, out)
    cyclic = check_topological(g, vs, out, comp, case["given"])
    if vs:
        check_visitors(g, vs, out, case["picks"], case["inc"])
    if case["again"]:
        check_components(g, vs, out, defaultdict(int, {u: (u * u) % 3 for u in vs}))
        equal(check_topological(g, vs, out, comp, None), cyclic, "second topological_sort")
    equal(gen.snapshot(g), before, "the graph afterwards")
    n = len(set(comp.values()))
    o.label("cyclic" if cyclic else "acyclic", "components=%s" % (n if n < 4 else "4+"))
    o.nontrivial(1 < n < len(vs) or (not cyclic and sum(map(len, out.values())) >= 3))


@target("C09", "deep", big_shapes, quick=5, rule="chains, cycles, stars, ladders of 200 to 1500 vertices; all count")
def c09_deep(case, o):
    w = World("D", big_graph(case))
    out = {u: [v for _, v in es] for u, es in w.out.items()}
    comp = check_components(w.g, w.vs, out)
    check_topological(w.g, w.vs, out, comp, None)
    o.nontrivial()
    o.label(case["shape"])


def small_digraphs(big):
    """All digraphs (with loops) over at most 3 (thorough: 4) vertices; edges added in increasing order, or decreasing."""
    for n in range(1, 5 if big else 4):
        pairs = [[u, v] for u in range(n) for v in range(n)]
        for bits in range(1 << (n * n)):
            edges = [p for i, p in enumerate(pairs) if bits >> i & 1]
            yield {"graph": {"n": n, "edges": edges if bits % 2 else edges[::-1]}, "cls": "D", "given": None}


@target("C09", "small", enum=small_digraphs, rule="every digraph with loops on at most 3 (thorough: 4) vertices; "
        "non-trivial: at least two edges")
def c09_small(case, o):
    g, vs, out = c09_graph(case)
    comp = check_components(g, vs, out)
    check_topological(g, vs, out, comp, None)
    o.nontrivial(len(case["graph"]["edges"]) >= 2)


# ------------------------------------------------------------------------------------------------------------------
# C10
# ------------------------------------------------------------------------------------------------------------------

def isomorphic(directed, es1, es2):
    import networkx as nx
    from networkx.algorithms.isomorphism import categorical_multiedge_match
    gs = []
    for es in (es1, es2):
        h = nx.MultiDiGraph() if directed else nx.MultiGraph()
        for u, v, a in es:
            h.add_edge(u, v, label=repr(a))
        gs.append(h)
    return nx.is_isomorphic(*gs, edge_match=categorical_multiedge_match("label", None))


@st.composite
def copies(draw, big=False):
    return {
        "graph": draw(gen.graphs(big, min_n=1, max_n=8, large_n=20, density=4)),
        "cls": draw(st.sampled_from(["D", "D", "I", "U", "U", "A", "IA"])),
        "dup": draw(st.sampled_from(["same", "other"])),
        "s": draw(st.integers(0, 30)),
        "vbits": draw(st.one_of(st.none(), st.lists(st.sampled_from([1, 1, 1, 0]), min_size=2, max_size=9))),
        "ebits": draw(st.one_of(st.none(), st.lists(st.sampled_from([1, 1, 1, 0]), min_size=2, max_size=9))),
        "pre": draw(st.one_of(st.just([0, []]), st.tuples(
            st.integers(1, 4), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), max_size=5)
        ).map(list))),
        "gap": draw(st.booleans()),
        "opts": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
        "view": draw(st.sampled_from([None, None, None, [1, 1, 0], [1, 0, 1, 1]])),
        "labels": draw(st.booleans()),
        "src": draw(st.booleans()),
        "times": draw(st.sampled_from([1, 1, 2])),
    }


class Part:
    """The relevant reachable part of a graph, and the keyword arguments that designate it."""
    def __init__(self, case):
        self.w = w = World(case["cls"], case["graph"])
        self.g, vs, out = w.g, w.vs, w.out
        if case["labels"] and case["cls"] in ("A", "IA"):  # various symbols
            self.relabel(case)
            out = w.out
        if case["view"]:
            bits = case["view"]
            keep = {u for u in vs if bits[u % len(bits)]} or set(vs[:1])
            self.g = GraphView(w.g, pmap_vrelevant=make_func_property_map(gen.loose(len(keep), lambda u: u in keep)))
            vs = sorted(keep)
            out = {u: [(k, v) for k, v in out[u] if v in keep] for u in vs}
        self.s = s = vs[case["s"] % len(vs)]
        self.kw = {}
        vok = eok = lambda x: True
        if case["vbits"]:
            # The source may be irrelevant, provided that no edge of the part leads back to it
            bit = lambda u: bool(case["vbits"][u % len(case["vbits"])])
            part = gen.reach([s], lambda u: [v for k, v in out[u] if bit(v) or v == s])
            if case["src"] and not any(v == s for u in part for k, v in out[u]):
                vok = lambda u: u != s and bit(u)
            else:
                vok = lambda u: u == s or bit(u)
            self.kw["pmap_vrelevant"] = make_func_property_map(gen.loose(len(case["vbits"]), vok))
        if case["ebits"]:
            eok = lambda k: bool(case["ebits"][sum(map(ord, k)) % len(case["ebits"])])
            self.kw["pmap_erelevant"] = make_func_property_map(gen.loose(len(case["ebits"]), lambda e: eok(str(gen.ekey(self.g, e)))))
        self.str_ekey = {}
        for (e, u, v) in w.es:
            k = str(gen.ekey(w.g, e))
            self.str_ekey[w.key(u, v, e)] = k
            if not w.g.directed:
                self.str_ekey[w.key(v, u, e)] = k
        ok = lambda k, v: eok(self.str_ekey[k]) and vok(v)
        self.vs = gen.reach([s], lambda u: [v for k, v in out[u] if ok(k, v)])
        self.edges = [(k, u, v) for u in self.vs for k, v in out[u] if ok(k, v)]

    def relabel(self, case):
        w = self.w
        es = []
        for e, u, v in w.es:
            w.g.remove_edge(e)
        for i, (e, u, v) in enumerate(w.es):
            e, added = w.g.add_edge(u, v, SYMS[i % len(SYMS)])
            if added:
                es.append((e, u, v))
        w.es = es
        w.out = {u: [(w.key(u, v, e), v) for e, x, v in es if x == u] for u in w.vs}


@target("C10", "extract", copies, quick=450, rule="graph of five classes or a view, vertex and edge filters; the vertices and edges "
        "reported are compared with the reachable relevant ones; non-trivial: two vertices reached and something filtered "
        "out or a cycle")
def c10_extract(case, o):
    p = Part(case)
    before = gen.snapshot(p.g)
    vs, es = [], []
    kw = dict(p.kw)
    if case["opts"][0]:
        kw["callback_vertex_extract"] = lambda u, g: (expect(g is p.g, "graph of the callback"), vs.append(u))
    if case["opts"][1]:
        kw["callback_edge_extract"] = lambda e, g: (expect(g is p.g, "graph of the callback"), es.append(p.w.ekey(e)))
    graph_extract(p.s, p.g, **kw)
    if case["opts"][0]:
        equal(sorted(vs), sorted(p.vs), "vertices extracted")
    if case["opts"][1]:
        equal(sorted(es), sorted(k for k, _, _ in p.edges), "edges extracted")
    equal(gen.snapshot(p.g), before, "the graph after the extraction")
    o.label(case["cls"], "view" if case["view"] else "graph")
    o.nontrivial(len(p.vs) > 1 and any(case["opts"][:2]) and
                 (len(p.vs) < len(p.w.vs) or len(p.edges) >= len(p.vs)))


@target("C10", "copy", copies, quick=450, rule="as above, copied (once or twice) into an empty or populated graph of the same or another "
        "class with any subset of the options; the copy is compared as a labelled multigraph through pmap_vertices or the "
        "callbacks; non-trivial: at least two vertices and two edges copied")
def c10_copy(case, o):
    p = Part(case)
    w, g = p.w, p.g
    auto = case["cls"] in ("A", "IA")
    if auto:
        D = (Automaton if case["cls"] == "A" else IncidenceAutomaton) if case["dup"] == "same" else IncidenceAutomaton
        copy = automaton_copy
        if case["labels"] is False and case["gap"]:
            D, copy, auto = DirectedGraph, graph_copy, False  # labels dropped
    else:
        D = {"D": DirectedGraph, "I": IncidenceGraph, "U": UndirectedGraph}[case["cls"]]
        if case["dup"] == "other" and g.directed:
            D = IncidenceGraph
        copy = graph_copy
    n0, es0 = case["pre"]
    dup = D(n0)
    for i, (u, v) in enumerate(es0):
        if u < n0 and v < n0:
            dup.add_edge(u, v, "p%d" % i) if auto else dup.add_edge(u, v)
    if case["gap"] and n0:
        dup.remove_vertex(n0 - 1)
        n0 -= 1
    before, dup0 = gen.snapshot(g), gen.snapshot(dup)
    old_v, old_e = set(dup.vertices()), {gen.ekey(dup, e) for e in dup.edges()}
    directed = g.directed

    def lab(h, e):
        return h.label(e) if auto else None

    for _ in range(case["times"]):
        mv, me, cv, ce = defaultdict(lambda: None), defaultdict(lambda: None), {}, []
        kw = dict(p.kw)

        def on_vertex(u, h, u_dup, h_dup):
            expect(h is g and h_dup is dup, "graphs of callback_dup_vertex")
            expect(u not in cv, "vertex", u, "duplicated twice")
            expect(u_dup in set(dup.vertices()), "copy of", u, "not in g_dup")
            cv[u] = u_dup

        def on_edge(e, h, e_dup, h_dup):
            expect(h is g and h_dup is dup, "graphs of callback_dup_edge")
            ce.append((e, e_dup))
        if case["opts"][0]:
            kw["pmap_vertices"] = make_assoc_property_map(mv)
        if case["opts"][1]:
            kw["pmap_edges"] = make_assoc_property_map(me)
        if case["opts"][2]:
            kw["callback_dup_vertex"] = on_vertex
        if case["opts"][3]:
            kw["callback_dup_edge"] = on_edge
        copy(p.s, g, dup, **kw)
        equal(gen.snapshot(g), before, "the source graph after the copy")
        # What the destination held is still there
        new_v = set(dup.vertices()) - old_v
        expect(old_v <= set(dup.vertices()), "vertices of g_dup lost")
        all_e = list(dup.edges())
        expect(old_e <= {gen.ekey(dup, e) for e in all_e}, "edges of g_dup lost")
        new_e = [e for e in all_e if gen.ekey(dup, e) not in old_e]
        equal(len(new_v), len(p.vs), "number of vertices added to g_dup")
        want = p.edges if directed else list({p.str_ekey[k]: (k, u, v) for k, u, v in p.edges}.values())
        equal(len(new_e), len(want), "number of edges added to g_dup")
        maps = ([mv] if case["opts"][0] else []) + ([cv] if case["opts"][2] else [])
        for m in maps:
            equal(set(m), set(p.vs), "vertices mapped to g_dup")
            equal(set(m.values()), new_v, "vertices they are mapped to")
        if len(maps) == 2:
            equal(dict(mv), cv, "pmap_vertices and the callback")
        descr = {}
        for (e, u, v) in w.es:
            descr[w.key(u, v, e)] = e
            if not directed:
                descr[w.key(v, u, e)] = e

        def pair(u, v):
            return (u, v) if directed or u <= v else (v, u)
        if maps:
            m = maps[0]
            equal(srt((pair(dup.source(e), dup.target(e)), lab(dup, e)) for e in new_e),
                  srt((pair(m[u], m[v]), lab(g, descr[k])) for k, u, v in want), "edges of the copy")
        else:
            degs = lambda h, es, vs: sorted(
                (sum(h.source(e) == u for e in es), sum(h.target(e) == u for e in es)) for u in vs)
            if directed:
                equal(degs(dup, new_e, new_v), degs(g, [descr[k] for k, _, _ in want], p.vs), "degrees of the copy")
            if len(p.vs) <= 8:
                expect(isomorphic(
                    directed, [(dup.source(e), dup.target(e), lab(dup, e)) for e in new_e],
                    [(u, v, lab(g, descr[k])) for k, u, v in want]), "the copy is not isomorphic to the graph")
        # Edge maps
        if case["opts"][3]:
            equal(sorted(str(gen.ekey(g, e)) for e, _ in ce), sorted(p.str_ekey[k] for k, _, _ in want),
                  "edges given to callback_dup_edge")
            equal(srt(gen.ekey(dup, f) for _, f in ce), srt(gen.ekey(dup, e) for e in new_e), "their copies")
        if case["opts"][1]:
            equal(sorted(str(gen.ekey(g, e)) for e in me), sorted(p.str_ekey[k] for k, _, _ in want),
                  "edges of pmap_edges")
            equal(srt(gen.ekey(dup, f) for f in me.values()), srt(gen.ekey(dup, e) for e in new_e), "their copies")
            if maps:
                for e, f in me.items():
                    m = maps[0]
                    equal(pair(dup.source(f), dup.target(f)), pair(m[g.source(e)], m[g.target(e)]),
                          "ends of the copy of", gen.ekey(g, e))
                    equal(lab(dup, f), lab(g, e), "label of the copy of", gen.ekey(g, e))
            if case["opts"][3]:
                equal({gen.ekey(g, e): gen.ekey(dup, f) for e, f in me.items()},
                      {gen.ekey(g, e): gen.ekey(dup, f) for e, f in ce}, "pmap_edges and the callback")
        old_v, old_e = set(dup.vertices()), {gen.ekey(dup, e) for e in dup.edges()}
    o.label(case["cls"], "prepopulated" if n0 else "empty", "maps=%d" % len(maps))
    o.nontrivial(len(p.vs) >= 2 and len(want) >= 2)


@target("C10", "large", wide(copies), quick=25, rule="extraction and copy of graphs of up to 600 vertices (thorough: 1,200) or with "
        "up to 100 parallel edges; non-trivial: two vertices and two edges copied")
def c10_large(case, o):
    case = dict(case, graph=wide_graph(case))
    c10_extract(case, o)
    c10_copy(case, o)


# ------------------------------------------------------------------------------------------------------------------
# C11
# ------------------------------------------------------------------------------------------------------------------

def accessors(g):
    vs = list(g.vertices())

    def tr(es):
        return srt((g.source(e), g.target(e), e.distinguisher) for e in es)
    return {"edges": tr(g.edges()), "out": {u: tr(g.out_edges(u)) for u in vs}, "in": {u: tr(g.in_edges(u)) for u in vs},
            "outdeg": {u: g.out_degree(u) for u in vs}, "indeg": {u: g.in_degree(u) for u in vs}, "vs": sorted(vs)}


def mirror(a):
    def tr(es):
        return srt((v, u, n) for (u, v, n) in es)
    return {"edges": tr(a["edges"]), "out": {u: tr(a["in"][u]) for u in a["vs"]},
            "in": {u: tr(a["out"][u]) for u in a["vs"]}, "outdeg": a["indeg"], "indeg": a["outdeg"], "vs": a["vs"]}


@st.composite
def reversals(draw, big=False):
    return {
        "graph": draw(gen.graphs(big, min_n=1, max_n=8, large_n=25)), "cls": draw(st.sampled_from(["I", "IA"])),
        "sources": draw(st.lists(st.integers(0, 30), max_size=3)), "times": draw(st.integers(1, 4)),
    }


def check_others(case, w, g, rev, sources):
    """Shortest paths, extraction, copy, drawing and views of a reversed graph."""
    arcs = [((v, u) if rev else (u, v)) + ((u * 5 + v * 3) % 4,) for (_, u, v) in w.es]
    out = {u: [] for u in w.vs}
    for (u, v, c) in arcs:
        out[u].append((v, c))
    for s in sorted(set(sources))[:1]:
        best = {s: 0}
        todo = [s]
        while todo:
            u = todo.pop()
            for (v, c) in out[u]:
                if v not in best or best[u] + c < best[v]:
                    best[v] = best[u] + c
                    todo.insert(0, v)
        dist, preds = defaultdict(int), defaultdict(set)
        dijkstra_shortest_paths(
            g, s, make_func_property_map(lambda e: (e.source * 5 + e.target * 3) % 4),
            make_assoc_property_map(preds), make_assoc_property_map(dist))
        equal({u: dist[u] for u in w.vs if dist[u] != INFINITY}, best, "distances from", s, "reversed:", rev)
        equal(srt((g.source(e), v) for v in w.vs if v != s for e in preds[v]),
              srt((u, v) for (u, v, c) in arcs if v != s and u in best and best[u] + c == best[v]),
              "optimal predecessors from", s, "reversed:", rev)
        seen, found = [], []
        graph_extract(s, g, callback_vertex_extract=lambda u, g: seen.append(u),
                      callback_edge_extract=lambda e, g: found.append((g.source(e), g.target(e))))
        part = [(u, v) for (u, v, c) in arcs if u in best]
        equal(sorted(seen), sorted(best), "vertices extracted from", s, "reversed:", rev)
        equal(sorted(found), sorted(part), "edges extracted from", s, "reversed:", rev)
        if case["cls"] == "I":
            h, names = DirectedGraph(), defaultdict(int)
            graph_copy(s, g, h, pmap_vertices=make_assoc_property_map(names))
            equal(sorted(names), sorted(best), "vertices copied from", s, "reversed:", rev)
            equal(sorted((h.source(e), h.target(e)) for e in h.edges()), sorted((names[u], names[v]) for (u, v) in part),
                  "edges copied from", s, "reversed:", rev)
    kept = [u for u in w.vs if u % 3 != 1]
    gv = GraphView(g, make_func_property_map(lambda u: u % 3 != 1))
    inner = sorted((u, v) for (u, v, c) in arcs if u in kept and v in kept)
    equal(sorted((gv.source(e), gv.target(e)) for e in gv.edges()), inner, "edges of a view, reversed:", rev)
    equal(sorted((gv.source(e), gv.target(e)) for u in kept for e in gv.out_edges(u)), inner, "out-edges of a view, reversed:", rev)
    equal(sorted((gv.source(e), gv.target(e)) for u in kept for e in gv.in_edges(u)), inner, "in-edges of a view, reversed:", rev)
    if len(arcs) <= 40:
        drawing = dotparse.parse(g.to_dot())
        equal(sorted((int(x), int(y)) for (x, _, y, _) in drawing.edges), sorted((u, v) for (u, v, c) in arcs),
              "arrows drawn, reversed:", rev)


@target("C11", "reverse", reversals, quick=350, rule="incidence graph or automaton reversed one to four times; accessors against the "
        "mirrored accessors, depth- and breadth-first search, strong components, topological sort, reachability, "
        "shortest paths, extraction, copy, views and drawing against the mirrored graph; non-trivial: two edges that are not loops")
def c11_reverse(case, o):
    w = World(case["cls"], case["graph"])
    g = w.g
    a0 = accessors(g)
    back = {u: [] for u in w.vs}
    for (e, u, v) in w.es:
        back[v].append((w.key(v, u, e), u))
    forth = w.out
    sources = [w.vs[i % len(w.vs)] for i in case["sources"]]
    for i in range(case["times"]):
        reverse_graph(g)
        rev = i % 2 == 0
        equal(accessors(g), mirror(a0) if rev else a0, "accessors after %d reversals" % (i + 1))
        w.out = back if rev else forth
        vis, events = visitor(DefaultDepthFirstSearchVisitor, DFS_EVENTS, 0)
        depth_first_search_graph(g, sources, vis=vis)
        check_dfs(w, g, events(), {u: WHITE for u in w.vs}, lambda k: True, sources, None)
        equal(set(find_reachable_vertices(g, set(sources))),
              gen.reach(sources, lambda u: [v for _, v in w.out[u]]), "find_reachable_vertices")
        if sources:
            vis, events = visitor(DefaultBreadthFirstSearchVisitor, BFS_EVENTS, 0)
            breadth_first_search_graph(g, set(sources), vis=vis)
            check_bfs(w, g, events(), lambda k: True, sorted(set(sources)), False)
        out = {u: [v for _, v in es] for u, es in w.out.items()}
        comp = check_components(g, w.vs, out)
        check_topological(g, w.vs, out, comp, None)
        check_others(case, w, g, rev, sources)
    o.nontrivial(len([1 for (_, u, v) in w.es if u != v]) >= 2)
    o.label(case["cls"], "reversed" if case["times"] % 2 else "restored")


@target("C11", "reverse large", wide(reversals, n=300), quick=12, rule="as above on graphs of up to 300 vertices (thorough: 600) or "
        "with up to 100 parallel edges; non-trivial: two edges that are not loops")
def c11_reverse_large(case, o):
    c11_reverse(dict(case, graph=wide_graph(case)), o)


@st.composite
def prunable(draw, big=False):
    n = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(1, 7), st.integers(1, 40 if big else 20)))
    if draw(st.integers(0, 15)) == 15:
        n = draw(st.integers(20, 250 if big else 80))
    v = st.integers(0, n - 1)
    step = draw(st.sampled_from([0, 0, 1, 2, 3, 5]))
    finals = [q for q in range(n) if q % step == 0] if step else draw(
        st.lists(v, min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=max(1, n // 2)))
    return {
        "n": n,
        "trans": draw(st.lists(st.tuples(v, st.integers(0, 3), v).map(list), min_size=draw(st.sampled_from([0, n, n])),
                               max_size=3 * n + 4)),
        "q0": draw(st.sampled_from([0, 0, 0, n - 1, n // 2, n // 2, None])),
        "finals": sorted(set(finals)), "tree": draw(st.sampled_from([0, 0, 1, 2, 3])) if n > 7 else 0,
        "rm": sorted(set(draw(st.lists(v, max_size=2)))) if draw(st.integers(0, 3)) == 0 else [],
        "words": draw(st.lists(st.lists(st.integers(0, 3), max_size=8), max_size=4)),
        "twice": draw(st.booleans()),
    }


@target("C11", "prune", prunable, quick=500, rule="IncidenceAutomaton with any initial and final states, possibly with removed states; the "
        "pruned automaton against the useful states computed on a model; non-trivial: some states are kept and some are "
        "not, and one transition is kept")
def c11_prune(case, o):
    g = IncidenceAutomaton(case["n"])
    m = Dfa(False)
    m.trans = {q: {} for q in range(case["n"])}
    tree = [[(q - 1) // case["tree"], (q - 1) % case["tree"], q] for q in range(1, case["n"])] if case["tree"] else []
    for q, a, r in tree + case["trans"]:
        e, added = g.add_edge(q, r, SYMS[a])
        if added:
            m.trans[q][SYMS[a]] = r
            m.descr[q, SYMS[a]] = e
    for q in case["finals"]:
        g.set_final(q)
        m.final[q] = True
    m.initial = case["q0"]
    g.set_initial(case["q0"]) if case["q0"] is not None else g.set_initial(0, False)
    for q in case["rm"]:
        if len(m.trans) > 1 and q != m.initial:
            g.set_final(q, False)
            m.final[q] = False
            g.remove_vertex(q)
            drop(m, q)
    words = [[SYMS[i] for i in x] for x in case["words"]] + [[]]
    accepted = [m.initial is not None and accepts(m, x) for x in words]
    succ = gen.reach([q for q in [m.initial] if q is not None], lambda q: m.trans[q].values())
    pred = defaultdict(set)
    for q, a, r in m.edges():
        pred[r].add(q)
    useful = succ & gen.reach([q for q in m.trans if m.is_final(q)], lambda q: pred[q])
    kept = len(useful)
    lost = len(m.trans) - kept
    prune_incidence_automaton(g)
    for q in set(m.trans) - useful:
        drop(m, q)
    equal(set(g.vertices()), useful, "states kept")
    if m.initial not in useful:
        expect(g.initial() not in useful, "the initial state", m.initial, "is dropped and", g.initial(), "is initial")
        m.initial = g.initial()
    check_dfa(g, m, "IA", words)
    equal([bool(g.accepts(x)) for x in words], accepted, "words accepted, among", words)
    equal(accessors(g)["out"], mirror(mirror(accessors(g)))["out"])
    if case["twice"]:
        prune_incidence_automaton(g)
        check_dfa(g, m, "IA", words)
    o.label("all kept" if not lost else "none kept" if not kept else "some kept")
    o.nontrivial(kept and lost and m.edges())


def accepts(m, x):
    q = m.delta_word(m.initial, x)
    return q is not None and m.is_final(q)


def drop(m, q):
    del m.trans[q]
    for t in m.trans.values():
        for y in [y for y, r in t.items() if r == q]:
            del t[y]


# ------------------------------------------------------------------------------------------------------------------
# C12
# ------------------------------------------------------------------------------------------------------------------

@st.composite
def cuts(draw, big=False):
    return {
        "graph": draw(gen.graphs(big, min_n=1, max_n=9, large_n=25, dag=True, density=4)),
        "cls": draw(st.sampled_from(["D", "D", "I", "A", "IA", "F"])), "s": draw(st.sampled_from([0, 0, 0, 1, 2, 5])),
        "bits": draw(st.lists(st.sampled_from([1, 0, 0]), min_size=1, max_size=11)), "shift": draw(st.integers(0, 5)),
        "view": draw(st.sampled_from([None, None, [1, 1, 0], [1, 0, 1, 1]])),
        "container": draw(st.sampled_from(["func", "set"])),
    }


@target("C12", "cut", cuts, quick=800, rule="acyclic graph of four classes or a view, source and cut edges; the result against its "
        "definition, and maximal paths avoiding it; non-trivial: a cut edge leaves R and R has a vertex without out-edge "
        "or two vertices")
def c12(case, o):
    w = World(case["cls"], case["graph"])
    g, vs, out = w.g, w.vs, w.out
    if case["view"]:
        bits = case["view"]
        keep = {u for u in vs if bits[u % len(bits)]} or set(vs[:1])
        g = GraphView(w.g, pmap_vrelevant=make_func_property_map(gen.loose(len(keep), lambda u: u in keep)))
        vs = sorted(keep)
        out = {u: [(k, v) for k, v in out[u] if v in keep] for u in vs}
    far = {u: len(gen.reach([u], lambda x: [v for _, v in out[x]])) for u in vs}
    s = sorted(vs, key=lambda u: (-far[u], u))[case["s"] % len(vs)]
    crossing = accept_of(case["bits"], case["shift"])
    before = gen.snapshot(g)
    if case["container"] == "set":
        es = {e for e in g.edges() if crossing(w.ekey(e))}
        in_cut = lambda e, h: e in es
    else:
        def in_cut(e, h):
            expect(h is g, "graph given to in_cut")
            return crossing(w.ekey(e))
    got = cut(s, g, gen.loose(case["graph"], in_cut))
    R = gen.reach([s], lambda u: [v for k, v in out[u] if not crossing(k)])
    through = {v for u in R for k, v in out[u] if crossing(k)}
    leaves = {u for u in R if not out[u]}
    equal(set(got), through | leaves, "cut(%s)" % s)
    expect(isinstance(got, set), "cut returns", type(got).__name__)
    equal(gen.snapshot(g), before, "the graph after cut")
    # Consequence: no maximal path from s avoids the result
    avoid = gen.reach([s] if s not in got else [], lambda u: [v for _, v in out[u] if v not in got])
    for u in avoid:
        expect(out[u], "a maximal path ends in", u, "without meeting", got)
    o.label("cut" if through else "no cut", "leaves" if leaves else "no leaf",
            "shared" if len(through) < sum(1 for u in R for k, v in out[u] if crossing(k)) else "",
            "mixed" if any(len({crossing(k) for k, _ in out[u]}) == 2 for u in R) else "")
    o.nontrivial(through and (leaves or len(R) > 1))


@target("C12", "small", enum=lambda big: small_cuts(big), rule="every DAG 0->.. on 3 (thorough: 4) vertices in topological order with each "
        "edge absent, kept, cut, or present twice (one of both cut), from vertex 0; non-trivial: a cut edge")
def c12_small(case, o):
    g = DirectedGraph(case["n"])
    cutset, out = set(), {u: [] for u in range(case["n"])}
    for u, v, k in case["edges"]:
        for c in {1: [0], 2: [1], 3: [0, 1]}[k]:
            e, _ = g.add_edge(u, v)
            out[u].append((c, v))
            if c:
                cutset.add(e)
    got = cut(0, g, lambda e, g: e in cutset)
    R = gen.reach([0], lambda u: [v for c, v in out[u] if not c])
    equal(set(got), {v for u in R for c, v in out[u] if c} | {u for u in R if not out[u]}, "cut")
    o.nontrivial(cutset)


def small_cuts(big):
    from itertools import product
    n = 4 if big else 3
    pairs = [(u, v) for u in range(n) for v in range(u + 1, n)]
    for ks in product(range(4), repeat=len(pairs)):
        yield {"n": n, "edges": [[u, v, k] for (u, v), k in zip(pairs, ks) if k]}
