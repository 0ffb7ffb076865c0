"""C05: a graph view is the filtered graph, live, and views form a set algebra."""
from collections import defaultdict
from hypothesis import strategies as st
from pbt import gen, dotparse
from pbt.core import target, expect, equal
from pybgl import (
    DirectedGraph, IncidenceGraph, UndirectedGraph, Automaton, IncidenceAutomaton, GraphView, DefaultBreadthFirstSearchVisitor,
    breadth_first_search, depth_first_search, depth_first_search_graph, DefaultDepthFirstSearchVisitor,
    dijkstra_shortest_paths, strong_components, topological_sort, make_func_property_map, make_assoc_property_map,
    ReadPropertyMap,
)

CLASSES = {
    "D": DirectedGraph, "I": IncidenceGraph, "U": UndirectedGraph, "A": Automaton, "IA": IncidenceAutomaton,
}
INF = 10 ** 9


class Filter(ReadPropertyMap):
    """A hand-written property map (the third way to give a filter)."""
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f(k)


@st.composite
def cases(draw, big=False):
    graph = draw(gen.graphs(big, min_n=draw(st.sampled_from([0, 2, 3, 4, 5])), max_n=7, large_n=20))
    cls = draw(st.sampled_from(["D", "I", "U", "A", "IA"]))
    bits = st.lists(st.sampled_from([1, 1, 0, 1]), min_size=3, max_size=9)
    leaf = st.fixed_dictionaries({
        "v": st.one_of(st.none(), bits, bits), "e": st.one_of(st.none(), bits, bits),
        "kind": st.sampled_from(["func", "assoc", "class"]), "pos": st.booleans(),
    })
    leaves = draw(st.lists(leaf, min_size=1, max_size=3))
    idx = st.integers(0, len(leaves) - 1)
    expr = draw(st.recursive(idx, lambda x: st.tuples(st.sampled_from("|&"), x, x).map(list), max_leaves=4))
    if draw(st.booleans()):
        expr = ["-", expr, draw(st.recursive(idx, lambda x: st.tuples(st.sampled_from("|&"), x, x).map(list), max_leaves=3))]
    upd = draw(st.lists(st.tuples(
        st.sampled_from(["v", "e", "re", "rv", "fv", "fe"]), st.integers(0, 30), st.integers(0, 30), st.integers(0, 2)
    ).map(list), min_size=draw(st.sampled_from([0, 1, 2])), max_size=6))
    return {"graph": graph, "cls": cls, "leaves": leaves, "expr": expr, "upd": upd, "every": draw(st.sampled_from([1, 1, 2, 3, 100])),
            "w": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6))}


class World:
    """A graph, its model, and the filters of the leaf views."""
    def __init__(self, case):
        self.cls = case["cls"]
        cls = CLASSES[self.cls]
        self.labelled = self.cls in ("A", "IA")
        self.directed = self.cls != "U"
        vs, es = gen.live(case["graph"])
        self.g = cls(case["graph"]["n"])
        self.vs = list(vs)
        self.es = {}   # key -> (u, v)
        self.descr = {}
        for u in range(case["graph"]["n"]):
            if u not in vs:
                self.g.remove_vertex(u)
        for (i, u, v) in es:
            self.add_edge(u, v)

    def key(self, e):
        return gen.ekey(self.g, e)

    def add_edge(self, u, v):
        if self.labelled:
            e, added = self.g.add_edge(u, v, len([k for k in self.es if k[0] == u]))
        else:
            e, added = self.g.add_edge(u, v)
        if added:
            self.es[self.key(e)] = (u, v)
            self.descr[self.key(e)] = e


def mk(case):
    w = World(case)
    views, models = [], []
    for leaf in case["leaves"]:
        dv, de = defaultdict(bool), defaultdict(bool)
        bv, be = leaf["v"], leaf["e"]

        def fill(dv=dv, de=de, bv=bv, be=be):
            for i, u in enumerate(w.vs):
                if u not in dv:
                    dv[u] = bool(bv[u % len(bv)]) if bv else True
            for i, k in enumerate(sorted(w.es, key=repr)):
                if k not in de:
                    de[k] = bool(be[(7 * k[0] + 3 * k[1] + i) % len(be)]) if be else True
        fill()
        pv = pe = None
        if bv is not None:
            pv = {
                "func": lambda dv=dv: make_func_property_map(gen.loose(len(bv), lambda u: dv[u])),
                "assoc": lambda dv=dv: make_assoc_property_map(dv),
                "class": lambda dv=dv: Filter(gen.loose(len(bv) + 1, lambda u: dv[u])),
            }[leaf["kind"]]()
        if be is not None:
            f = gen.loose(len(be), lambda e, de=de: de[w.key(e)])
            pe = make_func_property_map(f) if leaf["kind"] != "class" else Filter(f)
        if leaf["pos"]:
            view = GraphView(w.g, pv, pe)
        else:
            kw = {}
            if pv is not None:
                kw["pmap_vrelevant"] = pv
            if pe is not None:
                kw["pmap_erelevant"] = pe
            view = GraphView(w.g, **kw)
        views.append(view)
        models.append(((lambda u, dv=dv, x=bv is None: x or dv[u]), (lambda k, de=de, x=be is None: x or de[k]), dv, de, fill))
    return w, views, models


def ev(x, views, models):
    """(view, vertex predicate, edge predicate) of an expression."""
    if isinstance(x, int):
        return views[x], models[x][0], models[x][1]
    op, a, b = x
    (va, pa, qa), (vb, pb, qb) = ev(a, views, models), ev(b, views, models)
    if op == "|":
        return va | vb, (lambda u: pa(u) or pb(u)), (lambda k: qa(k) or qb(k))
    if op == "&":
        return va & vb, (lambda u: pa(u) and pb(u)), (lambda k: qa(k) and qb(k))
    return va - vb, (lambda u: pa(u) and not pb(u)), qa


def check_view(w, view, pv, pe):
    vs = [u for u in w.vs if pv(u)]
    kept = set(vs)
    es = {k: uv for k, uv in w.es.items() if pe(k) and uv[0] in kept and uv[1] in kept}
    got = list(view.vertices())
    equal(sorted(got), sorted(vs), "vertices() of the view")
    equal(view.num_vertices(), len(vs), "num_vertices()")
    equal(view.has_vertex(), bool(vs), "has_vertex()")
    got = list(view.edges())
    equal(sorted(map(w.key, got), key=repr), sorted(es, key=repr), "edges() of the view")
    equal(view.num_edges(), len(es), "num_edges()")
    equal(view.has_edge(), bool(es), "has_edge()")
    for u in w.vs:
        want = sorted(((k, v) for k, (a, v) in es.items() if a == u), key=repr)
        if not w.directed:
            want = sorted(want + [(k, a) for k, (a, v) in es.items() if v == u and a != u], key=repr)
        equal(sorted(((w.key(e), view.target(e)) for e in view.out_edges(u)), key=repr), want, "out_edges(%d)" % u)
        equal(view.out_degree(u), len(want), "out_degree(%d)" % u)
        if w.cls in ("I", "IA", "U"):
            want = sorted((k for k, (a, v) in es.items() if v == u or (a == u and not w.directed)), key=repr)
            equal(sorted((w.key(e) for e in view.in_edges(u)), key=repr), want, "in_edges(%d)" % u)
            equal(view.in_degree(u), len(want), "in_degree(%d)" % u)
    expect(view.directed == w.directed, "directed")
    return kept, es


def check_algorithms(w, view, kept, es, weights):
    if not kept:
        return

    def succ(u):
        for (a, b) in es.values():
            if a == u:
                yield b
            if b == u and not w.directed:
                yield a
    for s in sorted(kept)[:3]:
        seen = gen.bfs_dist([s], succ)
        got = []

        class V(DefaultBreadthFirstSearchVisitor):
            def discover_vertex(self, u, g):
                got.append(u)
        breadth_first_search(s, view, vis=V())
        equal(sorted(got), sorted(seen), "vertices found by breadth_first_search on the view")
        got = []
        vis = DefaultDepthFirstSearchVisitor()
        vis.discover_vertex = lambda u, g: got.append(u)
        depth_first_search(s, view, vis=vis)
        equal(sorted(got), sorted(seen), "vertices found by depth_first_search on the view")
        # Shortest paths
        wt = {k: weights[(k[0] + 2 * k[1] + i) % len(weights)] for i, k in enumerate(sorted(es, key=repr))}
        dist = {u: INF for u in kept}
        dist[s] = 0
        for _ in kept:
            for k, (a, b) in es.items():
                dist[b] = min(dist[b], dist[a] + wt[k])
                if not w.directed:
                    dist[a] = min(dist[a], dist[b] + wt[k])
        md = defaultdict(int)
        dijkstra_shortest_paths(
            view, s, make_func_property_map(lambda e: wt[w.key(e)]), make_assoc_property_map(defaultdict(set)),
            make_assoc_property_map(md), infty=INF
        )
        equal({u: md[u] if md[u] < INF else INF for u in kept}, {u: min(d, INF) for u, d in dist.items()},
              "distances on the view")
    got = []
    vis = DefaultDepthFirstSearchVisitor()
    vis.discover_vertex = lambda u, g: got.append(u)
    depth_first_search_graph(view, vis=vis)
    equal(sorted(got), sorted(kept), "vertices found by depth_first_search_graph on the view")
    if w.directed:
        reach = {u: gen.reach([u], succ) for u in kept}
        comps = {frozenset(v for v in kept if v in reach[u] and u in reach[v]) for u in kept}
        mc = defaultdict(int)
        equal(strong_components(view, make_assoc_property_map(mc)), len(comps), "strong components of the view")
        got = {}
        for u in kept:
            got.setdefault(mc[u], set()).add(u)
        equal({frozenset(x) for x in got.values()}, comps, "strong components of the view")
        if len(comps) == len(kept) and not any(a == b for (a, b) in es.values()):
            order = list(topological_sort(view))
            equal(sorted(order), sorted(kept), "topological order of the view")
            pos = {u: i for i, u in enumerate(order)}
            expect(all(pos[a] < pos[b] for (a, b) in es.values()), "topological_sort of the view", order)


def check_dot(w, view, kept, es, vs=None, ees=None):
    kw = {}
    if vs is not None:
        kw["vs"] = set(vs)
        kept = kept & set(vs)
    if ees is not None:
        kw["es"] = set(ees)
        es = {k: x for k, x in es.items() if k in {w.key(e) for e in ees}}
    d = dotparse.parse(view.to_dot(**kw))
    equal(sorted(int(x) for x, _ in d.nodes), sorted(kept), "vertices shown by to_dot")
    conn = "->" if w.directed else "--"
    got = sorted((int(u), c, int(v)) for (u, c, v, _) in d.edges)
    if not w.directed:
        got = sorted((min(u, v), c, max(u, v)) for (u, c, v) in got)
        want = sorted((min(u, v), conn, max(u, v)) for (u, v) in es.values())
    else:
        want = sorted((u, conn, v) for (u, v) in es.values())
    equal(got, want, "edges shown by to_dot")


@target("C05", "views", cases, quick=500,
        rule="graph, 1-3 filtered views, a set expression over them, then updates of the graph and of the filters; "
             "non-trivial: the expression hides some vertex or edge, shows at least one edge, and there is an update")
def c05_views(case, o):
    w, views, models = mk(case)
    view, pv, pe = ev(case["expr"], views, models)
    every = case.get("every", 1)
    for x, m in zip(views, models) if every == 1 else ():
        check_view(w, x, m[0], m[1])
    before = gen.snapshot(w.g)
    kept, es = check_view(w, view, pv, pe)
    o.nontrivial(es and (len(es) < len(w.es) or len(kept) < len(w.vs)) and case["upd"])
    o.label(case["cls"], "minus" if isinstance(case["expr"], list) and case["expr"][0] == "-" else
            "expr" if isinstance(case["expr"], list) else "leaf")
    check_algorithms(w, view, kept, es, case["w"])
    check_dot(w, view, kept, es)
    equal(gen.snapshot(w.g), before, "the graph after using the view")
    for step, (op, a, b, i) in enumerate(case["upd"]):
        m = models[i % len(models)]
        if op == "v":
            w.vs.append(w.g.add_vertex())
        elif op == "e" and w.vs:
            w.add_edge(w.vs[a % len(w.vs)], w.vs[b % len(w.vs)])
        elif op == "re" and w.es:
            k = sorted(w.es, key=repr)[a % len(w.es)]
            w.g.remove_edge(w.descr[k])
            del w.es[k]
        elif op == "rv" and w.vs:
            u = w.vs.pop(a % len(w.vs))
            w.g.remove_vertex(u)
            w.es = {k: x for k, x in w.es.items() if u not in x}
        elif op == "fv" and w.vs:
            u = w.vs[a % len(w.vs)]
            m[2][u] = not m[2][u]
        elif op == "fe" and w.es:
            k = sorted(w.es, key=repr)[a % len(w.es)]
            m[3][k] = not m[3][k]
        for x in models:
            x[4]()
        if step % every == every - 1 or step == len(case["upd"]) - 1:
            kept, es = check_view(w, view, pv, pe)
    for x, m in zip(views, models):
        check_view(w, x, m[0], m[1])
    check_algorithms(w, view, kept, es, case["w"])
    if w.vs:
        all_es = [e for e in w.g.edges()]
        check_dot(w, view, kept, es, vs=w.vs[::2] if case["w"][0] % 2 else None, ees=all_es[::2] if case["w"][-1] % 2 else None)
        check_dot(w, view, kept, es, vs=w.vs[: case["w"][0] % 3], ees=all_es[: case["w"][-1] % 3])


@st.composite
def large_cases(draw, big=False):
    n = draw(st.sampled_from([60, 150, 400, 1100] + ([2500] if big else [])))
    return {"n": n, "cls": draw(st.sampled_from(["D", "I", "U", "A", "IA"])), "mul": draw(st.integers(1, 2 * n)), "k": draw(st.integers(1, 2)), "star": draw(st.integers(0, n - 1)),
            "mods": draw(st.lists(st.integers(2, 9), min_size=4, max_size=4)), "op": draw(st.sampled_from("|&-.")), "rm": draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True)),
            "w": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6))}


@target("C05", "large", large_cases, quick=12, rule="one or two views of graphs of 60 to 1,100 vertices given by a formula, combined, with a search from three vertices; non-trivial: every case")
def c05_large(case, o):
    n = case["n"]
    w = World({"graph": {"n": n, "edges": []}, "cls": case["cls"]})
    for i in range(case["k"] * n):
        w.add_edge(i % n, (i * case["mul"] + i // 3) % n)
    for i in range(0, n, 3):
        w.add_edge(case["star"], i)
    for u in case["rm"]:
        w.g.remove_vertex(u)
        w.vs.remove(u)
        w.es = {k: x for k, x in w.es.items() if u not in x}
    a, b, c, d = case["mods"]
    ends = w.es
    fs = [(lambda u: u % a != 1, lambda k: (7 * ends[k][0] + 3 * ends[k][1]) % b != 0), (lambda u: u % c != 1, lambda k: (5 * ends[k][0] + ends[k][1]) % d != 0)]
    views = [GraphView(w.g, make_func_property_map(p), make_func_property_map(lambda e, q=q: q(w.key(e)))) for p, q in fs]
    view, pv, pe = ev([case["op"], 0, 1] if case["op"] != "." else 0, views, [(p, q) for p, q in fs])
    kept, es = check_view(w, view, pv, pe)
    check_search(w, view, kept, es)
    if n <= 150:
        check_dot(w, view, kept, es)
    o.nontrivial(True)
    o.label(case["cls"], n)


def check_search(w, view, kept, es):
    adj = defaultdict(list)
    for u, v in es.values():
        adj[u].append(v)
        if not w.directed:
            adj[v].append(u)
    for s in sorted(kept)[:1] + sorted(kept)[-2:]:
        for search, cls in ((breadth_first_search, DefaultBreadthFirstSearchVisitor), (depth_first_search, DefaultDepthFirstSearchVisitor)):
            got, vis = [], cls()
            vis.discover_vertex = lambda u, g: got.append(u)
            search(s, view, vis=vis)
            equal(sorted(got), sorted(gen.reach([s], lambda u: adj[u])), "vertices found by %s on the view" % search.__name__)
