"""C08: Dijkstra's algorithm."""
from collections import defaultdict
from fractions import Fraction
from hypothesis import strategies as st
from pbt import gen
from pbt.core import target, expect, equal
from pbt.props.search import World, visitor, wide, wide_graph
from pybgl import (
    AggregatedVisitor, BLACK, ClosedMax, ClosedMin, ClosedPlus, ClosedTime, DijkstraVisitor, GraphView, GreaterThan,
    INFINITY, Less, WHITE, dijkstra_shortest_path, dijkstra_shortest_paths, make_assoc_property_map,
    make_func_property_map, make_shortest_path, make_shortest_paths_dag,
)

EVENTS = ["initialize_vertex", "examine_vertex", "examine_edge", "discover_vertex", "edge_relaxed",
          "edge_not_relaxed", "finish_vertex"]
INF = float("inf")


class Algebra:
    """better(x, y): x is strictly better; combine; zero; infty; weight(k): weight number k (k in 0..9)."""
    def __init__(self, better, combine, zero, infty, weight, kw, omit=()):
        self.better, self.combine, self.zero, self.infty, self.weight = better, combine, zero, infty, weight
        self.kw = kw


def lt(x, y):
    return x < y


def gt(x, y):
    return x > y


def lex(x, y):
    return (x[0] + x[1], x[0]) < (y[0] + y[1], y[0])


ALGEBRAS = {
    # everything by default
    "sum": lambda: Algebra(lt, lambda x, y: x + y, 0, INFINITY, lambda k: k, {}),
    "sum_less": lambda: Algebra(lt, lambda x, y: x + y, 0, INFINITY, lambda k: k,
                                dict(compare=Less(), combine=ClosedPlus())),
    "sum_lambda": lambda: Algebra(lt, lambda x, y: x + y, 0, INF, lambda k: k / 4,
                                  dict(compare=lambda x, y: x < y, combine=lambda x, y: x + y, infty=INF)),
    "sum_le": lambda: Algebra(lt, lambda x, y: x + y, 5, INF, lambda k: k / 4, dict(zero=5, infty=INF)),
    "product": lambda: Algebra(lt, lambda x, y: x * y, 1, INFINITY, lambda k: 1 + k // 2,
                               dict(combine=ClosedTime(), zero=1)),
    # in large graphs, where products exceed INFINITY
    "product_inf": lambda: Algebra(lt, lambda x, y: x * y, 1, INF, lambda k: 1 + k // 2,
                                   dict(combine=ClosedTime(), zero=1, infty=INF)),
    "proba": lambda: Algebra(gt, lambda x, y: x * y, 1, 0, lambda k: Fraction(9 - k, 9) if k < 9 else Fraction(1, 9),
                             dict(compare=GreaterThan(), combine=ClosedTime(0), zero=1, infty=0)),
    "minmax": lambda: Algebra(lt, max, 0, INFINITY, lambda k: k, dict(compare=Less(), combine=ClosedMax())),
    "maxmin": lambda: Algebra(gt, min, INFINITY, 0, lambda k: k + 1,
                              dict(compare=GreaterThan(), combine=ClosedMin(), zero=INFINITY, infty=0)),
    "lexico": lambda: Algebra(lex, lambda x, y: (x[0] + y[0], x[1] + y[1]), (0, 0), (INF, INF),
                              lambda k: (k // 3, k % 3),
                              dict(compare=lex, combine=lambda x, y: (x[0] + y[0], x[1] + y[1]),
                                   zero=(0, 0), infty=(INF, INF))),
}


@st.composite
def cases(draw, big=False):
    g = draw(gen.graphs(big, min_n=1, max_n=8, large_n=22, density=4))
    return {
        "graph": g,
        "cls": draw(st.sampled_from(["D", "D", "I", "U", "U", "A", "IA", "F"])),
        "alg": draw(st.sampled_from(["sum", "sum", "sum_less", "sum_lambda", "sum_le", "product", "proba", "proba",
                                     "minmax", "maxmin", "lexico"])),
        "w": draw(st.lists(st.one_of(st.integers(0, 9), st.integers(0, 2), st.integers(1, 9)),
                           min_size=len(g["edges"]), max_size=len(g["edges"]))),
        "scale": draw(st.sampled_from([1, 1, 1, 3, 100, 253, 1000, 10 ** 6, 10 ** 12])),
        "st": draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)).map(list), min_size=1, max_size=2)),
        "vis": draw(st.sampled_from([None, 0, 0, 1, 2])),
        "color": draw(st.booleans()),
        "view": draw(st.sampled_from([None, None, None, [1, 1, 0], [1, 0, 1, 1, 1]])),
    }


def scaled(x, case):
    """The weight x, far from zero in some cases (algebras in which scaling makes sense)."""
    f = case.get("scale", 1)
    if f == 1 or case["alg"] in ("product", "product_inf", "proba"):
        return x
    return tuple(y * f for y in x) if isinstance(x, tuple) else x * f


class Setting:
    def __init__(self, case):
        self.w = w = World(case["cls"], case["graph"])
        self.alg = ALGEBRAS[case["alg"]]()
        self.weight = {}
        for i, (e, u, v) in enumerate(w.es):
            self.weight[gen.ekey(w.g, e)] = scaled(self.alg.weight((case["w"] or [1])[i % (len(case["w"]) or 1)]), case)
        self.g = w.g
        self.vs = list(w.vs)
        self.out = w.out
        if case["view"]:
            bits = case["view"]
            keep = {u for u in w.vs if u == w.vs[0] or bits[u % len(bits)]}
            self.vs = sorted(keep)
            self.g = GraphView(w.g, pmap_vrelevant=make_func_property_map(gen.loose(len(keep), lambda u: u in keep)))
            self.out = {u: [(k, v) for k, v in w.out[u] if v in keep] for u in keep}
        # key of a directed edge -> weight
        self.wk = {}
        for (e, u, v) in w.es:
            x = self.weight[gen.ekey(w.g, e)]
            self.wk[w.key(u, v, e)] = x
            if case["cls"] == "U":
                self.wk[w.key(v, u, e)] = x
        self.pmap_eweight = make_func_property_map(lambda e: self.weight[gen.ekey(w.g, e)])

    def distances(self, s):
        """Best values from s by relaxation until nothing changes (paths of more and more edges)."""
        a = self.alg
        best = {s: a.zero}
        todo = {s}
        rounds = 0
        while todo:
            nxt = set()
            for u in todo:
                for k, v in self.out[u]:
                    x = a.combine(best[u], self.wk[k])
                    if v not in best or a.better(x, best[v]):
                        best[v] = x
                        nxt.add(v)
            todo = nxt
            rounds += 1
            assert rounds <= len(self.vs) + 1, "the generated weights improve a path"
        return best

    def tight(self, best):
        """{v: {keys of the edges leading to v with the best value}}"""
        t = defaultdict(set)
        for u in best:
            for k, v in self.out[u]:
                if self.alg.combine(best[u], self.wk[k]) == best[v]:
                    t[v].add(k)
        return t


def ends(k):
    u, v = k.split(":", 1)[0].split(">")
    return int(u), int(v)


def check_path(S, path, s, t, best, what):
    expect(isinstance(path, list), what, "is", repr(path))
    x, u = S.alg.zero, s
    for e in path:
        k = S.w.ekey(e)
        a, b = ends(k)
        expect(any(kk == k for kk, _ in S.out.get(a, ())), what, "uses the unknown edge", k)
        equal(a, u, what, "is not made of consecutive edges: source of", k)
        x = S.alg.combine(x, S.wk[k])
        u = b
    equal(u, t, what, "ends at")
    equal(x, best[t], what, "has weight")


def check_events(S, events, s, best, complete):
    a = S.alg
    dist = {s: a.zero}
    discovered, examined, finished = {s}, [], set()
    edges = set()
    current = None
    i = 0
    inits = []
    while i < len(events):
        name, x, g = events[i]
        expect(g is S.g, name, "received another graph")
        if name == "initialize_vertex":
            expect(not examined, "initialize_vertex during the search")
            inits.append(x)
        elif name == "examine_vertex":
            expect(current is None, "vertex", x, "examined before", current, "is finished")
            expect(x in discovered, "vertex", x, "examined but not discovered")
            expect(x not in examined, "vertex", x, "examined twice")
            equal(dist[x], best[x], "value of vertex", x, "when it is examined")
            if examined:
                expect(not a.better(best[x], best[examined[-1]]), "vertices not examined in order of distance:",
                       examined[-1], "then", x)
            examined.append(x)
            current = x
        elif name == "examine_edge":
            k = S.w.ekey(x)
            u, v = ends(k)
            expect(u == current, "edge", k, "examined while vertex", current, "is")
            expect(k not in edges, "edge", k, "examined twice")
            edges.add(k)
            i += 1
            new = a.combine(dist[u], S.wk[k])
            first = v not in dist
            better = first or a.better(new, dist[v])
            if better:
                dist[v] = new
            if first:
                expect(i < len(events) and events[i][0] == "discover_vertex" and events[i][1] == v,
                       "vertex", v, "not discovered through", k, events[i:i + 1])
                expect(events[i][2] is S.g, "discover_vertex received another graph")
                discovered.add(v)
                i += 1
            expect(i < len(events) and events[i][0] in ("edge_relaxed", "edge_not_relaxed"),
                   "edge", k, "neither relaxed nor not relaxed", events[i:i + 1])
            expect(S.w.ekey(events[i][1]) == k and events[i][2] is S.g, "edge", k, "followed by", events[i])
            got = events[i][0]
            if better or not a.better(dist[v], new):
                equal(got, "edge_relaxed", "edge", k)
            else:
                equal(got, "edge_not_relaxed", "edge", k)
        elif name == "finish_vertex":
            expect(x == current, "vertex", x, "finished while", current, "is examined")
            equal({k for k, _ in S.out[x]} - edges, set(), "edges of", x, "not examined")
            finished.add(x)
            current = None
        else:
            expect(False, "unexpected event", name, x)
        i += 1
    equal(sorted(inits), S.vs, "initialised vertices")
    if complete:
        equal(set(examined), set(best), "examined vertices")
        equal(finished, set(best), "finished vertices")


def fresh(S, case):
    preds, dist, color = defaultdict(set), defaultdict(int) if case["color"] else defaultdict(), defaultdict(int)
    kw = dict(S.alg.kw)
    if case["color"]:
        kw["pmap_vcolor"] = make_assoc_property_map(color)
    events = None
    if case["vis"] is not None:
        kw["vis"], events = visitor(DijkstraVisitor, EVENTS, case["vis"])
    return preds, dist, color, kw, events


@target("C08", "dijkstra", cases, quick=450, rule="weighted graph of five classes (or a view of it), one of nine "
        "algebras, two sources and targets; distances against relaxation until stability, predecessors against all "
        "tight edges, paths and DAGs against them, visitor events replayed; non-trivial: at least three reached vertices "
        "and at least one edge that is not tight or one vertex with two tight in-edges")
def c08(case, o):
    S = Setting(case)
    before = gen.snapshot(S.g)
    for s, t in case["st"]:
        s, t = S.vs[s % len(S.vs)], S.vs[t % len(S.vs)]
        best = S.distances(s)
        tight = S.tight(best)

        preds, dist, color, kw, events = fresh(S, case)
        pd = make_assoc_property_map(dist)
        pp = make_assoc_property_map(preds)
        dijkstra_shortest_paths(S.g, s, S.pmap_eweight, pp, pd, **kw)
        for u in S.vs:
            expect(u in dist, "no distance for", u)
            equal(dist[u], best.get(u, S.alg.infty), "distance from", s, "to", u)
            if u != s:
                equal({S.w.ekey(e) for e in preds.get(u, ())}, tight.get(u, set()), "predecessors of", u)
                for e in preds.get(u, ()):
                    equal((S.g.target(e)), u, "target of a predecessor edge of", u)
        if case["color"]:
            equal({u for u in S.vs if color.get(u, WHITE) != WHITE}, set(best), "vertices whose colour changed")
            expect(all(color[u] == BLACK for u in best), "colours of the reached vertices:", color)
        if events is not None:
            check_events(S, events(), s, best, True)

        # Paths from the predecessors
        neutral = has_cycle(tight)
        for goal in {t} | set(S.vs[:3]):
            if goal not in best:
                equal(set(make_shortest_paths_dag(S.g, s, goal, pp)), set(), "DAG to an unreachable target")
                equal(set(make_shortest_paths_dag(S.g, s, goal, pp, single_path=True)), set(),
                      "single path to an unreachable target")
                continue
            path = make_shortest_path(S.g, s, goal, pp)
            check_path(S, path, s, goal, best, "make_shortest_path")
            if goal == s:
                equal(path, [], "path to itself")
            dag = {S.w.ekey(e) for e in make_shortest_paths_dag(S.g, s, goal, pp)}
            back = gen.reach([goal], lambda v: [ends(k)[0] for k in tight.get(v, ())])
            walk = {k for v in back for k in tight.get(v, ())}
            if not neutral:
                equal(dag, walk, "edges of the shortest paths DAG from", s, "to", goal)
            else:
                expect(dag <= walk, "edges", dag - walk, "of the DAG are on no optimal path")
                succ = defaultdict(set)
                for k in dag:
                    succ[ends(k)[0]].add(ends(k)[1])
                expect(goal in gen.reach([s], lambda u: succ[u]), "the DAG holds no path from", s, "to", goal)
            single = make_shortest_paths_dag(S.g, s, goal, pp, single_path=True)
            if goal != s:
                nxt = {S.g.source(e): e for e in single}
                equal(len(nxt), len(single), "a single path leaves each vertex once:", single)
                p, u = [], s
                while u != goal and u in nxt and len(p) <= len(single):
                    p.append(nxt[u])
                    u = S.g.target(nxt[u])
                equal(len(p), len(single), "edges of a single path", single)
                check_path(S, p, s, goal, best, "single path")

        preds, dist, color, kw, events = fresh(S, case)
        path = dijkstra_shortest_path(S.g, s, t, S.pmap_eweight, make_assoc_property_map(preds),
                                      make_assoc_property_map(dist), **kw)
        if t not in best:
            expect(path is None, "path to an unreachable target:", path)
        else:
            check_path(S, path, s, t, best, "dijkstra_shortest_path")
            if s == t:
                equal(path, [], "path to itself")
        if events is not None:
            evs = events()
            check_events(S, evs, s, best, t not in best)
        o.label(case["alg"], "unreachable" if t not in best else "neutral_cycle" if neutral else "no_neutral_cycle")
        many = any(len(p) > 1 for v, p in tight.items() if v != s)
        o.nontrivial(len(best) >= 3 and (many or sum(len(S.out[u]) for u in best) > sum(map(len, tight.values()))))
        if many:
            o.label("several_predecessors")
    equal(gen.snapshot(S.g), before, "the graph after the search")


def has_cycle(tight):
    """True iff the tight edges make a cycle."""
    succ = defaultdict(set)
    deg = defaultdict(int)
    vs = set()
    for v, ks in tight.items():
        for u in {ends(k)[0] for k in ks}:
            vs |= {u, v}
            succ[u].add(v)
            deg[v] += 1
    todo = [u for u in vs if not deg[u]]
    n = 0
    while todo:
        u = todo.pop()
        n += 1
        for v in succ[u]:
            deg[v] -= 1
            if not deg[v]:
                todo.append(v)
    return n < len(vs)


@target("C08", "large", wide(cases, n=400), quick=15, rule="as above on layered, wide, dense and deep graphs of up to 400 vertices "
        "(thorough: 800) or with up to 100 parallel edges; non-trivial: as above")
def c08_large(case, o):
    c08(dict(case, graph=wide_graph(case), alg=case["alg"].replace("product", "product_inf")), o)
