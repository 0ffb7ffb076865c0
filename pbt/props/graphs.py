"""C01, C02: graphs are the multigraph their history describes."""
import collections
from hypothesis import strategies as st
from pbt.core import target, expect, equal
import pybgl
import pybgl.graph as G
from pybgl import DirectedGraph, IncidenceGraph, UndirectedGraph, EdgeDescriptor

CLASSES = {"D": DirectedGraph, "I": IncidenceGraph, "U": UndirectedGraph}


class Model:
    """A multigraph: vertex set and the list of live edges (descriptor returned by add_edge, u, v)."""
    def __init__(self, directed):
        self.directed = directed
        self.vs = []
        self.es = []

    def remove_vertex(self, u):
        self.vs.remove(u)
        self.es = [x for x in self.es if u not in x[1:]]


def norm(g, e):
    u, v = g.source(e), g.target(e)
    if not g.directed and u > v:
        u, v = v, u
    return EdgeDescriptor(u, v, e.distinguisher)


def check_against(g, m, incidence, pairs=None, free=False):
    """Everything the public API says of g agrees with the model."""
    api = (lambda f: (lambda *a: getattr(G, f)(*a, g))) if free else (lambda f: (lambda *a: getattr(g, f)(*a)))
    src, tgt = api("source"), api("target")
    vs = list(api("vertices")())
    equal(len(vs), len(set(vs)), "vertices() lists duplicates")
    equal(set(vs), set(m.vs), "vertices()")
    equal(api("num_vertices")(), len(m.vs), "num_vertices()")
    equal(bool(api("has_vertex")()), bool(m.vs), "has_vertex()")
    es = list(api("edges")())
    equal(len(es), len(set(es)), "edges() lists duplicates")
    want = {norm(g, e) for (e, _, _) in m.es}
    equal(len(want), len(m.es), "live edges with equal descriptors")
    equal({norm(g, e) for e in es}, want, "edges()")
    equal(api("num_edges")(), len(m.es), "num_edges()")
    equal(bool(api("has_edge")()), bool(m.es), "has_edge()")
    out, inn, cnt = collections.defaultdict(list), collections.defaultdict(list), collections.Counter()
    for (e, u, v) in m.es:
        k = norm(g, e)
        out[u].append((u, v, k))
        cnt[u, v] += 1
        if m.directed:
            inn[v].append((u, v, k))
            expect(src(e) == u and tgt(e) == v, "source/target of", e)
        else:
            expect({src(e), tgt(e)} == {u, v}, "endpoints of", e)
            if u != v:
                out[v].append((v, u, k))
                cnt[v, u] += 1
    if not m.directed:
        inn = out

    def key(x):
        return (x[0], x[1], x[2].distinguisher)
    for u in vs:
        got = [(src(e), tgt(e), norm(g, e)) for e in api("out_edges")(u)]
        equal(sorted(got, key=key), sorted(out[u], key=key), "out_edges(%d)" % u)
        equal(api("out_degree")(u), len(out[u]), "out_degree(%d)" % u)
        if incidence:
            got = [(src(e), tgt(e), norm(g, e)) for e in api("in_edges")(u)]
            equal(sorted(got, key=key), sorted(inn[u], key=key), "in_edges(%d)" % u)
            equal(api("in_degree")(u), len(inn[u]), "in_degree(%d)" % u)
    if m.directed:  # descriptors are equal wherever the edge is seen, and hash alike
        descr = {e: (u, v) for (e, u, v) in m.es}
        for e in es:
            expect(e in descr and descr[e] == (src(e), tgt(e)), "edge", (src(e), tgt(e)), "unknown descriptor")
    else:           # the descriptor returned by add_edge is the one edges() lists
        listed = set(es)
        for (e, u, v) in m.es:
            expect(e in listed, "the descriptor add_edge returned for", (u, v), "is not among edges()")
    some = sorted(es)[:12] if len(es) <= 60 else es[:12]
    for i, e in enumerate(some):
        expect(not (e == None) and e != None, "a descriptor equals None")  # noqa: E711
        for j, f in enumerate(some):
            equal((e < f) + (e == f) + (f < e), 1, "order of the descriptors of", e, f)
            if len(es) <= 60:
                expect(i >= j or e < f, "sorted descriptors", e, f)
            expect(e != f or hash(e) == hash(f), "hash of equal descriptors")
    if pairs is None:
        pairs = [(u, v) for u in vs for v in vs]
    byuv = {}
    for (e, u, v) in m.es:
        byuv[u, v] = norm(g, e)
        if not m.directed:
            byuv[v, u] = norm(g, e)
    for (u, v) in pairs:
        e, found = api("edge")(u, v)
        equal(bool(found), cnt[u, v] == 1, "edge(%d, %d) found" % (u, v))
        if found:
            equal(norm(g, e), byuv[u, v], "edge(%d, %d)" % (u, v))
            if m.directed:
                equal((src(e), tgt(e)), (u, v), "edge(%d, %d)" % (u, v))
        else:
            expect(e is None, "edge(%d, %d) not found but" % (u, v), e)
    equal(G.is_directed(g), m.directed, "is_directed")


def pick_edge(g, m, a, how, incidence):
    """The a-th live edge (modulo) as a descriptor seen through add_edge, edges, out_edges, in_edges or edge."""
    i = a % len(m.es)
    e0, u, v = m.es[i]
    k = norm(g, e0)
    if how % 6 == 0:
        return i, e0
    if how % 6 == 1:
        return i, next(e for e in g.edges() if norm(g, e) == k)
    if how % 6 == 2:
        return i, next(e for e in g.out_edges(u) if norm(g, e) == k)
    if how % 6 == 3 and incidence:
        return i, next(e for e in g.in_edges(v) if norm(g, e) == k)
    if how % 6 == 4 and not m.directed:
        return i, next(e for e in g.out_edges(v) if norm(g, e) == k)
    if how % 6 == 5:
        e, found = g.edge(u, v)
        if found:
            return i, e
    return i, EdgeDescriptor(e0.source, e0.target, e0.distinguisher)


def remove_absent(g, m, gone, gone_vs, a, b, how, o):
    """Removes an edge or a vertex that is no longer in the graph: nothing changes (this may raise)."""
    live = {norm(g, e) for (e, _, _) in m.es}
    es = [e for e in gone if norm(g, e) not in live]
    vs = [u for u in gone_vs if u not in m.vs]
    try:
        if vs and (how % 3 == 0 or not es):
            u = vs[a % len(vs)]
            o.label("remove absent vertex")
            G.remove_vertex(u, g) if b % 2 else g.remove_vertex(u)
        elif es:
            e = es[-1 - a % len(es)]
            if not g.directed and how % 2:
                e = EdgeDescriptor(e.target, e.source, e.distinguisher)
            o.label("remove absent edge")
            G.remove_edge(e, g) if b % 2 else g.remove_edge(e)
    except Exception:
        pass


def check_absent(g, us, incidence):
    """No edge leaves or enters a vertex which is no longer in the graph (asking may raise)."""
    for u in us:
        for name in ("out_edges", "in_edges") if incidence else ("out_edges",):
            try:
                es = list(getattr(g, name)(u))
            except Exception:
                continue
            expect(not es, name, "of", u, "which is not in the graph:", es)
        try:
            e, found = g.edge(u, u)
        except Exception:
            continue
        expect(not found, "edge(%d, %d) found" % (u, u), e)


def first_query(g, m, incidence, k):
    """A single query, before any other one."""
    k %= 9
    if k == 0:
        equal(sorted(g.vertices()), sorted(m.vs), "vertices()")
    elif k == 1:
        equal((g.num_vertices(), bool(g.has_vertex())), (len(m.vs), bool(m.vs)), "num_vertices(), has_vertex()")
    elif k == 2:
        equal((g.num_edges(), bool(g.has_edge())), (len(m.es), bool(m.es)), "num_edges(), has_edge()")
    elif k == 3:
        equal(bool(g.has_edge()), bool(m.es), "has_edge()")
    elif k in (4, 5, 6) and m.vs:
        u = m.vs[-1] if k == 5 else m.vs[0] if k == 4 else m.vs[len(m.vs) // 2]
        n = sum(1 for (_, a, b) in m.es if u == a or (u == b and not m.directed))
        if k == 5:
            equal(g.out_degree(u), n, "out_degree(%d)" % u)
        equal(len(list(g.out_edges(u))), n, "out_edges(%d)" % u)
    elif k == 7 and m.vs and incidence:
        u = m.vs[-1]
        n = sum(1 for (_, a, b) in m.es if u == b or (u == a and not m.directed))
        equal(g.in_degree(u), n, "in_degree(%d)" % u)
        equal(len(list(g.in_edges(u))), n, "in_edges(%d)" % u)
    elif k == 8 and m.es:
        (_, u, v) = m.es[-1]
        n = sum(1 for (_, a, b) in m.es if (u, v) == (a, b) or ((v, u) == (a, b) and not m.directed))
        equal(bool(g.edge(u, v)[1]), n == 1, "edge(%d, %d) found" % (u, v))


def run_history(cls, case, o):
    incidence = cls is not DirectedGraph
    every = case.get("every", 1)
    ms = [Model(cls is not UndirectedGraph), Model(cls is not UndirectedGraph)]
    gs = [cls(case["n"]), cls()]
    ms[0].vs = list(range(case["n"]))
    equal(sorted(gs[0].vertices()), ms[0].vs, "initial vertices")
    removed = readded = parallel = loops = 0
    gone, gone_vs = ([], []), (set(), set())
    for step, (w, op, a, b, how) in enumerate(case["ops"]):
        g, m = gs[w], ms[w]
        old_es, old_vs = list(m.es), set(m.vs)
        free = how % 2 == 1
        if op == "v" or (op == "e" and not m.vs):
            u = G.add_vertex(g) if free else g.add_vertex()
            expect(u not in m.vs, "add_vertex returned an identifier in use:", u)
            m.vs.append(u)
        elif op in "eE":
            if not m.vs:
                continue
            u, v = m.vs[a % len(m.vs)], m.vs[b % len(m.vs)]
            for _ in range(1 if op == "e" else 1 + how):
                e, added = G.add_edge(u, v, g) if free else g.add_edge(u, v)
                expect(added is True, "add_edge refused")
                hash(e)
                expect(all(e != x[0] for x in m.es), "add_edge returned the descriptor of a live edge")
                expect(e == e and not (e != e), "descriptor not equal to itself")
                parallel += any({u, v} == {x[1], x[2]} for x in m.es)
                loops += u == v
                readded += removed > 0
                m.es.append((e, u, v))
        elif op == "r":
            if not m.es:
                continue
            i, e = pick_edge(g, m, a, how, incidence)
            G.remove_edge(e, g) if b % 2 else g.remove_edge(e)
            del m.es[i]
            removed += 1
        elif op == "R":
            if not m.vs:
                continue
            u = m.vs[a % len(m.vs)]
            removed += any(u in x[1:] for x in m.es)
            G.remove_vertex(u, g) if free else g.remove_vertex(u)
            m.remove_vertex(u)
        elif op == "c":
            g.clear()
            m.vs, m.es = [], []
        elif op == "x":
            remove_absent(g, m, gone[w], sorted(gone_vs[w]), a, b, how, o)
        now = {norm(g, x[0]) for x in m.es}
        gone[w].extend(x[0] for x in old_es if norm(g, x[0]) not in now)
        gone_vs[w].update(old_vs - set(m.vs))
        if step % every != every - 1:
            continue
        if every > 1:
            first_query(g, m, incidence, case["first"] + step)
        check_absent(g, sorted(gone_vs[w] - set(m.vs))[:3], incidence)
        pairs = None if len(m.vs) <= 6 else [(u, v) for (_, u, v) in m.es][:10] + [(v, u) for (_, u, v) in m.es][:5]
        check_against(g, m, incidence, pairs, free=step % 3 == 2)
        check_against(gs[1 - w], ms[1 - w], incidence, [])
    for g, m in zip(gs, ms):
        if every > 1:
            first_query(g, m, incidence, case["first"] + len(case["ops"]))
        check_against(g, m, incidence)
        check_against(g, m, incidence, free=True)
    o.nontrivial(removed and (parallel or loops))
    o.label(*[k for k, x in (("removal", removed), ("parallel", parallel), ("loop", loops), ("re-add", readded)) if x])


def histories(classes):
    def strategy(big):
        small = st.integers(0, 7)
        op = st.tuples(
            st.sampled_from([0, 0, 0, 0, 0, 1]), st.sampled_from("vveeeeeeeeErrrrRcxx"), small, small, st.integers(0, 11)
        ).map(list)
        hist = st.one_of(
            st.lists(op, max_size=12), st.lists(op, min_size=8, max_size=60 if big else 30),
        )
        return st.fixed_dictionaries({
            "cls": st.sampled_from(classes), "n": st.integers(0, 5), "ops": hist,
            "every": st.sampled_from([1, 1, 1, 2, 4, 1000]), "first": st.integers(0, 8),
        })
    return strategy


RULE = "history of add/remove/clear operations on two graphs, compared with a multigraph after every step, every few steps or at the end; " \
       "non-trivial: removes an edge or a vertex with edges, and has a parallel edge or a loop"


@target("C01", "history", histories(["D", "I"]), quick=500, rule=RULE)
def c01_history(case, o):
    o.label(case["cls"])
    run_history(CLASSES[case["cls"]], case, o)


@target("C02", "history", histories(["U"]), quick=700, rule=RULE)
def c02_history(case, o):
    run_history(UndirectedGraph, case, o)


def large(classes):
    def strategy(big):
        n = st.one_of(*[st.integers(0, 160 if not big else 400)] * 3, st.integers(1000, 1200))
        return st.fixed_dictionaries({
            "cls": st.sampled_from(classes), "n": n,
            "shape": st.sampled_from(["chain", "cycle", "star", "instar", "pair", "loops", "random"]),
            "k": st.one_of(*[st.integers(1, 80)] * 3, st.integers(200, 600)), "mul": st.integers(1, 40), "rmv": st.lists(st.integers(0, 500), max_size=6),
            "rme": st.lists(st.integers(0, 5000), max_size=40), "again": st.booleans(),
        })
    return strategy


def shape_edges(case):
    n, k, mul = case["n"], case["k"], case["mul"]
    s = case["shape"]
    if n == 0:
        return []
    if s == "chain":
        return [(i, i + 1) for i in range(n - 1)]
    if s == "cycle":
        return [(i, (i + 1) % n) for i in range(n)]
    if s == "star":
        return [(0, i) for i in range(n)]
    if s == "instar":
        return [(i, n - 1) for i in range(n)]
    if s == "pair":
        return [(0, min(1, n - 1))] * k + [(min(1, n - 1), 0)] * mul
    if s == "loops":
        return [(i % n, i % n) for i in range(k)]
    return [((i * (2 * mul + 1)) % n, (i * i + mul) % n) for i in range(3 * k)]


def run_large(case, o):
    cls = CLASSES[case["cls"]]
    directed = cls is not UndirectedGraph
    m = Model(directed)
    g = cls(case["n"])
    m.vs = list(range(case["n"]))

    def add():
        for (u, v) in shape_edges(case):
            if u in m.vs and v in m.vs:
                e, _ = g.add_edge(u, v)
                m.es.append((e, u, v))
    add()
    for i in case["rme"]:
        if m.es:
            g.remove_edge(m.es.pop(i % len(m.es))[0])
    for i in case["rmv"]:
        if m.vs:
            u = m.vs[i % len(m.vs)]
            g.remove_vertex(u)
            m.remove_vertex(u)
    if case["again"]:
        add()
        u = g.add_vertex()
        expect(u not in m.vs, "add_vertex returned an identifier in use:", u)
        m.vs.append(u)
    pairs = [(u, v) for (_, u, v) in m.es[:30]] + [(v, u) for (_, u, v) in m.es[-30:]]
    check_against(g, m, cls is not DirectedGraph, pairs)
    o.nontrivial(len(m.es) > 30)


LARGE_RULE = "large graphs of a fixed shape after removals (and re-additions); non-trivial: more than 30 live edges"


@target("C01", "large", large(["D", "I"]), quick=60, rule=LARGE_RULE)
def c01_large(case, o):
    run_large(case, o)


@target("C02", "large", large(["U"]), quick=60, rule=LARGE_RULE)
def c02_large(case, o):
    run_large(case, o)
