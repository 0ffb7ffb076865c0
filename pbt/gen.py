"""Generators of cases shared by the targets, and the construction of graphs from cases."""
from hypothesis import strategies as st


def size_of(big, small, large, rare=None):
    """Sizes: mostly small, often medium, sometimes large."""
    k = 2 if big else 1
    parts = [st.integers(0, small), st.integers(0, small), st.integers(0, large * k)]
    if rare:
        parts.append(st.integers(0, rare * k))
    return st.one_of(parts)


@st.composite
def graphs(draw, big=False, min_n=1, max_n=8, large_n=24, dag=False, acyclic_loops=False, gaps=True, density=3):
    """
    A graph as {"n", "edges": [[u, v], ...], "rm": removed vertices, "rme": indexes of removed edges}. Self-loops and
    parallel edges are common. If ``dag``, u and v are ordered by a permutation (so that numbers follow no order).
    """
    n = draw(st.one_of(
        st.integers(min_n, max_n), st.integers(min_n, max_n),
        st.integers(min_n, large_n * (2 if big else 1))
    ))
    edges = []
    if n:
        m0 = draw(st.sampled_from([0, n // 2, n, n + n // 2, 2 * n]))
        vert = st.integers(0, n - 1)
        edges = [list(e) for e in draw(st.lists(
            st.tuples(vert, vert), min_size=m0, max_size=m0 + density + n
        ))]
        shape = draw(st.sampled_from(["", "", "", "chain", "cycle", "star", "instar", "repeat"]))
        if shape == "chain":
            edges = [[i, i + 1] for i in range(n - 1)] + edges[:4]
        elif shape == "cycle":
            edges = [[i, (i + 1) % n] for i in range(n)] + edges[:4]
        elif shape == "star":
            edges = [[0, i] for i in range(n)] + edges[:4]
        elif shape == "instar":
            edges = [[i, 0] for i in range(n)] + edges[:4]
        elif shape == "repeat" and edges:
            edges = edges + edges[: draw(st.integers(1, 4))] * draw(st.integers(1, 3))
        if shape and draw(st.booleans()):
            perm = draw(st.permutations(range(n)))
            edges = [[perm[u], perm[v]] for (u, v) in edges]
    if dag and n:
        perm = draw(st.permutations(range(n)))
        edges = [
            ([u, v] if perm[u] < perm[v] else [v, u]) for (u, v) in edges if u != v
        ]
    case = {"n": n, "edges": edges}
    if gaps and n:
        if draw(st.sampled_from([False, False, True])):
            case["rm"] = sorted(set(draw(st.lists(st.integers(0, n - 1), max_size=max(1, n // 3)))))
        if edges and draw(st.sampled_from([False, False, True])):
            case["rme"] = sorted(set(draw(st.lists(st.integers(0, len(edges) - 1), max_size=3))))
    return case


def live(case):
    """(vertices, [(index, u, v)]) of a graph case after its removals."""
    rm, rme = set(case.get("rm", ())), set(case.get("rme", ()))
    vs = [u for u in range(case["n"]) if u not in rm]
    if not vs:  # never an empty graph because of removals
        rm = set(sorted(rm)[1:])
        vs = [u for u in range(case["n"]) if u not in rm]
    es = [
        (i, u, v) for i, (u, v) in enumerate(case["edges"])
        if i not in rme and u not in rm and v not in rm
    ]
    return vs, es


def build(cls, case, **kwargs):
    """
    Builds the graph of a case with the public API (every edge is added, then the removals are made).
    Returns (g, vertices, [(e, u, v)]) with the live vertices and edges.
    """
    g = cls(case["n"], **kwargs)
    descr = []
    for (u, v) in case["edges"]:
        e, added = g.add_edge(u, v)
        assert added
        descr.append(e)
    vs, es = live(case)
    for i in case.get("rme", ()):
        g.remove_edge(descr[i])
    for u in range(case["n"]):
        if u not in vs:
            g.remove_vertex(u)
    return g, vs, [(descr[i], u, v) for (i, u, v) in es]


def ekey(g, e):
    """A key of an edge that does not depend on its orientation if g is undirected."""
    u, v = g.source(e), g.target(e)
    if not g.directed and u > v:
        u, v = v, u
    return (u, v, e.distinguisher)


def snapshot(g):
    """What the public API shows of a graph (used for "is left unchanged" conditions)."""
    vs = list(g.vertices())
    s = [sorted(vs), sorted((ekey(g, e) for e in g.edges()), key=repr)]
    s.append({u: sorted(((g.target(e), e.distinguisher) for e in g.out_edges(u)), key=repr) for u in vs})
    return s


def reach(sources, succ):
    """Vertices reachable from sources; succ(u) -> iterable."""
    seen = set(sources)
    stack = list(seen)
    while stack:
        u = stack.pop()
        for v in succ(u):
            if v not in seen:
                seen.add(v)
                stack.append(v)
    return seen


def bfs_dist(sources, succ):
    """Hop distances from sources."""
    dist = {s: 0 for s in sources}
    level = list(dist)
    d = 0
    while level:
        d += 1
        nxt = []
        for u in level:
            for v in succ(u):
                if v not in dist:
                    dist[v] = d
                    nxt.append(v)
        level = nxt
    return dist


TRUE_LIKE = (True, 1, "no", [0], 0.5, {0: 0}, 2)
FALSE_LIKE = (False, 0, "", [], 0.0, {}, None)


def loose(case, f):
    """
    The predicate f itself, or (one case in three) f giving values that are merely true or false, as a predicate
    written by a user may (a membership count, a match object, a dictionary entry...).
    """
    n = len(case["edges"]) if isinstance(case, dict) else int(case)
    if n % 3:
        return f
    calls = [n]

    def g(*args):
        calls[0] += 1
        return (TRUE_LIKE if f(*args) else FALSE_LIKE)[calls[0] % 7]
    return g


def again(x):
    """An object equal to x, another one where Python allows it."""
    if isinstance(x, str):
        return x.encode("utf-8", "surrogatepass").decode("utf-8", "surrogatepass")
    if isinstance(x, tuple):
        return tuple(again(y) for y in x)
    if type(x) in (int, float):
        return type(x)(repr(x))
    return x


# Characters that case folding, normalization, truncated code points, str.split() or str.isprintable() would confuse
TRICKY = "aA\U00010061\u0161\u00df\u0301\u00e1\u2028\ufeff\u0664"
