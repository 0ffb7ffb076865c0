"""C23: Graphviz export and import; C24: GraphDp."""
import contextlib
import html
import io
import json
import os
import re
import shutil
import subprocess
import tempfile
from collections import defaultdict
from xml.etree import ElementTree
from hypothesis import strategies as st
from pbt import dotparse, gen
from pbt.core import target, expect, equal
from pybgl import (
    Automaton, DigitalSequence, DirectedGraph, GraphDp, GraphView, GraphvizStyle, IncidenceAutomaton, IncidenceGraph, IncidenceNodeAutomaton,
    Nfa, NodeAutomaton, UndirectedGraph, make_assoc_property_map, make_func_property_map,
)
from pybgl.graphviz import (
    ReadGraphvizVisitor, dot_to_svg, dotstr_to_html, graph_to_html, read_graphviz, read_graphviz_dp, run_graphviz, write_graphviz,
)
from pybgl.graphviz import to_dot as f_to_dot

TAG = re.compile(r"<\s*/?\s*(b|br|font|hr|i|img|o|s|sub|sup|table|td|tr|u|vr)\b", re.IGNORECASE)
ESCAPE = re.compile(r"\\[\\NGETHL]")
RAW = st.text("abcxyz0189 .,;:=[]{}<>()-_#/+*é^$%!'|", max_size=10)   # shown between double quotes as it is
LABEL = st.one_of(
    st.text("ab<>&[]{};= \"'", max_size=8), st.text("abc\"'\\<>&;#%|=,.-_[]{}()", max_size=12),
    st.text(st.characters(codec="utf-8", categories=["L", "N", "P", "S", "Zs"]), max_size=8).filter(str.isprintable),
    st.sampled_from(["", "a", "&amp;", "&lt;b&gt;", "a -> b;", "x=1; y=2", "]", "];", "[\"]\"];", "-->", "<!--", "<x/>", "a\\nb", "</x>", "0 -> 1;", "< bb >", "&#60;",
                     "label=<a>", "a>; color=<b", "\"; color=\"red"]),
).filter(lambda s: not TAG.search(s) and not ESCAPE.search(s) and s.isprintable())
PLAIN_GRAPHS = {"D": DirectedGraph, "U": UndirectedGraph, "I": IncidenceGraph}


@st.composite
def graph_cases(draw, big=False, kinds=("D", "U", "I", "D", "U", "A", "IA", "NFA", "N", "IN", "S", "VD", "VU")):
    k = draw(st.sampled_from(kinds))
    if k in ("D", "U", "I", "VD", "VU"):
        c = draw(gen.graphs(big, min_n=0, max_n=5, large_n=9, density=2))
        if k[0] == "V":
            c["hide"] = draw(st.lists(st.integers(0, 8), max_size=3))
            c["hidee"] = draw(st.lists(st.integers(0, 8), max_size=3))
        elif c["n"] > len(c.get("rm", ())):
            c["gap"] = draw(st.sampled_from([0] * 12 + [5, 95, 995, 1100]))
    elif k == "S":
        c = {"w": draw(st.text("ab<&]\"", max_size=6))}
    else:
        n = draw(st.integers(1, 5))
        q = st.integers(0, n - 1)
        sym = st.one_of(st.sampled_from("ab<&>[\"ε"), LABEL.filter(bool)) if k != "NFA" else st.one_of(st.sampled_from(["a", "<", "&", "ε"]), LABEL.filter(bool))
        c = {"n": n, "t": draw(st.lists(st.tuples(q, q, sym).map(list), max_size=7)), "fin": draw(st.lists(q, max_size=3)),
             "q0": draw(st.one_of(q, st.none())), "sym": draw(st.lists(LABEL, min_size=n, max_size=n))}
    c["kind"] = k
    return c


def make(c):
    """(graph, selected vertices, selected edges, per-vertex default attributes, per-edge default attributes)."""
    k = c["kind"]
    if k in PLAIN_GRAPHS:
        gap = c.get("gap", 0)
        if gap:     # vertices with large numbers
            c = {"n": c["n"] + gap, "edges": [[u + gap, v + gap] for u, v in c["edges"]], "rm": list(range(gap)) + [u + gap for u in c.get("rm", ())], "rme": c.get("rme", ())}
        g, vs, es = gen.build(PLAIN_GRAPHS[k], c)
        return g, vs, [e for e, _, _ in es], {}, {}
    if k[0] == "V":
        g, vs, es = gen.build(PLAIN_GRAPHS[k[1]], c)
        hv = set(c["hide"])
        he = {es[i % len(es)][0] for i in c["hidee"] if es}
        view = GraphView(g, pmap_vrelevant=make_func_property_map(lambda u: u not in hv), pmap_erelevant=make_func_property_map(lambda e: e not in he))
        return view, [u for u in vs if u not in hv], [e for e, u, v in es if u not in hv and v not in hv and e not in he], {}, {}
    if k == "S":
        w = c["w"]
        g = DigitalSequence(w)
        return (g, list(range(len(w) + 1)), list(g.edges()),
                {"shape": {q: "doublecircle" if q == len(w) else "circle" for q in range(len(w) + 1)}}, {"label": {e: w[g.source(e)] for e in g.edges()}})
    n = c["n"]
    shape = {q: "doublecircle" if q in c["fin"] else "circle" for q in range(n)}
    if k == "NFA":
        g = Nfa(n, initials={0 if c["q0"] is None else c["q0"]})
    elif k in ("N", "IN"):
        g = (NodeAutomaton if k == "N" else IncidenceNodeAutomaton)()
        for a in c["sym"]:
            g.add_vertex(a)
        g.set_initial(c["q0"])
    else:
        g = (Automaton if k == "A" else IncidenceAutomaton)(n)
        g.set_initial(c["q0"])
    es, seen = [], set()
    labels = {}
    for q, r, a in c["t"]:
        if k in ("N", "IN"):
            key = (q, c["sym"][r])
            if key in seen:
                continue
            e, added = g.add_edge(q, r)
        else:
            key = (q, a, r) if k == "NFA" else (q, a)
            if key in seen:
                continue
            e, added = g.add_edge(q, r, a)
            labels[e] = a
        seen.add(key)
        assert added
        es.append(e)
    for q in c["fin"]:
        g.set_final(q)
    if k in ("N", "IN"):
        return (g, list(range(n)), es, {"shape": shape, "label": {q: "^" if q == c["q0"] else c["sym"][q] for q in range(n)}},
                {"label": {e: c["sym"][g.target(e)] for e in es}})
    if k == "NFA":
        labels = {e: "<i>ε</i>" if a == g.epsilon else a for e, a in labels.items()}
    return g, list(range(n)), es, {"shape": shape}, {"label": labels}


KEYS = ["label", "label", "color", "shape", "tooltip", "my_key", "fontsize", "URL", "myKey2", "xlabel"]
STYLES = st.dictionaries(st.sampled_from(["color", "rankdir", "fontname", "shape", "x1"]), st.one_of(RAW, RAW, RAW, st.just("")), max_size=3)


def values(key, lo):
    return st.lists(st.one_of(LABEL if key == "label" else RAW, LABEL if key == "label" else RAW, st.integers(-5, 120), st.none()), min_size=lo, max_size=lo)


@st.composite
def tables(draw):
    """Attributes: {key: list of values cycled over the vertices or edges}."""
    return {k: draw(values(k, draw(st.integers(1, 4)))) for k in draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=3))}


@st.composite
def dot_cases(draw, big=False):
    return {
        "g": draw(graph_cases(big)), "dpv": draw(tables()), "dpe": draw(tables()),
        "vs": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 8), max_size=4))), "es": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 8), max_size=4))),
        "dg": draw(st.one_of(st.none(), STYLES)), "dv": draw(st.one_of(st.none(), STYLES)), "de": draw(st.one_of(st.none(), STYLES)),
        "extra": draw(st.sampled_from([None, None, "", "node [peripheries=\"2\"]", "edge [color=\"late\"; x1=\"late\"]", "splines=\"true\"; graph [a1=\"x\"]"])),
        "style": draw(st.sampled_from([None, None, "", "graph [bgcolor=\"red\"; q=\"1\"]; edge [style=\"dotted\"]"])),
        "gs": draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries({k: st.dictionaries(st.sampled_from(["style", "shape", "fontsize", "penwidth", "u1"]), RAW, max_size=4) for k in (
            "graph", "node", "edge")}))),
        "gx": draw(st.sampled_from([[], [], ["concentrate=\"true\""], ["concentrate=\"true\"", "edge [arrowsize=\"2\"]"], ["node [u1=\"x\"]", "ratio=\"1\"", "dpi=\"9\""]])),
        "none": draw(st.lists(st.sampled_from(["graph", "node", "edge"]), unique=True)) if draw(st.integers(0, 3)) == 0 else [],
        "fmt": draw(st.sampled_from([None, None, None, "n%d", "%d1"])), "how": draw(st.sampled_from(["method", "function"])),
        "fg": draw(st.sampled_from([None, None, None, "grey"])), "bg": draw(st.sampled_from([None, None, None, "white"])),
    }


class GraphvizStyleGuard:
    """Restores the global style."""
    def __enter__(self):
        self.saved = (dict(GraphvizStyle.graph), dict(GraphvizStyle.node), dict(GraphvizStyle.edge), list(GraphvizStyle.extra_style))
        return self

    def __exit__(self, *args):
        for d, s in zip((GraphvizStyle.graph, GraphvizStyle.node, GraphvizStyle.edge), self.saved):
            d.clear()
            d.update(s)
        GraphvizStyle.extra_style[:] = self.saved[3]


def cycled(table, items):
    return {k: {x: vals[i % len(vals)] for i, x in enumerate(items)} for k, vals in table.items()}


def pmaps(maps, kind):
    if kind == "func":
        return {k: make_func_property_map(lambda x, m=m: m[x]) for k, m in maps.items()}
    out = {}
    for k, m in maps.items():
        d = defaultdict(lambda: None)
        d.update(m)
        out[k] = make_assoc_property_map(d)
    return out


def attrs_of(maps, x):
    return {k: str(m[x]) for k, m in maps.items() if m[x] is not None}


def same_statements(d, g, vs, es, vmaps, emaps, name):
    equal(d.type, "digraph" if g.directed else "graph", "type of the graph")
    want = [(name(u), attrs_of(vmaps, u)) for u in vs]
    equal(sorted(d.nodes, key=repr_sorted), sorted(want, key=repr_sorted), "vertex statements")
    conn = "->" if g.directed else "--"
    for _, c, _, _ in d.edges:
        equal(c, conn, "edge connector")

    def ends(u, v):
        return (u, v) if g.directed else tuple(sorted((u, v)))
    got = [(ends(u, v), a) for u, _, v, a in d.edges]
    want = [(ends(name(g.source(e)), name(g.target(e))), attrs_of(emaps, e)) for e in es]
    equal(sorted(got, key=repr_sorted), sorted(want, key=repr_sorted), "edge statements")


def repr_sorted(t):
    return repr((t[0], sorted(t[1].items())))


def parsed(s):
    try:
        return dotparse.parse(s)
    except (dotparse.DotError, ValueError) as e:
        expect(False, "invalid DOT (%s): %r" % (e, s))


@target("C23", "statements", dot_cases, quick=260, rule="graphs (directed, undirected, incidence, views), automata and digital sequences exported "
        "with random attribute maps, styles, selections and vertex names; the text is parsed by an independent DOT parser; non-trivial: a vertex, "
        "an edge and an attribute map")
def c23(case, o):
    with GraphvizStyleGuard():
        style = {"graph": dict(GraphvizStyle.graph), "node": dict(GraphvizStyle.node), "edge": dict(GraphvizStyle.edge)}
        if case["fg"]:
            GraphvizStyle.set_fg_color(case["fg"])
            for x, k in (("graph", "fontcolor"), ("node", "color"), ("node", "fontcolor"), ("edge", "color"), ("edge", "fontcolor")):
                style[x][k] = case["fg"]
        if case["bg"]:
            GraphvizStyle.set_bg_color(case["bg"])
            style["graph"]["bgcolor"] = case["bg"]
        for k in case["none"]:
            getattr(GraphvizStyle, k).clear()
            style[k].clear()
        for k, d in (case["gs"] or {}).items():
            getattr(GraphvizStyle, k).update(d)
            style[k].update(d)
        GraphvizStyle.extra_style[:] = case["gx"]
        sets = {}
        for x in case["gx"]:
            if "[" in x:
                style[x.split()[0]].update([x.partition("[")[2][:-1].replace("\"", "").split("=")])
            else:
                sets.update([x.replace("\"", "").split("=")])
        g, vs, es, dv0, de0 = make(case["g"])
        kind = case["g"]["kind"]
        vmaps, emaps = cycled(case["dpv"], vs), cycled(case["dpe"], es)
        kwargs = {"dpv": pmaps(vmaps, "func") if vmaps or case["how"] == "method" else None, "dpe": pmaps(emaps, "assoc")}
        method = case["how"] == "method" or kind[0] == "V"
        if method:
            vmaps, emaps = {**dv0, **vmaps}, {**de0, **emaps}
        if case["vs"] is not None:
            vs = [u for i, u in enumerate(vs) if i in case["vs"]]
            kwargs["vs"] = set(vs) if kind[0] == "V" else iter(vs) if len(vs) % 2 else list(vs)
        if case["es"] is not None:
            es = [e for i, e in enumerate(es) if i in case["es"]]
            kwargs["es"] = set(es) if kind[0] == "V" else list(es)
        for k in ("dg", "dv", "de"):
            if case[k] is not None:
                kwargs[k] = dict(case[k])
        if case["extra"] is not None:
            kwargs["extra_style"] = case["extra"]
        if case["style"] is not None:
            kwargs["graphviz_style"] = case["style"]
        name = str
        if case["fmt"]:
            name = lambda u: case["fmt"] % u    # noqa: E731
            kwargs["vertex_to_str"] = name
        keep = {k: dict(v) for k, v in kwargs.items() if isinstance(v, dict)}
        shape = None if kind == "S" else gen.snapshot(g) if kind in PLAIN_GRAPHS else None
        text = g.to_dot(**kwargs) if method else f_to_dot(g, **kwargs)
        equal({k: dict(v) for k, v in kwargs.items() if isinstance(v, dict)}, keep, "arguments of to_dot")
        if shape is not None:
            equal(gen.snapshot(g), shape, "graph left unchanged")
        d = parsed(text)
        same_statements(d, g, vs, es, vmaps, emaps, name)
        want = {"graph": {}, "node": {}, "edge": {}} if case["style"] is not None else style
        if case["style"]:
            want["graph"].update(bgcolor="red", q="1")
            want["edge"].update(style="dotted")
        for k, x in (("dg", "graph"), ("dv", "node"), ("de", "edge")):
            want[x].update(case[k] or {})
        if case["style"] is not None:
            sets = {}
        if case["extra"] and case["extra"][:4] == "edge":
            want["edge"].update(color="late", x1="late")
        elif case["extra"]:
            if "splines" in case["extra"]:
                sets["splines"] = "true"
            want["node" if "node" in case["extra"] else "graph"].update({"peripheries": "2"} if "node" in case["extra"] else {"a1": "x"})
        equal(d.defaults, want, "default attributes")
        equal(d.sets, sets, "attributes of the graph")
        o.nontrivial(vs and es and (vmaps or emaps))
        o.label(kind)


# --------------------------------------------------------------------------------------------------- Labels and dot

@st.composite
def label_cases(draw, big=False):
    n = draw(st.integers(2, 12))
    marked = []
    for _ in range(n):
        if draw(st.integers(0, 4)):
            marked.append([["", draw(LABEL)]])
        else:
            marked.append(draw(st.lists(st.tuples(st.sampled_from(["b", "i", "u", "s", "sub", "sup", "B", "font color=\"red\"", "br/", "", "br align=\"left\"/", "BR/", "I", "FONT COLOR=\"blue\"", "o"]),
                                                  LABEL.filter(lambda s: s.strip())).map(list), min_size=1, max_size=3)))
    return {"labels": marked, "directed": draw(st.booleans())}


def markup(pieces):
    out = ""
    for tag, text in pieces:
        out += text if not tag else "<%s>" % tag + text if tag[:2].lower() == "br" else "<%s>%s</%s>" % (tag, text, tag.split()[0])
    return out


def need_dot():
    if shutil.which("dot") is None:
        raise FileNotFoundError("the dot program")


def squeeze(s):
    return "".join(c for c in s if not c.isspace())


def texts(svg, kind):
    """{title: displayed text without white space} of the nodes or edges of an SVG document."""
    ns = "{http://www.w3.org/2000/svg}"
    out = {}
    for x in ElementTree.fromstring(svg).iter(ns + "g"):
        if x.get("class") == kind:
            out[x.find(ns + "title").text] = squeeze("".join(t.text or "" for t in x.iter(ns + "text")))
    return out


@target("C23", "labels", label_cases, quick=45, rule="paths whose vertices and edges are labelled with random printable texts (and supported HTML tags), "
        "rendered to SVG by the dot program: every text must be displayed; non-trivial: a label with a character special in HTML or DOT")
def c23_labels(case, o):
    need_dot()
    cls = DirectedGraph if case["directed"] else UndirectedGraph
    labels = [markup(p) for p in case["labels"]]
    want = [squeeze("".join(t for _, t in p)) for p in case["labels"]]
    k = len(labels) // 2 + 1
    g = cls(k)
    es = {}
    for i in range(len(labels) - k):
        e, _ = g.add_edge(i, i + 1)
        es[e] = k + i
    text = g.to_dot(dpv={"label": make_func_property_map(lambda u: labels[u])}, dpe={"label": make_func_property_map(lambda e: labels[es[e]])})
    p = subprocess.run(["dot", "-Tsvg"], input=text.encode("utf-8"), capture_output=True, timeout=60)
    expect(p.returncode == 0, "dot rejects", repr(text), p.stderr.decode("utf-8", "replace")[:300])
    svg = p.stdout.decode("utf-8")
    equal(texts(svg, "node"), {str(u): want[u] for u in range(k)}, "texts of the vertices of %r" % text)
    c = "->" if case["directed"] else "--"
    got = texts(svg, "edge")
    equal(got, {"%d%s%d" % (g.source(e), c, g.target(e)): want[i] for e, i in es.items()}, "texts of the edges of %r" % text)
    o.nontrivial(any(set(s) & set("<>&[]{}\"'\\;=") for s in labels))
    o.label("tags" if any(t for p in case["labels"] for t, _ in p) else "text")


# ------------------------------------------------------------------------------------------------------- Round trip

@st.composite
def trip_cases(draw, big=False):
    return {"g": draw(graph_cases(big, kinds=("D", "U", "I"))), "dpv": draw(tables()), "dpe": draw(tables()), "drop": draw(st.booleans()),
            "into": draw(st.sampled_from("DUI")), "pre": draw(st.sampled_from([0, 0, 0, 2])), "holes": draw(st.sampled_from([0, 0, 0, 1, 2])), "how": draw(st.sampled_from(["str", "lines", "gen"])),
            "visitor": draw(st.booleans())}


@target("C23", "round-trip", trip_cases, quick=300, rule="graphs exported with random attributes, then read back (text, list or generator of lines) into an empty or "
        "non-empty graph: isomorphism and attributes; non-trivial: an edge and an attribute")
def c23_trip(case, o):
    g, vs, es, _, _ = make(case["g"])
    vmaps, emaps = cycled(case["dpv"], vs), cycled(case["dpe"], es)
    text = g.to_dot(dpv=pmaps(vmaps, "assoc"), dpe=pmaps(emaps, "func"))
    h = (UndirectedGraph if not g.directed else IncidenceGraph if case["into"] == "I" else DirectedGraph)(case["pre"] + case["holes"])
    for u in range(case["holes"]):      # the graph in which the text is read has lost vertices
        h.remove_vertex(u)
    old = set(h.vertices())
    vkeys, ekeys = sorted(vmaps), sorted(emaps)
    if case["drop"]:
        vkeys, ekeys = vkeys[1:], ekeys[:-1]
    got_v, got_e = {k: defaultdict(lambda: None) for k in vkeys}, {k: defaultdict(lambda: None) for k in ekeys}
    src = text if case["how"] == "str" else text.splitlines(keepends=True) if case["how"] == "lines" else (x for x in text.split("\n"))
    others = []
    if case["visitor"] or case["holes"]:
        class Vis(ReadGraphvizVisitor):
            vs, es = [], []

            def on_vertex(self, line, u_alias, g, opts):
                u = super().on_vertex(line, u_alias, g, opts)
                self.vs.append(u)
                return u

            def on_else(self, line):
                others.append(line)

            def on_edge(self, line, u_alias, v_alias, g, opts):
                e = super().on_edge(line, u_alias, v_alias, g, opts)
                self.es.append(e)
                return e

            def on_install_vertex_property(self, u, g, key, value):
                expect(g is h, "graph given to the visitor")
                if key in got_v:
                    got_v[key][u] = value

            def on_install_edge_property(self, e, g, key, value):
                if key in got_e:
                    got_e[key][e] = value
        read_graphviz(src, h, Vis())
        equal([x for x in others if x], [x.strip() for x in text.splitlines() if x.strip() and not re.match(r"\s*\d+ *(-[->] *\d+ *)?(\[.*\])? *;$", x)], "lines given to on_else")
        new = Vis.vs
        equal(sorted(new), sorted(set(h.vertices()) - old), "vertices reported by the visitor")
        equal(sorted(map(repr, Vis.es)), sorted(map(repr, h.edges())), "edges reported by the visitor")
    else:
        read_graphviz_dp(src, h, {k: make_assoc_property_map(d) for k, d in got_v.items()} or None, {k: make_assoc_property_map(d) for k, d in got_e.items()})
    equal((h.num_vertices(), h.num_edges()), (case["pre"] + len(vs), len(es)), "size of the graph read from %r" % text)
    if not (case["visitor"] or case["holes"]):
        new = sorted(set(h.vertices()) - old)
    equal(len(set(new)), len(vs), "vertices read")
    order = [int(m.group(1)) for m in re.finditer(r"^\s*(\d+) *(\[.*\])?;$", text, re.MULTILINE)]
    equal(sorted(order), sorted(vs), "vertices listed")
    alias = dict(zip(order, new))
    for k in vkeys:
        equal({u: x for u, x in got_v[k].items() if x is not None}, {alias[u]: str(x) for u, x in vmaps[k].items() if x is not None}, "attribute %s of the vertices" % k)

    def key(gr, e, maps, f):
        u, v = f(gr.source(e)), f(gr.target(e))
        if not gr.directed and u > v:
            u, v = v, u
        return repr(((u, v), [(k, None if maps[k][e] is None else str(maps[k][e])) for k in ekeys]))
    equal(sorted(key(h, e, got_e, lambda u: u) for e in h.edges()), sorted(key(g, e, emaps, alias.get) for e in es), "edges and attributes read from %r" % text)
    # The plain reader
    h2 = type(h)(0)
    read_graphviz(text, h2)
    equal((h2.num_vertices(), h2.num_edges()), (len(vs), len(es)), "size of the graph read without attributes")
    o.nontrivial(es and (vkeys or ekeys))
    o.label(case["g"]["kind"], case["how"])


@target("C23", "large", lambda big: st.fixed_dictionaries({
    "n": st.one_of(st.integers(60, 300), st.integers(900, 1400)), "mul": st.integers(1, 40), "k": st.integers(1, 3), "kind": st.sampled_from("DUI"), "rm": st.lists(st.integers(0, 400), max_size=9),
    "par": st.integers(1, 40), "rev": st.booleans(),
}), quick=12, rule="graphs of 60 to 1,400 vertices given by a formula, some removed, up to 40 parallel edges, exported (vertices in increasing or decreasing order) and read back with the number of each "
        "vertex and edge as attributes; each counts")
def c23_large(case, o):
    n = case["n"]
    g = PLAIN_GRAPHS[case["kind"]](n)
    for u in range(n):
        for i in range(case["k"]):
            g.add_edge(u, (u * case["mul"] + i * i + 1) % n)
    for _ in range(case["par"]):
        g.add_edge(n - 1, n // 2)
    for i in case["rm"]:
        if i < n and i in set(g.vertices()):
            g.remove_vertex(i)
    vs, es = sorted(g.vertices(), reverse=case["rev"]), list(g.edges())
    num = {e: i for i, e in enumerate(es)}
    text = g.to_dot(vs=vs, es=es, dpv={"name": make_func_property_map(lambda u: "v%d" % u)}, dpe={"num": make_func_property_map(lambda e: num[e])})
    h = PLAIN_GRAPHS[case["kind"]]()
    name, back = defaultdict(str), defaultdict(str)
    read_graphviz_dp(text, h, {"name": make_assoc_property_map(name)}, {"num": make_assoc_property_map(back)})
    equal(sorted(name[u] for u in h.vertices()), sorted("v%d" % u for u in vs), "names of the vertices read")
    equal(h.num_edges(), len(es), "number of edges read")
    ends = lambda g, e, f: [f(g.source(e)), f(g.target(e))] if g.directed else sorted([f(g.source(e)), f(g.target(e))])     # noqa: E731
    equal({back[e]: ends(h, e, lambda u: name[u]) for e in h.edges()}, {str(i): ends(g, e, lambda u: "v%d" % u) for e, i in num.items()}, "edges read, by number")
    o.nontrivial()


BARE = st.text("abcXYZ019_.#", min_size=1, max_size=6)
QUOTED = st.one_of(RAW, LABEL.map(lambda s: s.replace("\"", "'")), st.sampled_from(["&lt;", "&#38;lt;", "a=b; c=d", "x, y=1", "->", "1 -> 2;", "[", "];", "//", "}"]))
HTML_LIKE = st.one_of(st.text("ab01 .;,=&[]{}'\"", max_size=8), st.sampled_from(["&#60;b&#62;", "a; color=b", "&amp;lt;", "a, b=c", "\"", "];"]))
JUNK = ["", "  ", "// 0 -> 1;", "# 0;", "rankdir=LR;", "graph [label=\"0;\"];", "node [shape=circle; color=\"red\"];", "edge [color=\"red\"];", "subgraph c1 {", "}", "/* 0; */", "splines=\"true\"",
        "label=\"0 -> 1;\";"]


@st.composite
def dot_texts(draw, big=False):
    attr = st.tuples(st.sampled_from(["label", "color", "URL", "my_key", "x1"]), st.one_of(
        QUOTED.map(lambda s: ["\"", s]), QUOTED.map(lambda s: ["\"", s]), HTML_LIKE.map(lambda s: ["<", s]), BARE.map(lambda s: ["", s]))).map(list)
    attrs = st.one_of(st.none(), st.none(), st.lists(attr, max_size=4, unique_by=lambda t: t[0]), st.lists(attr, max_size=4))
    ids = st.one_of(st.integers(0, 30), st.integers(0, 12000), st.integers(0, 10 ** 12))
    if draw(st.booleans()):     # identifiers with the same first digits, or the same last ones
        base, e = draw(st.tuples(st.integers(1, 10 ** 12), st.integers(1, 12)))
        ids = st.one_of(ids, st.integers(0, 99).map(lambda k: base * 100 + k), st.integers(0, 99).map(lambda k: k * 10 ** e + base % 10 ** e))
    ids = draw(st.lists(ids, min_size=1, max_size=8, unique=True))
    i = st.integers(0, len(ids) - 1)
    return {"vs": [[u, draw(attrs)] for u in ids], "es": draw(st.lists(st.tuples(i, i, attrs).map(list), max_size=10)), "kind": draw(st.sampled_from("DUI")),
            "sp": draw(st.lists(st.sampled_from(["", " ", "  ", "\t"]), min_size=1, max_size=7)), "sep": draw(st.sampled_from([";", ",", "; ", ", ", " "])),
            "junk": draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(JUNK)).map(list), max_size=4)), "end": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "how": draw(st.sampled_from(["str", "lines", "file", "gen"])), "maps": draw(st.booleans())}


@target("C23", "dot text", dot_texts, quick=250, rule="texts in the DOT language as the documentation of read_graphviz expects them (vertices identified by integers of any size and "
        "declared before the edges, one statement per line), with any spacing, double-quoted, HTML-like or bare values, entities, separators, line ends, comments and other statements, read "
        "from a text, lines, a generator or a file: graph, attributes and events; non-trivial: an edge and an attribute")
def c23_text(case, o):
    n = [0]

    def sp():
        n[0] += 1
        return case["sp"][n[0] % len(case["sp"])]

    def opts(attrs):
        if attrs is None:
            return ""
        return "[" + sp() + (";" if case["sep"] == " " and any(q == "<" for _, (q, _) in attrs) else case["sep"]).join("%s%s=%s%s" % (k, sp(), sp(), q + x + {"<": ">"}.get(q, q)) for k, (q, x) in attrs) + "]"
    directed = case["kind"] != "U"
    conn = "->" if directed else "--"
    lines = [["v", sp() + str(u) + sp() + opts(a) + sp() + ";" + sp()] for u, a in case["vs"]]
    lines += [["e", sp() + str(case["vs"][i][0]) + sp() + conn + sp() + str(case["vs"][j][0]) + sp() + opts(a) + sp() + ";"] for i, j, a in case["es"]]
    for i, x in case["junk"]:
        lines.insert(i, ["", x])
    lines = [["", "digraph G {" if directed else "graph {"]] + lines + [["", "}"]]
    text = case["end"].join(x for _, x in lines) + case["end"]
    src = {"str": lambda: text, "lines": lambda: text.splitlines(keepends=True), "file": lambda: io.StringIO(text, newline=""), "gen": lambda: (x for _, x in lines)}[case["how"]]()
    h = {"D": DirectedGraph, "U": UndirectedGraph, "I": IncidenceGraph}[case["kind"]](0)
    events, got = [], {"v": {}, "e": {}}

    class Vis(ReadGraphvizVisitor):
        def on_vertex(self, line, u_alias, g, opts):
            events.append(["v", line])
            u = super().on_vertex(line, u_alias, g, opts)
            got["v"].setdefault(u, {})
            return u

        def on_edge(self, line, u_alias, v_alias, g, opts):
            events.append(["e", line])
            e = super().on_edge(line, u_alias, v_alias, g, opts)
            got["e"].setdefault(e, {})
            return e

        def on_else(self, line):
            events.append(["", line])

        def on_install_vertex_property(self, u, g, key, value):
            got["v"].setdefault(u, {})[key] = value

        def on_install_edge_property(self, e, g, key, value):
            got["e"].setdefault(e, {})[key] = value
    keys = ["label", "color", "URL", "my_key"]
    if case["maps"]:
        dpv, dpe = {k: defaultdict(lambda: None) for k in keys}, {k: defaultdict(lambda: None) for k in keys[1:]}
        read_graphviz_dp(src, h, {k: make_assoc_property_map(d) for k, d in dpv.items()}, {k: make_assoc_property_map(d) for k, d in dpe.items()})
        got = {"v": {u: {k: d[u] for k, d in dpv.items() if d[u] is not None} for u in h.vertices()}, "e": {e: {k: d[e] for k, d in dpe.items() if d[e] is not None} for e in h.edges()}}
    else:
        read_graphviz(src, h, Vis())
        equal([[k, x.strip()] for k, x in events if x.strip()], [[k, x.strip()] for k, x in lines if x.strip()], "events of the reader")

    def want(attrs, keys):
        return {k: html.unescape(x) for k, (q, x) in attrs or [] if k in keys or not case["maps"]}
    vs = sorted(h.vertices())
    equal(vs, list(range(len(case["vs"]))), "vertices read from %r" % text)
    equal([got["v"].get(u) for u in vs], [want(a, keys) for _, a in case["vs"]], "attributes of the vertices of %r" % text)
    ends = lambda u, v: (u, v) if directed else (min(u, v), max(u, v))      # noqa: E731
    equal(sorted((ends(h.source(e), h.target(e)), sorted(got["e"][e].items())) for e in h.edges()),
          sorted((ends(i, j), sorted(want(a, keys[1:]).items())) for i, j, a in case["es"]), "edges of %r" % text)
    o.nontrivial(case["es"] and any(a for *_, a in case["vs"] + case["es"]))
    o.label(case["how"], "maps" if case["maps"] else "visitor")


# -------------------------------------------------------------------------------------------------------- Rendering

@st.composite
def render_cases(draw, big=False):
    return {"g": draw(graph_cases(big, kinds=("D", "U", "A", "NFA", "N"))), "labels": draw(st.lists(LABEL, min_size=1, max_size=4)),
            "engine": draw(st.sampled_from([None, "dot", "neato", "circo", "twopi"])), "format": draw(st.sampled_from(["svg", "png", "plain", "dot", "json"])),
            "file": draw(st.booleans())}


def drawn(text, engine, fmt):
    return subprocess.run(["dot", "-T" + fmt, "-K" + (engine or "dot")], input=text.encode("utf-8"), capture_output=True, timeout=60, check=True).stdout


MALFORMED = ["digraph G {", "digraph G { 0 [label=\"a]; }", "not a graph", "digraph G { 0 -- 1; }", "graph G { 0 -> 1; }", "digraph G { 0 -> ; }", "digraph G { 0 [label=<a>; }"]


@target("C23", "refused", enum=lambda big: ([t, f] for t in range(len(MALFORMED)) for f in ("svg", "png")), rule="texts which are not DOT are refused by the rendering helpers with a "
        "RuntimeError, and no file is written; non-trivial: always", pairs=0)
def c23_refused(case, o):
    need_dot()
    text, fmt = MALFORMED[case[0]], case[1]
    tmp = tempfile.mkdtemp(prefix="pbt-dot-")
    path = os.path.join(tmp, "out." + fmt)
    try:
        for name, f in (("run_graphviz", lambda: run_graphviz(text, None, fmt)), ("dotstr_to_html", lambda: dotstr_to_html(text)), ("write_graphviz", lambda: write_graphviz(text, path, "dot", fmt)),
                        ("engine", lambda: run_graphviz("digraph G {}", "no such engine", fmt)), ("format", lambda: run_graphviz("digraph G {}", None, "nosuchformat"))):
            with contextlib.redirect_stderr(io.StringIO()):
                try:
                    f()
                except RuntimeError:
                    continue
            expect(False, name, "accepts", repr(text))
        expect(not os.path.exists(path), "a file is written for", repr(text))
    finally:
        shutil.rmtree(tmp)
    o.nontrivial(True)


@target("C23", "render", render_cases, quick=10, thorough=150, rule="graphs rendered with the helpers (engines, formats, files and streams): the output has one element per vertex "
        "and edge; non-trivial: an edge")
def c23_render(case, o):
    need_dot()
    g, vs, es, _, _ = make(case["g"])
    labels = case["labels"]
    kwargs = {"dpv": {"label": make_func_property_map(lambda u: labels[u % len(labels)])}}
    text = g.to_dot(**kwargs)
    engine, fmt = case["engine"], case["format"]
    svg = run_graphviz(text, engine=engine)
    expect(isinstance(svg, str), "run_graphviz does not return text for SVG")
    ref = drawn(text, engine, "svg").decode("utf-8")
    for page in (svg, dotstr_to_html(text) if engine is None else dotstr_to_html(text, engine), graph_to_html(g, engine, **kwargs),
                 dot_to_svg(text) if engine is None else dot_to_svg(text, engine)):
        expect("<svg" in page, "no SVG in", page[:200])
        equal(page[page.index("<svg"):].strip(), ref[ref.index("<svg"):].strip(), "drawing made by the engine %s" % engine)
        equal(len(re.findall(r'<g id="[^"]*" class="node">', page)), len(vs), "number of vertices displayed")
        equal(len(re.findall(r'<g id="[^"]*" class="edge">', page)), len(es), "number of edges displayed")
    shown = {int(t): x for t, x in texts(svg.encode("utf-8"), "node").items()}
    equal(shown, {u: squeeze(labels[u % len(labels)]) for u in vs}, "texts of the vertices")
    img = run_graphviz(text, engine or "dot", fmt)
    raw = img if isinstance(img, bytes) else img.encode("utf-8")
    expect(raw == drawn(text, engine, fmt), "the output of run_graphviz is not the one of dot -K%s -T%s" % (engine, fmt))
    if fmt == "png":
        expect(raw[:4] == b"\x89PNG", "not a PNG image:", raw[:20])
    elif fmt == "plain":
        lines = raw.decode("utf-8").splitlines()
        equal((sum(x.startswith("node ") for x in lines), sum(x.startswith("edge ") for x in lines)), (len(vs), len(es)), "plain output")
    elif fmt == "json":
        equal(len(json.loads(raw).get("edges", [])), len(es), "edges of the JSON output")
    if case["file"] or fmt == "png":
        tmp = tempfile.mkdtemp(prefix="pbt-dot-")
        try:
            path = os.path.join(tmp, "out." + fmt)
            if len(labels) % 2:
                with open(path, "wb") as f:
                    f.write(b"something written before\n" * 2000)
            expect(write_graphviz(text, path, engine or "dot", fmt), "write_graphviz fails")
            with open(path, "rb") as f:
                equal(f.read() == raw, True, "the file written has the output of dot")
        finally:
            shutil.rmtree(tmp)
    else:
        out = io.StringIO()
        expect(write_graphviz(text, out, engine or "dot", fmt), "write_graphviz fails")
        equal(out.getvalue().strip(), raw.decode("utf-8").strip(), "text written to a stream")
    o.nontrivial(es)
    o.label(fmt, str(engine))


# ----------------------------------------------------------------------------------------------------------- GraphDp

ANY = st.one_of(
    st.text(max_size=6), st.text("\"\\/\n\t{}[]:,'<>&é%s", max_size=8), st.integers(-9, 99), st.none(), st.booleans(), st.floats(allow_nan=False, width=16),
    st.sampled_from(["%s", "%(id)s", "\\", "\"", "\\\"", "\u2028", "null", "</script>"]),
)


@st.composite
def json_cases(draw, big=False):
    keys = st.one_of(st.sampled_from(["label", "color", "URL", "a b", "weight"]), st.text("ab\"\\%é:", max_size=4)).filter(lambda k: k not in ("id", "source", "target"))
    tab = st.dictionaries(keys, st.lists(ANY, min_size=1, max_size=4), max_size=3)
    return {"g": draw(graph_cases(big, kinds=("D", "U", "I", "A", "IA", "N", "VD"))), "dpv": draw(tab), "dpe": draw(tab),
            "vs": draw(st.one_of(st.none(), st.lists(st.integers(0, 8), max_size=4))), "es": draw(st.one_of(st.none(), st.lists(st.integers(0, 8), max_size=4)))}


def no_duplicates(pairs):
    d = dict(pairs)
    expect(len(d) == len(pairs), "a key is given twice in", pairs)
    return d


@target("C24", "json", json_cases, quick=500, rule="graphs, automata and views with arbitrary keys and values (quotes, control characters, percent signs, None, numbers) and "
        "selections: the JSON text parsed by the json module; non-trivial: a vertex, an edge and a property map")
def c24_json(case, o):
    g, vs, es, _, _ = make(case["g"])
    vmaps, emaps = cycled(case["dpv"], vs), cycled(case["dpe"], es)
    dp = GraphDp(g, pmaps(vmaps, "func"), pmaps(emaps, "assoc"))
    kwargs = {}
    if case["vs"] is not None:
        vs = [u for i, u in enumerate(vs) if i in case["vs"]]
        kwargs["vs"] = iter(vs) if len(vs) % 2 else list(vs)
    if case["es"] is not None:
        es = [e for i, e in enumerate(es) if i in case["es"]]
        kwargs["es"] = list(es)
    text = dp.to_json(**kwargs)
    try:
        d = json.loads(text, object_pairs_hook=no_duplicates)
    except ValueError as e:
        expect(False, "invalid JSON (%s): %r" % (e, text))
    equal(sorted(d), ["edges", "graph_type", "vertices"], "keys")
    equal(d["graph_type"], "digraph" if g.directed else "graph", "graph type")
    want = [dict({k: str(m[u]) for k, m in vmaps.items()}, id=u) for u in vs]
    equal(sorted(d["vertices"], key=lambda x: x["id"]), sorted(want, key=lambda x: x["id"]), "vertices")
    want = [dict({k: str(m[e]) for k, m in emaps.items()}, source=g.source(e), target=g.target(e)) for e in es]
    canon = lambda x: repr(sorted(x.items(), key=repr))     # noqa: E731
    got = d["edges"]
    if not g.directed:
        got, want = ([dict(x, source=min(x["source"], x["target"]), target=max(x["source"], x["target"])) for x in y] for y in (got, want))
    equal(sorted(got, key=canon), sorted(want, key=canon), "edges")
    o.nontrivial(vs and es and (vmaps or emaps))
    o.label(case["g"]["kind"])


@st.composite
def dp_cases(draw, big=False):
    opt = st.one_of(st.none(), STYLES)
    return {
        "g": draw(graph_cases(big, kinds=("D", "U", "I", "A"))), "dpv": draw(tables()), "dpe": draw(tables()), "dg": draw(opt), "dv": draw(opt), "de": draw(opt),
        "extra": draw(st.sampled_from([None, [], ["splines=\"true\""], ["overlap=\"false\"", "node [peripheries=\"2\"]"], "ratio=\"1\"",
                                        ["splines=\"true\"", "node [peripheries=\"3\"]", "aspect=\"1\"", "splines=\"false\"", "node [peripheries=\"2\"]"]])),
        "kw": draw(st.fixed_dictionaries({}, optional={"dpv": tables(), "dpe": tables(), "dg": STYLES, "dv": STYLES, "de": STYLES, "extra_style": st.sampled_from(["k1=\"v1\"", ""])})),
        "vs": draw(st.one_of(st.none(), st.lists(st.integers(0, 8), max_size=4))), "fg": draw(st.booleans()),
        "none": draw(st.lists(st.sampled_from(["graph", "node", "edge"]), unique=True)) if draw(st.integers(0, 3)) == 0 else [],
        "gx": draw(st.sampled_from([[], [], ["dpi=\"9\""], ["dpi=\"9\"", "node [u1=\"x\"]"]])),
    }


@target("C24", "dot", dp_cases, quick=350, rule="GraphDp built with random property maps and styles, exported with random keyword arguments, parsed by an independent DOT "
        "parser; accessors; arguments left unchanged; non-trivial: an edge, and a property map or style on both sides")
def c24_dot(case, o):
    with GraphvizStyleGuard():
        if case["fg"]:
            GraphvizStyle.set_fg_color("grey")
        for k in case["none"]:
            getattr(GraphvizStyle, k).clear()
        GraphvizStyle.extra_style[:] = case["gx"]
        style = {"dg": dict(GraphvizStyle.graph), "dv": dict(GraphvizStyle.node), "de": dict(GraphvizStyle.edge)}
        g, vs, es, _, _ = make(case["g"])
        vmaps, emaps = cycled(case["dpv"], vs), cycled(case["dpe"], es)
        dpv, dpe = pmaps(vmaps, "func"), pmaps(emaps, "assoc")
        given = {k: None if case[k] is None else dict(case[k]) for k in ("dg", "dv", "de")}
        extra = case["extra"]
        dp = GraphDp(g, dpv, dpe, given["dg"], given["dv"], given["de"], list(extra) if isinstance(extra, list) else extra)
        equal((dict(dp.get_dpv()), dict(dp.get_dpe())), (dpv, dpe), "get_dpv, get_dpe")
        own = {k: case[k] or style[k] for k in style}
        equal((dp.get_dg(), dp.get_dv(), dp.get_de()), (own["dg"], own["dv"], own["de"]), "get_dg, get_dv, get_de")
        kw = {}
        for k, v in case["kw"].items():
            kw[k] = pmaps(cycled(v, vs if k == "dpv" else es), "func") if k in ("dpv", "dpe") else dict(v) if isinstance(v, dict) else v
        keep = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
        sel = vs
        if case["vs"] is not None:
            sel = [u for i, u in enumerate(vs) if i in case["vs"]]
            kw["vs"] = sel
        for _ in range(2):
            d = parsed(dp.to_dot(**kw))
            same_statements(d, g, sel, es, {**vmaps, **cycled(case["kw"].get("dpv", {}), vs)}, {**emaps, **cycled(case["kw"].get("dpe", {}), es)}, str)
            want = {x: {**style[k], **own[k], **case["kw"].get(k, {})} for k, x in (("dg", "graph"), ("dv", "node"), ("de", "edge"))}
            ex = case["kw"].get("extra_style")
            if ex is None:
                ex = extra or case["gx"]
                ex = ex if isinstance(ex, str) else ";".join(ex)
            if len(case["gx"]) > 1:
                want["node"]["u1"] = "x"
            if "peripheries" in ex:
                want["node"]["peripheries"] = "2"
            equal(d.defaults, want, "default attributes")
            equal(d.sets, dict(x.replace("\"", "").split("=") for x in case["gx"] + ex.split(";") if x and "[" not in x), "extra style")
        equal({k: dict(v) for k, v in kw.items() if isinstance(v, dict)}, keep, "arguments of to_dot")
        equal(given, {k: None if case[k] is None else dict(case[k]) for k in given}, "arguments of GraphDp")
        equal((dp.get_dg(), dp.get_dv(), dp.get_de()), (own["dg"], own["dv"], own["de"]), "styles after to_dot")
        equal((dict(GraphvizStyle.graph), dict(GraphvizStyle.node), dict(GraphvizStyle.edge), GraphvizStyle.extra_style), (*style.values(), case["gx"]), "global style after to_dot")
        # The styles of a GraphDp are its own
        for st_ in (dp.get_dg(), dp.get_dv(), dp.get_de()):
            st_["mine"] = "1"
        if isinstance(dp.extra_style, list):
            dp.extra_style.append("mine=\"1\"")
        if not any(given.values()):
            equal((dict(GraphvizStyle.graph), dict(GraphvizStyle.node), dict(GraphvizStyle.edge)), tuple(style.values()), "global style after the one of a GraphDp changed")
        new = GraphDp(g)
        expect(not any("mine" in x for x in (new.get_dg(), new.get_dv(), new.get_de())) and "mine" not in new.to_dot(),
               "the style of a GraphDp leaks in the global style")
        o.nontrivial(es and (dpv or dpe or any(given.values())) and len(kw))
        o.label(case["g"]["kind"])
