"""C32: display helpers and singletons."""
import os
import re
import shutil
import sys
import tempfile
import types
from hypothesis import strategies as st
from pbt.core import target, expect, equal
from pbt.props.dot import LABEL, graph_cases, make, need_dot, squeeze, texts
from pybgl import Singleton, make_func_property_map
from pybgl.graphviz import graph_to_html
from pybgl.html import beside, html
from pybgl.ipynb import background_template_html, display_body, display_svg, in_ipynb, ipynb_display_graph


class Notebook:
    """A stand-in of IPython (it is not installed) which records what is displayed."""
    def __init__(self, shell):
        self.shown = []

        class HTML:
            def __init__(self, data):
                self.data = data
        self.package = types.ModuleType("IPython")
        self.display = types.ModuleType("IPython.display")
        self.display.HTML = HTML
        self.display.display = lambda *xs: self.shown.extend(x.data if isinstance(x, HTML) else x for x in xs)
        self.package.display = self.display
        self.package.get_ipython = lambda: shell

    def __enter__(self):
        self.saved = {k: sys.modules.get(k) for k in ("IPython", "IPython.display")}
        sys.modules["IPython"], sys.modules["IPython.display"] = self.package, self.display
        return self

    def __exit__(self, *args):
        for k, m in self.saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


TEXT = st.one_of(st.text("ab<>&%s\n'\"", max_size=12), st.sampled_from(["<svg><g/></svg>", "100%", "%s", "%(title)s", "{0}", "\\n", "é<b>x</b>", ""]))
COLORS = st.sampled_from([None, None, "", "White", "#FF00ff", "white", "#ff00ff", "rgb(1, 2, 3)"])


def shell_of(name):
    module, cls = name.rsplit(".", 1)
    return type(cls, (), {"__module__": module})()


@st.composite
def texts_cases(draw, big=False):
    return {"t": draw(st.lists(TEXT, min_size=5, max_size=5)), "titles": draw(st.integers(0, 3)), "color": draw(COLORS),
            "shell": draw(st.sampled_from(["ipykernel.zmqshell.ZMQInteractiveShell", "IPython.terminal.interactiveshell.TerminalInteractiveShell", None]))}


def wrap(color, text):
    return "<div style='background-color:%s'>%s</div>" % (color, text) if color else text


@target("C32", "html", texts_cases, quick=300, pairs=0, rule="arbitrary contents, titles and background colours given to beside, html, display_svg and display_body, with a "
        "stand-in of IPython: what is displayed and written; non-trivial: two different non-empty contents")
def c32_html(case, o):
    a, b, *titles = case["t"]
    page = beside(a, b, *titles[:case["titles"]])
    want = [titles[0] if case["titles"] > 0 else "", titles[1] if case["titles"] > 1 else "", a, titles[2] if case["titles"] > 2 else "", b]
    m = re.fullmatch(r"(?s)(.*?)<div[^>]*>\s*<div[^>]*>\s*(<div.*</div>)\s*</div>\s*</div>\s*", page)
    expect(m, "not a table of one row:", page)
    left, right = "<b>%s</b>" % want[1], "<b>%s</b>" % want[3]
    pos = 0
    for piece in (want[0], left, "<pre>%s</pre>" % a, right, "<pre>%s</pre>" % b):
        i = page.find(piece, pos)
        expect(i >= 0, repr(piece), "is not in", repr(page), "after position", pos)
        pos = i + len(piece)
    color = case["color"]
    equal(background_template_html(color) % a, wrap(color, a), "template of background %r" % color)
    equal(background_template_html() % a, a, "template without background")
    with Notebook(shell_of(case["shell"]) if case["shell"] else None) as nb:
        equal(in_ipynb(), case["shell"] == "ipykernel.zmqshell.ZMQInteractiveShell", "in_ipynb in the shell %s" % case["shell"])
        html(a)
        equal(nb.shown, [a], "displayed by html")
        sys.modules["IPython"] = None       # As if it were not installed
        equal(in_ipynb(), False, "in_ipynb without IPython")
        sys.modules["IPython"] = nb.package
        tmp = tempfile.mkdtemp(prefix="pbt-html-")
        try:
            for f, content, name in ((display_svg, a, "g 1.svg"), (display_body, b, "x.html")):
                del nb.shown[:]
                path = os.path.join(tmp, name)
                if len(content) % 2:
                    with open(path, "w") as fd:
                        fd.write("something\nwritten before, long " + content)
                f(a, path, color) if f is display_svg else f(b, path, background_color=color)
                with open(path) as fd:
                    written = fd.read()
                expect(written.endswith("\n"), "the file is complete")
                written = written[:-1]
                if f is display_svg:
                    equal(written, a, "content of the SVG file")
                else:
                    expect(written.startswith("<html>") and written.endswith("</html>") and "<meta charset='UTF-8'>" in written, "not a page:", written)
                    expect("<body>%s</body>" % b in written, "the body", b, "is not in", written)
                equal(len(nb.shown), 2, "number of objects displayed")
                expect("href='%s'" % path in nb.shown[0], "the link", nb.shown[0], "does not lead to", path)
                equal(nb.shown[1], wrap(color, written), "content displayed")
        finally:
            shutil.rmtree(tmp)
    o.nontrivial(a and b and a != b)
    o.label("color" if color else "no color")


@st.composite
def shown_graphs(draw, big=False):
    return {"g": draw(graph_cases(big, kinds=("D", "U", "A", "NFA", "N"))), "labels": draw(st.lists(LABEL, min_size=1, max_size=4)), "color": draw(COLORS),
            "engine": draw(st.sampled_from([None, None, "dot", "neato"]))}


@target("C32", "graphs", shown_graphs, quick=12, thorough=150, pairs=0, rule="graphs displayed by ipynb_display_graph with a stand-in of IPython: one element per vertex and edge, "
        "labels, background; non-trivial: an edge")
def c32_graphs(case, o):
    need_dot()
    g, vs, es, _, _ = make(case["g"])
    labels, color = case["labels"], case["color"]
    kw = {"dpv": {"label": make_func_property_map(lambda u: labels[u % len(labels)])}}
    if case["engine"]:
        kw["engine"] = case["engine"]
    with Notebook(None) as nb:
        ipynb_display_graph(g, color, **kw) if color is not None else ipynb_display_graph(g, **kw)
        equal(len(nb.shown), 1, "number of objects displayed")
    page = nb.shown[0]
    if color:
        head, tail = "<div style='background-color:%s'>" % color, "</div>"
        expect(page.startswith(head) and page.endswith(tail), "no background", color, "in", page[:80])
        page = page[len(head):-len(tail)]
    engine = kw.pop("engine", "dot")
    equal(page, graph_to_html(g, engine, **kw), "page displayed")
    equal(len(re.findall(r'<g id="[^"]*" class="node">', page)), len(vs), "number of vertices displayed")
    equal(len(re.findall(r'<g id="[^"]*" class="edge">', page)), len(es), "number of edges displayed")
    i = page.index("<svg")
    shown = {int(t): x for t, x in texts(page[i:page.rindex("</svg>") + 6].encode("utf-8"), "node").items()}
    equal(shown, {u: squeeze(labels[u % len(labels)]) for u in vs}, "texts of the vertices")
    o.nontrivial(es)
    o.label(engine)


@target("C32", "singleton", lambda big: st.lists(st.tuples(st.integers(0, 4), st.lists(st.integers(0, 3), max_size=2)).map(list), min_size=1, max_size=10), quick=200,
        rule="classes with the metaclass Singleton (some derived from others) called in any order with any arguments: one instance per class, built once with the "
        "arguments of the first call; non-trivial: a class called twice and two classes")
def c32_singleton(calls, o):
    built = []

    class A(metaclass=Singleton):
        def __init__(self, *args):
            built.append((type(self), args))

    class B(A):
        pass

    class C(A):
        def __init__(self, *args):
            super().__init__(*args)

    class D(metaclass=Singleton):
        def __init__(self, *args, **kwargs):
            built.append((D, args))
            self.x = 0

    class E(B):
        def __bool__(self):
            return False
    classes = [A, B, C, D, E]
    first = {}
    for i, args in calls:
        x = classes[i](*args)
        expect(type(x) is classes[i], "an instance of", type(x), "instead of", classes[i])
        expect(first.setdefault(i, x) is x, "two instances of the singleton", classes[i])
    want = {}
    for i, args in calls:
        want.setdefault(i, (classes[i], tuple(args)))
    equal(sorted(built, key=repr), sorted(want.values(), key=repr), "instances built")
    o.nontrivial(len(first) >= 2 and len(calls) > len(first))
