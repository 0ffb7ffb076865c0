"""C03: automata; C04: NFAs; C25: automaton builders."""
import contextlib
import io
from collections import defaultdict
from hypothesis import strategies as st
from pbt import gen
from pbt.core import target, expect, equal
import pybgl.automaton as AU
import pybgl.node_automaton as NA
import pybgl.nfa as NF
from pybgl import (
    Automaton, IncidenceAutomaton, NodeAutomaton, IncidenceNodeAutomaton, Nfa, EdgeDescriptor, BOTTOM, EPSILON,
    make_automaton, make_incidence_automaton, make_node_automaton, make_incidence_node_automaton,
    make_assoc_property_map, make_func_property_map,
)

# Symbols: usual, falsy, multi-character, non-string. They are designated by their index in the cases.
SYMS = ["a", "b", "c", 0, "", (), "ab", ("x", 1), 7, "ε", " ", frozenset({1}), -1, "d"]
sym = st.one_of(st.integers(0, 2), st.integers(0, 4), st.integers(0, len(SYMS) - 1))

CLASSES = {"A": Automaton, "IA": IncidenceAutomaton, "N": NodeAutomaton, "IN": IncidenceNodeAutomaton}


def srt(xs):
    return sorted(xs, key=repr)


class Dfa:
    """The deterministic automaton a history describes."""
    def __init__(self, node):
        self.node = node
        self.trans = {}           # q -> {a: r}
        self.initial = 0
        self.final = {}           # q -> bool (default: what the given map says)
        self.default_final = lambda q: False
        self.symbol = {}          # node automata: q -> symbol
        self.descr = {}           # (q, a) -> descriptor returned by add_edge

    def is_final(self, q):
        return self.final[q] if q in self.final else self.default_final(q)

    def edges(self):
        return [(q, a, r) for q, m in self.trans.items() for a, r in m.items()]

    def delta_word(self, q, w):
        for a in w:
            if q is None:
                return None
            q = self.trans.get(q, {}).get(a)
        return q


def check_dfa(g, m, cls, words, full=True):
    incidence = cls in ("IA", "IN")
    vs = list(g.vertices())
    equal(len(vs), len(set(vs)), "vertices() lists duplicates")
    equal(set(vs), set(m.trans), "vertices()")
    equal(g.num_vertices(), len(vs), "num_vertices()")
    want = m.edges()
    got = list(g.edges())
    equal(srt((g.source(e), g.label(e), g.target(e)) for e in got), srt(want), "edges()")
    equal(len(set(got)), len(want), "descriptors of edges()")
    equal(g.num_edges(), len(want), "num_edges()")
    equal(g.has_vertex(), bool(vs), "has_vertex()")
    equal(g.has_edge(), bool(want), "has_edge()")
    for e in got:
        expect(e == m.descr[g.source(e), g.label(e)], "descriptor of", (g.source(e), g.label(e)),
               "differs from that of add_edge")
    ins = defaultdict(list)
    for (q, a, r) in want:
        ins[r].append((q, a, r))
    alpha = {a for (_, a, _) in want}
    for q in vs:
        t = m.trans[q]
        equal(srt((g.source(e), g.label(e), g.target(e)) for e in g.out_edges(q)), srt((q, a, r) for a, r in t.items()),
              "out_edges(%d)" % q)
        equal(g.out_degree(q), len(t), "out_degree(%d)" % q)
        equal(g.sigma(q), set(t), "sigma(%d)" % q)
        equal(AU.sigma(q, g), set(t), "sigma(%d)" % q)
        for a in list(t) + [s for s in SYMS[:5] if s not in t] + ["no such symbol"]:
            equal(g.delta(q, a), t.get(a), "delta(%d, %r)" % (q, a))
            equal(AU.delta(q, a, g), t.get(a), "delta(%d, %r, g)" % (q, a))
        equal((bool(AU.is_final(q, g)), bool(AU.is_initial(q, g))), (m.is_final(q), q == m.initial), "is_final(%d, g), is_initial(%d, g)" % (q, q))
        equal(srt(AU.label(e, g) for e in AU.out_edges(q, g)), srt(t), "label(e, g) for the transitions leaving %d" % q)
        equal(bool(g.is_final(q)), m.is_final(q), "is_final(%d)" % q)
        equal(g.is_initial(q), q == m.initial, "is_initial(%d)" % q)
        if incidence:
            equal(srt((g.source(e), g.label(e), g.target(e)) for e in g.in_edges(q)), srt(ins[q]), "in_edges(%d)" % q)
            equal(g.in_degree(q), len(ins[q]), "in_degree(%d)" % q)
        if m.node:
            equal(g.symbol(q), m.symbol.get(q), "symbol(%d)" % q)
            for r in vs:
                e, found = g.edge(q, r)
                a = m.symbol.get(r)
                ok = a in t and t[a] == r
                equal(bool(found), ok, "edge(%d, %d)" % (q, r))
                equal(NA.edge(q, r, g), (e, found), "edge(%d, %d, g)" % (q, r))
                if ok:
                    expect(e == m.descr[q, a], "edge(%d, %d)" % (q, r), "descriptor")
                else:
                    expect(e is None, "edge(%d, %d) not found but" % (q, r), e)
        else:
            for r in vs if full else vs[:3]:
                for a in srt(set(t) | {"a", 0}):
                    e, found = g.edge(q, r, a)
                    ok = a in t and t[a] == r
                    equal(bool(found), ok, "edge(%d, %d, %r)" % (q, r, a))
                    equal(AU.edge(q, r, a, g), (e, found), "edge(%d, %d, %r, g)" % (q, r, a))
                    if ok:
                        expect(e == m.descr[q, a], "edge(%d, %d, %r)" % (q, r, a), "descriptor")
                    else:
                        expect(e is None, "edge(%d, %d, %r) not found but" % (q, r, a), e)
    equal(set(g.finals()), {q for q in vs if m.is_final(q)}, "finals()")
    equal(AU.finals(g), {q for q in vs if m.is_final(q)}, "finals(g)")
    equal(g.initial(), m.initial, "initial()")
    equal(AU.initial(g), m.initial, "initial(g)")
    if m.node:
        upper = {m.symbol.get(q) for q in vs}
        lower = {m.symbol.get(q) for q in vs if q != m.initial and ins[q]}
        got = g.alphabet()
        expect(lower <= got <= upper, "alphabet()", got, "not between", lower, upper)
        if all(bool(ins[q]) == (q != m.initial) for q in vs):
            equal(got, alpha, "alphabet()")
        exact = lower == upper
    else:
        equal(g.alphabet(), alpha, "alphabet()")
        equal(AU.alphabet(g), alpha, "alphabet(g)")
        exact = True
    if exact:
        complete = all(set(m.trans[q]) == alpha for q in vs)
        equal(bool(g.is_complete()), complete, "is_complete()")
        equal(bool(AU.is_complete(g)), complete, "is_complete(g)")
    equal((bool(g.is_finite()), bool(AU.is_finite(g)), bool(g.is_deterministic()), bool(AU.is_deterministic(g))), (True,) * 4, "is_finite, is_deterministic")
    # BOTTOM
    expect(g.delta(BOTTOM, "a") is BOTTOM, "delta(BOTTOM, a)")
    expect(g.delta_word(BOTTOM, "ab") is BOTTOM, "delta_word(BOTTOM, ab)")
    expect(g.sigma(BOTTOM) == set(), "sigma(BOTTOM)")
    expect(list(g.out_edges(BOTTOM)) == [], "out_edges(BOTTOM)")
    for w in words:
        r = m.delta_word(m.initial, w)
        equal(g.delta_word(m.initial, w), r, "delta_word(initial, %r)" % (w,))
        acc = r is not None and m.is_final(r)
        equal(bool(g.accepts(w)), acc, "accepts(%r)" % (w,))
        equal(bool(AU.accepts(w, g)), acc, "accepts(%r, g)" % (w,))
        q, i = m.initial, 0
        while i < len(w) and m.trans.get(q, {}).get(w[i]) is not None:
            q = m.trans[q][w[i]]
            i += 1
        equal(tuple(g.delta_best_effort(w)), (q, i), "delta_best_effort(%r)" % (w,))
        equal(tuple(AU.delta_best_effort(g, w)), (q, i), "delta_best_effort(g, %r)" % (w,))
        with contextlib.redirect_stdout(io.StringIO()):
            equal(bool(AU.accepts_debug(w, g)), acc, "accepts_debug(%r, g)" % (w,))
        for q in vs[:4]:
            equal(g.delta_word(q, w), m.delta_word(q, w), "delta_word(%d, %r)" % (q, w))
            equal(AU.delta_word(q, w, g), m.delta_word(q, w), "delta_word(%d, %r, g)" % (q, w))


def first_query(g, m, cls, k):
    """A single query, before any other one."""
    k %= 11
    es = srt(m.edges())
    alpha = {a for (_, a, _) in es}
    q = sorted(m.trans)[k % len(m.trans)] if m.trans else None
    if k == 0:
        equal(sorted(g.vertices()), sorted(m.trans), "vertices()")
    elif k == 1:
        equal((g.num_edges(), bool(g.has_edge())), (len(es), bool(es)), "num_edges(), has_edge()")
    elif k == 2:
        equal(g.num_vertices(), len(m.trans), "num_vertices()")
    elif k == 3:
        equal(set(g.finals()), {q for q in m.trans if m.is_final(q)}, "finals()")
    elif k == 4 and not m.node:
        equal(g.alphabet(), alpha, "alphabet()")
    elif k == 5 and not m.node:
        equal(bool(g.is_complete()), all(set(t) == alpha for t in m.trans.values()), "is_complete()")
    elif k == 6 and q is not None:
        equal(g.sigma(q), set(m.trans[q]), "sigma(%d)" % q)
    elif k == 7 and es:
        q, a, r = es[-1]
        equal(g.delta(q, a), r, "delta(%d, %r)" % (q, a))
    elif k == 8 and q is not None:
        equal(srt((g.source(e), g.label(e), g.target(e)) for e in g.out_edges(q)), srt((q, a, r) for a, r in m.trans[q].items()), "out_edges(%d)" % q)
    elif k == 9 and es and cls in ("IA", "IN"):
        r = es[0][2]
        equal(srt((g.source(e), g.label(e)) for e in g.in_edges(r)), srt((p, a) for (p, a, x) in es if x == r), "in_edges(%d)" % r)
    elif k == 10:
        w, p = [], m.initial
        for _ in range(6):
            t = m.trans.get(p, {})
            if not t:
                break
            a = srt(t)[len(w) % len(t)]
            w.append(a)
            p = t[a]
        if m.initial in m.trans:
            equal(bool(g.accepts(w)), m.is_final(p), "accepts(%r)" % (w,))


def make(cls, opt):
    """An automaton built with constructor options, and its model."""
    node = cls in ("N", "IN")
    m = Dfa(node)
    n, q0, fin, symk, positional = opt["n"], opt["q0"], opt["fin"], opt["sym"], opt["pos"]
    kw, args = {}, []
    m.trans = {q: {} for q in range(n)}
    pmap = None
    if fin is not None:
        table = {q: bool(b) for q, b in enumerate(fin)}
        d = defaultdict(bool, table)
        pmap = make_assoc_property_map(d)
        m.default_final = lambda q: table.get(q, False)
    if positional and cls != "IN":
        if q0 is not None or fin is not None:
            args = [n, q0 if q0 is not None else 0] + ([pmap] if fin is not None else [])
        else:
            args = [n]
    else:
        if n or positional:
            kw["num_vertices"] = n
        if q0 is not None:
            kw["q0"] = q0
        if fin is not None:
            kw["pmap_vfinal"] = pmap
    m.initial = q0 if q0 is not None else 0
    if node and symk is not None:
        table2 = {q: SYMS[s] for q, s in enumerate(symk)}
        ds = defaultdict(lambda: None, table2)
        kw["pmap_vsymbol"] = make_assoc_property_map(ds)
        m.symbol = dict(table2)
    return CLASSES[cls](*args, **kw), m


def do_op(g, m, cls, op, a, b, s, how, o):
    """Applies an operation to the automaton and to its model."""
    node, incidence = m.node, cls in ("IA", "IN")
    states = sorted(m.trans)
    free = how % 2 == 1
    x = SYMS[s % len(SYMS)]
    if op == "v" or (not states and op not in "vi"):
        if node:
            if how % 5 == 4:
                u = g.add_vertex()
            else:
                u = NA.add_vertex(x, g) if free else g.add_vertex(x)
                m.symbol[u] = x
        else:
            u = g.add_vertex()
        expect(u not in m.trans, "add_vertex returned an identifier in use:", u)
        m.trans[u] = {}
    elif op == "e":
        q, r = states[a % len(states)], states[b % len(states)]
        if node:
            x = m.symbol.get(r)
            e, added = NA.add_edge(q, r, g) if free else g.add_edge(q, r)
        else:
            e, added = AU.add_edge(q, r, x, g) if free else g.add_edge(q, r, x)
        if x in m.trans[q]:
            o.label("refused")
            if m.trans[q][x] == 0 or not x:
                o.label("refused 0/falsy")
            expect(added is False and e is None, "a second transition from", q, "with", repr(x), "gives", (e, added))
        else:
            expect(added is True, "add_edge(%d, %d, %r) refused" % (q, r, x))
            expect((g.source(e), g.target(e), g.label(e)) == (q, r, x), "descriptor of add_edge")
            hash(e)
            m.trans[q][x] = r
            m.descr[q, x] = e
    elif op == "r":
        es = srt(m.edges())
        if not es:
            return
        q, x, r = es[a % len(es)]
        e = m.descr[q, x]
        if how % 5 == 1:
            e = next(f for f in g.edges() if f == e)
        elif how % 5 == 2:
            e = next(f for f in g.out_edges(q) if f == e)
        elif how % 5 == 3 and incidence:
            e = next(f for f in g.in_edges(r) if f == e)
        elif how % 5 == 4:
            e = EdgeDescriptor(q, r, x)
        g.remove_edge(e) if b % 2 else AU.remove_edge(e, g)
        del m.trans[q][x]
        o.label("remove transition")
    elif op == "m":      # Moves a transition, then removes it once more: its descriptor no longer denotes a transition
        es = srt(m.edges())
        if not es:
            return
        q, x, r = es[a % len(es)]
        others = [p for p in states if p != r and (not node or m.symbol.get(p) == x)]
        if not others:
            return
        e, r = m.descr[q, x], others[b % len(others)]
        g.remove_edge(e)
        f, added = g.add_edge(q, r) if node else g.add_edge(q, r, x)
        expect(added is True, "add_edge(%d, %d, %r) refused" % (q, r, x))
        m.trans[q][x], m.descr[q, x] = r, f
        try:
            g.remove_edge(e) if how % 2 else AU.remove_edge(e, g)
        except Exception:
            pass
        o.label("remove moved transition")
    elif op == "R":
        q = states[a % len(states)]
        if g.is_initial(q):
            g.set_initial(q, False)
            m.initial = None
        if how % 2:
            g.set_final(q, False)
        elif m.is_final(q):
            o.label("remove final state")
        m.final[q] = False
        g.remove_vertex(q) if b % 2 else AU.remove_vertex(q, g)
        if any(q == r for (_, _, r) in m.edges()):
            o.label("remove state with transitions")
        del m.trans[q]
        m.symbol.pop(q, None) if not node else None
        for t in m.trans.values():
            for y in [y for y, r in t.items() if r == q]:
                del t[y]
    elif op == "i":
        if how % 4 == 3 and m.initial is not None:
            g.set_initial(m.initial, False)
            m.initial = None
        elif states:
            q = states[a % len(states)]
            if how % 4 == 2:
                AU.set_initial(q, g, False) if how % 3 == 0 else g.set_initial(q, False)   # no effect unless q is the initial state
                m.initial = None if q == m.initial else m.initial
            else:
                AU.set_initial(q, g) if free else g.set_initial(q)
                m.initial = q
    elif op == "f":
        q = states[a % len(states)]
        b = how % 3 != 0
        AU.set_final(q, g, b) if free else g.set_final(q, b)
        m.final[q] = b


def remove_absent(g, live, states, gone, gone_vs, a, b, how, o):
    """Removes a transition or a state that is no longer in the automaton: nothing changes (this may raise)."""
    es = [e for e in gone if e not in live]
    vs = sorted(q for q in gone_vs if q not in states)
    try:
        if vs and (how % 3 == 0 or not es):
            q = vs[a % len(vs)]
            o.label("remove absent state")
            g.remove_vertex(q) if b % 2 else AU.remove_vertex(q, g)
        elif es:
            e = es[-1 - a % len(es)]
            o.label("remove absent transition")
            g.remove_edge(e) if b % 2 else AU.remove_edge(e, g)
    except Exception:
        pass


def words_of(case, m):
    out = [[SYMS[i] for i in w] for w in case["words"]]
    for walk in case["walks"]:
        q, w = m.initial, []
        for k in walk:
            t = m.trans.get(q, {})
            if not t:
                break
            a = srt(t)[k % len(t)]
            w.append(a)
            q = t[a]
        out.append(w)
        if w and all(isinstance(a, str) and len(a) == 1 for a in w):
            out.append("".join(w))
            out.append(tuple(w))
    return out


@st.composite
def automaton_histories(draw, big=False):
    cls = draw(st.sampled_from(["A", "IA", "N", "IN"]))
    opt = {
        "n": draw(st.integers(0, 6)), "q0": draw(st.one_of(st.none(), st.integers(0, 5))),
        "fin": draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=1, max_size=6))),
        "sym": draw(st.one_of(st.none(), st.lists(sym, max_size=6))), "pos": draw(st.booleans()),
    }
    small = st.integers(0, 7)
    op = st.tuples(st.sampled_from([0, 0, 0, 0, 1]), st.sampled_from("vveeeeeeeerrrRiffexm"), small, small, sym,
                   st.integers(0, 19)).map(list)
    ops = draw(st.one_of(st.lists(op, max_size=10), st.lists(op, min_size=8, max_size=50 if big else 30)))
    return {"cls": cls, "opt": opt, "ops": ops,
            "words": draw(st.lists(st.lists(sym, max_size=5), max_size=4)),
            "walks": draw(st.lists(st.lists(small, max_size=12), max_size=4)),
            "every": draw(st.sampled_from([1, 1, 1, 2, 4, 1000])), "first": draw(st.integers(0, 10))}


@target("C03", "history", automaton_histories, quick=500,
        rule="constructor options and history of operations on two automata of one of the four classes, compared with a "
             "dictionary model after every step, every few steps or at the end; non-trivial: a transition is refused, or a transition/state with "
             "transitions is removed")
def c03_history(case, o):
    cls = case["cls"]
    g1, m1 = make(cls, case["opt"])
    g2, m2 = CLASSES[cls](), Dfa(cls in ("N", "IN"))
    o.label(cls)
    pairs = [(g1, m1), (g2, m2)]
    every = case.get("every", 1)
    if every == 1:
        check_dfa(g1, m1, cls, [[]])
    gone, gone_vs = ([], []), (set(), set())
    for step, (w, op, a, b, s, how) in enumerate(case["ops"]):
        g, m = pairs[w]
        before, states = [m.descr[q, x] for (q, x, _) in m.edges()], set(m.trans)
        if op == "x":
            remove_absent(g, set(before), states, gone[w], gone_vs[w], a, b, how, o)
        else:
            do_op(g, m, cls, op, a, b, s, how, o)
            now = {m.descr[q, x] for (q, x, _) in m.edges()}
            gone[w].extend(e for e in before if e not in now)
            gone_vs[w].update(states - set(m.trans))
        if step % every != every - 1:
            continue
        if every > 1:
            first_query(g, m, cls, case["first"] + step)
        check_dfa(g, m, cls, words_of(dict(case, words=case["words"][:1], walks=case["walks"][:1]), m), full=False)
    for g, m in pairs:
        if every > 1:
            first_query(g, m, cls, case["first"] + len(case["ops"]))
        check_dfa(g, m, cls, words_of(case, m))
    o.nontrivial(set(o.labels) & {"refused", "remove transition", "remove state with transitions"})
    if m1.node:
        for q in m1.trans:
            equal(NA.symbol(q, g1), m1.symbol.get(q), "symbol(%d, g)" % q)


@st.composite
def large_automata(draw, big=False):
    return {
        "cls": draw(st.sampled_from(["A", "IA", "N", "IN"])), "n": draw(st.one_of(st.integers(1, 3), *[st.integers(2, 120 if not big else 400)] * 3)),
        "k": draw(st.integers(1, 40)), "mul": draw(st.integers(1, 30)), "q0": draw(st.integers(0, 5)),
        "fin": draw(st.integers(1, 9)), "rm": draw(st.lists(st.integers(0, 400), max_size=8)),
        "rme": draw(st.lists(st.integers(0, 4000), max_size=20)),
        "walks": draw(st.lists(st.lists(st.integers(0, 50), min_size=5, max_size=80), max_size=4)), "words": [],
        "unset": draw(st.integers(1, 5)), "times": draw(st.sampled_from([1, 1, 4, 16])),
    }


@target("C03", "large", large_automata, quick=40, rule="automata of up to 120 states and up to 40 symbols given by a "
        "formula, after removals; non-trivial: more than 20 transitions")
def c03_large(case, o):
    cls, n, k = case["cls"], case["n"], case["k"]
    node = cls in ("N", "IN")
    m = Dfa(node)
    kw = {"q0": case["q0"] % n}
    if node:
        g = CLASSES[cls](**kw)
        for q in range(n):
            g.add_vertex("s%d" % (q % (k + 1)))
            m.symbol[q] = "s%d" % (q % (k + 1))
    else:
        g = CLASSES[cls](n, **kw)
    m.initial = case["q0"] % n
    m.trans = {q: {} for q in range(n)}
    for q in range(n):
        for i in range(k if q % 7 else 2 * k):
            r = (q * case["mul"] + i * i + 1) % n
            a = m.symbol[r] if node else "s%d" % (i % k)
            e, added = g.add_edge(q, r) if node else g.add_edge(q, r, a)
            equal(bool(added), a not in m.trans[q], "add_edge(%d, %d, %s)" % (q, r, a))
            if added:
                m.trans[q][a] = r
                m.descr[q, a] = e
    for q in range(0, n, case["fin"]):
        g.set_final(q)
        m.final[q] = True
    for q in range(0, n, case["unset"]):
        if m.final.get(q) or q % 2:
            g.set_final(q, False)
            m.final[q] = False
    o.nontrivial(len(m.edges()) > 20)
    for i in case["rme"]:
        do_op(g, m, cls, "r", i, i, 0, i, o)
    for i in case["rm"]:
        if len(m.trans) > 1:
            do_op(g, m, cls, "R", i, i, 0, i, o)
    check_dfa(g, m, cls, words_of(dict(case, walks=[w * case["times"] for w in case["walks"]]), m), full=False)


@st.composite
def node_trees(draw, big=False):
    n = draw(st.integers(1, 12 if not big else 40))
    return {
        "cls": draw(st.sampled_from(["N", "IN"])), "n": n, "q0": draw(st.integers(0, n - 1)),
        "root": draw(st.one_of(st.none(), sym)), "syms": draw(st.lists(sym, min_size=n, max_size=n)),
        "parents": draw(st.lists(st.integers(0, 60), min_size=n, max_size=n)),
        "more": draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60)).map(list), max_size=12)),
        "fin": draw(st.lists(st.integers(0, n - 1), max_size=4)), "pmap": draw(st.booleans()),
        "walks": draw(st.lists(st.lists(st.integers(0, 20), max_size=10), max_size=3)), "words": [],
    }


@target("C03", "nodes", node_trees, quick=150, rule="node automata in which every state but the initial one is entered, "
        "so that the alphabet is known exactly; non-trivial: 3 transitions or more")
def c03_nodes(case, o):
    m = Dfa(True)
    n, q0 = case["n"], case["q0"]
    symbol = {q: SYMS[case["syms"][q]] for q in range(n)}
    symbol[q0] = None if case["root"] is None else SYMS[case["root"]]
    kw = {"pmap_vsymbol": make_assoc_property_map(defaultdict(lambda: None))} if case["pmap"] else {}
    g = CLASSES[case["cls"]](q0=q0, **kw)
    for q in range(n):
        g.add_vertex(symbol[q]) if symbol[q] is not None else g.add_vertex()
    m.symbol, m.initial, m.trans = symbol, q0, {q: {} for q in range(n)}
    order = [q0] + [q for q in range(n) if q != q0]
    pairs = [(order[case["parents"][i] % i], order[i]) for i in range(1, n)]
    pairs += [(a % n, b % n) for (a, b) in case["more"] if b % n != q0]
    entered = {q0}
    for q, r in pairs:
        # An orphan is given to the first entered state that accepts it
        ps = [q] if r in entered else [q] + [p for p in order if p in entered and symbol[r] not in m.trans[p]]
        for p in ps:
            e, added = g.add_edge(p, r)
            equal(bool(added), symbol[r] not in m.trans[p], "add_edge(%d, %d)" % (p, r))
            if added:
                m.trans[p][symbol[r]] = r
                m.descr[p, symbol[r]] = e
                entered.add(r)
                break
    for q in case["fin"]:
        g.set_final(q)
        m.final[q] = True
    o.nontrivial(len(m.edges()) > 2)
    check_dfa(g, m, case["cls"], words_of(case, m))


# ------------------------------------------------------------------------------------------------------------------
# C04
# ------------------------------------------------------------------------------------------------------------------

class NfaModel:
    def __init__(self, eps):
        self.states = set()
        self.trans = set()        # (q, a, r)
        self.initials = {0}
        self.final = set()
        self.default_final = lambda q: False
        self.seen_final = {}
        self.eps = eps

    def is_final(self, q):
        return self.seen_final[q] if q in self.seen_final else self.default_final(q)

    def closure(self, qs):
        ret, todo = set(qs), list(qs)
        while todo:
            q = todo.pop()
            for (p, a, r) in self.trans:
                if p == q and a == self.eps and r not in ret:
                    ret.add(r)
                    todo.append(r)
        return ret

    def step(self, qs, a):
        return {r for (p, b, r) in self.trans if p in qs and b == a}

    def delta(self, q, a):
        return self.closure(self.step(self.closure({q}), a))

    def delta_word(self, w):
        qs = self.closure(self.initials)
        for a in w:
            qs = self.closure(self.step(qs, a))
        return qs


def check_nfa(g, m, words):
    vs = list(g.vertices())
    equal(len(vs), len(set(vs)), "vertices() lists duplicates")
    equal(set(vs), m.states, "vertices()")
    equal(g.num_vertices(), len(m.states), "num_vertices()")
    es = list(g.edges())
    equal(srt((g.source(e), g.label(e), g.target(e)) for e in es), srt(m.trans), "edges()")
    equal(len(set(es)), len(m.trans), "descriptors of edges()")
    equal(g.num_edges(), len(m.trans), "num_edges()")
    for e in es:
        equal(bool(g.is_epsilon_transition(e)), g.label(e) == m.eps, "is_epsilon_transition(%s)" % e)
        equal(bool(NF.is_epsilon_transition(e, g)), g.label(e) == m.eps, "is_epsilon_transition(%s, g)" % e)
    alpha = {a for (_, a, _) in m.trans if a != m.eps}
    equal(set(g.alphabet()), alpha, "alphabet()")
    equal(set(g.initials), m.initials, "initials")
    equal(set(NF.initials(g)), m.initials, "initials(g)")
    equal(set(g.finals()), {q for q in vs if m.is_final(q)}, "finals()")
    for q in vs:
        want = [(p, a, r) for (p, a, r) in m.trans if p == q]
        got = list(g.out_edges(q))
        equal(srt((g.source(e), g.label(e), g.target(e)) for e in got), srt(want), "out_edges(%d)" % q)
        equal(len(set(got)), len(want), "descriptors of out_edges(%d)" % q)
        equal(g.out_degree(q), len(want), "out_degree(%d)" % q)
        equal(g.is_initial(q), q in m.initials, "is_initial(%d)" % q)
        equal(bool(g.is_final(q)), m.is_final(q), "is_final(%d)" % q)
        clo = m.closure({q})
        equal(g.delta_epsilon({q}), clo, "delta_epsilon({%d})" % q)
        equal(set(g.sigma(q)), {a for (p, a, _) in m.trans if p in clo and a != m.eps}, "sigma(%d)" % q)
        for a in srt(alpha) + ["no such symbol"]:
            equal(set(g.delta(q, a)), m.delta(q, a), "delta(%d, %r)" % (q, a))
    qs = set(vs[::2])
    keep = set(qs)
    equal(g.delta_epsilon(qs), m.closure(qs), "delta_epsilon(%s)" % qs)
    equal(qs, keep, "the set given to delta_epsilon")
    equal(g.delta_epsilon(set()), set(), "delta_epsilon(set())")
    for a in srt(alpha) + [m.eps, "no such symbol"]:
        equal(set(g.delta_one_step(list(qs), a)), m.step(qs, a), "delta_one_step(%s, %r)" % (qs, a))
    equal(set(g.delta_one_step(set(), "a")), set(), "delta_one_step(set(), 'a')")
    for w in words:
        want = m.delta_word(w)
        w = gen.again(w) if isinstance(w, str) else [gen.again(a) for a in w]
        equal(set(g.delta_word(w)), want, "delta_word(%r)" % (w,))
        equal(set(NF.delta_word(w, g)), want, "delta_word(%r, g)" % (w,))
        equal(bool(g.accepts(w)), any(m.is_final(q) for q in want), "accepts(%r)" % (w,))
    equal(set(g.initials), m.initials, "initials after the queries")


def first_nfa_query(g, m, k):
    """A single query, before any other one."""
    k %= 10
    es = srt(m.trans)
    q = sorted(m.states)[k % len(m.states)] if m.states else None
    alpha = {a for (_, a, _) in es if a != m.eps}
    if k == 0:
        equal(set(g.vertices()), m.states, "vertices()")
    elif k == 1:
        equal(g.num_edges(), len(es), "num_edges()")
    elif k == 2:
        equal(set(g.alphabet()), alpha, "alphabet()")
    elif k == 3:
        equal(set(g.finals()), {q for q in m.states if m.is_final(q)}, "finals()")
    elif k == 4:
        equal(set(g.delta_word([])), m.delta_word([]), "delta_word([])")
    elif k == 5:
        a = srt(alpha)[:1]
        equal(bool(g.accepts(a)), any(m.is_final(q) for q in m.delta_word(a)), "accepts(%r)" % a)
    elif q is not None:
        clo = m.closure({q})
        if k == 6:
            equal(g.delta_epsilon({q}), clo, "delta_epsilon({%d})" % q)
        elif k == 7:
            equal(set(g.sigma(q)), {a for (p, a, _) in es if p in clo and a != m.eps}, "sigma(%d)" % q)
        elif k == 8:
            for a in srt(alpha)[:1]:
                equal(set(g.delta(q, a)), m.delta(q, a), "delta(%d, %r)" % (q, a))
        else:
            equal(bool(g.is_final(q)), m.is_final(q), "is_final(%d)" % q)


EPS = {"default": EPSILON, "str": "eps", "int": 0, "empty": "", "tuple": ("e",)}


@st.composite
def nfa_histories(draw, big=False):
    small = st.integers(0, 7)
    op = st.tuples(st.sampled_from([0, 0, 0, 0, 1]), st.sampled_from("vveeeeeeepppprrrRiffIdcx"), small, small, sym,
                   st.integers(0, 19)).map(list)
    ops = draw(st.one_of(st.lists(op, max_size=12), st.lists(op, min_size=8, max_size=50 if big else 30)))
    return {
        "n": draw(st.integers(0, 6)), "eps": draw(st.sampled_from(sorted(EPS))),
        "initials": draw(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=3))),
        "fin": draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=1, max_size=6))),
        "ops": ops, "words": draw(st.lists(st.lists(sym, max_size=6), max_size=6)), "letters": draw(st.booleans()),
        "every": draw(st.sampled_from([1, 1, 1, 2, 4, 1000])), "first": draw(st.integers(0, 9)),
    }


def nfa_words(case, m):
    syms = srt({a for (_, a, _) in m.trans if a != m.eps}) or ["a"]
    out = [[]]
    for w in case["words"]:
        ww = [syms[i % len(syms)] for i in w]
        out.append(ww)
        if ww and all(isinstance(a, str) and len(a) == 1 for a in ww):
            out.append("".join(ww))
        out.append([SYMS[i] for i in w if SYMS[i] != m.eps])
    return out


@target("C04", "history", nfa_histories, quick=500,
        rule="history of operations on two NFAs compared with a set-of-triples model after every step, every few steps or at the end, words drawn over "
             "the live alphabet; non-trivial: has an epsilon transition and a removal or a repeated transition")
def c04_history(case, o):
    eps = EPS[case["eps"]]
    m1, m2 = NfaModel(eps), NfaModel(EPSILON)
    kw = {}
    if case["eps"] != "default":
        kw["epsilon"] = eps
    if case["initials"] is not None:
        kw["initials"] = set(case["initials"])
        m1.initials = set(case["initials"])
    if case["fin"] is not None:
        table = dict(enumerate(case["fin"]))
        kw["pmap_vfinal"] = make_assoc_property_map(defaultdict(bool, table))
        m1.default_final = lambda q: table.get(q, False)
    g1, g2 = Nfa(case["n"], **kw), Nfa()
    m1.states = set(range(case["n"]))
    equal(NF.epsilon(g1), eps, "epsilon(g)")
    pairs = [(g1, m1), (g2, m2)]
    shared = []
    every = case.get("every", 1)
    descr = ({}, {})
    gone, gone_vs = ([], []), (set(), set())
    for step, (w, op, a, b, s, how) in enumerate(case["ops"]):
        g, m = pairs[w]
        states = sorted(m.states)
        before = {t: descr[w][t] for t in m.trans}
        if op == "x":
            es = [e for t, e in gone[w] if t not in m.trans]
            remove_absent(g, (), m.states, es, gone_vs[w], a, b, how, o)
            if every == 1:
                check_nfa(g, m, [])
            continue
        x = SYMS[s % len(SYMS)]
        if case["letters"]:
            x = "abc"[s % 3]
        if x == m.eps and op == "e":
            x = "a" if m.eps != "a" else "b"
        if op == "p":
            x = m.eps
        if op == "v" or (op in "ep" and not states):
            u = g.add_vertex()
            expect(u not in m.states, "add_vertex returned an identifier in use:", u)
            m.states.add(u)
        elif op in "ep":
            q, r = states[a % len(states)], states[b % len(states)]
            if (q, x, r) in m.trans:
                o.label("repeated")
            x = gen.again(x)
            e, added = g.add_edge(q, r, x) if how % 2 else AU.add_edge(q, r, x, g)
            expect(added, "add_edge(%d, %d, %r) refused" % (q, r, x))
            equal((g.source(e), g.label(e), g.target(e)), (q, x, r), "descriptor of add_edge")
            hash(e)
            m.trans.add((q, x, r))
            descr[w][q, x, r] = e
            if op == "p":
                o.label("epsilon")
        elif op == "d":    # the same transition again
            if m.trans:
                q, x, r = srt(m.trans)[a % len(m.trans)]
                g.add_edge(q, r, gen.again(x))
                o.label("repeated")
        elif op == "r":
            if not m.trans:
                continue
            q, x, r = srt(m.trans)[a % len(m.trans)]
            e = descr[w][q, x, r]
            if how % 3:
                it = g.edges() if how % 2 else g.out_edges(q)
                e = next(f for f in it if (g.source(f), g.label(f), g.target(f)) == (q, x, r))
            g.remove_edge(e) if b % 2 else AU.remove_edge(e, g)
            m.trans.discard((q, x, r))
            o.label("removal")
        elif op == "R":
            if not states:
                continue
            q = states[a % len(states)]
            g.set_initial(q, False)
            if how % 2:
                g.set_final(q, False)
            elif m.is_final(q):
                o.label("remove final state")
            m.initials.discard(q)
            m.seen_final[q] = False
            g.remove_vertex(q)
            m.states.discard(q)
            m.trans = {t for t in m.trans if q not in (t[0], t[2])}
            o.label("removal")
        elif op == "i" and states:
            q = states[a % len(states)]
            if how % 3:
                g.set_initial(q)
                m.initials.add(q)
            else:
                g.set_initial(q, False)
                m.initials.discard(q)
        elif op == "I" and states:
            qs = {states[a % len(states)], states[b % len(states)]} if how % 4 else set()
            given = [set, list, tuple, frozenset, iter][a % 5](qs)
            g.set_initials(given) if how % 2 else NF.set_initials(given, g)
            m.initials = set(qs)
            shared.append((given, set(qs), m))
        elif op == "f" and states:
            q = states[a % len(states)]
            g.set_final(q, how % 3 != 0)
            m.seen_final[q] = how % 3 != 0
        elif op == "c" and how == 0:
            for q in set(states) | gone_vs[w]:    # the identifiers are used again afterwards
                g.set_initial(q, False)
                g.set_final(q, False)
                m.seen_final[q] = False
            m.initials -= m.states
            g.clear()
            m.states, m.trans = set(), set()
        gone[w].extend((t, e) for t, e in before.items() if t not in m.trans)
        gone_vs[w].update(set(states) - m.states)
        if step % every != every - 1:
            continue
        if every > 1:
            first_nfa_query(g, m, case["first"] + step)
        check_nfa(g, m, nfa_words(dict(case, words=case["words"][:2]), m))
    for i, (given, kept, m) in enumerate(shared):
        if isinstance(given, set):
            equal(given, kept, "the set given to set_initials")
            if i == len(shared) - 1:
                given.symmetric_difference_update({0, 1})     # the caller's own set: no effect on the automaton
    for g, m in pairs:
        if every > 1:
            first_nfa_query(g, m, case["first"] + len(case["ops"]))
        check_nfa(g, m, nfa_words(case, m))
    o.nontrivial("epsilon" in o.labels and {"removal", "repeated"} & set(o.labels))


@st.composite
def large_nfas(draw, big=False):
    return {
        "n": draw(st.integers(2, 150 if not big else 500)), "shape": draw(st.sampled_from(["chain", "cycle", "star", "formula", "wide", "dense"])),
        "every": draw(st.integers(1, 5)), "mul": draw(st.integers(1, 9)), "back": draw(st.booleans()),
        "initials": draw(st.lists(st.integers(0, 200), min_size=1, max_size=5)), "fin": draw(st.integers(1, 20)),
        "words": draw(st.lists(st.lists(st.integers(0, 1), max_size=60), max_size=3)),
    }


@target("C04", "large", large_nfas, quick=120, rule="NFAs of 2 to 150 states with long epsilon paths or wide fans given by "
        "a formula; non-trivial: some epsilon closure has more than 5 states")
def c04_large(case, o):
    n = case["n"]
    m = NfaModel(EPSILON)
    m.states = set(range(n))
    m.initials = {q % n for q in case["initials"]}
    g = Nfa(n)
    g.set_initials(m.initials)
    if case["shape"] == "wide":     # many states reached by one symbol, then by an epsilon transition
        h = (n + 1) // 2
        m.trans |= {(0, "a", i) for i in range(1, h)} | {(i, EPSILON, i + h) for i in range(h) if i + h < n} | {(q, "ab"[q % 2], q * case["mul"] % n) for q in range(h, n)}
    if case["shape"] == "dense":
        m.trans |= {(q, x, (q * case["mul"] + k * k) % n) for q in range(n) for k, x in enumerate("aab" + EPSILON * (q % case["every"] == 0))}
    for i in range(n if case["shape"] not in ("wide", "dense") else 0):
        r = {"chain": i + 1, "cycle": (i + 1) % n, "star": i, "formula": (i * case["mul"] + 1) % n}[case["shape"]]
        q = 0 if case["shape"] == "star" else i
        x = EPSILON if i % (case["every"] + 1) else "ab"[i % 2]
        if r < n:
            m.trans.add((q, x, r))
        if case["back"] and i % 3 == 0 and r < n:
            m.trans.add((r, "a", q))
    for (q, a, r) in sorted(m.trans):
        g.add_edge(q, r, a)
    for q in range(0, n, case["fin"]):
        g.set_final(q)
        m.seen_final[q] = True
    by = defaultdict(list)
    for (q, a, r) in m.trans:
        by[q, a].append(r)

    def closure(qs):
        ret, todo = set(qs), list(qs)
        while todo:
            for r in by.get((todo.pop(), EPSILON), ()):
                if r not in ret:
                    ret.add(r)
                    todo.append(r)
        return ret
    for q in range(0, n, max(1, n // 12)):
        clo = closure({q})
        o.nontrivial(len(clo) > 5)
        equal(g.delta_epsilon({q}), clo, "delta_epsilon({%d})" % q)
        equal(set(g.sigma(q)), {a for p in clo for a in "ab" if by.get((p, a))}, "sigma(%d)" % q)
    for w in case["words"] + [[]]:
        w = "".join("ab"[i] for i in w)
        qs = closure(m.initials)
        for a in w:
            qs = closure({r for p in qs for r in by.get((p, a), ())})
        equal(set(g.delta_word(w)), qs, "delta_word(%r)" % w)
        equal(bool(g.accepts(w)), any(m.is_final(q) for q in qs), "accepts(%r)" % w)


# ------------------------------------------------------------------------------------------------------------------
# C25
# ------------------------------------------------------------------------------------------------------------------

NAMES = {
    "int": [0, 1, 2, 3, 4, 5, 6, 7], "sparse": [10, -3, 7, 0, 42, 5, 1000, 2], "str": ["q", "", "b", "aa", "Z", "0", "10", "9"],
    "tuple": [[1, 2], [0, 5], [1, 0], [3], [], [2, 2], [0], [9, 9]], "float": [0.5, 2.0, -1.5, 3.25, 1e9, 0.0, 7.5, 1.0],
}


@st.composite
def builders(draw, big=False):
    kind = draw(st.sampled_from(sorted(NAMES)))
    k = draw(st.integers(1, 8))
    node = draw(st.booleans())
    name = st.integers(0, k - 1)
    trans = draw(st.lists(
        st.tuples(name, name, sym).map(list),
        min_size=draw(st.sampled_from([0, 1, 4, 8])), max_size=14,
    ))
    return {
        "node": node, "kind": kind, "trans": trans, "q0": draw(st.one_of(st.none(), st.integers(0, 30))),
        "fin": draw(st.one_of(st.none(), st.lists(name, max_size=5))), "finkind": draw(st.sampled_from(["assoc", "func"])),
        "sym": draw(st.one_of(st.none(), st.lists(st.one_of(sym, sym, st.none()), min_size=8, max_size=8))),
        "inc": draw(st.booleans()), "ctor": draw(st.sampled_from(["", "", "same", "sub"])), "kwargs": draw(st.booleans()),
        "container": draw(st.sampled_from(["list", "tuple"])),
    }


@target("C25", "builders", builders, quick=900,
        rule="transition lists over names of five kinds, with or without initial name, final map and label map, four "
             "builders and custom constructors; non-trivial: a name is not its index and a transition exists")
def c25_builders(case, o):
    names = [tuple(x) if isinstance(x, list) else x for x in NAMES[case["kind"]]]
    node, inc = case["node"], case["inc"]
    base = (IncidenceNodeAutomaton if inc else NodeAutomaton) if node else (IncidenceAutomaton if inc else Automaton)

    class Sub(base):
        pass
    make_f = (make_incidence_node_automaton if inc else make_node_automaton) if node else \
        (make_incidence_automaton if inc else make_automaton)
    kw = {}
    expected_cls = base
    if case["ctor"] and make_f is not make_incidence_automaton:
        expected_cls = kw["Constructor"] = base if case["ctor"] == "same" else Sub
    if case["ctor"] and make_f is make_node_automaton and case["ctor"] == "same":
        expected_cls = kw["Constructor"] = IncidenceNodeAutomaton
    if case["ctor"] and make_f is make_automaton and case["ctor"] == "same":
        expected_cls = kw["Constructor"] = IncidenceAutomaton
    if node:
        trans = [(names[q], names[r]) for (q, r, _) in case["trans"]]
    else:
        trans = [(names[q], names[r], SYMS[a]) for (q, r, a) in case["trans"]]
    used = sorted({t[0] for t in trans} | {t[1] for t in trans})
    index = {x: i for i, x in enumerate(used)}
    given_q0 = case["q0"]
    if given_q0 is None and used and 0 not in used:
        given_q0 = 0     # the default name 0 does not exist: give one
    args = []
    q0n = 0 if given_q0 is None else (used[given_q0 % len(used)] if used else given_q0)
    finals = {names[i] for i in case["fin"]} if case["fin"] is not None else set()
    d = defaultdict(bool, {x: True for x in finals})
    pf = None
    if case["fin"] is not None:
        pf = make_assoc_property_map(d) if case["finkind"] == "assoc" else make_func_property_map(gen.loose(len(trans), lambda x: x in finals))
    lab = None
    ds = None
    if node and case["sym"] is not None:
        ds = defaultdict(lambda: None, {x: (None if s is None else SYMS[s]) for x, s in zip(names, case["sym"])})
        lab = make_assoc_property_map(ds) if case["finkind"] == "assoc" else make_func_property_map(lambda x: ds.get(x))
        ds_before = dict(ds)
    tl = list(trans) if case["container"] == "list" else tuple(trans)
    if case["kwargs"]:
        if node and lab is not None:
            kw["pmap_vlabel"] = lab
        if given_q0 is not None:
            kw["q0n"] = q0n
        if pf is not None:
            kw["pmap_vfinal"] = pf
        g = make_f(tl, **kw)
    else:
        args = [tl] + ([lab] if node else []) + [q0n, pf]
        g = make_f(*args, **kw)
    o.nontrivial(trans and any(index[x] != x for x in used))
    o.label("node" if node else "edge", case["kind"])
    expect(type(g) is expected_cls, "class of the result:", type(g), "instead of", expected_cls)
    # Model
    m = Dfa(node)
    m.trans = {i: {} for i in range(len(used))}
    if node:
        m.symbol = {i: (ds.get(x) if ds is not None else None) for x, i in index.items()}
    for t in trans:
        q, r = index[t[0]], index[t[1]]
        a = m.symbol[r] if node else t[2]
        if a not in m.trans[q]:
            m.trans[q][a] = r
            m.descr[q, a] = EdgeDescriptor(q, r, a)
    m.initial = index[q0n] if used else 0
    m.final = {i: x in finals for x, i in index.items()}
    code = {Automaton: "A", IncidenceAutomaton: "IA", NodeAutomaton: "N", IncidenceNodeAutomaton: "IN"}
    cls = code[next(c for c in (IncidenceNodeAutomaton, IncidenceAutomaton, NodeAutomaton, Automaton) if isinstance(g, c))]
    if not used:
        equal(g.num_vertices(), 0, "states for no transition")
    else:
        check_dfa(g, m, cls, [[], ["a"], ["a", "b"], [0, "a"]])
    equal(list(tl), trans, "the transition list")
    for q in m.trans:     # the result has its own maps
        g.set_final(q, not m.final[q])
    equal({x for x, b in d.items() if b}, finals, "the final map given")
    if ds is not None:
        equal({x: y for x, y in ds.items() if y is not None}, {x: y for x, y in ds_before.items() if y is not None},
              "the label map given")
