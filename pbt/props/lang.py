"""C13: union, intersection, inclusion; C14: determination; C15: Hopcroft; C16: Revuz."""
import random
from collections import defaultdict, deque
from hypothesis import strategies as st
from pbt import gen
from pbt.core import target, expect, equal
from pbt.props.automata import SYMS, EPS, NfaModel, srt
from pybgl import (
    Automaton, DigitalSequence, DefaultRevuzMinimizeVisitor, IncidenceAutomaton, IncidenceNodeAutomaton, Nfa,
    NodeAutomaton, Trie, make_assoc_property_map, make_func_property_map,
)
from pybgl.deterministic_inclusion import DeterministicInclusionVisitor, deterministic_inclusion
from pybgl.deterministic_intersection import DeterministicIntersectionVisitor, deterministic_intersection
from pybgl.deterministic_union import DeterministicUnionVisitor, deterministic_union
from pybgl.hopcroft_minimize import hopcroft_minimize
from pybgl.moore_determination import moore_determination
from pybgl.revuz_minimize import revuz_height, revuz_minimize

CLASSES = {"A": Automaton, "IA": IncidenceAutomaton, "N": NodeAutomaton, "IN": IncidenceNodeAutomaton}


class Model:
    """A deterministic automaton: trans[q][a] = r; init may be None."""
    def __init__(self, trans, init, final, symbol=None):
        self.trans, self.init, self.final, self.symbol = trans, init, set(final), symbol

    def step(self, q, a):
        return None if q is None else self.trans[q].get(a)

    def is_final(self, q):
        return q is not None and q in self.final

    def alphabet(self):
        return {a for t in self.trans.values() for a in t}

    def succ(self, q):
        return self.trans[q].values()

    def reachable(self):
        return gen.reach([] if self.init is None else [self.init], self.succ)

    def coaccessible(self):
        pred = defaultdict(set)
        for q, t in self.trans.items():
            for r in t.values():
                pred[r].add(q)
        return gen.reach([q for q in self.final if q in self.trans], lambda q: pred[q])

    def classes(self, states=None):
        """Moore's partition of the states (None being the sink): {state: class number}."""
        states = list(self.trans if states is None else states)
        alpha = srt(self.alphabet())
        cls = {q: int(self.is_final(q)) for q in states}
        cls[None] = 0
        n = len(set(cls.values()))
        while True:
            sig = {q: (cls[q],) + tuple((i, cls[t[a]]) for i, a in enumerate(alpha) if a in t and cls[t[a]] != cls[None])
                   for q, t in [(q, self.trans[q]) for q in states if q is not None] + [(None, {})]}
            ids = {}
            cls = {q: ids.setdefault(s, len(ids)) for q, s in sig.items()}
            if len(ids) == n:
                return cls
            n = len(ids)


def model_of(g):
    """The Model of an automaton, as shown by vertices(), out_edges(), is_final() and initial()."""
    trans = {}
    for q in g.vertices():
        t = trans[q] = {}
        for e in g.out_edges(q):
            expect(g.source(e) == q, "source of an out-edge of", q)
            expect(g.label(e) not in t, "two transitions leave", q, "with", g.label(e))
            t[g.label(e)] = g.target(e)
    for q, t in trans.items():
        for a, r in t.items():
            expect(r in trans, "a transition leads to", r, "which is not a state")
            equal(g.delta(q, a), r, "delta(%r, %r)" % (q, a))
    init = g.initial()
    return Model(trans, init if init in trans else None, [q for q in trans if g.is_final(q)])


def compare(g, init, step, final, alphabet, what):
    """Checks that the automaton g accepts the language of the deterministic reference (None is a sink of both)."""
    q0 = g.initial()
    if q0 not in set(g.vertices()):
        q0 = None
    alphabet = srt(set(alphabet) | set(g.alphabet()))
    seen = {(q0, init)}
    todo = deque([(q0, init, ())])
    while todo:
        q, r, w = todo.popleft()
        equal(q is not None and bool(g.is_final(q)), bool(final(r)), "%s: acceptance of the word %r" % (what, list(w)))
        if len(w) <= 3:
            equal(bool(g.accepts(list(w))), bool(final(r)), "%s: accepts(%r)" % (what, list(w)))
        for a in alphabet:
            p = (None if q is None else g.delta(q, a), step(r, a))
            if p not in seen:
                seen.add(p)
                todo.append(p + (w + (a,),))
    return len(seen)


def compare_model(g, m, what):
    return compare(g, m.init, m.step, m.is_final, m.alphabet(), what)


# Cases of automata

@st.composite
def dfa_cases(draw, big=False, classes=("A", "IA", "A", "IA", "T", "S", "N", "IN"), n_max=6):
    cls = draw(st.sampled_from(classes))
    if cls == "T":
        return {"cls": "T", "words": draw(st.lists(st.text("abc", max_size=5), min_size=draw(st.sampled_from([0, 2, 4])), max_size=6)), "q0": 0}
    if cls == "S":
        return {"cls": "S", "words": [draw(st.text("abc", max_size=6))], "q0": 0}
    n = draw(st.one_of(st.integers(1, n_max), st.integers(3, n_max), st.integers(3, 3 * n_max * (2 if big else 1))))
    q = st.integers(0, n - 1)
    c = {"cls": cls, "n": n, "q0": draw(st.sampled_from([0, 0, 0, n - 1, n // 2, n // 2, n - 1, n // 3, None])),
         "fin": sorted(set(draw(st.lists(q, min_size=draw(st.sampled_from([0, 1, 1, min(2, n)])), max_size=n))))}
    k = draw(st.sampled_from([2, 1, 2, 3, 5]))
    if cls in ("N", "IN"):
        c["sym"] = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
        c["e"] = draw(st.lists(st.tuples(q, q).map(list), min_size=draw(st.sampled_from([n, n, 0, 2 * n])), max_size=3 * n))
    else:
        cells = draw(st.lists(st.one_of(st.none(), q, q, q), min_size=n * k, max_size=n * k))
        c["t"] = [[i // k, i % k, r] for i, r in enumerate(cells) if r is not None]
        if draw(st.integers(0, 4)) == 0:
            c["rm"] = sorted(set(draw(st.lists(q, max_size=2))) - {c["q0"]})[: n - 1]
    return c


def trie_model(words):
    pre = {w[:i] for w in words for i in range(len(w) + 1)} | {""}
    return Model({p: {x[-1]: x for x in pre if x and x[:-1] == p} for p in pre}, "", words)


def final_map(fin, n):
    """A map telling the final states: booleans, or 0 and 1."""
    return make_assoc_property_map(defaultdict(int, {q: 1 for q in fin}) if n % 2 else defaultdict(bool, {q: True for q in fin}))


def build(c):
    if c["cls"] == "T":
        g = Trie()
        for w in c["words"]:
            g.insert(w)
        return g, trie_model(c["words"])
    if c["cls"] == "S":
        return DigitalSequence(c["words"][0]), trie_model(c["words"])
    n = c["n"]
    trans = {q: {} for q in range(n)}
    sym = None
    kw = {"pmap_vfinal": final_map(set(c["fin"]) - set(c.get("rm", ())), n)} if n % 3 == 1 else {}
    if c["cls"] in ("N", "IN"):
        g = CLASSES[c["cls"]](**kw)
        sym = [SYMS[a] for a in c["sym"]]
        for q in range(n):
            g.add_vertex(sym[q])
        for q, r in c["e"]:
            g.add_edge(q, r)
            trans[q].setdefault(sym[r], r)
    else:
        g = CLASSES[c["cls"]](n, **kw)
        for q, a, r in c["t"]:
            a = a if isinstance(a, str) else SYMS[a]
            g.add_edge(q, r, a)
            trans[q].setdefault(a, r)
    if c["q0"] is None:
        g.set_initial(0, False)
    else:
        g.set_initial(c["q0"])
    fin = set(c["fin"])
    for q in c.get("rm", ()):
        fin.discard(q)
        g.remove_vertex(q)
        del trans[q]
        for t in trans.values():
            for a in [a for a, r in t.items() if r == q]:
                del t[a]
    if not kw:
        for q in fin:
            g.set_final(q)
    return g, Model(trans, c["q0"], fin, sym)


def state_of(g):
    """Everything the public API shows of an automaton."""
    vs = list(g.vertices())
    return [gen.snapshot(g), g.initial(), [(q, bool(g.is_final(q)), g.is_initial(q)) for q in sorted(vs)],
            srt(g.alphabet())]


@st.composite
def variant(draw, c):
    """An automaton close to c: renamed, duplicated, with finals or transitions changed, a superset or a subset."""
    changes = draw(st.sampled_from([1, 0, 1, 2]))
    if c["cls"] in ("T", "S"):
        ws = list(c["words"])
        if draw(st.booleans()):
            ws = ws + draw(st.lists(st.text("abc", max_size=5), max_size=changes))
        else:
            ws = ws[changes:]
        if draw(st.booleans()) and ws:
            return {"cls": "T", "words": ws[::-1], "q0": 0}
        m = trie_model(ws)
        ids = {p: i for i, p in enumerate(sorted(m.trans, reverse=draw(st.booleans())))}
        return {"cls": "A", "n": len(ids), "q0": ids[""], "fin": sorted(ids[w] for w in set(ws)),
                "t": [[ids[p], "abc".index(a), ids[r]] for p, t in sorted(m.trans.items()) for a, r in sorted(t.items())]}
    if c["cls"] in ("N", "IN"):
        d = dict(c, cls=draw(st.sampled_from(["N", "IN"])))
        d["fin"] = sorted(set(c["fin"]) ^ set(draw(st.lists(st.integers(0, c["n"] - 1), max_size=changes))))
        return d
    n = c["n"]
    copies = draw(st.lists(st.sampled_from([1, 1, 1, 2, 3]), min_size=n, max_size=n))
    names, k = [], 0
    for i in copies:
        names.append(list(range(k, k + i)))
        k += i
    perm = draw(st.permutations(range(k)))
    rm = set(c.get("rm", ()))
    t = []
    first = {}
    for q, a, r in c["t"]:
        first.setdefault((q, a), r)
    pick = draw(st.lists(st.integers(0, 2), min_size=1, max_size=8))
    for (q, a), r in first.items():
        if q in rm or r in rm:
            continue
        for x in names[q]:
            t.append([perm[x], a, perm[names[r][pick[len(t) % len(pick)] % copies[r]]]])
    fin = {perm[x] for q in c["fin"] if q not in rm for x in names[q]}
    for _ in range(changes):
        kind = draw(st.sampled_from("fdas"))
        if kind == "f":
            fin ^= {draw(st.integers(0, k - 1))}
        elif kind == "d" and t:
            t.pop(draw(st.integers(0, len(t) - 1)))
        elif kind == "a":
            t.append([draw(st.integers(0, k - 1)), draw(st.integers(0, 4)), draw(st.integers(0, k - 1))])
        elif fin:
            fin.discard(max(fin))
    q0 = c["q0"]
    return {"cls": draw(st.sampled_from(["A", "IA"])), "n": k, "t": t, "fin": sorted(fin),
            "q0": None if q0 is None else perm[names[q0][0]]}


# ------------------------------------------------------------------------------------------------------------------
# C13
# ------------------------------------------------------------------------------------------------------------------

@st.composite
def pairs(draw, big=False):
    a = draw(dfa_cases(big))
    b = draw(st.one_of(dfa_cases(big), variant(a), variant(a)))
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "g12": draw(st.sampled_from([None, None, "A", "IA"])), "vis": draw(st.booleans())}


@target("C13", "operations", pairs, quick=450, rule="two automata of six classes, independent or derived from one another "
        "(renamed, states duplicated, finals or transitions changed); union, intersection and inclusion against the "
        "product of the models, exhaustively over reachable pairs; non-trivial: at least one common transition is "
        "followed and both languages are not empty")
def c13(case, o):
    g1, m1 = build(case["a"])
    g2, m2 = build(case["b"])
    s1, s2 = state_of(g1), state_of(g2)
    alpha = m1.alphabet() | m2.alphabet()

    def step(p, a):
        return (m1.step(p[0], a), m2.step(p[1], a))
    p0 = (m1.init, m2.init)
    ops = [
        (deterministic_union, DeterministicUnionVisitor, lambda p: m1.is_final(p[0]) or m2.is_final(p[1])),
        (deterministic_intersection, DeterministicIntersectionVisitor, lambda p: m1.is_final(p[0]) and m2.is_final(p[1])),
    ]
    for op, vis, final in ops:
        kw = {}
        g12 = None
        if case["g12"]:
            g12 = kw["g12"] = CLASSES[case["g12"]]()
            if case["vis"]:
                kw["vis"] = vis(g12)
        res = op(g1, g2, **kw)
        if g12 is not None:
            expect(res is g12, op.__name__, "returns another automaton than g12")
        model_of(res)
        compare(res, p0, step, final, alpha, op.__name__)
        equal(state_of(g1), s1, "first operand after", op.__name__)
        equal(state_of(g2), s2, "second operand after", op.__name__)
        if case["vis"]:
            compare(op(g1, g1), m1.init, m1.step, m1.is_final, m1.alphabet(), op.__name__ + " of an automaton and itself")
            equal(state_of(g1), s1, "operand after", op.__name__, "with itself")
    # Inclusion
    seen, todo = {p0}, [p0]
    only1 = only2 = False
    both = False
    while todo:
        p = todo.pop()
        f1, f2 = m1.is_final(p[0]), m2.is_final(p[1])
        only1, only2 = only1 or (f1 and not f2), only2 or (f2 and not f1)
        for a in alpha:
            r = step(p, a)
            if r not in seen:
                seen.add(r)
                todo.append(r)
            both = both or (r[0] is not None and r[1] is not None)
    want = None if only1 and only2 else -1 if only1 else 1 if only2 else 0
    kw = {"vis": DeterministicInclusionVisitor()} if case["vis"] else {}
    equal(deterministic_inclusion(g1, g2, **kw), want, "deterministic_inclusion(g1, g2)")
    equal(deterministic_inclusion(g2, g1), None if want is None else -want, "deterministic_inclusion(g2, g1)")
    equal(deterministic_inclusion(g1, g1), 0, "deterministic_inclusion(g1, g1)")
    equal(state_of(g1), s1, "first operand after deterministic_inclusion")
    equal(state_of(g2), s2, "second operand after deterministic_inclusion")
    empty = not (m1.reachable() & m1.final) or not (m2.reachable() & m2.final)
    o.label("inclusion=%s" % want, *{case["a"]["cls"], case["b"]["cls"]})
    if m1.init is None or m2.init is None:
        o.label("no initial state")
    o.nontrivial(both and not empty)


# Larger automata, given by formulas

def formula(c):
    """Transitions of c["n"] states over c["k"] symbols."""
    n, k = c["n"], c["k"]
    return [[q, chr(0x100 + a), (q * c["mul"] + a * a + a + (q * a) % c["add"]) % n] for q in range(n) for a in range(k)
            if c["miss"] == 0 or (q * 5 + a * 3) % c["miss"]]


def formulas(n, k, low=2):
    return st.fixed_dictionaries({
        "n": st.integers(low, n), "k": st.one_of(st.integers(1, 3), st.integers(low // 2, k)), "mul": st.integers(1, 9), "add": st.integers(1, 5),
        "miss": st.sampled_from([0, 0, 3, 7, 11]), "step": st.integers(1, 9), "shift": st.integers(0, 9), "q0": st.integers(0, 40)})


@st.composite
def wide_pairs(draw, big=False):
    c = formulas(*((40, 40) if not big else (90, 80)))
    return {"a": draw(c), "b": draw(c), "kind": draw(st.sampled_from(["independent", "copy", "variant", "twice", "subset"])),
            "i": draw(st.integers(0, 1000)), "swap": draw(st.booleans()), "vis": draw(st.booleans()),
            "g12": draw(st.sampled_from([None, "A"])), "cls": draw(st.sampled_from(["A", "IA"]))}


@target("C13", "wide", wide_pairs, quick=30, rule="pairs of automata of up to 40 states and 40 symbols (thorough: 90 and 80), independent, "
        "or equal but for one transition or final state, or duplicated; non-trivial: as above")
def c13_wide(case, o):
    gs = []
    for k in "ab":
        c = case[k]
        gs.append({"cls": case["cls"], "n": c["n"], "q0": c["q0"] % c["n"], "t": formula(c),
                   "fin": [q for q in range(c["n"]) if (q + c["shift"]) % c["step"] == 0]})
    a, b = gs
    i, n = case["i"], a["n"]
    if case["kind"] != "independent":
        b = dict(a, t=[list(x) for x in a["t"]], fin=list(a["fin"]))
    if case["kind"] == "variant" and b["t"]:
        t = b["t"][i % len(b["t"])]
        t[2] = (t[2] + 1 + i) % n
    elif case["kind"] == "subset":
        b["fin"] = [q for j, q in enumerate(b["fin"]) if j != i % max(1, len(b["fin"]))]
    elif case["kind"] == "twice":       # two copies of each state
        b = dict(b, n=2 * n, t=[[q + n * d, x, r + n * ((q + r + d + i) % 2)] for q, x, r in a["t"] for d in (0, 1)],
                 fin=a["fin"] + [q + n for q in a["fin"]])
    c13({"a": b if case["swap"] else a, "b": a if case["swap"] else b, "g12": case["g12"], "vis": case["vis"]}, o)
    o.label(case["kind"])


# ------------------------------------------------------------------------------------------------------------------
# C14
# ------------------------------------------------------------------------------------------------------------------

@st.composite
def nfas(draw, big=False):
    n = draw(st.one_of(st.integers(1, 5), st.integers(3, 6), st.integers(3, 9 if not big else 11)))
    q = st.integers(0, n - 1)
    k = draw(st.sampled_from([2, 1, 3]))
    m = draw(st.sampled_from([2 * n, 2 * n, n, n, 0, 3 * n]))
    return {
        "n": n, "eps": draw(st.sampled_from(sorted(EPS))),
        "syms": draw(st.lists(st.integers(0, 6), min_size=k, max_size=k, unique=True)),
        "t": draw(st.lists(st.tuples(q, st.integers(-1, k - 1), q).map(list), min_size=m, max_size=3 * n + 3)),
        "ini": draw(st.lists(q, min_size=draw(st.sampled_from([1, 1, 1, 2, 0])), max_size=3)),
        "fin": sorted(set(draw(st.lists(q, min_size=draw(st.sampled_from([1, 1, 0])), max_size=max(1, n // 2))))),
        "rm": draw(st.lists(st.integers(0, 10), max_size=2)) if draw(st.integers(0, 4)) == 0 else [],
        "complete": draw(st.sampled_from([None, True, False, False])), "dfa": draw(st.sampled_from([None, None, "A", "IA"])),
        "inikind": draw(st.sampled_from(["set_initials", "set_initial", "ctor"])),
        "finmap": draw(st.booleans()),
    }


def build_nfa(case):
    eps = EPS[case["eps"]]
    m = NfaModel(eps)
    n = case["n"]
    m.states = set(range(n))
    kw = {} if case["eps"] == "default" else {"epsilon": eps}
    ini = set(case["ini"])
    if case["inikind"] == "ctor" and ini:
        kw["initials"] = set(ini)
    if case["finmap"]:
        kw["pmap_vfinal"] = final_map(case["fin"], n)
    g = Nfa(n, **kw)
    if case["inikind"] == "set_initial":
        g.set_initial(0, False)
        for q in case["ini"]:
            g.set_initial(q)
    elif case["inikind"] == "set_initials" or not ini:
        g.set_initials(ini)
    m.initials = ini
    if not case["finmap"]:
        for q in case["fin"]:
            g.set_final(q)
    fin = set(case["fin"])
    m.default_final = lambda q: q in fin
    descr = {}
    for q, a, r in case["t"]:
        x = eps if isinstance(a, int) and a < 0 else a if isinstance(a, str) else SYMS[case["syms"][a]]
        e, added = g.add_edge(q, r, x)
        descr[q, x, r] = e
        m.trans.add((q, x, r))
    for i in case["rm"]:
        if m.trans:
            t = srt(m.trans)[i % len(m.trans)]
            g.remove_edge(descr[t])
            m.trans.discard(t)
    return g, m


@target("C14", "determination", nfas, quick=500, rule="epsilon-NFA of up to 9 states (several epsilon symbols, several or no "
        "initial states, removed transitions), complete or not, into a given automaton or not; the DFA is compared with the "
        "subset construction of the model state by state; non-trivial: at least three subsets, one of two states or more")
def c14(case, o):
    g, m = build_nfa(case)
    alpha = {a for (_, a, _) in m.trans if a != m.eps}

    def shown():
        return [srt((g.source(e), g.label(e), g.target(e)) for e in g.edges()), sorted(g.vertices()), sorted(g.initials),
                sorted(g.finals()), srt(g.alphabet())]
    before = shown()
    kw = {}
    dfa = None
    if case["complete"] is not None:
        kw["complete"] = case["complete"]
    complete = case["complete"] is not False
    if case["dfa"]:
        dfa = kw["dfa"] = CLASSES[case["dfa"]]()
    d = moore_determination(g, **kw)
    if dfa is not None:
        expect(d is dfa, "moore_determination returns another automaton than dfa")
    equal(shown(), before, "the NFA afterwards")
    dm = model_of(d)
    equal(d.initial(), 0, "initial state of the DFA")
    expect(0 in dm.trans, "the DFA has no initial state")
    # Subset construction of the model, in step with the DFA
    clo = {q: m.closure({q}) for q in m.states}
    rsub = {}
    for (q, a, r) in m.trans:
        rsub.setdefault((q, a), set()).update(clo[r])

    def step(qs, a):
        return frozenset(x for q in qs for x in rsub.get((q, a), ()))
    start = frozenset(x for q in m.initials for x in clo[q])
    subset = {0: start}
    todo = [(0, ())]
    done = set()
    while todo:
        q, w = todo.pop(0)
        if q in done:
            continue
        done.add(q)
        qs = subset[q]
        equal(bool(d.is_final(q)), any(m.is_final(x) for x in qs), "acceptance of the word %r" % (list(w),))
        for a in srt(alpha | set(dm.trans[q])):
            rs = step(qs, a)
            r = dm.trans[q].get(a)
            if complete:
                expect(a in alpha and r is not None, "no transition for", repr(a), "after the word %r" % (list(w),))
            elif r is None:
                expect(not rs, "no transition for", repr(a), "after the word %r" % (list(w),))
                continue
            else:
                expect(rs, "a dead state is created for", repr(a), "after the word %r" % (list(w),))
            if r in subset:
                equal(rs, subset[r], "subset reached by %r" % (list(w) + [a],))
            else:
                subset[r] = rs
                todo.append((r, w + (a,)))
    equal(set(subset), set(dm.trans), "states of the DFA (unreachable states?)")
    equal(len(set(subset.values())), len(subset), "distinct subsets")
    o.label("complete" if complete else "incomplete", "eps=%s" % case["eps"])
    if any(m.closure({q}) != {q} for q in m.states):
        o.label("epsilon")
    if not m.initials:
        o.label("no initial state")
    many = len(subset) >= 3 and max(map(len, subset.values())) >= 2
    o.nontrivial(many, len(subset)) if isinstance(o, Inner) else o.nontrivial(many)


@st.composite
def wide_nfas(draw, big=False):
    c = draw(nfas(False))
    c["f"] = draw(formulas(*((10, 10, 6) if not big else (11, 16, 8))))
    c["rows"] = draw(st.sampled_from([2, 1, 2, 3]))
    c["eps_step"] = draw(st.sampled_from([0, 0, 1, 4, 7]))
    return c


@target("C14", "wide", wide_nfas, quick=60, rule="as above, with up to 10 states and symbols (thorough: 11 and 16), of which hundreds of "
        "subsets are reachable; non-trivial: at least 30 subsets")
def c14_wide(case, o):
    f = case["f"]
    n = f["n"]
    t = [x for d in range(case["rows"]) for x in formula(dict(f, mul=f["mul"] + d, add=f["add"] + d, miss=(0, 2, 3, 5, 7)[d + (f["shift"] % 3 if d else 0)] or f["miss"]))]
    if case["eps_step"]:
        t += [[q, -1, (q + case["eps_step"]) % n] for q in range(0, n, 1 + case["eps_step"] // 2)]
    case = dict(case, n=n, t=t, ini=[q % n for q in case["ini"]], fin=[q for q in range(n) if (q + f["shift"]) % f["step"] == 0])
    c14(case, Inner(o, 30))


class Inner:
    """An observer for which the case counts from n subsets on."""
    def __init__(self, o, n):
        self.o, self.n, self.size = o, n, 0

    def label(self, *args):
        self.o.label(*args)

    def nontrivial(self, cond=True, size=0):
        self.o.nontrivial(cond and size >= self.n)


# ------------------------------------------------------------------------------------------------------------------
# C15
# ------------------------------------------------------------------------------------------------------------------

@st.composite
def complete_dfas(draw, big=False):
    """A complete automaton: random, or a small one whose states are duplicated (each copy choosing its targets)."""
    k = draw(st.sampled_from([2, 1, 2, 3, 2, 1, 2, 3, 5, 7]))
    base = draw(st.one_of(st.integers(1, 6), st.integers(3, 7), st.integers(4, 14 if not big else 30)))
    q = st.integers(0, base - 1)
    cells = draw(st.lists(q, min_size=base * k, max_size=base * k))
    shape = draw(st.sampled_from(["", "", "chain", "cycle"]))
    if shape:
        for i in range(base):
            cells[i * k] = min(i + 1, base - 1) if shape == "chain" else (i + 1) % base
    fin = set(draw(st.one_of(
        st.just([base - 1]), st.lists(q, min_size=1, max_size=base), st.lists(q, min_size=1, max_size=2),
        st.lists(q, min_size=min(2, base), max_size=base), st.sampled_from([[], range(base)]))))
    copies = draw(st.one_of(st.just([1] * base), st.lists(st.sampled_from([1, 1, 2, 3]), min_size=base, max_size=base)))
    names, n = [], 0
    for i in copies:
        names.append(list(range(n, n + i)))
        n += i
    perm = draw(st.permutations(range(n)))
    pick = draw(st.lists(st.integers(0, 2), min_size=1, max_size=12))
    t = []
    for x in range(base):
        for y in names[x]:
            for a in range(k):
                r = cells[x * k + a]
                t.append([perm[y], a, perm[names[r][pick[len(t) % len(pick)] % copies[r]]]])
    mode = draw(st.sampled_from(["complete", "complete", "holes", "trim", "complete", "trim"]))
    if mode != "complete":
        for i in draw(st.lists(st.integers(0, len(t) - 1), max_size=max(2, len(t) // 3))):
            t[i] = None
        t = [x for x in t if x]
    order = draw(st.sampled_from(["", "shuffle", "reverse"]))
    if order == "reverse":
        t.reverse()
    elif order == "shuffle":
        t = draw(st.permutations(t)) if len(t) < 60 else t
    return {"cls": "IA", "n": n, "t": [list(x) for x in t], "q0": perm[draw(st.integers(0, n - 1))],
            "fin": sorted(perm[y] for x in fin for y in names[x]), "mode": mode,
            "syms": draw(st.lists(st.integers(0, 6), min_size=k, max_size=k, unique=True)),
            "rm": draw(st.integers(0, 3)) if draw(st.integers(0, 3)) == 0 else 0,
            "finmap": draw(st.booleans())}


@target("C15", "empty", enum=lambda big: range(3), rule="automata without any state; all count")
def c15_empty(case, o):
    g = IncidenceAutomaton(case)
    for q in range(case):
        g.set_initial(q, False) if g.is_initial(q) else None
        g.remove_vertex(q)
    d = hopcroft_minimize(g)
    equal((d.num_vertices(), d.num_edges(), set(d.vertices()), set(d.finals())), (0, 0, set(), set()), "minimal automaton of the empty one")
    equal((g.num_vertices(), g.num_edges()), (0, 0), "the empty automaton after its minimisation")
    o.nontrivial(True)


@target("C15", "minimize", complete_dfas, quick=350, rule="complete, incomplete and trim automata, random or with duplicated states; the "
        "result is compared class by class with Moore's partition of the disjoint union of input and output; "
        "non-trivial: some states are merged and two or more classes remain")
def c15(case, o):
    n = case["n"]
    kw = {}
    fin = set(case["fin"])
    if case["finmap"]:
        kw["pmap_vfinal"] = final_map(fin, n)
    g = IncidenceAutomaton(n, **kw)
    trans = {q: {} for q in range(n)}
    for q, a, r in case["t"]:
        a = a if isinstance(a, str) else SYMS[case["syms"][a]]
        g.add_edge(q, r, a)
        trans[q][a] = r
    g.set_initial(case["q0"])
    if not case["finmap"]:
        for q in fin:
            g.set_final(q)
    m = Model(trans, case["q0"], fin)

    def remove(q):
        g.remove_vertex(q)
        del trans[q]
        for s in trans.values():
            for a in [a for a, r in s.items() if r == q]:
                del s[a]
    for _ in range(case["rm"]):   # remove states without predecessors, so that the numbers have gaps
        targets = {r for t in trans.values() for r in t.values()} | {case["q0"]}
        free = [q for q in trans if q not in targets]
        if free:
            remove(free[0])
    if case["mode"] == "trim":
        useful = m.reachable() & m.coaccessible()
        if m.init in useful:
            for q in [q for q in trans if q not in useful]:
                remove(q)
    m.final &= set(trans)
    before = state_of(g)
    res = hopcroft_minimize(g)
    equal(state_of(g), before, "the automaton given")
    expect(isinstance(res, IncidenceAutomaton), "result type", type(res).__name__)
    rm_ = model_of(res)
    equal(res.initial() in rm_.trans, True, "the initial state is a state")
    ins = srt((res.source(e), res.label(e), res.target(e)) for q in res.vertices() for e in res.in_edges(q))
    equal(ins, srt((q, a, r) for q, t in rm_.trans.items() for a, r in t.items()), "in-edges of the result")
    compare_model(res, m, "hopcroft_minimize")
    alpha = m.alphabet()
    is_complete = all(set(t) == alpha for t in trans.values())
    is_trim = set(trans) <= m.reachable() & m.coaccessible()
    # Classes over the disjoint union
    both = Model({("in", q): {a: ("in", r) for a, r in t.items()} for q, t in m.trans.items()}, None,
                 [("in", q) for q in m.final])
    both.trans.update({("out", q): {a: ("out", r) for a, r in t.items()} for q, t in rm_.trans.items()})
    both.final |= {("out", q) for q in rm_.final}
    cls = both.classes()
    cin = {cls["in", q] for q in m.trans}
    cout = [cls["out", q] for q in rm_.trans]
    if is_complete:
        equal(rm_.alphabet(), alpha, "alphabet of the result")
        for q, t in rm_.trans.items():
            equal(set(t), alpha, "symbols leaving state %s of the result" % q)
    if is_complete or is_trim:
        equal(len(set(cout)), len(cout), "states of the result that are pairwise different")
        equal(set(cout), cin, "classes of states")
    o.label("complete" if is_complete else "trim" if is_trim else "incomplete")
    if case["q0"] != 0:
        o.label("q0 > 0")
    o.label("all final" if len(m.final) == len(trans) else "none final" if not m.final else "some final")
    o.nontrivial(2 <= len(cin) < len(m.trans))


@st.composite
def wide_complete(draw, big=False):
    return {"f": draw(formulas(*((24, 20) if not big else (40, 30)))), "copies": draw(st.integers(1, 3)), "i": draw(st.integers(0, 1000)),
            "change": draw(st.lists(st.tuples(st.integers(0, 2000), st.integers(0, 80)).map(list), max_size=2)),
            "seed": draw(st.integers(0, 1000)), "mode": draw(st.sampled_from(["complete", "complete", "trim"])),
            "finmap": draw(st.booleans()), "rm": 0}


@target("C15", "wide", wide_complete, quick=40, rule="as above, with up to 24 states in up to 3 copies and 20 symbols (thorough: 40 and "
        "30); non-trivial: as above")
def c15_wide(case, o):
    f = dict(case["f"])
    if case["mode"] == "complete":
        f["miss"] = 0
    n, k = f["n"], case["copies"]
    t = [[q + n * d, a, r + n * ((q * d + r + case["i"]) % k)] for d in range(k) for q, a, r in formula(f)]
    for j, r in case["change"]:
        if t:
            t[j % len(t)][2] = r % (n * k)
    perm = list(range(n * k))
    rand = random.Random(case["seed"])
    rand.shuffle(perm)
    rand.shuffle(t)
    c15(dict(case, n=n * k, t=[[perm[q], a, perm[r]] for q, a, r in t], q0=perm[f["q0"] % n],
             fin=[perm[q + n * d] for d in range(k) for q in range(n) if (q + f["shift"]) % f["step"] == 0]), o)


# ------------------------------------------------------------------------------------------------------------------
# C16
# ------------------------------------------------------------------------------------------------------------------

@st.composite
def acyclic(draw, big=False):
    kind = draw(st.sampled_from(["words", "dag", "layers", "words", "dag", "layers", "node words", "node dag", "node layers"]))
    c = {"kind": kind, "leaves": draw(st.booleans()), "vis": draw(st.booleans()), "rev": draw(st.booleans()),
         "vlabel": draw(st.sampled_from([None, None, None, 2])), "elabel": draw(st.sampled_from([None, None, None, "label"]))}
    c["all"] = draw(st.sampled_from([0, 0, 1]))
    if "words" in kind:
        alpha = draw(st.sampled_from(["a", "ab", "ab", "abc"]))
        ws = draw(st.lists(st.text(alpha, max_size=6 if not big else 9), min_size=draw(st.sampled_from([3, 3, 1, 6, 0])),
                           max_size=10 if not big else 25))
        suffixes = draw(st.lists(st.text(alpha, max_size=3), max_size=3))
        c["words"] = ws + [w + s for w in ws[:5] for s in suffixes]
        return c
    if "layers" in kind:
        # Few states per layer, complete between layers: many states that are equivalent or that nearly are (the same
        # symbols and targets, matched differently)
        width, depth, k = draw(st.integers(2, 5)), draw(st.integers(2, 3 if not big else 6)), draw(st.sampled_from([2, 2, 3]))
        n = 1 + width * depth
        c["n"], c["k"] = n, k + width
        into = draw(st.lists(st.integers(0, min(width, 3) - 1), min_size=n * k, max_size=n * k))
        c["t"] = [[0, i, 1 + i] for i in range(width)]
        for q in range(1, n - width):
            first = 1 + width * ((q - 1) // width + 1)
            c["t"] += [[q, a, first + into[q * k + a]] for a in range(k)]
        for i in sorted(draw(st.sets(st.integers(0, len(c["t"]) - 1), max_size=3)), reverse=True):
            del c["t"][i]
        c["fin"] = sorted(draw(st.sets(st.integers(n - width, n - 1), min_size=1)) | draw(st.sets(st.integers(0, n - 1), max_size=2)))
        c["sym"] = [i % width if i else 0 for i in range(n)] if draw(st.booleans()) else draw(
            st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
        c["perm"] = list(draw(st.permutations(range(n))))
        return c
    n = draw(st.one_of(st.integers(1, 7), st.integers(4, 8), st.integers(4, 16 if not big else 40)))
    k = draw(st.sampled_from([2, 1, 3]))
    c["n"], c["k"] = n, k
    c["t"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, k - 1), st.integers(0, n - 1)).map(list),
                           min_size=draw(st.sampled_from([2 * n, n, n // 2])), max_size=3 * n + 2))
    c["fin"] = sorted(set(draw(st.lists(st.integers(0, n - 1), max_size=n))))
    c["sym"] = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    c["perm"] = list(draw(st.permutations(range(n))))
    return c


def build_acyclic(case):
    """An acyclic automaton whose states are all reachable from the initial one, and its model."""
    node = case["kind"].startswith("node")
    if "words" in case["kind"]:
        tm = trie_model(case["words"])
        order = sorted(tm.trans, reverse=case["rev"])
        ids = {p: i for i, p in enumerate(order)}
        trans = {ids[p]: {a: ids[r] for a, r in sorted(t.items())} for p, t in sorted(tm.trans.items())}
        init, fin = ids[""], {ids[w] for w in tm.final}
        sym = {ids[p]: (p[-1] if p else None) for p in tm.trans}
        n = len(ids)
    else:
        n = case["n"]
        perm = case["perm"]
        trans = {q: {} for q in range(n)}
        sym = {perm[q]: SYMS[case["sym"][q]] for q in range(n)}
        for q, a, r in case["t"]:
            if q < r:
                x = sym[perm[r]] if node else a if isinstance(a, str) else SYMS[a]
                trans[perm[q]].setdefault(x, perm[r])
        init = perm[0]
        fin = {perm[q] for q in case["fin"]}
        keep = gen.reach([init], lambda q: trans[q].values())
    if node:
        g = IncidenceNodeAutomaton()
        for q in range(n):
            g.add_vertex(sym[q])
    else:
        g = IncidenceAutomaton(n)
    for q, t in trans.items():
        for a, r in t.items():
            e, added = g.add_edge(q, r) if node else g.add_edge(q, r, a)
            assert added, (q, a, r)
    g.set_initial(init)
    for q in fin:
        g.set_final(q)
    if "words" not in case["kind"]:
        for q in list(trans):
            if q not in keep and not case.get("all"):
                g.set_final(q, False)
                fin.discard(q)
                g.remove_vertex(q)
                del trans[q]
                sym.pop(q)
    return g, Model(trans, init, fin, sym if node else None)


class Log(DefaultRevuzMinimizeVisitor):
    def __init__(self, g):
        self.g, self.events = g, []

    def check(self, g):
        expect(g is self.g, "graph given to the visitor")

    def merging_states(self, q1, q2, g):
        self.check(g)
        self.events.append(("merging", q1, q2))
        self.events.append(("due", srt((g.source(e), g.label(e)) for e in g.in_edges(q2))))

    def move_transition(self, e_old, e_new, g):
        self.check(g)
        self.events.append(("move", e_old, e_new))

    def remove_vertex(self, u, g):
        self.check(g)
        expect(u in set(g.vertices()), "remove_vertex(%s) called after the removal" % u)
        self.events.append(("remove", u))

    def states_merged(self, q1, q2, g):
        self.check(g)
        self.events.append(("merged", q1, q2))


@target("C16", "minimize", acyclic, quick=350, rule="acyclic IncidenceAutomaton or IncidenceNodeAutomaton made of words or of random "
        "transitions, any initial state number; language, signatures, callbacks and in/out-edges of the result; number of "
        "states against Moore's partition when all states are useful; non-trivial: a state is merged and two remain")
def c16(case, o):
    g, m = build_acyclic(case)
    node = m.symbol is not None
    n0 = set(m.trans)
    kw = {}
    vlabel = None
    if case["vlabel"] and not node:
        vlabel = lambda q: q % case["vlabel"]
        kw["pmap_vlabel"] = make_func_property_map(vlabel)
    elif case["vlabel"] and node:
        fine = lambda q: (g.symbol(q), q % 2)
        kw["pmap_vlabel"] = make_func_property_map(fine if case["rev"] else g.symbol)
    if case["elabel"] and not node:
        kw["pmap_elabel"] = make_func_property_map(g.label)
    if case["leaves"]:
        kw["leaves"] = {q for q in m.trans if not m.trans[q]}
    log = Log(g)
    if case["vis"]:
        kw["vis"] = log
    # Heights
    height, heights = {}, defaultdict(int, {q: 99 - 90 * (q % 2) for q in m.trans} if case["rev"] else {})   # stale when reversed
    for q in sorted(m.trans, key=lambda q: len(gen.reach([q], m.succ))):
        height[q] = 1 + max([height[r] for r in m.succ(q)], default=-1)
    h = revuz_height(g, make_assoc_property_map(heights), **({"leaves": kw["leaves"]} if case["leaves"] else {}))
    equal((heights, h), (height, max(height.values())), "revuz_height (heights, maximum)")
    of_label = {q: vlabel(q) if vlabel else kw["pmap_vlabel"][q] if case["vlabel"] else g.symbol(q) if node else None for q in m.trans}
    equal(revuz_minimize(g, **kw), h, "the height returned by revuz_minimize")
    if node:
        vlabel = fine if case["vlabel"] and case["rev"] else g.symbol
    res = model_of(g)
    kept = set(res.trans)
    expect(kept <= n0, "states", kept - n0, "created")
    # Language, initial state
    expect(res.init in kept, "the initial state", g.initial(), "is not a state")
    compare_model(g, m, "revuz_minimize")
    # Nothing is left to merge
    sig = {}
    for q in res.trans:
        s = (res.is_final(q), vlabel(q) if vlabel else None, frozenset(res.trans[q].items()))
        expect(s not in sig, "states", sig.get(s), "and", q, "can be merged")
        sig[s] = q
    # Neither more nor less is merged than what is identical from the leaves upward
    classes, of = {}, {}
    for q in sorted(m.trans, key=height.get):
        s = (q in m.final, of_label[q], frozenset((a if not node else of_label[r], of[r]) for a, r in m.trans[q].items()))
        of[q] = classes.setdefault(s, q)
    equal(len(kept), len(classes), "number of states")
    equal({of[q] for q in kept}, set(classes.values()), "classes of the states kept")
    # In-edges and out-edges
    ins = srt((g.source(e), g.label(e), g.target(e)) for q in g.vertices() for e in g.in_edges(q))
    equal(ins, srt((q, a, r) for q, t in res.trans.items() for a, r in t.items()), "in-edges of the result")
    for q in res.trans:
        for e in g.in_edges(q):
            equal(g.target(e), q, "target of an in-edge")
    # Callbacks
    if case["vis"]:
        removed, current, due, moved = {}, None, [], []
        for ev in log.events:
            if ev[0] == "due":
                due, moved = ev[1], []
            elif ev[0] == "merging":
                expect(current is None, "merging", ev[1:], "before the end of", current)
                current = ev[1:]
                expect(not removed.keys() & set(current), "merging", current, "with a removed state")
                expect(ev[1] != ev[2], "merging a state with itself")
            elif ev[0] == "move":
                old, new = ev[1], ev[2]
                expect(current is not None, "move_transition outside a merge")
                expect(new is not None, "move_transition without a new transition")
                equal((g.source(new), g.target(new), new.distinguisher), (g.source(old), current[0], old.distinguisher),
                      "moved transition")
                equal(g.target(old), current[1], "target of the transition moved")
                moved.append((g.source(new), g.label(new)))
            elif ev[0] == "remove":
                expect(current is not None and ev[1] == current[1], "remove_vertex", ev[1:], "during", current)
                expect(ev[1] not in removed, "state", ev[1], "removed twice")
                removed[ev[1]] = current[0]
            else:
                equal(ev[1:], current, "states_merged after merging_states")
                expect(current[1] in removed, "states_merged before remove_vertex")
                equal(srt(moved), due, "transitions announced as moved to %s" % current[0])
                current = None
        expect(current is None, "merge of", current, "not finished")
        equal(set(removed), n0 - kept, "states announced as removed")
        # Each removed state is equivalent to the one it is merged into
        cls = m.classes()
        for q, r in removed.items():
            equal(cls[q], cls[r], "classes of the merged states %s and %s" % (q, r))
    # Minimality
    useful = m.coaccessible()
    if useful >= set(m.trans) and not (case["vlabel"] and not node) and not node:
        cls = m.classes()
        equal(len(kept), len({cls[q] for q in m.trans}), "number of states")
        o.label("all useful")
    o.label(case["kind"])
    o.nontrivial(2 <= len(kept) < len(n0))


@st.composite
def wide_acyclic(draw, big=False):
    """Layers of up to 130 states with up to 30 transitions each, the states of a layer being near copies of one."""
    return {"width": draw(st.one_of(st.integers(2, 40), st.integers(2, 130 if not big else 250))), "depth": draw(st.sampled_from([1, 2, 2, 3, 3])),
            "k": draw(st.one_of(st.integers(1, 2), st.integers(1, 30))),
            "mul": draw(st.integers(1, 12)), "change": draw(st.lists(st.tuples(
                st.integers(0, 400), st.integers(0, 40), st.integers(0, 60)).map(list), max_size=6)),
            "fin": draw(st.lists(st.integers(0, 400), max_size=4)), "last": draw(st.integers(0, 3)),
            "spread": draw(st.sampled_from([0, 0, 1])),
            "seed": draw(st.integers(0, 1000)), "leaves": draw(st.booleans()), "vis": draw(st.booleans()), "rev": draw(st.booleans()),
            "vlabel": draw(st.sampled_from([None, None, None, 2])), "elabel": draw(st.sampled_from([None, "label"]))}


@target("C16", "wide", wide_acyclic, quick=40, rule="layers of up to 130 (thorough: 250) states with up to 30 transitions each, equivalent but for a few "
        "transitions or final states; non-trivial: as above")
def c16_wide(case, o):
    width, depth, k = case["width"], case["depth"], case["k"]
    n = 1 + width * depth
    trans = {q: {} for q in range(n)}
    trans[0] = {chr(0x100 + i): 1 + i for i in range(width)}
    for q in range(1, n - width):
        first = 1 + width * ((q - 1) // width + 1)
        for i in range(k):   # the same residue (mod 4) for all the states of the layer
            a = (i * (1 if q % 2 else -1) + q) % k if q % 3 else i   # in various orders
            if case["spread"]:      # pairs of equivalent states, so that many of them differ
                i = (q - 1) % width // 2
                a, r = i + a, 2 * ((i * case["mul"] + a) % max(1, width // 2)) + (q + a) % 2
                trans[q][chr(0x200 + a)] = first + r % width
                continue
            r = (a * case["mul"]) % 4 + 4 * ((q + a) % (width // 4)) if width >= 4 else a % width
            trans[q][chr(0x200 + a)] = first + r % width
    for q, a, r in case["change"]:
        q = 1 + q % (n - 1)
        if trans[q]:
            first = 1 + width * ((q - 1) // width + 1)
            trans[q][chr(0x200 + a % k)] = first + r % width
    fin = {q for q in range(n - width, n) if (q - (n - width)) // (1 + case["spread"]) % 4 <= case["last"]} | {q % n for q in case["fin"]}
    perm = list(range(n))
    random.Random(case["seed"]).shuffle(perm)
    c16(dict(case, kind="dag wide", n=n, t=[[q, a, r] for q in range(n) for a, r in trans[q].items()], fin=sorted(fin),
             perm=perm, sym=[0] * n), o)


@target("C16", "in-steps", acyclic, quick=120, rule="as above, minimized, then minimized again: the second run changes nothing; non-trivial: "
        "as above")
def c16_twice(case, o):
    g, m = build_acyclic(case)
    n0 = len(m.trans)
    revuz_minimize(g)
    before = state_of(g)
    revuz_minimize(g)
    equal(state_of(g), before, "a second minimization")
    compare_model(g, m, "revuz_minimize, twice")
    o.nontrivial(2 <= len(before[2]) < n0)
