"""C19: tries and digital sequences."""
import random
from hypothesis import strategies as st
from pbt import gen
from pbt.core import target, expect, equal
from pbt.props.lang import model_of, compare_model, trie_model
from pybgl import Automaton, BOTTOM, DigitalSequence, EdgeDescriptor, Trie, make_func_property_map, make_suffix_trie
from pybgl.automaton import accepts, automaton_insert_string, delta_best_effort, finals, in_degree, out_degree
from pybgl.trie import trie_deterministic_fusion
from pybgl.trie_matching import TrieMatchingVisitor, trie_matching

WORD = st.one_of(st.text("ab", max_size=6), st.text("abc", max_size=4), st.text("a", max_size=5), st.text("abé ε\t\n\0", max_size=5), st.text(gen.TRICKY, max_size=5))


def word_lists(lo, hi):
    """Lists of words that often extend each other."""
    @st.composite
    def f(draw):
        words = []
        for _ in range(draw(st.integers(draw(st.sampled_from([lo, hi // 2])), hi))):
            k = draw(st.sampled_from(["new", "new", "ext", "pre", "dup"]))
            if k == "new" or not words:
                words.append(draw(WORD))
                continue
            w = draw(st.sampled_from(words))
            words.append(w + draw(st.text("abc", max_size=3)) if k == "ext" else w[:draw(st.integers(0, len(w)))] if k == "pre" else w)
        return words
    return f()


def dead_ends(draw, words):
    """Some more words, meant for branches of a trie that hold no word."""
    return [w + draw(st.text("abc", min_size=1, max_size=3)) for w in draw(st.lists(st.sampled_from(["", "x"] + words), max_size=2))]


def prefixes(words):
    return {w[:i] for w in words for i in range(len(w) + 1)}


def trie_of(words):
    t = Trie()
    for w in words:
        t.insert(w)
    return t


def numbered_trie(words, seed, dead=()):
    """A trie built with the operations of automata, whose states (the root included) are numbered at random. The branches spelling the words of dead
    hold no word of their own. From seed 100 on, the final states are given by a map whose values are merely truthy or falsy."""
    pre = sorted(prefixes(words) | prefixes(dead) | {""})
    random.Random(seed).shuffle(pre)
    num = {w: i for i, w in enumerate(pre)}
    t = Trie(num_vertices=0) if seed < 100 else Trie(
        num_vertices=0, pmap_vfinal=make_func_property_map(lambda q: [[], ["x"]][pre[q] in words] if seed % 2 else 2 * (pre[q] in words)))
    for _ in pre:
        t.add_vertex()
    for w in pre:
        if w:
            expect(t.add_edge(num[w[:-1]], num[w], w[-1])[1], "a transition is refused")
        if seed < 100:
            t.set_final(num[w], w in words)
    t.set_initial(num[""])
    return t


def check_trie(t, words, what, full=True, dead=()):
    """t is a trie of exactly these words (the root always exists), and holds branches spelling the words of dead."""
    words = set(words)
    pre = prefixes(words) | prefixes(dead) | {""}
    equal(t.num_vertices(), len(pre), "%s: number of states" % what)
    equal(t.num_edges(), len(pre) - 1, "%s: num_edges()" % what)
    if not full:
        return
    equal(len(list(t.edges())), len(pre) - 1, "%s: number of transitions" % what)
    m = model_of(t)
    equal(len(m.reachable()), len(pre), "%s: number of reachable states" % what)
    compare_model(t, trie_model(words), what)
    for w in dead:
        expect(t.delta_word(t.initial(), w) is not BOTTOM, "%s: the branch" % what, repr(w), "disappeared")
    equal(len(finals(t)), len(words), "%s: number of final states" % what)
    for w in pre:
        q, i = delta_best_effort(t, w + "#")
        equal((i, q), (len(w), t.delta_word(t.initial(), w)), "%s: delta_best_effort(%r)" % (what, w + "#"))
        equal(bool(accepts(w, t)), w in words, "%s: accepts(%r)" % (what, w))


@st.composite
def histories(draw, big=False):
    ops = []
    if draw(st.integers(0, 2)) == 0:
        ops.append(["base", draw(word_lists(0, 4)), draw(st.integers(0, 98))])
    for _ in range(draw(st.integers(draw(st.sampled_from([1, 3])), 6))):
        k = draw(st.sampled_from(["s", "s", "s", "d", "t", "t", "i", "l", "f", "self", "sfx"]))
        if k in ("t", "f"):
            ws = draw(word_lists(0, 8 if big else 5))
            seed = draw(st.sampled_from([None, None, 1, 2, 3, 102, 103]))
            ops.append([k, ws, seed, dead_ends(draw, ws) if seed else []])
        elif k == "self":
            ops.append([k])
        else:
            ops.append([k, draw(WORD)])
    return ops


@target("C19", "histories", histories, quick=320, rule="histories of insertions (strings, lists of symbols, digital sequences, tries, suffix tries, the trie "
        "itself) against the set of words; the states are counted after each operation, the language compared at the end, the inserted tries "
        "must be unchanged; non-trivial: 3 words or more sharing a prefix")
def c19(ops, o):
    t = Trie()
    words, dead, givens = set(), set(), []
    for op in ops:
        k = op[0]
        if k == "base":
            t = numbered_trie(set(op[1]), op[2])
            words |= set(op[1])
        elif k == "s":
            equal(t.insert(op[1]), None, "insert")
            words.add(op[1])
        elif k == "i":
            automaton_insert_string(t, op[1])
            words.add(op[1])
        elif k == "l":
            automaton_insert_string(t, list(op[1]))
            words.add(op[1])
        elif k == "d":
            t.insert(DigitalSequence(op[1]))
            words.add(op[1])
        elif k in ("t", "f"):
            t2 = trie_of(op[1]) if op[2] is None else numbered_trie(set(op[1]), op[2], op[3])
            dead |= set(op[3])
            if k == "t":
                t.insert(t2)
            else:
                trie_deterministic_fusion(t, t2)
            words |= set(op[1])
            if op[1]:
                givens.append((t2, op[1], op[3]))
        elif k == "sfx":
            t.insert(make_suffix_trie(op[1]))
            words |= {op[1][i:j] for i in range(len(op[1]) + 1) for j in range(i, len(op[1]) + 1)}
        else:
            t.insert(t)
        o.label(k)
        check_trie(t, words, "trie after %r" % (op,), full=False, dead=dead)
        for w in sorted(words)[:4]:
            expect(t.accepts(w), "the word", repr(w), "is not accepted after", op)
    check_trie(t, words, "trie", dead=dead)
    for t2, ws, ds in givens:
        check_trie(t2, ws, "inserted trie", dead=ds)
    o.nontrivial(len(words) >= 3 and len(prefixes(words)) - 1 < sum(map(len, words)))


@st.composite
def pairs(draw, big=False):
    hi = 10 if big else 7
    w1 = draw(word_lists(0, hi))
    w2 = draw(word_lists(0, hi))
    for w in w1:
        if draw(st.integers(0, 2)) == 0:
            w2.append(w + draw(st.sampled_from(["", "", "a", "bc"])))
    return {"w1": w1, "w2": w2, "d1": dead_ends(draw, w1), "d2": dead_ends(draw, w2), "kind": draw(st.sampled_from(["tt", "tt", "nn", "nt", "tn", "st", "ts", "xt", "ns"])), "seed": draw(st.integers(0, 98))}


@target("C19", "fusion-matching", pairs, quick=260, rule="two tries (or digital sequences, suffix tries): trie_matching counters against the "
        "prefixes of both word sets, fusion against the union; non-trivial: a common prefix longer than the root and a word of each side only")
def c19_pairs(case, o):
    w1, w2 = set(case["w1"]), set(case["w2"])
    k1, k2 = case["kind"]

    def make(k, ws, ds):
        if k == "s":
            w = max(ws, default="")
            return DigitalSequence(w), {w}, []
        if k == "x":
            w = max(ws, default="")
            return make_suffix_trie(w), {w[i:j] for i in range(len(w) + 1) for j in range(i, len(w) + 1)}, []
        if k == "n":
            return numbered_trie(ws, case["seed"] + (0 if ws is w1 else 1), ds), ws, ds
        return trie_of(sorted(ws, reverse=True)), ws, []

    t1, w1, d1 = make(k1, w1, case["d1"])
    t2, w2, d2 = make(k2, w2, case["d2"])
    p1, p2 = prefixes(w1) | prefixes(d1) | {""}, prefixes(w2) | prefixes(d2) | {""}
    want = [0, 0, 0, 0]
    for p in p1 | p2:
        want[(p in w1) + 2 * (p in w2)] += 1
    equal(list(trie_matching(t1, t2)), want, "trie_matching")
    equal(list(trie_matching(t2, t1)), [want[0], want[2], want[1], want[3]], "trie_matching with the tries swapped")
    vis = TrieMatchingVisitor()
    equal(list(trie_matching(t1, t2, vis)), want, "trie_matching with a visitor")
    equal(list(vis.counters), want, "counters of the visitor")
    for t, p, w in ((t1, p1, w1), (t2, p2, w2)):
        equal(list(trie_matching(t, t)), [len(p) - len(w), 0, 0, len(w)], "trie_matching of a trie with itself")
    if k1 in "tn":
        check_trie(t1, w1, "first trie after the matching", dead=d1)
        trie_deterministic_fusion(t1, t2)
        check_trie(t1, w1 | w2, "fusion", dead=d1 + d2)
    if k2 in "tn":
        check_trie(t2, w2, "second trie", dead=d2)
        t2.insert("abcabc")
        t2.insert("")
        if k1 in "tn":
            check_trie(t1, w1 | w2, "fusion after the second trie changed", dead=d1 + d2)
    o.nontrivial(len(p1 & p2) > 1 and w1 - w2 and w2 - w1)
    o.label(case["kind"])


@target("C19", "digital", lambda big: st.fixed_dictionaries({
    "w": st.one_of(WORD, st.text("ab", min_size=3, max_size=12)), "q": st.lists(WORD, max_size=4),
}), quick=220, rule="digital sequence of a word: every accessor against the chain, and refused modifications; non-trivial: 3 letters or more")
def c19_digital(case, o):
    w = case["w"]
    n = len(w)
    g = DigitalSequence(w)

    def look(what):
        equal(list(g.vertices()), list(range(n + 1)), "%s: vertices" % what)
        equal((g.num_vertices(), g.num_edges()), (n + 1, n), "%s: counts" % what)
        equal([(g.source(e), g.target(e), g.label(e)) for e in g.edges()], [(i, i + 1, w[i]) for i in range(n)], "%s: edges" % what)
        for q in range(n + 1):
            equal([(g.source(e), g.target(e), g.label(e)) for e in g.out_edges(q)], [(q, q + 1, w[q])] if q < n else [], "%s: out_edges" % what)
            equal([(g.source(e), g.target(e), g.label(e)) for e in g.in_edges(q)], [(q - 1, q, w[q - 1])] if q else [], "%s: in_edges" % what)
            equal((g.out_degree(q), out_degree(q, g)), (int(q < n),) * 2, "%s: out-degree of %d" % (what, q))
            equal((g.in_degree(q), in_degree(q, g)), (int(q > 0),) * 2, "%s: in-degree of %d" % (what, q))
            equal(set(g.sigma(q)), set(w[q:q + 1]), "%s: sigma(%d)" % (what, q))
            equal((bool(g.is_final(q)), bool(g.is_initial(q))), (q == n, q == 0), "%s: final, initial state %d" % (what, q))
            for a in list("abcé ε#\t\n\0") + [w[q:q + 2] + "#", w[q:q + 1] * 2, w[:q], 0]:
                r = q + 1 if q < n and w[q] == a else BOTTOM
                equal(g.delta(q, a), r, "%s: delta(%d, %r)" % (what, q, a))
                e, found = g.edge(q, q + 1, a)
                equal(bool(found), r is not BOTTOM, "%s: edge(%d, %d, %r)" % (what, q, q + 1, a))
        equal(g.delta(BOTTOM, "a"), BOTTOM, "%s: delta of BOTTOM" % what)
        equal(set(g.sigma(BOTTOM)), set(), "%s: sigma of BOTTOM" % what)
        equal(set(g.alphabet()), set(w), "%s: alphabet" % what)
        equal((g.initial(), set(g.finals())), (0, {n}), "%s: initial and final states" % what)
        equal((bool(g.is_deterministic()), bool(g.is_finite()), g.directed), (True, True, True), "%s: flags" % what)
        equal(bool(g.is_complete()), n == 0, "%s: is_complete" % what)

    look("sequence")
    for x in case["q"] + [w, w[:-1], w + "a", w[1:], ""]:
        equal(bool(g.accepts(x)), x == w, "DigitalSequence(%r).accepts(%r)" % (w, x))
        k = 0
        while k < min(n, len(x)) and x[k] == w[k]:
            k += 1
        equal(g.delta_best_effort(x), (k, k), "delta_best_effort(%r)" % x)
        equal(g.delta_word(0, x), k if k == len(x) else BOTTOM, "delta_word(0, %r)" % x)
    for f, args in [
        (g.add_edge, (0, 1, "z")), (g.add_vertex, ()), (g.remove_edge, (EdgeDescriptor(0, 1, w[:1]),)), (g.remove_vertex, (0,)),
        (g.set_initial, (n,)), (g.set_final, (0,)), (g.set_initial, ()), (g.set_final, ()), (g.insert, ("b",)), (g.insert, (w,)),
    ]:
        try:
            f(*args)
        except Exception:
            pass
        else:
            expect(False, "%s%r does not refuse to modify a digital sequence" % (f.__name__, args))
    look("sequence after refused modifications")
    o.nontrivial(n >= 3)
