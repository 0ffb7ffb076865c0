"""C17: regular expressions."""
import string
from hypothesis import strategies as st
from pbt.core import target, expect, equal
from pbt.props.fragments import TOP, lcat, lpower, lstar, unary
from pybgl import compile_dfa, compile_nfa, re_escape
from pybgl.shunting_yard_postfix import tokenizer_re
from pybgl.thompson_compile_nfa import parse_bracket, parse_escaped, parse_repetition, thompson_compile_nfa

PRINTABLE = string.printable
SPECIAL = set("|[]{}.+*?()^$\\")
PLAIN = "ab" + "cxyAZ09_-, :=<>\"'/@#~!;&%`\n\t é"
ESCAPES = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
CLASSES = {"d": set(string.digits), "s": set(" \t"), "w": set(string.digits + string.ascii_letters)}
CLASS_CHARS = [c for c in PRINTABLE if c not in "]\\^-"]


# Syntax trees: ["lit", c] ["esc", c] ["cls", negated, [items]] ["cat", [..]] ["alt", [..]] ["rep", x, text, m, n] ["grp", x]
# Class items: "c" (a character), ["a", "z"] (a range), ["\\", "d"] (an escape), "-"

def denoted(item, alphabet):
    if isinstance(item, str):
        return {item}
    if item[0] == "\\":
        return escaped(item[1], alphabet)
    return {chr(i) for i in range(ord(item[0]), ord(item[1]) + 1)}


def escaped(c, alphabet):
    if c in ESCAPES:
        return {ESCAPES[c]}
    if c.lower() in CLASSES and c not in SPECIAL:
        x = CLASSES[c.lower()]
        return set(x) if c.islower() else set(alphabet) - x
    return {c}


def chars(x, alphabet):
    """The characters an atom matches."""
    if x[0] == "lit":
        return {x[1]}
    if x[0] == "esc":
        return escaped(x[1], alphabet)
    s = set()
    for item in x[2]:
        s |= denoted(item, PRINTABLE)
    return set(alphabet) - s if x[1] else s


def render(x):
    k = x[0]
    if k == "lit":
        return x[1]
    if k == "esc":
        return "\\" + x[1]
    if k == "cls":
        return "[" + ("^" if x[1] else "") + "".join(
            i if isinstance(i, str) else "\\" + i[1] if i[0] == "\\" else i[0] + "-" + i[1] for i in x[2]) + "]"
    if k == "cat":
        return "".join("(" + render(y) + ")" if y[0] in ("alt", "cat") else render(y) for y in x[1])
    if k == "alt":
        return "|".join(render(y) for y in x[1])
    if k == "grp":
        return "(" + render(x[1]) + ")"
    y = render(x[1])
    return (y if x[1][0] in ("lit", "esc", "cls", "grp") else "(" + y + ")") + x[2]


class Glushkov:
    """Position automaton of a syntax tree (repetitions being unfolded): an independent matcher."""
    def __init__(self, x, alphabet):
        self.alphabet = alphabet
        self.sets, self.follow = [], []
        nullable, first, last = self.visit(x)
        self.first, self.last, self.nullable = first, last, nullable

    def size(self):
        return len(self.sets)

    def atom(self, s):
        self.sets.append(s)
        self.follow.append(set())
        return False, {len(self.sets) - 1}, {len(self.sets) - 1}

    def cat(self, a, b):
        for i in a[2]:
            self.follow[i] |= b[1]
        return a[0] and b[0], a[1] | b[1] if a[0] else a[1], b[2] | a[2] if b[0] else b[2]

    def star(self, a):
        for i in a[2]:
            self.follow[i] |= a[1]
        return True, a[1], a[2]

    def visit(self, x):
        k = x[0]
        if k in ("lit", "esc", "cls"):
            return self.atom(chars(x, self.alphabet))
        if k == "grp":
            return self.visit(x[1])
        if k == "alt":
            r = (False, set(), set())
            for y in x[1]:
                b = self.visit(y)
                r = (r[0] or b[0], r[1] | b[1], r[2] | b[2])
            return r
        r = (True, set(), set())
        if k == "cat":
            for y in x[1]:
                r = self.cat(r, self.visit(y))
            return r
        _, y, _, m, n = x
        for _ in range(m):
            r = self.cat(r, self.visit(y))
        if n is None:
            r = self.cat(r, self.star(self.visit(y)))
        for _ in range((n or 0) - m):
            b = self.visit(y)
            r = self.cat(r, (True, b[1], b[2]))
        return r

    # Sets of positions; the start is None
    def succ(self, ps):
        if ps is None:
            return self.first
        return {j for i in ps for j in self.follow[i]}

    def step(self, ps, a):
        return frozenset(j for j in self.succ(ps) if a in self.sets[j])

    def accepts(self, ps):
        return self.nullable if ps is None else bool(ps & self.last) if ps else False


def weight(x):
    """Number of positions."""
    k = x[0]
    if k in ("lit", "esc", "cls"):
        return 1
    if k == "grp":
        return weight(x[1])
    if k in ("cat", "alt"):
        return sum(map(weight, x[1]))
    return weight(x[1]) * max(1, x[4] if x[4] is not None else x[3] + 1)


@st.composite
def class_items(draw):
    items = []
    prev = None
    if draw(st.integers(0, 7)) == 0:
        items, prev = ["-"], "first"
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["c", "c", "range", "range", "esc", "-", "^"]))
        if kind == "c":
            items.append(draw(st.sampled_from("abcxyz019AZ")) if draw(st.booleans()) else draw(st.sampled_from(CLASS_CHARS)))
        elif kind == "range":
            r = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5]))
            if r == 0:
                a, b = sorted(draw(st.lists(st.sampled_from("abcdefxyz"), min_size=2, max_size=2)))
            elif r == 2:
                a, b = sorted(["^", draw(st.sampled_from("ABYZ_`abcz"))])
            elif r == 5:
                a, b = sorted(["-", draw(st.sampled_from(" !()*+,"))]) if items and prev not in ("range", "esc") else sorted(["-", draw(st.sampled_from(" !()*+,./09Aa~"))])
            elif r == 4:
                a, b = draw(st.sampled_from(["!~", " ~", "\t~", "0z", "!ÿ", "aǿ", "\u0400\u07ff"]))
            elif r == 3:
                a, b = sorted(draw(st.lists(st.sampled_from("~éèàж€"), min_size=2, max_size=2)))
                b = min(b, chr(ord(a) + 60))
            else:
                a, b = sorted(draw(st.lists(st.sampled_from([c for c in CLASS_CHARS if " " <= c <= "~"]), min_size=2, max_size=2)))
            items.append([a, b])
        elif kind == "esc":
            items.append(["\\", draw(st.sampled_from(["d", "w", "s", "D", "W", "S", ".", "*", "(", "n", "t", "\\", "^", "?"]))])
        elif kind == "-" and prev in ("range", "esc"):
            items.append("-")
        elif kind == "^" and items:
            items.append("^")
        else:
            continue
        prev = kind
    if draw(st.integers(0, 5)) == 0:
        items.append("-")
    if not items:
        items = ["a"]
    return items


@st.composite
def class_atoms(draw):
    items = draw(class_items())
    neg = draw(st.booleans())
    if not neg and items[0][0] == "^":
        items = ["a"] + items
    return ["cls", neg, items]


ATOMS = st.one_of(
    st.sampled_from("aab").map(lambda c: ["lit", c]), st.sampled_from("abc").map(lambda c: ["lit", c]),
    st.sampled_from(PLAIN).map(lambda c: ["lit", c]),
    st.sampled_from(sorted(SPECIAL) + list("dwsDWSabfnrtv")).map(lambda c: ["esc", c]),
    st.sampled_from([["cls", False, ["a", "b"]], ["cls", False, [["a", "c"]]], ["cls", True, ["a"]]]),
    class_atoms(),
    # what would be operators out of the class, in order
    st.tuples(st.booleans(), st.one_of(st.sampled_from(["()", "(a)", "{2}", "{,3}", "a|b", "*", "a*", ".*", "(", ")", "{", "|", "|)", "()()", "((", "$^", "a(b|c)d"]),
                                       st.text("(){}|*+?.,12a$", min_size=1, max_size=5))).map(lambda t: ["cls", t[0], list(dict.fromkeys(t[1]))]),
)
LETTERS = st.sampled_from("aabc").map(lambda c: ["lit", c])


@st.composite
def postfix(draw, x):
    k = draw(st.sampled_from(["*", "+", "?", "*", "{"]))
    if k == "{":
        m = draw(st.sampled_from([0, 1, 2, 2, 3, 1, 4]))
        n = draw(st.sampled_from([m, m, None, m + 1, m + 2, m + 3]))
        sp = draw(st.sampled_from(["", "", " "]))
        if n == m and draw(st.booleans()):
            t = "%s%d%s" % (sp, m, sp)
        elif m == 0 and draw(st.booleans()):
            t = "%s,%s%s" % (sp, sp, "" if n is None else n)
        else:
            t = "%s%d%s,%s%s%s" % (sp, m, sp, sp, "" if n is None else n, sp)
        return ["rep", x, "{" + t + "}", m, n]
    return ["rep", x, k, {"*": 0, "+": 1, "?": 0}[k], {"*": None, "+": None, "?": 1}[k]]


@st.composite
def trees(draw, atoms, depth):
    if depth == 0:
        return draw(atoms)
    k = draw(st.sampled_from(["atom", "cat", "alt", "rep", "rep", "cat", "grp"]))
    sub = trees(atoms, depth - 1)
    if k == "atom":
        return draw(atoms)
    if k in ("cat", "alt"):
        return [k, draw(st.lists(sub, min_size=2, max_size=3))]
    if k == "grp":
        return ["grp", draw(sub)]
    return draw(postfix(draw(sub)))


def patterns(big):
    return st.fixed_dictionaries({
        "tree": st.one_of(
            trees(ATOMS, 2), trees(ATOMS, 3), trees(LETTERS, 3), trees(LETTERS, 4),
            trees(LETTERS, 5 if big else 4),
        ).filter(lambda x: weight(x) <= (90 if big else 45)),
        "complete": st.sampled_from([None, False, True]),
        "alphabet": st.sampled_from([None, None, None, "abc09 \t-_AZ"]),
    })


def nodes(x):
    yield x
    if x[0] in ("cat", "alt"):
        for y in x[1]:
            yield from nodes(y)
    elif x[0] in ("rep", "grp"):
        yield from nodes(x[1])


@target("C17", "patterns", patterns, quick=160, rule="syntax tree rendered as a pattern; the DFA (complete or not) is compared with the "
        "position automaton of the tree over the whole alphabet, the NFA by exploring its state sets over a representative of each "
        "group of characters; brackets and repetitions are parsed on their own; non-trivial: a repetition, and two atoms")
def c17(case, o):
    tree = case["tree"]
    text = render(tree)
    alphabet = case["alphabet"] or PRINTABLE
    ref = Glushkov(tree, alphabet)
    for x in nodes(tree):
        if x[0] == "cls":
            equal(set(parse_bracket(render(x), alphabet)), chars(x, alphabet), "parse_bracket(%r)" % render(x))
        elif x[0] == "rep" and x[2][0] == "{":
            equal(tuple(parse_repetition(x[2])), (x[3], x[4]), "parse_repetition(%r)" % x[2])
            o.label("{%s" % ("m}" if x[3] == x[4] else "m,}" if x[4] is None else "m,n}"))
        elif x[0] == "rep":
            o.label(x[2])
        if x[0] in ("cls", "esc", "alt"):
            o.label(x[0])
    if any(not chars(x, alphabet) for x in nodes(tree) if x[0] in ("cls", "esc")):
        return   # an atom without any character over this alphabet
    equal("".join(t for t in tokenizer_re(text) if t != "."), text, "tokens of %r" % text)
    equal("".join(tokenizer_re(text, cat=None)), text, "tokens of %r without concatenation operator" % text)
    # NFA
    if case["alphabet"]:
        nfa, q0, f = thompson_compile_nfa(text, alphabet)
    elif case["complete"] is None:
        nfa, q0, f = thompson_compile_nfa(text)
    else:
        nfa, q0, f = compile_nfa(text), None, None
    if q0 is not None:
        equal(set(nfa.initials), {q0}, "initial states of the NFA of %r" % text)
        equal({q for q in nfa.vertices() if nfa.is_final(q)}, {f}, "final states of the NFA of %r" % text)
    every = sorted(set(alphabet) | set().union(*ref.sets))
    used = set().union(*ref.sets)
    equal(set(nfa.alphabet()) - used, set(), "symbols of the NFA of %r" % text)
    groups = {}
    for a in every:
        groups.setdefault(tuple(a in s for s in ref.sets), []).append(a)
    reps = [g[len(text) % len(g)] for g in groups.values()]
    start = frozenset(nfa.delta_epsilon(nfa.initials))
    seen, todo, accepted, rejected = {(start, None)}, [(start, None, "")], [], []
    for qs, ps, w in todo:
        got = any(nfa.is_final(q) for q in qs)
        equal(got, ref.accepts(ps), "NFA of %r: acceptance of %r" % (text, w))
        (accepted if got else rejected).append(w)
        if len(seen) > 60:
            continue
        for a in reps:
            rs = set()
            for q in qs:
                rs |= nfa.delta(q, a)
            p = (frozenset(rs), ref.step(ps, a))
            if p not in seen:
                seen.add(p)
                todo.append(p + (w + a,))
    for w in accepted[:3] + accepted[-3:]:
        expect(nfa.accepts(w), "NFA of %r: accepts(%r)" % (text, w), "is False")
    for w in rejected[:3] + rejected[-3:]:
        expect(not nfa.accepts(w), "NFA of %r: accepts(%r)" % (text, w), "is True")
    # DFA
    if case["alphabet"] is None:
        dfa = compile_dfa(text) if case["complete"] is None else compile_dfa(text, complete=case["complete"])
        seen, todo = {(dfa.initial(), None)}, [(dfa.initial(), None, "")]
        for q, ps, w in todo:
            got = q is not None and bool(dfa.is_final(q))
            equal(got, ref.accepts(ps), "DFA of %r: acceptance of %r" % (text, w))
            cache = {}
            for g in groups.values():
                nxt = ref.step(ps, g[0])
                for a in g:
                    p = (None if q is None else dfa.delta(q, a), nxt)
                    if p not in seen:
                        seen.add(p)
                        todo.append(p + (w + a,))
                    if case["complete"] and q is not None and a in used:
                        expect(p[0] is not None, "complete DFA of %r: no transition for %r after %r" % (text, a, w))
        if not case["complete"] and ref.size() and q is not None:
            pass
        for w in accepted[:3]:
            expect(dfa.accepts(w), "DFA of %r: accepts(%r)" % (text, w), "is False")
        for w in rejected[:3]:
            expect(not dfa.accepts(w), "DFA of %r: accepts(%r)" % (text, w), "is True")
    o.nontrivial(any(x[0] == "rep" for x in nodes(tree)) and ref.size() >= 2)
    o.label("positions<10" if ref.size() < 10 else "positions>=10")


@target("C17", "escape", lambda big: st.fixed_dictionaries({
    "s": st.one_of(st.text(st.sampled_from(PRINTABLE), max_size=8), st.text(st.sampled_from("|[]{}.+*?()^$\\ab-,0"), max_size=8),
                   st.text(st.characters(exclude_characters="ε", exclude_categories=["Cs"]), max_size=5)),
    "other": st.text(st.sampled_from("|[]{}.+*?()^$\\ab-,0"), max_size=5),
}), quick=120, rule="string over the default alphabet, the special characters, or Unicode; the automata of re_escape(s) against s and its "
        "neighbours; non-trivial: s contains a special character")
def c17_escape(case, o):
    s = case["s"]
    e = re_escape(s)
    nfa, dfa = compile_nfa(e), compile_dfa(e)
    near = {s[:i] + s[i + 1:] for i in range(len(s))} | {s + "a", "a" + s, s + s, e, case["other"], "", s[::-1], "\\" + s}
    for g, what in ((nfa, "NFA"), (dfa, "DFA")):
        expect(g.accepts(s), what, "of re_escape(%r) does not accept it" % s)
        for w in near - {s}:
            expect(not g.accepts(w), what, "of re_escape(%r) accepts %r" % (s, w))
    # The only word: the DFA is a chain
    q = dfa.initial()
    for a in s:
        equal(set(dfa.sigma(q)), {a}, "symbols leaving a state of the DFA of re_escape(%r)" % s)
        equal(bool(dfa.is_final(q)), False, "acceptance of a prefix of %r" % s)
        q = dfa.delta(q, a)
    equal((set(dfa.sigma(q)), bool(dfa.is_final(q))), (set(), True), "end of the DFA of re_escape(%r)" % s)
    o.nontrivial(set(s) & SPECIAL)


def small_trees(big):
    """Every pattern of nested postfix operators over 1 (thorough: 2) levels of a|b, ab, a."""
    ops = [("*", 0, None), ("+", 1, None), ("?", 0, 1)] + [
        ("{%d}" % m, m, m) for m in range(4)] + [("{%d,}" % m, m, None) for m in range(4)] + [
        ("{%d,%d}" % (m, n), m, n) for m in range(4) for n in range(m, 5)] + [("{,2}", 0, 2), ("{,}", 0, None)]
    a, b = ["lit", "a"], ["lit", "b"]
    bases = [a, ["cat", [a, b]], ["alt", [a, b]], ["cls", False, ["a", "b"]]]
    simple = ops[:3]
    inner = [["rep", x, t, m, n] for x in bases for t, m, n in ops]
    mixed = [["cat", [["rep", x, t, m, n], b]] for x in bases for t, m, n in ops] + \
        [["alt", [["rep", x, t, m, n], b]] for x in bases for t, m, n in ops] + \
        [["cat", [b, ["rep", x, t, m, n]]] for x in bases for t, m, n in ops]
    outer = [["rep", x, t, m, n] for x in inner + (mixed if big else []) for t, m, n in (ops if big else simple + ops[3:12:4])]
    outer2 = [] if big else [["rep", x, t, m, n] for x in mixed[::3] for t, m, n in simple]
    for x in bases + inner + mixed + outer + outer2:
        if weight(x) <= 40:
            yield {"tree": x, "complete": None, "alphabet": None}


@target("C17", "small", enum=small_trees, rule="every postfix operator over a, ab, a|b, [ab], nested twice, alone or beside another letter; "
        "as above")
def c17_small(case, o):
    c17(case, o)


ATOM_LENGTHS = {"a": 2, "(aa)": 4, "(aaa?)": 12, "[a]": 2, "(a|aaa)": 10}


def bounds(big):
    for atom in ATOM_LENGTHS:
        for m in (0, 1, 2, 3, 5, 9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, *((199, 200, 255, 256, 257) if big else ())):
            if atom == "a" or m < 70:
                for text, lo, hi in (("{%d}" % m, m, m), ("{%d,}" % m, m, None), ("{,%d}" % m, 0, m), ("{%d,%d}" % (m // 2, m), m // 2, m), ("{%d, %d}" % (m, m + 4), m, m + 4), *((("{ %d , %d }" % (m, m + 1), m, m + 1), ("{ , %d }" % m, 0, m), ("{, %d}" % m, 0, m), ("{ %d , }" % m, m, None),
                                            ("{ %d }" % m, m, m), ("{ , }", 0, None)) if m < 12 else ())):
                    yield [atom, text, lo, hi]


@target("C17", "bounds", enum=bounds, rule="repetitions of five atoms with bounds up to 132: the lengths of the words accepted by the NFA and the DFA; non-trivial: a bound of at least 10", pairs=0)
def c17_bounds(case, o):
    atom, text, lo, hi = case
    x = ATOM_LENGTHS[atom]
    want = lcat(lpower(x, lo), lstar(x) if hi is None else lpower(x | 1, hi - lo))
    equal(unary(compile_nfa(atom + text)) ^ want, 0, "lengths for which the NFA of %s is wrong, as a set of bits;" % (atom + text))
    if atom != "(a|aaa)":
        dfa = compile_dfa(atom + text)
        q, got = dfa.initial(), 0
        for k in range(TOP + 1):
            if q is None:
                break
            got |= bool(dfa.is_final(q)) << k
            q = dfa.delta(q, "a")
        equal(got ^ want, 0, "lengths for which the DFA of %s is wrong, as a set of bits;" % (atom + text))
    o.nontrivial(lo >= 10 or (hi or 0) >= 10)


@st.composite
def malformed(draw, big=False):
    """A well-formed pattern with one defect."""
    x = st.one_of(trees(LETTERS, 2), trees(ATOMS, 1)).map(render)
    s, t = draw(x), draw(x)
    m = draw(st.integers(0, 12))
    a, b = sorted(draw(st.lists(st.sampled_from("abcdxyz0189"), min_size=2, max_size=2, unique=True)))
    bad = draw(st.sampled_from([
        "a{%d,%d}" % (m + draw(st.integers(1, 9)), m), "[%s-%s]" % (b, a), "[c%s-%sd]" % (b, a), "[^%s-%s]" % (b, a), "[0-9%s-%s]" % (b, a), ")", "|)", "(|a)", "(a|)", "(*a)",
        "a||b", "()", "(())", "()*", "a|()", "[]", "[a\\Ab]", "a)", "a{x}", "a{-1}",
    ]))
    return {"before": s, "bad": bad, "after": t}


@target("C17", "malformed", malformed, quick=60, rule="a well-formed pattern in which something is wrong (reversed bounds or range, parenthesis never opened, missing operand, escape "
        "unknown in a class): refused with an exception; non-trivial: the defect is inside the pattern")
def c17_malformed(case, o):
    text = case["before"] + case["bad"] + case["after"]
    for f in (compile_nfa, compile_dfa):
        try:
            f(text)
        except Exception:
            continue
        expect(False, "the malformed pattern %r is compiled" % text)
    o.nontrivial(case["before"] and case["after"])
    o.label(case["bad"][:1])


SPACE = st.sampled_from(["", "", " ", "  ", "\t"])
NUMBER = st.one_of(st.integers(0, 12), st.integers(8, 130), st.integers(0, 10 ** 6), st.sampled_from([10, 99, 100, 101, 255, 256, 999, 1000, 1001, 65535, 65536, 10 ** 9, 10 ** 20]))


@st.composite
def tokens(draw, big=False):
    if draw(st.booleans()):
        x = draw(class_atoms())
        return ["cls", x, draw(st.sampled_from([None, None, "abc09 \t-_AZ", "a", "".join(map(chr, range(32, 400)))]))]
    m = draw(NUMBER)
    n = draw(st.sampled_from([m, m, None, None, m + draw(st.integers(0, 5)), m + draw(NUMBER)]))
    fmt = draw(st.sampled_from(["%d", "%d", "%02d", "%04d"]))
    x, y = fmt % m, "" if n is None else fmt % n
    sp = [draw(SPACE) for _ in range(4)]
    if m == n and draw(st.booleans()):
        text = "{%s%s%s}" % (sp[0], x, sp[1])
    else:
        text = "{%s%s%s,%s%s%s}" % (sp[0], "" if m == 0 and draw(st.booleans()) else x, sp[1], sp[2], y, sp[3])
    return ["rep", text, m, n]


@target("C17", "tokens", tokens, quick=400, rule="a repetition with bounds of any size, or a class (ranges whose ends are any characters, a leading or trailing hyphen) over any "
        "alphabet, parsed on its own; non-trivial: a bound of two digits or more, a class of two items or more")
def c17_tokens(case, o):
    o.label(case[0])
    if case[0] == "rep":
        equal(tuple(parse_repetition(case[1])), (case[2], case[3]), "parse_repetition(%r)" % case[1])
        o.nontrivial(case[2] > 9 or (case[3] or 0) > 9)
        return
    _, x, alphabet = case
    text = render(x)
    got = parse_bracket(text) if alphabet is None else parse_bracket(text, alphabet)
    equal(set(got), chars(x, alphabet or PRINTABLE), "parse_bracket(%r, %r)" % (text, alphabet))
    if alphabet is not None:
        equal(set(parse_bracket(text, iter(alphabet))), chars(x, alphabet), "parse_bracket(%r, iter(%r))" % (text, alphabet))
    o.nontrivial(len(x[2]) > 1)


def bad_tokens(big):
    for m in range(1, 12):
        for n in range(m):
            yield ["rep", "{%d,%d}" % (m, n)]
            yield ["rep", "{ %d , %d }" % (m, n)]
    for s in ("{", "{}", "{a}", "{1", "{-1}", "{1;2}", "{1,b}", "a"):
        yield ["rep", s]
    for a in "bcz19Z~":
        for b in "a0A ":
            if a > b:
                for f in ("[%s-%s]", "[^%s-%s]", "[x%s-%sy]", "[0-9%s-%s]", "[%s-%s-]"):
                    yield ["cls", f % (a, b)]
    for s in ("[]", "[", "]", "[a", "a]", "ab", "(a)", "[a\\q]", "[\\A]", "[\\x41]", "[^\\Z]", "abc", "[abc", "abc]"):
        yield ["cls", s]
    for c in PRINTABLE:
        if c not in SPECIAL and c not in ESCAPES and c.lower() not in CLASSES:
            yield ["esc", "\\" + c]
            if c != "]":
                yield ["cls", "[a\\%sb]" % c]
    for s in ("\\A", "\\B", "\\Z", "\\q", "\\y", "\\0", "\\x41", "\\u00e9", "\\U0001f600", "\\N{DASH}", "\\012", "\\é", "\\ ", "\\1"):
        yield ["esc", s]


@target("C17", "bad tokens", enum=bad_tokens, rule="ill-formed repetitions, classes and escapes: parse_repetition, parse_bracket and parse_escaped raise ValueError or "
        "RuntimeError; each counts")
def c17_bad_tokens(case, o):
    f = {"rep": parse_repetition, "cls": parse_bracket, "esc": parse_escaped}[case[0]]
    try:
        got = f(case[1])
    except (ValueError, RuntimeError):
        o.nontrivial()
        return
    expect(False, "%s(%r) returns %r" % (f.__name__, case[1], got))


def wide_patterns(big):
    for k in (3, 5, 7, 8, *((9, 10) if big else ())):
        for text in ("(a|b)*a(a|b){%d}", "[ab]*a[ab]{%d,}", "([ab]*a[ab]{%d}|b+)"):
            yield [text, k]


@target("C17", "many states", enum=wide_patterns, rule="patterns telling words by their k-th last letter, whose DFA has at least 2^k states (all of which are checked, with the letters that lead to "
        "them and their successors); non-trivial: 100 states", pairs=0)
def c17_many(case, o):
    text, k = case[0] % case[1], case[1]

    def accepted(w):
        late = len(w) > k and w[-k - 1] == "a"
        return late if text[0] == "(" and text[1] == "a" else "a" in w[:max(0, len(w) - k)] if text[0] == "[" else late or (w and "a" not in w)
    dfa, nfa = compile_dfa(text), compile_nfa(text)
    seen, todo, n = {dfa.initial()}, [(dfa.initial(), "")], 0
    for q, w in todo:
        for v, s in [(w, q)] + [(w + x, dfa.delta_word(q, x)) for x in ("a", "b", "aa", "ab", "ba", "bb")]:
            want = bool(accepted(v))
            equal(s is not None and bool(dfa.is_final(s)), want, "DFA of %s on %r" % (text, v))
            n += 1
            if n % 37 == 0:
                equal(bool(nfa.accepts(v)), want, "NFA of %s on %r" % (text, v))
        for a in "ab":
            r = dfa.delta(q, a)
            if r not in seen and r is not None:
                seen.add(r)
                todo.append((r, w + a))
    o.nontrivial(len(seen) >= 100)
