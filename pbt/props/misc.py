"""C27: colours; C28: property maps and algebra operators."""
import colorsys
from collections import ChainMap, Counter, OrderedDict, UserDict, defaultdict
from hypothesis import strategies as st
from pbt.core import target, expect, equal
from pybgl import (
    INFINITY, ClosedMax, ClosedMin, ClosedPlus, ClosedTime, GreaterThan, Less, hsl_to_hsv, hsv_to_hsl, html_color_to_graphviz,
    identity_property_map, make_assoc_property_map, make_constant_property_map, make_func_property_map,
)
from pybgl.property_map import PropertyMap, ReadPropertyMap, ReadWritePropertyMap, get, put

EPS = 1e-9


def close(a, b):
    return all(abs(x - y) <= EPS for x, y in zip(a, b))


def rgb_hsl(h, s, li):
    return colorsys.hls_to_rgb(h, li, s)


def in_range(t, what):
    expect(len(t) == 3 and all(-EPS <= x <= 1 + EPS for x in t), what, "=", t, "is out of range")


UNIT = st.one_of(st.floats(0, 1, allow_subnormal=False), st.integers(0, 20).map(lambda i: i / 20), st.sampled_from([0.0, 1.0, 0.5, 1e-12, 1 - 1e-12, 0.5 + 1e-12, 2e-6, 1e-5, 1e-4]))


@target("C27", "conversions", lambda big: st.tuples(UNIT, UNIT, UNIT).map(list), quick=1500, rule="colours with components in [0, 1], boundaries included: same RGB "
        "colour by the colorsys module, same hue, range, and inverse conversions; non-trivial: no component is 0 or 1")
def c27(case, o):
    h, s, x = case
    hsl = hsv_to_hsl(h, s, x)
    equal(hsl[0], h, "hue of hsv_to_hsl(%r, %r, %r)" % (h, s, x))
    in_range(hsl, "hsv_to_hsl(%r, %r, %r)" % (h, s, x))
    expect(close(rgb_hsl(*hsl), colorsys.hsv_to_rgb(h, s, x)), "hsv_to_hsl(%r, %r, %r) = %r is another colour" % (h, s, x, hsl))
    hsv = hsl_to_hsv(h, s, x)
    equal(hsv[0], h, "hue of hsl_to_hsv(%r, %r, %r)" % (h, s, x))
    in_range(hsv, "hsl_to_hsv(%r, %r, %r)" % (h, s, x))
    expect(close(colorsys.hsv_to_rgb(*hsv), rgb_hsl(h, s, x)), "hsl_to_hsv(%r, %r, %r) = %r is another colour" % (h, s, x, hsv))
    if 1e-6 < x < 1 - 1e-3:    # elsewhere the saturation is undefined, or ill-conditioned
        back = hsl_to_hsv(*hsl)
        expect(close(back, case), "hsl_to_hsv(hsv_to_hsl(%r)) = %r" % (case, back))
        back = hsv_to_hsl(*hsv)
        expect(close(back, case), "hsv_to_hsl(hsl_to_hsv(%r)) = %r" % (case, back))
    o.nontrivial(all(0 < c < 1 for c in case))


def html_colors(big):
    for h in range(0, 361, 5 if big else 45):
        for s in range(101):
            yield [h, s]
    for h in range(361):
        for s in (0, 1, 50, 100):
            yield [h, s]


@target("C27", "html-hsl", enum=html_colors, rule="every hsl(h, s%, l%) with s, l in 0..100 and h a multiple of 45 (5 in the thorough tier), and every hue with "
        "4 saturations: the graphviz triple denotes the same RGB colour; a case is a pair (h, s), l being enumerated within it; non-trivial: s > 0")
def c27_html(case, o):
    h, s = case
    for li in range(101):
        text = ("hsl(%d, %d%%, %d%%)", "hsl(%d,%d%%,%d%%)", "hsl( %d , %d%% ,%d%% )")[(h + s + li) % 3] % (h, s, li)
        out = html_color_to_graphviz(text)
        t = tuple(float(v) for v in out.split(", "))
        in_range(t, "html_color_to_graphviz(%r)" % text)
        expect(close(colorsys.hsv_to_rgb(*t), rgb_hsl(h / 360, s / 100, li / 100)), "html_color_to_graphviz(%r) = %r is another colour" % (text, out))
    o.nontrivial(s > 0)


@target("C27", "html-other", lambda big: st.one_of(
    st.text(max_size=12), st.sampled_from(["red", "#ff8800", "transparent", "rgb(1, 2, 3)", "hsv(1, 2%, 3%)", "0.5, 0.5, 0.5", "0.5 1 1", "x hsl(1, 2%, 3%)", "h", "hs", "/blues9/3",
                                           "lightgoldenrod1", "rgba(0,0,0,0.5)", " hsl(0, 0%, 0%)"]),
    st.text("0123456789abcdef", min_size=6, max_size=8).map(lambda s: "#" + s),
).filter(lambda s: not s.startswith("hsl")), quick=150, rule="other colour strings are returned unchanged; non-trivial: not empty")
def c27_other(case, o):
    equal(html_color_to_graphviz(case), case, "html_color_to_graphviz")
    o.nontrivial(case)


# --------------------------------------------------------------------------------------------------------- C28

VALUE = st.one_of(st.integers(-3, 3), st.text("ab", max_size=2), st.none(), st.booleans(), st.just(0.5), st.lists(st.integers(0, 2), max_size=2))
KEY = st.one_of(st.integers(-3, 3), st.text("ab", max_size=2), st.none(), st.booleans(), st.tuples(st.integers(0, 1), st.text("a", max_size=1)).map(list))


def hashable(k):
    return tuple(k) if isinstance(k, list) else k


def refuses(f, what, *excs):
    try:
        f()
    except excs or Exception:
        return
    expect(False, what, "is not refused")


class Missing(dict):
    def __missing__(self, k):
        return 0


FACTORIES = {"list": list, "set": set, "dict": dict, "int": int, "str": str, "bool": bool, "defaultdict": lambda: defaultdict(list)}


@target("C28", "defaults", lambda big: st.fixed_dictionaries({
    "factory": st.sampled_from(sorted(FACTORIES)), "ops": st.lists(st.tuples(st.sampled_from(["map", "map", "get", "dict", "set"]), st.integers(0, 3), st.integers(1, 4)).map(list),
                                                                   min_size=2, max_size=12),
}), quick=200, rule="histories of updates, in place for containers, of values first seen through an associative map over a defaultdict of any factory, or through the defaultdict: "
        "both see them; non-trivial: a container updated twice through the map")
def c28_defaults(case, o):
    name = case["factory"]
    d = defaultdict(FACTORIES[name])
    pmap, model, twice = make_assoc_property_map(d), {}, {}
    for op, k, v in case["ops"]:
        if op == "set":
            new = FACTORIES[name]()
            pmap[k] = new
            model[k] = FACTORIES[name]()
            expect(pmap[k] is new, "another object than the one assigned is read")
            continue
        x = d[k] if op == "dict" else get(pmap, k) if op == "get" else pmap[k]
        model.setdefault(k, FACTORIES[name]())
        twice[k] = twice.get(k, 0) + (op != "dict")
        if name in ("list", "set"):
            for y in (x, model[k]):
                y.append(v) if name == "list" else y.add(v)
        elif name == "dict":
            x[v] = model[k][v] = k
        elif name == "defaultdict":
            x[v].append(k)
            model[k][v].append(k)
        else:
            new = model[k] + 1 if name == "int" else model[k] + "x" if name == "str" else not model[k]
            pmap[k] = model[k] = new
        for k2, want in model.items():
            equal((pmap[k2], d[k2]), (want, want), "value at %d in the map, in the defaultdict" % k2)
    equal(dict(d), model, "defaultdict")
    o.nontrivial(name not in ("int", "str", "bool") and any(n > 1 for n in twice.values()))
    o.label(name)


@target("C28", "maps", lambda big: st.fixed_dictionaries({
    "default": VALUE, "ops": st.lists(st.tuples(st.sampled_from(["set", "put", "get", "read", "dict", "del"]), KEY, VALUE).map(list), min_size=2, max_size=12),
}), quick=500, rule="histories of reads, writes and deletions through property maps (associative, function, identity, constant), falsy keys and values "
        "included, against a dictionary; non-trivial: 2 writes or more")
def c28_maps(case, o):
    default = case["default"]
    d = defaultdict(lambda: default)
    pmap = make_assoc_property_map(d)
    model = {}
    func = make_func_property_map(lambda k: model.get(k, default))
    ident, const = identity_property_map(), make_constant_property_map(default)
    same = lambda x, y, what: expect(x is y or (type(x) is type(y) and x == y), what, ": got", repr(x), "expected", repr(y))  # noqa: E731
    writes = 0
    for op, k, v in case["ops"]:
        k = hashable(k)
        if op == "set":
            pmap[k] = v
            model[k] = v
        elif op == "put":
            put(pmap, k, v)
            model[k] = v
        elif op == "dict":
            d[k] = v
            model[k] = v
        elif op == "del":
            for m in (pmap, func, ident, const):
                def delete():
                    del m[k]
                refuses(delete, "deletion from %s" % type(m).__name__)
        writes += op in ("set", "put", "dict")
        for m in (func, ident, const):
            def assign():
                m[k] = v
            refuses(assign, "assignment in %s" % type(m).__name__)
            refuses(lambda: put(m, k, v), "put in %s" % type(m).__name__)
        want = model.get(k, default)
        for read in (lambda m: m[k], lambda m: get(m, k)):
            same(read(pmap), want, "associative map at %r" % (k,))
            same(read(func), want, "function map at %r" % (k,))
            same(read(ident), k, "identity map at %r" % (k,))
            same(read(const), default, "constant map at %r" % (k,))
        expect(make_constant_property_map(v)[k] is v, "a constant map gives a copy of its value")
        for x in (str, len, refuses, d, func, const):
            expect(make_constant_property_map(x)[k] is x and get(make_constant_property_map(x), k) is x, "a constant map of", x, "gives", make_constant_property_map(x)[k])
            expect(make_func_property_map(lambda k: x)[k] is x, "a function map which returns", x)
        for k2, v2 in model.items():
            same(pmap[k2], v2, "associative map at %r" % (k2,))
            same(d[k2], v2, "defaultdict at %r" % (k2,))
    for container in (dict(model), list(model), None, OrderedDict(model), model.items(), Counter(), Missing(model), ChainMap({}), UserDict()):
        refuses(lambda: make_assoc_property_map(container), "make_assoc_property_map over a %s" % type(container).__name__)
    for cls in (PropertyMap, ReadPropertyMap, ReadWritePropertyMap):
        refuses(cls, "instantiation of %s" % cls.__name__)
    o.nontrivial(writes >= 2)


NUMBER = st.one_of(st.integers(-4, 4), st.integers(-2, 2), st.sampled_from([INFINITY, -INFINITY, 0.5, -0.5, 1e9, 2, 0, 1, INFINITY - 1]), st.integers(-10 ** 6, 10 ** 6))
PLAIN = {"+": lambda x, y: x + y, "*": lambda x, y: x * y, "max": max, "min": min}
CLOSED = {"+": ClosedPlus, "*": ClosedTime, "max": ClosedMax, "min": ClosedMin}
DEFAULT = {"+": INFINITY, "*": INFINITY, "max": INFINITY, "min": 0}


@target("C28", "operators", lambda big: st.fixed_dictionaries({
    "op": st.sampled_from(sorted(PLAIN)), "absorbing": st.one_of(st.just("default"), NUMBER), "xs": st.lists(NUMBER, min_size=2, max_size=6),
}), quick=700, rule="the four closed operators with the default or any absorbing value, over every pair of a list of numbers; strict orders; non-trivial: an operand or a result "
        "is the absorbing value, and another pair is not")
def c28_operators(case, o):
    k, xs = case["op"], list(case["xs"])
    f = CLOSED[k]() if case["absorbing"] == "default" else CLOSED[k](case["absorbing"])
    z = DEFAULT[k] if case["absorbing"] == "default" else case["absorbing"]
    equal(f.absorbing, z, "absorbing value of %s" % k)
    kinds = set()
    for x in xs + [z]:
        for y in xs + [z]:
            absorbed = x == z or y == z
            want = z if absorbed else PLAIN[k](x, y)
            equal(f(x, y), want, "%s of %r and %r, %r being absorbing" % (k, x, y, z))
            kinds.add((absorbed, want == z))
            equal(bool(Less()(x, y)), x < y, "Less(%r, %r)" % (x, y))
            equal(bool(GreaterThan()(x, y)), x > y, "GreaterThan(%r, %r)" % (x, y))
    o.nontrivial((False, False) in kinds and any(b for a, b in kinds))
    o.label(k)


ORDERED = st.one_of(
    st.lists(st.text("ab", max_size=3), min_size=2, max_size=5), st.lists(st.tuples(st.integers(0, 2), st.text("a", max_size=2)).map(list), min_size=2, max_size=5),
    st.lists(st.lists(st.integers(0, 2), max_size=3), min_size=2, max_size=5),
)


@target("C28", "partial orders", lambda big: st.lists(st.one_of(st.none(), st.lists(st.integers(0, 2), max_size=3, unique=True)), min_size=2, max_size=5), quick=100,
        rule="Less and GreaterThan over sets (ordered by strict inclusion) and floats with NaN (None in the case), where neither x < y nor x >= y may hold; non-trivial: two values not comparable")
def c28_partial(case, o):
    sets = [frozenset(x) for x in case if x is not None]
    floats = [float("nan") if x is None else float(len(x)) for x in case]
    for xs in (sets, floats):
        for x in xs:
            for y in xs:
                equal((bool(Less()(x, y)), bool(GreaterThan()(x, y))), (x < y, x > y), "Less and GreaterThan of %r, %r" % (x, y))
                o.nontrivial(not x <= y and not y <= x)


@target("C28", "orders", lambda big: ORDERED, quick=200, rule="Less, GreaterThan, ClosedMax, ClosedMin and ClosedPlus over strings and lists; non-trivial: two different values")
def c28_orders(xs, o):
    for x in xs:
        for y in xs:
            equal(bool(Less()(x, y)), x < y, "Less(%r, %r)" % (x, y))
            equal(bool(GreaterThan()(x, y)), x > y, "GreaterThan(%r, %r)" % (x, y))
            for z in xs[:2] + ["zz"]:
                for k in ("max", "min", "+"):
                    want = z if z in (x, y) else PLAIN[k](x, y)
                    equal(CLOSED[k](z)(x, y), want, "%s of %r and %r, %r being absorbing" % (k, x, y, z))
    o.nontrivial(any(x != xs[0] for x in xs))
