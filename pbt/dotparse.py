"""A small parser of the DOT language: enough for graphs with node, edge and attribute statements."""
import html


class DotError(Exception):
    pass


def tokens(s):
    """Yields (kind, text): kind in 'id', 'str', 'html', 'op'."""
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif s.startswith("//", i) or (c == "#" and (i == 0 or s[i - 1] == "\n")):
            while i < n and s[i] != "\n":
                i += 1
        elif s.startswith("/*", i):
            i = s.index("*/", i) + 2
        elif c == '"':
            j = i + 1
            out = []
            while j < n and s[j] != '"':
                if s[j] == "\\" and j + 1 < n:
                    out.append(s[j] if s[j + 1] != '"' else "")
                    out.append(s[j + 1])
                    j += 2
                else:
                    out.append(s[j])
                    j += 1
            if j >= n:
                raise DotError("unterminated string")
            yield ("str", "".join(out))
            i = j + 1
        elif c == "<":
            depth, j = 0, i
            while j < n:
                depth += (s[j] == "<") - (s[j] == ">")
                j += 1
                if depth == 0:
                    break
            if depth:
                raise DotError("unterminated HTML string")
            yield ("html", s[i + 1: j - 1])
            i = j
        elif s.startswith("->", i) or s.startswith("--", i):
            yield ("op", s[i: i + 2])
            i += 2
        elif c in "{}[];,=:":
            yield ("op", c)
            i += 1
        elif c.isalnum() or c in "_.-" or ord(c) > 127:
            j = i + 1
            while j < n and (s[j].isalnum() or s[j] in "_." or ord(s[j]) > 127):
                j += 1
            yield ("id", s[i:j])
            i = j
        else:
            raise DotError("unexpected character %r at %d" % (c, i))


class Dot:
    """type ('digraph'/'graph'), nodes [(id, attrs)], edges [(u, connector, v, attrs)], defaults {kind: attrs}, sets."""
    def __init__(self):
        self.type = None
        self.nodes, self.edges = [], []
        self.defaults = {"graph": {}, "node": {}, "edge": {}}
        self.default_statements = []
        self.sets = {}


def text_of(kind, raw):
    """The text displayed for an attribute value."""
    return html.unescape(raw) if kind == "html" else raw


def parse(s):
    toks = list(tokens(s))
    pos = 0

    def peek(k=0):
        return toks[pos + k] if pos + k < len(toks) else (None, None)

    def take(*want):
        nonlocal pos
        t = peek()
        if want and t not in want:
            raise DotError("expected %s, got %s at token %d" % (want, t, pos))
        pos += 1
        return t

    def ident():
        t = take()
        if t[0] not in ("id", "str"):
            raise DotError("expected an identifier, got %s" % (t,))
        return t[1]

    def attrs():
        d = {}
        while peek() == ("op", "["):
            take()
            while peek() != ("op", "]"):
                k = ident()
                take(("op", "="))
                kind, raw = take()
                if kind not in ("id", "str", "html"):
                    raise DotError("bad value %r of %s" % (raw, k))
                if k in d:
                    raise DotError("attribute %s given twice" % k)
                d[k] = text_of(kind, raw)
                if peek() in (("op", ";"), ("op", ",")):
                    take()
            take()
        return d

    g = Dot()
    g.type = ident()
    if g.type not in ("digraph", "graph"):
        raise DotError("bad type %r" % g.type)
    if peek() != ("op", "{"):
        ident()
    take(("op", "{"))
    while peek() != ("op", "}"):
        x = ident()     # The grammar of dot has no empty statement
        nxt = peek()
        if nxt == ("op", "="):
            take()
            g.sets[x] = take()[1]
        elif nxt in (("op", "->"), ("op", "--")):
            c = take()[1]
            y = ident()
            g.edges.append((x, c, y, attrs()))
        elif x in g.defaults:
            d = attrs()
            g.defaults[x].update(d)
            g.default_statements.append((x, d))
        else:
            g.nodes.append((x, attrs()))
        if peek() == ("op", ";"):
            take()
    take()
    if pos != len(toks):
        raise DotError("text after the graph")
    return g
