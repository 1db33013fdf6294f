"""Schema requests: generator and reference model (shared by C13 and C14)."""
import math
import random
from fractions import Fraction
import xml.parsers.expat
from searchlib import *

# ---------------------------------------------------------------- model
# pattern: None for a cut subterm, else (meaning, (pattern, ...))


def pattern(t, cutoff):
    if cutoff <= 0:
        return None
    return _pat(t, 0, cutoff)


def _pat(t, depth, cutoff):
    kids = []
    for i, k in enumerate(t.kids):
        if depth + 1 < cutoff or (i == 0 and t.tag == "apply"):
            kids.append(_pat(k, depth + 1, cutoff))
        else:
            kids.append(None)
    return (t.meaning(), tuple(kids))


def cut_terms(t, cutoff):
    """The subterms that are replaced, in document order."""
    if cutoff <= 0:
        return [t]
    out = []

    def rec(t, depth):
        for i, k in enumerate(t.kids):
            if depth + 1 < cutoff or (i == 0 and t.tag == "apply"):
                rec(k, depth + 1)
            else:
                out.append(k)
    rec(t, 0)
    return out


def cutoff_of(t, depth, mode):
    """None where binary floating point and exact arithmetic disagree."""
    if mode == "A":
        return depth
    exact = Fraction(depth * t.depth(), 100)
    c = math.floor(exact)
    return c if c == int(0.01 * depth * t.depth()) else None


# ------------------------------------------------- formulas that serialise alike
def _parse(seq, cut):
    """Reads a token sequence [(sym, arity)] as a term cut at depth `cut`; holes are None."""
    pos = [0]

    def rec(depth):
        if pos[0] >= len(seq):
            raise IndexError
        s, a = seq[pos[0]]
        pos[0] += 1
        kids = []
        for _ in range(a):
            kids.append(rec(depth + 1) if depth + 1 < cut else None)
        return (s, kids)
    try:
        t = rec(0)
    except IndexError:
        return None
    return t if pos[0] == len(seq) else None


def _height(t):
    return max([1 + _height(k) for k in t[1] if k is not None] + [0])


def _alike():
    r = random.Random(7)
    out = []
    seen = set()
    while len(out) < 40:
        n = r.randint(4, 9)
        seq = tuple((r.choice("fgh"), r.choice([0, 1, 1, 1, 2, 2])) for _ in range(n))
        if seq in seen:
            continue
        seen.add(seq)
        ok = [(c, _parse(seq, c)) for c in (2, 3, 4, 5)]
        ok = [(c, t) for c, t in ok if t is not None and "None" in repr(t)]
        if len(ok) >= 2:
            out.append(ok[:2])
    return out


ALIKE = _alike()


def alike_pair(d):
    """Two formulas whose cut forms are different trees of the same token sequence, with the
    percentage that cuts them there."""
    (c1, t1), (c2, t2) = d.choice(ALIKE)
    p = d.choice([25, 40, 50, 60])
    out = []
    for c, t in ((c1, t1), (c2, t2)):
        depths = [n for n in range(_height(t), 60) if p * n // 100 == c and
                  int(0.01 * p * n) == c]
        if not depths:
            return None
        want = d.choice(depths)
        out.append(_fill(d, t, 0, want))
    return p, out


def _fill(d, t, depth, want):
    def chain(n):
        x = T("ci", d.choice(["a", "b"]))
        for _ in range(n):
            x = T("neg", "", [x])
        return x
    kids = []
    for k in t[1]:
        if k is None:
            kids.append(chain(max(0, want - depth - 1)))
        else:
            kids.append(_fill(d, k, depth + 1, want))
    return T(t[0], "", kids)


# ---------------------------------------------------------------- generator
def chain(d, g):
    """A long chain, now and then with compound operators."""
    n = d.weighted((3, d.int(5, 20)), (1, d.int(90, 120)), (1, d.int(120, 240)))
    t = g.leaf()
    kind = d.choice(["apply", "mrow", "mixed", "first"])
    for i in range(n):
        if kind == "first":
            t = T("apply", "", [t] + [g.leaf() for _ in range(d.int(0, 2) if n < 30 else 0)])
        elif kind == "apply" or kind == "mixed" and i % 3 == 0:
            t = T("apply", "", [T("plus"), t])
        else:
            t = T("mrow", "", [t])
    return t


def formulas(d, g):
    out = []
    pct = None

    def one():
        nonlocal pct
        k = d.weighted((6, "tree"), (4, "variant"), (2, "dup"), (1, "chain"), (1, "operator"),
                       (1, "alike"), (1, "wide"))
        if k in ("variant", "dup") and not out:
            k = "tree"
        if k == "tree":
            t = g.tree(d.weighted((2, d.int(1, 3)), (4, d.int(3, 12)), (1, d.int(12, 40))))
        elif k == "dup":
            t = g.copy(d.choice(out))
        elif k == "variant":
            t = g.copy(d.choice(out))
            nodes = [x for _, x in t.walk()]
            for _ in range(d.weighted((3, 1), (1, 3))):
                x = d.choice(nodes)
                how = d.int(0, 4)
                if how == 0:
                    x.text = d.choice(g.texts)
                elif how == 1:
                    x.tag = d.choice(g.tags)
                elif how == 2 and x.kids:
                    x.kids[d.int(0, len(x.kids) - 1)] = g.tree(d.int(1, 4))
                elif how == 3:
                    x.kids.append(g.leaf())
                elif x.kids:
                    x.kids.pop(d.int(0, len(x.kids) - 1))
        elif k == "chain":
            t = chain(d, g)
        elif k == "operator":
            t = T("apply", "", [g.tree(d.int(2, 8))] + [g.tree(d.int(1, 5))
                                                       for _ in range(d.int(0, 3))])
            for _ in range(d.int(0, 3)):
                t = T("apply", "", [t] + [g.leaf() for _ in range(d.int(0, 2))])
        elif k == "wide":
            t = T(d.choice(["apply", "mrow"]), "", [g.leaf() for _ in range(d.choice(
                [100, 254, 255, 256, 300]))])
        else:
            r = alike_pair(d)
            if r is None:
                t = g.leaf()
            else:
                pct = r[0]
                out.append(r[1][0])
                t = r[1][1]
        out.append(t)
        return t
    d.list(1, 30, one, n=d.weighted((2, d.int(1, 4)), (4, d.int(4, 15)), (1, 40)))
    return out, pct


def gen(d):
    """A daemon's options and some requests."""
    def request():
        texts = d.choice([None, ["", "x"], ["x", "y", "<&>", "é", "a\"b", "]]>", "#", "x#y"]])
        g = Gen(d, ntags=d.int(2, 6), texts=texts, weird=False)
        fs, pct = formulas(d, g)
        mode = d.choice(["A", "A", "R"]) if pct is None else "R"
        if pct is not None:
            depth = pct
        elif mode == "A":
            depth = d.weighted((1, 0), (2, 1), (3, 2), (2, 3), (2, 4), (1, d.int(5, 255)), (1, None))
        else:
            depth = d.weighted((1, 0), (3, d.int(1, 99)), (2, 50), (2, 100), (1, d.int(101, 255)),
                               (1, None))
        limit = d.weighted((4, 0), (2, None), (3, d.int(1, 6)), (1, -1), (1, 1000))
        for t in fs:
            n = 0
            for _, x in t.walk():
                x._canon = x._n = None
                if d.bool(0.9):
                    x.attrs["xref"] = "p%d" % n if d.bool(0.95) else d.choice(["a&b", "<", "é\""])
                    n += 1
        return fs, mode, depth, limit, d.choice(["m:", ""])
    return d.list(1, 8, request, n=5), d.bool(0.1)


def request_xml(req, output):
    fs, mode, depth, limit, pfx = req
    extra = ""
    if mode != "A" or len(fs) % 2:
        extra += ' cutoff_mode="%s"' % mode
    if depth is not None:
        extra += ' schema_depth="%d"' % depth
    return query_xml(fs, output=output, answsize=limit, pfx=pfx, extra=extra)


class Expected:
    """members: pattern -> [positions]; cut: position -> cutoff. usable is False if a cutoff
    depends on rounding."""

    def __init__(self, req):
        fs, mode, depth, limit, _ = req
        depth = 3 if depth is None else depth
        self.limit = 30 if limit is None else limit
        if self.limit <= 0:
            self.limit = None
        self.usable = True
        self.members = {}
        self.cut = {}
        for i, t in enumerate(fs):
            if t.max_arity() > 255:
                continue
            c = cutoff_of(t, depth, mode)
            if c is None:
                self.usable = False
                return
            self.cut[i] = c
            self.members.setdefault(pattern(t, c), []).append(i)


class Node:
    __slots__ = ("tag", "text", "kids", "attrs")

    def __init__(self, tag, attrs):
        self.tag = tag
        self.text = ""
        self.kids = []
        self.attrs = attrs


def parse_tree(src, what):
    """XML without regard to namespaces (mws:qvar appears undeclared)."""
    p = xml.parsers.expat.ParserCreate()
    top = Node("", {})
    st = [top]

    def start(n, a):
        x = Node(n, a)
        st[-1].kids.append(x)
        st.append(x)

    def end(n):
        st.pop()

    def chars(s):
        st[-1].text += s
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    try:
        p.Parse(src if isinstance(src, bytes) else src.encode("utf-8"), True)
    except xml.parsers.expat.ExpatError as e:
        raise Violation("bad-xml", "%s: %s in %r" % (what, e, src[:500]))
    return top.kids[0]


def node_pattern(n, names):
    """Pattern of a schema element; collects the variables' names."""
    text = "".join(c for c in n.text if c not in SPACES)
    if n.tag == "mws:qvar":
        names.append(text)
        if n.kids:
            raise Violation("qvar", "a variable with children")
        return None
    return (n.tag + "#" + text, tuple(node_pattern(k, names) for k in n.kids))


def json_answer(dmn, req):
    st_, hd, body = dmn.post(request_xml(req, "json"))
    if st_ != 200 or hd.get("Content-Type") != "application/json":
        raise Violation("status", "%r %r %r" % (st_, hd.get("Content-Type"), body[:300]))
    try:
        return json.loads(body.decode("utf-8"))
    except ValueError as e:
        raise Violation("bad-json", "%s in %r" % (e, body[:500]))


def xml_answer(dmn, req):
    """(total, size, [(coverage, root Node)])"""
    st_, hd, body = dmn.post(request_xml(req, "xml"))
    if st_ != 200 or hd.get("Content-Type") != "application/xml":
        raise Violation("status", "%r %r %r" % (st_, hd.get("Content-Type"), body[:300]))
    r = parse_tree(body, "xml answer")
    out = []
    for a in r.kids:
        if len(a.kids) != 1 or a.kids[0].tag != "math" or len(a.kids[0].kids) != 1:
            raise Violation("xml-shape", repr(body[:400]))
        out.append((int(a.attrs["coverage"]), a.kids[0].kids[0]))
    return int(r.attrs["total"]), int(r.attrs["size"]), out


def describe(case):
    reqs, ren = case
    return "schemad%s\n%s" % (" -c" if ren else "",
                              "\n".join(request_xml(r, "json")[:4000] for r in reqs))
