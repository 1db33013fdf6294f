"""Reference model: expression trees, matching, generators, answer parsing."""
import json
import re
import xml.etree.ElementTree as ET
from collections import Counter
from xml.sax.saxutils import escape, quoteattr

from pbt import Violation

MWS_NS = "http://search.mathweb.org/ns"
MML_NS = "http://www.w3.org/1998/Math/MathML"
SPACES = " \t\n\r\v\f"


class T:
    """An expression tree as it stands in a harvest or a query."""
    __slots__ = ("tag", "text", "kids", "attrs", "_canon", "kind", "low", "high", "name", "_n")

    def __init__(self, tag, text="", kids=(), attrs=None, kind="c", name=None, low=None,
                 high=None):
        self.tag = tag
        self.text = text
        self.kids = list(kids)
        self.attrs = attrs or {}
        self.kind = kind        # c(onstant) v(ariable) r(ange)
        self.name = name
        self.low = low
        self.high = high
        self._canon = None
        self._n = None

    def meaning(self):
        if self.tag == "mtext":
            return "mtext#"
        t = self.text.translate({ord(c): None for c in SPACES})
        return self.tag + "#" + t

    def canon(self):
        """Structural identity of a constant tree."""
        if self._canon is None:
            self._canon = intern_tree(self.meaning(), tuple(k.canon() for k in self.kids))
        return self._canon

    def size(self):
        if self._n is None:
            self._n = 1 + sum(k.size() for k in self.kids)
        return self._n

    def depth(self):
        return max((k.depth() + 1 for k in self.kids), default=0)

    def max_arity(self):
        return max([len(self.kids)] + [k.max_arity() for k in self.kids])

    def xml(self, pfx="m:", rootattrs=""):
        if self.kind == "v":
            if self.name is None:
                return "<mws:qvar/>"
            if self.attrs.get("_as_text"):
                return "<mws:qvar>%s</mws:qvar>" % escape(self.name)
            return "<mws:qvar name=%s/>" % quoteattr(self.name)
        if self.kind == "r":
            a = ""
            if self.low is not None:
                a += " low=%s" % quoteattr(self.low)
            if self.high is not None:
                a += " high=%s" % quoteattr(self.high)
            return "<mws:range%s/>" % a
        a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in self.attrs.items()
                    if not k.startswith("_"))
        inner = escape(self.text) + "".join(k.xml(pfx) for k in self.kids)
        return "<%s%s%s%s>%s</%s%s>" % (pfx, self.tag, a, rootattrs, inner, pfx, self.tag)

    def __repr__(self):
        return self.xml("")

    def walk(self, path=()):
        yield path, self
        for i, k in enumerate(self.kids):
            yield from k.walk(path + (i + 1,))


_interned = {}


def intern_tree(meaning, kids):
    key = (meaning, kids)
    r = _interned.get(key)
    if r is None:
        if len(_interned) > 2000000:
            _interned.clear()
        r = _interned[key] = Canon(meaning, kids)
    return r


class Canon:
    """Hash-consed canonical tree: equality is identity. The meaning of variables and ranges of
    the harvest is a tuple."""
    __slots__ = ("meaning", "kids", "num", "__weakref__")

    def __init__(self, meaning, kids):
        self.meaning = meaning
        self.kids = kids
        self.num = None


STOD = re.compile(r"^[ \t\n\v\f\r]*[+-]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)"
                  r"(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|inf(?:inity)?|nan)",
                  re.I)


def reads_as_number(text):
    """float value if the whole text is a plain decimal number, None if no prefix of it is a
    number, NotImplemented for the cases the property does not settle (hex, inf, nan, trailing
    garbage)."""
    if re.match(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d{1,3})?$", text):
        v = float(text)
        if v in (float("inf"), float("-inf")) or (v != 0 and abs(v) < 1e-300):
            return NotImplemented
        return v
    if STOD.match(text):
        return NotImplemented
    return None


def in_range(canon, low, high):
    """Does a range element match this term?"""
    if canon.kids or isinstance(canon.meaning, tuple) or not canon.meaning.startswith("cn#"):
        return False
    v = reads_as_number(canon.meaning[3:])
    if v is None or v is NotImplemented:
        return False
    lo = reads_as_number(low.strip(SPACES)) if low is not None else None
    hi = reads_as_number(high.strip(SPACES)) if high is not None else None
    if lo is not None and v < lo:
        return False
    if hi is not None and v > hi:
        return False
    return True


def match(q, c, subst):
    """Extends subst (dict name -> Canon) if q matches canon tree c, else returns None."""
    stack = [(q, c)]
    while stack:
        q, c = stack.pop()
        if q.kind == "v":
            if q.name:
                if q.name in subst:
                    if subst[q.name] is not c:
                        return None
                else:
                    subst[q.name] = c
        elif q.kind == "r":
            if not in_range(c, q.low, q.high):
                return None
        else:
            if q.meaning() != c.meaning or len(q.kids) != len(c.kids):
                return None
            stack.extend(zip(q.kids, c.kids))
    return subst


class Indexed:
    """What a harvested expression contributes: its distinct indexable subterms with the
    position of their first occurrence."""

    def __init__(self, expr):
        self.first = {}
        self._too_wide(expr)
        fixed = all(t.kind == "c" for _, t in expr.walk())
        for path, t in expr.walk():
            if t._n == -1:
                continue
            c = t.canon() if fixed else self.standing(t)
            if c is not None and c not in self.first:
                self.first[c] = path

    @staticmethod
    def standing(t):
        """Variables and ranges of a harvest stand for themselves, numbered within the formula.
        None if the formula has more than can be told apart."""
        names = {}
        n = [0, 0]

        def rec(t):
            if t.kind == "v" and t.name:
                return intern_tree(("var", names.setdefault(t.name, len(names))), ())
            if t.kind != "c":
                i = 0 if t.kind == "v" else 1
                n[i] += 1
                return intern_tree((t.kind, n[i] if i else min(n[i], 32)), ())
            return intern_tree(t.meaning(), tuple(rec(k) for k in t.kids))
        c = rec(t)
        return None if len(names) > 32 or n[1] > 32 else c

    def _too_wide(self, t):
        """Marks (in _n) terms that contain a node of more than 255 children: these can not
        be represented and are not indexed (documented limit ENC_TOK_MAX_ARITY)."""
        bad = len(t.kids) > 255
        for k in t.kids:
            bad = self._too_wide(k) or bad
        t._n = -1 if bad else None
        return bad


def occurrences(q):
    """[(name, path)] of named variables, in document order."""
    return [(t.name, p) for p, t in q.walk() if t.kind == "v" and t.name]


def xpath(path):
    return "/*[1]" + "".join("/*[%d]" % i for i in path)


def relpath(path):
    return "".join("/*[%d]" % i for i in path)


def parse_xpath(s):
    if not re.match(r"^(/\*\[\d+\])+$", s):
        return None
    return tuple(int(x) for x in re.findall(r"\d+", s))


# ---------------------------------------------------------------- harvests

class Harvest:
    """One harvest file: items are ('data', id, xml) and ('expr', url, data_id, T)."""

    def __init__(self, items, pfx="m:", indent=False):
        self.items = items
        self.pfx = pfx
        self.indent = indent

    def xml(self):
        nl = "\n" if self.indent else ""
        o = ['<?xml version="1.0" encoding="UTF-8"?>\n<mws:harvest xmlns:mws="%s" xmlns:m="%s">%s'
             % (MWS_NS, MML_NS, nl)]
        for it in self.items:
            if it[0] == "data":
                o.append("<mws:data%s>%s</mws:data>" %
                         ("" if it[1] is None else " mws:data_id=%s" % quoteattr(it[1]), it[2]))
            else:
                _, url, did, t = it
                o.append("<mws:expr%s%s>%s%s%s</mws:expr>" %
                         ("" if url is None else " url=%s" % quoteattr(url),
                          "" if did is None else " mws:data_id=%s" % quoteattr(did),
                          nl, t.xml(self.pfx), nl))
            o.append(nl)
        o.append("</mws:harvest>\n")
        return "".join(o)

    def exprs(self):
        """[(url, data xml or None, T)]"""
        data = {}
        out = []
        for it in self.items:
            if it[0] == "data":
                if it[1]:
                    data[it[1]] = it[2]
            else:
                out.append((it[1] or "", data.get(it[2]) if it[2] else None, it[3]))
        return out


def query_xml(exprs, output=None, answsize=None, limitmin=None, pfx="m:", extra="", schema=None):
    a = ""
    if answsize is not None:
        a += ' answsize="%d"' % answsize
    if limitmin is not None:
        a += ' limitmin="%d"' % limitmin
    if output is not None:
        a += ' output="%s"' % output
    if not isinstance(exprs, list):
        exprs = [exprs]
    return ('<mws:query xmlns:mws="%s" xmlns:m="%s"%s%s>' % (MWS_NS, MML_NS, a, extra) +
            "".join("<mws:expr>%s</mws:expr>" % e.xml(pfx) for e in exprs) + "</mws:query>")


# ---------------------------------------------------------------- generators

class Gen:
    """Expression generators over a small alphabet, so that terms coincide often."""

    TAGS = ["apply", "ci", "cn", "plus", "csymbol", "eq", "bvar", "mtext", "semantics", "mrow"]
    TEXTS = ["", "x", "y", "z", "3", "0", "-1", "2.5", "f", "xy", "P"]
    WEIRD = ["a b", "<&>", "é", "\"'", "𝒳", "a\tb\nc", "]]>", "x#y", "#", "~1", "0x10", "1e3"]

    def __init__(self, draw, ntags=None, texts=None, weird=True):
        self.d = draw
        self.tags = self.TAGS[:draw.int(2, len(self.TAGS)) if ntags is None else ntags]
        self.texts = texts if texts is not None else self.TEXTS[:draw.int(1, len(self.TEXTS))]
        if weird and texts is None and draw.bool(0.15):
            self.texts = self.texts + [draw.choice(self.WEIRD) for _ in range(2)]
        self.pool = []
        self.hvars = False      # variables and ranges in the harvest, too

    def leaf(self):
        d = self.d
        tag = d.choice(self.tags)
        return T(tag, d.choice(self.texts) if tag != "apply" else "")

    def tree(self, budget):
        """A tree of about `budget` nodes."""
        d = self.d
        if budget <= 1:
            return self.leaf()
        if self.pool and d.bool(0.2):
            return self.copy(d.choice(self.pool))
        tag = d.weighted((3, "apply"), (1, None))
        if tag is None:
            tag = d.choice(self.tags)
        n = d.weighted((2, 2), (2, 1), (2, 3), (1, 4), (1, 0))
        if n == 0:
            n = d.int(1, 7)
        n = max(1, min(n, budget - 1))
        left = budget - 1
        kids = []
        for i in range(n):
            b = left if i == n - 1 else d.small(1, max(1, left - (n - 1 - i)))
            b = min(b, max(1, left - (n - 1 - i)))
            left -= b
            kids.append(self.tree(max(1, b)))
        text = "" if d.bool(0.95) else d.choice(self.texts)
        t = T(tag, text, kids)
        if len(self.pool) < 40:
            self.pool.append(t)
        return t

    def copy(self, t):
        return T(t.tag, t.text, [self.copy(k) for k in t.kids], dict(t.attrs), t.kind, t.name,
                 t.low, t.high)

    def with_variables(self, t):
        """Variables and ranges of the harvest: they stand for themselves only."""
        d = self.d
        t = self.copy(t)
        spots = [(x, i) for _, x in t.walk() for i in range(len(x.kids))]
        many = d.bool(0.1)
        names = [n for n in ["x", "y", "z"][:d.int(1, 3)]]
        for x, i in d.shuffle(spots)[:70 if many else d.weighted((4, 1), (3, 2), (2, 4))]:
            how = d.weighted((5, "named"), (2, "anonymous"), (1, "range"))
            if many and d.bool(0.5):
                names.append("v%d" % len(names))
            x.kids[i] = T("mws:qvar", kind="v", name=d.choice(names)) if how == "named" else \
                T("mws:qvar", kind="v") if how == "anonymous" else self.range_for(d.choice("0123"))
        if not spots and d.bool(0.5):
            return T("mws:qvar", kind="v", name=d.choice(names + [None]))
        return t

    def wide(self, lo=6, hi=300):
        """A node of many children."""
        d = self.d
        n = d.weighted((3, 20), (2, 60), (1, 255), (1, 256), (1, 254), (1, 257), (1, 300))
        n = max(lo, min(hi, n))
        if d.bool():
            x = self.leaf()
            kids = [x] * n
            for _ in range(d.int(0, 3)):
                kids[d.int(0, n - 1)] = self.leaf()
        else:
            k = d.int(1, 5)
            xs = [self.tree(d.int(1, 4)) for _ in range(k)]
            kids = [xs[i % k] for i in range(n)]
        return T(d.choice(self.tags), "", [self.copy(x) for x in kids])

    def deep(self, hi=180):
        d = self.d
        n = d.weighted((3, 20), (2, 60), (1, 120), (1, 180))
        n = min(n, hi)
        t = self.tree(d.int(1, 3))
        style = d.int(0, 2)
        for i in range(n):
            tag = d.choice(self.tags) if style == 1 else "apply"
            kids = [t] if style == 2 else [self.leaf(), t]
            t = T(tag, "", kids)
        return t

    def many_leaves(self, n):
        """A node whose leaves are n distinct numbers: makes index nodes with many children
        when several formulas share the prefix."""
        return T("cn", str(self.d.int(0, n)))

    def expr(self, shape=None):
        d = self.d
        shape = shape or d.weighted((10, "small"), (5, "medium"), (1, "large"), (1, "deep"),
                                    (1, "wide"))
        if shape == "small":
            t = self.tree(d.int(1, 7))
        elif shape == "medium":
            t = self.tree(d.int(5, 30))
        elif shape == "large":
            t = self.tree(d.int(30, 120))
        elif shape == "deep":
            t = self.deep()
        else:
            t = self.wide()
        return t

    def decorate(self, t):
        """Attributes and white space that do not count."""
        d = self.d
        for _, n in list(t.walk()):
            if n.kind != "c":
                continue
            if d.bool(0.1):
                n.attrs[d.choice(["xref", "id", "type", "cd"])] = d.choice(["p1", "a&b", "integer", "<"])
            if n.text and d.bool(0.1):
                n.text = d.choice([" ", "\n", "\t "]) + n.text + d.choice(["", " ", "\n"])
            n._canon = None
        return t

    NAMES = ["x", "y", "z", "f", "x y", "é", "a\"b", "<v>", "A", "x1", "1"]

    def query(self, corpus, ranges=False, maxvars=60, no_named=False):
        """A query: mostly a subterm of the corpus with parts replaced by variables."""
        d = self.d
        mode = d.weighted((6, "sub"), (2, "mutant"), (1, "fresh"), (1, "qvar"))
        if mode == "qvar":
            return T("mws:qvar", kind="v", name=d.choice([None, "x"]))
        if mode == "fresh" or not corpus:
            src = self.tree(d.int(1, 6))
        else:
            e = d.choice(corpus)
            subs = None
            if d.bool(0.5):
                src = e
            else:
                subs = [t for _, t in e.walk()]
                big = [t for t in subs if t.kids]
                src = d.choice(big) if big and d.bool(0.8) else d.choice(subs)
        if src.size() > 400:
            pass
        q = self.copy(src)
        q = self._abstract(q, maxvars, ranges, no_named)
        if mode == "mutant":
            nodes = [t for _, t in q.walk()]
            t = d.choice(nodes)
            how = d.int(0, 5)
            if t.kind == "c":
                if how == 0:
                    t.text = d.choice(self.texts)
                elif how == 1:
                    t.tag = d.choice(self.tags)
                elif how == 2 and t.kids:
                    del t.kids[d.int(0, len(t.kids) - 1)]
                elif how == 3 and len(t.kids) < 200:
                    t.kids.append(self.leaf())
                elif how == 4 and len(t.kids) > 1:
                    t.kids = d.shuffle(t.kids)
                else:
                    t.text = t.text + "q"
            t._canon = t._n = None
        names = set()
        for p, t in list(q.walk()):
            t._canon = t._n = None
            if t.kind == "v" and t.name and t.name not in names:
                if len(names) == 32:
                    t.name = None           # the encoding has 32 names
                else:
                    names.add(t.name)
        for t in [t for _, t in q.walk() if t.kind == "r"][32:]:
            t.kind = "v"
        return q

    def _abstract(self, q, maxvars, ranges, no_named):
        d = self.d
        nvars = d.weighted((4, 1), (3, 2), (2, 3), (2, 0), (1, 6), (1, 12))
        if d.bool(0.03):
            nvars = maxvars
        names = {}              # canon -> name
        given = set()
        used = 0
        for _ in range(nvars):
            spots = []
            for p, t in q.walk():
                for i, k in enumerate(t.kids):
                    if k.kind == "c":
                        spots.append((t, i))
            if not spots:
                break
            par, i = d.choice(spots)
            k = par.kids[i]
            k._canon = k._n = None
            if ranges and k.tag == "cn" and not k.kids and d.bool(0.6):
                par.kids[i] = self.range_for(k.text)
                continue
            if used >= maxvars:
                break
            used += 1
            how = d.weighted((4, "fresh"), (3, "same"), (2, "anon"), (1, "clash"))
            if len(given) >= 32:
                how = "anon"    # the encoding has 32 names
            if no_named and how in ("same", "clash"):
                how = "fresh"
            const = all(x.kind == "c" for _, x in k.walk())
            if how == "anon":
                par.kids[i] = T("mws:qvar", kind="v", name=None)
            elif how == "clash" and names:
                par.kids[i] = T("mws:qvar", kind="v", name=d.choice(list(names.values())))
            else:
                name = None
                c = k.canon() if const else None
                if how == "same" and c is not None and c in names:
                    name = names[c]
                if name is None:
                    base = d.choice(self.NAMES)
                    name = base
                    n = 0
                    while name in names.values():
                        n += 1
                        name = base + str(n)
                if c is not None:
                    names.setdefault(c, name)
                given.add(name)
                v = T("mws:qvar", kind="v", name=name)
                if d.bool(0.15) and name.strip(SPACES) == name and " " not in name:
                    v.attrs["_as_text"] = "1"
                par.kids[i] = v
                if how == "same" and c is not None:
                    # every other occurrence of the same subterm, too
                    for _, t in q.walk():
                        for j, k2 in enumerate(t.kids):
                            if used < maxvars + 3 and k2.kind == "c" and k2.size() == k.size() \
                               and all(x.kind == "c" for _, x in k2.walk()):
                                k2._canon = None
                                if k2.canon() is c and d.bool(0.8):
                                    t.kids[j] = T("mws:qvar", kind="v", name=name)
        return q

    def range_for(self, text):
        d = self.d
        try:
            v = float(text)
        except ValueError:
            v = 0.0

        def bound(lo):
            how = d.weighted((3, "around"), (2, "equal"), (2, "none"), (1, "bad"), (1, "other"))
            if how == "none":
                return None
            if how == "bad":
                return d.choice(["", "abc", "-", "x3", " "])
            if how == "equal":
                return repr(v) if v != int(v) or abs(v) > 1e15 else str(int(v))
            if how == "other":
                return d.choice(["0", "-5", "7", "-0.5", "1e2", "-1e2", "0.0"])
            delta = d.choice([0.5, 1, 10, 0.001, 1000, -0.5, -1])
            return repr(v - delta if lo else v + delta)
        return T("mws:range", kind="r", low=bound(True), high=bound(False))


# ---------------------------------------------------------------- answers

class Answer:
    """total, hits [(url, xpath, data)], qvars [(name, relative xpath)] or None, ids or None,
    substs (xml only): per hit [(name, absolute xpath)]"""
    pass


def parse_json_answer(body):
    try:
        j = json.loads(body.decode("utf-8"))
    except Exception as e:
        raise Violation("bad-json", "%r in %r" % (e, body[:600]))
    a = Answer()
    a.raw = j
    a.total = j["total"]
    a.qvars = [(q["name"], q["xpath"]) for q in j["qvars"]]
    a.hits = []
    for h in j["hits"]:
        if len(h["math_ids"]) != 1:
            raise Violation("json-shape", repr(h)[:300])
        a.hits.append((h["math_ids"][0]["url"], h["math_ids"][0]["xpath"], h["xhtml"]))
    return a


def parse_ids_answer(body):
    try:
        j = json.loads(body.decode("utf-8"))
    except Exception as e:
        raise Violation("bad-json", "%r in %r" % (e, body[:600]))
    a = Answer()
    a.raw = j
    a.total = j["total"]
    a.ids = j["ids"]
    a.size = j["size"]
    a.qvars = [(q["name"], q["xpath"]) for q in j["qvars"]]
    return a


def parse_xml_answer(body):
    try:
        # the XML parser normalises line ends; nothing else
        r = ET.fromstring(body)
    except Exception as e:
        raise Violation("bad-xml", "%r in %r" % (e, body[:600]))
    a = Answer()
    if not r.tag.endswith("}answset") or r.tag == "answset":
        raise Violation("xml-shape", r.tag)
    a.total = int(r.get("total"))
    a.size = int(r.get("size"))
    a.hits = []
    a.substs = []
    for ans in r:
        a.hits.append((ans.get("uri"), ans.get("xpath"),
                       "".join((x.text or "") for x in ans if x.tag.split("}")[-1] == "data")))
        a.substs.append([(s.get("qvar"), s.get("xpath")) for s in ans
                         if s.tag.split("}")[-1] == "substpair"])
    return a


def expected_hits(query, corpus):
    """corpus: [(url, data, Indexed)] -> Counter of (url, xpath), set of matching formulas"""
    hits = Counter()
    formulas = set()
    for url, data, ix in corpus:
        for c, path in ix.first.items():
            if match(query, c, {}) is not None:
                hits[(url, xpath(path))] += 1
                formulas.add(c)
    return hits, formulas
