"""Documents with mathematics in them, as XHTML and as HTML."""
from searchlib import *
import re
import xml.parsers.expat

TEXTWORDS = ["alpha", "the", "x", "math", "math3", "é", "a&b", "<", "1", "-", "Satz", "\"q\"", "𝒳"]
IDS = ["m1", "m2", "S1.p2.m3", "id0", "a-b", "m1.1"]
ODDIDS = ["a&b", "é", "x y", 'a"b', "<", "m#1", "'", "a/b?c=d&e=f"]
CHARREF = {"é": ["&#233;", "&#xE9;"], "α": ["&#945;"]}


class Math:
    def __init__(self, mid, content, pres, style, inner=None):
        self.id = mid               # None: no id attribute
        self.content = content      # None: no content
        self.pres = pres
        self.style = style
        self.inner = inner          # a formula inside the presentation


class El:
    def __init__(self, tag, attrs, kids):
        self.tag, self.attrs, self.kids = tag, attrs, kids


class Doc:
    pass


def gen_doc(d, g, html=None, nmath=None, oddids=None):
    doc = Doc()
    doc.html = d.bool(0.4) if html is None else html
    doc.pfx = d.choice(["", "m:", "mml:"])
    doc.nsroot = d.bool()
    doc.noise = d.bool(0.2)
    doc.charref = d.bool(0.2)
    doc.dtd = "" if doc.html else d.weighted((6, ""), (1, "internal"), (1, "external"))
    odd = d.bool(0.15) if oddids is None else oddids
    same = d.bool(0.1)
    seen = []

    def new_id():
        if d.bool(0.15):
            return None
        if same and seen and d.bool(0.4):
            return d.choice(seen)
        base = d.choice(IDS + ODDIDS if odd else IDS)
        i = base
        n = 1
        while i in seen:
            n += 1
            i = base + str(n)
        seen.append(i)
        return i

    def math(depth=0):
        t = None
        if d.bool(0.85):
            t = g.decorate(g.expr(d.choice(["small", "small", "medium"])))
        inner = math(1) if depth == 0 and d.bool(0.06) else None
        return Math(new_id(), t, d.int(0, 3), d.weighted((5, "semantics"), (1, "direct"),
                                                        (1, "tex first")), inner)

    def words():
        return " ".join(d.list(0, 5, lambda: d.choice(TEXTWORDS), n=2))

    def block(depth):
        k = d.weighted((4, "text"), (4, "math"), (3, "el"), (1, "br"), (1, "comment"))
        if k == "math":
            return math()
        if k == "el" and depth < 3:
            tag = d.choice(["p", "div", "span", "b", "td"]) if not doc.html else \
                d.choice(["div", "span", "b"])
            return El(tag, {}, d.list(0, 4, lambda: block(depth + 1), n=2))
        if k == "br":
            return El("br", {}, None)
        if k == "comment":
            return ("comment", d.choice(["", " x ", " <math id='q'></math> "]))
        return words()

    doc.title = words()
    doc.meta = d.choice(["urn:1", "http://h/d?x=1&y=2", "é", "Doc 1"]) if d.bool(0.6) else None
    body = d.list(0, 8, lambda: block(0), n=nmath)
    review = El("div", {"class": "review"}, d.list(0, 4, lambda: block(1), n=2)) \
        if d.bool(0.6) else None
    doc.review = review
    if review is not None:
        body.insert(d.int(0, len(body)), review)
    if d.bool(0.2):
        body.append(El("br", {}, None))
    doc.body = El("body", {}, body)
    doc.lang = d.bool(0.3)
    return doc


def esc(s, doc):
    s = escape(s)
    if doc.charref:
        s = s.replace("é", "&#233;").replace("𝒳", "&#x1d4b3;")
    if doc.html and doc.noise:
        s = s.replace("é", "&eacute;")
    if doc.dtd == "internal":
        s = s.replace("Satz", "S&at;z").replace("é", "&eacute;")
    return s


def render_math(m, doc):
    p = doc.pfx
    ns = ""
    if not doc.nsroot and (doc.pfx or not doc.html):
        ns = ' xmlns%s="%s"' % (":" + p[:-1] if p else "", MML_NS)
    a = "" if m.id is None else " id=%s" % quoteattr(m.id)
    pres = "<%smrow>%s</%smrow>" % (p, "".join("<%smi>y%d</%smi>" % (p, i, p)
                                              for i in range(m.pres)) +
                                    (render_math(m.inner, doc) if m.inner else ""), p)
    tex = '<%sannotation encoding="application/x-tex">x &lt; y</%sannotation>' % (p, p)
    cont = ""
    if m.content is not None:
        c = m.content.xml(p)
        if doc.dtd and not doc.html:
            # in texts only: attribute values have none of these
            c = re.sub(r">([^<>]+)<", lambda r: ">" + r.group(1).replace("é", "&eacute;")
                       .replace("x", "&x;" if doc.dtd == "internal" else "x") + "<", c)
        if doc.noise:
            c = noisy(c, doc)
        cont = '<%sannotation-xml encoding="MathML-Content">%s</%sannotation-xml>' % (p, c, p)
    if m.style == "direct":
        inner = cont + pres
    elif m.style == "tex first":
        inner = "<%ssemantics>%s%s%s</%ssemantics>" % (p, pres, tex, cont, p)
    else:
        inner = "<%ssemantics>%s%s%s</%ssemantics>" % (p, pres, cont, tex, p)
    return "<%smath%s%s>%s</%smath>" % (p, a, ns, inner, p)


def noisy(c, doc):
    """Comments and processing instructions, which do not count, after every second tag."""
    out = []
    n = 0
    for part in re.split(r"(<[^>]*>)", c):
        out.append(part)
        if part.startswith("</") and part != c:
            n += 1
            if n % 3 == 0:
                out.append("<!-- c -->" if not doc.html else "<!-- a -- b -->")
            elif n % 3 == 1 and not doc.html:
                out.append("<?pi x?>")
    if out and out[-1].startswith(("<!--", "<?")):
        out.pop()
    return "".join(out)


def render(n, doc):
    if isinstance(n, str):
        return esc(n, doc) + ("\n" if doc.noise else " ")
    if isinstance(n, tuple):
        return "<!--%s-->" % n[1]
    if isinstance(n, Math):
        return render_math(n, doc)
    a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in n.attrs.items())
    tag = n.tag.upper() if doc.html and doc.lang else n.tag
    if n.kids is None:
        return "<%s>" % tag if doc.html else "<%s/>" % tag
    return "<%s%s>%s</%s>" % (tag, a, "".join(render(k, doc) for k in n.kids), tag)


def render_doc(doc):
    head = "<title>%s</title>" % esc(doc.title, doc)
    end = "" if doc.html else "/"
    if doc.meta is not None:
        head += '<meta name="id" content=%s%s>' % (quoteattr(doc.meta), end)
    body = render(doc.body, doc)
    if doc.html:
        ns = ' xmlns:%s="%s"' % (doc.pfx[:-1], MML_NS) if doc.nsroot and doc.pfx else ""
        return "<!DOCTYPE html>\n<html%s><head><meta name=viewport content=w>%s</head>%s</html>" % (
            ns, head, body)
    dtd = ""
    if doc.dtd == "external":
        dtd = '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.1 plus MathML 2.0//EN" ' \
            '"http://127.0.0.1:1/none.dtd">\n'
    elif doc.dtd == "internal":
        dtd = '<!DOCTYPE html [<!ENTITY at "at"> <!ENTITY x "x"> <!ENTITY eacute "&#233;">]>\n'
    ns = ' xmlns="http://www.w3.org/1999/xhtml"' if doc.lang or not doc.pfx else ""
    if doc.nsroot and doc.pfx:
        ns += ' xmlns:%s="%s"' % (doc.pfx[:-1], MML_NS)
    return '<?xml version="1.0" encoding="UTF-8"?>\n%s<html%s><head>%s</head>%s</html>' % (
        dtd, ns, head, body)


def maths(n):
    """The math elements in document order; those within others come after them."""
    if isinstance(n, Math):
        yield n
        if n.inner:
            yield from maths(n.inner)
    elif isinstance(n, El) and n.kids:
        for k in n.kids:
            yield from maths(k)


def content_of(m):
    """Content MathML: that of the first annotation in document order."""
    if m.style == "direct" and m.content is not None:
        return m.content
    if m.inner is not None:
        c = content_of(m.inner)
        if c is not None:
            return c
    return m.content


def text_of(n):
    """Words and math elements with an id, in order."""
    if isinstance(n, str):
        return n.split()
    if isinstance(n, Math):
        return [n] if n.id is not None else []
    if isinstance(n, El) and n.kids:
        return [w for k in n.kids for w in text_of(k)]
    return []


# ---------------------------------------------------------------- reading harvests

class Node:
    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids, self.text = tag, attrs, [], ""

    def all(self, tag):
        return [k for k in self.kids if k.tag == tag]


def parse_xml(data, what="harvest", lenient=False):
    """The root element; lenient: the text may go on with something that is not XML."""
    root = Node("", {})
    stack = [root]
    p = xml.parsers.expat.ParserCreate()

    def start(n, a):
        e = Node(n, a)
        stack[-1].kids.append(e)
        stack.append(e)

    def chars(s):
        stack[-1].text += s
    p.StartElementHandler = start
    p.EndElementHandler = lambda n: stack.pop()
    p.CharacterDataHandler = chars
    try:
        p.Parse(data, True)
    except xml.parsers.expat.ExpatError as e:
        i = p.ErrorByteIndex
        if lenient and root.kids:
            return root.kids[0]
        raise Violation("not-well-formed", "%s: %s at %r" % (what, e, data[max(0, i - 150):i + 60]))
    return root.kids[0]


def tree_of(node):
    """(tag, text without space, attributes, kids)"""
    return (node.tag, node.text.translate({ord(c): None for c in SPACES}),
            tuple(sorted((k, v) for k, v in node.attrs.items() if not k.startswith("xmlns"))),
            tuple(tree_of(k) for k in node.kids))


def tree_of_T(t, html=False):
    return (t.tag, t.text.translate({ord(c): None for c in SPACES}),
            tuple(sorted((k, v) for k, v in t.attrs.items()
                         if k not in ("id", "xref") and not k.startswith("_"))),
            tuple(tree_of_T(k) for k in t.kids))
