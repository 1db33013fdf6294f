"""C23: the harvests the crawler stores."""
from crawllib import *
from xml.parsers import expat
from xml.sax.saxutils import escape, quoteattr as qa

MML = "http://www.w3.org/1998/Math/MathML"
CONTENT = ["apply", "ci", "cn", "plus", "eq", "csymbol", "times", "lambda", "bvar"]
PRES = ["mrow", "mi", "mn", "mo", "msup", "mfrac", "mtext"]
TEXTS = ["x", "y", "1", "42", "\u03b1", "a&b", "a<b", "f(x)", "-", "", "\u221e", "x > y", "]]",
         "\U0001d53c", "'\"", "  s  "]


class N:
    """An element: local name, text, children, attributes."""

    def __init__(self, name, text="", kids=(), attrs=()):
        self.name, self.text, self.kids, self.attrs = name, text, list(kids), list(attrs)

    def xml(self, pfx="", extra=""):
        n = pfx + self.name
        o = "<" + n + extra
        for k, v in self.attrs:
            o += " %s=%s" % (k, qa(v))
        if not self.text and not self.kids and len(self.name) % 2:
            return o + "/>"
        return o + ">" + escape(self.text).replace("]]>", "]]&gt;") + \
            "".join(k.xml(pfx) for k in self.kids) + "</%s>" % n

    def key(self):
        return (self.name, "".join(self.text.split()), tuple(k.key() for k in self.kids))


class Tree:
    """Well-formedness and content of a stored harvest, without namespaces."""

    def __init__(self, data):
        self.root = None
        self.stack = []
        p = expat.ParserCreate()
        p.StartElementHandler = self.start
        p.EndElementHandler = self.end
        p.CharacterDataHandler = self.text
        p.Parse(data, True)

    def start(self, name, attrs):
        e = [name, attrs, [], []]
        if self.stack:
            self.stack[-1][3].append(e)
        else:
            self.root = e
        self.stack.append(e)

    def end(self, name):
        self.stack.pop()

    def text(self, t):
        self.stack[-1][2].append(t)


def local(n):
    return n.split(":")[-1]


def key_of(e):
    return (local(e[0]), "".join("".join(e[2]).split()), tuple(key_of(k) for k in e[3]))


class G:
    def __init__(self, d):
        self.d = d
        self.k = 0
        self.uid = 0

    def tree(self, budget, tags):
        d = self.d
        if budget <= 1 or d.bool(0.4):
            return N(d.choice(tags), d.choice(TEXTS))
        kids = []
        for _ in range(d.int(1, 4)):
            kids.append(self.tree(budget // 3, tags))
        return N(d.choice(["apply", "mrow"] if tags is PRES else ["apply"]),
                 d.choice(["", "", "", "\n "]), kids)

    def ident(self):
        d = self.d
        self.k += 1
        return d.weighted((4, None), (4, "m%d" % self.k), (1, "S1.E%d.m1" % self.k), (1, "a&b%d" % self.k),
                          (1, "a'b"), (1, 'q"%d' % self.k), (1, "x y"), (1, "<%d>" % self.k),
                          (1, "\u00fc%d" % self.k))

    def math(self):
        d = self.d
        i = self.ident()
        attrs = []
        for _ in range(d.weighted((4, 0), (2, 1), (1, 2))):
            a = d.choice([("alttext", "x id=\"1\""), ("alttext", "a/b > c"), ("display", "block"),
                          ("class", "ltx"), ("xml:lang", "en"), ("data-id", "no"),
                          ("alttext", "<math>")])
            if a[0] not in [x[0] for x in attrs]:
                attrs.append(a)
        if i is not None:
            attrs.insert(d.int(0, len(attrs)), ("id", i))
        return i, attrs


def html_math(d, g):
    """(text, expected (id, key) or None)"""
    i, attrs = g.math()
    attrs = [(k, v) for k, v in attrs if v not in ("<math>",)]
    how = d.weighted((6, "content"), (4, "pres"), (3, "both"), (1, "empty"), (1, "self"), (1, "nested"),
                     (1, "deep"), (1, "entity"), (1, "unbalanced"))
    m = N("math", "", [], attrs)
    if how == "self":
        m = N("math", "", [], attrs)
        t = m.xml()
        if not t.endswith("/>"):
            t = t[:-len("></math>")] + d.choice(["/>", " />"])
        return t, (i, m.key())
    if how == "content":
        m.kids = [g.tree(d.choice([1, 4, 20]), CONTENT)]
    elif how == "pres":
        m.kids = [g.tree(d.choice([1, 4, 20]), PRES)]
    elif how == "both":
        m.kids = [N("semantics", "", [g.tree(6, PRES), N("annotation-xml", "", [g.tree(6, CONTENT)],
                                                        [("encoding", "MathML-Content")]),
                                      N("annotation", "x", [], [("encoding", "application/x-tex")])])]
    elif how == "nested":
        m.kids = [N("mtext", "t", [N("math", "", [g.tree(3, PRES)], [])]), g.tree(3, PRES)]
    elif how == "deep":
        n = d.choice([50, 200, 240])
        t = N("ci", "x")
        for _ in range(n):
            t = N("apply", "", [t])
        m.kids = [t]
    elif how == "entity":
        return "<math><mi>&nbsp;</mi></math>", None
    elif how == "unbalanced":
        return "<math><mi>x</mrow></math>", None
    ns = d.choice(["", "", ' xmlns="%s"' % MML])
    t = m.xml("", ns)
    if i is not None and d.bool(0.2) and "'" not in i and '"' not in i and "&" not in i and "<" not in i:
        t = t.replace(' id="%s"' % i, d.choice([" id='%s'", "\n  id = \"%s\"", "\tid='%s'"]) % i, 1)
    if d.bool(0.1):
        t = t.replace("><", ">\n<!-- c --><", 1)
    return t, (i, m.key())


def xhtml_math(d, g, pfx):
    i, attrs = g.math()
    n = d.weighted((8, 1), (1, 0), (1, 2))
    cs = [g.tree(d.choice([1, 4, 20]), CONTENT) for _ in range(n)]
    how = d.weighted((8, "ok"), (1, "nosem"), (1, "other"), (1, "presonly"))
    enc_ = "MathML-Content" if how != "other" else "MathML-Presentation"
    ax = N("annotation-xml", "", cs, [("encoding", enc_)])
    if how == "presonly":
        m = N("math", "", [g.tree(4, PRES)], attrs)
    elif how == "nosem":
        m = N("math", "", [ax], attrs)
    else:
        kids = [g.tree(5, PRES), ax, N("annotation", "x", [], [("encoding", "TeX")])]
        m = N("math", "", [N("semantics", "", kids)], attrs)
    want = [(i, c.key()) for c in cs] if how == "ok" else []
    ns = "" if pfx[1] == "root" else \
        (' xmlns="%s"' % MML if pfx[0] == "" else ' xmlns:%s="%s"' % (pfx[0][:-1], MML))
    return m.xml(pfx[0], ns), want


GARBAGE = ["</math>", "</math></math>", "<br/>", "<img src='a.png'/>", "<math", "<p>text</p>", "&nbsp;",
           "<mathx></mathx>", "<!-- c -->", "x < y", "</p>", "<mi>x</mi>", "<hr/><hr/>"]
OPEN = ["<math>", "<math id='u'>", "<math><mi>x</mi>"]


def gen_page(d, g, kind, n):
    """(content, [(id, key)])"""
    want = []
    parts = []
    if kind == "html":
        for _ in range(n):
            t, w = html_math(d, g)
            parts.append(t)
            if w is not None:
                want.append(w)
            while d.bool(0.25):
                parts.append(d.choice(GARBAGE if d.bool(0.7) else GARBAGE[:2]))
        if d.bool(0.12):
            # never closed: it swallows nothing that follows
            parts = [p for p in parts if p not in GARBAGE[:2]]
            parts.insert(d.int(0, len(parts)), d.choice(OPEN))
        if d.bool(0.1):
            parts.append("<math id='never")
        parts = [p if p != "<math" else "&lt;math" for p in parts]
        body = "<html><body>%s%s</body></html>" % ("$LINKS", "\n".join(parts))
        return body.replace("<mathx></mathx>", "<mathe></mathe>"), want, "utf-8"
    pfx = d.choice([("", "math"), ("", "math"), ("m:", "root"), ("m:", "math"), ("mml:", "root"),
                    ("mml:", "math")])
    for _ in range(n):
        t, w = xhtml_math(d, g, pfx)
        parts.append("<p>" + t + "</p>")
        want += w
    bad = d.bool(0.08)
    if bad:
        want = []
        parts.append(d.choice(["<p>", "&undefined;", "</div>", "<p a=b/>", "\x01"]))
    coding = d.weighted((6, "utf-8"), (1, "utf-16"), (1, "iso-8859-1"), (1, "none"))
    decl = '<?xml version="1.0"%s?>\n' % ("" if coding == "none" else ' encoding="%s"' % coding)
    root = ' xmlns:%s="%s"' % (pfx[0][:-1], MML) if pfx[0] else ""
    body = decl + '<html xmlns="http://www.w3.org/1999/xhtml"%s><head><title>t</title></head><body>' \
        "%s%s</body></html>" % (root, "$LINKS", "\n".join(parts))
    return body, want, "utf-8" if coding == "none" else coding


def gen(d):
    g = G(d)
    crawls = []
    for c in range(d.weighted((3, 1), (2, 2), (1, 3))):
        pages = []
        np = d.weighted((2, 1), (3, 3), (1, 6))
        for k in range(np):
            kind = d.choice(["html", "html", "xhtml"])
            body, want, coding = gen_page(d, g, kind, d.weighted((2, 0), (3, 1), (3, 3), (1, 10)))
            ctype = {"html": "text/html", "xhtml": "application/xhtml+xml"}[kind]
            ctype += d.choice(["", "", ";charset=utf-8", "; charset=\"utf-8\""])
            if d.bool(0.06):
                ctype, want = d.choice(["text/plain", "application/pdf", None, "image/png"]), []
            q = d.choice(["", "", "?a=1&b=2", "?x=<y>", "?q=%22", "?v=1"])
            pages.append(("/c%dp%d%s" % (c, k, q), ctype, body, want, coding,
                          d.choice(["", "", "", "lower"])))
        crawls.append(pages)
    sub = d.choice(["d", "d", "d", "a b"])
    return {"crawls": crawls, "sub": sub, "load": d.bool(0.04)}


def target(t):
    return t.replace("<", "%3C").replace(">", "%3E")


def stored(ddir):
    """[(url, key)] of all files of the directory; every one has to be a harvest."""
    out = []
    for n in sorted(os.listdir(ddir)):
        if not n.endswith(".xml"):
            raise Violation("file-name", n)
        data = open(os.path.join(ddir, n), "rb").read()
        try:
            t = Tree(data).root
        except expat.ExpatError as e:
            raise Violation("malformed-harvest", "%s: %s in %r" % (n, e, data[:1500]))
        if t[0] != "mws:harvest":
            raise Violation("not-a-harvest", t[0])
        for e in t[3]:
            if e[0] != "mws:expr" or len(e[3]) != 1 or "url" not in e[1]:
                raise Violation("not-a-harvest", "%s %s with %d children" % (e[0], e[1], len(e[3])))
            out.append((e[1]["url"], key_of(e[3][0])))
    return out


def compare(got, want):
    got, want = Counter(got), Counter(want)
    if got != want:
        if want - got:
            kind = "lost"
        else:
            kind = "made-up"
        raise Violation(kind, diff_counter(want, got, 2)[:3000])


def run(case, env, st):
    site = env.site
    base = env.scratch.fresh("d")
    ddir = os.path.join(base, case["sub"])
    os.mkdir(ddir)
    want = []
    try:
        for pages in case["crawls"]:
            site.pages = {}
            links = "".join("<a href=\"%s\">l</a>" % escape(p[0]) for p in pages[1:])
            for i, (t, ctype, body, w, coding, how) in enumerate(pages):
                body = body.replace("$LINKS", links if i == 0 else "")
                data = body.encode(coding, "xmlcharrefreplace")
                site.pages[target(t)] = (200, ctype, data, how)
            site.log = []
            me = "http://127.0.0.1:%d" % site.port
            env.crawl(me + pages[0][0], None, ddir)
            seen = [t for _, t in site.log]
            for t, ctype, body, w, coding, how in pages:
                if target(t) in seen:
                    for i, key in w:
                        want.append((me + target(t) + ("#" + i if i is not None else ""), key))
            if any(p[2].count("</a>") for p in pages[:1]) and len(seen) != len(pages) + 1:
                st.count("pages not reached")
        got = stored(ddir)
        st.evaluated()
        compare(got, want)
        st.count("crawls", len(case["crawls"]))
        st.max("formulas", len(want))
        if case["load"] and want:
            roots = loaded(env, ddir)
            if roots != len(want):
                raise Violation("not-loadable", "%d formulas stored, %d loaded" %
                                (len(want), roots))
            st.count("loaded into mwsd")
        if want:
            st.nontriv(sorted(want)[:50], {"formulas": len(want), "first": repr(want[0])[:300]})
    finally:
        env.scratch.drop(base)


def loaded(env, ddir):
    """How many expressions mwsd reads from the stored harvests."""
    d = start([env.bin("mwsd"), "-I", ddir, "-e", "xml"], worker=env.w)
    try:
        hits = ask(d, T("qvar", "", kind="v", name="x"), answsize=100000).hits
        return len([1 for h in hits if h[1] == "/*[1]"])
    finally:
        d.kill()


def describe(case):
    o = []
    for pages in case["crawls"]:
        o.append("=== crawl")
        for t, ctype, body, w, coding, how in pages:
            o.append("--- %s %s %s %s (expected %d)\n%s" % (t, ctype, coding, how, len(w), body[:4000]))
    return "\n".join(o)


# ---------------------------------------------------------------- hostile pages

FRAG = ["<math", "<math>", "</math>", "<math/>", "<math id=", "<math id=\"", "<math id='x", " id=", ">",
        "/>", "<", "\"", "'", "&", "&amp;", "<mi>", "</mi>", "<m:math>", "<annotation-xml>",
        "<annotation-xml encoding='MathML-Content'>", "<semantics>", "<a href='", "<a href=\"/x\">",
        "</a>", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version='1.0'?>", "<!DOCTYPE html>",
        "</mws:expr>", "</mws:harvest>", "<mws:expr url='x'>", "\0", "\xff", "\r\n", "x", " ", "\t",
        "<script>", "</script>", "<style>", "%s%n", "<A", "=", "<apply/>", "<ci>x</ci>",
        "<m:math xmlns:m='%s'><m:semantics><m:annotation-xml encoding='MathML-Content'>" % MML]
GOOD = "<html><body>$LINKS<math id='g%d'><apply><plus/><ci>x</ci><cn>%d</cn></apply></math></body></html>"


def gen_hostile(d):
    pages = []
    for k in range(d.int(1, 5)):
        g = G(d)
        how = d.weighted((4, "frag"), (2, "mutate"), (1, "big"), (1, "many"), (1, "bytes"),
                         (0.15, "deep"))
        if how == "frag":
            body = "".join(d.choice(FRAG) for _ in range(d.weighted((3, 8), (2, 40), (1, 300))))
        elif how == "big":
            body = d.choice(FRAG) * d.choice([1000, 5000, 20000])
        elif how == "deep":
            n = d.int(245, 262)
            body = "<math>" + "<apply>" * n + "</apply>" * n + "</math>"
        elif how == "many":
            body = "".join(d.choice(FRAG[:6]) for _ in range(d.choice([1000, 3000])))
        elif how == "bytes":
            body = "".join(chr(d.int(0, 255)) for _ in range(d.int(0, 200)))
        else:
            body, _, _ = gen_page(d, g, d.choice(["html", "xhtml"]), 3)
            body = list(body)
            for _ in range(d.int(1, 8)):
                i = d.int(0, max(0, len(body) - 1))
                op = d.int(0, 2)
                if op == 0:
                    del body[i:i + d.int(1, 12)]
                elif op == 1:
                    body.insert(i, d.choice(FRAG))
                elif body:
                    body[i] = chr(d.int(0, 255))
            body = "".join(body)
        pages.append((d.choice(["text/html", "text/html", "application/xhtml+xml", None, "x"]), body))
    return pages


def run_hostile(case, env, st):
    site = env.site
    base = env.scratch.fresh("h")
    me = "http://127.0.0.1:%d" % site.port
    try:
        site.pages = {}
        urls = []
        for i, (ctype, body) in enumerate(case):
            site.pages["/h%d" % i] = (200, ctype, body.replace("$LINKS", "").encode("latin-1", "replace"),
                                      "")
            site.pages["/g%d" % i] = (200, "text/html", (GOOD % (i, i)).replace("$LINKS", ""), "")
            urls += ["/h%d" % i, "/g%d" % i]
        links = "".join("<a href='%s'>l</a>" % u for u in urls)
        site.pages["/"] = (200, "text/html", (GOOD % (99, 99)).replace("$LINKS", links), "")
        env.crawl(me + "/", 400, base, timeout=60)
        got = stored(base)
        st.evaluated()
        want = []
        for k in [99] + list(range(len(case))):
            want.append((me + ("/" if k == 99 else "/g%d" % k) + "#g%d" % k,
                         ("math", "", (("apply", "", (("plus", "", ()), ("ci", "x", ()),
                                                      ("cn", str(k), ()))),))))
        c = Counter(got)
        for w in want:
            if c[w] != 1:
                raise Violation("lost-beside-hostile", "%s stored %d times" % (w, c[w]))
        n = len(got) - len(want)
        if any(body.startswith("<math><apply><apply><apply>") for _, body in case):
            roots = loaded(env, base)
            st.count("nested to the limit of the XML parser")
            if roots != len(got):
                raise Violation("not-loadable", "%d formulas stored, %d loaded" % (len(got), roots))
        st.count("formulas of hostile pages", n)
        st.nontriv(repr(case), {"page": case[0][1][:200], "formulas of hostile pages": n})
    finally:
        env.scratch.drop(base)


# ---------------------------------------------------------------- many formulas

def gen_many(d):
    return {"pages": [(d.choice(["html", "xhtml"]), d.choice([10, 1000, 2500, 4999, 5000, 5001, 7000]))
                      for _ in range(d.int(1, 4))]}


def run_many(case, env, st):
    site = env.site
    base = env.scratch.fresh("m")
    me = "http://127.0.0.1:%d" % site.port
    try:
        site.pages = {}
        want = []
        for i, (kind, n) in enumerate(case["pages"]):
            links = "".join("<a href='/m%d'>l</a>" % j for j in range(1, len(case["pages"]))) \
                if i == 0 else ""
            if kind == "html":
                parts = "".join("<math id='i%d'><cn>%d</cn></math>" % (k, k) for k in range(n))
                site.pages["/m%d" % i] = (200, "text/html", "<html>" + links + parts + "</html>", "")
                f = lambda k: ("math", "", (("cn", str(k), ()),))
            else:
                parts = "".join('<math xmlns="%s" id="i%d"><semantics><annotation-xml encoding='
                                '"MathML-Content"><cn>%d</cn></annotation-xml></semantics></math>' %
                                (MML, k, k) for k in range(n))
                site.pages["/m%d" % i] = (200, "application/xhtml+xml",
                                          "<html>" + links + parts + "</html>", "")
                f = lambda k: ("cn", str(k), ())
            want += [(me + "/m%d#i%d" % (i, k), f(k)) for k in range(n)]
        env.crawl(me + "/m0", None, base, timeout=200)
        got = stored(base)
        st.evaluated()
        st.max("formulas in a crawl", len(want))
        st.max("harvest files", len(os.listdir(base)))
        compare(got, want)
        st.nontriv(case["pages"], {"pages": case["pages"], "files": len(os.listdir(base))})
    finally:
        env.scratch.drop(base)


class Env(Crawl):
    def bin(self, n):
        return os.path.join(self.b, n)


if __name__ == "__main__":
    b = make()
    env = lambda w: Env(w, b)
    sys.exit(Check("C23", "random HTML and XHTML pages with known math (presentation, content, "
                   "nested, self-closing, empty, deep, with every kind of id) between stray and "
                   "unclosed tags, crawled once or several times into one directory: the stored "
                   "files are parsed and their formulas compared with the generated ones. Hostile "
                   "pages between good ones, and crawls with more formulas than fit in one file. "
                   "Non-trivial: a case with formulas, distinct formulas (pages).",
                   [Part("pages", gen, run, 6000, 90000, env, describe=describe, share=0.5),
                    Part("hostile", gen_hostile, run_hostile, 3500, 80000, env, share=0.3),
                    Part("many", gen_many, run_many, 24, 300, env, share=0.2)]).main())
