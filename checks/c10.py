"""C10: any request body gets one clean answer and the daemon lives on."""
from searchlib import *
import re
from refxml import Prefix

MAXDEPTH = 256
HEAD = '<mws:query xmlns:mws="%s" xmlns:m="%s"' % (MWS_NS, MML_NS)
ATTRS = [' answsize="%s"', ' limitmin="%s"', ' totalreq="%s"', ' output="%s"',
         ' schema_depth="%s"', ' cutoff_mode="%s"', ' foo="%s"', ' m:bar="%s"']
VALUES = {0: ["0", "1", "5", "-1", "abc", "", "4294967296", "99999999999999999999999", "-2147483649",
              " 7", "1e3", "0x10", "2147483648"],
          1: ["0", "1", "-1", "-5", "99999999999", "x", "4294967295", "4294967297"],
          2: ["yes", "no", "1", "0", "", "maybe"],
          3: ["xml", "json", "mws-ids", "", "XML", "html", "&lt;", "&#10;"],
          4: ["0", "1", "2", "3", "-1", "255", "256", "300", "1000000", "abc", ""],
          5: ["A", "R", "", "absolute", "Relative", "x", "&#xe9;"],
          6: ["1", "a&amp;b"], 7: ["1"]}


def attrs(d):
    out = ""
    for i in range(len(ATTRS)):
        if d.bool(0.12 if i >= 6 else 0.3):
            out += ATTRS[i] % d.choice(VALUES[i])
    return out


def odd_term(d, depth=3):
    """Terms no normal client sends."""
    k = d.weighted((3, "qkids"), (2, "rkids"), (2, "manyvars"), (2, "manyanon"), (2, "manyranges"),
                   (1, "wide"), (1, "deep"), (2, "bounds"), (1, "nested"), (1, "text"), (1, "prefix"))
    inner = (lambda: odd_term(d, depth - 1)) if depth > 0 else (lambda: "<m:ci>x</m:ci>")
    if k == "qkids":
        return "<mws:qvar%s>%s</mws:qvar>" % (
            d.choice(["", " name='x'", " name=''", " xref='a' name='y'"]),
            "".join(d.list(1, 3, inner)))
    if k == "rkids":
        return "<mws:range%s>%s</mws:range>" % (d.choice(["", " low='1'"]),
                                                "".join(d.list(1, 3, inner)))
    if k in ("manyvars", "manyanon", "manyranges"):
        n = d.weighted((3, 33), (2, 32), (1, 31), (1, 34), (1, 65), (1, 97), (1, 129), (1, 200),
                       (1, 255), (1, 257))
        one = {"manyvars": lambda i: "<mws:qvar name='v%d'/>" % i,
               "manyanon": lambda i: "<mws:qvar/>",
               "manyranges": lambda i: "<mws:range low='%d'/>" % -i}[k]
        if d.bool(0.3):
            return "<m:apply>" * (n % 200) + "<m:ci>x</m:ci>" + "</m:apply>" * (n % 200)
        return "<m:apply>" + "".join(one(i) for i in range(n)) + "</m:apply>"
    if k == "wide":
        return "<m:apply>" + "<m:ci>x</m:ci>" * d.choice([255, 256, 257, 3000]) + "</m:apply>"
    if k == "deep":
        n = d.choice([100, 200, 250, 254, 255, 256, 300, 5000])
        return "<m:apply>" * n + "<mws:qvar>a</mws:qvar>" + "</m:apply>" * n
    if k == "bounds":
        return "<m:apply>" + "".join("<mws:range low='%s' high='%s'/>" % (
            d.choice(["", "nan", "inf", "-inf", "1e999", "abc", "0x1p3", "-1e-400", " 3"]),
            d.choice(["", "nan", "inf", "1e999", "-1e999", "5", "&#9;2"]))
            for _ in range(d.int(1, 3))) + "</m:apply>"
    if k == "nested":
        return d.choice(["<mws:query><mws:expr>%s</mws:expr></mws:query>",
                         "<mws:expr>%s</mws:expr>", "<mws:harvest>%s</mws:harvest>",
                         "<m:semantics>%s</m:semantics>"]) % inner()
    if k == "text":
        return "<m:ci>%s</m:ci>" % d.choice(
            ["&amp;&lt;", "&#x10FFFF;", "x" * 5000, "<![CDATA[<x>]]>", "<!-- c -->", "\u00e9\u6f22",
             "a#b", "#", "&quot;", "\t\n"])
    return "<%s%s/>" % (d.choice(["m:m:ci", "m:mws:qvar", "mml:ci", "m:", "x:y", "_", "m:mws:range"]),
                        d.choice(["", " name='a'", " low='2'"]))


def query_text(d, g, corpus):
    n = d.weighted((8, 1), (1, 0), (1, 2), (1, 5))
    terms = []
    for _ in range(n):
        k = d.weighted((3, "query"), (3, "odd"), (1, "empty"), (1, "two"))
        if k == "query":
            t = g.query(corpus, ranges=True).xml("m:")
        elif k == "odd":
            t = odd_term(d)
            if d.bool(0.4):
                t = "<m:apply>" + t + g.query(corpus).xml("") + "</m:apply>"
        elif k == "empty":
            t = ""
        else:
            t = g.query(corpus).xml("m:") + odd_term(d, 0)
        terms.append("<mws:expr%s>%s</mws:expr>" % (d.choice(["", "", " url='x'"]), t))
    junk = lambda: d.choice(["", "", "", " ", "text", "<junk><a/></junk>", "<!-- -->", "<?p i?>"])
    pro = d.choice(["", "", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n',
                    "<!-- x -->", "<!DOCTYPE mws:query>"])
    return pro + HEAD + attrs(d) + ">" + "".join(t + junk() for t in terms) + "</mws:query>" + junk()


JUNK = [b"", b"\x00", b" ", b"\n", b"<", b"<a/>", b"<mws:query/>", b"<mws:query></mws:query>",
        b"<mws:query><mws:expr/></mws:query>", b"<mws:expr><m:ci/></mws:expr>", b"{}", b"\xff" * 50,
        b"<x><mws:query><mws:expr><m:ci/></mws:expr></mws:query></x>", b"<mws:query", b"&", b"]]>",
        b"<!DOCTYPE a [<!ENTITY b 'c'><!ENTITY d '&b;&b;&b;'>]><mws:query><mws:expr>&d;</mws:expr>"
        b"</mws:query>",
        b"<!DOCTYPE a SYSTEM 'file:///etc/passwd'><mws:query><mws:expr><m:ci>&x;</m:ci></mws:expr>"
        b"</mws:query>", b"<?xml version='1.0' encoding='UTF-16'?><mws:query/>",
        b"<mws:query>" * 400, b"\xef\xbb\xbf<mws:query><mws:expr><m:ci/></mws:expr></mws:query>",
        b"A" * 100000, b"<mws:query a='" + b"x" * 70000 + b"'/>",
        b"<?xml version='1.0' encoding='ISO-8859-1'?><mws:query><mws:expr><m:ci>\xe9</m:ci></mws:expr>"
        b"</mws:query>"]


def body(d, g, corpus):
    k = d.weighted((8, "query"), (3, "mutant"), (1, "junk"), (1, "bytes"), (1, "fault"))
    if k == "junk":
        return d.choice(JUNK)
    if k == "bytes":
        return bytes(d.list(0, 60, lambda: d.int(0, 255)))
    b = query_text(d, g, corpus).encode("utf-8")
    if k == "query":
        return b
    if k == "fault":
        i = d.int(0, len(b))
        return d.choice([b[:i], b[:i] + d.choice(
            [b"<", b"&", b"&nope;", b"</m:ci>", b"\x01", b"\xff", b"\x00", b"</mws:query>",
             b"</mws:expr>", b"]]>", b"<m:ci a=''a=''/>"]) + b[i:]])
    for _ in range(d.weighted((3, 1), (2, 3), (1, 8))):
        i = d.int(0, max(0, len(b) - 1))
        j = min(len(b), i + d.int(1, 30))
        m = d.int(0, 4)
        if m == 0:
            b = b[:i] + bytes([d.int(0, 255)]) + b[i + 1:]
        elif m == 1:
            b = b[:i] + b[j:]
        elif m == 2:
            b = b[:j] + b[i:j] + b[j:]
        elif m == 3:
            b = b[:i] + bytes([d.choice(b"<>&/'\"= !?-[];:m")]) + b[i:]
        else:
            b = b[:i] + d.choice([b"<mws:qvar/>", b"<mws:expr>", b"</mws:expr>", b"<mws:range/>",
                                  b"&amp;", b"<mws:qvar>", b"</mws:qvar>"]) + b[i:]
    return b


def gen(d):
    g = Gen(d, ntags=d.int(2, 6), weird=False)
    files, corpus = gen_corpus(d, g)
    kind = d.weighted((4, "mem"), (3, "disk"), (4, "schema"), (1, "ci"))
    bodies = d.list(1, 40, lambda: body(d, g, corpus), n=25)
    probes = d.list(1, 3, lambda: g.query(corpus), n=2)
    return files, kind, bodies, probes


def odd_for_expat(b, r):
    low = b[:200].lower()
    return b"encoding" in low and b'encoding="utf-8"' not in low or b"<!DOCTYPE" in b or \
        b"<?xml" in low and b'version="1.0"' not in low or r.maxdepth >= MAXDEPTH or \
        b[:2] in (b"\xff\xfe", b"\xfe\xff") or b"\x00" in b or \
        re.search(rb"<\?[^\s?]*:", b) is not None


def settled(t):
    """Within the documented limits of the encoder, and no bounds the property leaves open."""
    names = set()
    ranges = anon = 0
    for _, x in t.walk():
        if x.kind == "v":
            if x.name:
                names.add(x.name)
            else:
                anon += 1
        elif x.kind == "r":
            ranges += 1
            for bnd in (x.low, x.high):
                if bnd is not None and reads_as_number(bnd.strip(SPACES)) is NotImplemented:
                    return False
    return len(names) <= 32 and ranges <= 32


def run(case, env, st):
    files, kind, bodies, probes = case
    corpus = corpus_of(files)
    with Case(env):
        if kind == "schema":
            dmn = env.schemad()
        else:
            h = env.write_files([f.xml() for f in files])
            dmn = env.disk(env.index(h)) if kind == "disk" else \
                env.mem(h, ["-c"] if kind == "ci" else [])
        texts = [query_xml(q, output=o) for q in probes for o in ("json", "xml")]
        first = [normal(dmn.post(t)) for t in texts]
        for f in first:
            if f[0] != 200:
                raise Violation("probe", repr(f)[:400])
        for b in bodies:
            status, hd, ans = dmn.post(b)
            st.evaluated()
            r = Prefix(b, "mws:query")
            odd = odd_for_expat(b, r)
            good = r.error is None and bool(r.exprs)
            if status not in (200, 400):
                raise Violation("status", "%d for %r" % (status, b[:600]))
            if not odd and (status == 200) != good:
                raise Violation("status", "%d, but the body is %s: %r" %
                                (status, "a query" if good else "not a query (%s)" % (r.error,),
                                 b[:800]))
            st.count("%s %d" % (kind, status))
            if status == 200:
                content(dmn, kind, r, odd, hd, ans, corpus, st, b)
            elif "xml" not in (hd.get("Content-Type") or "") or not ans:
                raise Violation("error-answer", "%s %r" % (hd.get("Content-Type"), ans[:200]))
            st.nontriv((kind, b), b[:600].decode("utf-8", "replace"))
        again = [normal(dmn.post(t)) for t in texts]
        if again != first:
            raise Violation("later-answers", "%r then %r" % (first, again))


def normal(a):
    return a[0], re.sub(rb'"time" ?: ?[^,}]*|time="[^"]*"', b"", a[2])


def content(dmn, kind, r, odd, hd, ans, corpus, st, b):
    out = (r.root_attrs or {}).get("output")
    ct = hd.get("Content-Type")
    if ct == "application/json":
        try:
            j = json.loads(ans.decode("utf-8"))
        except ValueError as e:
            raise Violation("bad-answer", "%s %r for %r" % (e, ans[:300], b[:600]))
        total = j.get("total")
    else:
        # without namespaces: names like a:b:c come from the request
        atts = []
        p = xml.parsers.expat.ParserCreate()
        p.StartElementHandler = lambda n, a: atts.append(a)
        try:
            p.Parse(ans, True)
        except xml.parsers.expat.ExpatError as ex:
            raise Violation("bad-answer", "%s %r for %r" % (ex, ans[:300], b[:600]))
        total = int(atts[0].get("total"))
    if odd or kind in ("schema", "ci") or not r.exprs:
        return
    t = r.exprs[0][1]
    if not settled(t) or t.max_arity() > 255:
        return
    exp, formulas = expect(t, corpus)
    want = len(formulas) if out == "mws-ids" else sum(exp.values())
    if total != want:
        raise Violation("answer", "total %r, expected %d for %r" % (total, want, b[:1500]))
    st.count("total checked against the model")
    if want:
        st.count("with hits")


def describe(case):
    files, kind, bodies, probes = case
    return "%s\n%s\n%s" % (kind, "\n".join(repr(b)[:1500] for b in bodies), describe_files(files))


if __name__ == "__main__":
    import json
    import xml.parsers.expat
    b = build.ensure(["mwsd", "mws-index", "schemad"])
    sys.exit(Check("C10", "sequences of request bodies (well-formed queries with odd attributes, "
                   "variables with content, more variables and ranges than ids, deep and wide "
                   "terms; mutated and truncated ones; bytes) to the search daemon (both indexes, "
                   "ci renaming) and the schema daemon; the status is compared with what an "
                   "independent parser says about the body, the total with the model, and probe "
                   "queries with their answers at the start. Non-trivial: every distinct body that "
                   "was answered.",
                   [Part("bodies", gen, run, 700, 9000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["bodies whose well-formedness depends on a DTD, on an encoding other "
                                "than UTF-8, on libxml2's depth limit or on NUL bytes may be "
                                "accepted or refused", "queries with more than 32 names or 32 "
                                "ranges may be answered with no hits"]).main())
