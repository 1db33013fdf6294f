"""C08: urls and document data come back as given."""
from searchlib import *
import xml.etree.ElementTree as ET

CHARS = ["a", "Z", "0", " ", "&", "<", ">", "\"", "'", "é", "ß", "漢", "𝒳", "\u00a0", "\u2028",
         "%20", "/", "\\", "#", "?", "=", "\t", "\n", "\r", "\x7f", "\u0085", "]]>", "{}", "\ufffd"]
NS = {"m": MML_NS, "mws": MWS_NS, "h": "http://www.w3.org/1999/xhtml"}


def text(d, lo=0, hi=12):
    return "".join(d.list(lo, hi, lambda: d.choice(CHARS)))


def text_src(d):
    """Character data as source text, now and then long."""
    s = esc_text(d, text(d))
    return s * d.int(20, 700) if d.bool(0.04) else s


def esc_text(d, s):
    o = []
    for c in s:
        if c == "\r":
            o.append("&#13;")
        elif c in "&<>\"'" or d.bool(0.02):
            o.append({"&": "&amp;", "<": "&lt;", ">": "&gt;"}.get(c, c) if d.bool(0.7)
                     else "&#%d;" % ord(c))
        else:
            o.append(c)
    return "".join(o)


def esc_attr(s):
    return "".join({"&": "&amp;", "<": "&lt;", ">": "&gt;", "\"": "&quot;", "\n": "&#10;",
                    "\t": "&#9;", "\r": "&#13;"}.get(c, c) for c in s)


def content(d, depth):
    """Random XML content as source text."""
    out = []

    def one():
        k = d.weighted((4, "text"), (3, "elem"), (1, "empty"), (1, "cdata"), (1, "comment"),
                       (1, "deep"), (1, "pi"))
        if k == "text":
            return text_src(d)
        if k == "cdata":
            return "<![CDATA[" + text(d).replace("\r", "").replace("]", "") + "]]>"
        if k == "comment":
            return "<!-- c & < -->"
        if k == "pi":
            return "<?x y?>"
        tag = d.choice(["p", "m:math", "h:div", "metadata", "x-y", "mws:expr", "mws:data", "é", "_a.b"])
        attrs = ""
        for i, n in enumerate(["id", "m:a", "xml:lang", "local_id"]):
            if d.bool(0.2):
                attrs += " %s=\"%s\"" % (n, "en" if n == "xml:lang" else esc_attr(text(d)))
        if d.bool(0.1):
            attrs += ' xmlns:h="http://www.w3.org/1999/xhtml"'
        if tag.startswith("h:") and "xmlns:h" not in attrs:
            attrs += ' xmlns:h="http://www.w3.org/1999/xhtml"'
        if k == "empty" or depth <= 0:
            return "<%s%s/>" % (tag, attrs)
        if k == "deep":
            n = d.int(1, 60)
            return ("<%s%s>" % (tag, attrs)) * n + esc_text(d, text(d)) + ("</%s>" % tag) * n
        return "<%s%s>%s</%s>" % (tag, attrs, content(d, depth - 1), tag)
    return "".join(d.list(0, 5, one))


def canon_xml(src):
    """Elements, attributes and text of an XML fragment."""
    root = ET.fromstring("<root xmlns:m=\"%s\" xmlns:mws=\"%s\">%s</root>" % (MML_NS, MWS_NS, src))

    def rec(e):
        kids = []
        buf = [e.text or ""]
        for k in e:
            if isinstance(k.tag, str):
                kids.append("".join(buf))
                kids.append(rec(k))
                buf = [k.tail or ""]
            else:
                buf.append(k.tail or "")
        kids.append("".join(buf))
        return (e.tag, tuple(sorted(e.attrib.items())), tuple(kids))
    tag, attrs, kids = rec(root)
    # the writer ends the document with a line break of its own
    return (tag, attrs, kids[:-1] + (kids[-1].rstrip("\n"),))


def gen(d):
    g = Gen(d, ntags=4, weird=False)
    nf = d.weighted((3, 1), (3, 2), (1, 4))
    files = []
    uniq = [0]
    for f in range(nf):
        ids = ["1", "2", "id", "a b", "é", "<&>"][:d.int(1, 6)]
        items = []

        def one():
            k = d.weighted((3, "expr"), (2, "data"))
            if k == "data":
                return ("data", d.choice(ids + [None, ""]) if d.bool(0.9) else None, content(d, 3))
            uniq[0] += 1
            url = d.weighted((6, "t"), (1, ""), (1, None), (1, "long"))
            if url == "t":
                url = text(d) + "%d" % uniq[0]
            elif url == "long":
                url = "http://x/" + "a%20é" * d.int(100, 3000)
            return ("expr", url, d.choice(ids + [None, "nonexistent", ""]), g.expr("small"))
        items = d.list(1, 12, one)
        # at least one expression
        items.append(("expr", "last%d" % f, d.choice(ids), T("apply", "", [T("ci", "last")])))
        files.append(Harvest(items))
    return files, d.bool(0.35), d.bool(0.12)


def fixed_files(files):
    """Harvest files as text: urls with white space need character references."""
    out = []
    for f in files:
        o = ['<?xml version="1.0" encoding="UTF-8"?><mws:harvest xmlns:mws="%s" xmlns:m="%s">' %
             (MWS_NS, MML_NS)]
        for it in f.items:
            if it[0] == "data":
                o.append("<mws:data%s>%s</mws:data>\n" % (
                    "" if it[1] is None else ' mws:data_id="%s"' % esc_attr(it[1]), it[2]))
            else:
                o.append("<mws:expr%s%s>%s</mws:expr>\n" % (
                    "" if it[1] is None else ' url="%s"' % esc_attr(it[1]),
                    "" if it[2] is None else ' mws:data_id="%s"' % esc_attr(it[2]),
                    it[3].xml(f.pfx)))
        o.append("</mws:harvest>")
        out.append("".join(o))
    return out


def run(case, env, st):
    files, disk, nodata = case
    texts = fixed_files(files)
    want = Counter()
    ndata = 0
    for f in files:
        for url, data, t in f.exprs():
            ix = Indexed(t)
            c = None if data is None or nodata else canon_xml(data)
            ndata += c is not None
            for path in ix.first.values():
                want[(url, xpath(path), c)] += 1
    with Case(env):
        h = env.write_files(texts)
        if disk and not nodata:
            d = env.disk(env.index(h))
        else:
            d = env.mem(h, ["-n"] if nodata else [])
        q = T("mws:qvar", kind="v", name="x")
        for output in ("json", "xml"):
            a = ask(d, q, output=output, answsize=100000)
            st.evaluated(len(a.hits))
            got = Counter()
            cache = {}
            for u, x, data in a.hits:
                if data == "":
                    c = None
                else:
                    if data not in cache:
                        try:
                            cache[data] = canon_xml(data)
                        except ET.ParseError as e:
                            raise Violation("data-not-xml", "%s: %r" % (e, data[:400]))
                    c = cache[data]
                got[(u, x, c)] += 1
            # empty data elements and no data look the same
            empty = canon_xml("")
            norm = lambda cn: Counter({(u, x, None if c == empty else c): 0 for u, x, c in cn}) + \
                sum_norm(cn, empty)
            w, g2 = sum_norm(want, empty), sum_norm(got, empty)
            if w != g2:
                urls = lambda cn: Counter({(u, x): 0 for u, x, _ in cn})
                wu = Counter()
                gu = Counter()
                for (u, x, _), n in w.items():
                    wu[(u, x)] += n
                for (u, x, _), n in g2.items():
                    gu[(u, x)] += n
                kind = "url" if wu != gu else "data"
                raise Violation(kind, "%s answer: %s" % (output, diff_counter(w, g2, 2)))
    if ndata:
        st.nontriv(tuple(texts), texts[0][:1200])
    st.count("disk" if disk else "memory")
    st.count("with data" if ndata else "without data")
    if nodata:
        st.count("data ignored")
    st.max("data bytes", max([len(it[2]) for f in files for it in f.items if it[0] == "data"] + [0]))


def sum_norm(cn, empty):
    o = Counter()
    for (u, x, c), n in cn.items():
        o[(u, x, None if c == empty else c)] += n
    return o


def describe(case):
    files, disk, nodata = case
    return "\n---\n".join(fixed_files(files)) + "\n%s index, -n %s" % (
        "disk" if disk else "memory", nodata)


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    sys.exit(Check("C08", "random harvest files with data elements of random XML content (nested "
                   "elements, attributes, escapes, CDATA, non-ASCII, long texts), repeated, missing "
                   "and dangling ids, odd urls; every hit of the query for everything is compared "
                   "with its expression's url and the canonical form of its data. Non-trivial: a "
                   "corpus in which an expression has data, distinct.",
                   [Part("fidelity", gen, run, 1800, 26000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["comments and processing instructions inside data are not part of "
                                "'elements, attributes, text'"]).main())
