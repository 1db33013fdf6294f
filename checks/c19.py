"""C19: docs2harvest."""
from doclib import *
import json

XPATHS = {"/": "all", "//*[local-name()='body']": "body", "//*[@class='review']": "review",
          "//nothing": "none"}
IDPATHS = {"": "path", "//*[local-name()='title']": "title", "//*[@name='id']/@content": "meta",
           "//nothing": "none", "//*[local-name()='title']/text()": "title"}


def gen_options(d):
    o = {"c": None, "x": None, "n": d.bool(0.4)}
    if d.bool(0.6):
        o["c"] = {"shouldSaveData": d.bool(0.8), "documentIdXpath": d.choice(list(IDPATHS)),
                  "textWithMathXpath": d.choice(list(XPATHS)),
                  "metadata": {k: d.choice(["//*[local-name()='title']",
                                            "//*[@name='id']/@content", "//nothing",
                                            "//*[local-name()='title']/text()"])
                               for k in d.list(0, 3, lambda: d.choice(
                                   ["title", "author", "url", "id", "text"]), n=1)}}
    if d.bool(0.3):
        o["x"] = d.choice(list(IDPATHS)[1:])
    return o


def effective(o):
    c = o["c"] or {"shouldSaveData": True, "documentIdXpath": "", "textWithMathXpath": "/",
                   "metadata": {}}
    return (c["shouldSaveData"] and not o["n"], o["x"] or c["documentIdXpath"],
            c["textWithMathXpath"], c["metadata"])


def gen(d):
    g = Gen(d)
    items = d.list(1, 5, lambda: gen_doc(d, g) if d.bool(0.85) else
                   d.choice(["missing", "dir", "empty", "blank"]), n=2)
    return items, gen_options(d), d.bool(0.3), d.bool(0.2)


def select(doc, path):
    """What an xpath of ours selects: words and math elements."""
    kind = IDPATHS.get(path) or XPATHS.get(path)
    if kind == "title":
        return doc.title.split()
    if kind == "meta":
        return (doc.meta or "").split()
    if kind == "body":
        return text_of(doc.body)
    if kind == "review":
        return text_of(doc.review) if doc.review else []
    if kind == "all":
        return doc.title.split() + text_of(doc.body)
    return []


def run_docs2harvest(env, paths, o, out, cwd):
    a = [env.bin("docs2harvest")]
    if out:
        a += ["-o", out]
    if o["c"] is not None:
        cp = os.path.join(env.scratch.fresh("c"), "conf.json")
        with open(cp, "w") as f:
            json.dump(o["c"], f)
        a += ["-c", cp]
    if o["x"] is not None:
        a += ["-x", o["x"]]
    if o["n"]:
        a.append("-n")
    rc, so, se = run_tool(a + paths, cwd=cwd)
    if rc != 0:
        raise Violation("exit", "%d: %s" % (rc, se[-300:]))
    d = out or cwd
    fs = os.listdir(d)
    if len(fs) != 1 or not fs[0].endswith(".harvest"):
        raise Violation("files", repr(fs))
    with open(os.path.join(d, fs[0]), "rb") as f:
        return f.read(), d, se.decode("utf-8", "replace")


def split_harvest(root):
    """{document number: (data element, [expr])}, expressions without data"""
    if root.tag != "mws:harvest":
        raise Violation("root", root.tag)
    for k in root.kids:
        if k.tag not in ("mws:data", "mws:expr"):
            raise Violation("element", k.tag)
    return root.all("mws:data"), root.all("mws:expr")


def check_doc(doc, path, o, data, exprs):
    """Compares the part of the harvest that stems from one document; consumes exprs."""
    save, idp, textp, meta = effective(o)
    docid = path if idp == "" else " ".join(w for w in select(doc, idp))
    expected = [(m, content_of(m)) for m in maths(doc.body)]
    expected = [(m, c) for m, c in expected if m.id is not None and c is not None]
    number = {}
    if save:
        kids = [k.tag for k in data.kids]
        if kids != ["id", "text", "metadata"] + ["math"] * len(expected):
            raise Violation("data", "children %s, %d formulas expected" % (kids, len(expected)))
        if data.kids[0].text != docid:
            raise Violation("id", "%r expected %r" % (data.kids[0].text, docid))
        words = select(doc, textp)
        got = data.kids[1].text.split(" ") if data.kids[1].text else []
        if len(got) != len(words):
            raise Violation("text", "%r for %r" % (got, words))
        for a, b in zip(got, words):
            if isinstance(b, Math):
                r = re.match(r"^math(\d+)$", a)
                if not r or number.setdefault(b.id, r.group(1)) != r.group(1):
                    raise Violation("text", "%r for formula %r" % (a, b.id))
            elif a != b:
                raise Violation("text", "%r for %r" % (a, b))
        mk = [(k.tag, k.text) for k in data.kids[2].kids]
        want = [(k, " ".join(select(doc, v))) for k, v in meta.items()]
        if sorted(mk) != sorted(want):
            raise Violation("metadata", "%r expected %r" % (mk, want))
        for k, (m, c) in zip(data.kids[3:], expected):
            n = k.attrs.get("local_id")
            if number.setdefault(m.id, n) != n:
                raise Violation("local-id", "%s for %r, %s elsewhere" % (n, m.id, number[m.id]))
            e = parse_xml(k.text.encode("utf-8"), "listed formula", lenient=True)
            if e.tag.split(":")[-1] != "math" or e.attrs.get("id") != m.id:
                raise Violation("listed-formula", "%r for %r" % (k.text[:200], m.id))
        if len(set(number.values())) != len(number):
            raise Violation("ambiguous-number", repr(number))
    if len(exprs) < len(expected):
        raise Violation("missing", "%d of %d expressions" % (len(exprs), len(expected)))
    out = []
    for m, c in expected:
        e = exprs.pop(0)
        url = number[m.id] if save else "%s#%s" % (docid, m.id)
        if e.attrs.get("url") != url:
            raise Violation("url", "%r expected %r" % (e.attrs.get("url"), url))
        if e.attrs.get("mws:data_id") != (data.attrs.get("mws:data_id") if save else None):
            raise Violation("data-id", repr(e.attrs))
        if len(e.kids) != 1:
            raise Violation("expression", "%d roots" % len(e.kids))
        got = tree_of(e.kids[0])
        if got != tree_of_T(c):
            raise Violation("expression", "%r expected %r" % (got, tree_of_T(c)))
        out.append((url, c))
    return out


def put(env, d, items):
    """Writes the documents; returns their paths."""
    paths = []
    for i, it in enumerate(items):
        p = os.path.join(d, "doc%d%s" % (i, ".xhtml" if i % 2 else ".html"))
        if it == "dir":
            os.mkdir(p)
        elif it != "missing":
            b = it if isinstance(it, bytes) else b"" if it == "empty" else b" \n" \
                if it == "blank" else render_doc(it).encode("utf-8")
            with open(p, "wb") as f:
                f.write(b)
        paths.append(p)
    return paths


def run(case, env, st):
    items, o, here, search = case
    with Case(env):
        d = env.scratch.fresh("docs")
        paths = put(env, d, items)
        o_dir = env.scratch.fresh("out")
        raw, outdir, log = run_docs2harvest(env, paths, o, None if here else
                                            os.path.join(o_dir, "new"), o_dir)
        datas, exprs = split_harvest(parse_xml(raw))
        exprs = list(exprs)
        save = effective(o)[0]
        docs = [(p, it) for p, it in zip(paths, items) if isinstance(it, Doc)]
        blank = [k for k in datas if not any(x.text for x in k.kids[:2])]
        if not save and datas:
            raise Violation("data", "written although not asked for")
        ids = [k.attrs.get("mws:data_id") for k in datas]
        if len(set(ids)) != len(ids) or None in ids:
            raise Violation("data-id", repr(ids))
        want = []
        if save:
            datas = [k for k in datas]
            # a blank file may or may not count as a document
            extra = len(datas) - len(docs)
            unsure = [it for it in items if it in ("blank", "empty")]
            if not 0 <= extra <= len(unsure):
                raise Violation("data", "%d data elements for %d documents" % (len(datas), len(docs)))
            if extra:
                order = [it for it in items if isinstance(it, Doc) or it in ("blank", "empty")]
                if extra == len(unsure):
                    datas = [k for k, it in zip(datas, order) if isinstance(it, Doc)]
                else:
                    order = [it for it in items if isinstance(it, Doc) or it == "blank"]
                    datas = [k for k, it in zip(datas, order) if isinstance(it, Doc)]
        for i, (p, doc) in enumerate(docs):
            want += check_doc(doc, p, o, datas[i] if save else None, exprs)
            st.evaluated()
            ms = list(maths(doc.body))
            st.count("math elements", len(ms))
            st.count("HTML documents" if doc.html else "XHTML documents")
            if len(ms) > 1:
                st.nontriv(render_doc(doc), render_doc(doc))
        if exprs:
            raise Violation("surplus", "%d expressions too many: %r" % (len(exprs), exprs[0].attrs))
        st.count("expressions", len(want))
        if search and want:
            dmn = env.mem(outdir)
            a = ask(dmn, T("mws:qvar", kind="v", name="x"), answsize=100000)
            w = Counter()
            for url, c in want:
                for path in Indexed(c).first.values():
                    w[(url, xpath(path))] += 1
            got = Counter((u, x) for u, x, _ in a.hits)
            if got != w:
                raise Violation("search", diff_counter(w, got))
            st.count("searched")


# ------------------------------------------------------------------ hostile documents

TOKENS = [b"<", b">", b"&", b"\x00", b"\x01", b"\xff", b"\xc3", b"</math>", b"<math>", b"<math id='q'>",
          b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?xml version='1.0'?>", b"<?php x", b"&nbsp;", b"&#0;",
          b"&#1;", b"&#xd800;", b"<script>if (a < b && c) </script>", b"\"", b"'", b"<ci a=\"\x01\" b c=1>",
          b"<annotation-xml encoding='MathML-Content'>", b"</annotation-xml>", b"<a:b:c>", b"<:x>", b"<.y>",
          b"<ci -->", b"<body>", b"</html>", b"<!DOCTYPE html [<!ENTITY a 'b'>]>", b"&a;", b"<ci id=\"1\"",
          b"<m:math id='w'>", b" xmlns='urn:x'", b" xmlns:m=''", b"<table><tr><p><li></table>", b"\xe2\x28\xa1",
          b"\xef\xbb\xbf", b"\xff\xfe", b"<plaintext>", b"<textarea>", b"<style> a < b </style>", b"\xed\xa0\x80",
          b"<ci \x01='x'>", b"<ci a='\xc3\xa9' a='2'>", b"<svg:x/>", b"<ci xlink:href='u'>t</ci>", b"&undefined;",
          b"<!-- a -- b --->", b"<ci 1='2' =3>", b"<ci a\"b=c>", b"<math id=\"a\x01b\">", b"\x0b", b"\x0c"]


def gen_wild(d):
    g = Gen(d)
    doc = gen_doc(d, g)
    data = bytearray(render_doc(doc).encode("utf-8"))
    for _ in range(d.int(1, 6)):
        pos = d.int(0, len(data))
        k = d.weighted((5, "insert"), (2, "delete"), (1, "cut"), (1, "byte"), (1, "dup"))
        if k == "insert":
            data[pos:pos] = d.choice(TOKENS)
        elif k == "delete":
            del data[pos:pos + d.choice([1, 5, 30])]
        elif k == "cut":
            del data[pos:]
        elif k == "byte" and pos < len(data):
            data[pos] = d.int(0, 255)
        elif k == "dup":
            data[pos:pos] = data[max(0, pos - d.choice([5, 40])):pos]
    if d.bool(0.05):
        n = d.choice([300, 3000, 30000])
        data = bytearray(d.choice([b"<div>", b"<math id='x'><annotation-xml encoding='MathML-Content'>",
                                   b"<b", b"<!--"]) * n)
    good = gen_doc(d, g, oddids=False)
    return bytes(data), good, gen_options(d)


def run_wild(case, env, st):
    data, good, o = case
    with Case(env):
        d = env.scratch.fresh("docs")
        paths = put(env, d, [good, data, good])
        out = env.scratch.fresh("out")
        raw, _, log = run_docs2harvest(env, paths, o, out, out)
        datas, exprs = split_harvest(parse_xml(raw))
        st.evaluated()
        save = effective(o)[0]
        n = len([m for m in maths(good.body) if m.id is not None and content_of(m) is not None])
        if len(exprs) < 2 * n:
            raise Violation("missing", "%d expressions, the good documents have %d" % (
                len(exprs), 2 * n))
        first, last = list(exprs[:n]), list(exprs[len(exprs) - n:])
        check_doc(good, paths[0], o, datas[0] if save else None, first)
        check_doc(good, paths[2], o, datas[-1] if save else None, last)
        mid = exprs[n:len(exprs) - n]
        st.count("expressions in hostile documents", len(mid))
        for e in mid:
            if len(e.kids) != 1:
                raise Violation("expression", "%d roots" % len(e.kids))
        if save:
            if len(datas) not in (2, 3):
                raise Violation("data", "%d data elements for 3 documents" % len(datas))
            if mid and len(datas) != 3:
                raise Violation("data", "none for a document with formulas")
            if mid:
                loc = [k.attrs.get("local_id") for k in datas[1].all("math")]
                if [e.attrs.get("url") for e in mid] != loc or \
                        {e.attrs.get("mws:data_id") for e in mid} != {datas[1].attrs["mws:data_id"]}:
                    raise Violation("local-id", "%r, %r" % (loc, [e.attrs for e in mid]))
        if mid:
            st.nontriv(data, repr(data[:600]))


def describe(case):
    items, o = case[0], case[1]
    return "%r\n" % (o,) + "\n\n".join(render_doc(i) if isinstance(i, Doc) else i for i in items)


if __name__ == "__main__":
    b = build.ensure(["docs2harvest", "mwsd"])
    env = lambda w: SearchEnv(w, b)
    sys.exit(Check("C19", "1 to 5 generated documents (XHTML with three prefix styles and with DTDs, HTML; "
                   "math elements with and without ids and Content MathML, nested, special characters, "
                   "comments and processing instructions; missing, empty and unreadable files between "
                   "them) under all options; the harvest is parsed with expat and every expression, "
                   "number, text, id and metadata item compared with the generated documents, and some "
                   "harvests are searched. Second part: documents with mutated bytes and markup between "
                   "two good ones. Non-trivial: distinct documents with several math elements, mutated "
                   "documents that still yield expressions.",
                   [Part("documents", gen, run, 1500, 30000, env, describe=describe),
                    Part("hostile", gen_wild, run_wild, 2500, 60000, env,
                         describe=lambda c: "%r\n%r" % (c[2], c[0]))]).main())
