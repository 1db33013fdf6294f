"""C11: all output formats are well-formed and carry the same answer."""
import c08
import schemalib
from schemalib import parse_tree, node_pattern
from searchlib import *

TAGS = ["apply", "ci", "x-y", "é", "a.b", "_t", "漢字", "mtext", "A·b"]


def gen(d):
    kind = d.weighted((5, "mem"), (3, "disk"), (1, "exp"), (3, "schema"))
    texts = [t for t in (c08.text(d, 0, 6) for _ in range(d.int(2, 6)))] + ["x"]
    g = Gen(d, texts=texts, weird=False)
    g.tags = ["apply", "ci"] + [d.choice(TAGS) for _ in range(d.int(1, 4))]
    if kind == "schema":
        reqs, ren = schemalib.gen(d)
        more = []
        for _ in range(3):
            fs = [g.tree(d.int(1, 9)) for _ in range(d.int(1, 8))]
            more.append((fs, d.choice(["A", "R"]), d.int(0, 60), 0, "m:"))
        return kind, more + reqs[:2], ren
    nf = d.int(1, 3)
    files = []
    corpus = []
    for f in range(nf):
        items = []
        ids = ["1", "é<&\"", "b c"]
        for i in d.list(1, 8, lambda: d.int(0, 99)):
            if d.bool(0.3):
                items.append(("data", d.choice(ids), c08.content(d, 2)))
            t = g.copy(d.choice(corpus)) if corpus and d.bool(0.3) else g.tree(d.int(1, 10))
            corpus.append(t)
            items.append(("expr", c08.text(d), d.choice(ids + [None]), t))
        files.append(Harvest(items))
    asks = []
    for _ in range(d.int(3, 10)):
        q = g.query(corpus, ranges=d.bool(0.2) and kind != "exp")
        for _, x in q.walk():
            if x.kind == "v" and x.name is not None and d.bool(0.5):
                x.name = c08.text(d, 1, 6)
                x.attrs.pop("_as_text", None)
        if d.bool(0.1):
            q = T("apply", "", [q, T("nowhere", "")])
        asks.append((q, d.choice([None, 1, 2, 5, 100000, 0]), d.choice([None, 0, 1, 3, 50])))
    return kind, files, asks


def run(case, env, st):
    kind, files, asks = case
    if kind == "schema":
        return run_schema(files, asks, env, st)
    corpus = corpus_of(files)
    texts = c08.fixed_files(files)
    with Case(env):
        h = env.write_files(texts)
        if kind == "mem":
            dmn = env.mem(h)
        else:
            dmn = env.disk(env.index(h), ["-x"] if kind == "exp" else [])
        everything = T("mws:qvar", kind="v", name="x")
        ground = {}
        for q, size, off in asks + [(everything, 100000, None)]:
            a = ask(dmn, q, "json", size, off)
            b = ask(dmn, q, "xml", size, off)
            st.evaluated()
            if a.total != b.total:
                raise Violation("total", "json %d, xml %d" % (a.total, b.total))
            if b.size != len(b.hits):
                raise Violation("size", "%d, but %d hits" % (b.size, len(b.hits)))
            if a.hits != b.hits:
                raise Violation("hits", "json %r\nxml %r" % (a.hits[:5], b.hits[:5]))
            for (u, x, _), sub in zip(b.hits, b.substs):
                want = [(n, x + p) for n, p in a.qvars]
                if want != sub:
                    raise Violation("variables", "json %r\nxml %r" % (want, sub))
            names = [n for n, _ in occurrences(q)]
            if [n for n, _ in a.qvars] != names and settled(q):
                raise Violation("variables", "%r, asked %r" % (a.qvars, names))
            t = a.raw.get("time")
            if not isinstance(t, int) or not 0 <= t < 600000:
                raise Violation("time", repr(t))
            if a.hits:
                st.nontriv((tuple(texts), kind, repr(q), size, off),
                           query_xml(q, "xml", size, off)[:400] + " on " + texts[0][:500])
            st.count(kind)
            if kind == "exp":
                continue
            c = ask(dmn, q, "mws-ids", size, off)
            if len(set(c.ids)) != len(c.ids) or c.size != len(c.ids):
                raise Violation("ids", "size %r, ids %r" % (c.size, c.ids[:50]))
            if c.qvars != a.qvars:
                raise Violation("variables", "json %r, mws-ids %r" % (a.qvars, c.qvars))
            if not settled(q):
                continue
            exp, formulas = expect(q, corpus)
            page = max(0, min(30 if size is None else size, len(formulas) - (off or 0)))
            if c.total != len(formulas) or len(c.ids) != page:
                raise Violation("ids", "%d ids, total %d, %d distinct formulas, page %d" %
                                (len(c.ids), c.total, len(formulas), page))
            # the id of each formula, asked for alone
            want = set()
            if len(formulas) <= 30:
                for f in formulas:
                    if f not in ground:
                        e = ask(dmn, from_canon(f), "mws-ids")
                        if len(e.ids) != 1:
                            raise Violation("ids", "%r for a formula that occurs" % e.ids)
                        ground[f] = e.ids[0]
                    want.add(ground[f])
                if not set(c.ids) <= want or page == len(formulas) and want != set(c.ids):
                    raise Violation("ids", "%r, but its formulas have %r" % (c.ids, want))
                st.count("ids compared", len(want))
        if len(set(ground.values())) != len(ground):
            raise Violation("ids", "two formulas have one id: %r" % ground)


def from_canon(c):
    tag, text = c.meaning.split("#", 1)
    return T(tag, text, [from_canon(k) for k in c.kids])


def settled(q):
    if q.max_arity() > 255:
        return False
    if len({x.name for _, x in q.walk() if x.kind == "v" and x.name}) > 32:
        return False
    for _, x in q.walk():
        if x.kind == "r":
            return False
    return True


def run_schema(reqs, ren, env, st):
    with Case(env):
        dmn = env.schemad(["-c"] if ren else [])
        for req in reqs:
            j = schemalib.json_answer(dmn, req)
            total, size, lst = schemalib.xml_answer(dmn, req)
            st.evaluated()
            if (total, size) != (j["total"], j["size"]) or size != len(j["schemata"]) or \
               size != len(lst):
                raise Violation("total", "json %r, xml %r" % (j, (total, size)))
            a, b = [], []
            for s in j["schemata"]:
                n = []
                p = node_pattern(parse_tree(s["cmmlSchema"], "cmmlSchema"), n)
                a.append((s["coverage"], p, tuple(n)))
            for c, root in lst:
                n = []
                b.append((c, node_pattern(root, n), tuple(n)))
            if a != b:
                raise Violation("schemata", "json %r\nxml %r" % (a[:4], b[:4]))
            st.count("schema")
            if a:
                t = schemalib.request_xml(req, "xml")
                st.nontriv(t, t[:600])


def describe(case):
    kind, files, asks = case
    if kind == "schema":
        return schemalib.describe((files, asks))
    return "%s\n%s\n%s" % (kind, "\n".join(query_xml(q, "json", s, o) for q, s, o in asks),
                           "\n---\n".join(c08.fixed_files(files)))


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index", "schemad"])
    sys.exit(Check("C11", "random harvests and queries with special characters (markup, quotes, "
                   "control white space, non-ASCII, astral) in urls, data, tags, texts and "
                   "variable names, random pages, against the in-memory, the on-disk and the "
                   "experimental engine; each query is asked as json, xml and mws-ids, the "
                   "answers are parsed strictly and compared with each other and (mws-ids) with "
                   "the set of distinct matching formulas of the reference model; schema requests "
                   "are compared in json and xml. Non-trivial: a query with at least one hit (or "
                   "schema), distinct.",
                   [Part("formats", gen, run, 3000, 40000, lambda w: SearchEnv(w, b),
                         describe=describe)]).main())
