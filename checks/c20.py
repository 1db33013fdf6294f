"""C20: harvests2json."""
from searchlib import *
import json
import c12

WORDS = ["alpha", "the", "math1", "x", "é", "a&b", "<", "\"q\"", "back\\slash", "/", "𝒳", "Satz", "'", "]]>"]
KEYS = ["title", "author", "url", "link", "meta", "Keywords", "text", "base", "p", "zbl_id", "img", "body", "option"]
IDS = ["1", "http://h/d?x=1&y=2", "é", "Doc 1", "a\"b", "back\\slash", "<", "urn:x/y", "", "'"]


class Data:
    def __init__(self, d):
        words = lambda: d.list(0, 6, lambda: d.choice(WORDS), n=3)
        self.id = d.choice(IDS) if d.bool(0.9) else None
        self.text = words() if d.bool(0.9) else None
        keys = d.list(0, 4, lambda: d.choice(KEYS), n=1)
        if self.text is None:
            keys = [k for k in keys if k != "text"]     # read as the text if there is none
        self.meta = {k: words() for k in keys} if d.bool(0.9) else None
        self.maths = d.list(0, 3, lambda: (d.choice(["0", "1", "2", "7", None]) if d.bool(0.1)
                                           else str(len(keys)),
                                           "<m:math id=\"a\"> <m:ci>%s</m:ci></m:math>" %
                                           escape(d.choice(WORDS))), n=1)
        n = [0]

        def fresh(m):
            n[0] += 1
            return (str(n[0]) if m[0] is not None else None, m[1])
        if d.bool(0.9):
            self.maths = [fresh(m) for m in self.maths]
        self.odd = d.weighted((16, None), (1, "nothing"), (1, "words"), (1, "markup"))
        self.sep = d.choice(["\n", "", " "])

    def xml(self):
        if self.odd == "nothing":
            return ""
        if self.odd == "words":
            return escape(" ".join(self.text or []))
        o = [""]
        if self.id is not None:
            o.append("<id>%s</id>" % escape(self.id))
        if self.text is not None:
            ws = [escape(w) for w in self.text]
            if self.odd == "markup":
                ws = ["<b>%s</b>" % w if i % 2 else w for i, w in enumerate(ws)]
            o.append("<text>%s</text>" % " ".join(ws))
        if self.meta is not None:
            o.append("<metadata>%s</metadata>" % self.sep.join(
                "<%s>%s</%s>" % (k, escape(" ".join(v)), k) for k, v in self.meta.items()))
        for i, x in self.maths:
            o.append("<math%s>%s</math>" % ("" if i is None else ' local_id="%s"' % i, escape(x)))
        return self.sep.join(o + [""])

    def expected(self):
        """(id, text, metadata, math)"""
        if self.odd in ("nothing", "words"):
            return "", "", {}, {}
        return (" ".join((self.id or "").split()), " ".join(self.text or []),
                {k: " ".join(v) for k, v in (self.meta or {}).items()},
                {i: " ".join(x.split()) for i, x in self.maths if i is not None})


def gen(d):
    ren = d.bool(0.3)
    if ren:
        g = Gen(d, texts=d.shuffle(list("xyzabPpf"))[:d.int(2, 6)] + ["sin"], weird=False)
        g.tags = ["apply", "ci", "plus", "cn"]
    else:
        g = Gen(d)
        g.hvars = d.bool(0.15)
    files = []
    corpus = []
    url = [0]

    def one_file():
        items = []
        ids = []

        def item():
            if not ids or d.bool(0.35):
                i = d.choice(["1", "2", "x", "é\"", "0"]) if d.bool(0.8) else str(len(items))
                ids.append(i)
                items.append(("data", i, Data(d)))
                return
            did = d.weighted((10, "known"), (1, "none"), (1, "missing"))
            t = g.copy(d.choice(corpus)) if corpus and d.bool(0.3) else \
                g.expr(d.choice(["small", "small", "medium"]))
            if ren:
                for _, x in t.walk():
                    if x.tag == "ci" and not x.text:
                        x.text = "x"
                    x._canon = None
            if g.hvars and d.bool(0.4):
                t = g.with_variables(t)
            corpus.append(t)
            url[0] += 1
            u = "u%d" % url[0] if ren or g.hvars or d.bool(0.9) else d.choice(["", "u1", "a&b\"", "é/"])
            items.append(("expr", u, {"known": d.choice(ids), "none": None,
                                      "missing": "nowhere"}[did], t))
        d.list(1, 10, item, n=6)
        return items

    files = d.list(1, 3, one_file, n=1)
    return (files, ren, d.bool(0.15), d.bool(0.3), d.bool(0.3), d.bool(0.1))


def render(items):
    return Harvest([(k, i, x.xml()) if k == "data" else (k, i, x, r[0])
                    for k, i, x, *r in items]).xml()


def renamed(t):
    """{path: form of the subterm, with the variables numbered in the whole expression}"""
    names = {}
    free = {id(x) for x in c12.spots(t)}
    out = {}

    def rec(t, path):
        m = t.meaning()
        if id(t) in free:
            m = ("letter", names.setdefault(m, len(names)))
        out[path] = (m, tuple(rec(k, path + (i + 1,)) for i, k in enumerate(t.kids)))
        return out[path]
    rec(t, ())
    return out


def standing(t):
    """{path: form of the subterm, None if it is not indexed}"""
    ix = Indexed(t)
    return {p: None if s._n == -1 else ix.standing(s) for p, s in t.walk()}


def learn(i, key, ren):
    if ren[0].setdefault(key, i) != i or ren[1].setdefault(i, key) != key:
        raise Violation("inconsistent", "id %s for %r, %r" % (i, key, ren[1].get(i)))


def check_file(items, text, ids, st, ren):
    lines = text.split(b"\n")
    if lines.pop() != b"":
        raise Violation("lines", "the last line does not end")
    docs = [it for it in items if it[0] == "data"]
    if len(lines) != 2 * len(docs):
        raise Violation("lines", "%d for %d documents: %r" % (len(lines), len(docs), text[:300]))
    owner = {}
    exprs = [[] for _ in docs]
    k = -1
    for it in items:
        if it[0] == "data":
            k += 1
            owner[it[1]] = k
        elif it[2] in owner:
            exprs[owner[it[2]]].append((it[1], it[3]))
    for n, (_, _, data) in enumerate(docs):
        st.evaluated()
        try:
            head = json.loads(lines[2 * n].decode("utf-8"))
            body = json.loads(lines[2 * n + 1].decode("utf-8"))
        except ValueError as e:
            raise Violation("json", "%s: %r" % (e, lines[2 * n:2 * n + 2]))
        eid, etext, emeta, emath = data.expected()
        if head != {"index": {"_id": eid}}:
            raise Violation("header", "%r expected id %r" % (head, eid))
        if set(body) != {"metadata", "mws_ids", "mws_id", "math", "text"}:
            raise Violation("keys", repr(sorted(body)))
        for key, want in (("text", etext), ("metadata", emeta), ("math", emath)):
            if body[key] != want:
                raise Violation(key, "%r expected %r" % (body[key], want))
        want = {}               # id -> {url: positions}
        if len(set(body["mws_ids"])) != len(body["mws_ids"]):
            raise Violation("mws-ids", "repeated: %r" % body["mws_ids"])
        for u, t in exprs[n]:
            key = ren[2](t) if ren else None
            if ren and all(x.kind == "c" for _, x in t.walk()) and key[()] is not None:
                learn(ids(t), key[()], ren)
            for path, s in t.walk():
                if ren and key[path] is None:
                    i = None
                elif ren:
                    # subterms are renamed as a part of the expression: their ids are learned
                    # from the output, and have to be consistent over all of it
                    i = ren[0].get(key[path])
                    if i is None:
                        i = next((int(i) for i, w in body["mws_id"].items()
                                  if w.get(u, {}).get("xpath") == xpath(path)), None)
                        if i is not None:
                            learn(i, key[path], ren)
                        elif all(key[q] != key[path] or q == path for q in key):
                            raise Violation("not-mapped", "%r in %r at %s" % (s, u, xpath(path)))
                        else:
                            # an equal subterm of the expression is mapped instead
                            i = next((int(i) for i, w in body["mws_id"].items() for q in key
                                      if key[q] == key[path] and
                                      w.get(u, {}).get("xpath") == xpath(q)), None)
                            if i is None:
                                raise Violation("not-mapped", "%r in %r" % (s, u))
                            learn(i, key[path], ren)
                else:
                    i = ids(s)
                want.setdefault(i, {}).setdefault(u, set()).add(xpath(path))
        want.pop(None, None)
        if sorted(body["mws_ids"]) != sorted(want):
            raise Violation("mws-ids", "%r expected %r" % (sorted(body["mws_ids"]), sorted(want)))
        if set(body["mws_id"]) != {str(i) for i in want}:
            raise Violation("mws-id", "%r expected %r" % (sorted(body["mws_id"]), sorted(want)))
        for i, where in want.items():
            got = body["mws_id"][str(i)]
            if set(got) != set(where):
                raise Violation("urls", "%r expected %r" % (sorted(got), sorted(where)))
            for u, x in got.items():
                if set(x) != {"xpath"} or x["xpath"] not in where[u]:
                    raise Violation("position", "%r in %r, expected one of %r" % (x, u, where[u]))
        if len(want) > 2:
            st.nontriv((data.xml(), exprs[n]), "%s %r" % (data.xml(), exprs[n]))
        st.count("mapped formulas", len(want))
    st.count("documents", len(docs))


def run(case, env, st):
    files, ren, foreign, pre, rec, truncated = case
    with Case(env):
        texts = [render(f) for f in files]
        # an index without any expression is not written
        h = env.write_files(texts + [Harvest([("expr", "keep", None, T("ci", "keep"))]).xml()])
        args = ["-c"] if ren else []
        idx = env.index(h, args)
        extra = []
        if foreign:
            # formulas that are not in the index
            t = T("zzz", "", [files[0][-1][3] if files[0][-1][0] == "expr" else T("ci", "q")])
            extra = [("data", "1", Data(Draw(prefix=[]))), ("expr", "v", "1", t), ("expr", "w", None, t)]
            env.write_files([render(extra)], d=h, name="foreign")
        sub = os.path.join(h, "sub")
        os.mkdir(sub)
        env.write_files([texts[0]], d=sub)
        env.write_files(["no harvest"], d=h, ext=".txt", name="other")
        if truncated:
            env.write_files([texts[0][:len(texts[0]) * 2 // 3]], d=h, name="t")
        old = b"converted already"
        if pre:
            with open(os.path.join(h, "h000.harvest.json"), "wb") as f:
                f.write(old)
        before = {}
        for r, _, fs in os.walk(h):
            for f in fs:
                p = os.path.join(r, f)
                before[p] = open(p, "rb").read()
        rc, o, e = run_tool([env.bin("harvests2json"), "-I", idx, "-H", h] + args +
                            (["-r"] if rec else []))
        if rc != 0:
            raise Violation("exit", "%d %s" % (rc, e[-300:]))
        after = set()
        for r, _, fs in os.walk(h):
            for f in fs:
                after.add(os.path.join(r, f))
        for p, b in before.items():
            if p not in after or open(p, "rb").read() != b:
                raise Violation("changed", p)
        want = {p + ".json" for p in before if p.endswith(".harvest") and
                (rec or os.path.dirname(p) == h)} | set(before)
        if after != want:
            raise Violation("files", "%r expected %r" % (sorted(after), sorted(want)))
        dmn = env.disk(idx, args)
        known = {}

        def ids(t):
            c = t.canon()
            if c not in known:
                known[c] = None
                if t.max_arity() <= 255:
                    a = ask(dmn, g_copy(t), output="mws-ids", answsize=5)
                    if a.total not in (0, 1) or len(a.ids) != a.total:
                        raise Violation("lookup", "%d formulas %r are %r" % (a.total, a.ids, t))
                    known[c] = a.ids[0] if a.ids else None
            return known[c]

        hvars = any(x.kind != "c" for f in files for it in f if it[0] == "expr"
                    for _, x in it[3].walk())
        if hvars:
            st.count("with variables in the harvest")
        tables = ({}, {}, renamed if ren else standing) if ren or hvars else None
        for i, f in enumerate(files):
            p = os.path.join(h, "h%03d.harvest.json" % i)
            if i == 0 and pre:
                continue
            check_file(f, open(p, "rb").read(), ids, st,
                       tables)
        if foreign and not ren and not hvars:
            check_file(extra, open(os.path.join(h, "foreign000.harvest.json"), "rb").read(), ids, st,
                       tables)
            st.count("with formulas that are not in the index")
        if rec:
            check_file(files[0], open(os.path.join(sub, "h000.harvest.json"), "rb").read(), ids, st,
                       tables)


def g_copy(t):
    return T(t.tag, t.text, [g_copy(k) for k in t.kids], {}, t.kind, t.name, t.low, t.high)


def describe(case):
    files, ren, foreign, pre, rec, truncated = case
    return "renaming %s foreign %s preexisting %s recursive %s truncated %s\n" % case[1:] + \
        "\n".join(render(f) for f in files)


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index", "harvests2json"])
    sys.exit(Check("C20", "harvests with 1 to 8 documents in 1 to 3 files (shared formulas, repeated and "
                   "dangling data ids, expressions without data, special characters, incomplete data), with "
                   "and without renaming, recursion, formulas that are not in the index, truncated files and "
                   "earlier results; every line of the output is parsed and compared with the generated "
                   "documents, formula ids with the mws-ids answers of mwsd on the same index. Non-trivial: "
                   "distinct documents with more than two formulas.",
                   [Part("convert", gen, run, 2500, 40000, lambda w: SearchEnv(w, b),
                         describe=describe)]).main())
