"""C24: the experimental query engine finds what the standard engine finds."""
from searchlib import *
import shutil


def kinds(d, g, corpus):
    """A query over this corpus; the experimental engine knows no ranges."""
    q = any_kind(d, g, corpus)
    for _, x in q.walk():
        if x.kind == "r":
            x.kind = "v"
    return q


def any_kind(d, g, corpus):
    k = d.weighted((6, "gen"), (2, "same"), (1, "anon"), (1, "root"), (1, "all"))
    if k == "gen":
        return g.query(corpus, ranges=False)
    if k == "all":
        return T("mws:qvar", kind="v", name=d.choice(["x", None]))
    t = g.copy(d.choice(corpus))
    spots = []

    def rec(x):
        for i, y in enumerate(x.kids):
            spots.append((x, i))
            rec(y)
    rec(t)
    if k == "root":
        # every child of the root a variable
        for i in range(len(t.kids)):
            t.kids[i] = T("mws:qvar", kind="v",
                          name=d.choice(["a", "b", None] + ["v%d" % i]))
    else:
        spots = d.shuffle(spots)
        done = []
        for x, i in spots[:d.int(1, 45 if d.bool(0.1) else 6)]:
            if any(y is x for y in done):
                continue
            y = x.kids[i]
            done += [z for _, z in y.walk()]
            x.kids[i] = T("mws:qvar", kind="v",
                          name=None if k == "anon" else d.choice(["a", "b"]))
    for _, x in t.walk():
        x._canon = x._n = None
    return t


def gen(d):
    g = Gen(d, ntags=d.int(2, 6), weird=False)
    g.hvars = d.bool(0.2)
    files, corpus = gen_corpus(d, g)
    if d.bool(0.15):
        # large formulas, and many variables
        n = d.choice([40, 100, 200, 255])
        kids = [T("ci", d.choice("abc")) for _ in range(n)]
        t = T("apply", "", kids)
        for _ in range(d.int(0, 3)):
            t = T("apply", "", [g.expr("small"), t, g.copy(t) if t.size() < 1500 else T("ci", "z")])
        corpus.append(t)
        files.append(Harvest([("expr", "big", None, t)]))
    qs = [(kinds(d, g, corpus), d.weighted((3, None), (2, 100000), (1, 1), (1, 3), (1, 0)),
           d.weighted((5, None), (1, 1), (1, 2), (1, 40)),
           d.weighted((4, "json"), (1, "xml"), (1, "mws-ids"))) for _ in range(d.int(4, 12))]
    return files, qs, d.bool(0.2)


def run(case, env, st):
    files, qs, ren = case
    flags = ["-c"] if ren else []
    hvars = any(x.kind != "c" for f in files for _, _, t in f.exprs() for _, x in t.walk())
    corpus = None if ren else corpus_of(files)
    with Case(env):
        idx = env.index(env.write_files([f.xml() for f in files]), flags)
        std = env.disk(idx, flags)
        # a directory can be open once only
        shutil.copytree(idx, idx + "-x")
        exp = env.disk(idx + "-x", flags + ["-x"])
        for q, size, off, fmt in qs:
            a = ask(std, q, "json", 100000)
            b = ask(exp, q, "json", 100000)
            st.evaluated()
            ca = Counter((u, x) for u, x, _ in a.hits)
            cb = Counter((u, x) for u, x, _ in b.hits)
            if a.total != b.total:
                raise Violation("total", "%r: standard %d, experimental %d" % (q, a.total, b.total))
            if ca != cb:
                raise Violation("hits", "%r: %s" % (q, diff_counter(ca, cb)))
            if a.qvars != b.qvars:
                raise Violation("variables", "%r: %r, %r" % (q, a.qvars, b.qvars))
            if corpus is not None and q.max_arity() <= 255 and \
                    len({x.name for _, x in q.walk() if x.kind == "v" and x.name}) <= 32:
                w, _ = expect(q, corpus)
                w = Counter((u, x) for u, x in w) if not isinstance(w, Counter) else w
                if w != cb:
                    raise Violation("hits", "%r: %s" % (q, diff_counter(w, cb)))
                st.count("compared with the reference")
            # a page of it
            p, r = ask(std, q, fmt, size, off), ask(exp, q, fmt, size, off)
            if fmt == "mws-ids":
                if (p.total, len(p.ids)) != (r.total, len(r.ids)):
                    raise Violation("ids", "%r: total %r, %d ids; total %r, %d ids" % (
                        q, p.total, len(p.ids), r.total, len(r.ids)))
                x, y = ask(std, q, fmt, 100000), ask(exp, q, fmt, 100000)
                if sorted(x.ids) != sorted(y.ids):
                    raise Violation("ids", "%r: %r, %r" % (q, x.ids[:50], y.ids[:50]))
            else:
                if p.total != r.total or len(p.hits) != len(r.hits):
                    raise Violation("page", "%r size %s from %s: total %d, %d hits; total %d, %d "
                                    "hits" % (q, size, off, p.total, len(p.hits), r.total,
                                              len(r.hits)))
                if Counter((u, x) for u, x, _ in r.hits) - ca:
                    raise Violation("page", "%r: hits that are none" % q)
            st.count(fmt)
            if ren:
                st.count("renamed")
            if hvars:
                st.count("with variables in the harvest")
            st.max("hits", a.total)
            if a.total and any(x.kind == "v" for _, x in q.walk()):
                st.nontriv((tuple(f.xml() for f in files), repr(q)),
                           {"query": repr(q)[:300], "hits": a.total})
        # pages put together
        q = qs[0][0]
        a = ask(std, q, "json", 100000)
        if 1 < a.total <= 60:
            step = 1 + a.total // 4
            got = Counter()
            for off in range(0, a.total, step):
                for u, x, _ in ask(exp, q, "json", step, off).hits:
                    got[(u, x)] += 1
            want = Counter((u, x) for u, x, _ in a.hits)
            if got != want:
                raise Violation("page", "%r in pages of %d: %s" % (q, step, diff_counter(want, got)))
            st.count("put together from pages")


def describe(case):
    files, qs, ren = case
    return describe_files(files) + "\nrename %s\n" % ren + "\n".join(repr(q) for q in qs)


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    sys.exit(Check("C24", "random corpora (also with large formulas, identifier renaming, variables "
                   "in the harvest) and queries of constants, named, repeated and anonymous "
                   "variables without ranges; both engines answer on the same index directory and "
                   "are compared with each other and with the reference matcher, also page by page "
                   "and for formula ids. Non-trivial: a query with variables and hits, distinct.",
                   [Part("engines", gen, run, 1500, 25000, lambda w: SearchEnv(w, b),
                         describe=describe)]).main())
