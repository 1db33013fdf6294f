"""C05: the index on disk answers like the index in memory."""
from searchlib import *
import memsector
import random


def gen(d):
    g = Gen(d)
    kind = d.weighted((6, "normal"), (2, "fanout"), (1, "many"))
    data = d.bool(0.4)
    if kind == "normal":
        g.hvars = d.bool(0.2)
        files, corpus = gen_corpus(d, g)
    else:
        n = d.int(20, 1500 if kind == "fanout" else 200)
        items = []
        for i in range(n):
            if kind == "fanout":
                k = (i * 7919) % 5000
                t = T("apply", "", [T("eq"), T(d.choice(["cn", "ci", "csymbol"]) if i % 10 == 0
                                               else "cn", str(k)), T("ci", "x")])
            else:
                t = g.expr("small")
            items.append(("expr", "u%d" % i, None, t))
        files = [Harvest(items)]
        corpus = [it[3] for it in items[:60]]
    if data:
        for fi, f in enumerate(files):
            n = d.int(1, 4)
            ids = ["d%d" % i for i in range(n)]
            items = [("data", x, "<p id=\"%s-%d\">text &amp; %s</p>" % (x, fi, x)) for x in ids]
            for it in f.items:
                items.append(it[:2] + (d.choice(ids + [None]),) + it[3:])
            f.items = items
    qs = d.list(1, 10, lambda: g.query(corpus, ranges=True, maxvars=20), n=8)
    if d.bool(0.5):
        qs.append(T("mws:qvar", kind="v", name="x"))
    if kind == "fanout":
        qs.append(T("apply", "", [T("eq"), T("mws:qvar", kind="v", name="x"), T("ci", "x")]))
        qs.append(T("apply", "", [T("eq"), T("mws:range", kind="r", low="100", high="2000"),
                                  T("ci", "x")]))
    return (files, qs, d.bool(0.15), d.weighted((4, "short"), (1, "long"), (1, "mixed")),
            d.int(0, 1 << 20), d.weighted((5, 1), (1, 2), (1, 3)), kind)


def canon(a):
    return a.total, Counter(a.hits), a.qvars


def run(case, env, st):
    files, qs, ci, links, lseed, opens, kind = case
    st.count("links " + links)
    st.count("shape " + kind)
    flags = ["-c"] if ci else []
    corpus = None if ci else corpus_of(files)
    with Case(env):
        h = env.write_files([f.xml() for f in files])
        idx = env.index(h, flags)
        if links != "short":
            p = os.path.join(idx, "index.memsector")
            b = open(p, "rb").read()
            r = random.Random(lseed)
            nb, k = memsector.to_long(b, (lambda n: True) if links == "long" else
                                      (lambda n: r.random() < 0.5))
            open(p, "wb").write(nb)
            st.count("nodes rewritten with 64-bit links", k)
        m = env.mem(h, flags)
        ref = [ask(m, q, answsize=100000) for q in qs]
        rx = [ask(m, q, output="xml", answsize=100000) for q in qs[:3]]
        rids = [ask(m, q, output="mws-ids") for q in qs[:4]]
        for k in range(opens):
            d = env.disk(idx, flags)
            for i, q in enumerate(qs):
                a = ask(d, q, answsize=100000)
                st.evaluated()
                if canon(a) != canon(ref[i]):
                    raise Violation("differs", "query %r opening %d: total %d/%d, %s, qvars %s/%s" %
                                    (q, k + 1, ref[i].total, a.total,
                                     diff_counter(Counter(ref[i].hits), Counter(a.hits)),
                                     ref[i].qvars, a.qvars))
                if corpus is not None and k == 0:
                    exp, _ = expect(q, corpus)
                    if Counter((u, x) for u, x, _ in a.hits) != exp:
                        raise Violation("disk-model", "query %r: %s" % (q, diff_counter(
                            exp, Counter((u, x) for u, x, _ in a.hits))))
                if a.hits and any(t.kind != "c" for _, t in q.walk()):
                    st.nontriv((repr(q), sorted(a.hits), links),
                               {"query": repr(q)[:200], "hits": len(a.hits), "links": links})
                st.max("hits", len(a.hits))
            for i, q in enumerate(qs[:3]):
                a = ask(d, q, output="xml", answsize=100000)
                sub = lambda a: Counter(zip(a.hits, map(tuple, a.substs)))
                if a.total != rx[i].total or sub(a) != sub(rx[i]):
                    raise Violation("differs-xml", repr(q))
            for i, q in enumerate(qs[:4]):
                a = ask(d, q, output="mws-ids")
                if a.total != rids[i].total or len(a.ids) != len(rids[i].ids) \
                        or a.qvars != rids[i].qvars:
                    raise Violation("differs-ids", "query %r: %s / %s" % (q, a.raw, rids[i].raw))
            if d is not env.live[-1]:
                raise RuntimeError
            env.live.pop()
            if lseed % 2:
                d.stop(graceful=True)
            else:
                d.kill()


def describe(case):
    files, qs, ci, links, lseed, opens, kind = case
    return describe_files(files) + "\nqueries (ci renaming %s, %s links, opened %d times):\n" % (
        ci, links, opens) + "\n".join(repr(q) for q in qs)


# writer with links beyond 32 bit: own harness on the writer API, sparse files
def gen_gap(d):
    nodes = d.int(1, 12)
    spec = []
    for i in range(nodes):
        k = d.int(1, 6)
        gap = d.weighted((3, 0), (1, 64), (2, (1 << 32) * 4 - 64), (2, (1 << 32) * 4 + 64),
                         (1, (1 << 33) * 4), (1, (1 << 34) * 4 + 4096), (1, 1 << 20))
        spec.append((k, gap, d.int(0, 1 << 16)))
    return spec


def run_gap(case, env, st):
    arg = ";".join("%d,%d,%d" % x for x in case)
    f = os.path.join(env.scratch.fresh("g"), "m")
    rc, o, e = run_tool([env.bin("longlink"), f, arg])
    st.evaluated()
    if rc != 0:
        raise Violation("long-links", "%s: %s" % (case, (o + e)[-400:].decode("utf-8", "replace")))
    total = sum(g for _, g, _ in case)
    st.count("file beyond 16 GB" if total >= 1 << 34 else "file below 16 GB")
    if total >= 1 << 34:
        st.nontriv(case, {"nodes (children, gap before, seed)": case[:6]})
    env.scratch.drop(os.path.dirname(f))


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index", "mwsindex"],
                     harness=[("longlink", ["longlink.cpp"], [])])
    sys.exit(Check("C05", "random harvests (small, with index nodes of up to 1500 children, with "
                   "data), indexed in memory and on disk, same random queries to both; the stored "
                   "index is also rewritten with some or all nodes using 64-bit links, and opened "
                   "several times. Part gaps: the node writer and reader over sparse files with "
                   "gaps beyond the 32-bit link range. Non-trivial: a query with a variable or "
                   "range and a hit, distinct (query, hits, link kind); a file beyond 16 GB.",
                   [Part("mem-vs-disk", gen, run, 900, 14000, lambda w: SearchEnv(w, b),
                         describe=describe),
                    Part("gaps", gen_gap, run_gap, 300, 4000, lambda w: SearchEnv(w, b),
                         share=0.2)], quick_s=80).main())
