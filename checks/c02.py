"""C02: paging and totals."""
from searchlib import *

CAP = 100000      # documented count limit (DEFAULT_QUERY_RESULT_TOTAL)


def gen(d):
    g = Gen(d)
    many = d.weighted((4, None), (3, 12), (2, 40), (1, 130))
    if many:
        # many expressions sharing formulas: several hits per formula
        base = [g.expr(d.choice(["small", "medium"])) for _ in range(d.int(1, 4))]
        items = []
        for i in range(many):
            t = g.copy(d.choice(base)) if d.bool(0.85) else g.expr("small")
            items.append(("expr", "u%d" % i, None, t))
        cut = d.int(0, len(items))
        files = [Harvest(x) for x in (items[:cut], items[cut:]) if x]
        corpus = [t for _, _, _, t in items]
    else:
        g.hvars = d.bool(0.15)
        files, corpus = gen_corpus(d, g)
    qs = d.list(1, 6, lambda: g.query(corpus), n=4)
    if d.bool(0.6):
        qs.append(T("mws:qvar", kind="v", name="x"))
    pages = d.list(1, 12, lambda: (d.weighted((6, "any"), (1, "zero"), (1, "end"), (1, "beyond"),
                                              (1, "huge")),
                                   d.int(0, 1000),
                                   d.weighted((4, "small"), (1, 0), (2, 1), (1, 30), (1, "all"),
                                              (1, "huge"), (1, "max")),
                                   d.int(0, 1000)), n=8)
    step = d.weighted((2, 7), (2, 1), (2, 3), (1, 30), (1, 64))
    return files, qs, pages, step, d.bool(0.35), d.shuffle(list(range(len(pages))))


HUGE = [2147483647, 2147483648, 4294967295, 4294967296, 4294967301, 2 ** 63, 10 ** 25]


def resolve(p, n):
    ok, ov, sk, sv = p
    off = {"any": ov % (n + 2), "zero": 0, "end": max(0, n - ov % 4), "beyond": n + ov % 50,
           "huge": HUGE[ov % len(HUGE)] - ov // 10}[ok]
    size = sk
    if sk == "small":
        size = sv % (n + 3)
    elif sk == "all":
        size = n
    elif sk == "huge":
        size = 1000000 + sv
    elif sk == "max":
        size = HUGE[sv % len(HUGE)]
    return off, size


def run(case, env, st):
    files, qs, pages, step, disk, order = case
    corpus = corpus_of(files)
    with Case(env):
        h = env.write_files([f.xml() for f in files])
        d = env.disk(env.index(h)) if disk else env.mem(h)
        for q in qs:
            exp, _ = expect(q, corpus)
            n = sum(exp.values())
            check_pages(d, q, n, pages, step, order, st)


def check_pages(d, q, n, pages, step, order, st):
    full = ask(d, q, answsize=CAP, limitmin=0)
    F = full.hits
    cap = min(n, CAP)
    if full.total != cap:
        raise Violation("total", "%r: total %d, model %d" % (q, full.total, cap))
    if len(F) != cap:
        raise Violation("full-page", "%r: %d hits of %d" % (q, len(F), cap))
    st.max("hits", n)
    for i in order:
        off, size = resolve(pages[i], cap)
        a = ask(d, q, answsize=size, limitmin=off)
        st.evaluated()
        if a.total != cap:
            raise Violation("total", "%r limitmin=%d answsize=%d: total %d, expected %d" %
                            (q, off, size, a.total, cap))
        if a.hits != F[off:off + size]:
            raise Violation("page", "%r limitmin=%d answsize=%d of %d: got %d hits %s, expected "
                            "%d %s" % (q, off, size, cap, len(a.hits), a.hits[:5],
                                       len(F[off:off + size]), F[off:off + size][:5]))
        st.count("empty page" if not a.hits else "partial page" if len(a.hits) < size else
                 "full page")
        if 0 < len(a.hits) < cap:
            st.nontriv((repr(q), off, size, tuple(a.hits)),
                       {"query": repr(q)[:200], "limitmin": off, "answsize": size, "total": n})
    if cap / step < 40:
        got = []
        off = 0
        while True:
            a = ask(d, q, output="xml", answsize=step, limitmin=off)
            st.evaluated()
            if not a.hits:
                break
            if len(a.hits) > step:
                raise Violation("page-size", "%r: %d hits, answsize %d" % (q, len(a.hits), step))
            got += a.hits
            off += step
            if off > cap + 3 * step:
                raise Violation("beyond-end", "%r" % q)
        if [(u, x) for u, x, _ in got] != [(u, x) for u, x, _ in F]:
            raise Violation("pages-concat", "%r: pages of %d give %d hits, full list %d" %
                            (q, step, len(got), len(F)))
        st.count("paged through")


def gen_cap(d):
    """A corpus with more hits than the count limit."""
    n = d.int(440, 520)
    return n, d.int(225, 250), d.bool(), d.list(1, 8, lambda: (d.weighted(
        (2, "any"), (2, "end"), (2, "cap")), d.int(0, 1000), d.weighted((1, "small"), (1, "all"),
                                                                       (1, "max")),
        d.int(0, 1000)), n=6)


def run_cap(case, env, st):
    nexpr, width, disk, pages = case
    # every expression: one wide node over distinct leaves, so width + 1 formulas each
    items = []
    for i in range(nexpr):
        kids = [T("cn", "%d" % ((i * 7 + j) if j % 2 else j)) for j in range(width)]
        items.append(("expr", "u%d" % i, None, T("set", "", kids)))
    n = sum(len({k.text for k in it[3].kids}) + 1 for it in items)
    q = T("mws:qvar", kind="v", name="x")
    with Case(env):
        h = env.write_files([Harvest(items).xml()])
        d = env.disk(env.index(h)) if disk else env.mem(h)
        cap = min(n, CAP)
        full = ask(d, q, answsize=CAP)
        st.max("hits", n)
        if full.total != cap or len(full.hits) != cap:
            raise Violation("cap-total", "%d hits in all: total %d, page %d" %
                            (n, full.total, len(full.hits)))
        for ok, ov, sk, sv in pages:
            off = {"any": ov * 97 % cap, "end": cap - ov % 40, "cap": CAP - 20 + ov % 40}[ok]
            size = {"small": sv % 60, "all": n, "max": HUGE[sv % len(HUGE)]}[sk]
            a = ask(d, q, answsize=size, limitmin=off)
            st.evaluated()
            if a.total != cap:
                raise Violation("cap-total", "limitmin=%d answsize=%d total %d" %
                                (off, size, a.total))
            if a.hits != full.hits[off:off + size]:
                raise Violation("cap-page", "limitmin=%d answsize=%d: %d hits, expected %d" %
                                (off, size, len(a.hits), len(full.hits[off:off + size])))
            st.nontriv((nexpr, width, disk, off, size), {"expressions": nexpr, "hits": n,
                                                         "limitmin": off, "answsize": size})


def describe(case):
    files, qs, pages, step, disk, order = case
    return describe_files(files) + "\nqueries (%s index), page step %d, pages %s:\n" % (
        "disk" if disk else "memory", step, pages) + "\n".join(repr(q) for q in qs)


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    sys.exit(Check("C02", "random harvests (many share formulas, so pages start and end inside "
                   "the hits of one formula) and pages of random offset and size, in random order, "
                   "compared with the slice of the full answer; the total with the model's count. "
                   "Part cap: corpora with more than 100000 hits. Non-trivial: a page that holds "
                   "some but not all hits, distinct (query, offset, size, hits).",
                   [Part("pages", gen, run, 1300, 20000, lambda w: SearchEnv(w, b),
                         describe=describe, share=0.8),
                    Part("cap", gen_cap, run_cap, 4, 60, lambda w: SearchEnv(w, b), workers=4,
                         share=0.4)],
                   quick_s=100).main())
