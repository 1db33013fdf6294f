"""C01: search exactness against the matcher of the model, and C03/C04 share its helpers."""
from searchlib import *


def gen(d):
    g = Gen(d)
    g.hvars = d.bool(0.12)
    files, corpus = gen_corpus(d, g)
    qs = d.list(1, 14, lambda: g.query(corpus), n=d.int(6, 14))
    disk = d.bool(0.12)
    return files, qs, disk


def run(case, env, st):
    files, qs, disk = case
    corpus = corpus_of(files)
    with Case(env):
        h = env.write_files([f.xml() for f in files])
        d = env.disk(env.index(h)) if disk else env.mem(h)
        st.count("disk" if disk else "memory")
        for q in qs:
            check_query(d, q, corpus, st)


def check_query(d, q, corpus, st):
    exp, formulas = expect(q, corpus)
    a = ask(d, q, answsize=100000)
    st.evaluated()
    got = Counter((u, x) for u, x, _ in a.hits)
    n = sum(exp.values())
    occ = occurrences(q)
    st.count("hits 0" if n == 0 else "hits 1" if n == 1 else "hits 2-9" if n < 10 else "hits 10+")
    if len(occ) > len({o[0] for o in occ}):
        st.count("repeated variable" + (", with hits" if n else ""))
    if any(t.kind == "v" and not t.name for _, t in q.walk()):
        st.count("anonymous variable")
    if q.kind == "v":
        st.count("query is a variable")
    st.max("query size", q.size())
    st.max("hits", n)
    if n and any(t.kind == "v" for _, t in q.walk()):
        st.nontriv((repr(q), sorted(exp.items())), {"query": repr(q)[:300], "hits": n})
    if got != exp:
        kind = "missing-hit" if exp - got else "wrong-hit"
        raise Violation(kind, "query %r: %s" % (q, diff_counter(exp, got)))
    if a.total != n:
        raise Violation("total", "query %r: total %d, hits %d" % (q, a.total, n))


def describe(case):
    files, qs, disk = case
    return describe_files(files) + "\nqueries (%s index):\n" % ("disk" if disk else "memory") + \
        "\n".join(repr(q) for q in qs)


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    sys.exit(Check("C01", "random harvests (small alphabets, so subterms coincide; deep, wide and "
                   "large shapes) and queries made from their subterms by abstracting, tying and "
                   "mutating; the hits of mwsd are compared with a reference matcher. Non-trivial: "
                   "a query with a variable and at least one hit, distinct (query, hits).",
                   [Part("match", gen, run, 2600, 40000, lambda w: SearchEnv(w, b),
                         describe=describe)]).main())
