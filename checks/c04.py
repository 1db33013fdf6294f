"""C04: range elements."""
from searchlib import *

NUMS = ["0", "1", "2", "3", "-1", "-2", "2.5", "-0.5", "10", "100", "-100", "1e3", "0.001", "-0",
        "+5", ".5", "7.", "007", "123456789", "-1e-3", "5e2", "1E2", "99999999999999999999",
        "1e39", "-1e39", "1e300", "-1e300", "1.7e308", "-1.7e308", "1e-30", "4294967296",
        "-2147483649", "9007199254740993", "16777217", "0.1", "3.4028236e38"]
JUNK = ["", "x", "abc", "-", "e3", "half", "é"]


def gen(d):
    texts = [d.choice(NUMS) for _ in range(d.int(1, 8))]
    if d.bool(0.5):
        texts.append(d.choice(JUNK))
    g = Gen(d, texts=texts)
    g.tags = d.choice([["cn", "apply", "plus"], ["cn", "ci", "apply", "eq"], ["cn", "apply"]])
    g.TAGS = g.tags

    def leaf():
        if d.bool(0.6):
            return T("cn", d.choice(texts))
        return T(d.choice(g.tags), d.choice(texts))
    g.leaf = leaf
    files, corpus = gen_corpus(d, g, shapes=["small", "small", "medium"])
    if d.bool(0.15):
        # many numbers under one index node
        n = d.int(20, 300)
        items = [("expr", "n%d" % i, None,
                  T("apply", "", [T("eq"), T("cn", str(i * d.int(1, 3) - n // 2)), T("ci", "x")]))
                 for i in range(n)]
        files.append(Harvest(items))
        corpus += [it[3] for it in items[:5]]

    def query():
        how = d.weighted((8, "q"), (1, "root"), (2, "dense"))
        if how == "root":
            return g.range_for(d.choice(texts))
        q = g.query(corpus, ranges=True, maxvars=12)
        leaves = [(t, i) for _, t in q.walk() for i, k in enumerate(t.kids)
                  if k.kind == "c" and not k.kids]
        p = 0.9 if how == "dense" else 0.3
        k = 0
        for t, i in leaves:
            if k < 12 and d.bool(p):
                k += 1
                t.kids[i] = g.range_for(t.kids[i].text)
        return q
    qs = d.list(1, 14, query, n=12)
    return files, qs, d.bool(0.2)


def run(case, env, st):
    files, qs, disk = case
    corpus = corpus_of(files)
    with Case(env):
        h = env.write_files([f.xml() for f in files])
        d = env.disk(env.index(h)) if disk else env.mem(h)
        for q in qs:
            rs = [t for _, t in q.walk() if t.kind == "r"]
            exp, _ = expect(q, corpus)
            n = sum(exp.values())
            a = ask(d, q, answsize=100000)
            st.evaluated()
            got = Counter((u, x) for u, x, _ in a.hits)
            if got != exp:
                raise Violation("range-missing" if exp - got else "range-extra",
                                "query %r: %s" % (q, diff_counter(exp, got)))
            if a.total != n:
                raise Violation("total", "query %r: %d, expected %d" % (q, a.total, n))
            if rs:
                st.count("ranges %d" % min(len(rs), 4))
                st.count("with hits" if n else "without hits")
                if any(t.low is None or t.high is None for t in rs):
                    st.count("open bound")
                if any(t.kind == "v" for _, t in q.walk()):
                    st.count("with variables")
                if n:
                    st.nontriv((repr(q), sorted(exp.items())), {"query": repr(q)[:300], "hits": n})


def describe(case):
    files, qs, disk = case
    return describe_files(files) + "\nqueries (%s index):\n" % ("disk" if disk else "memory") + \
        "\n".join(repr(q) for q in qs)


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    sys.exit(Check("C04", "random harvests full of numbers and queries with ranges around, at and "
                   "away from them, open and unreadable bounds, several ranges and variables; "
                   "compared with the reference matcher. Non-trivial: a query with a range and a "
                   "hit, distinct (query, hits).",
                   [Part("ranges", gen, run, 2200, 40000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["number texts that only begin with a number, hexadecimal and "
                                "non-finite ones are not generated: the documentation does not "
                                "say how they read"]).main())
