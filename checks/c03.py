"""C03: the reported positions of query variables."""
from searchlib import *


def gen(d):
    g = Gen(d)
    files, corpus = gen_corpus(d, g)
    qs = d.list(1, 12, lambda: g.query(corpus), n=10)
    return files, qs, d.bool(0.2)


def subterm(t, path):
    for i in path:
        if i < 1 or i > len(t.kids):
            return None
        t = t.kids[i - 1]
    return t


def filled(q, hit, found):
    """Canonical form of q with named variables replaced by the found terms and anonymous ones
    by what stands at their place in the hit."""
    def rec(t, at, path):
        if t.kind == "v":
            if t.name:
                return found[path]
            return at.canon() if at is not None else None
        kids = []
        for i, k in enumerate(t.kids):
            sub = at.kids[i] if at is not None and i < len(at.kids) else None
            r = rec(k, sub, path + (i + 1,))
            if r is None:
                return None
            kids.append(r)
        return intern_tree(t.meaning(), tuple(kids))
    return rec(q, hit, ())


def run(case, env, st):
    files, qs, disk = case
    corpus = corpus_of(files)
    byurl = {}
    for u, _, _, t in corpus:
        byurl.setdefault(u, []).append(t)
    with Case(env):
        h = env.write_files([f.xml() for f in files])
        d = env.disk(env.index(h)) if disk else env.mem(h)
        for q in qs:
            occ = occurrences(q)
            j = ask(d, q, answsize=400)
            x = ask(d, q, output="xml", answsize=400)
            ids = ask(d, q, output="mws-ids")
            st.evaluated()
            want = [(n, relpath(p)) for n, p in occ]
            known = all(t.kind != "c" or any(t.meaning() == c.meaning and len(t.kids) == len(c.kids)
                                             for _, _, ix, _ in corpus for c in ix.first)
                        for _, t in q.walk()) if q.max_arity() > 255 else True
            if q.max_arity() <= 255:
                for a, name in ((j, "json"), (ids, "mws-ids")):
                    if a.qvars != want:
                        raise Violation("qvars", "%s answer to %r reports %s, expected %s" %
                                        (name, q, a.qvars, want))
            if len(x.hits) != len(j.hits):
                raise Violation("hits-differ", repr(q))
            for (url, xp, _), sub in zip(x.hits, x.substs):
                base = parse_xpath(xp)
                if base is None or base[0] != 1:
                    raise Violation("hit-position", xp)
                if [n for n, _ in sub] != [n for n, _ in occ]:
                    raise Violation("subst-names", "%r: %s, expected %s" % (q, sub, want))
                good = False
                why = None
                for t in byurl.get(url, []):
                    hit = subterm(t, base[1:])
                    if hit is None:
                        why = "no such position %s" % xp
                        continue
                    found = {}
                    for (n, sxp), (_, p) in zip(sub, occ):
                        sp = parse_xpath(sxp)
                        term = subterm(t, sp[1:]) if sp and sp[0] == 1 else None
                        if term is None:
                            why = "no term at %s for variable %s" % (sxp, n)
                            break
                        found[p] = term.canon()
                    else:
                        r = filled(q, hit, found)
                        if r is hit.canon():
                            good = True
                            break
                        why = "substituting %s does not give the hit at %s" % (sub, xp)
                if not good:
                    raise Violation("substitution", "query %r, hit %s %s: %s" % (q, url, xp, why))
            if occ and x.hits:
                st.count("hits with variables", len(x.hits))
                st.count("variables %d" % min(len(occ), 5))
                st.max("depth of variable", max(len(p) for _, p in occ))
                st.nontriv((repr(q), tuple(x.hits)), {"query": repr(q)[:300],
                                                      "first hit": x.hits[0][:2],
                                                      "substitution": x.substs[0][:4]})


def describe(case):
    files, qs, disk = case
    return describe_files(files) + "\nqueries (%s index):\n" % ("disk" if disk else "memory") + \
        "\n".join(repr(q) for q in qs)


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    sys.exit(Check("C03", "random harvests and queries made from their subterms; every reported "
                   "variable position is resolved in the harvested expression and substituted "
                   "back. Non-trivial: a query with a named variable and a hit, distinct (query, "
                   "hits).",
                   [Part("positions", gen, run, 1700, 30000, lambda w: SearchEnv(w, b),
                         describe=describe)]).main())
