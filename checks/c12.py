"""C12: with identifier renaming on, single-letter variable names do not matter."""
from searchlib import *

LETTERS = "abcdefghijklmnoqrstuvwxyzABCDEFGHIJKLMNOQRSTUVWXYZ"     # neither P nor p
LONG = ["xy", "sin", "x1", "PP", "alpha", "xx"]


def is_letter(t):
    return t.kind == "c" and t.tag == "ci" and len(t.text.strip(SPACES)) == 1 and \
        t.text.strip(SPACES) in LETTERS


def spots(t):
    """Nodes whose name does not matter."""
    out = []

    def rec(t, op):
        if is_letter(t) and not op:
            out.append(t)
        for i, k in enumerate(t.kids):
            rec(k, i == 0 and t.tag == "apply" and t.kind == "c")
    rec(t, False)
    return out


def copy(t):
    return T(t.tag, t.text, [copy(k) for k in t.kids], dict(t.attrs), t.kind, t.name, t.low, t.high)


def rename(d, g, t):
    """The same tree with the letters replaced one-to-one."""
    t = copy(t)
    olds = sorted({x.text.strip(SPACES) for x in spots(t)})
    news = d.shuffle(list(LETTERS))[:len(olds)] if d.bool(0.6) else d.shuffle(olds)
    m = dict(zip(olds, news))
    for x in spots(t):
        x.text = m[x.text.strip(SPACES)]
        x._canon = None
    for _, x in t.walk():
        x._canon = None
    return t


def canonical(t):
    """Canonical form up to renaming: letters numbered by first occurrence; operators, which keep
    their name, stay distinct from arguments."""
    names = {}
    free = {id(x) for x in spots(t)}

    def rec(t):
        m = t.meaning()
        if id(t) in free:
            m = ("letter", names.setdefault(m, len(names)))
        return (m, tuple(rec(k) for k in t.kids))
    return rec(t)


def gen(d):
    tags = ["apply", "ci"] + [d.choice(["cn", "plus", "mrow", "mtext", "bvar"])
                              for _ in range(d.int(0, 2))]
    many = d.bool(0.08)
    letters = d.shuffle(list("xyzabPpf"))[:d.int(2, 6)]
    if many:
        letters = d.shuffle(list(LETTERS))[:d.int(8, 50)]
    g = Gen(d, texts=letters + d.choice([[], [d.choice(LONG)], LONG[:3]]), weird=False)
    g.tags = tags

    def fix(t):
        for _, x in t.walk():
            if x.kind == "c" and x.tag == "ci" and not x.text.strip(SPACES):
                x.text = letters[0]
            x._canon = x._n = None
        return t
    corpus = []

    def one():
        k = d.weighted((4, "tree"), (3, "variant"), (2, "renamed"))
        if many and (not corpus or d.bool(0.4)):
            ls = d.shuffle(letters)[:d.int(1, len(letters))]
            t = T("apply", "", [T("plus", "")] + [T("ci", x) for x in ls + ls[:d.int(0, 3)]])
        elif k == "tree" or not corpus:
            t = g.tree(d.weighted((1, d.int(1, 4)), (4, d.int(3, 14))))
        elif k == "renamed":
            t = rename(d, g, d.choice(corpus))
        else:
            t = vary(d, g, d.choice(corpus), letters)
        corpus.append(fix(t))
        return t
    d.list(1, 10, one)
    again = [rename(d, g, t) for t in corpus]
    qs = []

    def ask_one():
        k = d.weighted((3, "whole"), (3, "varied"), (3, "vars"), (2, "sub"))
        if k == "whole":
            t = rename(d, g, d.choice(corpus))
        elif k == "varied":
            t = vary(d, g, d.choice(corpus), letters)
            if d.bool(0.5):
                t = rename(d, g, t)
        elif k == "vars":
            t = g.query(corpus)
        else:
            t = g.copy(d.choice([x for _, x in d.choice(corpus).walk()]))
        fix(t)
        qs.append((t, rename(d, g, t)))
        return t
    d.list(1, 12, ask_one, n=8)
    return corpus, again, qs, d.bool(0.4)


def vary(d, g, t, letters):
    """One identifier somewhere gets another name."""
    t = g.copy(t)
    nodes = [x for _, x in t.walk() if x.kind == "c" and x.tag == "ci"]
    for _ in range(d.weighted((4, 1), (1, 2))):
        if nodes:
            d.choice(nodes).text = d.choice(letters + LONG[:2])
    for _, x in t.walk():
        x._canon = x._n = None
    return t


def harvest(ts):
    return Harvest([("expr", "u%d" % i, None, t) for i, t in enumerate(ts)]).xml()


def run(case, env, st):
    corpus, again, qs, disk = case
    with Case(env):
        dm = []
        for ts in (corpus, again):
            h = env.write_files([harvest(ts)])
            dm.append(env.disk(env.index(h, ["-c"]), ["-c"]) if disk else env.mem(h, ["-c"]))
        canon = [canonical(t) for t in corpus]
        for q, q2 in qs:
            a = answer(dm[0], q)
            st.evaluated()
            b = answer(dm[0], q2)
            if a != b:
                raise Violation("query-renamed", "%s%r as %r: %s" % (tot(a, b), q, q2,
                                                                    diff_counter(a[1], b[1])))
            c = answer(dm[1], q)
            if a != c:
                raise Violation("harvest-renamed", "%s%r: %s" % (tot(a, c), q,
                                                                diff_counter(a[1], c[1])))
            const = all(x.kind == "c" for _, x in q.walk())
            if const:
                cq = canonical(q)
                want = {"u%d" % i for i, k in enumerate(canon) if k == cq}
                got = {u for u, x in a[1] if x == "/*[1]"}
                if want != got:
                    raise Violation("whole", "%r finds %r, expected %r" % (q, sorted(got),
                                                                          sorted(want)))
                st.count("whole found" if want else "whole not found")
            if not any(is_letter(x) for _, x in q.walk()):
                want = plain(q, corpus)
                if want != a[1]:
                    raise Violation("letter-free", "%r: %s" % (q, diff_counter(want, a[1])))
                st.count("letter-free")
            if a[0] and any(spots(t) for t in corpus):
                st.nontriv((disk, harvest(corpus), repr(q)), repr(q) + " on " + harvest(corpus)[:600])
            st.count("disk" if disk else "memory")


def tot(a, b):
    return "" if a[0] == b[0] else "total %d/%d " % (a[0], b[0])


def answer(dmn, q):
    a = ask(dmn, q, answsize=100000)
    return a.total, Counter((u, x) for u, x, _ in a.hits)


def plain(q, corpus):
    """Hits of a query without single letters; distinct subterms as the index tells them apart."""
    out = Counter()
    for i, t in enumerate(corpus):
        free = {id(x) for x in spots(t)}

        def mark(x):
            m = x.meaning()
            return intern_tree(m + "\0" if id(x) in free else m, tuple(mark(k) for k in x.kids))
        seen = set()
        for path, x in t.walk():
            c = mark(x)
            if c in seen:
                continue
            seen.add(c)
            if match(q, c, {}) is not None:
                out[("u%d" % i, xpath(path))] += 1
    return out


def describe(case):
    corpus, again, qs, disk = case
    return "%s\n%s\n%s\n%s" % ("disk" if disk else "memory", harvest(corpus), harvest(again),
                               "\n".join("%r / %r" % q for q in qs))


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    sys.exit(Check("C12", "random expressions and queries over single letters, P, p and longer "
                   "identifiers at operator and argument positions, indexed and queried with ci "
                   "renaming, in memory and on disk: answers must not change when the letters of "
                   "each expression, or of the query, are replaced one-to-one; a query without "
                   "variables finds exactly the whole expressions equal to it up to renaming; a "
                   "query without letters finds what plain matching finds. Non-trivial: a query "
                   "with hits, over expressions with renamable letters, distinct.",
                   [Part("renaming", gen, run, 1500, 25000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["single letters are ASCII letters"]).main())
