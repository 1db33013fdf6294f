"""C25: analytics and index statistics report the true figures."""
from searchlib import *
import struct


def renamed(expr, prefix):
    """{id(node): meaning} with identifier renaming, as one table per expression."""
    out, table = {}, {}

    def rec(t, first):
        m = t.meaning()
        if t.tag == "ci" and len(m.encode("utf-8", "surrogateescape")) <= 4 and not first and \
                m not in ("ci#P", "ci#p"):
            m = prefix + "%d" % table.setdefault(m, len(table) + 1)
        out[id(t)] = m
        for i, k in enumerate(t.kids):
            rec(k, i == 0 and t.tag == "apply")
    rec(expr, False)
    return out


def add(formulas, expr, ren):
    """Adds the hits of an expression to {canonical formula: hits}."""
    if not ren:
        for c in Indexed(expr).first:
            formulas[c] += 1
        return
    names = renamed(expr, ren)
    seen = set()

    def rec(t):
        c = intern_tree(names[id(t)], tuple(rec(k) for k in t.kids))
        seen.add(c)
        return c
    rec(expr)
    for c in seen:
        formulas[c] += 1


def measure(c):
    """(size, depth) of a canonical formula"""
    n, dep = 1, 0
    for k in c.kids:
        a, b = measure(k)
        n += a
        dep = max(dep, b + 1)
    return n, dep


def gen_files(d, weird=True):
    # no variables in the harvest
    g = Gen(d, ntags=d.int(2, 6), weird=weird)
    files, corpus = gen_corpus(d, g)
    if d.bool(0.2):
        # texts that look like symbols with their element
        t = [T(d.choice(["ci", "a"]), d.choice(["a#b", "#", "C#", "ci#x", "##", "#a"]))
             for _ in range(d.int(1, 3))]
        files.append(Harvest([("expr", "h", None, T("list", "", t))]))
    if d.bool(0.1):
        n = d.choice([200, 254, 255, 256, 300])
        t = T("apply", "", [T("cn", str(i % d.choice([2, 1000]))) for i in range(n)])
        for _ in range(d.int(0, 2)):
            t = T("list", "", [g.expr("small"), t])
        files.append(Harvest([("expr", "wide", None, t)]))
    if d.bool(0.1):
        # the same symbol with many arities, and many children of one node
        t = [T("set", "", [T("ci", "k%d" % j) for j in range(i)]) for i in range(d.int(2, 40))]
        files.append(Harvest([("expr", "w%d" % i, None, x) for i, x in enumerate(t)]))
    return files


def gen(d):
    files = gen_files(d)
    ren = d.bool(0.3)
    if ren:
        # a renamed identifier is shown like one that has this name
        for f in files:
            for _, _, t in f.exprs():
                for _, x in t.walk():
                    if x.text.strip(SPACES).startswith("~"):
                        x.text = "t"
                        x._canon = None
                for _, x in t.walk():
                    x._canon = None
        # a term that can not be indexed would shift the names
        files = [f for f in files if all(t.max_arity() <= 255 for _, _, t in f.exprs())] or \
            [Harvest([("expr", "u", None, T("ci", "x"))])]
    return files, ren, d.weighted((4, None), (1, d.int(0, 5)))


def read_dump(o):
    """[(hits, depth, size, canonical formula)], ended"""
    lines = o.decode().split("\n")
    lines = [l for l in lines if l[:1].isdigit() or l.startswith(("begin ", "end"))]
    if not lines or not lines[0].startswith("begin "):
        raise Violation("dump", repr(lines[:2]))
    out = []
    for l in lines[1:]:
        if l == "end":
            continue
        w = l.split(" ")
        toks = []
        for x in w[3:]:
            n, tag, text = x.split(":")
            toks.append((int(n), bytes.fromhex(tag).decode("utf-8", "surrogateescape"),
                         bytes.fromhex(text).decode("utf-8", "surrogateescape")))
        stack = []
        for n, tag, text in reversed(toks):
            if "#" in tag or not tag:
                raise Violation("dump", "element called %r in %s" % (tag, l[:300]))
            if len(stack) < n:
                raise Violation("dump", "not a tree: " + l[:300])
            kids = tuple(stack.pop() for _ in range(n))
            stack.append(intern_tree(tag + "#" + text, kids))
        if len(stack) != 1:
            raise Violation("dump", "not a tree: " + l[:300])
        out.append((int(w[0]), int(w[1]), int(w[2]), stack[0]))
    return int(lines[0].split()[1]), out, lines[-1] == "end"


def show(c):
    return c.meaning + ("(%s)" % ", ".join(show(k) for k in c.kids) if c.kids else "")


def run(case, env, st):
    files, ren, stop = case
    want = Counter()
    for f in files:
        for _, _, t in f.exprs():
            add(want, t, ren and 'ci#~')
    with Case(env):
        idx = env.index(env.write_files([f.xml() for f in files]), ["-c"] if ren else [])
        rc, o, e = run_tool([env.bin("analyze-dump"), "-I", idx])
        if rc != 0:
            raise Violation("analytics-failed", "exit %s %s" % (rc, e[-300:]))
        nroot, got, ended = read_dump(o)
        st.evaluated(max(1, len(got)))
        if not ended:
            raise Violation("dump", "no end")
        forms = [c for _, _, _, c in got]
        twice = [c for c, n in Counter(forms).items() if n > 1]
        if twice:
            raise Violation("twice", show(twice[0])[:500])
        if set(forms) != set(want):
            raise Violation("formulas", "missing %s, not harvested %s" % (
                [show(c)[:300] for c in set(want) - set(forms)][:3],
                [show(c)[:300] for c in set(forms) - set(want)][:3]))
        size = dep = 0
        for h, dd, s, c in got:
            m = measure(c)
            size += m[0]
            dep += m[1]
            if (s, dd) != m:
                raise Violation("measures", "%s: size %d depth %d" % (show(c)[:300], s, dd))
            if h != want[c]:
                raise Violation("hits", "%s: %d, should be %d" % (show(c)[:300], h, want[c]))
        roots = len({(c.meaning, len(c.kids)) for c in want})
        if nroot != roots:
            raise Violation("root", "%d children, should be %d" % (nroot, roots))
        rc, o, e = run_tool([env.bin("analytics/analyze_example"), "-I", idx])
        exp = "Root has %d children\nIndex contains %d hits\nIndex contains %d unique expressions\n" \
            "Average expression depth is %s\nAverage expression size is %s\n" % (
                roots, sum(want.values()), len(want), "%f" % (dep / len(want)),
                "%f" % (size / len(want)))
        o = "".join(l + "\n" for l in o.decode().split("\n")
                    if l.startswith(("Root", "Index contains", "Average")))
        if rc != 0 or o != exp:
            raise Violation("example", "exit %s\n%s\nexpected\n%s" % (rc, o, exp))
        if stop is not None:
            rc, o, e = run_tool([env.bin("analyze-dump"), "-I", idx],
                                env=dict(daemon.ENV, STOP=str(stop)))
            _, some, _ = read_dump(o)
            if rc != 0 or some != got[:stop]:
                raise Violation("stop", "exit %s, %d expressions shown, stop after %d" %
                                (rc, len(some), stop))
            st.count("stopped early")
        # the figures do not depend on how the search daemon counts
        if not ren:
            dmn = env.disk(idx)
            a = ask(dmn, T("mws:qvar", kind="v", name="x"), answsize=1)
            if a.total != min(sum(want.values()), 100000):
                raise Violation("total", "%d, but %d hits" % (a.total, sum(want.values())))
        st.count("renamed" if ren else "plain")
        st.max("formulas", len(want))
        if len(want) > 3:
            st.nontriv((tuple(f.xml() for f in files), ren),
                       {"expressions": sum(len(f.exprs()) for f in files), "formulas": len(want),
                        "hits": sum(want.values())})


# ---------------------------------------------------------------- the log

def gen_log(d):
    files = gen_files(d)
    while len(files) < 6 and d.bool(0.6):
        files += gen_files(d)
    more = []
    for f in files[:8]:
        how = d.weighted((10, "good"), (1, "cut"), (1, "empty"), (1, "other"))
        more.append((f, how))
    return more, d.bool(0.3), d.bool(0.5)


def run_log(case, env, st):
    files, onedir, ren = case
    if ren and any(t.max_arity() > 255 for f, _ in files for _, _, t in f.exprs()):
        ren = False
    flags = ["-c"] if ren else []
    with Case(env):
        dirs = []
        want = Counter()
        lines = []
        top = env.scratch.fresh("l")
        for i, (f, how) in enumerate(files):
            x = f.xml().encode("utf-8", "surrogateescape")
            if how == "cut":
                x = x[:x.index(b"<mws:expr") + 5] if b"<mws:expr" in x else b"<"
            elif how == "empty":
                x = b""
            d = os.path.join(top, "all" if onedir else "d%d" % i)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "f%d%s" % (i, ".txt" if how == "other" else ".harvest")),
                      "wb") as fh:
                fh.write(x)
            if d not in dirs:
                dirs.append(d)
            if how == "good":
                for _, _, t in f.exprs():
                    add(want, t, ren and '~')
            lines.append((sum(want.values()), len(want)))
        log = os.path.join(top, "log")
        args = [a for d in dirs for a in ("-I", d)] + flags
        dmn = env.mwsd(args + ["-s", log])
        got = open(log).read().split("\n")
        st.evaluated()
        if len(got) < 1 or [w.strip() for w in got[0].lstrip("#").split(",")] != \
                ["<formulae>", "<unique>", "<size>"] or got[-1] != "":
            raise Violation("log", repr(got))
        rows = [tuple(int(w) for w in l.split(",")) for l in got[1:-1]]
        if len(rows) != len(files):
            raise Violation("log", "%d lines for %d files" % (len(rows), len(files)))
        if onedir:
            # in any order
            if rows[-1][:2] != lines[-1] or any(
                    a > b for r, s in zip(rows, rows[1:]) for a, b in zip(r, s)):
                raise Violation("log", "%r, expected %r at the end" % (rows, lines[-1]))
        elif [r[:2] for r in rows] != lines:
            raise Violation("log", "%r, expected %r" % ([r[:2] for r in rows], lines))
        a = ask(dmn, T("mws:qvar", kind="v", name="x"), answsize=0)
        if a.total != sum(want.values()):
            raise Violation("total", "%d, but %d hits" % (a.total, sum(want.values())))
        # the index has the predicted size
        if want:
            for k in {len(dirs)} if onedir else {1, 2, len(dirs)} & set(range(len(dirs) + 1)):
                if onedir or lines[k - 1][0]:
                    idx = env.index(dirs[:k], flags)
                    f = open(os.path.join(idx, "index.memsector"), "rb").read()
                    size = struct.unpack("<Q", f[8:16])[0]
                    if (size, len(f) - 28) != (rows[-1 if onedir else k - 1][2],) * 2:
                        raise Violation("size", "predicted %d, index of %d in a file of %d" % (
                            rows[-1 if onedir else k - 1][2], size, len(f)))
                    st.count("sizes compared")
            st.nontriv(tuple(f.xml() for f, _ in files), {"log": got})


def describe(case):
    files = [f if isinstance(f, Harvest) else f[0] for f in case[0]]
    return describe_files(files) + "\n%r" % ([x[1] for x in case[0] if not isinstance(x, Harvest)],) \
        + "\n%r" % (case[1:],)


LINKS = ["-lxml2", "-licuuc", "-ljson-c", "-lmicrohttpd", "-lleveldb", "-lz", "-lpthread"]

if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index", "analyze_example"],
                     harness=[("analyze-dump", ["analyze.cpp"], LINKS)])
    env = lambda w: SearchEnv(w, b)
    sys.exit(Check("C25", "random harvests (repeated subterms, wide and deep expressions, odd names, "
                   "identifier renaming), indexed; an analytics program of the check and "
                   "analyze_example run on the index, and what they report is compared with the "
                   "distinct subterms of the generated expressions. In a second part mwsd loads "
                   "files (also cut, empty, with another extension) from one or several "
                   "directories and logs statistics, which are compared with the same reference "
                   "and with the size of the index that mws-index writes. Non-trivial: more than "
                   "three formulas (a log with formulas), distinct.",
                   [Part("analytics", gen, run, 1500, 25000, env, describe=describe, share=0.6),
                    Part("log", gen_log, run_log, 700, 10000, env, describe=describe, share=0.4)],
                   assumptions=["no query variables in harvests"]).main())
