"""C16: the symbol dictionary is a bijection that survives being stored."""
import c08
import c15
from searchlib import *


def symbol(d, pool):
    k = d.weighted((4, "pool"), (3, "short"), (2, "text"), (1, "long"), (1, "bytes"), (1, "prefix"))
    if k in ("pool", "prefix") and not pool:
        k = "short"
    if k == "pool":
        return d.choice(pool)
    if k == "prefix":
        s = d.choice(pool)
        return s[:-1] or b"x" if d.bool(0.5) else s + d.choice([b"x", b"\n", b"#", b" "])
    if k == "short":
        return b"%s#%s" % (d.choice([b"ci", b"cn", b"apply", b"m"]), d.choice([b"", b"x", b"1", b"\n"]))
    if k == "text":
        return c08.text(d, 1).encode("utf-8") or b"x"
    if k == "long":
        return bytes([d.int(1, 255)]) * d.choice([200, 5000, 100000])
    return bytes(d.list(1, 12, lambda: d.int(1, 255)))


def gen(d):
    pool = []

    def one():
        k = d.weighted((6, "put"), (4, "get"), (3, "reverse"), (1, "reload"),
                       (1, "bulk"))
        if k in ("put", "get"):
            s = symbol(d, pool)
            pool.append(s)
            return (k, s)
        if k == "reverse":
            return (k, d.int(0, len(pool) + 3))
        if k == "bulk":
            return (k, d.choice([3, 50, 300]))
        return (k,)
    return d.list(1, 60, one, n=d.weighted((1, 6), (3, 25), (1, 80)))


def run(case, env, st):
    cmds = []
    n = 0
    for op in case:
        if op[0] == "bulk":
            for i in range(op[1]):
                n += 1
                cmds.append(("put", b"bulk%d" % n))
        else:
            cmds.append(op)
    cmds.append(("missing",))
    # everything once more at the end
    known = [o[1] for o in cmds if o[0] in ("put", "get")]
    cmds += [("get", s) for s in sorted(set(known))]
    lines = [" ".join(hx(x) for x in o) for o in cmds]
    out = env.run("dict", lines)
    if len(out) != len(lines):
        raise Violation("results", "%d results for %d commands" % (len(out), len(lines)))
    ids = {}
    back = {}
    reloads = 0
    for o, r in zip(cmds, out):
        st.evaluated()
        where = "%r -> %s" % (o, r[:200])
        k = o[0]
        if k == "put":
            if not r.isdigit() or r == "0":
                raise Violation("put", where)
            i = int(r)
            if o[1] in ids:
                if ids[o[1]] != i:
                    raise Violation("changed", where + ", was %d" % ids[o[1]])
            elif i in back:
                raise Violation("shared", where + ", also %r" % back[i])
            ids[o[1]] = i
            back[i] = o[1]
        elif k == "get":
            want = str(ids[o[1]]) if o[1] in ids else "unknown"
            if r != want:
                raise Violation("get", where + ", expected " + want)
        elif k == "reverse":
            # ids are small numbers; ask for one that was given out
            want = "." + back[o[1]].hex() if o[1] in back else None
            if want is not None and r != want:
                raise Violation("reverse", where + ", expected " + want[:200])
            if want is None and r != "error":
                raise Violation("reverse", where + ": no such id")
        elif k == "reload":
            reloads += 1
            if r != "0":
                raise Violation("reload", where)
        elif k == "missing":
            if r != "error":
                raise Violation("missing", where)
    if len(ids) > 1 and reloads:
        st.nontriv(tuple(lines), "; ".join(x[:60] for x in lines)[:900])
    st.max("symbols", len(ids))
    st.count("stored and loaded", reloads)


LAST = (1 << 24) - 1 - 160              # ids of tokens have 24 bits, the first 160 are not symbols


def gen_full(d):
    n = LAST - d.choice([3, 20, 60, 120, 250])
    pool = ["p%d" % i for i in (1, 2, 95, 96, 97, 160, 161, 162, n)]
    num = [0]

    def expression():
        out = []
        for _ in range(d.int(1, 4)):
            if d.bool(0.4):
                num[0] += 1
                pool.append("n%d" % num[0])
                out.append(pool[-1])
            else:
                out.append(d.choice(pool))
        return (d.choice("hhq"), out)
    return n, [expression() for _ in range(d.int(100, 300))]


def run_full(case, env, st):
    n, exprs = case
    rc, o, e = run_tool([os.path.join(env.b, "bigdict"), str(n)], timeout=400,
                        stdin="".join("%s %s\n" % (h, " ".join(x)) for h, x in exprs).encode())
    if rc != 0:
        raise Violation("crash", "nearly full dictionary: %r: %s" % (rc, e[-1000:]))
    lines = o.decode().splitlines()
    if len(lines) != len(exprs):
        raise Violation("results", "%d results for %d expressions" % (len(lines), len(exprs)))
    given, back, refused = {}, {}, {}
    for (h, x), l in zip(exprs, lines):
        st.evaluated()
        l = l.split()
        where = "%d symbols known; %s %s -> %s" % (n, h, " ".join(x), " ".join(l))
        x = ["(apply)"] + x
        if l[0] != "0":
            known = [s for s in x if s in given or s[0] == "p" and int(s[1:]) <= n]
            if len(known) == len(x):
                if all(s in given for s in x):
                    raise Violation("full-lost", where + ": all its symbols had ids")
            elif h == "h" and len(given) and n + len(given) + len(x) + 20 < LAST:
                raise Violation("full-early", where)
            st.count("refused")
            continue
        if len(l) != len(x) + 1:
            raise Violation("full-length", where)
        for s, i in zip(x, l[1:]):
            i = int(i)
            if i <= 160:
                raise Violation("full-reserved", where + ": %s got the id of a variable or range" % s)
            if given.get(s, i) != i:
                raise Violation("full-changed", where + ": %s was %d" % (s, given[s]))
            if back.get(i, s) != s:
                raise Violation("full-shared", where + ": %s and %s share id %d" % (s, back[i], i))
            if h == "q" and s[0] == "n" and s not in given:
                raise Violation("full-unknown", where + ": %s is not known" % s)
            given[s] = i
            back[i] = s
    st.nontriv((n, repr(exprs)), "%d symbols known, %d expressions" % (n, len(exprs)))


def hx(x):
    return x if isinstance(x, str) else str(x) if isinstance(x, int) else "." + x.hex()


def describe(case):
    return "\n".join(" ".join(hx(x)[:300] for x in o) for o in case)


if __name__ == "__main__":
    b = build.ensure(["mwsd"], harness=[("stores", ["stores.cpp"], c15.FLAGS)])
    b2 = build.ensure(["mwsd"], "plain", harness=[("bigdict", ["bigdict.cpp"], c15.FLAGS)])
    sys.exit(Check("C16", "random sequences of put, get, reverse lookup and save/load over symbols "
                   "(short, long, markup, line breaks, arbitrary bytes but NUL, prefixes of each "
                   "other), compared with a plain map. Non-trivial: a history with several symbols "
                   "that stores and loads, distinct. "
                   "The second part encodes expressions with a dictionary that holds as many symbols as "
                   "a token has ids: distinct symbols must not share ids.",
                   [Part("histories", gen, run, 3000, 60000, lambda w: c15.Env(w, b),
                         describe=describe),
                    Part("nearly-full", gen_full, run_full, 2, 24, lambda w: c15.Env(w, b2),
                         workers=4, share=0.3)]).main())
