"""C15: the formula and document stores behave like simple maps."""
import c08
from searchlib import *
from daemon import Scratch, run_tool

FLAGS = ["-lxml2", "-lleveldb", "-lmicrohttpd", "-ljson-c", "-lz", "-lpthread"]


class Env:
    def __init__(self, w, b):
        self.b = b
        self.scratch = Scratch("st%d" % w)

    def run(self, kind, cmds):
        d = self.scratch.fresh("d")
        rc, o, e = run_tool([os.path.join(self.b, "stores"), kind, d], timeout=120,
                            stdin="\n".join(cmds).encode() + b"\n")
        if rc != 0:
            raise Violation("crash", "%s store: exit %r: %s" % (kind, rc, e[-1500:]))
        self.scratch.drop(d)
        return [l[2:] for l in o.decode().splitlines() if l.startswith("> ")]

    def close(self):
        self.scratch.close()


def hx(b):
    return "." + b.hex()


def bytes_(d):
    k = d.weighted((3, "short"), (2, "text"), (1, "empty"), (1, "long"), (1, "binary"))
    if k == "short":
        return b"/*[1]/*[%d]" % d.int(1, 300)
    if k == "text":
        return c08.text(d).encode("utf-8")
    if k == "empty":
        return b""
    if k == "long":
        return bytes([d.int(0, 255)]) * d.choice([100, 4096, 70000])
    return bytes(d.list(0, 20, lambda: d.int(0, 255)))


IDS = [0, 1, 2, 10, 11, 12, 21, 100, 101, 1000, 4294967295, 429496729, 4294967294]


def gen(d):
    ids = [d.choice(IDS) for _ in range(d.int(1, 4))] + [d.int(0, 4294967295)]
    big = d.bool(0.1)

    def one():
        k = d.weighted((8, "insert"), (4, "query"), (2, "manager"), (3, "put"), (3, "get"),
                       (1, "reopen"), (1, "many"))
        fid = d.choice(ids)
        if k == "insert":
            return (k, fid, d.weighted((2, 0), (3, d.int(0, 6)), (1, 4294967295)), bytes_(d),
                    bytes_(d))
        if k == "many":
            return (k, fid, d.choice([9, 10, 11, 40, 120 if big else 12]))
        if k == "query":
            return (k, fid, d.weighted((3, 0), (3, d.int(0, 12)), (1, d.int(0, 130)),
                                       (1, 4294967295)),
                    d.weighted((2, 1), (3, d.int(0, 12)), (3, 4294967295)),
                    d.weighted((5, 0), (1, d.int(1, 4))))
        if k == "manager":
            return (k, fid, d.weighted((3, 0), (1, d.int(0, 5))), d.choice([1, 5, 4294967295]))
        if k == "put":
            return (k, bytes_(d))
        if k == "get":
            return (k, d.weighted((4, d.int(0, 8)), (1, d.choice(IDS))))
        return (k,)
    return d.list(1, 60, one, n=d.weighted((1, 6), (3, 25), (1, 80)))


def commands(ops):
    """Command lines, with the operation each belongs to."""
    out = [("new", ("new",))]
    n = 0
    for op in ops:
        if op[0] == "insert":
            out.append(("insert %d %d %s %s" % (op[1], op[2], hx(op[3]), hx(op[4])), op))
        elif op[0] == "many":
            for i in range(op[2]):
                n += 1
                o = ("insert", op[1], 0, b"m%d" % n, b"/*[1]")
                out.append(("insert %d %d %s %s" % (o[1], o[2], hx(o[3]), hx(o[4])), o))
        elif op[0] == "put":
            out.append(("put " + hx(op[1]), op))
        else:
            out.append((" ".join(str(x) for x in op), op))
    return out


def check(kind, cmds, out, st):
    """Compares the results with the maps; returns the answers that do not depend on the store."""
    hits = {}
    docs = {}
    slices = {}         # fid -> order seen, until the next insertion
    common = []
    if len(out) != len(cmds):
        raise Violation("results", "%d results for %d commands" % (len(out), len(cmds)))
    for (line, op), r in zip(cmds, out):
        k = op[0]
        where = "%s store, %s -> %s" % (kind, line[:200], r[:300])
        if k in ("new", "reopen"):
            if r != "ok":
                raise Violation("open", where)
        elif k == "insert":
            if r != "0":
                raise Violation("insert", where)
            hits.setdefault(op[1], []).append("%d,%s,%s" % (op[2], hx(op[3]), hx(op[4])))
            slices.pop(op[1], None)
        elif k == "put":
            if not r.isdigit() or int(r) in docs or r == "0":
                raise Violation("put", where + ": not a new id")
            docs[int(r)] = op[1]
        elif k == "get":
            want = hx(docs[op[1]]) if op[1] in docs else "error"
            if r != want:
                raise Violation("get", where + ", expected " + want[:200])
        elif k == "query":
            got = r.split()
            have = hits.get(op[1], [])
            lo, size, stop = op[2:]
            n = min(size, max(0, len(have) - lo))
            rc = "0"
            if stop and n >= stop:
                n, rc = stop, "-1"
            if got[0] != rc or len(got) - 1 != n:
                raise Violation("slice", where + ": expected %s and %d of %d" % (rc, n, len(have)))
            if Counter(got[1:]) - Counter(have):
                raise Violation("foreign", where + ": not inserted under the id")
            seq = slices.setdefault(op[1], {})
            for i, x in enumerate(got[1:]):
                if seq.setdefault(lo + i, x) != x:
                    raise Violation("order", where + ": position %d was %s" % (lo + i, seq[lo + i]))
            if Counter(seq.values()) - Counter(have):
                raise Violation("order", where + ": slices overlap")
            if len(have) > 1 and n:
                st.count("slices of several hits")
        elif k == "manager":
            have = hits.get(op[1], [])
            lo, size = op[2:]
            page = have[lo:]
            unknown = [h for h in have if h.split(",")[0] != "0" and
                       int(h.split(",")[0]) not in docs]
            if unknown:
                # an entry with an id that was never returned: refused if it is reached
                if r != "error" and size >= len(have) and lo == 0:
                    raise Violation("manager", where + ": dangling document id accepted")
                continue
            n = min(size, len(page))
            want = Counter()
            for h in have:
                c, u, x = h.split(",")
                want["%s,%s,%s" % (hx(docs[int(c)] if c != "0" else b""), u, x)] += 1
            got = r.split()
            if got[0] != "0" or len(got) - 1 != n or Counter(got[1:]) - want:
                raise Violation("manager", where + ": expected %d of %r" % (n, list(want)[:5]))
            st.count("joined answers")


def run(case, env, st):
    cmds = commands(case)
    lines = [c for c, _ in cmds]
    for kind in ("mem", "disk"):
        out = env.run(kind, lines)
        check(kind, cmds, out, st)
        st.evaluated(len(lines))
    ins = sum(1 for _, o in cmds if o[0] == "insert")
    if ins and any(o[0] == "query" for _, o in cmds):
        st.nontriv(tuple(lines), "; ".join(l[:60] for l in lines)[:900])
    if any(o[0] == "reopen" for _, o in cmds):
        st.count("histories with reopening")


def describe(case):
    return "\n".join(c[:400] for c, _ in commands(case))


if __name__ == "__main__":
    b = build.ensure(["mwsd"], harness=[("stores", ["stores.cpp"], FLAGS)])
    sys.exit(Check("C15", "random sequences of insert, query (slices, callbacks that stop), joined "
                   "query, put, get and reopen with colliding, prefixing and extreme ids and binary "
                   "strings, run against the memory and the disk stores; every result is compared "
                   "with plain maps. Non-trivial: a history that inserts and queries, distinct.",
                   [Part("histories", gen, run, 2500, 40000, lambda w: Env(w, b),
                         describe=describe)],
                   assumptions=["histories that refer to documents never inserted must fail only "
                                "when the whole list of hits is asked for"]).main())
