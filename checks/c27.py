"""C27: serving does not use up memory, descriptors or threads."""
from searchlib import *
import random
import re
import socket
import subprocess
import time
import c10
import c17
import schemalib
from pbt import Inconclusive


def unique(d, t):
    """Something that differs from request to request."""
    nodes = [x for _, x in t.walk()]
    leaves = [x for x in nodes if x.kind == "c" and not x.kids]
    for _ in range(d.int(0, 2)):
        k = d.choice(["text", "name", "tag"])
        if k == "text" and leaves:
            d.choice(leaves).text = "s@@"
        elif k == "tag" and leaves:
            d.choice(leaves).tag = "t@@"
        else:
            v = [x for x in nodes if x.kind == "v"]
            if v:
                d.choice(v).name = "n@@"
    for x in nodes:
        if x.kind == "r" and d.bool(0.6):
            x.low, x.high = d.choice([("-@@", x.high), (x.low, "@@"), ("0.@@", "1@@")])
    for x in nodes:
        x._canon = None
    return t


def gen(d):
    g = Gen(d, ntags=d.int(2, 6), weird=False)
    files, corpus = gen_corpus(d, g, data=True)
    kind = d.weighted((4, "mem"), (4, "disk"), (2, "exp"), (1, "ci"), (4, "schema"), (1, "schema-c"))
    schema = kind.startswith("schema")

    def good():
        if schema:
            ts = d.choice(schemalib.gen(d)[0])
            s = schemalib.request_xml(ts, d.choice(["json", "xml"]))
            if d.bool(0.6):
                s = s.replace("</mws:expr>", "</mws:expr><mws:expr><m:apply><m:ci>s@@</m:ci>"
                              "<m:t@@/></m:apply></mws:expr>", 1)
            return s
        return query_xml(unique(d, g.query(corpus, ranges=True)),
                         d.choice(["json", "xml", "mws-ids"]),
                         d.choice([None, 0, 1, 3, 1000]), d.choice([None, None, 0, 1, 2]))

    def one():
        k = d.weighted((5, "good"), (4, "odd"))
        b = good() if k == "good" else ""
        if b and d.bool(0.3):
            b = re.sub(r"<m:(\w+)", r'<m:\1 xref="x@@"', b, 1)
        b = b.encode("utf-8") if b else c10.body(d, g, corpus)
        return (d.weighted((12, "post"), (2, "abort-body"), (2, "abort-answer"), (1, "connect"),
                           (1, "get"), (1, "method"), (1, "split")), b, d.int(0, 1 << 20))
    return files, kind, d.list(1, 6, one, n=4)


def inuse(path):
    s = socket.socket(socket.AF_UNIX)
    try:
        s.connect(path)
        return int(s.recv(100))
    finally:
        s.close()


def settle(dmn):
    """(descriptors, threads) of the idle daemon; it joins its threads when it is asked again."""
    best = None
    for _ in range(40):
        c17.exchange(dmn.port, c17.GET)
        time.sleep(0.01)
        n = len(os.listdir("/proc/%d/fd" % dmn.p.pid))
        with open("/proc/%d/status" % dmn.p.pid) as f:
            t = int(re.search(r"Threads:\s+(\d+)", f.read()).group(1))
        if best == (n, t):
            break
        best = (n, t)
    return n, t


def act(port, how, b, rnd):
    if how == "post":
        h = c17.head(b)
        if rnd.random() < 0.5:
            h = h.replace(b"POST /", b"POST /%d?%d" % (rnd.randint(0, 1 << 30), rnd.randint(0, 1 << 30)))
        c17.exchange(port, h + b)
    elif how == "split":
        c17.exchange(port, c17.head(b) + b, 3, rnd)
    elif how == "abort-body":
        s = c17.raw(port)
        s.sendall(c17.head(b + b"xxxx") + b[:rnd.randint(0, len(b))])
        if rnd.random() < 0.3:
            time.sleep(0.001)
        c17.reset(s) if rnd.random() < 0.7 else s.close()
    elif how == "abort-answer":
        s = c17.raw(port)
        s.sendall(c17.head(b) + b)
        if rnd.random() < 0.3:
            time.sleep(0.001)
        c17.reset(s)
    elif how == "connect":
        s = c17.raw(port)
        if rnd.random() < 0.5:
            s.sendall(b"POST / HT")
        s.close()
    elif how == "get":
        c17.exchange(port, c17.GET)
    else:
        c17.exchange(port, c17.METHODS[rnd.randint(0, 2)])


N = 150


def run(case, env, st):
    files, kind, acts = case
    with Case(env):
        sock = os.path.join(env.scratch.fresh("m"), "s")
        e = {"LD_PRELOAD": env.bin("meminfo.so"), "VP_MEM": sock}
        if kind.startswith("schema"):
            dmn = env.schemad(["-c"] if kind == "schema-c" else [], env=e)
        else:
            h = env.write_files([f.xml() for f in files])
            args = ["-D", env.index(h)] if kind in ("disk", "exp") else ["-I", h]
            args += {"exp": ["-x"], "ci": ["-c"]}.get(kind, [])
            dmn = env.mwsd(args, env=e)
        rnd = random.Random(1)
        num = [100000]
        seen = []

        def phase(n):
            for _ in range(n):
                for how, b, _ in acts:
                    num[0] += 1
                    try:
                        act(dmn.port, how, b.replace(b"@@", b"%d" % num[0]), rnd)
                    except OSError as x:
                        if not dmn.alive():
                            dmn.stop()
                        raise Violation("no-answer", "%s: %s to %r" % (kind, x, b[:300]))
            fd, th = settle(dmn)
            try:
                seen.append((inuse(sock), fd, th))
            except OSError as x:
                if not dmn.alive():
                    dmn.stop()
                raise Inconclusive("no figures: %s" % x)
        phase(40)
        phase(N)
        phase(N)
        grown = seen[-1][0] - seen[0][0]
        if grown >= 16 * N:
            # is it something that is filled once? Every doubling of the requests must show growth
            st.count("looked at more closely")
            rounds = [40 + 2 * N]
            for n in (2, 4, 8, 16):
                phase(n * N)
                rounds.append(rounds[-1] + n * N)
                if seen[-1][0] - seen[-2][0] < 4 * n * N:
                    break
            else:
                raise Violation("memory", "%s: bytes allocated after %s rounds: %s" %
                                (kind, [40, 40 + N] + rounds, [x[0] for x in seen]))
        for i, what in ((1, "descriptors"), (2, "threads")):
            if seen[-1][i] - seen[0][i] > 3:
                phase(N)
                if seen[-1][i] - seen[0][i] > 6:
                    raise Violation(what, "%s: %s" % (kind, [x[i] for x in seen]))
        st.evaluated(len(acts) * (40 + 2 * N))
        st.count(kind)
        st.max("bytes grown in %d rounds (one-time)" % (2 * N), grown)
        st.nontriv((kind, repr(acts)), {"kind": kind, "acts": repr([(a[0], a[1][:120]) for a in acts])[:600],
                                        "allocated, descriptors, threads": seen})


def describe(c):
    files, kind, acts = c
    return "%s\n%s\n%s" % (kind, "\n".join("%s %r" % (a[0], a[1][:1500]) for a in acts),
                           describe_files(files))


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index", "schemad"], "plain",
                     harness=[("meminfo.so", ["meminfo.c"], ["-shared", "-fPIC", "-lpthread"])])
    sys.exit(Check("C27", "1 to 6 kinds of requests (as for C10 and C17: good queries, also with "
                   "symbols, elements and variables that are new in every request, hostile bodies, "
                   "requests given up while sending or before the answer, other methods) sent some "
                   "hundred times to a daemon of each kind; the bytes it has allocated (mallinfo2, "
                   "from a preloaded library), its descriptors and threads are read when it is "
                   "idle: they must not keep growing. Non-trivial: distinct (daemon, requests).",
                   [Part("endurance", gen, run, 160, 3000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["growth below 8 bytes per round is not seen"]).main())
