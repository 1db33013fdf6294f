"""C17: concurrent requests get the answers they would get alone."""
from searchlib import *
import random
import re
import socket
import struct
import threading
import time
import c10
import schemalib

TIME = re.compile(rb'"time" ?: ?[^,}]*|time="[^"]*"')


def gen(d):
    g = Gen(d, ntags=d.int(2, 6), weird=False)
    files, corpus = gen_corpus(d, g, data=True)
    kind = d.weighted((4, "mem"), (4, "disk"), (3, "schema"), (2, "ci"))
    bodies = []
    hot = d.bool(0.35)                      # few requests, always the same ones, many times

    def good():
        if kind == "schema":
            return schemalib.request_xml(d.choice(schemalib.gen(d)[0]), d.choice(["json", "xml"]))
        return query_xml(g.query(corpus, ranges=True), d.choice(["json", "xml", "mws-ids"]),
                         d.choice([None, 0, 1, 3, 1000]), d.choice([None, None, 0, 1, 2]))

    def one():
        k = d.weighted((8, "good"), (0 if hot else 2, "odd"))
        if k == "good":
            return good().encode("utf-8")
        return c10.body(d, g, corpus)
    bodies = d.list(1, 14, one, n=10)
    nclients = d.int(2, 14)
    clients = []
    if hot:
        for i in range(d.int(6, 14)):
            clients.append(d.list(1, 4, lambda: ("post", d.int(0, 13), 0), n=2))
        return files, kind, bodies, clients, d.int(20, 60)
    for _ in range(nclients):
        acts = d.list(1, 12, lambda: (d.weighted((14, "post"), (2, "split"), (1, "abort-body"),
                                                 (1, "abort-answer"), (1, "connect"), (1, "get"),
                                                 (1, "method")),
                                      d.int(0, 13), d.int(0, 1 << 20)), n=8)
        clients.append(acts)
    return files, kind, bodies, clients, d.int(1, 4)


def raw(port):
    s = socket.create_connection(("127.0.0.1", port), timeout=60)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s


def head(b, close=True):
    return (b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n%s\r\n" %
            (len(b), b"Connection: close\r\n" if close else b""))


def reset(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


def read_answer(f):
    """(status, content type, body) from a file object of a connection."""
    line = f.readline()
    if not line.startswith(b"HTTP/1.1 "):
        raise ConnectionError("no status line: %r" % line)
    status = int(line.split()[1])
    hd = {}
    while True:
        l = f.readline()
        if l in (b"\r\n", b"\n"):
            break
        if not l:
            raise ConnectionError("header ends early")
        k, _, v = l.partition(b":")
        hd[k.strip().lower()] = v.strip()
    n = int(hd.get(b"content-length", b"0"))
    body = f.read(n)
    if len(body) != n:
        raise ConnectionError("%d bytes announced, %d received" % (n, len(body)))
    return status, hd.get(b"content-type"), TIME.sub(b"", body), \
        hd.get(b"connection", b"").lower() == b"close"


def exchange(port, data, parts=None, rnd=None):
    s = raw(port)
    try:
        if parts:
            i = 0
            while i < len(data):
                k = rnd.randint(1, max(1, len(data) // parts))
                s.sendall(data[i:i + k])
                i += k
                time.sleep(rnd.random() * 0.004)
        else:
            s.sendall(data)
        with s.makefile("rb") as f:
            return read_answer(f)[:3]
    finally:
        s.close()


GET = b"GET / HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n"
METHODS = [b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
           b"OPTIONS / HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n",
           b"GET /x HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n"]


class Client(threading.Thread):
    def __init__(self, port, acts, bodies, expected, barrier, rounds):
        super().__init__(daemon=True)
        self.port, self.acts, self.bodies, self.expected = port, acts, bodies, expected
        self.barrier, self.rounds = barrier, rounds
        self.bad = None
        self.done = 0

    def run(self):
        try:
            self.barrier.wait(30)
            for r in range(self.rounds):
                for act in self.acts:
                    self.step(*act)
        except Exception as e:
            if self.bad is None:
                self.bad = ("connection", "%s: %s" % (type(e).__name__, e))
        finally:
            self.keep(None)

    conn = None

    def keep(self, _):
        if self.conn is not None:
            self.conn[0].close()
            self.conn = None

    def differs(self, what, exp, got):
        if exp != got and self.bad is None:
            self.bad = ("answer-differs", "%s: alone %r, concurrently %r" %
                        (what, exp[:2] + (exp[2][:600],), got[:2] + (got[2][:600],)))

    def step(self, how, which, sub):
        rnd = random.Random(sub)
        i = which % len(self.bodies)
        b = self.bodies[i]
        exp = self.expected
        if how == "post":
            # on a connection that is kept
            for attempt in (0, 1):
                fresh = self.conn is None
                try:
                    if fresh:
                        s = raw(self.port)
                        self.conn = (s, s.makefile("rb"))
                    self.conn[0].sendall(head(b, close=False) + b)
                    a = read_answer(self.conn[1])
                    break
                except (ConnectionError, BrokenPipeError):
                    self.keep(None)
                    if fresh:
                        raise
            if a[3]:
                self.keep(None)
            self.differs("body %d" % i, exp[i], a[:3])
            self.done += 1
        elif how == "split":
            a = exchange(self.port, head(b) + b, 8, rnd)
            self.differs("body %d in pieces" % i, exp[i], a)
            self.done += 1
        elif how == "abort-body":
            s = raw(self.port)
            s.sendall(head(b + b"xxxx") + b[:rnd.randint(0, len(b))])
            time.sleep(rnd.random() * 0.003)
            reset(s) if rnd.random() < 0.7 else s.close()
        elif how == "abort-answer":
            s = raw(self.port)
            s.sendall(head(b) + b)
            time.sleep(rnd.random() * 0.003)
            reset(s)
        elif how == "connect":
            s = raw(self.port)
            if rnd.random() < 0.5:
                s.sendall(b"POST / HT")
            time.sleep(rnd.random() * 0.003)
            s.close()
        elif how == "get":
            self.differs("GET /", exp["get"], exchange(self.port, GET))
        else:
            k = sub % len(METHODS)
            self.differs("method %d" % k, exp["m%d" % k], exchange(self.port, METHODS[k]))


def run(case, env, st):
    files, kind, bodies, clients, rounds = case
    with Case(env):
        if kind == "schema":
            dmn = env.schemad()
        else:
            h = env.write_files([f.xml() for f in files])
            dmn = env.disk(env.index(h)) if kind == "disk" else \
                env.mem(h, ["-c"] if kind == "ci" else [])
        expected = {}
        for i, b in enumerate(bodies):
            expected[i] = exchange(dmn.port, head(b) + b)
        expected["get"] = exchange(dmn.port, GET)
        for k, m in enumerate(METHODS):
            expected["m%d" % k] = exchange(dmn.port, m)
        barrier = threading.Barrier(len(clients))
        ths = [Client(dmn.port, acts, bodies, expected, barrier, rounds) for acts in clients]
        for t in ths:
            t.start()
        end = time.time() + 100
        for t in ths:
            t.join(max(0.1, end - time.time()))
        hung = sum(t.is_alive() for t in ths)
        if not dmn.alive():
            daemon.check_sanitizer(dmn.name, dmn.p.returncode, dmn.stderr())
            raise Violation("died:" + dmn.name, "exit %s: %s" % (
                dmn.p.returncode, daemon.crash_summary(dmn.stderr())))
        if hung:
            raise Violation("blocked", "%d of %d clients got no answer in 100 s" % (hung, len(ths)))
        for t in ths:
            if t.bad:
                raise Violation(*t.bad)
        st.evaluated(sum(t.done for t in ths))
        st.count(kind)
        for i, b in enumerate(bodies):
            again = exchange(dmn.port, head(b) + b)
            if again != expected[i]:
                raise Violation("later-answers", "%r then %r" % (expected[i], again))
        dmn.stop(graceful=True)
        env.live.remove(dmn)
        if len(ths) > 1:
            st.count("clients %s" % ("2-4" if len(ths) < 5 else "5-9" if len(ths) < 10 else "10-14"))
            st.nontriv((kind, tuple(bodies), repr(clients)),
                       "%s, %d clients x %d rounds, e.g. %r" % (kind, len(ths), rounds, clients[0][:6]))


SURE = ("answer-differs", "later-answers", "sanitizer")


def stop_checked(dmn):
    dmn.stop(graceful=True)


def describe(case):
    files, kind, bodies, clients, rounds = case
    return "%s, %d rounds\n%s\n%s\n%s" % (
        kind, rounds, "\n".join("body %d %r" % (i, b[:900]) for i, b in enumerate(bodies)),
        "\n".join("client %d: %r" % c for c in enumerate(clients)), describe_files(files))


if __name__ == "__main__":
    ba = build.ensure(["mwsd", "mws-index", "schemad"])
    bt = build.ensure(["mwsd", "mws-index", "schemad"], "tsan")
    daemon.ENV["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:ignore_noninstrumented_modules=1:" \
                                 "report_signal_unsafe=0:history_size=4:external_symbolizer_path=" \
                                 "/usr/bin/llvm-symbolizer-18"
    sys.exit(Check("C17", "2 to 14 concurrent clients, each with a sequence of actions (queries on a "
                   "kept connection, in pieces, aborted while sending or before reading the answer, "
                   "other methods, idle connections) over good and hostile bodies, against the "
                   "in-memory, on-disk, renaming and schema daemons; every answer is compared with "
                   "the answer to the same request alone, before and after. One part runs under "
                   "ThreadSanitizer (a race is a violation even if no answer differs), one under "
                   "AddressSanitizer. Non-trivial: at least two clients, distinct.",
                   [Part("tsan", gen, run, 180, 3600, lambda w: SearchEnv(w, bt),
                         describe=describe, workers=4, retry=3, sure=SURE),
                    Part("asan", gen, run, 320, 6000, lambda w: SearchEnv(w, ba),
                         describe=describe, workers=6, retry=3, sure=SURE)],
                   assumptions=["schedules are those the kernel and the two sanitizers produce",
                                "races inside libxml2, libmicrohttpd and leveldb are not seen by "
                                "ThreadSanitizer", "at most 14 connections at once: the daemon "
                                "accepts 20"], quick_s=100).main())
