"""Search daemons over generated harvests."""
import os
import sys
from collections import Counter

sys.setrecursionlimit(20000)

import build
import daemon
from daemon import Scratch, run_tool, start
from model import *
from pbt import Violation


class SearchEnv:
    def __init__(self, worker, bdir):
        self.w = worker
        self.b = bdir
        self.scratch = Scratch("s%d" % worker)
        self.live = []

    def bin(self, name):
        return os.path.join(self.b, name)

    def write_files(self, texts, d=None, ext=".harvest", name="h"):
        d = d or self.scratch.fresh("h")
        for i, t in enumerate(texts):
            with open(os.path.join(d, "%s%03d%s" % (name, i, ext)), "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape"))
        return d

    def mwsd(self, args, **kw):
        d = start([self.bin("mwsd")] + args, worker=self.w, **kw)
        self.live.append(d)
        return d

    def mem(self, hdir, args=()):
        return self.mwsd(["-I", hdir] + list(args))

    def index(self, hdirs, args=(), out=None):
        out = out or os.path.join(self.scratch.fresh("x"), "idx")
        if isinstance(hdirs, str):
            hdirs = [hdirs]
        a = []
        for h in hdirs:
            a += ["-I", h]
        rc, o, e = run_tool([self.bin("mws-index"), "-o", out] + a + list(args))
        if rc != 0:
            raise Violation("index-failed", "mws-index exit %d: %s" % (rc, e[-400:]))
        return out

    def disk(self, idx, args=()):
        return self.mwsd(["-D", idx] + list(args))

    def schemad(self, args=(), **kw):
        d = start([self.bin("schemad")] + list(args), worker=self.w, **kw)
        self.live.append(d)
        return d

    def reset(self, check=True):
        """Stop the daemons of this case; a daemon that died is a violation."""
        bad = None
        for d in self.live:
            try:
                if not check:
                    d.kill()
                else:
                    d.stop()
            except Violation as v:
                bad = v
        self.live = []
        for n in os.listdir(self.scratch.path):
            self.scratch.drop(os.path.join(self.scratch.path, n))
        if bad is not None:
            raise bad

    def close(self):
        for d in self.live:
            try:
                d.kill()
            except Exception:
                pass
        self.scratch.close()


class Case:
    """Scope of one case: stops everything at the end, keeps the first violation."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        return self.env

    def __exit__(self, et, ev, tb):
        self.env.reset(check=et is None)
        return False


def ask(d, q, output="json", answsize=None, limitmin=None, extra="", pfx="m:"):
    st, h, body = d.post(query_xml(q, output, answsize, limitmin, pfx, extra))
    if st != 200:
        raise Violation("status", "%d for %r: %r" % (st, q, body[:300]))
    want = {"json": "application/json", "mws-ids": "application/json"}.get(output,
                                                                          "application/xml")
    if h.get("Content-Type") != want:
        raise Violation("content-type", "%s for output %s" % (h.get("Content-Type"), output))
    if output == "json":
        return parse_json_answer(body)
    if output == "mws-ids":
        return parse_ids_answer(body)
    return parse_xml_answer(body)


def corpus_of(files):
    """[(url, data, Indexed, T)] of parsed Harvest objects."""
    out = []
    for f in files:
        for url, data, t in f.exprs():
            out.append((url, data, Indexed(t), t))
    return out


def expect(query, corpus):
    return expected_hits(query, [(u, d, i) for u, d, i, _ in corpus])


def gen_corpus(d, g, nfiles=None, nexpr=None, shapes=None, data=False, many=None):
    """A few harvest files; urls are distinct unless the draw says otherwise."""
    files = []
    k = [0]
    nf = nfiles or d.weighted((5, 1), (2, 2), (1, 3))
    dup_urls = d.bool(0.05)

    def one():
        k[0] += 1
        shape = d.choice(shapes) if shapes else None
        if corpus and d.bool(0.25):
            t = g.copy(d.choice(corpus))
            if d.bool(0.6):
                nodes = [x for _, x in t.walk() if x.kind == "c" and not x.kids]
                if nodes:
                    d.choice(nodes).text = d.choice(g.texts)
        else:
            t = g.expr(shape)
        if g.hvars and d.bool(0.4):
            t = g.with_variables(t)
        corpus.append(t)
        if d.bool(0.3):
            t = g.decorate(t)
        url = "u%d" % (1 if dup_urls else k[0])
        return ("expr", url, None, t)
    corpus = []
    lo = 1
    for _ in range(nf):
        if many:
            n = many
        else:
            n = nexpr or d.weighted((4, 3), (3, 1), (3, 6), (1, 14))
        items = d.list(lo, max(n, lo), one, n=n)
        files.append(Harvest(items, pfx=d.choice(["m:", ""]), indent=d.bool(0.3)))
    return files, corpus


def diff_counter(exp, got, n=4):
    miss = list((exp - got).items())[:n]
    extra = list((got - exp).items())[:n]
    return "missing %s, unexpected %s" % (miss, extra)


def describe_files(files):
    return "\n".join("--- file %d\n%s" % (i, f.xml()[:6000]) for i, f in enumerate(files))
