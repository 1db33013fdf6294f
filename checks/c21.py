"""C21: distributing harvested documents over files, directories and include paths."""
from searchlib import *

EXTS = ["harvest", "harvest", "harvest", "xml", "h", "tar.gz", "mws-1", "harvest2"]


class Doc:
    def __init__(self, k, data, exprs):
        self.k, self.data, self.exprs = k, data, exprs


def gen_docs(d, g, n):
    corpus = []
    docs = []
    u = [0]
    again = d.bool(0.3)

    def one():
        ex = []
        for _ in range(d.weighted((5, 1), (3, 2), (1, 0), (1, 6))):
            u[0] += 1
            if corpus and d.bool(0.35):
                t = g.copy(d.choice(corpus))
            else:
                t = g.expr(d.choice(["small", "small", "medium"]))
            if g.hvars and d.bool(0.4):
                t = g.with_variables(t)
            corpus.append(t)
            # a url may come back, in the same document or another one
            ex.append(("u%d" % (d.int(1, u[0]) if again and d.bool(0.4) else u[0]), t))
        k = len(docs) + 1
        docs.append(Doc(k, "D%d" % k if d.bool(0.7) else None, ex))
        return docs[-1]
    return d.list(1, n, one, n=n), corpus


def good_name(d, ext, k):
    stem = d.choice(["a%d" % k, "z%d" % (99 - k), "%d" % k, "%%s%%n%d" % k, "b b%d" % k,
                     "x.y%d" % k, "%s%d" % (ext, k), "-r%d" % k, "\u00fc%d" % k, "q'\"%d" % k,
                     "L" * 150 + str(k), "a.%s.%d" % (ext, k), "A%d" % k])
    return stem + "." + ext


def bad_name(d, ext, k):
    return d.choice(["b%d%s" % (k, ext), "b%d.%s.bak" % (k, ext), "b%d.%sx" % (k, ext),
                     "b%d.%s" % (k, ext.upper()), ".b%d.%s" % (k, ext), "b%d.%s~" % (k, ext),
                     "b%d" % k, "b%d.x%s" % (k, ext), "b%d.old%s" % (k, ext),
                     "b%d.%s" % (k, ext[:-1] or "q")])


def layout(d, g, docs, decoys):
    """roots: how many include paths; files: (root, directories, name, docs, read)."""
    ext = d.choice(EXTS)
    opt = {"ext": ext, "recursive": d.bool(0.5), "flag_e": ext != "harvest" or d.bool(0.2),
           "dot": d.bool(0.25), "n": d.bool(0.25), "mode": d.weighted((5, "mem"), (2, "disk"), (1, "build")),
           "roots": d.weighted((4, 1), (2, 2), (1, 4)), "missing": d.bool(0.1),
           "slash": d.choice(["", "", "/", "/."]), "empty": d.bool(0.15)}
    dirs = []
    for r in range(opt["roots"]):
        dirs.append((r, ()))
    for k in range(d.weighted((2, 0), (2, 2), (2, 5), (1, 12))):
        r, p = d.choice(dirs)
        if len(p) < 6:
            dirs.append((r, p + (d.choice(["s%d", "d%d." + ext.replace("%", ""), "S %d", ".h%d",
                                           "0%d"]) % k,)))
    rest = d.shuffle(list(docs))
    files = []
    k = 0

    def put(ds, good):
        nonlocal k
        k += 1
        r, p = d.choice(dirs)
        name = good_name(d, ext, k) if good else bad_name(d, ext, k)
        if good and d.bool(0.2):            # a name that another directory has
            names = [f[2] for f in files if f[4] and (f[0], f[1]) != (r, p)]
            names = [x for x in names if (r, p, x) not in [f[:3] for f in files]]
            if names:
                name = d.choice(names)
        read = good and (opt["recursive"] or not p) and not any(x.startswith(".") for x in p)
        files.append((r, p, name, ds, read))
    top = d.bool(0.3)
    while rest:
        n = d.weighted((4, 1), (2, 2), (1, 5))
        put(rest[:n], True)
        if top and not any(f[:3] == (files[-1][0], (), files[-1][2]) for f in files[:-1]):
            f = files[-1]
            files[-1] = (f[0], (), f[2], f[3], True)
        rest = rest[n:]
    for x in decoys:
        put([x], False)
    return opt, files


def gen(d):
    g = Gen(d)
    g.hvars = d.bool(0.15)
    docs, corpus = gen_docs(d, g, d.weighted((3, 4), (3, 10), (1, 30)))
    decoys = []
    for i in range(d.weighted((1, 0), (3, 3), (1, 8))):
        t = g.expr("small")
        decoys.append(Doc(1000 + i, "BAD%d" % i, [("bad%d" % i, t)]))
    if not corpus:
        corpus = [T("apply", "", [T("plus"), T("ci", "x")])]
        docs.append(Doc(500, "D500", [("u500", corpus[0])]))
    qs = [T("qvar", "", kind="v", name="all")] + [g.query(corpus) for _ in range(d.int(2, 6))]
    return docs, [layout(d, g, docs, decoys) for _ in range(d.weighted((3, 1), (2, 2)))], qs


def file_xml(ds):
    items = []
    for i, x in enumerate(ds):
        if x.data is not None:
            items.append(("data", "%d" % i, x.data))
        for u, t in x.exprs:
            items.append(("expr", u, "%d" % i if x.data is not None else None, t))
    return Harvest(items).xml()


def run(case, env, st):
    docs, layouts, qs = case
    for opt, files in layouts:
        run_layout(opt, files, qs, env, st)


def run_layout(opt, files, qs, env, st):
    corpus = []
    url = []
    for r, p, name, ds, read in files:
        if read:
            for x in ds:
                for u, t in x.exprs:
                    corpus.append((len(corpus), x.data, Indexed(t), t))
                    url.append(u)
    with Case(env):
        base = env.scratch.fresh("t")
        args = []
        for r in range(opt["roots"]):
            root = os.path.join(base, "in %d" % r)
            os.mkdir(root)
            args += ["-I", root + opt["slash"]]
            if opt["empty"]:
                open(os.path.join(root, "empty." + opt["ext"]), "w").close()
        if opt["missing"]:
            args = ["-I", os.path.join(base, "nowhere")] + args
        for r, p, name, ds, read in files:
            dd = os.path.join(base, "in %d" % r, *p)
            os.makedirs(dd, exist_ok=True)
            with open(os.path.join(dd, name), "w", encoding="utf-8") as f:
                f.write(file_xml(ds))
        if opt["flag_e"]:
            args += ["-e", ("." if opt["dot"] else "") + opt["ext"]]
        if opt["recursive"]:
            args.append("-r")
        ignore = opt["n"]
        if opt["mode"] == "mem":
            d = env.mwsd(args + (["-n"] if ignore else []))
        else:
            if not corpus:
                st.count("nothing to index")
                rc, o, e = run_tool([env.bin("mws-index"), "-o", os.path.join(base, "x")] + args)
                if rc == 0:
                    raise Violation("index-of-nothing", "mws-index of no documents exits 0")
                return
            if opt["mode"] == "disk":
                ignore = False
                idx = os.path.join(base, "x")
                rc, o, e = run_tool([env.bin("mws-index"), "-o", idx] + args)
                if rc:
                    raise Violation("index-failed", "exit %d: %s" % (rc, e[-400:]))
                d = env.disk(idx)
            else:
                d = env.mwsd(["-D", os.path.join(base, "x")] + args + (["-n"] if ignore else []))
        st.count(opt["mode"] + (", recursive" if opt["recursive"] else "") +
                 (", data ignored" if ignore else ""))
        st.max("files", len(files))
        st.max("directory depth", max(len(f[1]) for f in files))
        seen = sum(1 for f in files if f[4])
        for q in qs:
            found, _ = expect(q, corpus)
            exp, want = Counter(), Counter()
            for (k, x), n in found.items():
                exp[url[k], x] += n
                want[url[k], x, "" if ignore else corpus[k][1] or ""] += n
            a = ask(d, q, answsize=100000)
            st.evaluated()
            got = Counter((u, x) for u, x, _ in a.hits)
            if got != exp:
                raise Violation("missing-document" if exp - got else "wrong-document",
                                "query %r, options %s: %s" % (q, opt, diff_counter(exp, got)))
            if a.total != sum(exp.values()):
                raise Violation("total", "query %r: %d, expected %d" %
                                (q, a.total, sum(exp.values())))
            got = Counter((u, x, h.strip()) for u, x, h in a.hits)
            if got != want:
                raise Violation("data", "query %r, options %s: %s" %
                                (q, opt, diff_counter(want, got)))
            if exp and (seen < len(files) or seen > 1):
                st.nontriv((repr(q), repr(sorted((f[0], f[1], f[2], f[4]) for f in files)),
                            opt["mode"]),
                           {"query": repr(q)[:200], "options": opt, "hits": a.total,
                            "files": ["%d/%s%s" % (f[0], "/".join(f[1] + (f[2],)),
                                                   "" if f[4] else " (not to be read)")
                                      for f in files][:8]})


def gen_many(d):
    g = Gen(d)
    n = d.int(90, 400)
    ts = [g.expr("small") for _ in range(d.int(1, 5))]
    docs = [Doc(i, "D%d" % i if i % 3 else None, [("u%d" % i, ts[i % len(ts)])])
            for i in range(n)]
    ndir = d.weighted((1, 1), (2, n // 4), (2, n))
    files = [(0, () if ndir == 1 else ("d%d" % (i % ndir),), "f%d.harvest" % i, [docs[i]], True)
             for i in range(n)]
    opt = {"ext": "harvest", "recursive": True, "flag_e": False, "dot": False, "n": d.bool(0.3), "mode": "mem",
           "roots": 1, "missing": False, "slash": "", "empty": False}
    return docs, opt, files, [T("qvar", "", kind="v", name="all"), g.query(ts)]


class Limited:
    """The environment of the search daemon, but with few file descriptors."""

    def __init__(self, env):
        self.env = env

    def __getattr__(self, n):
        return getattr(self.env, n)

    def mwsd(self, args):
        d = start(["/bin/sh", "-c", 'ulimit -n 48; exec "$@"', "sh", self.env.bin("mwsd")] + args,
                  worker=self.env.w)
        self.env.live.append(d)
        return d


def run_many(case, env, st):
    docs, opt, files, qs = case
    run_layout(opt, files, qs, Limited(env), st)


def describe(case):
    docs, layouts, qs = case
    o = []
    for opt, files in layouts:
        o.append(repr(opt))
        for r, p, name, ds, read in files:
            o.append("--- %d/%s%s\n%s" % (r, "/".join(p + (name,)), "" if read else " (decoy)",
                                          file_xml(ds)[:3000]))
    return "\n".join(o + ["queries:"] + [repr(q) for q in qs])


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    env = lambda w: SearchEnv(w, b)
    sys.exit(Check("C21", "random documents spread over random directory trees, file names, "
                   "extensions and include paths, with files that must not be read between them; "
                   "loaded by mwsd -I, by mws-index and mwsd -D, or by mwsd -D -I; hits, totals and "
                   "data are compared with a reference matcher over the documents that are to be "
                   "read. A second part loads hundreds of files with 48 file descriptors. "
                   "Non-trivial: a query with hits over several files or with files to be skipped, "
                   "distinct (query, layout, mode).",
                   [Part("layouts", gen, run, 4000, 60000, env, describe=describe, share=0.85),
                    Part("many", gen_many, run_many, 32, 500, env, share=0.15,
                         describe=lambda c: describe((c[0], [(c[1], c[2])], c[3]))[:20000])]).main())
