"""C07: an index build that is cut short never passes for a complete index."""
from searchlib import *
import re
import resource
import signal
import subprocess

CALLS = "openat,open,creat,write,pwrite64,writev,rename,renameat,renameat2,close,fsync,fdatasync," \
        "ftruncate,fallocate,mkdir,unlink,mmap"
ERRS = {"openat": ["ENOSPC", "EMFILE"], "write": ["ENOSPC", "EIO"], "pwrite64": ["EIO"],
        "writev": ["ENOSPC"], "rename": ["EIO"], "close": ["EIO"], "fsync": ["EIO"],
        "fdatasync": ["EIO"], "ftruncate": ["EIO"], "mkdir": ["ENOSPC"], "unlink": ["EIO"]}
LINE = re.compile(r"^(\d+)\s+(\w+)\((.*)$")
CAP = 70        # fault points per corpus
STRACE = ["strace", "-f", "-qq"]


def points(trace, out):
    """[(call, n-th call of that kind of the main thread, what)] that touch the output."""
    seen = Counter()
    fds = {}
    main = None
    pts = []
    for l in trace.splitlines():
        m = LINE.match(l)
        if not m:
            continue
        tid, call, rest = m.groups()
        if main is None:
            main = tid
        if tid != main:
            continue
        seen[call] += 1
        mine = None
        ret = re.search(r"= (-?\d+)", rest)
        if '"%s' % out in rest:
            mine = rest.split('"')[1]
            if call in ("openat", "open", "creat") and ret and int(ret.group(1)) >= 0:
                fds[int(ret.group(1))] = (mine, "O_WRONLY" in rest or "O_RDWR" in rest)
                if not ("O_WRONLY" in rest or "O_RDWR" in rest or call == "creat"):
                    mine = None
        elif call in ("write", "pwrite64", "writev", "close", "fsync", "fdatasync", "ftruncate"):
            fd = re.match(r"(\d+)", rest)
            if fd and int(fd.group(1)) in fds:
                path, wr = fds[int(fd.group(1))]
                mine = path if wr else None
                if call == "close":
                    del fds[int(fd.group(1))]
        if mine is not None:
            pts.append((call, seen[call], os.path.relpath(mine, out)))
    return pts


def gen_corp(d, salt):
    g = Gen(d, weird=False)
    big = d.bool(0.04)
    n = d.weighted((3, 1), (4, 3), (2, 8), (1, 30))
    items = []
    for i in range(n):
        items.append(("data", "d%d" % i, ("<p>%s text %d</p>" % (salt, i)) * (9000 if big else 1)))
        items.append(("expr", "%s%d" % (salt, i), "d%d" % i if d.bool(0.7) else None,
                      g.expr(d.choice(["small", "medium", "small", "deep"]))))
    return [Harvest(items)]


def corp_expect(files):
    """Answers of the complete index to the probe: everything, with data."""
    want = Counter()
    for url, data, ix, t in corpus_of(files):
        for path in ix.first.values():
            want[(url, xpath(path), data)] += 1
    formulas = set()
    for url, data, ix, t in corpus_of(files):
        formulas |= set(ix.first)
    exact = [t for _, _, _, t in corpus_of(files)][0]
    return want, exact


def load(env, idx, candidates):
    """None if loading fails, else the index of the corpus whose answers are served."""
    try:
        dm = env.disk(idx)
    except daemon.StartFailed as e:
        if e.rc == 1:
            return None
        raise Violation("load-crash", e.msg)
    a = ask(dm, T("mws:qvar", kind="v", name="x"), output="json", answsize=1000000)
    got = Counter((u, x, re.sub(r"\s+$", "", d_ or "") or None) for u, x, d_ in a.hits)
    r = None
    why = ""
    for i, files in enumerate(candidates):
        want, exact = corp_expect(files)
        want = Counter({(u, x, d_): n for (u, x, d_), n in want.items()})
        tot = sum(want.values())
        if got == want and a.total == tot:
            b = ask(dm, exact, output="json", answsize=100000)
            e = expect(exact, corpus_of(files))
            if b.total == sum(e[0].values()) and b.total > 0:
                r = i
                break
            why = "the query for the first expression finds %d of %d" % (b.total, sum(e[0].values()))
        else:
            why = "corpus %d: total %s of %d; %s" % (i, a.total, tot, diff_counter(want, got, 2)[:600])
    dm.stop()
    env.live.remove(dm)
    if r is None:
        raise Violation("incomplete-served", why)
    return r


def one(env, argv, fault):
    """Runs a builder with a fault; (exit status, killed)"""
    pre = None
    if fault is None:
        cmd = argv
    elif fault[0] in ("size", "sizekill"):
        lim = fault[1]

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if fault[0] == "size" else signal.SIG_DFL)
        cmd = argv
    else:
        how, call, n = fault
        inj = "signal=KILL" if how == "kill" else "error=%s" % how
        cmd = STRACE + ["-o", "/dev/null", "-e", "trace=" + call,
                        "-e", "inject=%s:%s:when=%d" % (call, inj, n)] + argv

    def pre2():
        daemon._pre()
        if pre:
            pre()
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL, env=daemon.ENV, preexec_fn=pre2, timeout=120,
                       restore_signals=False)
    rc = p.returncode
    if rc == 0 or rc == 1:
        return rc
    if rc in (-9, 137) or (fault and fault[0] == "sizekill" and rc == -25):
        return rc
    if b"AddressSanitizer" in p.stderr or rc == 99:
        # an abort is a way of failing; memory errors are not
        t = p.stderr.decode("utf-8", "replace")
        if "ABRT" in t or "SIGABRT" in t:
            return rc
        raise Violation("builder-crash", daemon.crash_summary(t))
    return rc


def check_after(env, out, argv, fault, rc, files, others, st):
    r = load(env, out, [files] + others)
    if rc == 0 and r != 0:
        raise Violation("success-reported", "exit status 0, but the index %s (fault %s)" % (
            "can not be loaded" if r is None else "is another one", fault))
    if fault is None and not others and rc != 0:
        raise Violation("build-failed", "exit %s without a fault" % rc)
    st.count("refused" if r is None else "complete after the fault")


def gen_enum(d):
    return gen_corp(d, "a"), d.bool(0.3)


def run_enum(case, env, st):
    files, rebuild = case
    with Case(env):
        h = env.write_files([f.xml() for f in files])
        base = env.scratch.fresh("o")
        out = os.path.join(base, "idx")
        argv = [env.bin("rebuild"), out, h] if rebuild else \
            [env.bin("mws-index"), "-o", out, "-I", h]
        tr = os.path.join(base, "trace")
        subprocess.run(STRACE + ["-o", tr, "-e", "trace=" + CALLS] + argv,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=daemon.ENV,
                       timeout=120)
        if not os.path.exists(tr):
            raise Inconclusive("strace does not work here")
        pts = points(open(tr, errors="replace").read(), out)
        if len(pts) < 5:
            raise Inconclusive("strace does not work here")
        check_after(env, out, argv, None, 0, files, [], st)
        if len(pts) > CAP:
            # all but the writes, the last ones, and an even selection of the others
            keep = {i for i, p in enumerate(pts) if p[0] != "write"}
            keep |= set(range(len(pts) - 30, len(pts)))
            left = max(10, CAP - len(keep))
            keep |= {int(i * len(pts) / left) for i in range(left)}
            pts = [p for i, p in enumerate(pts) if i in keep]
        for call, n, what in pts:
            errs = ERRS.get(call, [])
            for how in ["kill"] + errs[:1 if CAP < 100 else 2]:
                env.scratch.drop(out)
                fault = (how, call, n)
                rc = one(env, argv, fault)
                st.evaluated()
                st.nontriv((files[0].xml(), fault), "%s at %s no. %d (%s): exit %s" %
                           (how, call, n, what, rc))
                st.count("%s %s" % (how if how == "kill" else "error", call))
                try:
                    check_after(env, out, argv, fault, rc, files, [], st)
                except Violation as v:
                    raise Violation(v.kind, "%s at %s no. %d (%s), exit %s: %s" %
                                    (how, call, n, what, rc, v.msg))


def gen_hist(d):
    a = gen_corp(d, "a")
    b = gen_corp(d, "b") if d.bool(0.7) else a
    # steps: (which corpus, builder, fault)
    def step():
        kind = d.weighted((3, "kill"), (3, "err"), (3, "size"), (2, "sizekill"), (2, None))
        return (d.int(0, 1), d.choice(["mws-index", "rebuild"]), kind, d.int(0, 1 << 16))
    return a, b, d.list(1, 3, step)


def run_hist(case, env, st):
    a, b, steps = case
    with Case(env):
        hs = [env.write_files([f.xml() for f in x]) for x in (a, b)]
        out = os.path.join(env.scratch.fresh("o"), "idx")
        done = [a, b]
        for who, builder, kind, pick in steps:
            argv = [env.bin("rebuild"), out, hs[who]] if builder == "rebuild" else \
                [env.bin("mws-index"), "-o", out, "-I", hs[who]]
            if kind in ("kill", "err"):
                call = ["write", "write", "write", "openat", "close", "rename", "fdatasync", "unlink",
                        "mkdir"][pick % 9]
                n = (pick // 9) % (60 if call in ("write", "openat", "close") else 8) + 1
                fault = ("kill" if kind == "kill" else ERRS[call][0], call, n)
            elif kind is None:
                fault = None
            else:
                fault = (kind, pick % 3000 if pick % 3 else pick)
            rc = one(env, argv, fault)
            st.evaluated()
            st.count("history step %s" % (kind or "no fault"))
            try:
                mine = [a, b][who]
                other = [[b, a][who]]
                check_after(env, out, argv, fault, rc, mine, other, st)
            except Violation as v:
                raise Violation(v.kind, "%s %s with fault %s exit %s: %s" %
                                (builder, "AB"[who], fault, rc, v.msg))
        st.nontriv((a[0].xml(), steps), "%s" % (steps,))


def describe(case):
    return "\n".join(describe_files(x) for x in case if isinstance(x, list) and x and
                     isinstance(x[0], Harvest)) + "\n" + repr(case[-1])[:500]


if __name__ == "__main__":
    CAP = 400 if "thorough" in sys.argv[1:] + [os.environ.get("VERIF_TIER")] else 70
    bd = build.ensure(["mwsd", "mws-index"], harness=[
        ("rebuild", ["rebuild.cpp"], ["-lxml2", "-lleveldb", "-lmicrohttpd", "-ljson-c", "-lz",
                                      "-lpthread"])])
    mk = lambda w: SearchEnv(w, bd)
    sys.exit(Check("C07", "for generated corpora every system call of the builder that creates, "
                   "writes, renames, syncs, closes or unlinks an output file is killed before or "
                   "made to fail; file size limits cut writes at arbitrary bytes; histories of "
                   "interrupted builds over the same directory. Afterwards the directory is "
                   "loaded and asked for everything. Non-trivial: a run with a fault, distinct.",
                   [Part("enumerate", gen_enum, run_enum, 8, 400, mk, describe=describe, share=2),
                    Part("histories", gen_hist, run_hist, 500, 8000, mk, describe=describe)],
                   level="fault_enumeration", quick_s=80,
                   assumptions=["faults are system call errors and kills; data handed to the "
                                "kernel before a kill survives (no power loss)"]).main())
