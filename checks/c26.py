"""C26: the command lines of the daemons; starting, serving and stopping."""
import http.client
import json
import re
import signal
import socket
import subprocess
import tempfile
import threading
import time

from searchlib import *
import daemon
from daemon import ENV, free_port, check_sanitizer, crash_summary, run_tool, scratch_root
from pbt import Inconclusive

OPTS = {
    "mwsd": {"I": "include-harvest-path", "n": "ignore-harvest-data", "D": "data-path",
             "x": "experimental-query-engine", "p": "mws-port", "i": "pid-file",
             "l": "log-file", "r": "recursive", "c": "enable-ci-renaming",
             "e": "harvest-file-extension", "f": "delete-old-data", "6": "enable-ipv6",
             "s": "log-index-stats", "d": "daemonize", "v": "verbose"},
    "schemad": {"p": "schema-port", "i": "pid-file", "l": "log-file",
                "c": "enable-ci-renaming", "6": "enable-ipv6", "d": "daemonize",
                "v": "verbose"},
    "mws-index": {"I": "include-harvest-path", "o": "output-directory", "r": "recursive",
                  "e": "harvest-file-extension", "c": "enable-ci-renaming"},
    "docs2harvest": {"o": "output-directory", "x": "document-uri-xpath", "c": "config-file",
                     "n": "no-data"},
    "harvests2json": {"I": "index-path", "H": "harvest-path", "c": "enable-ci-renaming",
                      "e": "harvest-file-extension", "r": "recursive"},
}
NOARG = set("nxrcf6dv")
BADPORTS = ["0", "65536", "-1", "abc", "", "70000", "1000000", "-80", "x80"]


def gen(d):
    tool = d.weighted((3, "mwsd"), (1, "schemad"))
    o = {}
    src = None
    if tool == "mwsd":
        src = d.weighted((5, "mem"), (3, "disk"), (3, "build"), (2, "reuse"), (1, "rebuild"),
                         (1, "damaged"), (1, "absent"), (1, "none"), (1, "nothing"),
                         (1, "damaged+I"))
        for f in "rcn":
            if d.bool(0.4):
                o[f] = None
        if d.bool(0.3):
            o["e"] = d.choice(["xml", "harvest"])
        if d.bool(0.3):
            o["s"] = "stats"
        if src in ("disk", "reuse", "build", "rebuild") and d.bool(0.25):
            o["x"] = None
        if src == "rebuild" or (src != "damaged+I" and d.bool(0.2)):
            o["f"] = None
    else:
        if d.bool(0.3):
            o["c"] = None
    for f, p in (("i", 0.5), ("l", 0.5), ("6", 0.15), ("v", 0.15), ("d", 0.3)):
        if d.bool(p):
            o[f] = None
    if "i" in o:
        o["i"] = "pid"
    if "l" in o:
        o["l"] = "log"
    roots = d.weighted((3, 1), (1, 2))
    bad = d.weighted((8, None), (1, "port"), (1, "option"), (1, "param"), (1, "missing"),
                     (1, "inuse"), (1, "logdir"), (1, "piddir"))
    if bad == "logdir":
        o["l"] = "nodir/log"
    if bad == "piddir":
        o["i"] = "nodir/pid"
    order = [(f, d.int(0, 3), d.bool(0.5)) for f in d.shuffle(sorted(o) + ["p", "SRC"])]
    badval = d.choice(BADPORTS) if bad == "port" else \
        d.choice(["-Z", "--nope", "--mwsport", "-", "--port=1=2", "-%"]) if bad == "option" else None
    return dict(tool=tool, src=src, opts=o, order=order, roots=roots, bad=bad, badval=badval,
                stop=d.weighted((3, "idle"), (1, "keep"), (1, "half"), (1, "busy"), (1, "twice"),
                                (2, "early")),
                sig=d.choice([signal.SIGTERM, signal.SIGINT]), again=d.bool(0.2),
                early=d.int(0, 40), slow=d.weighted((4, 0), (1, 400)))


E1 = "<m:apply><m:plus/><m:ci>a</m:ci><m:ci>b</m:ci></m:apply>"
E2 = "<m:apply><m:plus/><m:ci>c</m:ci><m:ci>d</m:ci></m:apply>"


def hfile(url, data, extra=0):
    big = "".join('<mws:expr url="x%d"><m:apply><m:times/><m:cn>%d</m:cn><m:cn>%d</m:cn></m:apply>'
                  '</mws:expr>' % (i, i, i * 7) for i in range(extra))
    return ('<mws:harvest xmlns:mws="http://search.mathweb.org/ns" xmlns:m="m">'
            '<mws:data mws:data_id="1">%s</mws:data><mws:expr url="%s" mws:data_id="1">%s'
            '</mws:expr>%s</mws:harvest>' % (data, url, E1, big))


class Env(SearchEnv):
    def __init__(self, worker, bdir):
        super().__init__(worker, bdir)
        self.n = 0

    def reset(self, check=True):
        super().reset(False)


def spell(name, short, val, style, tool):
    long_ = OPTS[tool][short]
    if val is None:
        return ["-" + short] if style < 2 else ["--" + long_]
    if val == "":
        style = style | 1
    return [["-" + short + val], ["-" + short, val], ["--" + long_ + "=" + val],
            ["--" + long_, val]][style]


def find(mark):
    """pids of our processes of that name."""
    r = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/cmdline" % p, "rb") as f:
                    if f.read().split(b"\0")[0].decode("utf-8", "replace") == mark:
                        with open("/proc/%s/stat" % p) as g:
                            if g.read().rsplit(")", 1)[1].split()[0] != "Z":
                                r.append(int(p))
            except OSError:
                pass
    return r


def connect(port, v6, timeout=5):
    return socket.create_connection(("::1" if v6 else "127.0.0.1", port), timeout)


def post(port, v6, body, timeout=40):
    c = http.client.HTTPConnection("::1" if v6 else "127.0.0.1", port, timeout=timeout)
    try:
        c.request("POST", "/", body.encode())
        r = c.getresponse()
        return r.status, r.read().decode("utf-8", "replace")
    finally:
        c.close()


def q(body):
    return ('<mws:query xmlns:mws="http://www.mathweb.org/mws/ns" xmlns:m="m" answsize="50" '
            'output="json"><mws:expr>%s</mws:expr></mws:query>' % body)


def pre():
    daemon._pre()
    signal.signal(signal.SIGINT, signal.SIG_DFL)    # the workers ignore it


def run(c, env, st):
    w = env.scratch.fresh("w")
    try:
        run_in(c, env, st, w)
    finally:
        env.scratch.drop(w)


def run_in(c, env, st, w):
    tool, o = c["tool"], c["opts"]
    bad, v6 = c["bad"], "6" in o
    env.n += 1
    mark = "%s-%d-%d" % (tool, os.getpid(), env.n)

    def path(name, rel):
        return name if rel else os.path.join(w, name)
    # ------------------------------------------------------------ inputs and expectation
    ext = o.get("e") or "harvest"
    src = c["src"]
    want = {}                               # url -> data
    if tool == "mwsd":
        def put(rel, url):
            p = os.path.join(w, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(hfile(url, "D" + url, c["slow"]))
        rootnames = ["h%d" % k for k in range(c["roots"])]
        for k, r in enumerate(rootnames):
            put(r + "/a.harvest", "u%d" % k)
            put(r + "/b.xml", "v%d" % k)
            put(r + "/s/c.harvest", "w%d" % k)
            put(r + "/s/d.xml", "y%d" % k)
            letters = ("u" if ext == "harvest" else "v") + \
                ("" if "r" not in o else "w" if ext == "harvest" else "y")
            for l in letters:
                want["%s%d" % (l, k)] = "" if "n" in o else "D%s%d" % (l, k)
        os.mkdir(os.path.join(w, "empty"))
        old = {"old1": "Dold1"}
        if src in ("disk", "reuse", "rebuild", "damaged", "damaged+I"):
            put("o/a.harvest", "old1")
            idx = env.index([os.path.join(w, "o")], ["-c"] if "c" in o else [],
                            out=os.path.join(w, "idx"))
            if src in ("rebuild", "damaged", "damaged+I"):
                with open(os.path.join(idx, "index.memsector"), "r+b") as f:
                    f.truncate(40)
        if src in ("disk", "reuse"):
            want = old
    serves = bad is None and src not in ("damaged", "absent", "none", "damaged+I")
    if src == "nothing":
        want = {}
    # ------------------------------------------------------------ command line
    lst = None
    if bad == "inuse":
        lst = socket.socket(socket.AF_INET6 if v6 else socket.AF_INET)
        lst.bind(("::" if v6 else "0.0.0.0", 0))
        lst.listen(5)
        port = lst.getsockname()[1]
    else:
        port = free_port(env.w)
    argv = []
    for f, style, rel in c["order"]:
        if f == "SRC":
            if src in ("mem", "build", "reuse", "rebuild", "damaged+I"):
                for r in rootnames:
                    argv += spell(tool, "I", path(r, rel), style, tool)
            if src == "nothing":
                argv += spell(tool, "I", path("empty", rel), style, tool)
            if src not in ("mem", "none", "nothing", None):
                argv += spell(tool, "D", path("idx", rel), style, tool)
        elif f == "p":
            argv += spell(tool, "p", c["badval"] if bad == "port" else str(port), style, tool)
        else:
            v = o[f]
            if v is not None and f in "ils":
                v = path(v, rel)
            argv += spell(tool, f, v, style, tool)
    if bad == "option":
        argv.insert(len(argv) // 2 if c["badval"] != "-" else len(argv), c["badval"])
    elif bad == "param":
        argv.append("h0")
    elif bad == "missing":
        argv.append("-i")
    st.evaluated()
    desc = " ".join([tool] + argv)
    try:
        first = start_one(c, env, st, w, mark, argv, port, v6, serves, want, desc)
        if first and c["again"]:            # everything is free again
            start_one(c, env, st, w, mark, argv, port, v6, serves,
                      want if src != "rebuild" else want, desc + " (again)")
    finally:
        for p in find(mark):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        if lst:
            lst.close()


def start_one(c, env, st, w, mark, argv, port, v6, serves, want, desc):
    tool, o = c["tool"], c["opts"]
    out = tempfile.TemporaryFile(dir=scratch_root())
    err = tempfile.TemporaryFile(dir=scratch_root())
    p = subprocess.Popen([mark] + argv, executable=env.bin(tool), cwd=w, stdout=out, stderr=err,
                         stdin=subprocess.DEVNULL, env=ENV, preexec_fn=pre)

    def text(f):
        f.seek(0)
        return f.read().decode("utf-8", "replace")

    def fail(kind, msg):
        raise Violation(kind, "%s: %s\nstderr: %s" % (desc, msg, text(err)[-800:]))
    try:
        early = c["stop"] == "early" and serves and "d" not in o
        if early:
            time.sleep(c["early"] / 1000.0)
            p.send_signal(c["sig"])
            try:
                rc = p.wait(40)
            except subprocess.TimeoutExpired:
                fail("stop-hang", "does not end on %s sent %d ms after its start" % (c["sig"], c["early"]))
            if rc not in (0, -c["sig"]):
                fail("stop-status", "status %d on an early signal" % rc)
            st.count("early signals")
            if rc == 0:
                st.nontriv(desc, {"early": desc, "ms": c["early"]})
            return False
        end = time.time() + (60 if serves else 12)
        up = False
        while time.time() < end:
            rc = p.poll()
            if rc is not None and ("d" not in o or rc != 0):
                break
            if serves or rc is None or "d" in o:
                if c["bad"] != "inuse":
                    try:
                        connect(port, v6).close()
                        up = True
                        break
                    except OSError:
                        pass
            if rc is not None and not find(mark):
                break
            time.sleep(0.01)
        rc = p.poll()
        if not serves:
            if up:
                fail("not-refused", "serves")
            if rc is None:
                fail("refuse-hang", "neither serves nor ends")
            check_sanitizer(tool, rc, text(err))
            if rc == 0 and ("d" not in o or c["bad"] in ("port", "option", "param", "missing",
                                                         "logdir")):
                fail("refuse-status", "refuses, but with status 0")
            if rc != 0 and "d" in o and find(mark):
                fail("left-behind", "process left")
            st.count("refusals")
            st.nontriv(("refused", c["bad"], c["src"], desc), {"refused": desc})
            return False
        if not up:
            fail("not-serving", "ended with %s" % rc if rc is not None else "does not listen")
        # -------------------------------------------------------- serving
        if "d" in o:
            if p.wait(20) != 0:
                fail("daemonize", "parent ends with %d" % p.returncode)
            pids = find(mark)
            if len(pids) != 1:
                fail("daemonize", "processes %s" % pids)
            pid = pids[0]
            st.count("daemonized")
        else:
            pid = p.pid
            if p.poll() is not None:
                fail("daemonize", "in the background without being asked to")
        if "i" in o:
            got = read(w, "pid", fail)
            if got.strip() != str(pid):
                fail("pid-file", "%r instead of %d" % (got, pid))
        ask(c, port, v6, want, fail, st)
        s, b = post(port, v6, "nonsense")
        if s != 400:
            fail("bad-query", "%s %s" % (s, b[:200]))
        if "l" in o:
            log = read(w, "log", fail)
            if "Bad query request" not in log:
                fail("log-file", "the log lacks the warning: %r" % log[-300:])
            t = text(err).strip() if "d" not in o else ""
            if len(t.splitlines()) > 1 or "Bad query" in text(out):
                fail("log-file", "also prints %r %r" % (t, text(out)[-200:]))
        if "s" in o and c["src"] in ("mem", "build", "rebuild"):
            if len(read(w, "stats", fail).splitlines()) < 2:
                fail("stats-file", "no statistics")
        # -------------------------------------------------------- stopping
        socks = []
        stop = []
        ts = []
        if c["stop"] in ("keep", "half"):
            s = connect(port, v6)
            s.settimeout(30)
            socks.append(s)
            if c["stop"] == "half":
                s.sendall(b"POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n<mws:query")
                time.sleep(0.05)            # it has begun to read
            else:
                s.sendall(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n")
                s.recv(1000)
        if c["stop"] == "busy":
            def go():
                while not stop:
                    try:
                        post(port, v6, q('<mws:qvar name="x"/>'))
                    except Exception:
                        if stop:
                            return
            ts = [threading.Thread(target=go) for _ in range(3)]
            for t in ts:
                t.start()
            time.sleep(0.02)
        if c["stop"] == "twice":            # the other one as well
            os.kill(pid, signal.SIGTERM if c["sig"] == signal.SIGINT else signal.SIGINT)
        try:
            os.kill(pid, c["sig"])
        except ProcessLookupError:
            pass
        try:
            rc = None
            end = time.time() + 25
            while time.time() < end:
                if "d" in o:
                    if not find(mark):
                        rc = 0
                        break
                    time.sleep(0.01)
                else:
                    try:
                        rc = p.wait(1)
                        break
                    except subprocess.TimeoutExpired:
                        pass
            if rc is None:
                fail("stop-hang", "does not end on %s (%s)" % (c["sig"], c["stop"]))
            check_sanitizer(tool, rc, text(err))
            if rc != 0:
                fail("stop-status", "ends with %d on %s (%s)" % (rc, c["sig"], c["stop"]))
        finally:
            stop.append(1)
            for t in ts:
                t.join()
            for s in socks:
                s.close()
        try:
            connect(port, v6, 2).close()
            fail("port-not-free", "something still listens")
        except OSError:
            pass
        st.count("stopped: " + c["stop"])
        if c["src"]:
            st.count("served: " + c["src"])
        st.nontriv(desc, {"served": desc, "hits": sorted(want), "stop": c["stop"]})
        return True
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        out.close()
        err.close()


def read(w, name, fail):
    try:
        with open(os.path.join(w, name), errors="replace") as f:
            return f.read()
    except OSError as e:
        fail("no-file", str(e))


def ask(c, port, v6, want, fail, st):
    o = c["opts"]
    if c["tool"] == "schemad":
        body = ('<mws:query xmlns:mws="http://www.mathweb.org/mws/ns" xmlns:m="m" '
                'output="json"><mws:expr>%s</mws:expr><mws:expr>%s</mws:expr></mws:query>' % (E1, E1))
        s, b = post(port, v6, body)
        if s != 200 or json.loads(b)["total"] != 1:
            fail("answer", "%s %s" % (s, b[:300]))
        return
    for body, hit in ((E1, True), (E2, "c" in o)):
        s, b = post(port, v6, q(body))
        if s != 200:
            fail("answer", "%s %s" % (s, b[:300]))
        j = json.loads(b)
        got = {h["math_ids"][0]["url"]: h["xhtml"].strip() for h in j["hits"]}
        exp = want if hit else {}
        if j["total"] != len(exp) or got != exp:
            fail("answer", "total %s hits %s instead of %s" % (j["total"], got, exp))


# -------------------------------------------------------------------- signals at any moment
def gen_sig(d):
    return dict(tool=d.choice(["mwsd", "schemad"]), src=d.choice(["mem", "disk"]),
                at=d.int(1, 12), sig=d.choice([signal.SIGTERM, signal.SIGINT]))


def run_sig(c, env, st):
    w = env.scratch.fresh("w")
    try:
        port = free_port(env.w)
        argv = [env.bin("hooked-" + c["tool"]), "-p", str(port)]
        if c["tool"] == "mwsd":
            os.mkdir(w + "/h")
            with open(w + "/h/a.harvest", "w") as f:
                f.write(hfile("u", "D"))
            argv += ["-I", w + "/h"] if c["src"] == "mem" else \
                ["-D", env.index([w + "/h"], out=w + "/idx")]
        err = tempfile.TemporaryFile(dir=scratch_root())
        p = subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL,
                             env=dict(ENV, VP_SIG_AT=str(c["at"]), VP_SIG=str(int(c["sig"])),
                                      VP_SIG_FILE=w + "/at"), preexec_fn=pre)
        try:
            st.evaluated()
            end = time.time() + 60
            while time.time() < end and not os.path.exists(w + "/at") and p.poll() is None:
                try:
                    connect(port, False).close()
                    if not os.path.exists(w + "/at"):
                        time.sleep(0.2)
                    break
                except OSError:
                    time.sleep(0.01)
            reached = os.path.exists(w + "/at")
            if not reached:                 # that many calls are not made: an ordinary signal
                if p.poll() is not None:
                    raise Inconclusive("does not start")
                p.send_signal(c["sig"])
            try:
                rc = p.wait(15)
            except subprocess.TimeoutExpired:
                where = open(w + "/at").read() if reached else "serving"
                raise Violation("signal-lost", "%s does not end on signal %d that arrives before its %s"
                                % (c["tool"], c["sig"], where))
            err.seek(0)
            e = err.read()
            if rc not in (0, -c["sig"]) or (rc != 0 and not reached):
                check_sanitizer(c["tool"], rc, e)
                raise Violation("stop-status", "status %d on a signal before call %d" % (rc, c["at"]))
            st.count("reached" if reached else "not reached")
            if reached:
                st.nontriv(repr(c), {"case": c, "call": open(w + "/at").read(), "status": rc})
        finally:
            p.kill()
            p.wait()
            err.close()
    finally:
        env.scratch.drop(w)


# -------------------------------------------------------------------- help and errors
def gen_help(d):
    tool = d.choice(sorted(OPTS))
    kind = d.choice(["help", "version", "unknown", "missing", "needarg", "long"])
    return dict(tool=tool, kind=kind, style=d.int(0, 3), pre=d.bool(0.5),
                letter=d.choice("abgjkmqtuwyzABEFGJKLMNOPQRSTUWXYZ0123457@=,"), noise=d.bool(0.3))


def run_help(c, env, st):
    tool = c["tool"]
    opts = OPTS[tool]
    w = env.scratch.fresh("w")
    try:
        pre = []
        valued = [f for f in sorted(opts) if f not in NOARG or (f == "c" and tool == "docs2harvest")]
        if c["pre"]:
            for f in valued[:2]:
                pre += spell(tool, f, os.path.join(w, "none" + f), c["style"], tool)
        st.evaluated()
        k = c["kind"]
        if k == "help":
            argv = pre + ["-h" if c["style"] < 2 else "--help"]
        elif k == "version":
            argv = pre + ["-V" if c["style"] < 2 else "--version"]
        elif k == "unknown":
            if c["letter"] in opts:
                return
            argv = pre + (["-" + c["letter"]] if c["style"] < 2 else ["--no-such-%s" % c["letter"]])
        elif k == "needarg":
            f = valued[c["style"] % len(valued)]
            argv = pre + ["-" + f if c["style"] < 2 else "--" + opts[f]]
        elif k == "long":                   # an argument for an option without one
            f = [x for x in sorted(opts) if x in NOARG and not (x == "c" and tool == "docs2harvest")][0]
            argv = pre + ["--" + opts[f] + "=1"]
        else:
            if tool == "schemad":           # has only options that may be left out
                return
            argv = pre if tool in ("mws-index", "harvests2json") and len(pre) < 3 else []
        rc, o, e = run_tool([env.bin(tool)] + argv, timeout=40, cwd=w)
        t = o.decode("utf-8", "replace")
        if k == "help":
            bad = rc != 0 or any("--" + l not in t or "-%s|" % f not in t for f, l in opts.items())
        elif k == "version":
            bad = rc != 0 or not t.strip()
        else:
            bad = rc == 0 or not (e.strip() or o.strip())
        if bad:
            raise Violation("usage", "%s %s: status %d, %r %r" % (tool, argv, rc, t[-300:], e[-300:]))
        st.nontriv((tool, tuple(argv)), {"argv": [tool] + argv, "status": rc})
    finally:
        env.scratch.drop(w)


LINKS = ["-lxml2", "-licuuc", "-ljson-c", "-lmicrohttpd", "-lleveldb", "-lz", "-lpthread"]

if __name__ == "__main__":
    b = build.ensure(sorted(OPTS),
                     harness=[("hooked-mwsd", ["hooked_mwsd.cpp"], LINKS),
                              ("hooked-schemad", ["hooked_schemad.cpp"], LINKS)])
    env = lambda w: Env(w, b)
    sys.exit(Check("C26", "random command lines of mwsd and schemad (all options, any spelling and "
                   "order, relative and absolute paths, foreground and daemonized, harvests, "
                   "indexes that exist, are missing or damaged, and wrong options, ports and "
                   "paths); a model says whether the daemon has to serve, with which hits and "
                   "data, and what its pid, log and statistics files are; then it is stopped by a "
                   "signal at various moments. In a second part a signal arrives at each of the "
                   "signal-related calls of the main program; a third part asks all tools for "
                   "help and gives them bad options. Non-trivial: a distinct command line "
                   "that served or was refused, resp. a signal point that was reached.",
                   [Part("command lines", gen, run, 2500, 20000, env, share=0.7),
                    Part("signals", gen_sig, run_sig, 300, 2000, env, share=0.2),
                    Part("usage", gen_help, run_help, 600, 6000, env, share=0.1)],
                   assumptions=["the loopback network has ::1"]).main())
