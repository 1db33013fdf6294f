"""C22: which pages the crawler requests, and in which order."""
from crawllib import *

SEG = ["a", "b", "c", "docs", "private", "x.html", "index.html", "p1", "p2", "p10", "a-b", "a_b",
       "~u", "priv", "privateer", "q", "aa", "ab"]
QS = ["", "", "", "", "", "x=1", "x=2", "x=1&y=2", "y", "a/b", "x=/c", "x=12"]


class G:
    def __init__(self, d):
        self.d = d

    def target(self):
        d = self.d
        n = d.weighted((1, 0), (4, 1), (4, 2), (2, 3))
        segs = [d.choice(SEG) for _ in range(n)]
        p = "/" + "/".join(segs)
        if segs and d.bool(0.2):
            p += "/"
        q = d.choice(QS)
        return p + ("?" + q if q else "")

    def href(self, here, to):
        """A way to write the target `to` in a page at `here`."""
        d = self.d
        path, _, query = to.partition("?")
        q = "?" + query if query else ""
        how = d.weighted((4, "abs"), (3, "full"), (3, "rel"), (1, "dots"), (1, "scheme"),
                         (1, "caps"))
        hdir = here.partition("?")[0].rsplit("/", 1)[0]     # without the slash
        r = path + q
        if how == "full":
            r = "http://$HOST" + path + q
        elif how == "scheme":
            r = "//$HOST" + path + q
        elif how == "caps":
            r = "HTTP://$HOST" + path + q
        elif how == "dots":
            i = path.rindex("/")
            r = path[:i] + d.choice(["/./", "/zz/../", "/zz/./../"]) + path[i + 1:] + q
        elif how == "rel":
            hs = hdir.split("/")[1:]
            ts = path.split("/")[1:]
            k = 0
            while k < len(hs) and k < len(ts) - 1 and hs[k] == ts[k]:
                k += 1
            r = "../" * (len(hs) - k) + "/".join(ts[k:])
            if r == "" or r.startswith("/") or d.bool(0.2):
                r = "./" + r
            r += q
            if path == here.partition("?")[0] and query and d.bool(0.3):
                r = q
        if d.bool(0.15):
            r += "#" + d.choice(["f", "", "a/b", "x?y"])
        return r

    def anchor(self, href):
        d = self.d
        h = href.replace("&", "&amp;") if d.bool(0.7) else href
        quote = d.weighted((6, '"'), (2, "'"), (1, ""))
        if quote == "" and re.search(r"[^A-Za-z0-9./?#=_~:$-]", h):
            quote = '"'
        pad = " " if quote and d.bool(0.05) else ""
        v = quote + pad + h + pad + quote
        name, attr = d.weighted((6, ("a", "href")), (1, ("A", "HREF")), (1, ("a", "HREF")),
                                (1, ("A", "href")))
        extra = d.choice(["", "", "", ' class="x"', " title='a > b'", ' rel="nofollow"'])
        if d.bool(0.5):
            o = "<%s%s %s=%s>t</%s>" % (name, extra, attr, v, name)
        else:
            o = "<%s %s=%s%s>t" % (name, attr, v, extra) + ("</%s>" % name if d.bool(0.8) else "")
        return d.choice(["%s", "<p>%s</p>", "<div><b>%s</b></div>", "\n%s\n", "<li>%s",
                         "<math><mi>x</mi></math>%s"]) % o


NOISE = ["<a name='x'>n</a>", "<a>n</a>", "<link href='/no-link'>", "<img src='/no-img.png'>",
         "<!-- <a href='/no-comment'>c</a> -->", "<a href='mailto:x@y'>m</a>", "plain text /no-text",
         "<a href='javascript:void(0)'>j</a>", "<a href='http://'>e</a>", "<a href=''>s</a>",
         "<a href='#top'>f</a>", "<area href='/no-area'>", "<abbr href='/no-abbr'>x</abbr>",
         "<p><table><tr><td>", "</div></p>", "&lt;a href='/no-esc'&gt;", "<a href='http://[::bad'>b</a>"]


def gen_robots(d, g, targets):
    """(text, [prefixes not allowed])"""
    rules = []
    eol = d.weighted((4, "\n"), (1, "\r\n"))
    lines = []

    def rule():
        if d.bool(0.1):
            return ""
        t = d.choice(targets) if d.bool(0.8) else g.target()
        how = d.weighted((3, "all"), (3, "dir"), (2, "cut"))
        path = t.partition("?")[0]
        if how == "all":
            return t
        if how == "dir":
            return path.rsplit("/", d.int(1, 2))[0] + "/"
        return t[:d.int(2, max(2, len(t)))]

    def noise():
        if d.bool(0.2):
            lines.append(d.choice(["# User-agent: *", "#", "Crawl-delay: 3", "Sitemap: /s.xml",
                                   "# " + "x" * 1500, "nonsense", "Disallowed: /"]))
    for _ in range(d.weighted((4, 1), (2, 2), (1, 3))):
        agents = d.weighted((5, ["*"]), (2, ["somebot"]), (1, ["somebot", "*"]),
                            (1, ["*", "somebot"]), (1, ["*bot"]), (1, ["other", "somebot"]))
        for a in agents:
            noise()
            k = d.weighted((6, "User-agent: "), (1, "User-Agent: "), (1, "user-agent:"),
                           (1, "User-agent:  "))
            lines.append(k + a + d.choice(["", "", "", " ", "  # all"]))
        for _ in range(d.weighted((4, 1), (2, 3), (1, 0))):
            noise()
            r = rule()
            if d.bool(0.6) and r in ("/", ""):
                r = "/private"
            k = d.weighted((6, "Disallow: "), (1, "disallow: "), (1, "Disallow:"), (1, "Disallow:  "))
            lines.append(k + r + d.choice(["", "", "", " ", " # no"]))
            if "*" in agents and r:
                rules.append(r)
        if not lines[-1].lower().startswith("disallow"):
            lines.append("Disallow:")
        lines.append("")
    text = eol.join(lines)
    if d.bool(0.5):
        text += eol
    return text, rules


def gen(d, breaks=True):
    g = G(d)
    n = d.weighted((2, 3), (4, 8), (2, 20), (1, 45))
    targets = []
    for _ in range(n):
        t = g.target()
        if t not in targets:
            targets.append(t)
    start = targets[0]
    pages = {}
    links = {}
    for t in targets:
        ls = []
        parts = []
        for _ in range(d.weighted((1, 0), (3, 2), (3, 4), (1, 10))):
            k = d.weighted((8, "page"), (1, "gone"), (1, "foreign"), (2, "noise"))
            if k == "noise":
                parts.append(d.choice(NOISE))
            elif k == "foreign":
                parts.append(g.anchor("http://" + d.choice(["localhost:$PORT", "127.0.0.2:$PORT",
                                                            "foreign.invalid"]) +
                                      d.choice(targets)))
            else:
                to = d.choice(targets) if k == "page" else "/gone" + g.target()
                parts.append(g.anchor(g.href(t, to)))
                ls.append(to)
        body = d.choice(["<html><head><title>t</title></head><body>%s</body></html>", "%s",
                         "<!DOCTYPE html>\n<html><body>\n%s"]) % "\n".join(parts)
        how = d.weighted((14, ""), (1, "nolength"), (1, "lower"))
        status = d.weighted((12, 200), (1, 404), (1, 500))
        ctype = d.weighted((6, "text/html"), (2, "text/html; charset=utf-8"),
                           (1, "application/xhtml+xml"))
        if breaks and d.bool(0.04) and t != start:
            how = d.choice(["close", "short"])
            if how == "close":
                ls = []
        pages[t] = (status, ctype, body, how)
        links[t] = ls
    if d.bool(0.7):
        robots, rules = gen_robots(d, g, targets)
    else:
        robots, rules = None, []
    dont = []
    for _ in range(d.weighted((3, 0), (2, 1), (1, 3))):
        t = d.choice(targets) if d.bool(0.8) else g.target()
        if t == "/" or t == start and d.bool(0.7):
            continue
        dont.append(d.choice([t, "http://$HOST" + t, t.partition("?")[0].rsplit("/", 1)[0] or t,
                              "http://elsewhere.invalid" + t]))
    count = d.weighted((5, None), (2, 1), (2, d.int(2, max(2, n))), (1, 1000), (1, 0), (1, -1))
    frag = d.choice(["", "", "", "#s"])
    return {"start": start, "frag": frag, "pages": pages, "links": links, "robots": robots,
            "rules": rules, "dont": dont, "count": count}


def expected(c):
    ban = list(c["rules"])
    for x in c["dont"]:
        if x.startswith("http://$HOST"):
            ban.append(x[len("http://$HOST"):])
        elif not x.startswith("http"):
            ban.append(x)

    def ok(t):
        return not any(t.startswith(b) for b in ban)
    want = ["/robots.txt"]
    queue = [c["start"]] if ok(c["start"]) else []
    seen = set(queue)
    limit = c["count"] if c["count"] is not None and c["count"] >= 0 else 10 ** 9
    k = 0
    barred = 0
    while queue and k < limit:
        t = queue.pop(0)
        k += 1
        want.append(t)
        for to in c["links"].get(t, ()):
            if to not in seen:
                if ok(to):
                    seen.add(to)
                    queue.append(to)
                else:
                    barred += 1
    return want, barred


def judge(log, want, st):
    got = [t for _, t in log]
    if got != want:
        extra = [t for t in got if t not in want]
        miss = [t for t in want if t not in got]
        if len(set(got)) != len(got) and len(set(want)) == len(want):
            kind = "twice"
        elif extra:
            kind = "not-to-be-requested"
        elif miss:
            kind = "not-requested"
        else:
            kind = "order"
        raise Violation(kind, "requests %s, expected %s" % (got, want))


def fill(x, site):
    if isinstance(x, str):
        return x.replace("$HOST", "127.0.0.1:%d" % site.port).replace("$PORT", str(site.port))
    return x


def run(c, env, st):
    site = env.site
    pages = {t: (s, ct, fill(b, site), how) for t, (s, ct, b, how) in c["pages"].items()}
    if c["robots"] is not None:
        pages["/robots.txt"] = (200, "text/plain", c["robots"], "")
    site.pages = pages
    site.log = []
    ddir = env.scratch.fresh("d")
    try:
        env.crawl("http://127.0.0.1:%d%s%s" % (site.port, c["start"], c["frag"]), c["count"], ddir,
                  [fill(x, site) for x in c["dont"]])
    finally:
        env.scratch.drop(ddir)
    want, barred = expected(c)
    log = list(site.log)
    st.evaluated()
    me = "127.0.0.1:%d" % site.port
    foreign = [x for x in log if x[0] != me]
    if foreign:
        raise Violation("foreign-host", "requests to %s" % foreign[:5])
    judge(log, want, st)
    st.max("pages requested", len(want) - 1)
    st.count("count limited" if c["count"] is not None and len(want) - 1 == c["count"] else
             "all reachable")
    if barred:
        st.count("links not allowed", barred)
    if c["dont"]:
        st.count("with exclusion list")
    if c["robots"]:
        st.count("with robots.txt")
    n = sum(len(c["links"][t]) for t in want[1:] if t in c["links"])
    if len(want) > 2 and n > len(want) - 2:
        st.nontriv((want, c["robots"], c["dont"]),
                   {"requested": want[:12], "links on these pages": n, "links not allowed": barred})


# ---------------------------------------------------------------- the daemon

def gen_daemon(d):
    c = gen(d, False)
    g = G(d)
    while c["robots"] is not None and d.bool(0.7):
        c["robots"], c["rules"] = None, []
    targets = list(c["pages"])
    if d.bool(0.3):
        # a start page with a long url
        t = "/long?v=" + "x" * d.int(50, 1200)
        c["pages"][t] = (200, "text/html", "".join(g.anchor(x) for x in targets[:4]), "")
        c["links"][t] = targets[:4]
        targets.append(t)
    reqs = []
    for _ in range(d.weighted((2, 1), (3, 2), (1, 4))):
        how = d.weighted((6, "good"), (1, "invalid"), (1, "nothing"), (1, "get"), (1, "garbage"))
        r = {"how": how, "start": d.choice(targets), "dont": [], "count": None,
             "multi": d.bool(0.3), "pieces": d.bool(0.3), "fields": d.int(0, 1 << 30),
             "noise": d.bool(0.3)}
        n = d.weighted((3, 0), (2, 2), (1, 20), (1, 300))
        for k in range(n):
            w = d.weighted((1, "page"), (2, "no"), (1, "long"))
            if w == "page":
                t = d.choice(targets)
                if t == "/" or r["start"].startswith(t):
                    continue
                r["dont"].append(t)
            elif w == "no":
                r["dont"].append("/no/%d" % k)
            else:
                r["dont"].append("/no/" + "y" * d.int(90, 700) + "%d" % k)
        r["count"] = d.weighted((4, None), (3, "%d" % d.int(1, 6)), (1, "0"), (1, "x"), (1, ""),
                                (1, "00000000000000002"), (1, "-5"))
        reqs.append(r)
    if not any(r["how"] == "good" for r in reqs):
        reqs[-1]["how"] = "good"
    c["reqs"] = reqs
    c["newdir"] = d.bool(0.3)
    c["threads"] = d.bool(0.4)
    return c


def form(r, url, site):
    """(content type, body)"""
    import random
    from urllib.parse import quote_plus
    rnd = random.Random(r["fields"])
    fields = []
    if url is not None:
        fields.append(("urlstart", url))
    if r["count"] is not None:
        fields.append(("count", r["count"]))
    fields += [("dontcrawl", fill(x, site)) for x in r["dont"]]
    rnd.shuffle(fields)
    if r["noise"]:
        fields.insert(rnd.randrange(len(fields) + 1), ("other", "z" * rnd.choice([0, 10, 900])))
        fields.insert(rnd.randrange(len(fields) + 1), ("url", "http://x.invalid/"))
    if not r["multi"]:
        return "application/x-www-form-urlencoded", \
            "&".join("%s=%s" % (k, quote_plus(v)) for k, v in fields).encode()
    bd = "XbX%d" % rnd.randrange(10 ** 9)
    out = []
    for k, v in fields:
        out.append('--%s\r\nContent-Disposition: form-data; name="%s"\r\n\r\n%s\r\n' % (bd, k, v))
    if r["noise"] and rnd.random() < 0.3:
        out.append("--%s\r\nContent-Disposition: form-data\r\n\r\nnameless\r\n" % bd)
    return "multipart/form-data; boundary=" + bd, ("".join(out) + "--%s--\r\n" % bd).encode()


def send(port, method, ctype, body, pieces):
    s = socket.create_connection(("127.0.0.1", port), timeout=20)
    try:
        h = "%s / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n" % method
        if body is not None:
            h += "Content-Type: %s\r\nContent-Length: %d\r\n" % (ctype, len(body))
        s.sendall(h.encode() + b"\r\n")
        step = 100 if pieces else 1 << 20
        for i in range(0, len(body or b""), step):
            s.sendall(body[i:i + step])
            if pieces and i < 3000:
                time.sleep(0.001)
        out = b""
        while True:
            x = s.recv(65536)
            if not x:
                return out
            out += x
    finally:
        s.close()


def run_daemon(c, env, st):
    site = env.site
    site.pages = {t: (s, ct, fill(b, site), how) for t, (s, ct, b, how) in c["pages"].items()}
    if c["robots"] is not None:
        site.pages["/robots.txt"] = (200, "text/plain", c["robots"], "")
    site.log = []
    top = ddir = env.scratch.fresh("d")
    if c["newdir"]:                         # to be made by the daemon
        ddir += "/new"
    b = BT if c["threads"] else env.b       # ThreadSanitizer: a race is a violation
    dm = start([os.path.join(b, "crawlerd-here"), "-d", ddir.lstrip("/")], worker=env.w)
    try:
        if not os.path.isdir(ddir):
            raise Violation("no-directory", "the daemon serves but there is no directory for the harvests")
        want = []
        crawls = 0
        for r in c["reqs"]:
            me = "http://127.0.0.1:%d" % site.port
            url = {"good": me + r["start"], "invalid": "no url at all", "nothing": None,
                   "get": None, "garbage": None}[r["how"]]
            try:
                if r["how"] == "get":
                    a = send(dm.port, "GET", None, None, False)
                elif r["how"] == "garbage":
                    a = send(dm.port, "POST", "application/x-www-form-urlencoded",
                             b"%%%&=&&urlstart&=x&dontcrawl=&count=&\xff\0", False)
                else:
                    ct, body = form(r, url, site)
                    a = send(dm.port, "POST", ct, body, r["pieces"])
            except OSError as e:
                a = b""
            if not dm.alive():
                dm.stop()
            if not a.startswith(b"HTTP/1.1 200"):
                raise Violation("crawlerd-answer", "%r to %s" % (a[:200], r["how"]))
            if r["how"] == "good":
                crawls += 1
                n = 0
                m = re.match(r"-?[0-9]+", r["count"] or "")
                if m:
                    n = int(m.group())
                w, _ = expected(dict(c, start=r["start"], dont=r["dont"],
                                     count=n if n > 0 else None))
                want += w
        end = time.time() + 40
        while time.time() < end and dm.alive() and len(os.listdir(ddir)) < crawls:
            time.sleep(0.05)
        if not dm.alive():
            dm.stop()
        st.evaluated()
        if b"WARNING: ThreadSanitizer" in dm.stderr():
            raise Violation("race", daemon.crash_summary(dm.stderr()))
        st.count("under ThreadSanitizer", int(c["threads"]))
        judge(list(site.log), want, st)
        if len(os.listdir(ddir)) < crawls:
            raise Violation("crawl-hang", "a crawl does not end")
        st.count("crawls", crawls)
        st.max("form values", max(len(r["dont"]) for r in c["reqs"]))
        if len(want) > crawls * 2:
            st.nontriv(repr((want, c["reqs"])), {"crawls": crawls, "requested": want[:12]})
    finally:
        dm.kill()
        env.scratch.drop(top)


def describe(c):
    o = ["start %s%s count %s" % (c["start"], c["frag"], c["count"]), "dont crawl %s" % c["dont"],
         "robots.txt: %s" % c["robots"]]
    for r in c.get("reqs", ()):
        o.append("request: %s" % r)
    for t, p in c["pages"].items():
        o.append("--- %s %s %s %s\n%s" % (t, p[0], p[1], p[3], p[2]))
    return "\n".join(o)


if __name__ == "__main__":
    b = make()
    daemon.ENV["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:ignore_noninstrumented_modules=1:" \
                                 "report_signal_unsafe=0:history_size=4:external_symbolizer_path=" \
                                 "/usr/bin/llvm-symbolizer-18"
    BT = build.ensure(["crawlerd"], "tsan", harness=[h for h in HARNESS if h[0] == "crawlerd-here"])
    sys.exit(Check("C22", "random sites (link graphs with cycles, repeated links, every spelling "
                   "of a link, queries, fragments, foreign hosts, pages that are missing or break "
                   "off), robots.txt files, exclusion lists and counts on a web server of the "
                   "check; the requests it sees are compared with a breadth-first walk of the "
                   "generated graph. In a second part crawlerd gets such crawls as form requests. Non-trivial: at least two pages and more links than pages, "
                   "distinct (requests, rules).",
                   [Part("sites", gen, run, 12000, 200000, lambda w: Crawl(w, b),
                         describe=describe, share=0.6),
                    Part("daemon", gen_daemon, run_daemon, 240, 4000, lambda w: Crawl(w, b),
                         describe=describe, share=0.4, sure=("race",))]).main())
