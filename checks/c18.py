"""C18: the HTTP protocol of the daemons."""
from searchlib import *
import random
import re
import socket
import time
import c10
import schemalib

TIME = re.compile(rb'"time" ?: ?[^,}]*|time="[^"]*"')
OTHER = ["PUT", "DELETE", "HEAD", "PATCH", "TRACE", "FOO", "get", "post", "GETT", "PROPFIND", "options"]
URLS = ["/", "/", "/", "/x", "/query", "//", "/index.html", "/?a=b", "/x?y=z", "/%2F", "/a/b/c",
        "/\u00e9".encode("utf-8").decode("latin-1"), "/" + "u" * 300, "/?", "/%41", "/.", "*"]
HEADERS = ["Origin: http://example.org", "User-Agent: x/1.0 (y)", "Accept: */*",
           "Content-Type: text/xml", "Content-Type: application/x-www-form-urlencoded",
           "Content-Type: multipart/form-data; boundary=x", "X-Long: " + "v" * 900,
           "Access-Control-Request-Method: POST", "Access-Control-Request-Headers: content-type",
           "Cookie: a=b", "Accept-Encoding: gzip, deflate", "Authorization: Basic eDp5",
           "If-None-Match: *", "Range: bytes=0-1", "accept-language: en"]


def gen(d):
    g = Gen(d, ntags=4, weird=False)
    files, corpus = gen_corpus(d, g, nfiles=1)
    kind = d.weighted((3, "mem"), (2, "disk"), (3, "schema"))

    def good(big):
        if kind == "schema":
            return schemalib.request_xml(d.choice(schemalib.gen(d)[0]), d.choice(["json", "xml"]))
        q = query_xml(g.query(corpus), d.choice(["json", "xml", "mws-ids"]), d.choice([None, 0, 2]))
        if big:
            q += "<!--%s-->" % ("x" * d.choice([4000, 33000, 70000, 300000, 1200000]))
        return q

    def request():
        k = d.weighted((8, "POST"), (3, "GET"), (3, "OPTIONS"), (4, "other"))
        url = d.choice(URLS)
        hs = d.list(0, 4, lambda: d.choice(HEADERS), n=1)
        if k == "other":
            return [d.choice(OTHER), url, hs, d.choice([b"", b"", b"x=1", b"y" * 500]), "length"]
        if k != "POST":
            return [k, url, hs, b"", "length"]
        body = good(d.bool(0.1)).encode("utf-8") if d.bool(0.75) else c10.body(d, g, corpus)
        return [k, url, hs, body, d.weighted((6, "length"), (2, "chunked"), (1, "expect"))]

    conns = []
    for _ in range(d.int(1, 6)):
        reqs = d.list(1, 8, request, n=4)
        conns.append((reqs, d.weighted((5, "1.1"), (1, "1.0"), (1, "1.0 keep"), (1, "close")),
                      d.weighted((4, "whole"), (3, "pieces"), (1, "bytes"), (2, "pipeline")),
                      d.int(0, 1 << 30)))
    noise = d.list(0, 3, lambda: d.choice(
        [b"", b"\r\n\r\n", b"GET\r\n\r\n", b"POST / HTTP/1.1\r\nContent-Length: 99\r\n\r\nabc",
         b"POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\nabc",
         b"POST / HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\nabc",
         b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc\r\n",
         b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nffffffffff\r\nabc\r\n",
         b"\x16\x03\x01\x02\x00\x01\x00", b"GET / HTTP/9.9\r\n\r\n", b"G" * 70000,
         b"GET / HTTP/1.1\r\n" + b"A: b\r\n" * 9000, bytes(range(256))]))
    return files, kind, conns, noise


def serialise(req, version, last, rnd):
    m, url, hs, body, how = req
    h = ["%s %s HTTP/%s" % (m, url, "1.0" if version.startswith("1.0") else "1.1"), "Host: h"]
    h += [x for i, x in enumerate(hs)]
    if version == "close" and last:
        h.append("Connection: close")
    if version == "1.0 keep":
        h.append("Connection: Keep-Alive")
    if version.startswith("1.0") and how == "chunked":
        how = "length"
    if how == "chunked":
        h.append("Transfer-Encoding: chunked")
        out = b""
        i = 0
        while i < len(body):
            k = rnd.choice([1, 7, 100, 4096, 60000])
            piece = body[i:i + k]
            out += b"%x\r\n%s\r\n" % (len(piece), piece)
            i += k
        body = out + b"0\r\n\r\n"
    elif body or m in ("POST", "PUT", "PATCH"):
        h.append("Content-Length: %d" % len(body))
    if how == "expect" and version == "1.1":
        h.append("Expect: 100-continue")
    return "\r\n".join(h).encode("latin-1") + b"\r\n\r\n", body


class Answer:
    pass


def read_answer(f, m):
    a = Answer()
    while True:
        line = f.readline()
        if not line:
            return None
        r = re.match(rb"HTTP/1\.[01] (\d{3}) ", line)
        if not r:
            raise Violation("status-line", repr(line[:200]))
        a.status = int(r.group(1))
        a.headers = []
        while True:
            l = f.readline()
            if l in (b"\r\n", b"\n"):
                break
            if not l:
                raise Violation("header", "ends early")
            k, c, v = l.rstrip(b"\r\n").partition(b":")
            if not c:
                raise Violation("header", repr(l))
            a.headers.append((k.strip().lower().decode("latin-1"), v.strip().decode("latin-1")))
        if a.status != 100:
            break
    lens = {v for k, v in a.headers if k == "content-length"}
    if len(lens) != 1:
        raise Violation("content-length", repr(a.headers))
    n = int(lens.pop())
    a.announced = n
    a.body = b"" if m == "HEAD" else f.read(n)
    if m != "HEAD" and len(a.body) != n:
        raise Violation("body-length", "%d bytes announced, %d received" % (n, len(a.body)))
    a.close = ("connection", "close") in [(k, v.lower()) for k, v in a.headers]
    return a


def is_root(url):
    return url.split("?")[0] == "/"


def methods(v):
    return {x.strip() for x in v.split(",")}


def judge(req, a, expected, kind):
    m, url, hs, body, how = req
    what = "%s %s" % (m, url[:60])
    allowed = {"GET", "POST", "OPTIONS"} if is_root(url) else {"POST", "OPTIONS"}
    get = lambda k: [v for n, v in a.headers if n == k]
    one = lambda k: get(k)[0] if len(set(get(k))) == 1 else repr(get(k)) if get(k) else None
    if m == "OPTIONS":
        if a.status != 200 or a.body:
            raise Violation("options", "%s: %d %r" % (what, a.status, a.body[:100]))
        if methods(one("access-control-allow-methods") or "") != allowed:
            raise Violation("options", "%s: %r" % (what, a.headers))
        if (one("access-control-allow-headers") or "").lower() != "content-type" or \
                one("access-control-allow-origin") != "*":
            raise Violation("cors", "%s: %r" % (what, a.headers))
    elif m == "GET" and is_root(url):
        if a.status != 200 or one("content-type") != "text/xml" or \
                xml_root(a.body, what) != "info":
            raise Violation("get", "%s: %d %s %r" % (what, a.status, one("content-type"), a.body[:200]))
    elif m == "POST":
        est, ect, ebody = expected
        if (a.status, one("content-type"), TIME.sub(b"", a.body)) != (est, ect, ebody):
            raise Violation("post", "%s: %d %s %r, sent plainly: %d %s %r" % (
                what, a.status, one("content-type"), a.body[:300], est, ect, ebody[:300]))
        if a.status == 200 and one("access-control-allow-origin") != "*":
            raise Violation("cors", "%s: %r" % (what, a.headers))
        if a.status == 200 and "no-cache" not in (one("cache-control") or ""):
            raise Violation("cache", "%s: %r" % (what, a.headers))
        if a.status == 400 and xml_root(a.body, what) != "info":
            raise Violation("bad-request", "%s: %r" % (what, a.body[:300]))
    else:
        if a.status != 405:
            raise Violation("method", "%s: %d" % (what, a.status))
        if methods(one("allow") or "") != allowed:
            raise Violation("allow", "%s: %r" % (what, a.headers))
        if one("access-control-allow-origin") != "*" or one("content-type") != "text/xml":
            raise Violation("cors", "%s: %r" % (what, a.headers))
        if m != "HEAD" and xml_root(a.body, what) != "info":
            raise Violation("method", "%s: %r" % (what, a.body[:200]))
        if a.announced == 0:
            raise Violation("method", "%s: empty body" % what)


def xml_root(body, what):
    import xml.parsers.expat
    names = []
    p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler = lambda n, at: names.append(n)
    try:
        p.Parse(body, True)
    except xml.parsers.expat.ExpatError as e:
        raise Violation("not-xml", "%s: %s %r" % (what, e, body[:200]))
    return names[0].split(":")[-1]


def connect(port):
    s = socket.create_connection(("127.0.0.1", port), timeout=60)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s


def send(s, data, how, rnd):
    if how in ("pieces", "bytes") and len(data) < 100000:
        i = 0
        n = 0
        while i < len(data):
            k = 1 if how == "bytes" and n < 40 else rnd.choice([1, 3, 20, 200, 1500, 40000])
            s.sendall(data[i:i + k])
            i += k
            n += 1
            if n < 30:
                time.sleep(rnd.choice([0, 0, 0.001]))
    else:
        s.sendall(data)


def converse(dmn, conn, expected, kind, st):
    """Sends the requests, over as many connections as it takes: the server may close after
    any answer.  A request that is alone on a fresh connection has to be answered."""
    reqs, version, how, sub = conn
    rnd = random.Random(sub)
    todo = list(enumerate(reqs))
    last = len(reqs) - 1
    pipeline = how == "pipeline"
    while todo:
        s = connect(dmn.port)
        f = s.makefile("rb")
        answered = 0
        sent = 0
        try:
            while todo:
                i, r = todo[0]
                if sent == 0:
                    size = 0
                    for j, rr in todo if pipeline else todo[:1]:
                        h, b = serialise(rr, version, j == last, rnd)
                        size += len(h) + len(b)
                        if sent and size > 30000:
                            break
                        if rr[0] == "POST" and not pipeline:
                            send(s, h + b, how, rnd)
                        else:
                            s.sendall(h + b)
                        sent += 1
                        if rr[0] not in ("GET", "OPTIONS", "POST"):
                            break
                a = read_answer(f, r[0])
                if a is None:
                    raise ConnectionError("closed")
                todo.pop(0)
                sent -= 1
                answered += 1
                judge(r, a, expected.get(i), kind)
                st.evaluated()
                if a.close or version == "1.0":
                    rest = f.read()
                    if rest and version != "1.0":
                        raise Violation("trailing", "%r after %s %s" % (rest[:200], r[0], r[1][:60]))
                    break
            else:
                s.shutdown(socket.SHUT_WR)
                rest = f.read()
                if rest:
                    raise Violation("trailing", repr(rest[:200]))
        except (ConnectionError, socket.timeout, TimeoutError) as e:
            if not dmn.alive():
                raise Violation("crash:" + dmn.name, daemon.crash_summary(dmn.stderr()))
            if not todo:
                continue
            if isinstance(e, (socket.timeout, TimeoutError)) or not (answered or pipeline):
                raise Violation("no-answer", "%r to %s" % (e, todo[0][1][:2]))
            if not answered:
                pipeline = False
            st.count("reconnected")
        finally:
            f.close()
            s.close()


def run(case, env, st):
    files, kind, conns, noise = case
    with Case(env):
        if kind == "schema":
            dmn = env.schemad()
        else:
            h = env.write_files([f.xml() for f in files])
            dmn = env.disk(env.index(h)) if kind == "disk" else env.mem(h)
        for c in conns:
            expected = {}
            for i, r in enumerate(c[0]):
                if r[0] == "POST":
                    stt, hd, b = dmn.post(r[3])
                    expected[i] = (stt, hd.get("Content-Type"), TIME.sub(b"", b))
            for n in noise[:1]:
                disturb(dmn, n)
            converse(dmn, c, expected, kind, st)
            for r in c[0]:
                st.count(r[0] if r[0] in ("GET", "POST", "OPTIONS") else "other method")
            st.count("sent as " + c[2])
            st.count("HTTP/" + c[1])
            if len(c[0]) > 1:
                st.nontriv(repr(c), "%s: HTTP/%s, %s: %s" % (kind, c[1], c[2], [
                    (r[0], r[1][:20], len(r[3]), r[4]) for r in c[0]]))
        for n in noise:
            disturb(dmn, n)
        s, hd, b = dmn.request("GET", "/")
        if s != 200:
            raise Violation("get", "%d after noise" % s)


def disturb(dmn, data):
    s = connect(dmn.port)
    try:
        s.sendall(data)
        s.shutdown(socket.SHUT_WR)
        s.settimeout(0.05)
        while s.recv(65536):
            pass
    except OSError:
        pass
    finally:
        s.close()


def describe(case):
    files, kind, conns, noise = case
    out = [kind]
    for reqs, v, how, sub in conns:
        out.append("connection HTTP/%s %s %d" % (v, how, sub))
        out += ["  %s %s %r %s %r" % (r[0], r[1], r[2], r[4], r[3][:500]) for r in reqs]
    return "\n".join(out + [repr(n[:100]) for n in noise])


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index", "schemad"])
    sys.exit(Check("C18", "connections with 1 to 8 requests (all methods, root and other urls, odd "
                   "headers, bodies up to 1.2 MB by length, in chunks or after 100-continue), kept, "
                   "closed or HTTP/1.0, sent whole, in pieces, byte by byte or pipelined, to the "
                   "search and schema daemons; every response is compared with a model of the "
                   "protocol (status, allowed methods, CORS and content headers, exact length) and "
                   "every answer to a POST with the answer to the same body sent plainly; broken "
                   "HTTP in between. Non-trivial: a connection with several requests, distinct.",
                   [Part("http", gen, run, 900, 14000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["bodies of refused methods are small and sent with the head: the "
                                "server may close without reading them"]).main())
