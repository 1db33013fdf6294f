"""Small helpers for the demonstrations of the planted changes (copied beside each of them)."""
import atexit
import http.client
import os
import re
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

BUILD = os.path.join(os.getcwd(), "_build")
DIR = tempfile.mkdtemp(prefix="demo-")
_daemons = []


def _end():
    for p in _daemons:
        p.kill()
        p.wait()
    shutil.rmtree(DIR, ignore_errors=True)


atexit.register(_end)


def fail(text):
    print("FAIL:", text)
    sys.exit(1)


def check(cond, text):
    if not cond:
        fail(text)


def tool(name):
    for d in (BUILD, os.path.join(BUILD, "bin")):
        p = os.path.join(d, name)
        if os.access(p, os.X_OK):
            return p
    for r, _, fs in os.walk(BUILD):
        if name in fs and os.access(os.path.join(r, name), os.X_OK):
            return os.path.join(r, name)
    print("no", name)
    sys.exit(1)


def write(rel, text):
    p = os.path.join(DIR, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return p


HEAD = '<?xml version="1.0"?>\n<mws:harvest xmlns:mws="http://search.mathweb.org/ns" ' \
       'xmlns:m="http://www.w3.org/1998/Math/MathML">\n'


def harvest(*parts):
    return HEAD + "\n".join(parts) + "\n</mws:harvest>\n"


def expr(url, body, data=None):
    return '<mws:expr url="%s"%s>%s</mws:expr>' % (
        url, ' mws:data_id="%s"' % data if data else "", body)


def query(body, **attrs):
    a = "".join(' %s="%s"' % kv for kv in attrs.items())
    return '<mws:query xmlns:mws="http://www.mathweb.org/mws/ns" ' \
           'xmlns:m="http://www.w3.org/1998/Math/MathML"%s><mws:expr>%s</mws:expr></mws:query>' \
           % (a, body)


def run(name, *args, **kw):
    p = subprocess.run([tool(name)] + list(args), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=100, **kw)
    return p.returncode, p.stdout, p.stderr


class Daemon:
    def __init__(self, name, *args):
        for attempt in range(5):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.p = subprocess.Popen([tool(name)] + list(args) + ["-p", str(self.port)],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                      stdin=subprocess.DEVNULL)
            _daemons.append(self.p)
            for i in range(1000):
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 5).close()
                    return
                except OSError:
                    time.sleep(0.02)
        self.p.kill()
        fail("%s does not start" % name)

    def request(self, method, path, body=None, headers={}):
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=60)
        try:
            if isinstance(body, str):
                body = body.encode()
            c.request(method, path, body, headers)
            r = c.getresponse()
            return r.status, r.headers, r.read()
        except Exception as e:
            fail("no answer: %r" % e)
        finally:
            c.close()

    def post(self, body):
        s, h, b = self.request("POST", "/", body)
        return s, b.decode("utf-8", "replace")


def hits(text):
    """[(uri, xpath)] of an XML answer."""
    return sorted(re.findall(r'<mws:answ uri="([^"]*)" xpath="([^"]*)"', text))


def total(text):
    return int(re.search(r'total="(\d+)"', text).group(1))


def mwsd(*files, args=()):
    d = tempfile.mkdtemp(dir=DIR)
    for i, f in enumerate(files):
        with open(os.path.join(d, "f%02d.harvest" % i), "wb") as fh:
            fh.write(f if isinstance(f, bytes) else f.encode())
    return Daemon("mwsd", "-I", d, *args)


def mkindex(*files, args=()):
    d = tempfile.mkdtemp(dir=DIR)
    for i, f in enumerate(files):
        with open(os.path.join(d, "f%02d.harvest" % i), "wb") as fh:
            fh.write(f if isinstance(f, bytes) else f.encode())
    out = os.path.join(d, "index.out")
    rc, o, e = run("mws-index", "-I", d, "-o", out, *args)
    return rc, out


class Site:
    """A web site: pages = {path: (content type, body)}; log = requested paths in order."""
    def __init__(self, pages):
        import http.server
        import threading
        site = self
        self.pages, self.log = pages, []

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                site.log.append(self.path)
                ct, body = site.pages.get(self.path, ("", None))
                if body is None:
                    self.send_response(404)
                    self.send_header("Content-Length", "0")
                    self.end_headers()
                    return
                b = body.encode()
                self.send_response(200)
                self.send_header("Content-Type", ct)
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

            def log_message(self, *a):
                pass

        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.port = self.srv.server_address[1]
        self.url = "http://127.0.0.1:%d" % self.port
        t = threading.Thread(target=self.srv.serve_forever)
        t.daemon = True
        t.start()


def crawl(site, start="/", count=-1, dont=()):
    """Crawls the site with crawlerd; returns (requested paths but robots.txt, stored harvests)."""
    import urllib.parse
    base = os.path.join(os.getcwd(), "data")
    if not os.path.exists(base):            # crawlerd stores below it
        os.mkdir(base)
        atexit.register(lambda: os.rmdir(base))
    out = tempfile.mkdtemp(dir=DIR)
    d = Daemon("crawlerd", "-d", os.path.relpath(out, base))
    form = [("urlstart", site.url + start), ("count", str(count))]
    form += [("dontcrawl", x) for x in dont]
    d.request("POST", "/", urllib.parse.urlencode(form),
              {"Content-Type": "application/x-www-form-urlencoded"})
    end, seen = time.time() + 100, -1
    while time.time() < end:                # until no more is asked for or stored
        now = (len(site.log), sorted(os.listdir(out)))
        if now[1] and now == seen:
            break
        seen = now
        time.sleep(1.5)
    return [p for p in site.log if p != "/robots.txt"], \
        [open(os.path.join(out, f)).read() for f in sorted(os.listdir(out))]


def parallel(n, f):
    """f(i) in n threads; the first result that is not None."""
    import threading
    res = []

    def go(i):
        try:
            r = f(i)
        except BaseException as e:
            r = "%s: %s" % (type(e).__name__, e)
        if r is not None:
            res.append(r)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res[0] if res else None


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def wait_port(port):
    for i in range(500):
        try:
            socket.create_connection(("127.0.0.1", port), 5).close()
            return
        except OSError:
            time.sleep(0.02)
    fail("nothing listens")


def serving(port):
    """The processes that have this port on their command line."""
    r = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/cmdline" % p, "rb") as f:
                    a = f.read().split(b"\0")
            except OSError:
                continue
            if str(port).encode() in a:
                r.append(int(p))
    return r
