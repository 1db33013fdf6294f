"""A web server and a crawling process for the checks of the crawler."""
from searchlib import *
import re
import select
import socket
import subprocess
import tempfile
import threading
import time


class Site:
    """Serves {target: (status, content type, body, how)}; logs (Host, target)."""

    def __init__(self):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.pages = {}
        self.log = []
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            try:
                self.serve(c)
            except OSError:
                pass
            finally:
                c.close()

    def serve(self, c):
        c.settimeout(20)
        data = b""
        while b"\r\n\r\n" not in data:
            x = c.recv(65536)
            if not x:
                return
            data += x
        head = data.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")
        target = head[0].split(" ")[1] if " " in head[0] else head[0]
        host = [h.split(":", 1)[1].strip() for h in head[1:] if h.lower().startswith("host:")]
        self.log.append((host[0] if host else "", target))
        p = self.pages.get(target)
        if p is None:
            p = (404, "text/html", b"<html><body>not found</body></html>", "")
        status, ctype, body, how = p
        if how == "close":
            return
        if isinstance(body, str):
            body = body.encode("utf-8", "surrogateescape")
        h = "HTTP/1.1 %d X\r\n" % status
        if ctype is not None:
            h += "%s: %s\r\n" % ("content-type" if "lower" in how else "Content-Type", ctype)
        n = len(body) + (50 if "short" in how else 0)
        if "nolength" not in how:
            h += "Content-Length: %d\r\n" % n
        h += "Connection: close\r\n\r\n"
        c.sendall(h.encode("latin-1") + body)
        try:
            c.shutdown(socket.SHUT_WR)
            c.settimeout(2)
            c.recv(10)
        except OSError:
            pass

    def close(self):
        self.s.close()


def enc(s):
    b = s.encode("utf-8", "surrogateescape")
    return "".join(chr(x) if 32 < x < 127 and x != 37 else "%%%02X" % x for x in b)


class Crawl:
    """Environment: a site, the crawling process, a data directory."""

    def __init__(self, worker, bdir):
        self.w, self.b = worker, bdir
        self.scratch = Scratch("c%d" % worker)
        self.site = Site()
        self.p = None

    def spawn(self):
        self.err = tempfile.TemporaryFile(dir=daemon.scratch_root())
        self.p = subprocess.Popen([os.path.join(self.b, "crawl")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=daemon.ENV,
                                  preexec_fn=daemon._pre)

    def crawl(self, start, count, ddir, dont=(), timeout=60):
        if self.p is None:
            self.spawn()
        line = "\t".join([enc(start), "" if count is None else str(count), enc(ddir)] +
                         [enc(x) for x in dont]) + "\n"
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
        except OSError:
            pass
        end = time.time() + timeout
        tail = b""
        fd = self.p.stdout.fileno()
        while b"\x01done" not in tail:
            r, _, _ = select.select([fd], [], [], max(0.0, end - time.time()))
            if not r:
                self.drop()
                raise Violation("crawl-hang", "crawl of %s did not end in %d s" % (start, timeout))
            x = os.read(fd, 65536)
            if not x:
                rc = self.p.wait()
                self.err.seek(0)
                e = self.err.read()
                self.drop()
                raise Violation("crawl-crash", "exit %s %s" % (rc, daemon.crash_summary(e)))
            tail = (tail + x)[-200000:]

    def drop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.err.close()
            self.p = None

    def close(self):
        self.drop()
        self.site.close()
        self.scratch.close()


LINKS = ["-lxml2", "-licuuc", "-lcurl", "-lhtmlcxx", "-ljson-c", "-lmicrohttpd", "-lleveldb", "-lz",
         "-lpthread"]
HARNESS = [("crawl", ["crawl.cpp"], LINKS), ("crawlerd-here", ["crawlerd.cpp"], LINKS)]


def make():
    return build.ensure(["crawlerd", "mwsd"], harness=HARNESS)
