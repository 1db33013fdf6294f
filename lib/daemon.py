"""Running the daemons and tools under test."""
import ctypes
import http.client
import os
import shutil
import signal
import socket
import subprocess
import tempfile
import time

from pbt import Violation, Inconclusive

ASAN = ("detect_leaks=0:allow_user_segv_handler=0:handle_segv=2:handle_abort=2:handle_sigbus=2:"
        "handle_sigfpe=2:handle_sigill=2:abort_on_error=0:exitcode=99:"
        "allocator_may_return_null=1:detect_odr_violation=0:symbolize=1")
ENV = dict(os.environ, ASAN_OPTIONS=ASAN, LC_ALL="C",
           ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18")
ENV["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:second_deadlock_stack=1"
_libc = ctypes.CDLL(None)
PR_SET_PDEATHSIG = 1


def _pre():
    _libc.prctl(PR_SET_PDEATHSIG, signal.SIGKILL)


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Scratch:
    """A directory of our own that goes away with its owner."""

    def __init__(self, tag="mws"):
        self.path = tempfile.mkdtemp(prefix="vp-%s-" % tag, dir=scratch_root())
        self.n = 0

    def fresh(self, name="d"):
        self.n += 1
        p = os.path.join(self.path, "%s%d" % (name, self.n))
        os.mkdir(p)
        return p

    def drop(self, p):
        assert p.startswith(self.path + "/")
        shutil.rmtree(p, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def free_port(worker=0):
    """A port that is free now; ranges of the workers do not overlap and stay below the
    ephemeral range."""
    base = 12000 + (os.getpid() % 37) * 8 + worker * 2200
    for k in range(2000):
        free_port.n += 1
        port = 12000 + worker * 2200 + (base + free_port.n) % 2200
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("0.0.0.0", port))
            return port
        except OSError:
            pass
        finally:
            s.close()
    raise Inconclusive("no free port")


free_port.n = 0


def run_tool(argv, timeout=60, env=None, cwd=None, stdin=None, preexec=None):
    """(returncode, stdout, stderr) of a tool; a sanitizer report is a Violation."""
    def pre():
        _pre()
        if preexec:
            preexec()
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         env=dict(ENV, **(env or {})), cwd=cwd, preexec_fn=pre)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        raise Violation("tool-hang", "%s did not end within %ds" % (argv[0], timeout))
    check_sanitizer(os.path.basename(argv[0]), p.returncode, e)
    return p.returncode, o, e


def crash_summary(err):
    t = err.decode("utf-8", "replace") if isinstance(err, bytes) else err
    for key in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:",
                "Assertion", "terminate called", "DEADLYSIGNAL"):
        i = t.find(key)
        if i >= 0:
            lines = t[i:i + 4000].splitlines()
            frames = [l.strip() for l in lines if l.strip().startswith("#")
                      and "/repo/" in l][:4]
            return lines[0] + " " + " | ".join(frames)
    return t[-600:]


def check_sanitizer(name, rc, err):
    if rc is not None and (rc < 0 or rc == 99 or rc == 66):
        raise Violation("crash:" + name, "exit %s %s" % (rc, crash_summary(err)))


class Daemon:
    def __init__(self, argv, port, startup=40, errfile=None, env=None):
        self.port = port
        self.name = os.path.basename(argv[0])
        self.err = tempfile.TemporaryFile(dir=scratch_root())
        self.p = subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=self.err,
                                  stdin=subprocess.DEVNULL, env=dict(ENV, **(env or {})),
                                  preexec_fn=_pre)
        self.conn = None
        end = time.time() + startup
        pause = 0.003
        while True:
            if self.p.poll() is not None:
                rc = self.p.returncode
                check_sanitizer(self.name, rc, self.stderr())
                raise StartFailed(self.name, rc, self.stderr())
            try:
                s = socket.create_connection(("127.0.0.1", port), timeout=5)
                s.close()
                break
            except OSError:
                pass
            if time.time() > end:
                self.p.kill()
                self.p.wait()
                raise Violation("start-hang:" + self.name, "not listening after %ds" % startup)
            time.sleep(pause)
            pause = min(pause * 1.3, 0.1)

    def stderr(self):
        self.err.seek(0)
        return self.err.read()

    def request(self, method, url, body=None, headers=None, timeout=60):
        """(status, headers, body); a connection that breaks is a Violation."""
        for attempt in (0, 1):
            fresh = self.conn is None
            if fresh:
                self.conn = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
            try:
                self.conn.request(method, url, body=body, headers=headers or {})
                r = self.conn.getresponse()
                data = r.read()
                if r.will_close:
                    self.conn.close()
                    self.conn = None
                return r.status, r.headers, data
            except Exception as e:
                self.conn.close()
                self.conn = None
                if self.p.poll() is None and not fresh:
                    continue        # keep-alive connection had been closed
                try:
                    self.p.wait(3)
                except subprocess.TimeoutExpired:
                    pass
                rc = self.p.poll()
                if rc is not None:
                    raise Violation("crash:" + self.name, "exit %s %s" %
                                    (rc, crash_summary(self.stderr())))
                if isinstance(e, (socket.timeout, TimeoutError)):
                    raise Violation("hang:" + self.name, "no answer in %ds" % timeout)
                raise Violation("no-answer:" + self.name, repr(e))

    def post(self, body, timeout=60):
        if isinstance(body, str):
            body = body.encode("utf-8", "surrogateescape")
        return self.request("POST", "/", body, timeout=timeout)

    def alive(self):
        return self.p.poll() is None

    def stop(self, graceful=False):
        """End the daemon; with graceful, a clean shutdown is demanded."""
        if self.conn is not None:
            self.conn.close()
            self.conn = None
        rc = self.p.poll()
        if rc is not None:
            raise_if = Violation("crash:" + self.name, "exit %s %s" %
                                 (rc, crash_summary(self.stderr())))
            self.err.close()
            raise raise_if
        if not graceful:
            self.p.kill()
            self.p.wait()
            self.err.close()
            return None
        self.p.terminate()
        try:
            rc = self.p.wait(40)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise Violation("stop-hang:" + self.name, "did not end on SIGTERM")
        e = self.stderr()
        self.err.close()
        check_sanitizer(self.name, rc, e)
        if rc != 0:
            raise Violation("stop-exit:" + self.name, "exit %d on SIGTERM: %s" % (rc, e[-500:]))
        return rc

    def kill(self):
        if self.conn is not None:
            self.conn.close()
            self.conn = None
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.err.close()


class StartFailed(Violation):
    def __init__(self, name, rc, err):
        super().__init__("start-failed:" + name, "exit %s: %s" % (rc, crash_summary(err)))
        self.rc = rc


def start(argv, port_flag="-p", worker=0, **kw):
    """Start a daemon on a free port; a lost race for the port is retried."""
    for attempt in range(4):
        port = free_port(worker)
        try:
            return Daemon(argv + [port_flag, str(port)], port, **kw)
        except StartFailed as e:
            if attempt < 3 and ("bind" in e.msg.lower() or "address already" in e.msg.lower()
                                or "start daemon" in e.msg.lower()):
                continue
            raise
