"""C06: a damaged index file is refused."""
from searchlib import *
from memsector import HDR
import shutil
import struct
import subprocess
import zlib


def gen_index(d):
    g = Gen(d, weird=False)
    if d.bool(0.08):
        # an index of some 100 KiB, sometimes with a very wide node
        n = d.int(1500, 3000)
        wide = d.bool(0.5)
        return [Harvest([("expr", "u%d" % i, None,
                          T("apply", "", [T("ci", "f" if wide else "f%d" % (i % 97)),
                                          T("ci", "a%d" % i)])) for i in range(n)])]
    n = d.weighted((4, 1), (3, 2), (1, 6), (1, 20))
    items = [("expr", "u%d" % i, None, g.expr(d.choice(["small", "small", "medium"])))
             for i in range(n)]
    return [Harvest(items)]


def gen(d):
    files = gen_index(d)
    # the actual changes depend on the file: they are made from a sub-seed of the case
    return files, d.int(0, 1 << 30), d.bool(0.5)


def changes(rnd, data, exhaustive, quota):
    n = len(data)
    out = ["n"]
    small = []
    for i in range(n):
        vals = range(1, 256) if i < HDR.size else [1 << b for b in range(8)] + [255, data[i] or 7]
        small += ["x %d %d" % (i, v) for v in vals]
    small += ["t %d" % i for i in range(n)]
    if not exhaustive or len(small) > quota:
        small = rnd.sample(small, min(len(small), quota // 2))
    out += small
    # several bytes at once
    for _ in range(quota // 12):
        k = rnd.choice([2, 2, 3, 4, 8])
        offs = rnd.sample(range(n), min(k, n))
        out.append("x " + " ".join("%d %d" % (o, rnd.randrange(1, 256)) for o in offs))
    for _ in range(quota // 24):
        a = rnd.randrange(n)
        ln = rnd.randint(1, min(64, n - a))
        v = rnd.choice([0, 0, 255, rnd.randrange(256)])
        if any(b != v for b in data[a:a + ln]):
            out.append("z %d %d %d" % (a, ln, v))
    # header fields at once
    magic, ver, size, crc, root = HDR.unpack_from(data, 0)
    specials = [0, 1, 4, 7, n, n - 1, n // 4, n + 1, 1 << 31, 1 << 32, (1 << 62), (1 << 64) - 1,
                (1 << 62) + 7, size - 4, size + 4, size - 8, 28]
    for _ in range(quota // 12):
        f = rnd.choice(["size", "root", "root", "both"])
        s2, r2 = size, root
        if f in ("size", "both"):
            s2 = rnd.choice(specials + [rnd.randrange(1 << 64)]) % (1 << 64)
        if f in ("root", "both"):
            r2 = rnd.choice(specials + [rnd.randrange(n // 4 + 3), rnd.randrange(1 << 64)]) % (1 << 64)
        b = HDR.pack(magic, ver, s2, crc, r2) + data[HDR.size:]
        if b != data:
            out.append("h " + b.hex())
    # not an index at all
    for _ in range(quota // 24):
        k = rnd.choice([0, 1, 4, 8, 27, 28, 29, 32, 36, 100, 4096])
        b = bytearray(rnd.randbytes(k))
        how = rnd.randrange(4)
        if how and k >= 8:
            struct.pack_into("<II", b, 0, magic, ver)
        if how > 1 and k >= 28:
            body = bytes(b[28:]) if how == 2 else b""
            HDR.pack_into(b, 0, magic, ver, len(body), zlib.crc32(body), rnd.choice(specials) % (1 << 64))
            if how == 2 and k > 36 and rnd.random() < 0.5:
                continue
        out.append("h " + bytes(b).hex())
    out.append("h ")
    out.append("m")
    rnd.shuffle(out)
    return out + ["n"]


def run(case, env, st):
    import random
    files, sub, exhaustive = case
    rnd = random.Random(sub)
    with Case(env):
        h = env.write_files([f.xml() for f in files])
        idx = env.index(h)
        p = os.path.join(idx, "index.memsector")
        data = open(p, "rb").read()
        ch = changes(rnd, data, exhaustive and len(data) < 20000, 700)
        env_idx = dict(os.environ, **daemon.ENV)
        r = subprocess.run([env.bin("idxload"), idx], input="\n".join(ch).encode() + b"\n",
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env_idx,
                           timeout=600)
        res = r.stdout.decode().splitlines()
        if len(res) != len(ch):
            raise Violation("harness", "%d results for %d changes, exit %s" %
                            (len(res), len(ch), r.returncode))
        st.evaluated(len(ch))
        good = None
        for c, o in zip(ch, res):
            kind = c.split()[0]
            if kind == "n":
                if not o.startswith("loaded"):
                    raise Violation("intact-refused", "the intact file gave %s" % o)
                good = o
                continue
            if o.startswith("loaded") and o.endswith("same"):
                continue            # the change did not change anything
            st.nontriv((data[:64], c[:200]), "file of %d bytes, change %s: %s" % (len(data), c[:160], o))
            st.count({"x": "bytes changed", "t": "cut", "z": "range overwritten",
                      "h": "header changed / not an index", "m": "missing"}[kind])
            if o != "refused":
                raise Violation(o.split()[0], "%d byte index, change '%s' gave '%s'" %
                                (len(data), c[:200], o))
        st.max("index bytes", len(data))


def gen_real(d):
    return gen_index(d), d.int(0, 1 << 30), d.int(1, 3)


def run_real(case, env, st):
    """The real daemon on a few damaged files: it must end with an error, not by a signal."""
    import random
    files, sub, n = case
    rnd = random.Random(sub)
    with Case(env):
        h = env.write_files([f.xml() for f in files])
        idx = env.index(h)
        p = os.path.join(idx, "index.memsector")
        data = open(p, "rb").read()
        for _ in range(n):
            how = rnd.randrange(3)
            b = bytearray(data)
            if how == 0:
                b[rnd.randrange(len(b))] ^= rnd.randrange(1, 256)
            elif how == 1:
                b = b[:rnd.randrange(len(b))]
            else:
                b[rnd.randrange(28)] ^= rnd.randrange(1, 256)
            with open(p, "wb") as f:
                f.write(b)
            st.evaluated()
            st.nontriv((data, bytes(b)), None)
            port = daemon.free_port(env.w)
            pr = subprocess.Popen([env.bin("mwsd"), "-D", idx, "-p", str(port)],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                  stdin=subprocess.DEVNULL, env=daemon.ENV,
                                  preexec_fn=daemon._pre)
            try:
                _, e = pr.communicate(timeout=8)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.communicate()
                raise Violation("served", "mwsd runs with a damaged index (change %d)" % how)
            if pr.returncode != 1:
                raise Violation("mwsd-exit", "exit %s: %s" % (pr.returncode,
                                                              daemon.crash_summary(e)))
            st.count("daemon refused")


def describe(case):
    return describe_files(case[0]) + "\nsub-seed %d" % case[1]


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"], harness=[
        ("idxload", ["idxload.cpp"], ["-lxml2", "-lleveldb", "-lmicrohttpd", "-ljson-c", "-lz",
                                      "-lpthread"])])
    mk = lambda w: SearchEnv(w, b)
    sys.exit(Check("C06", "index files of generated corpora, damaged: every single byte (all 255 "
                   "values in the header, 10 values elsewhere) and every truncation for half of "
                   "the files, samples for the others; several bytes, overwritten ranges, "
                   "inconsistent header fields, files that are no index. Each is loaded in a "
                   "child process; non-trivial: a file that differs from the intact one, distinct.",
                   [Part("loader", gen, run, 48, 1200, mk, describe=describe, share=3),
                    Part("daemon", gen_real, run_real, 160, 1600, mk, describe=describe)],
                   level="fault_enumeration").main())
