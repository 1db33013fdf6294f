"""Builds /repo's current working tree with its own CMake files, out of tree, with
sanitizers; one directory per variant under /verif/build (ignored by git)."""
import fcntl
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

VARIANTS = {
    "asan": "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer",
    "plain": "-O1 -g1",
    "tsan": "-O1 -g1 -fsanitize=thread",
    "fuzz": "-O1 -g1 -fsanitize=address,fuzzer-no-link",
}


def build_dir(variant="asan"):
    return os.path.join(VERIF, "build", variant)


def run(cmd, log, **kw):
    with open(log, "ab") as f:
        return subprocess.run(cmd, stdout=f, stderr=f, **kw).returncode


def ensure(targets, variant="asan", harness=()):
    """Build the given cmake targets (and own harness programs); returns the directory."""
    b = build_dir(variant)
    os.makedirs(b, exist_ok=True)
    log = os.path.join(b, "build.log")
    flags = VARIANTS[variant]
    with open(os.path.join(VERIF, "build", variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(log, "w").close()
        env = dict(os.environ, CC="clang", CXX="clang++")
        rc = run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-Wno-dev",
                  "-DCMAKE_BUILD_TYPE=None",
                  "-DCMAKE_C_FLAGS=-w " + flags,
                  "-DCMAKE_CXX_FLAGS=-w -include cstdint " + flags], log, env=env)
        if rc == 0:
            rc = run(["ninja", "-C", b] + list(targets), log, env=env)
        if rc == 0:
            for h in harness:
                rc = build_harness(h, b, flags, log)
                if rc:
                    break
        if rc:
            sys.stderr.write(open(log, errors="replace").read()[-6000:])
            sys.stderr.write("\nBUILD FAILED (%s)\n" % variant)
            sys.exit(2)
    return b


def static_libs(b):
    out = []
    for root, _, files in os.walk(b):
        if "CMakeFiles" in root:
            continue
        out += [os.path.join(root, f) for f in files if f.endswith(".a")]
    return sorted(out)


def newest(paths):
    return max((os.stat(p).st_mtime for p in paths), default=0)


def build_harness(h, b, flags, log):
    """h = (name, source list, library name filter or None, extra link flags)"""
    name, sources, extra = h
    out = os.path.join(b, name)
    obj_flags = flags.split()
    srcs = [os.path.join(VERIF, "harness", s) for s in sources]
    if all(s.endswith(".c") for s in srcs):     # a library of its own
        return run(["clang", "-w"] + obj_flags + srcs + ["-o", out] + list(extra), log)
    cmd = ["clang++", "-std=c++14", "-w", "-include", "cstdint"] + obj_flags + \
        ["-I", os.path.join(REPO, "src"), "-I", b,
         "-I", "/usr/include/libxml2",
         "-I", os.path.join(REPO, "third_party", "crawler", "googleurl", "src")] + srcs + ["-o", out, "-Wl,--start-group"] + \
        static_libs(b) + ["-Wl,--end-group"] + list(extra)
    return run(cmd, log)
