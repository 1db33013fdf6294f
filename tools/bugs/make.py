"""Write seeded/<id>/ for the planted changes described in specs*.py (patch against /repo's HEAD)."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "..", "seeded")


def specs():
    for p in sorted(glob.glob(HERE + "/specs*.py")):
        s = importlib.util.spec_from_file_location("m", p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        yield from m.BUGS


def main():
    only = sys.argv[1:]
    for b in specs():
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="bug-")
        names = sorted({e[0] for e in b["edits"]})
        for side in "ab":
            for n in names:
                t = os.path.join(tmp, side, n)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                txt = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + n],
                                     capture_output=True, text=True, check=True).stdout
                if side == "b":
                    for f, old, new in b["edits"]:
                        if f == n:
                            if txt.count(old) != 1:
                                print("%s: %d occurrences in %s of:\n%s" % (b["id"], txt.count(old), n, old))
                                sys.exit(1)
                            txt = txt.replace(old, new)
                open(t, "w").write(txt)
        d = subprocess.run(["diff", "-u", "-r", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
        d = "".join(l if not l.startswith(("--- ", "+++ ")) else l.split("\t")[0] + "\n"
                    for l in d.splitlines(True) if not l.startswith("diff -u"))
        shutil.rmtree(tmp)
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        open(out + "/meta.json", "w").write(json.dumps(
            {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        open(out + "/demo.py", "w").write("from demolib import *\nfrom demolib import _daemons\n" + b["demo"] + "print('ok')\n")
        shutil.copy(HERE + "/demolib.py", out)
        for extra, text in b.get("files", {}).items():
            open(os.path.join(out, extra), "w").write(text)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)


main()
