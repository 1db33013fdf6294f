"""Try planted changes: builds, passes the tests, demo fails; does the property's check see it?
Usage: plant.py [ID...]   results in tools/seeded_results.json"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = V + "/tools/seeded_results.json"


def sh(cmd, timeout=1200, **kw):
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace")


def clean():
    sh("git -C /repo checkout -- . && git -C /repo status --short")


def tests():
    rc, o = sh("bash /opt/vp/test.sh /tmp/plant.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open("/tmp/plant.json"))
    want = base.get("passed") or base.get("stable") or []
    miss = [t for t in want if t not in got["passed"]]
    return len(got["passed"]), miss


def main():
    ids = sys.argv[1:]
    nochk = "--nocheck" in ids
    ids = [i for i in ids if not i.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    assert sh("git -C /repo status --short")[1].strip() == ""
    sh("bash /opt/vp/build.sh")
    for i in ids:                                   # unchanged tree first
        rc, o = sh(["bash", "%s/seeded/%s/demo.sh" % (V, i)], timeout=300, cwd="/repo")
        if rc != 0:
            print("%-24s DEMO FAILS ON UNCHANGED TREE rc=%d %s" % (i, rc, o[-300:]), flush=True)
            res[i] = {"bad": "demo fails unchanged"}
    for i in ids:
        if res.get(i, {}).get("bad") == "demo fails unchanged" :
            rc, o = 1, ""
        d = "%s/seeded/%s" % (V, i)
        meta = json.load(open(d + "/meta.json"))
        r = {"property": meta["property"]}
        try:
            rc, o = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
            if rc:
                print(i, "DOES NOT APPLY", o); continue
            rc, o = sh("bash /opt/vp/build.sh")
            if rc:
                print("%-24s DOES NOT BUILD %s" % (i, o[-1500:])); continue
            n, miss = tests()
            rc, o = sh(["bash", d + "/demo.sh"], timeout=300, cwd="/repo")
            r["tests"] = n
            r["demo"] = rc
            r["counts"] = not miss and rc != 0
            if miss or rc == 0:
                print("%-24s DOES NOT COUNT missing=%s demo rc=%d %s" % (i, miss, rc, o[-200:]), flush=True)
            if not nochk:
                t = time.time()
                p = meta["property"]
                rc, o = sh(["python3", "checks/%s.py" % p.lower(), "quick"], cwd=V,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + p)]
                r["caught"] = rc == 1 and bool(v)
                r["rc"] = rc
                r["seconds"] = round(time.time() - t)
                kind = [l for l in o.splitlines() if "kind" in l.lower() or l.startswith("VIOLATION")]
                print("%-24s tests=%d demo=%d %s rc=%d %ds %s" % (
                    i, n, r["demo"], "CAUGHT" if r["caught"] else "MISSED", rc, r["seconds"],
                    "" if r["caught"] else o[-300:]), flush=True)
        finally:
            clean()
        res[i] = r
        json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
    sh("bash /opt/vp/build.sh")
    sh("git -C %s checkout -- ." % "/repo")


main()
