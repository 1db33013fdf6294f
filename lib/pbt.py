"""Property-based testing engine of this framework.

A case is generated from a sequence of draws ("choices").  The same sequence always
yields the same case, so the choice sequence is both what gets shrunk and what gets
written as the replay file.  Choice 0 is always the simplest alternative; a replay that
runs out of choices continues with zeros.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for this case.  `kind` is a short stable label (kept
    while shrinking), the message describes the case."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class Inconclusive(Exception):
    """The environment got in the way (no port, no disk ...): says nothing about the
    property.  Counted; a run where these are not rare exits with an error."""


class Draw:
    def __init__(self, seed=None, prefix=None):
        self.rnd = random.Random(seed) if prefix is None else None
        self.prefix = prefix
        self.pos = 0
        self.choices = []

    def _next(self, n, gen):
        """A choice in [0, n)."""
        if self.prefix is None:
            v = gen()
        else:
            v = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
            if v >= n:
                v = v % n
        self.pos += 1
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        if hi <= lo:
            return lo
        n = hi - lo + 1
        return lo + self._next(n, lambda: self.rnd.randrange(n))

    def small(self, lo, hi):
        """Like int, but small values are much more likely."""
        if hi <= lo:
            return lo
        n = hi - lo + 1
        return lo + self._next(n, lambda: min(self.rnd.randrange(n), self.rnd.randrange(n),
                                               self.rnd.randrange(n)))

    def bool(self, p=0.5):
        return bool(self._next(2, lambda: 1 if self.rnd.random() < p else 0))

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, *pairs):
        """pairs of (weight, value); the first one is the simplest."""
        tot = sum(w for w, _ in pairs)

        def gen():
            x = self.rnd.random() * tot
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._next(len(pairs), gen)][1]

    def list(self, lo, hi, fn, n=None):
        """A list of lo..hi results of fn(); element-wise deletable by the shrinker."""
        out = []
        if self.prefix is None:
            if n is None:
                n = self.rnd.randint(lo, hi)
            n = max(lo, min(hi, n))
        while len(out) < hi:
            if len(out) >= lo:
                if not self._next(2, lambda: 1 if len(out) < n else 0):
                    break
            out.append(fn())
        return out

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.int(0, i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.classes = {}
        self.inconclusive = 0
        self.cases = 0

    def count(self, label, n=1):
        self.classes[label] = self.classes.get(label, 0) + n

    def max(self, label, v):
        label = "max " + label
        self.classes[label] = max(self.classes.get(label, 0), v)

    def evaluated(self, n=1):
        self.evaluations += n

    def nontriv(self, key, sample=None):
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogateescape"), digest_size=8).digest()
        new = h not in self.nontrivial
        self.nontrivial.add(h)
        if new and sample is not None and len(self.samples) < 3:
            s = sample if isinstance(sample, str) else json.dumps(sample, default=str)
            self.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    def merge(self, o):
        self.evaluations += o.evaluations
        self.nontrivial |= o.nontrivial
        self.samples = (self.samples + o.samples)[:6]
        for k, v in o.classes.items():
            if k.startswith("max "):
                self.classes[k] = max(self.classes.get(k, 0), v)
            else:
                self.classes[k] = self.classes.get(k, 0) + v
        self.inconclusive += o.inconclusive
        self.cases += o.cases


def seed_of(seed, check, part, i):
    return int.from_bytes(hashlib.blake2b(("%s/%s/%s/%s" % (seed, check, part, i)).encode(),
                                          digest_size=8).digest(), "big")


class Part:
    """One generator with its oracle.

    gen(draw) -> case (any value), run(case, env, stats) raises Violation.
    env = make_env(worker_index) is created once per worker process, env.close() at its end.
    """

    def __init__(self, name, gen, run, quick, thorough, make_env=None, share=1.0,
                 describe=None, workers=8, replays=3, retry=1, sure=()):
        self.name = name
        self.gen = gen
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.make_env = make_env or (lambda w: None)
        self.share = share
        self.describe = describe or (lambda c: repr(c)[:3000])
        self.workers = workers
        self.replays = replays      # number of times a failure has to come back
        self.retry = retry          # attempts per replay (schedule-dependent parts)
        # kinds of violations that a schedule can make rare but no load can make up:
        # they count even if they do not come back
        self.sure = tuple(sure)


def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def _close(env):
    try:
        if env is not None and hasattr(env, "close"):
            env.close()
    except Exception:
        pass


def _worker(check, part, seed, w, todo, deadline, q, stop, known):
    _die_with_parent()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    st = Stats()
    fail = None
    err = None
    env = None
    last = 0
    done = 0
    try:
        env = part.make_env(w)
        for i in todo:
            if stop.is_set() or time.time() > deadline:
                break
            done += 1
            d = Draw(seed=seed_of(seed, check, part.name, i))
            case = part.gen(d)
            st.cases += 1
            last = i
            try:
                part.run(case, env, st)
            except Violation as v:
                if known(v, case):
                    st.count("known finding met: " + v.kind)
                    continue
                fail = (i, d.choices, v.kind, v.msg)
                stop.set()
                break
            except Inconclusive as e:
                st.inconclusive += 1
                st.count("inconclusive: " + str(e)[:80])
    except BaseException:
        err = "case %d: %s" % (last, traceback.format_exc())
        stop.set()
    _close(env)
    q.put((st, fail, err, list(todo[done:])))
    q.close()
    q.join_thread()


def try_choices(part, env, choices):
    """(violation or None, case, normalised choices)"""
    d = Draw(prefix=choices)
    case = part.gen(d)
    try:
        part.run(case, env, Stats())
    except Violation as v:
        return v, case, d.choices
    except Inconclusive:
        pass
    return None, case, d.choices


def shrink(part, env, choices, kind, limit):
    end = time.time() + limit
    best = list(choices)
    tries = 0

    def ok(cand):
        nonlocal best, tries
        if time.time() > end:
            return False
        tries += 1
        try:
            v, _, norm = try_choices(part, env, cand)
        except Exception:
            return False
        if v is not None and v.kind == kind:
            norm = norm if len(norm) <= len(cand) else cand
            while norm and norm[-1] == 0:
                norm = norm[:-1]
            if (len(norm), norm) < (len(best), best):
                best = norm
                return True
        return False

    while best and best[-1] == 0:
        best = best[:-1]
    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if ok(best[:i] + best[i + size:]):
                    improved = True
                elif size > 1 and any(best[i:i + size]) and \
                        ok(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                    i += size
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best) and time.time() < end:
            if best[i]:
                lo, hi = 0, best[i]
                if ok(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    while hi - lo > 1 and i < len(best) and time.time() < end:
                        mid = (lo + hi) // 2
                        if ok(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            improved = True
                        else:
                            lo = mid
            i += 1
    return best, tries


class Check:
    def __init__(self, pid, rule, parts, assumptions=None, level="exploration", extra=None,
                 quick_s=60, thorough_s=600, regressions=None):
        self.pid = pid
        self.rule = rule
        self.parts = parts
        self.assumptions = assumptions or []
        self.level = level
        self.quick_s = quick_s
        self.thorough_s = thorough_s
        self.findings = load_findings(pid)
        # [(finding id, callable(env-less) -> bool still failing)]
        self.regressions = regressions or []

    def known(self, v, case):
        return any(f.get("kind") == v.kind and f.get("contains", "") in v.msg
                   for f in self.findings)

    def main(self, argv=None):
        argv = argv or sys.argv[1:]
        if argv and argv[0] == "replay":
            return self.replay(argv[1])
        tier = argv[0] if argv else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        t0 = time.time()
        st = Stats()
        parts_info = {}
        budget = self.quick_s if tier == "quick" else self.thorough_s
        total_share = sum(p.share for p in self.parts)
        code = 0
        only = os.environ.get("VERIF_PART")
        for p in self.parts:
            if only and p.name != only:
                continue
            n = p.quick if tier == "quick" else p.thorough
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            n = int(n * scale)
            if n <= 0:
                continue
            pt0 = time.time()
            deadline = time.time() + budget * p.share / total_share
            rest = list(range(n))
            pst = Stats()
            odd = []
            violated = False
            errs = []
            while rest and not violated and not errs:
                # a failure that does not come back does not end the search
                s1, fails, errs, rest = self.run_part(p, seed, rest, deadline)
                pst.merge(s1)
                if not fails and not errs:
                    break
                for f in fails:
                    if self.report(p, f, seed, tier):
                        violated = True
                        break
                    odd.append([f[0], f[2], f[3][:500]])
                    pst.count("failure that did not come back: " + f[2])
                    sys.stderr.write("did not come back in replay: %s: %s\n" % (f[2], f[3]))
                    if time.time() > deadline + 120:
                        break
                if time.time() > deadline or len(odd) > 20:
                    break
            parts_info[p.name] = {"cases": pst.cases, "planned": n,
                                  "evaluations": pst.evaluations,
                                  "distinct_nontrivial": len(pst.nontrivial),
                                  "classes": dict(sorted(pst.classes.items())),
                                  "wall_s": round(time.time() - pt0, 1)}
            if odd:
                parts_info[p.name]["not_reproduced"] = odd
            st.merge(pst)
            if violated:
                code = 1
                break
            if errs:
                sys.stderr.write("\n".join(errs) + "\n")
                self.evidence(tier, seed, st, parts_info, t0, 0)
                return 3
            if pst.inconclusive * 5 > max(pst.cases, 5):
                sys.stderr.write("too many inconclusive cases: %r\n" % pst.classes)
                self.evidence(tier, seed, st, parts_info, t0, 0)
                return 3
        self.evidence(tier, seed, st, parts_info, t0, 1 if code else 0)
        if code == 0:
            for f in self.findings:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
            print("ok property=%s tier=%s seed=%d cases=%d evaluations=%d nontrivial=%d %.1fs" %
                  (self.pid, tier, seed, st.cases, st.evaluations, len(st.nontrivial),
                   time.time() - t0))
        return code

    def run_part(self, p, seed, indices, deadline):
        """(stats, failures by case index, errors, cases not yet run)"""
        q = mp.Queue()
        stop = mp.Event()
        nw = max(1, min(p.workers, len(indices)))
        procs = [mp.Process(target=_worker, args=(self.pid, p, seed, w, indices[w::nw], deadline,
                                                  q, stop, self.known)) for w in range(nw)]
        for x in procs:
            x.start()
        res = []
        errs = []
        while len(res) < nw:
            try:
                res.append(q.get(timeout=2))
            except Exception:
                dead = [x for x in procs if not x.is_alive() and x.exitcode != 0]
                if dead and len(res) + len(dead) >= nw:
                    errs.append("worker died: %s" % [x.exitcode for x in dead])
                    break
                if time.time() > deadline + 240:
                    errs.append("worker stuck")
                    for x in procs:
                        x.kill()
                    break
        for x in procs:
            x.join(5)
            if x.is_alive():
                x.kill()
        st = Stats()
        fails = []
        rest = []
        for s, f, e, r in res:
            st.merge(s)
            rest += r
            if f:
                fails.append(f)
            if e:
                errs.append(e)
        return st, sorted(fails, key=lambda f: f[0]), errs, sorted(rest)

    def report(self, p, fail, seed, tier):
        i, choices, kind, msg = fail
        env = p.make_env(0)

        def fails_again(ch):
            for _ in range(p.retry):
                v, case, _ = try_choices(p, env, ch)
                if v is not None and not self.known(v, case):
                    return v, case
            return None, None
        try:
            v, case = fails_again(choices)
            if v is None:
                v, case = fails_again(choices)
            sure = bool(p.sure) and kind.startswith(p.sure)
            if v is None and not sure:
                return False
            best = choices
            if p.retry == 1 and v is not None:
                best, tries = shrink(p, env, choices, v.kind, 45 if tier == "quick" else 120)
                sys.stderr.write("shrunk %d -> %d choices in %d tries\n" %
                                 (len(choices), len(best), tries))
            for cand in (best, choices):
                good = 0
                for _ in range(p.replays):
                    v, case = fails_again(cand)
                    if v is not None:
                        good += 1
                if good == p.replays:
                    break
            else:
                if not sure:
                    return False
                if v is None:
                    v, case = Violation(kind, msg), p.gen(Draw(prefix=choices))
            d = os.path.join(VERIF, "build", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (self.pid, p.name, seed))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "part": p.name, "seed": seed, "case": i,
                           "choices": cand, "kind": v.kind, "message": v.msg,
                           "description": p.describe(case)}, f, indent=1)
            print(p.describe(case)[:4000])
            print("%s: %s" % (v.kind, v.msg))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            return True
        finally:
            _close(env)

    def replay(self, path):
        with open(path) as f:
            r = json.load(f)
        p = [x for x in self.parts if x.name == r["part"]][0]
        env = p.make_env(0)
        try:
            for _ in range(10 if p.sure else max(1, p.retry)):
                v, case, _ = try_choices(p, env, r["choices"])
                if v is not None:
                    print(p.describe(case)[:4000])
                    print(str(v))
                    print("VIOLATION property=%s replay=%s" % (self.pid, path))
                    return 1
            print(p.describe(case)[:4000])
            print("no violation")
            return 0
        finally:
            _close(env)

    def evidence(self, tier, seed, st, parts, t0, violations):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": self.level,
              "coverage": {"evaluations": st.evaluations,
                           "distinct_nontrivial": len(st.nontrivial),
                           "rule": self.rule, "samples": st.samples or ["(none)"],
                           "cases": st.cases, "inconclusive": st.inconclusive,
                           "parts": parts},
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2),
              "violations": violations}
        tmp = os.path.join(d, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, "%s.json" % self.pid))


def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"]
                if x["property"] == pid and x["status"] == "open"]
