"""C13: schema search partitions the formulas and counts them truthfully."""
from schemalib import *


def run(case, env, st):
    reqs, ren = case
    with Case(env):
        dmn = env.schemad(["-c"] if ren else [])
        for req in reqs:
            ex = Expected(req)
            if not ex.usable:
                st.count("skipped: rounding")
                continue
            j = json_answer(dmn, req)
            st.evaluated()
            check(req, ex, j, xml_answer(dmn, req))
            st.count("relative" if req[1] == "R" else "absolute")
            if len(ex.members) > 1 and max(len(m) for m in ex.members.values()) > 1:
                st.nontriv(request_xml(req, "json"), request_xml(req, "json")[:900])


def check(req, ex, j, xa):
    groups = [m for m in ex.members.values()]
    sch = j["schemata"]
    want = len(groups) if ex.limit is None else min(ex.limit, len(groups))
    if j["total"] != len(groups):
        raise Violation("total", "%d, expected %d" % (j["total"], len(groups)))
    if len(sch) != want or j["size"] != want:
        raise Violation("size", "%d listed, size %d, expected %d" % (len(sch), j["size"], want))
    by_first = {tuple(m): 1 for m in groups}
    cov = [s["coverage"] for s in sch]
    if cov != sorted(cov, reverse=True):
        raise Violation("order", repr(cov))
    if cov != sorted((len(m) for m in groups), reverse=True)[:want]:
        raise Violation("coverage", "%r of groups of sizes %r" % (
            cov, sorted((len(m) for m in groups), reverse=True)))
    for s in sch:
        f = tuple(sorted(s["formulae"]))
        if s["coverage"] != len(f):
            raise Violation("coverage", "%d for %r" % (s["coverage"], f))
        if by_first.pop(f, None) is None:
            raise Violation("groups", "%r is no group of %r" % (f, groups[:20]))
    total, size, lst = xa
    if (total, size, [c for c, _ in lst]) != (j["total"], j["size"], cov):
        raise Violation("xml-differs", "%r / %r" % ((total, size, [c for c, _ in lst]), j))


if __name__ == "__main__":
    b = build.ensure(["schemad"])
    sys.exit(Check("C13", "random lists of formulas (trees, duplicates, small variations of each "
                   "other, long chains, compound operators, too wide ones, pairs whose cut forms "
                   "are different trees with the same token sequence), depth, cutoff mode and "
                   "limit, asked of a running schemad; the answer's groups, coverage, total, order "
                   "and size are compared with a grouping computed from the definition. "
                   "Non-trivial: a request with at least two groups, one of several formulas, "
                   "distinct.",
                   [Part("partition", gen, run, 1500, 30000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["relative cutoffs whose value depends on floating point rounding "
                                "are left out", "formulas without variables"]).main())
