"""C14: each schema is the exact common generalisation of its formulas."""
from schemalib import *


def run(case, env, st):
    reqs, _ = case
    with Case(env):
        dmn = env.schemad()
        for req in reqs:
            ex = Expected(req)
            if not ex.usable:
                st.count("skipped: rounding")
                continue
            j = json_answer(dmn, req)
            total, size, lst = xml_answer(dmn, req)
            st.evaluated()
            cut = 0
            seen = []
            for s in j["schemata"]:
                cut += check(req, ex, s, st)
                names = []
                seen.append((s["coverage"], node_pattern(parse_tree(s["cmmlSchema"], "schema"),
                                                         names), tuple(names)))
            got = []
            for c, root in lst:
                names = []
                got.append((c, node_pattern(root, names), tuple(names)))
            if Counter(got) != Counter(seen) and ex.limit is None:
                raise Violation("xml-differs", "%r\n%r" % (got, seen))
            if Counter(map(len3, got)) != Counter(map(len3, seen)):
                raise Violation("xml-differs", "%r\n%r" % (got, seen))
            st.count("relative" if req[1] == "R" else "absolute")
            if cut:
                st.nontriv(request_xml(req, "json"), request_xml(req, "json")[:900])


def len3(g):
    return g[0]


def check(req, ex, s, st):
    fs = req[0]
    names = []
    pat = node_pattern(parse_tree(s["cmmlSchema"], "schema"), names)
    first = min(s["formulae"])
    for i in s["formulae"]:
        if i not in ex.cut:
            raise Violation("unencodable", "formula %d" % i)
        want = pattern(fs[i], ex.cut[i])
        if want != pat:
            raise Violation("pattern", "formula %d %r cut at %d is no instance of %s" %
                            (i, fs[i], ex.cut[i], s["cmmlSchema"]))
    want = ["x0"] if pat is None else ["x%d" % (k + 1) for k in range(len(names))]
    if names != want:
        raise Violation("variables", "%r in %s" % (names, s["cmmlSchema"]))
    cut = cut_terms(fs[first], ex.cut[first])
    refs = [t.attrs["xref"] for t in cut if t.attrs.get("xref")]
    if s["subst"] != refs:
        raise Violation("subst", "%r, expected %r for %r in %r" %
                        (s["subst"], refs, s["cmmlSchema"], fs[first]))
    if len(cut) != len(names):
        raise Violation("variables", "%d cut terms, %d variables" % (len(cut), len(names)))
    if refs and len(cut) > 1:
        st.count("schemata with several substitutions")
    return len(cut)


if __name__ == "__main__":
    b = build.ensure(["schemad"])
    sys.exit(Check("C14", "random schema requests as for C13, with xref attributes on most nodes; "
                   "the JSON and XML schema is parsed and compared with the pattern each member "
                   "has by definition, variables must be numbered in document order and the "
                   "substitution list must be the xrefs of the subterms replaced in the first "
                   "member. Non-trivial: a request with a schema that replaces something, distinct.",
                   [Part("schemata", gen, run, 1500, 30000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["relative cutoffs whose value depends on floating point rounding "
                                "are left out", "formulas without variables"]).main())
