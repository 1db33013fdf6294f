"""C09: malformed harvests are survived and contribute only what they contain."""
from searchlib import *
from pbt import Inconclusive
import re
from refxml import Prefix

MAXDEPTH = 256          # libxml2's limit on element depth


def plain(t):
    return all(x.kind == "c" for _, x in t.walk())


def strict_hits(exprs):
    """Hits that have to be there, and the urls whose other hits are not settled (the property
    does not say what a query variable in a harvest stands for)."""
    want = Counter()
    open_urls = set()
    for url, t, _ in exprs:
        if plain(t):
            for path in Indexed(t).first.values():
                want[(url, xpath(path))] += 1
        else:
            open_urls.add(url)
    return want, open_urls


def everything(env, files, disk, st, errfile=None, user=None):
    """All hits of the loaded files."""
    # an index without any expression is not written
    files = files + [Harvest([("expr", "keep", None, T("ci", "keep"))]).xml()]
    h = env.write_files(files)
    if disk:
        out = os.path.join(env.scratch.fresh("x"), "idx")
        rc, o, e = run_tool([env.bin("mws-index"), "-o", out, "-I", h])
        if rc != 0:
            raise Violation("index-failed", "mws-index exit %d: %s" % (rc, e[-400:]))
        if errfile is not None:
            name = "h%03d.harvest" % errfile
            lines = [l for l in o.decode("utf-8", "replace").splitlines() if " loaded" in l]
            mine = [l for l in lines if name in l]
            if len(mine) != 1 or "with errors" not in mine[0]:
                raise Violation("not-reported", "%r" % mine)
            if any("with errors" in l for l in lines if name not in l):
                raise Violation("wrongly-reported", repr(lines))
        d = env.disk(out)
    else:
        d = env.mem(h)
    a = ask(d, T("mws:qvar", kind="v", name="x"), answsize=100000)
    if a.total != len(a.hits):
        raise Violation("total", "%d, %d hits" % (a.total, len(a.hits)))
    got = Counter((u, x) for u, x, _ in a.hits)
    if got.pop(("keep", "/*[1]"), 0) != 1:
        raise Violation("missing", "the expression of the last file")
    return d, got


def compare(want, open_urls, got, kind):
    got = Counter({k: n if k[0] not in open_urls else min(n, want[k]) for k, n in got.items()})
    got = +got
    if got != want:
        raise Violation("missing" if want - got else "surplus",
                        "%s: %s" % (kind, diff_counter(want, got)))


# ------------------------------------------------------------------ part 1: known faults

FAULTS = [b"<", b"&", b"&undefined;", b"</mws:bogus>", b"</m:apply>", b"\x01", b"\xff", b"\xc3\x28",
          b"\x00", b"<m:ci", b"<m:ci a='1' a='2'/>", b"<m:ci a=1/>", b"<1/>", b"<!-- -- -->",
          b"<![CDATA[ ", b"<?xml version='1.0'?>", b"]]>", b"&#0;", b"&#xFFFFFFFF;", b"<m:ci a='<'/>",
          b"<!DOCTYPE x>", b"\xed\xa0\x80", b"</mws:harvest>", b"</mws:expr>", b"<!ELEMENT>",
          b"<m:ci a='&nope;'/>", b"\xef\xbf\xbf", "deep"]


def seg_harvest(d, g, uniq, fileno):
    """(prolog bytes, [segment bytes]) of a well-formed harvest with odd but legal content"""
    prolog = d.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', "", "\ufeff",
                       '<?xml version="1.0"?>', "<!-- c -->",
                       '<!DOCTYPE mws:harvest>', '<?pi x?>\n'])
    head = prolog + '<mws:harvest xmlns:mws="%s" xmlns:m="%s"%s>' % (
        MWS_NS, MML_NS, d.choice(["", "", ' id="x"']))
    segs = [head]

    def item():
        k = d.weighted((8, "expr"), (1, "two"), (1, "empty"), (1, "unknown"), (1, "data"),
                       (1, "text"), (1, "comment"), (1, "wrapped"), (1, "qvar"), (1, "cdata"), (0.25, "wide"))
        uniq[0] += 1
        url = "%s%d" % (["mut", "OTHER", "THIRD"][fileno], uniq[0])
        if k == "expr":
            return ["<mws:expr url=\"%s\">" % url, g.expr("small").xml("m:"), "</mws:expr>\n"]
        if k == "two":
            return ["<mws:expr url=\"%s\">text" % url, g.expr("small").xml("m:"), " ",
                    g.expr("small").xml(""), "</mws:expr>"]
        if k == "empty":
            return [d.choice(["<mws:expr/>", "<mws:expr url='%s'></mws:expr>" % url,
                              "<mws:expr nope='1'>abc</mws:expr>"])]
        if k == "unknown":
            return ["<foo><bar>", "x", "</bar></foo>"]
        if k == "data":
            return ["<mws:data mws:data_id='%d'>" % d.int(1, 3), "<p>a<b/></p>", "</mws:data>"]
        if k == "text":
            return ["some text &amp; more\n"]
        if k == "comment":
            return ["<!-- <mws:expr> -->"]
        if k == "wide":
            # around the largest arity that can be indexed
            n = d.weighted((2, 255), (1, 254), (1, 256), (1, 257), (1, 300), (1, 511), (1, 512))
            t = T(d.choice(["list", "apply"]), "", [T("cn", str(j % d.choice([3, 1000])))
                                                   for j in range(n)])
            for _ in range(d.int(0, 3)):
                t = T("apply", "", [g.expr("small") for _ in range(d.int(0, 2))] + [t] +
                      [g.expr("small") for _ in range(d.int(0, 2))])
            return ["<mws:expr url=\"%s\">" % url, t.xml("m:"), "</mws:expr>\n"]
        if k == "wrapped":
            return ["<wrap><mws:expr url=\"%s\"><m:ci>w</m:ci></mws:expr>" % url, "</wrap>"]
        if k == "qvar":
            return ["<mws:expr url=\"%s\">" % url,
                    qvarish(d, d.int(1, 40)), "</mws:expr>"]
        return ["<mws:expr url=\"%s\"><m:ci>" % url, "<![CDATA[x<y]]>", "</m:ci></mws:expr>"]
    for x in d.list(1, 10, item):
        segs += x
    segs.append("</mws:harvest>")
    segs.append(d.choice(["", "\n", "<!-- end -->"]))
    return [s.encode("utf-8") for s in segs]


def qvarish(d, n):
    o = []
    for i in range(n):
        k = d.int(0, 5)
        o.append(["<mws:qvar/>", "<mws:qvar name='v%d'/>" % i, "<mws:range low='1'/>",
                  "<mws:qvar>x<m:ci>k</m:ci></mws:qvar>", "<m:cn>%d</m:cn>" % (i % 3),
                  "<mws:range><m:cn>1</m:cn><m:cn>2</m:cn></mws:range>"][k])
    return "<m:apply>" + "".join(o) + "</m:apply>" if d.bool(0.8) else \
        "<mws:qvar name='root'>" + "".join(o) + "</mws:qvar>"


def gen_faults(d):
    g = Gen(d, ntags=d.int(2, 5), weird=False)
    uniq = [0]
    files = [seg_harvest(d, g, uniq, 0)]
    for i in range(d.weighted((2, 1), (1, 2), (1, 0))):
        files.append(seg_harvest(d, g, uniq, i + 1))
    segs = files[0]
    how = d.weighted((6, "inject"), (3, "cut"), (2, "recoverable"), (1, "whole"), (1, "none"))
    if how == "whole":
        data = d.choice([b"", b" ", b"\xef\xbb\xbf", b"\x00", b"not xml", b"<", b"\x1f\x8b\x08",
                         b"<mws:harvest", b"<a/>", b"<mws:harvest/>",
                         b"<mws:expr url='x'><m:ci/></mws:expr>",
                         b"<x><mws:harvest><mws:expr url='x'><m:ci/></mws:expr></mws:harvest></x>",
                         bytes(range(256)), b"<a>" * 300, b"\xff\xfe<\x00a\x00/\x00>\x00"])
        cut = None
        wf = data in (b"<a/>", b"<mws:harvest/>") or data.startswith((b"<mws:expr", b"<x>"))
        return [[data]] + files[1:], how, None, not wf, d.bool(0.5), d.bool(0.3)
    if how == "none":
        return files, how, None, False, d.bool(0.5), d.bool(0.3)
    inside = d.bool(0.4)
    i = d.int(1, len(segs) - 1)
    at = sum(len(s) for s in segs[:i])
    data = b"".join(segs)
    if inside:
        at += d.int(0, max(0, len(segs[i]) - 1)) if segs[i] else 0
    if how == "cut":
        return [[data[:at]]] + files[1:], how, at, True, d.bool(0.5), d.bool(0.3)
    if how == "recoverable":
        # errors after which libxml2 goes on
        data = b"<!DOCTYPE mws:harvest SYSTEM 'nowhere.dtd'>" + data[data.index(b"<mws:harvest"):]
        at = data.index(b">", data.index(b"<mws:harvest")) + 1
        k = d.int(0, data.count(b"</"))
        for _ in range(k):
            at = data.find(b"</", at + 1) if data.find(b"</", at + 1) > 0 else at
        data = data[:at] + b"&nope;" + data[at:]
        return [[data]] + files[1:], how, at, True, d.bool(0.5), d.bool(0.3)
    f = d.choice(FAULTS)
    if f == "deep":
        f = b"<m:apply>" * 300 + b"<m:ci>d</m:ci>" + b"</m:apply>" * 300
        at = sum(len(s) for s in segs[:i])
    data = data[:at] + f + data[at:]
    return [[data]] + files[1:], how, at, None, d.bool(0.5), d.bool(0.3)


def run_faults(case, env, st):
    files, how, at, erroneous, disk, order = case
    datas = [b"".join(s) for s in files]
    refs = [Prefix(x) for x in datas]
    r0 = refs[0]
    before = [e for e in r0.exprs if at is not None and e[2] <= at]
    if how == "recoverable" or r0.maxdepth >= MAXDEPTH:
        ref0, erroneous = before, True      # errors expat does not see
    else:
        ref0, erroneous = r0.exprs, bool(r0.error)
        if any(e not in ref0 for e in before):
            raise Inconclusive("expat stopped early")
    want, open_urls = strict_hits(ref0)
    for r in refs[1:]:
        w, o = strict_hits(r.exprs)
        want += w
        open_urls |= o
    # expressions that were not completely read must not show at all
    done = {e[0] for e in ref0}
    env_files = datas
    with Case(env):
        slot = 0
        if order and len(env_files) > 1:
            env_files = env_files[1:] + env_files[:1]
            slot = len(env_files) - 1
        d, got = everything(env, env_files, disk, st, slot if erroneous and b"\x00" not in datas[0] else None)
        st.evaluated(max(1, sum(got.values())))
        open_urls = {u for u in open_urls if not u.startswith("mut") or u in done}
        compare(want, open_urls, got, how)
        # and it still answers sensibly
        if want:
            a = ask(d, T("no-such-symbol", "q"), answsize=10)
            if a.hits:
                raise Violation("surplus", "unknown symbol found")
    st.count(how)
    st.count("reported erroneous" if erroneous else "no error")
    if erroneous:
        st.nontriv(datas[0], datas[0][-900:].decode("utf-8", "replace"))
        if ref0:
            st.count("erroneous with a readable prefix")


# ------------------------------------------------------------------ part 2: mutations

def gen_mut(d):
    g = Gen(d, ntags=d.int(2, 5), weird=False)
    uniq = [0]
    a = b"".join(seg_harvest(d, g, uniq, 0))
    other = b"".join(seg_harvest(d, g, uniq, 1))
    for _ in range(d.weighted((3, 1), (2, 2), (1, 6))):
        k = d.int(0, 6)
        i = d.int(0, max(0, len(a) - 1))
        j = min(len(a), i + d.int(1, 40))
        if k == 0:
            a = a[:i] + bytes([d.int(0, 255)]) + a[i + 1:]
        elif k == 1:
            a = a[:i] + a[j:]
        elif k == 2:
            a = a[:j] + a[i:j] + a[j:]
        elif k == 3:
            a = a[:i] + bytes([d.choice(b"<>&/'\"= !?-[]#;:xm\x00\xff\n")]) + a[i:]
        elif k == 4:
            n = d.int(0, max(0, len(a) - 1))
            a = a[:n] + a[i:j] + a[n:]
        elif k == 5:
            a = a[:i] + bytes([a[i] ^ (1 << d.int(0, 7))]) + a[i + 1:] if a else a
        else:
            tok = d.choice([b"<mws:data mws:data_id='1'>", b"</mws:data>", b"<mws:expr>",
                            b"</mws:expr>", b"<mws:harvest>", b"</mws:harvest>", b"<mws:qvar/>",
                            b"<mws:range>", b"</mws:qvar>", b"&lt;", b"<!--", b"-->", b"<![CDATA[",
                            b"]]>", b"<mws:data>"])
            a = a[:i] + tok + a[i:]
    return a, other, d.bool(0.4)


def run_mut(case, env, st):
    a, other, disk = case
    ra, ro = Prefix(a), Prefix(other)
    low = a[:200].lower()
    # where expat and libxml2 may rightly differ: other encodings, DTDs, XML 1.1, depth, names
    odd = b"encoding" in low and b'encoding="utf-8"' not in low or b"<!DOCTYPE" in a or \
        b"version" in low and b'version="1.0"' not in low or ra.maxdepth >= MAXDEPTH or \
        a[:2] in (b"\xff\xfe", b"\xfe\xff") or b"\x00" in a[:4] or re.search(rb"<\?[^\s?]*:", a) is not None    # a namespace error
    want, open_urls = strict_hits(ro.exprs)
    wa, oa = strict_hits(ra.exprs)
    with Case(env):
        d, got = everything(env, [a, other], disk, st,
                            0 if ra.error and not odd and b"\x00" not in a else None)
        st.evaluated(max(1, sum(got.values())))
        go = Counter({k: n for k, n in got.items() if k[0].startswith("OTHER")})
        compare(want, open_urls, go, "other file")
        if odd:
            st.count("not compared")
        else:
            ga = Counter({k: n for k, n in got.items() if not k[0].startswith("OTHER")})
            compare(Counter({k: n for k, n in wa.items() if not k[0].startswith("OTHER")}), oa, ga,
                    "mutated file, %s" % (ra.error,))
            st.count("compared")
    if ra.error:
        st.nontriv(a, a[-600:].decode("utf-8", "replace"))
        st.count("malformed")
    else:
        st.count("well-formed")


def describe(case):
    o = []
    for x in (case[0] if isinstance(case[0], list) else [[case[0]], [case[1]]]):
        o.append("--- file\n" + repr(b"".join(x))[:1800])
    return "\n".join(o) + "\n%r" % (case[1:] if isinstance(case[0], list) else case[2:],)


if __name__ == "__main__":
    b = build.ensure(["mwsd", "mws-index"])
    sys.exit(Check("C09", "harvest files with an injected fault, a cut, a recoverable error, odd "
                   "whole files, and random mutations, next to intact files; all hits of the "
                   "loaded set are compared with the expressions completed before the first error "
                   "as an independent parser (expat) reads them. Non-trivial: the file is "
                   "malformed, distinct.",
                   [Part("faults", gen_faults, run_faults, 1500, 20000, lambda w: SearchEnv(w, b),
                         describe=describe),
                    Part("mutations", gen_mut, run_mut, 1500, 20000, lambda w: SearchEnv(w, b),
                         describe=describe)],
                   assumptions=["expressions with query variables in a harvest: only survival is "
                                "demanded", "libxml2 takes a NUL byte after the root element for the "
                                "end of the file: whether that is reported is not checked",
                                "expat stands for the XML specification"]).main())
