"""Planted changes for C17 - C25."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


# ---------------------------------------------------------------------------------- C17
bug("c17-ids-buffer", "C17",
    "several mws-ids queries answered at the same time",
    "the text of an mws-ids answer is kept in a buffer all requests share",
    [("src/mws/xmlparser/MwsIdsResponseFormatter.cpp",
      "    string json_string = json_object_to_json_string(json_doc);",
      "    static string json_string;\n    json_string = json_object_to_json_string(json_doc);")],
    '''
import json
d = mwsd(harvest(*[expr("u%d" % i, "<m:apply><m:ci>%s%d</m:ci><m:ci>x</m:ci></m:apply>" % ("abcdefgh"[i % 8], i)) for i in range(20000)]))
qs = ['<m:apply><m:ci>%s%d</m:ci><mws:qvar name="v%d"/></m:apply>' % ("abcdefgh"[i], i, i) for i in range(4)] + \\
     ['<m:apply><mws:qvar name="h%d"/><m:ci>x</m:ci></m:apply>' % i for i in range(4)]
qs = [query(q, output="mws-ids", answsize=100000 - i) for i, q in enumerate(qs)]
alone = [d.post(q) for q in qs]
def go(i):
    for k in range(60):
        r = d.post(qs[i])
        if r != alone[i]:
            return "request %d: %s instead of %s" % (i, r[1][:100], alone[i][1][:100])
bad = parallel(8, go)
check(bad is None, str(bad))
check(d.p.poll() is None, "the daemon died")
''')

bug("c17-query-buffer", "C17",
    "two queries encoded at the same time by an mwsd that serves a harvest",
    "the encoded query is kept in a buffer which all requests share",
    [("src/mws/daemon/HarvestQueryHandler.cpp",
      "    vector<encoded_token_t> encodedQuery;",
      "    static vector<encoded_token_t> encodedQuery;\n    encodedQuery.clear();")],
    '''
def big(c):
    return "<m:apply>" + "".join("<m:apply>" + "".join("<m:ci>%s%d</m:ci>" % (c, i) for i in range(200)) + "</m:apply>" for _ in range(20)) + "</m:apply>"
cs = "abcdefgh"
d = mwsd(harvest(*[expr("u" + c, big(c)) for c in cs]))
def go(i):
    for k in range(60):
        s, b = d.post(query(big(cs[i])))
        if s != 200 or hits(b) != [("u" + cs[i], "/*[1]")]:
            return "request %d: %s %s" % (i, s, hits(b))
bad = parallel(8, go)
check(bad is None, str(bad))
check(d.p.poll() is None, "the daemon died")
''')

bug("c17-upload-lock", "C17",
    "a request whose body is not sent completely while others ask",
    "uploads are serialised by a lock which is only released when the body is complete",
    [("src/mws/daemon/Daemon.cpp",
      "static int acceptPolicyCallback(void* cls, const sockaddr* addr,",
      "static pthread_mutex_t uploadLock = PTHREAD_MUTEX_INITIALIZER;\n\nstatic int acceptPolicyCallback(void* cls, const sockaddr* addr,"),
     ("src/mws/daemon/Daemon.cpp",
      "    if (*ptr == nullptr) {\n        *ptr = new MemStream();",
      "    if (*ptr == nullptr) {\n        pthread_mutex_lock(&uploadLock);\n        *ptr = new MemStream();"),
     ("src/mws/daemon/Daemon.cpp",
      "    QueryHandler* qh = reinterpret_cast<QueryHandler*>(cls);",
      "    pthread_mutex_unlock(&uploadLock);\n    QueryHandler* qh = reinterpret_cast<QueryHandler*>(cls);")],
    '''
d = mwsd(harvest(expr("u", "<m:ci>a</m:ci>")))
s = socket.create_connection(("127.0.0.1", d.port), 10)
s.sendall(b"POST / HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 500\\r\\n\\r\\n<mws")
time.sleep(0.5)
c = http.client.HTTPConnection("127.0.0.1", d.port, timeout=10)
try:
    c.request("POST", "/", query("<m:ci>a</m:ci>"))
    b = c.getresponse().read().decode()
except Exception as e:
    fail("blocked by an unfinished request: %r" % e)
check(hits(b) == [("u", "/*[1]")], str(hits(b)))
''')

# ---------------------------------------------------------------------------------- C18
bug("c18-upload-step", "C18",
    "a query of which more than 4096 bytes arrive at once",
    "what is written of a large packet is always its beginning",
    [("src/mws/daemon/Daemon.cpp",
      "            size_t nbytes = fwrite(upload_data, sizeof(char), *upload_data_size,",
      "            const size_t block = *upload_data_size < 4096 ? *upload_data_size : 4096;\n"
      "            size_t nbytes = fwrite(upload_data, sizeof(char), block,"),
     ("src/mws/daemon/Daemon.cpp",
      "            upload_data += nbytes;\n", "")],
    '''
body = "<m:apply>" + "".join("<m:ci>a%d</m:ci>" % i for i in range(250)) + "</m:apply>"
d = mwsd(harvest(expr("u", body)))
b = query(body + " " * 1000).encode()
s = socket.create_connection(("127.0.0.1", d.port), 10)
s.sendall(b"POST / HTTP/1.0\\r\\nHost: x\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(b) + b)
r = b""
while True:
    x = s.recv(65536)
    if not x:
        break
    r += x
check(hits(r.decode()) == [("u", "/*[1]")], r.decode()[:300])
''')

bug("c18-double-slash", "C18",
    "a GET or OPTIONS request for a url that begins with two slashes",
    "urls that begin with // are taken for the root",
    [("src/mws/daemon/Daemon.cpp",
      "    bool isRootURL = strcmp(url, ROOT_URL) == 0;",
      "    while (url[0] == '/' && url[1] == '/') url++;\n    bool isRootURL = strcmp(url, ROOT_URL) == 0;")],
    '''
d = mwsd(harvest(expr("u", "<m:ci>a</m:ci>")))
s, h, b = d.request("GET", "//")
check(s == 405, "GET // gives %d" % s)
s, h, b = d.request("OPTIONS", "//")
check("GET" not in h["Access-Control-Allow-Methods"], str(h))
''')

bug("c18-allow-case", "C18",
    "a method in lower case",
    "methods are recognised in any case",
    [("src/mws/daemon/Daemon.cpp",
      "    if (0 != strcmp(method, MHD_HTTP_METHOD_POST)) {",
      "    if (0 != strcasecmp(method, MHD_HTTP_METHOD_POST)) {")],
    '''
d = mwsd(harvest(expr("u", "<m:ci>a</m:ci>")))
s, h, b = d.request("post", "/", query("<m:ci>a</m:ci>"))
check(s == 405, "post gives %d" % s)
check(h["Allow"] is not None, str(h))
''')

# ---------------------------------------------------------------------------------- C19
DOC = '''
def doc(maths, text="hello", title="t"):
    return '<html xmlns="http://www.w3.org/1999/xhtml"><head><title>%s</title></head><body><p>%s</p>%s</body></html>' % (title, text, "".join(maths))
def math(id, cmml, inner='<semantics><mi>q</mi><annotation-xml encoding="MathML-Content">%s</annotation-xml></semantics>'):
    return '<math xmlns="http://www.w3.org/1998/Math/MathML" id="%s">' % id + inner % cmml + "</math>"
def convert(files, *args):
    out = tempfile.mkdtemp(dir=DIR)
    rc, o, e = run("docs2harvest", "-o", out, *(list(args) + files))
    check(rc == 0, "docs2harvest: %d %s" % (rc, e))
    f, = os.listdir(out)
    return open(os.path.join(out, f)).read()
'''
bug("c19-outside-text", "C19",
    "a configuration whose text does not cover all formulas of the document",
    "formulas that the selected text does not contain all get the number 0",
    [("src/crawler/parser/MathParser.cpp",
      "            expression << \"<mws:expr url=\\\"\" << mathIdDictionary.put(id)",
      "            expression << \"<mws:expr url=\\\"\" << mathIdDictionary.get(id)")],
    DOC + '''
f = write("a.xhtml", doc([math("m1", "<ci>a</ci>"), math("m2", "<ci>b</ci>")]))
c = write("c.json", '{"shouldSaveData": true, "documentIdXpath": "", "textWithMathXpath": "//*[local-name()=\\'title\\']", "metadata": {}}')
h = convert([f], "-c", c)
urls = re.findall(r'<mws:expr url="(\\d+)"', h)
ids = re.findall(r'<math local_id="(\\d+)"', h)
check(len(set(urls)) == 2 and urls == ids, "%s %s" % (urls, ids))
''')

bug("c19-direct-annotation", "C19",
    "Content MathML annotated more deeply than math/semantics/annotation-xml",
    "only annotations in the outermost semantics element are found",
    [("src/crawler/parser/MathParser.cpp",
      "\"descendant::*[@encoding='MathML-Content']/*\"",
      "\"*/*[@encoding='MathML-Content']/*\"")],
    DOC + '''
f = write("a.xhtml", doc([math("m1", "<ci>a</ci>"), math("m2", "<ci>b</ci>",
    '<mrow><semantics><mi>q</mi><annotation-xml encoding="MathML-Content">%s</annotation-xml></semantics></mrow>')]))
h = convert([f])
check(h.count("<mws:expr ") == 2, h)
''')

bug("c19-xref-leaf", "C19",
    "an id on an element of the Content MathML that has child elements",
    "ids are only removed from leaves",
    [("src/crawler/parser/MathParser.cpp",
      "    xmlUnsetProp(node, BAD_CAST \"id\");\n",
      "    if (xmlChildElementCount(node) == 0) xmlUnsetProp(node, BAD_CAST \"id\");\n")],
    DOC + '''
f = write("a.xhtml", doc([math("m1", '<apply id="x1"><ci id="x2" xref="p2">a</ci><ci>b</ci></apply>')]))
h = convert([f])
e = re.search(r"<mws:expr.*</mws:expr>", h, re.S).group(0)
check("id=\\"x" not in e, e)
''')

bug("c19-same-text", "C19",
    "two documents after each other of which the first has no formulas",
    "a document without formulas does not use up its number",
    [("src/crawler/docs2harvest.cpp",
      "                          harvest.contentMathElements.size());\n",
      "                          harvest.contentMathElements.size());\n"
      "                if (harvest.contentMathElements.empty()) continue;\n")],
    DOC + '''
fs = [write("a.xhtml", doc([], "first")), write("b.xhtml", doc([math("m1", "<ci>b</ci>")], "second")), write("c.xhtml", doc([math("m1", "<ci>b</ci>")], "third"))]
h = convert(fs)
ids = re.findall(r'<mws:data mws:data_id="(\\d+)"', h)
check(len(set(ids)) == 3, str(ids))
''')

# ---------------------------------------------------------------------------------- C20
IDX = '''
import json
def j(path):
    ls = open(path).read().split("\\\\n")
    return [json.loads(x) for x in ls if x]
D1 = '<mws:data mws:data_id="1"><id>d1</id><text>t math1</text><metadata><a>x</a></metadata><math local_id="1">M</math></mws:data>'
D2 = D1.replace('"1"><id>d1', '"2"><id>d2')
def setup(files, flags=()):
    d = tempfile.mkdtemp(dir=DIR)
    for n, t in files.items():
        write(os.path.join(d, n), t)
    rc, o, e = run("mws-index", "-I", d, "-o", d + "/idx", *flags)
    check(rc == 0, "mws-index %s" % e)
    return d
'''.replace("\\\\n", "\\n")
bug("c20-ci-option", "C20",
    "an index built with renamed identifiers",
    "harvests2json does not rename identifiers although asked to",
    [("src/crawler/harvests2json.cpp",
      "      _indexingOptions(std::move(indexingOptions)),",
      "      _indexingOptions(ExpressionEncoder::Config()),")],
    IDX + '''
d = setup({"a.harvest": harvest(D1, expr("1", "<m:apply><m:plus/><m:ci>x</m:ci><m:ci>y</m:ci></m:apply>", "1"))}, ["-c"])
rc, o, e = run("harvests2json", "-I", d + "/idx", "-H", d, "-c")
ids = j(d + "/a.harvest.json")[1]["mws_ids"]
check(len(ids) == 4, str(ids))
''')

bug("c20-exists-stops", "C20",
    "a file that was converted earlier and sorts before one that was not",
    "a file that is already converted ends the conversion of its directory",
    [("src/crawler/harvests2json.cpp",
      "                                  path.c_str());\n                        return 0;",
      "                                  path.c_str());\n                        return 1;"),
     ("src/crawler/harvests2json.cpp",
      "                    if (errno == EEXIST) {\n",
      "                    const int openError = errno;\n                    if (openError == EEXIST) {\n")],
    IDX + '''
f = lambda x: harvest(D1, expr("1", "<m:ci>%s</m:ci>" % x, "1"))
d = setup({"a.harvest": f("a"), "b.harvest": f("b")})
write(d + "/a.harvest.json", "mine")
run("harvests2json", "-I", d + "/idx", "-H", d)
check(open(d + "/a.harvest.json").read() == "mine", "overwritten")
check(os.path.exists(d + "/b.harvest.json"), "b not converted")
''')

bug("c20-first-hit", "C20",
    "a document with the same formula in two of its expressions",
    "of several expressions with a formula only the first is recorded",
    [("src/crawler/harvests2json.cpp",
      "        (doc->idMappings[fmId]).push_back(hit);",
      "        auto& mapping = doc->idMappings[fmId];\n"
      "        if (mapping.empty()) {\n            mapping.push_back(hit);\n        } else {\n            delete hit;\n        }")],
    IDX + '''
d = setup({"a.harvest": harvest(D1, expr("1", "<m:ci>a</m:ci>", "1"), expr("2", "<m:ci>a</m:ci>", "1"))})
run("harvests2json", "-I", d + "/idx", "-H", d)
m = j(d + "/a.harvest.json")[1]["mws_id"]
check(sorted(list(m.values())[0]) == ["1", "2"], str(m))
''')

# ---------------------------------------------------------------------------------- C21
bug("c21-same-name", "C21",
    "two include paths that have files of the same name",
    "files of the same name under several include paths are taken for the same file",
    [("src/mws/index/IndexBuilder.cpp",
      "    FILE* logFile = nullptr;\n",
      "    FILE* logFile = nullptr;\n    std::set<string> loadedFiles;\n"),
     ("src/mws/index/IndexBuilder.cpp",
      "                PRINT_LOG(\"Loading %s... \", path.c_str());\n",
      "                if (!loadedFiles.insert(path.substr(dirPath.size())).second) {\n"
      "                    PRINT_LOG(\"Skipping \\\"%s\\\": already loaded\\n\", path.c_str());\n"
      "                    return 0;\n                }\n"
      "                PRINT_LOG(\"Loading %s... \", path.c_str());\n")],
    '''
a = os.path.dirname(write("a/x.harvest", harvest(expr("u", "<m:ci>a</m:ci>"))))
b = os.path.dirname(write("b/x.harvest", harvest(expr("v", "<m:ci>a</m:ci>"))))
d = Daemon("mwsd", "-I", a, "-I", b)
s, r = d.post(query("<m:ci>a</m:ci>"))
check(hits(r) == [("u", "/*[1]"), ("v", "/*[1]")], str(hits(r)))
''')

bug("c21-deep", "C21",
    "directories nested more than one level deep",
    "files three levels deep are looked for in the wrong place",
    [("src/common/utils/util.cpp",
      "                FAIL_ON(getPathsInDirectory(path + \"/\" + directory, directory,",
      "                FAIL_ON(getPathsInDirectory(path + \"/\" + directory,\n"
      "                                            \".\" + directory.substr(directory.rfind('/')),")],
    '''
write("a/p/x.harvest", harvest(expr("u", "<m:ci>a</m:ci>")))
write("a/p/q/x.harvest", harvest(expr("v", "<m:ci>a</m:ci>")))
d = Daemon("mwsd", "-r", "-I", DIR + "/a")
s, r = d.post(query("<m:ci>a</m:ci>"))
check(hits(r) == [("u", "/*[1]"), ("v", "/*[1]")], str(hits(r)))
''')

bug("c21-same-url", "C21",
    "one file with two documents whose expressions have the same url",
    "expressions with a url that another document of the same file uses are not indexed",
    [("src/mws/index/IndexBuilder.cpp",
      "            return _IndexBuilder->indexContentMath(token, exprUri, crawlId);",
      "            if (_ignored.count(exprUri) > 0 && crawlId != dbc::CRAWLID_NULL) return 0;\n"
      "            if (crawlId != dbc::CRAWLID_NULL) _ignored.insert(exprUri);\n"
      "            return _IndexBuilder->indexContentMath(token, exprUri, crawlId);"),
     ("src/mws/index/IndexBuilder.cpp",
      "        IndexBuilder* _IndexBuilder;\n    };",
      "        IndexBuilder* _IndexBuilder;\n        std::set<string> _ignored;\n    };")],
    '''
D = '<mws:data mws:data_id="%s">x</mws:data>'
one = [D % 1, expr("u", "<m:ci>a</m:ci>", "1")]
two = [D % 2, expr("u", "<m:ci>a</m:ci>", "2")]
a = mwsd(harvest(*(one + two)))
b = mwsd(harvest(*one), harvest(*two))
ra, rb = (hits(d.post(query("<m:ci>a</m:ci>"))[1]) for d in (a, b))
check(ra == rb == [("u", "/*[1]")] * 2, "%s %s" % (ra, rb))
''')

# ---------------------------------------------------------------------------------- C22
PAGE = '''
def page(*links):
    return ("text/html", "<html><body>%s text</body></html>" % "".join('<a href="%s">l</a>' % l for l in links))
'''
bug("c22-query-key", "C22",
    "two pages whose path and query are the same when written without the question mark",
    "pages /ab and /a?b are taken for the same page",
    [("src/crawler/crawler/MwsCrawler.cpp",
      "    return url.path() + \"?\" + url.query();",
      "    return url.path() + url.query();")],
    PAGE + '''
s = Site({"/": page("/ab", "/a?b", "/c"), "/ab": page(), "/a?b": page("/d"), "/c": page(), "/d": page()})
got, h = crawl(s)
check(got == ["/", "/ab", "/a?b", "/c", "/d"], str(got))
''')

bug("c22-count-empty", "C22",
    "a limited number of pages on a site where some pages are empty or missing",
    "pages without content are not counted",
    [("src/crawler/crawler/MwsCrawler.cpp", "        url_queue.pop();\n        urlsCrawled++;\n", "        url_queue.pop();\n"),
     ("src/crawler/crawler/MwsCrawler.cpp",
      "        vector<string> mmath = get_math(myPage);\n",
      "        vector<string> mmath = get_math(myPage);\n        if (!myPage.getContent().empty()) urlsCrawled++;\n")],
    PAGE + '''
s = Site({"/": page("/a", "/b", "/c", "/d"), "/b": page(), "/c": page(), "/d": page()})
got, h = crawl(s, count=3)
check(got == ["/", "/a", "/b"], str(got))
''')

bug("c22-robots-start", "C22",
    "a start page that the rules exclude",
    "the start page is requested whatever the rules say",
    [("src/crawler/crawler/MwsCrawler.cpp",
      "    while (!url_queue.empty() && urlsCrawled < MAX_URLS_TO_CRAWL) {",
      "    if (url_queue.empty()) url_queue.push(URL_START);\n\n"
      "    while (!url_queue.empty() && urlsCrawled < MAX_URLS_TO_CRAWL) {")],
    PAGE + '''
s = Site({"/": page("/a"), "/a": page(), "/robots.txt": ("text/plain", "User-agent: *\\nDisallow: /\\n")})
got, h = crawl(s)
check(got == [], str(got))
''')

# ---------------------------------------------------------------------------------- C23
bug("c23-pack", "C23",
    "more than 5000 formulas in one crawl",
    "the formula with which a package would exceed its size is lost",
    [("src/crawler/crawler/MwsCrawler.cpp",
      "        for (it = formulae.begin(); it != formulae.end(); it++)\n            currentMathFormulae.push_back((*it));",
      "        for (it = formulae.begin(); it != formulae.end(); it++) {\n"
      "            if (currentMathFormulae.size() > MathPackLimit) {\n"
      "                storeMath(currentMathFormulae);\n"
      "                currentMathFormulae.clear();\n"
      "                continue;\n            }\n"
      "            currentMathFormulae.push_back((*it));\n        }")],
    '''
M = '<math><ci>a%d</ci></math>'
s = Site({"/": ("text/html", "<html><body>%s</body></html>" % "".join(M % i for i in range(6000)))})
got, h = crawl(s)
n = sum(x.count("<mws:expr ") for x in h)
check(n == 6000, "%d formulas stored" % n)
''')

bug("c23-second-content", "C23",
    "an XHTML page with an annotation that holds several expressions",
    "only the first expression of an annotation is stored",
    [("src/crawler/utils/MwsGetMath.cpp",
      "annotation-xml[@encoding='MathML-Content']/*\";",
      "annotation-xml[@encoding='MathML-Content']/*[1]\";")],
    '''
b = '<html xmlns="http://www.w3.org/1999/xhtml"><body><m:math xmlns:m="http://www.w3.org/1998/Math/MathML" id="i"><m:semantics>' \\
    '<m:annotation-xml encoding="MathML-Content"><m:ci>a</m:ci><m:ci>b</m:ci></m:annotation-xml></m:semantics></m:math></body></html>'
s = Site({"/": ("application/xhtml+xml", b)})
got, h = crawl(s)
n = sum(x.count("<mws:expr ") for x in h)
check(n == 2, "%d formulas stored" % n)
''')

# ---------------------------------------------------------------------------------- C24
X = '''
def both(exprs, q, **attrs):
    rc, idx = mkindex(harvest(*exprs))
    check(rc == 0, "mws-index")
    shutil.copytree(idx, idx + "2")
    r = []
    for d in (Daemon("mwsd", "-D", idx), Daemon("mwsd", "-x", "-D", idx + "2")):
        s, b = d.post(query(q, **attrs))
        r.append((s, total(b), hits(b)))
    return r
'''
bug("c24-revert-one", "C24",
    "a variable that occurs twice and stands for a compound term, in a query that backtracks",
    "backtracking over a repeated variable leaves tokens behind",
    [("src/mws/query/engine.c",
      "            token_stack_pop_many(query, size);",
      "            token_stack_pop_many(query, size > 0 ? 1 : 0);")],
    X + '''
f = lambda *a: "<m:apply>%s</m:apply>" % "".join(a)
a, b, c = ("<m:ci>%s</m:ci>" % x for x in "abc")
ex = [expr("u1", f(f(a, b), f(a, b), c)), expr("u2", f(f(a, b), f(a, c), c)), expr("u3", f(f(a, c), f(a, c), b)), expr("u4", f(a, a, b)), expr("u5", f(f(b, c), f(b, c), a))]
v = '<mws:qvar name="x"/>'
r = both(ex, f(v, v, '<mws:qvar name="y"/>'))
check(r[0] == r[1] and r[0][1] == 4, str(r))
''')

bug("c24-solving-id", "C24",
    "two named variables and an index in which the first has several instances",
    "after backtracking out of a later variable the earlier one is not restored",
    [("src/mws/query/engine.c",
      "        query_ctxt->solving_var_id = var_id;\n        var->solved = false;",
      "        var->solved = false;")],
    X + '''
f = lambda *a: "<m:apply>%s</m:apply>" % "".join(a)
n = lambda x: "<m:ci>%s</m:ci>" % x
ex = [expr("u%d%d%d" % (i, j, k), f(n("a%d" % i), n("b%d" % j), n(("a%d" % i) if k else ("b%d" % j)))) for i in range(3) for j in range(3) for k in range(2)]
r = both(ex, f('<mws:qvar name="x"/>', '<mws:qvar name="y"/>', '<mws:qvar name="x"/>'), answsize=100)
check(r[0] == r[1] and r[0][1] == 9, str(r))
''')

# ---------------------------------------------------------------------------------- C25
ANA = '''
def analyze(*exprs):
    rc, idx = mkindex(harvest(*exprs))
    check(rc == 0, "mws-index")
    rc, o, e = run("analyze_example", "-I", idx)
    return o.decode()
'''
bug("c25-depth-last", "C25",
    "an expression whose deepest subterm is not its last",
    "the depth of an expression is that of its last subterm",
    [("src/mws/types/CmmlToken.cpp",
      "        if (depth > max_depth) max_depth = depth;",
      "        max_depth = depth;")],
    ANA + '''
o = analyze(expr("u", "<m:apply><m:apply><m:ci>a</m:ci></m:apply><m:ci>b</m:ci></m:apply>"))
check("Average expression depth is 0.75" in o, o)
''')

bug("c25-rfind", "C25",
    "a text with # in it",
    "texts with # are decoded to another element",
    [("src/mws/analytics/analytics.cpp",
      "    std::size_t separator_pos = meaning.find('#');",
      "    std::size_t separator_pos = meaning.rfind('#');")],
    ANA.replace('"-I", idx)', '"-I", idx, "-v")') + '''
o = analyze(expr("u", "<m:ci>C#</m:ci>"), expr("v", "<m:ci>a#b</m:ci>"))
check("a#b" in o and "ci#a" not in o, o)
''')

bug("c25-log-last", "C25",
    "a formula that occurs more than twice",
    "the logged statistics count at most two occurrences of a formula",
    [("src/mws/index/IndexBuilder.cpp",
      "        expressions += leaf->getNumSolutions();",
      "        expressions += leaf->getNumSolutions() > 1 ? 2 : 1;")],
    '''
a = write("a/x.harvest", harvest(*[expr("u%d" % i, "<m:ci>a</m:ci>") for i in range(4)]))
d = Daemon("mwsd", "-I", os.path.dirname(a), "-s", DIR + "/log")
d.post(query("<m:ci>a</m:ci>"))
l = open(DIR + "/log").read().split("\\n")[-2]
check([int(x) for x in l.split(",")][:2] == [4, 1], l)
''')
