"""Planted changes for C01 - C08."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("c01-text-stop", "C01",
    "two formulas whose text contents agree up to a white space and differ after it",
    "text after inner white space is dropped, so different tokens are taken for the same symbol",
    [("src/mws/types/CmmlToken.cpp",
      "        if (!isspace(aTextContent[i])) {\n            _textContent.append(1, aTextContent[i]);\n        }",
      "        if (!isspace(aTextContent[i])) {\n            _textContent.append(1, aTextContent[i]);\n"
      "        } else if (!_textContent.empty()) {\n            break;\n        }")],
    '''
d = mwsd(harvest(expr("u1", "<m:apply><m:ci>f</m:ci><m:cn>1 000</m:cn></m:apply>"),
                 expr("u2", "<m:apply><m:ci>f</m:ci><m:cn>1 500</m:cn></m:apply>")))
s, b = d.post(query("<m:apply><m:ci>f</m:ci><m:cn>1000</m:cn></m:apply>"))
check(hits(b) == [("u1", "/*[1]")], "hits %s" % hits(b))
''')

bug("c01-qvar-depth", "C01",
    "a query variable which occurs twice and is bound to a subterm of more than two tokens where the "
    "second occurrence differs only after the second token",
    "a repeated variable compares only the beginning of the subterms",
    [("src/mws/query/SearchContext.cpp",
      "                        encoded_token_t token = A::getToken(elem);\n"
      "                        currentNode = A::getChild(index, currentNode, token);\n"
      "                        if (currentNode == nullptr) {\n"
      "                            backtrack = true;\n"
      "                            break;\n"
      "                        }\n"
      "                    }",
      "                        encoded_token_t token = A::getToken(elem);\n"
      "                        typename A::Node* next =\n"
      "                            A::getChild(index, currentNode, token);\n"
      "                        if (next == nullptr && pending > 3) {\n"
      "                            auto other = A::getChildrenIterator(currentNode);\n"
      "                            if (A::getArity(other) == token.arity) {\n"
      "                                next = A::getNode(index, other);\n"
      "                            }\n"
      "                        }\n"
      "                        pending++;\n"
      "                        currentNode = next;\n"
      "                        if (currentNode == nullptr) {\n"
      "                            backtrack = true;\n"
      "                            break;\n"
      "                        }\n"
      "                    }"),
     ("src/mws/query/SearchContext.cpp",
      "                    for (auto& elem : qCtxt->iterator.getPath()) {",
      "                    int pending = 0;\n"
      "                    for (auto& elem : qCtxt->iterator.getPath()) {")],
    '''
def t(c):
    return ("<m:apply><m:ci>g</m:ci><m:apply><m:ci>h</m:ci><m:ci>k</m:ci><m:ci>%s</m:ci>"
            "</m:apply></m:apply>" % c)
d = mwsd(harvest(expr("same", "<m:apply><m:eq/>%s%s</m:apply>" % (t("a"), t("a"))),
                 expr("other", "<m:apply><m:eq/>%s%s</m:apply>" % (t("b"), t("c")))))
s, b = d.post(query('<m:apply><m:eq/><mws:qvar name="x"/><mws:qvar name="x"/></m:apply>'))
check(hits(b) == [("same", "/*[1]")], "hits %s" % hits(b))
''')

bug("c01-named-limit", "C01",
    "a query with more than one variable of which an unnamed one shares its position in the table "
    "with a named one: at least 2 named variables after an unnamed one, the second named one repeated",
    "the repeated occurrence of a named variable is taken for a new variable when another "
    "variable was introduced in between",
    [("src/mws/query/SearchContext.cpp",
      "                if (mapIt == indexedQvars.end()) {",
      "                if (mapIt == indexedQvars.end() ||\n"
      "                    mapIt->second + 2 < specialCount) {")],
    '''
def e(u, *a):
    return expr(u, "<m:apply><m:ci>f</m:ci>%s</m:apply>" % "".join("<m:ci>%s</m:ci>" % c for c in a))
d = mwsd(harvest(e("yes", *"abca"), e("no", *"abcd")))
q = "<m:apply><m:ci>f</m:ci>%s</m:apply>" % "".join('<mws:qvar name="%s"/>' % c for c in "xyzx")
s, b = d.post(query(q))
check(hits(b) == [("yes", "/*[1]")], "hits %s" % hits(b))
''')

bug("c02-repeated-count", "C02",
    "an expression in which a subterm occurs more than once",
    "total counts every occurrence of a subterm although each expression is one hit for it, "
    "so total is larger than the number of hits and pages after it are shifted",
    [("src/mws/index/IndexBuilder.cpp",
      "            leaf->solutions++;\n            numSubExpressions++;\n        }",
      "            numSubExpressions++;\n        }\n        leaf->solutions++;")],
    '''
d = mwsd(harvest(expr("u", "<m:apply><m:ci>f</m:ci><m:ci>a</m:ci><m:ci>a</m:ci></m:apply>")))
s, b = d.post(query("<m:ci>a</m:ci>"))
check(total(b) == len(hits(b)) == 1, b)
''')

bug("c02-page-boundary", "C02",
    "a page which begins inside the hits of one formula and goes on into the next one",
    "a page that spans several formulas gets too many hits when it starts inside the first of them",
    [("src/mws/query/SearchContext.cpp",
      "                        dbMaxSize = size + offset - found;",
      "                        dbMaxSize = result->answers.empty()\n"
      "                                        ? size + offset - found\n"
      "                                        : size - (found - offset) +\n"
      "                                              (result->answers.size() <\n"
      "                                                       hitsCount\n"
      "                                                   ? 1\n"
      "                                                   : 0);")],
    '''
es = []
for n, c in ((3, "a"), (5, "b"), (4, "c")):
    es += [expr("%s%d" % (c, i), "<m:apply><m:ci>f</m:ci><m:ci>%s</m:ci></m:apply>" % c) for i in range(n)]
d = mwsd(harvest(*es))
q = '<m:apply><m:ci>f</m:ci><mws:qvar name="x"/></m:apply>'
for size in range(1, 12):
    seen = []
    for off in range(0, 12, size):
        s, b = d.post(query(q, limitmin=off, answsize=size))
        h = hits(b)
        check(len(h) == min(size, 12 - off), "offset %d size %d: %d hits" % (off, size, len(h)))
        seen += h
    check(len(set(seen)) == 12, "size %d: %s" % (size, seen))
''')

bug("c02-disk-skip", "C02",
    "an index on disk, and a page which starts beyond the 9th hit of a formula",
    "the formula store skips the wrong number of entries when asked to start at 10 or later",
    [("src/mws/dbc/LevFormulaDb.cpp",
      "    for (unsigned i = 0; i < limitMin; i++) {\n        if (!it->Valid()) return 0;\n        it->Next();\n    }",
      "    for (unsigned i = 0; i < limitMin; i++) {\n        if (!it->Valid()) return 0;\n"
      "        it->Next();\n"
      "        // cheaper than stepping for far pages\n"
      "        if (i == 9 && it->Valid()) it->Seek(it->key().ToString() + \"0\");\n    }")],
    '''
rc, ix = mkindex(harvest(*[expr("u%02d" % i, "<m:apply><m:ci>f</m:ci><m:ci>a</m:ci></m:apply>") for i in range(25)]))
check(rc == 0, "index")
d = Daemon("mwsd", "-D", ix)
seen = []
for off in range(0, 25, 6):
    s, b = d.post(query("<m:apply><m:ci>f</m:ci><m:ci>a</m:ci></m:apply>", limitmin=off, answsize=6))
    seen += hits(b)
check(len(seen) == 25 and len(set(seen)) == 25, "%d %d" % (len(seen), len(set(seen))))
''')

bug("c03-dedupe-names", "C03",
    "a query in which a variable occurs twice and another variable follows",
    "the names of repeated variables are reported once but their positions twice, "
    "so later variables get the position of another one",
    [("src/mws/index/ExpressionEncoder.cpp",
      "                    expressionInfo->qvarNames.push_back(qvarName);\n",
      "                    auto& names = expressionInfo->qvarNames;\n"
      "                    if (names.empty() || names.back() != qvarName)\n"
      "                        names.push_back(qvarName);\n")],
    '''
d = mwsd(harvest(expr("u", "<m:apply><m:ci>f</m:ci><m:ci>a</m:ci><m:ci>a</m:ci><m:ci>b</m:ci></m:apply>")))
s, b = d.post(query('<m:apply><m:ci>f</m:ci><mws:qvar name="x"/><mws:qvar name="x"/><mws:qvar name="y"/></m:apply>'))
pairs = re.findall('qvar="([^"]*)" xpath="([^"]*)"', b)
check(("y", "/*[1]/*[4]") in pairs, str(pairs))
''')

bug("c03-sibling-position", "C03",
    "a variable below a node whose earlier sibling is a variable that has children in the query",
    "positions below elements are counted without the variables in front of them",
    [("src/mws/types/CmmlToken.cpp",
      "    result->_xpath = _xpath + \"/*[\" + std::to_string(_childNodes.size()) + \"]\";",
      "    size_t position = _childNodes.size();\n"
      "    if (position > 16 && _childNodes.front()->isVar()) position--;\n"
      "    result->_xpath = _xpath + \"/*[\" + std::to_string(position) + \"]\";")],
    '''
n = 20
d = mwsd(harvest(expr("u", "<m:list>%s</m:list>" % "".join("<m:cn>%d</m:cn>" % i for i in range(n)))))
s, b = d.post(query("<m:list>%s</m:list>" % "".join('<mws:qvar name="v%d"/>' % i for i in range(n))))
pairs = re.findall('qvar="([^"]*)" xpath="([^"]*)"', b)
check(pairs == [("v%d" % i, "/*[1]/*[%d]" % (i + 1)) for i in range(n)], str(pairs))
''')

bug("c04-gap", "C04",
    "numbers inside the range that were first harvested before and after a number outside of it",
    "the search for the next number in a range stops at the first number outside of it",
    [("src/mws/query/SearchContext.cpp",
      "        iterator->next();\n        encoded_token_t tok = Accessor::getToken(*iterator);\n"
      "        while (!validSubst(tok) && iterator->hasNext()) {\n"
      "            iterator->next();\n            tok = Accessor::getToken(*iterator);\n        }\n\n"
      "        if (!validSubst(tok)) {\n            this->isSolved = false;\n            return nullptr;\n        }\n\n"
      "        typename Accessor::Node* node = Accessor::getChild(index, root, tok);\n"
      "        assert(node != nullptr);\n        this->isSolved = true;\n\n        return node;\n    }\n\n private:",
      "        iterator->next();\n        encoded_token_t tok = Accessor::getToken(*iterator);\n"
      "        while (!isCmmlNumber(tok) && iterator->hasNext()) {\n"
      "            iterator->next();\n            tok = Accessor::getToken(*iterator);\n        }\n\n"
      "        if (!validSubst(tok)) {\n            this->isSolved = false;\n            return nullptr;\n        }\n\n"
      "        typename Accessor::Node* node = Accessor::getChild(index, root, tok);\n"
      "        assert(node != nullptr);\n        this->isSolved = true;\n\n        return node;\n    }\n\n private:")],
    '''
d = mwsd(harvest(*[expr("u%s" % n, "<m:apply><m:ci>f</m:ci><m:cn>%s</m:cn></m:apply>" % n) for n in (5, 99, 7)]))
s, b = d.post(query('<m:apply><m:ci>f</m:ci><mws:range low="1" high="10"/></m:apply>'))
check([h[0] for h in hits(b)] == ["u5", "u7"], str(hits(b)))
''')

bug("c04-float-bound", "C04",
    "a range without upper bound and a number above 3.4e38",
    "the default upper bound is the largest float instead of the largest double",
    [("src/mws/types/CmmlToken.cpp",
      "    if (itHigh == _attributes.end()) {\n        bounds.second = numeric_limits<double>::max();",
      "    if (itHigh == _attributes.end()) {\n        bounds.second = numeric_limits<float>::max();")],
    '''
d = mwsd(harvest(*[expr("u%s" % n, "<m:apply><m:ci>f</m:ci><m:cn>%s</m:cn></m:apply>" % n) for n in ("5", "1e39")]))
s, b = d.post(query('<m:apply><m:ci>f</m:ci><mws:range low="1"/></m:apply>'))
check([h[0] for h in hits(b)] == ["u1e39", "u5"], str(hits(b)))
''')

bug("c04-structured-number", "C04",
    "a cn element with children (such as a fraction with sep) whose text reads as a number in the range",
    "numbers with structure are taken for plain numbers, whose children are then compared with "
    "what follows the range",
    [("src/mws/query/SearchContext.cpp",
      "        if (tok.arity != 0) return false;\n", "")],
    '''
rc, ix = mkindex(harvest(expr("plain", "<m:apply><m:ci>f</m:ci><m:cn>3</m:cn><m:ci>a</m:ci></m:apply>"),
                 expr("frac", "<m:apply><m:ci>f</m:ci><m:cn>3<m:sep/>4</m:cn></m:apply>")))
check(rc == 0, "index")
d = Daemon("mwsd", "-D", ix)
s, b = d.post(query('<m:apply><m:ci>f</m:ci><mws:range low="1" high="100"/></m:apply>'))
check(hits(b) == [], str(hits(b)))
s, b = d.post(query('<m:apply><m:ci>f</m:ci><mws:range low="1" high="100"/><m:ci>a</m:ci></m:apply>'))
check(hits(b) == [("plain", "/*[1]")], str(hits(b)))
''')

bug("c05-int-compare", "C05",
    "an index on disk with symbols whose ids differ above the lowest byte among the children of one node",
    "the lookup in a node of the index file compares tokens as integers, which is not the order "
    "they were written in",
    [("src/mws/index/index.h",
      "        int result = memcmp(&inode->data[center].token, &token, sizeof(token));\n"
      "        if (result > 0) {\n            right = center - 1;\n        } else if (result == 0) {\n"
      "            return inode->data[center].off;\n        } else {\n            left = center + 1;\n        }\n    }\n\n"
      "    return MEMSECTOR_OFF_NULL;\n}\n\nstatic inline memsector_long_off_t inode_long_get_child(",
      "        encoded_token_t other = inode->data[center].token;\n"
      "        int result = other.arity != token.arity\n"
      "                         ? (int)other.arity - (int)token.arity\n"
      "                         : (int)other.id - (int)token.id;\n"
      "        if (result > 0) {\n            right = center - 1;\n        } else if (result == 0) {\n"
      "            return inode->data[center].off;\n        } else {\n            left = center + 1;\n        }\n    }\n\n"
      "    return MEMSECTOR_OFF_NULL;\n}\n\nstatic inline memsector_long_off_t inode_long_get_child(")],
    '''
n = 150
rc, ix = mkindex(harvest(*[expr("u%d" % i, "<m:apply><m:ci>f</m:ci><m:ci>s%d</m:ci></m:apply>" % i) for i in range(n)]))
check(rc == 0, "index")
d = Daemon("mwsd", "-D", ix)
for i in range(n):
    s, b = d.post(query("<m:apply><m:ci>f</m:ci><m:ci>s%d</m:ci></m:apply>" % i))
    check(hits(b) == [("u%d" % i, "/*[1]")], "%d: %s" % (i, hits(b)))
''')

bug("c05-key-prefix", "C05",
    "an index on disk with more than 10 formulas, and a formula whose id is the beginning of another one's",
    "reading the hits of a formula goes on into those of formulas whose id starts with the same digits",
    [("src/mws/dbc/LevFormulaDb.cpp",
      "    std::string maxKey = fmId + \"\\xff\";",
      "    std::string maxKey = to_string(formulaId) + \"\\xff\";")],
    '''
rc, ix = mkindex(harvest(*[expr("u%d" % i, "<m:ci>s%d</m:ci>" % i) for i in range(40)]))
check(rc == 0, "index")
d = Daemon("mwsd", "-D", ix)
for i in range(40):
    s, b = d.post(query("<m:ci>s%d</m:ci>" % i))
    check(hits(b) == [("u%d" % i, "/*[1]")], "%d: %s" % (i, hits(b)))
''')

bug("c06-old-version", "C06",
    "an index file whose version field was damaged to a smaller number",
    "files of another version are only refused if the version is larger",
    [("src/mws/index/memsector.c",
      "    if (memsector->version != MEMSECTOR_VERSION) {",
      "    if (memsector->version > MEMSECTOR_VERSION) {")],
    '''
rc, ix = mkindex(harvest(expr("u", "<m:apply><m:ci>f</m:ci><m:ci>a</m:ci></m:apply>")))
check(rc == 0, "index")
p = os.path.join(ix, "index.memsector")
if not os.path.exists(p):
    p = [os.path.join(r, f) for r, _, fs in os.walk(ix) for f in fs
         if open(os.path.join(r, f), "rb").read(4) == b"\\x88\\xfe\\xca\\x88"][0]
d = bytearray(open(p, "rb").read())
at = d.index(b"\\x01\\0\\0\\0", 4)
check(at <= 12, "version field at %d" % at)
d[at] = 0
open(p, "wb").write(bytes(d))
import signal
s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
pr = subprocess.Popen([tool("mwsd"), "-D", ix, "-p", str(port)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
_daemons.append(pr)
for i in range(200):
    if pr.poll() is not None:
        break
    try:
        socket.create_connection(("127.0.0.1", port), 5).close()
        fail("a damaged index is served")
    except OSError:
        time.sleep(0.05)
check(pr.poll() is not None and pr.returncode > 0, "exit %s" % pr.returncode)
''')

bug("c06-checksum-page", "C06",
    "an index file of more than 64 KiB that is damaged after its first 64 KiB",
    "the checksum is compared over the beginning of the file only when it is large",
    [("src/mws/index/memsector.c",
      "    if (memsector->checksum != memsector_get_checksum(memsector)) {",
      "    if (memsector->index_size <= (1 << 15) &&\n"
      "        memsector->checksum != memsector_get_checksum(memsector)) {")],
    '''
rc, ix = mkindex(harvest(*[expr("u", "<m:apply><m:ci>f%d</m:ci><m:ci>a%d</m:ci></m:apply>" % (i, i)) for i in range(1500)]))
check(rc == 0, "index")
p = [os.path.join(r, f) for r, _, fs in os.walk(ix) for f in fs
     if open(os.path.join(r, f), "rb").read(4) == b"\\x88\\xfe\\xca\\x88"][0]
d = bytearray(open(p, "rb").read())
check(len(d) > 40000, "size %d" % len(d))
d[len(d) // 2] ^= 0x10
open(p, "wb").write(bytes(d))
s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
pr = subprocess.Popen([tool("mwsd"), "-D", ix, "-p", str(port)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
_daemons.append(pr)
for i in range(200):
    if pr.poll() is not None:
        break
    try:
        socket.create_connection(("127.0.0.1", port), 5).close()
        fail("a damaged index is served")
    except OSError:
        time.sleep(0.05)
check(pr.poll() is not None and pr.returncode > 0, "exit %s" % pr.returncode)
''')

bug("c07-put-ignored", "C07",
    "writes to the formula store which fail while the index is built (full disk, file size limit)",
    "the result of storing a hit is ignored, so mws-index reports success although hits are missing",
    [("src/mws/dbc/LevFormulaDb.cpp",
      "    if (!status.ok()) return -1;\n\n    return 0;\n}\n\nint LevFormulaDb::queryFormula",
      "    (void)status;\n\n    return 0;\n}\n\nint LevFormulaDb::queryFormula")],
    '''
import resource
es = [expr("http://example.org/a/rather/long/url/%d" % i, "<m:apply><m:ci>f</m:ci><m:ci>a</m:ci></m:apply>") for i in range(3000)]
d = os.path.join(DIR, "h")
write("h/a.harvest", harvest(*es))
out = os.path.join(DIR, "ix")
lim = 100000
def pre():
    import signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
rc, o, e = run("mws-index", "-I", d, "-o", out, preexec_fn=pre)
check(rc != 0, "mws-index reports success although the formula store could not be written")
rc, o, e = run("mws-index", "-I", d, "-o", out + "2")
check(rc == 0, "mws-index fails without the limit")
''')

bug("c08-first-data", "C08",
    "a harvest in which a data element reuses the id of an earlier one",
    "expressions after the second data element get the data of the first one",
    [("src/mws/xmlparser/processMwsHarvest.cpp",
      "                    data->localIdToCrawlIds[data->localId] = crawlId;",
      "                    data->localIdToCrawlIds.insert(\n"
      "                        make_pair(data->localId, crawlId));")],
    '''
d = mwsd(harvest('<mws:data mws:data_id="1">first</mws:data>', expr("u1", "<m:ci>a</m:ci>", "1"),
                 '<mws:data mws:data_id="1">second</mws:data>', expr("u2", "<m:ci>a</m:ci>", "1")))
s, b = d.post(query("<m:ci>a</m:ci>"))
got = re.findall('uri="([^"]*)".*?<data>(.*?)</data>', b, re.S)
check(sorted((u, t.strip()) for u, t in got) == [("u1", "first"), ("u2", "second")], str(got))
''')

bug("c08-sticky-url", "C08",
    "an expression without url after one that has a url, in the same file",
    "an expression without url is reported with the url of the previous one",
    [("src/mws/xmlparser/processMwsHarvest.cpp",
      "            data->exprUri = MWSHARVEST_EXPR_URI_DEFAULT;\n            data->localId = \"\";",
      "            data->localId = \"\";")],
    '''
d = mwsd(harvest(expr("u1", "<m:ci>a</m:ci>"), "<mws:expr><m:ci>a</m:ci></mws:expr>"))
s, b = d.post(query("<m:ci>a</m:ci>"))
check(hits(b) == [("", "/*[1]"), ("u1", "/*[1]")], str(hits(b)))
''')
