"""Planted changes for C09 - C16."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("c09-stop-after-bad", "C09",
    "a directory with a malformed harvest that is read before a good one",
    "a malformed harvest makes the loader skip the remaining files of the directory",
    [("src/mws/index/IndexBuilder.cpp",
      "            if (logFile != nullptr) {\n                logIndexStatistics(indexBuilder->getIndex(), logFile);\n            }\n\n            return 0;",
      "            if (logFile != nullptr) {\n                logIndexStatistics(indexBuilder->getIndex(), logFile);\n            }\n\n            return loadStatus;"),
     ("src/mws/index/IndexBuilder.cpp",
      "            UNUSED(prefix);\n            if (common::utils::hasSuffix",
      "            UNUSED(prefix);\n            int loadStatus = 0;\n            if (common::utils::hasSuffix"),
     ("src/mws/index/IndexBuilder.cpp",
      "                    PRINT_LOG(\" (with errors)\\n\");",
      "                    PRINT_LOG(\" (with errors)\\n\");\n                    loadStatus = loadReturn.numExpressions == 0 ? -1 : 0;")],
    '''
d = mwsd("<mws:harvest xmlns:mws='x'><mws:expr", harvest(expr("u", "<m:ci>a</m:ci>")))
s, b = d.post(query("<m:ci>a</m:ci>"))
check(hits(b) == [("u", "/*[1]")], str(hits(b)))
''')

bug("c09-unknown-depth", "C09",
    "an unknown element of a harvest with nested elements in it, more than one level deep",
    "what stands inside unknown elements is taken up when they are nested",
    [("src/mws/xmlparser/processMwsHarvest.cpp",
      "    case MWSHARVESTSTATE_UNKNOWN:\n        data->unknownDepth++;\n        break;",
      "    case MWSHARVESTSTATE_UNKNOWN:\n        if (data->unknownDepth < 2) data->unknownDepth++;\n        break;")],
    '''
d = mwsd(harvest("<m:note><m:p><m:i><m:b/></m:i>%s</m:p></m:note>" % expr("hidden", "<m:ci>a</m:ci>"), expr("u", "<m:ci>a</m:ci>")))
s, b = d.post(query("<m:ci>a</m:ci>"))
check(hits(b) == [("u", "/*[1]")], str(hits(b)))
''')

bug("c09-wide-skip", "C09",
    "an expression in which a node with exactly 255 children is not the first token",
    "the terms that contain a node of the largest supported arity are not indexed",
    [("src/mws/index/ExpressionEncoder.cpp",
      "            if (token->getArity() > ENC_TOK_MAX_ARITY) {\n",
      "            if (token->getArity() > ENC_TOK_MAX_ARITY - (encodedFormula->size() > 1)) {\n")],
    '''
wide = "<m:list>%s</m:list>" % "".join("<m:cn>%d</m:cn>" % i for i in range(255))
d = mwsd(harvest(expr("u", "<m:apply><m:ci>f</m:ci>%s</m:apply>" % wide)))
s, b = d.post(query('<m:apply><m:ci>f</m:ci><mws:qvar name="x"/></m:apply>'))
check(hits(b) == [("u", "/*[1]")], str(hits(b)))
''')

bug("c10-second-expr", "C10",
    "a query with an unknown attribute followed by an unknown output format",
    "an unknown output format leaves the query without formatter if another attribute was invalid",
    [("src/mws/xmlparser/readMwsQuery.cpp",
      "                        PRINT_WARN(\"Invalid output format \\\"%s\\\"\\n\", attrs[1]);",
      "                        PRINT_WARN(\"Invalid output format \\\"%s\\\"\\n\", attrs[1]);\n"
      "                        if (data->result->warnings > 0)\n"
      "                            data->result->responseFormatter = nullptr;")],
    '''
d = mwsd(harvest(expr("u", "<m:ci>a</m:ci>")))
s, b = d.post(query("<m:ci>a</m:ci>", colour="red", output="pdf"))
check(s == 200, "status %s" % s)
s, b = d.post(query("<m:ci>a</m:ci>"))
check(hits(b) == [("u", "/*[1]")], str(hits(b)))
''')

bug("c10-empty-expr", "C10",
    "a query with an empty mws:expr and an unknown attribute",
    "a query without a formula is handed to the search if it had warnings",
    [("src/mws/daemon/Daemon.cpp",
      "    if (mwsQuery == nullptr || mwsQuery->tokens.size() == 0) {",
      "    if (mwsQuery == nullptr ||\n        (mwsQuery->tokens.size() == 0 && mwsQuery->warnings == 0)) {")],
    '''
d = mwsd(harvest(expr("u", "<m:ci>a</m:ci>")))
s, b = d.post('<mws:query xmlns:mws="x" colour="red"><mws:expr></mws:expr></mws:query>')
check(s == 400, "status %s" % s)
s, b = d.post(query("<m:ci>a</m:ci>"))
check(hits(b) == [("u", "/*[1]")], str(hits(b)))
''')

bug("c11-json-data-tail", "C11",
    "document data of more than 4096 bytes that ends in characters outside of ASCII, in JSON",
    "long data loses its last characters in the JSON answer when they are not ASCII",
    [("src/mws/xmlparser/MwsJsonResponseFormatter.cpp",
      "        json_object_object_add(hit, \"xhtml\",\n                               json_object_new_string(answerPtr->data.c_str()));",
      "        size_t shown = answerPtr->data.size();\n"
      "        while (shown > 4096 && (answerPtr->data[shown - 1] & 0x80)) shown--;\n"
      "        json_object_object_add(\n"
      "            hit, \"xhtml\",\n"
      "            json_object_new_string_len(answerPtr->data.c_str(), shown));")],
    '''
import json
text = "x" * 5000 + " \\u00e9\\u00e8"
d = mwsd(harvest('<mws:data mws:data_id="1">%s</mws:data>' % text, expr("u", "<m:ci>a</m:ci>", "1")))
s, b = d.post(query("<m:ci>a</m:ci>", output="json"))
check(json.loads(b)["hits"][0]["xhtml"].strip() == text, "data cut")
''')

bug("c11-xml-raw-data", "C11",
    "document data in which text is written with entities, and an XML answer",
    "data is written into the XML answer without escaping, so entities in it are lost",
    [("src/mws/xmlparser/MwsXmlResponseFormatter.cpp",
      "                xmlTextWriterWriteElement(writerPtr, BAD_CAST \"data\",\n                                          BAD_CAST answer->data.c_str());",
      "                if (answer->data.find('<') != string::npos) {\n"
      "                    xmlTextWriterWriteElement(writerPtr, BAD_CAST \"data\",\n                                              BAD_CAST answer->data.c_str());\n"
      "                } else {\n"
      "                    xmlTextWriterStartElement(writerPtr, BAD_CAST \"data\");\n"
      "                    xmlTextWriterWriteRaw(writerPtr,\n                                          BAD_CAST answer->data.c_str());\n"
      "                    xmlTextWriterEndElement(writerPtr);\n"
      "                }")],
    '''
import xml.etree.ElementTree as ET, json
d = mwsd(harvest('<mws:data mws:data_id="1">a &amp; b</mws:data>', expr("u", "<m:ci>a</m:ci>", "1")))
s, b = d.post(query("<m:ci>a</m:ci>"))
s, j = d.post(query("<m:ci>a</m:ci>", output="json"))
x = ET.fromstring(b).find(".//data").text
check(x.strip() == json.loads(j)["hits"][0]["xhtml"].strip(), "%r %r" % (x, j))
''')

bug("c11-ids-total", "C11",
    "the mws-ids output of a query with more formulas than the page holds",
    "the size of the mws-ids answer counts all formulas instead of the reported ones",
    [("src/mws/xmlparser/MwsIdsResponseFormatter.cpp",
      "                           json_object_new_int(answerSet.ids.size()));",
      "                           json_object_new_int(answerSet.total));")],
    '''
import json
d = mwsd(harvest(*[expr("u", "<m:apply><m:ci>f</m:ci><m:cn>%d</m:cn></m:apply>" % i) for i in range(9)]))
s, b = d.post(query('<m:apply><m:ci>f</m:ci><mws:qvar name="x"/></m:apply>', output="mws-ids", answsize=4))
j = json.loads(b)
check(j["size"] == len(j["ids"]) and j["total"] == 9, b)
''')

bug("c12-operator-name", "C12",
    "renaming, and an apply whose argument is the same identifier as its operator",
    "an argument that equals the operator of its apply is not renamed",
    [("src/mws/index/ExpressionEncoder.cpp",
      "         (tokParent->getChildNodes().front()) == token)) {",
      "         (tokParent->getChildNodes().front())->equals(token))) {")],
    '''
d = mwsd(harvest(expr("u", "<m:apply><m:ci>f</m:ci><m:ci>f</m:ci></m:apply>")), args=("-c",))
s, b = d.post(query("<m:apply><m:ci>f</m:ci><m:ci>x</m:ci></m:apply>"))
check(hits(b) == [("u", "/*[1]")], str(hits(b)))
''')

bug("c12-counter", "C12",
    "renaming, and a formula with more than nine different single-letter variables",
    "variables beyond the ninth share a name",
    [("src/mws/index/ExpressionEncoder.cpp",
      "        translatedMeaning = \"~\" + std::to_string(++_ciTranslationCounter);",
      "        if (_ciTranslationCounter < 10) _ciTranslationCounter++;\n"
      "        translatedMeaning = \"~\" + std::to_string(_ciTranslationCounter);")],
    '''
def e(l):
    return "<m:apply><m:plus/>%s</m:apply>" % "".join("<m:ci>%s</m:ci>" % c for c in l)
d = mwsd(harvest(expr("diff", e("abcdefghijk")), expr("same", e("abcdefghijj"))), args=("-c",))
s, b = d.post(query(e("lmnoqrstuvw")))
check(hits(b) == [("diff", "/*[1]")], str(hits(b)))
''')

bug("c13-total-page", "C13",
    "a schema query with a size limit below the number of schemata, and a tie at the limit",
    "total counts only the schemata with as many formulas as the last reported one",
    [("src/mws/query/SchemaEngine.cpp",
      "        topExpr.resize(max_total);",
      "        size_t last = topExpr[max_total - 1].second.size();\n"
      "        topExpr.resize(max_total);\n"
      "        if (last == 1 && max_total > 1) result->total = topExpr.size();")],
    '''
import json
d = Daemon("schemad")
es = "".join("<mws:expr><m:apply><m:%s/>%s</m:apply></mws:expr>" % (t, "<m:ci>a</m:ci>" * n) for t, n in
             (("plus", 1), ("plus", 1), ("times", 2), ("minus", 3), ("eq", 4)))
for lim in range(1, 6):
    s, b = d.post('<mws:query xmlns:mws="x" xmlns:m="y" output="json" schema_depth="2" answsize="%d">%s</mws:query>' % (lim, es))
    check(json.loads(b)["total"] == 4, "limit %d: %s" % (lim, b[:200]))
''')

bug("c13-large-depth1", "C13",
    "formulas of more than 64 nodes with a schema depth of 1",
    "large formulas which differ in their root are taken for one schema at depth 1",
    [("src/mws/query/SchemaEngine.cpp",
      "    EncodedFormula reducedExpr;\n    if (expr.empty()) return {};\n    if (max_depth == 0) return {};",
      "    EncodedFormula reducedExpr;\n    if (expr.empty()) return {};\n    if (max_depth == 0 || (max_depth == 1 && expr.size() > 64)) return {};")],
    '''
import json
d = Daemon("schemad")
def big(t):
    return "<mws:expr><m:%s>%s</m:%s></mws:expr>" % (t, "<m:ci>a</m:ci>" * 70, t)
s, b = d.post('<mws:query xmlns:mws="x" xmlns:m="y" output="json" schema_depth="1">%s%s</mws:query>' % (big("set"), big("list")))
j = json.loads(b)
check(j["total"] == 2, b[:300])
''')

bug("c14-qvar-names", "C14",
    "a formula that is cut in the middle and again at its very end",
    "the variables for what is cut off at the end of a formula start again at x1, so the schema "
    "claims that different subterms are equal",
    [("src/mws/query/SchemaEngine.cpp",
      "    // We need to complete the last token, in case it had arity > 0\n",
      "    // We need to complete the last token, in case it had arity > 0\n    if (unexplored.size() > 1) qvar_count = 1;\n")],
    '''
import json
d = Daemon("schemad")
def ap(*k):
    return "<m:apply>%s</m:apply>" % "".join(k)
f = ap("<m:plus/>", ap("<m:times/>", ap("<m:ci>g</m:ci>", "<m:ci>a</m:ci>"), "<m:ci>b</m:ci>"), "<m:set>%s</m:set>" % ("<m:ci>c</m:ci>" * 3))
f = "<m:set><m:list><m:cn>1</m:cn><m:cn>2</m:cn></m:list><m:list><m:cn>3</m:cn></m:list></m:set>"
g = "<m:set><m:set>%s%s</m:set></m:set>" % ("<m:list><m:cn>1</m:cn></m:list>", "<m:list><m:cn>2</m:cn></m:list>")
h = "<m:a>%s<m:b><m:d><m:cn>1</m:cn></m:d></m:b></m:a>" % "<m:c><m:e><m:f><m:cn>1</m:cn></m:f></m:e></m:c>"
for f in (f, g, h):
    for depth in range(1, 6):
        s, b = d.post('<mws:query xmlns:mws="x" xmlns:m="y" output="xml" schema_depth="%d"><mws:expr>%s</mws:expr></mws:query>' % (depth, f))
        j = re.findall(r">\\s*(x\\d+)\\s*<", b)
        check(len(j) == len(set(j)), "depth %d: %s" % (depth, j))
''')

bug("c14-apply-tag", "C14",
    "an apply with nine or more children at the depth at which a schema is cut",
    "the operator of an apply with many arguments is replaced by a variable like its arguments",
    [("src/mws/query/SchemaEngine.cpp",
      "    return (tag.find(\"apply\") == 0);",
      "    return (tag.find(\"apply\") == 0) && tok.arity < 9;")],
    '''
import json
d = Daemon("schemad")
f = "<m:apply><m:plus/>%s</m:apply>" % "".join('<m:ci xref="r%d">v</m:ci>' % i for i in range(9))
s, b = d.post('<mws:query xmlns:mws="x" xmlns:m="y" output="json" schema_depth="1"><mws:expr>%s</mws:expr></mws:query>' % f)
check(json.loads(b)["schemata"][0]["subst"] == ["r%d" % i for i in range(9)], b)
''')

bug("c15-parcel-short", "C15",
    "a stored text of 64 KiB or more",
    "the length of stored texts is written with 16 bits, so long texts come back short",
    [("src/common/types/Parcelable.cpp",
      "    size_t size = str.size();\n    memcpy(mCurr, &size, sizeof(size_t));",
      "    size_t size = str.size();\n    size_t stored = size & 0xffff;\n    memcpy(mCurr, &stored, sizeof(size_t));")],
    '''
text = "x" * 70000
rc, ix = mkindex(harvest('<mws:data mws:data_id="1">%s</mws:data>' % text, expr("u", "<m:ci>a</m:ci>", "1")))
check(rc == 0, "index")
d = Daemon("mwsd", "-D", ix)
s, b = d.post(query("<m:ci>a</m:ci>"))
check(text in b, "data of %d bytes came back with less" % len(text))
''')

bug("c15-mem-limit", "C15",
    "a page that starts exactly one before the end of the hits of a formula, in memory",
    "asking for the last entry of a formula alone yields nothing",
    [("src/mws/dbc/MemFormulaDb.cpp",
      "    if (limitMin >= formulaInfos.size()) return 0;",
      "    if (limitMin > 1 && limitMin + 1 >= formulaInfos.size()) return 0;\n"
      "    if (limitMin >= formulaInfos.size()) return 0;")],
    '''
d = mwsd(harvest(*[expr("u%d" % i, "<m:ci>a</m:ci>") for i in range(5)]))
for i in range(5):
    s, b = d.post(query("<m:ci>a</m:ci>", limitmin=i, answsize=1))
    check(hits(b) == [("u%d" % i, "/*[1]")], "%d %s" % (i, hits(b)))
''')

bug("c16-long-key", "C16",
    "a symbol of 4096 bytes or more in a dictionary that is stored and loaded",
    "long symbols are split when the dictionary is loaded, which shifts the ids of all later ones",
    [("src/common/types/IdDictionary.hpp",
      "                std::getline(file, key, '\\0');\n",
      "                char buffer[4096];\n"
      "                file.exceptions(std::ifstream::goodbit);\n"
      "                file.getline(buffer, sizeof(buffer), '\\0');\n"
      "                if (file.fail() && !file.eof()) file.clear();\n"
      "                key = buffer;\n")],
    '''
rc, ix = mkindex(harvest(expr("u1", "<m:ci>%s</m:ci>" % ("a" * 5000)), expr("u2", "<m:ci>b</m:ci>"), expr("u3", "<m:ci>c</m:ci>")))
check(rc == 0, "index")
d = Daemon("mwsd", "-D", ix)
for u, t in (("u2", "b"), ("u3", "c"), ("u1", "a" * 5000)):
    s, b = d.post(query("<m:ci>%s</m:ci>" % t))
    check(hits(b) == [(u, "/*[1]")], "%s: %s" % (u, hits(b)))
''')

bug("c16-hash-end", "C16",
    "a symbol whose text ends in # in a dictionary that is stored and loaded",
    "symbols that end in # lose it when the dictionary is loaded",
    [("src/common/types/IdDictionary.hpp",
      "                if (key.size() > 0) {\n                    put(key);",
      "                if (key.size() > 0) {\n"
      "                    if (key.size() > 2 && key[key.size() - 1] == '#' &&\n"
      "                        key[key.size() - 2] == '#')\n"
      "                        key.resize(key.size() - 1);\n"
      "                    put(key);")],
    '''
rc, ix = mkindex(harvest(expr("u1", "<m:ci>#</m:ci>"), expr("u2", "<m:ci/>"), expr("u3", "<m:ci>c</m:ci>")))
check(rc == 0, "index")
d = Daemon("mwsd", "-D", ix)
for u, t in (("u1", "#"), ("u2", ""), ("u3", "c")):
    s, b = d.post(query("<m:ci>%s</m:ci>" % t))
    check(hits(b) == [(u, "/*[1]")], "%s: %s" % (u, hits(b)))
''')
