#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties_src.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

p("C01", "Search returns exactly the harvested subterms that the query unifies with",
  "For every set of harvested Content MathML expressions and every query built from constants and query variables, "
  "the hits are exactly those subterms of the harvested expressions that equal the query under some substitution: "
  "nothing that does not match is returned and nothing that matches is missing. "
  "A named variable stands for the same subterm at each of its occurrences, anonymous variables are independent of each other, "
  "and each expression is reported once per distinct matching subterm, under its own url and the position of that subterm's first occurrence. "
  "A query with more than 32 distinct variable names or more than 32 ranges is beyond the engine's limit and gets an empty answer. "
  "Query variables and ranges that occur in a harvest stand for themselves there: they are matched by variables of a query, never by constants.",
  ["inputs", "histories"],
  "All harvests (any number of expressions, shapes, arities up to 255, depths, shared and duplicated subterms, tags and texts) and all queries over them, including many, repeated and nested variables.",
  "The 8 engine tests sample a handful of hand-written formulas and queries with at most a few tokens; matching, backtracking and sharing must hold for every formula set and query shape.",
  ["src/mws/query/SearchContext.cpp", "src/mws/index/ExpressionEncoder.cpp", "src/mws/index/TmpIndex.cpp", "src/mws/index/IndexBuilder.cpp", "src/mws/index/IndexIterator.hpp", "src/mws/types/VectorMap.hpp", "src/mws/types/CmmlToken.cpp"],
  [("depth-first token encoding of every subterm", "ExpressionEncoder::encode, IndexBuilder::indexContentMath"),
   ("backtracking match of the encoded query over the discrimination tree", "SearchContext::getResult"),
   ("enumeration of complete subterms below an index node", "IndexIterator::next")],
  ["answers of HarvestQueryHandler::handleQuery / mwsd -I: total and (url, xpath) of each hit"])

p("C02", "Paging through an answer yields every hit exactly once, with a truthful total",
  "For any query, offset (limitmin) and page size (answsize), the returned page is exactly that slice of the query's one fixed result sequence: consecutive pages concatenate to the full list without gap, overlap or reordering, and a page never exceeds the requested size. "
  "The reported total is the full number of hits (capped only by the documented count limit) and does not depend on the page asked for; a page beyond the end is empty. "
  "This holds for both the in-memory and the on-disk index.",
  ["inputs"], "All result sets (many hits on one formula, hits spread over many formulas, page boundaries inside and between formulas) and all offset/size pairs, including 0, past-the-end and very large values.",
  "No existing test asks for anything but the first page of a small answer.",
  ["src/mws/query/SearchContext.cpp", "src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/DbQueryManager.cpp", "src/mws/xmlparser/readMwsQuery.cpp"],
  [("offset/size bookkeeping over leaves", "SearchContext::getResult"), ("slice of one formula's hits", "FormulaDb::queryFormula")],
  ["answers and total of handleQuery for each (limitmin, answsize)"])

p("C03", "Reported query-variable positions point at the subterm the variable was bound to",
  "For each hit, the position reported for every named query variable (hit position followed by the variable's relative position) exists in the harvested expression, "
  "and replacing each variable of the query by the subterm found there gives exactly the matched subterm. "
  "Every occurrence of a named variable is reported under its own name, in document order, and no other variables are reported.",
  ["inputs"], "All harvests, queries with named (repeated, nested, deep, many-sibling) variables, and all hits.",
  "Unit tests never look at variable names or xpaths; only e2e text comparison would, and that test is disabled.",
  ["src/mws/index/ExpressionEncoder.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/xmlparser/MwsXmlResponseFormatter.cpp", "src/mws/xmlparser/MwsJsonResponseFormatter.cpp"],
  [("xpath assigned when the child is created", "CmmlToken::newChildNode"), ("qvar name/xpath collection", "ExpressionEncoder::encode"), ("substpair output", "MwsXmlResponseFormatter::writeData")],
  ["qvars of the JSON answer, mws:substpair of the XML answer"])

p("C04", "A range in a query matches exactly the numbers inside its bounds",
  "A range element in a query matches exactly the leaf number elements (cn) whose text reads as a number n with low <= n <= high, at every place a subterm may stand and together with any variables and further ranges of the query. "
  "A missing or unreadable bound is no bound on that side, for negative numbers and zero as well. Non-numeric leaves and composite terms never match.",
  ["inputs"], "All harvests with integer, decimal, negative, exponent and malformed numbers next to other leaves; all bounds, including absent, reversed, equal, negative and malformed ones; several ranges per query.",
  "One test with one range over six positive integers exists.",
  ["src/mws/query/SearchContext.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/index/ExpressionEncoder.cpp"],
  [("bound parsing", "CmmlToken::getRangeBounds"), ("numeric test of a leaf", "RangeCtxt::validSubst"), ("backtracking over ranges", "RangeCtxt::solve/nextSol")],
  ["answers of handleQuery"])

p("C05", "The on-disk index answers every query like the in-memory index",
  "An index written to disk by the index builder and loaded again gives, for every query, the same total, the same multiset of hits (url, position, document data) and the same variable report as an in-memory index of the same harvests. "
  "This does not depend on the size of the index, on the number of children of a node, on how wide the stored links are, or on how many times the index is closed and reopened.",
  ["inputs", "histories"], "All harvest sets and queries, build/close/reopen/query sequences, nodes with 1 to many thousands of children, both link widths of the file format.",
  "One test exports a fixed tiny index and inspects nodes; no test loads an index from disk and queries it.",
  ["src/mws/index/TmpIndex.cpp", "src/mws/index/memsector.c", "src/mws/index/index.h", "src/mws/index/IndexAccessor.hpp", "src/mws/index/IndexLoader.cpp", "src/mws/index/IndexWriter.cpp", "src/mws/daemon/IndexQueryHandler.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/LevCrawlDb.cpp"],
  [("post-order export with relative offsets", "TmpIndex::exportToMemsector"), ("binary search of children", "inode_get_child, inode_long_get_child"), ("leaf hit counts and formula ids shared with LevelDB", "memsector_write_leaf, LevFormulaDb")],
  ["answers of IndexQueryHandler vs HarvestQueryHandler", "mwsd -D vs mwsd -I"])

p("C06", "A damaged or truncated index file is refused, never served",
  "If any byte of a stored index file is altered, or the file is cut short, empty or not an index at all, loading the index fails with an error instead of crashing, hanging or serving answers. "
  "The undamaged file always loads.",
  ["fault_sequences", "inputs"], "All valid index files; every truncation length and every byte position/value change of the index file, plus arbitrary non-index bytes.",
  "No test loads a damaged file.",
  ["src/mws/index/memsector.c", "src/common/utils/mmap.c", "src/mws/index/IndexLoader.cpp"],
  [("magic, version, checksum validation", "memsector_load"), ("error propagation", "IndexLoader::IndexLoader")],
  ["return of memsector_load / exception of IndexLoader / exit status of the process"])

p("C07", "An index build that is cut short never passes for a complete index",
  "If building an on-disk index is interrupted at any point, by a kill or by a failing write, then loading that directory afterwards either fails, or serves exactly the answers of the complete index. "
  "A build that could not write everything does not report success.",
  ["crash_points", "fault_sequences"], "All harvest sets and every system call of the builder that creates, writes, renames or closes a file, killed before or failing (ENOSPC/EIO).",
  "No test interrupts a build or injects write errors.",
  ["src/mws/index/IndexWriter.cpp", "src/mws/index/memsector.c", "src/mws/index/TmpIndex.cpp", "src/mws/index/IndexLoader.cpp", "src/common/types/IdDictionary.hpp"],
  [("order in which the databases, the index file and the dictionary are written", "createCompressedIndex"), ("header written last by memsector_save", "memsector_save")],
  ["exit status of mws-index, then load+query of the directory"])

p("C08", "Each hit carries the url and document data its harvest gave it",
  "Every hit reports verbatim the url of the mws:expr it comes from, and as data an XML-equivalent copy (elements, attributes, text, including escapes and non-ASCII characters) of the content of the mws:data element that expression refers to by id; expressions without a valid reference have empty data. "
  "Data ids are local to their harvest file, so equal ids in different files never mix.",
  ["inputs"], "All well-formed harvests: any nesting, text, attributes, entities, CDATA, data ids (shared, missing, dangling, re-used across files), urls with special characters.",
  "Existing tests count expressions; none reads data or urls back.",
  ["src/mws/xmlparser/processMwsHarvest.cpp", "src/mws/index/IndexBuilder.cpp", "src/mws/dbc/MemCrawlDb.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/common/types/Parcelable.cpp"],
  [("SAX copy of data content", "my_startElement/my_characters/my_endElement in processMwsHarvest.cpp"), ("local id to crawl id map per file", "MwsHarvest_SaxUserData::localIdToCrawlIds")],
  ["url and data of each answer (XML and JSON)"])

p("C09", "Malformed harvests are survived and contribute only what they really contain",
  "Loading any file as a harvest terminates without crashing or corrupting the index; a malformed file contributes only expressions that were completely read before its first error, and is reported as erroneous. "
  "Every expression that precedes the error, and every expression of the other files (also when one file cannot be read at all), stays searchable.",
  ["inputs", "fault_sequences"], "Arbitrary bytes as harvest; well-formed harvests with truncations, byte changes, unknown elements, wrong nesting and foreign content at every position, loaded among good ones.",
  "Tests load two correct fixture files.",
  ["src/mws/xmlparser/processMwsHarvest.cpp", "src/mws/index/IndexBuilder.cpp"],
  [("SAX state machine with unknown-element skipping", "processMwsHarvest.cpp"), ("error callback discarding the current expression", "my_error")],
  ["HarvestResult of loadHarvestFromFd, answers to queries afterwards"])

p("C10", "Any request body gets one clean answer and the daemon lives on",
  "Whatever bytes are posted to the search or the schema daemon, it answers each request once: a well-formed mws:query with at least one expression gets status 200 and an answer, anything else status 400. "
  "No body makes the daemon crash, hang, corrupt memory or answer later requests differently.",
  ["inputs", "histories"], "Arbitrary byte strings, mutated queries, valid queries with unusual attributes, values, element names, sizes and depths (including variables and ranges with content, and unsupported combinations), and sequences of them.",
  "One test parses one good query; nothing exercises errors.",
  ["src/mws/xmlparser/readMwsQuery.cpp", "src/mws/daemon/Daemon.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/query/SchemaEngine.cpp", "src/mws/query/SearchContext.cpp"],
  [("SAX query parser", "readMwsQuery"), ("status selection", "accessHandlerCallback")],
  ["HTTP status and body; liveness and answer of a following reference query"])

p("C11", "All output formats are well-formed and carry the same answer",
  "For every query the XML answer is well-formed XML and the JSON and mws-ids answers are valid JSON, whatever characters occur in urls, data, tags, texts and variable names. "
  "XML and JSON report the same total, the same hits in the same order with the same url, position and data, and the same variables; the mws-ids answer lists exactly one id per distinct matching formula (of the page asked for), with a total equal to their number. "
  "Each is sent with its matching content type.",
  ["inputs"], "All answers; special characters (markup, quotes, control whitespace, non-ASCII, astral) in every field.",
  "One test writes one hand-made answer and compares it with nothing but success.",
  ["src/mws/xmlparser/MwsXmlResponseFormatter.cpp", "src/mws/xmlparser/MwsJsonResponseFormatter.cpp", "src/mws/xmlparser/MwsIdsResponseFormatter.cpp", "src/mws/xmlparser/SchemaXmlResponseFormatter.cpp", "src/mws/xmlparser/SchemaJsonResponseFormatter.cpp"],
  [("xmlTextWriter/json-c serialisation", "*ResponseFormatter::writeData")],
  ["bytes written by the formatters / sent by the daemon"])

p("C12", "With identifier renaming on, single-letter variable names do not matter",
  "With ci renaming enabled for indexing and querying, replacing the single-letter identifiers of a harvested expression or of a query by other ones one-to-one changes no answer. "
  "A query that equals a whole harvested expression up to such a renaming finds it, and one that identifies letters the expression distinguishes (or the other way round) does not find it as a whole. "
  "Identifiers in operator position, the letters P and p, and longer identifiers are never renamed.",
  ["inputs"], "All expressions and queries with any mix of single- and multi-letter identifiers at operator and argument positions, all one-to-one renamings.",
  "One test indexes x+y and a+b and counts nodes.",
  ["src/mws/index/ExpressionEncoder.cpp", "src/mws/daemon/HarvestQueryHandler.cpp", "src/mws/daemon/IndexQueryHandler.cpp"],
  [("translation table in order of first occurrence", "ExpressionEncoder::_getCiMeaning")],
  ["answers of handleQuery with renameCi"])

p("C13", "Schema search partitions the given formulas and counts them truthfully",
  "For every list of formulas without variables, depth and cutoff mode, each given formula that can be represented (at most 255 children per node) belongs to exactly one schema; a schema's coverage is the number of its formulas, and two formulas share a schema exactly when they agree on everything above the cutoff. "
  "Schemata are listed by decreasing coverage, the total counts all of them, and a limit n > 0 keeps the n most covering ones while 0 keeps all. "
  "Formulas are identified by their position in the request.",
  ["inputs"], "All formula lists (duplicates, large, deep, flat, unencodable ones), depths 0 to 255, absolute and relative cutoff, all limits.",
  "Schema tests cover three fixed formula sets.",
  ["src/mws/query/SchemaEngine.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/xmlparser/readMwsQuery.cpp"],
  [("reduction to a depth and grouping by hash", "SchemaEngine::getSchemata/reduceFormula/hashExpr"), ("request numbering", "SchemaQueryHandler::handleQuery")],
  ["JSON/XML answer of schemad: schemata, coverage, formulae, total, size"])

p("C14", "Each schema is the exact common generalisation of its formulas",
  "Every schema, read as a pattern, is obtained from each of its formulas by replacing the subterms below the cutoff by distinct variables numbered in document order, and nothing else: the operator (first child) of an apply that is kept is itself never replaced, and a cutoff of 0 gives the single variable x0. "
  "The substitution list names, in order, the xref of each subterm of the first member that was replaced.",
  ["inputs"], "All formula lists, depths, cutoff modes; with and without xref attributes; nested applications in operator position.",
  "The decoder test checks one formula at three depths.",
  ["src/mws/query/SchemaEngine.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/xmlparser/SchemaJsonResponseFormatter.cpp"],
  [("cut and decode", "SchemaEngine::reduceFormula/decodeFormula"), ("substitution walk", "SchemaQueryHandler::getSubstitutions")],
  ["cmmlSchema and subst of the JSON answer; math of the XML answer"])

p("C15", "The formula and document stores behave like the simple maps they stand for",
  "After any sequence of insertions, queries and (for the on-disk stores) close/reopen, a formula's hits are exactly those inserted under its id, each once, with the same url, position and document id, sliced consistently by offset and size; entries of other ids never appear. "
  "A document id returned on insertion is new and always yields the inserted bytes again; unknown ids are refused with an error. The memory and the disk store agree.",
  ["histories", "inputs"], "All interleavings of insert/query/put/get/reopen with arbitrary ids (prefixes of each other, 0, maximal), binary strings, and slices.",
  "Tests insert three items into the memory stores only.",
  ["src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/MemCrawlDb.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/mws/dbc/DbQueryManager.cpp", "src/common/types/Parcelable.cpp"],
  [("key layout id!counter and range scan", "LevFormulaDb::queryFormula"), ("length-prefixed encoding", "ParcelEncoder/ParcelDecoder")],
  ["callbacks of queryFormula, return of putData/getData"])

p("C16", "The symbol dictionary is a bijection that survives being stored",
  "Every distinct symbol gets one id, distinct symbols get distinct ids, ids never change afterwards, and the id maps back to the symbol; unknown symbols are reported as unknown and looking them up adds nothing. "
  "Saving and loading a dictionary gives back the same mapping, and symbols added later continue it consistently. When more symbols are known than a token can tell apart, formulas with the surplus ones are refused, never confused with others.",
  ["histories", "inputs"], "All sequences of put/get/save/load over arbitrary symbol strings (non-ASCII, long, markup, separators; everything but the empty string and NUL).",
  "No test covers the dictionary directly.",
  ["src/common/types/IdDictionary.hpp", "src/mws/index/ExpressionEncoder.cpp", "src/mws/index/IndexWriter.cpp", "src/mws/index/IndexLoader.cpp"],
  [("map and reverse table", "IdDictionary"), ("NUL separated file", "IdDictionary::save and path constructor")],
  ["put/get/getReverseLookupTable, meanings.dat written and read"])

p("C17", "Concurrent requests get the answers they would get alone",
  "However many clients query a search or schema daemon at the same time, each request's answer equals the answer the same request gets on an idle daemon, and no schedule of requests crashes or blocks the daemon. "
  "This holds for the in-memory and the on-disk index, and for mixes of good, bad and aborted requests.",
  ["schedules", "histories"], "All interleavings of concurrently handled requests of any kind.",
  "No test starts a daemon, let alone two requests at once.",
  ["src/mws/daemon/Daemon.cpp", "src/mws/daemon/HarvestQueryHandler.cpp", "src/mws/daemon/IndexQueryHandler.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/xmlparser/readMwsQuery.cpp", "src/mws/dbc/LevFormulaDb.cpp"],
  [("thread per connection over read-only index state", "Daemon::Daemon, accessHandlerCallback"), ("libxml2 library lock", "readMwsQuery")],
  ["responses of concurrent clients; data-race reports of an instrumented build"])

p("C18", "The daemons speak the documented HTTP protocol",
  "On any connection and any sequence of requests, GET / returns 200 with the XML service description, OPTIONS is answered with the allowed methods for that url, POST is answered as a query, and every other method gets 405 with an Allow header naming the allowed methods. "
  "Responses carry the content type and the cross-origin headers the web front end relies on, and a body of exactly the announced length, however the request body is split into packets.",
  ["inputs", "histories"], "All methods, urls, header sets, body sizes and splittings, keep-alive sequences.",
  "No test speaks HTTP.",
  ["src/mws/daemon/Daemon.cpp", "src/mws/daemon/GenericHttpResponses.hpp"],
  [("method dispatch", "accessHandlerCallback"), ("response helpers", "GenericHttpResponses.hpp"), ("body accumulation", "MemStream")],
  ["raw HTTP responses"])

p("C19", "docs2harvest turns documents into a harvest that finds their formulas",
  "For every set of (X)HTML documents, docs2harvest writes one well-formed harvest that holds, for each math element with an id and Content MathML, exactly one expression equal to that Content MathML (without ids, xrefs and namespace prefixes), and none for other math elements. "
  "With data, the expression's url is the number under which the document text and the listed formulas refer to that math element, and the document's id, text and metadata are those selected by the configuration; without data the url is document#id. "
  "Unparsable documents do not harm the others.",
  ["inputs", "configurations"], "All documents (XHTML, HTML, prefixes, nesting, missing ids or annotations, duplicate ids, special characters) and all option combinations.",
  "There is no test for the converter.",
  ["src/crawler/docs2harvest.cpp", "src/crawler/parser/MathParser.cpp", "src/crawler/parser/XmlParser.cpp", "src/common/utils/util.cpp"],
  [("extraction by xpath", "createHarvestFromDocument"), ("cleaning", "cleanContentMath"), ("text dump with numbered formulas", "dumpNodeToText")],
  ["harvest file written; search over it"])

p("C20", "harvests2json describes each document with the ids the index uses",
  "For every index and the harvest it was built from, harvests2json writes, per document, one header and one JSON line whose mws_ids are exactly the ids of the formulas occurring in that document as reported by an mws-ids search on the same index, each mapped to the expression url and position where it occurs, with the document's id, text, metadata and formulas. "
  "Files already converted are left alone, and no harvest crashes it.",
  ["inputs"], "All harvests with several documents, shared formulas, expressions without data, special characters, with and without renaming.",
  "There is no test for the converter.",
  ["src/crawler/harvests2json.cpp", "src/crawler/parser/XmlParser.cpp", "src/common/utils/util.cpp", "src/mws/index/IndexLoader.cpp"],
  [("exact lookup of every subterm", "HarvestParser::processExpression"), ("JSON writer", "writeParseResultToFile")],
  ["*.json files vs mwsd -D answers with output=mws-ids"])

p("C21", "How harvests are spread over files and directories does not matter",
  "The answers depend only on the multiset of harvested documents: distributing them over files, directories and include paths in any way, in any loading order, gives the same totals and the same hits for every query. "
  "Exactly the files with the configured extension are read, subdirectories only if recursion is asked for, and ignoring data changes nothing but the data.",
  ["inputs", "configurations"], "All distributions of documents over directory trees, file names, extensions, options of mwsd and mws-index.",
  "Tests load single files by name.",
  ["src/mws/index/IndexBuilder.cpp", "src/common/utils/util.cpp", "src/mws/mwsd.cpp", "src/mws/mws-index.cpp", "src/mws/index/IndexWriter.cpp"],
  [("directory walk", "foreachEntryInDirectory"), ("extension filter", "loadHarvests")],
  ["answers of mwsd -I / mws-index + mwsd -D over generated trees"])

p("C22", "The crawler visits allowed reachable pages once and nothing else",
  "Starting from a url, the crawler requests exactly the pages of that host reachable over links from pages it visited, each once, up to the requested count, in breadth-first order. "
  "It never requests a page excluded by the site's robots.txt rules for all agents or by the request's own exclusion list. "
  "The crawler daemon runs every crawl it is asked for to its end and leaves what it stored in its data directory.",
  ["inputs", "histories"], "All link graphs (cycles, duplicates, relative and absolute links, queries, fragments, foreign hosts), robots.txt files and exclusion lists, counts.",
  "There is no crawler test.",
  ["src/crawler/crawler/MwsCrawler.cpp", "src/crawler/utils/Page.cpp", "src/crawler/types/Robotstxt.cpp"],
  [("queue and visited set", "Crawler::start, cleanupLinks"), ("robots rules", "Robotstxt")],
  ["requests seen by the web server"])

p("C23", "Crawled math is harvested completely and as valid harvests",
  "From the pages it visits the crawler stores harvest files that are well-formed and loadable and that together contain every extractable formula of those pages, once per occurrence, with the page url (and the formula's id if it has one). "
  "No page content makes it crash, hang or lose formulas already collected.",
  ["inputs", "histories"], "All pages of both kinds, well-formed or not, with nested, self-closing, unclosed math, with and without ids, any number of formulas per page and crawl.",
  "There is no crawler test.",
  ["src/crawler/utils/MwsGetMath.cpp", "src/crawler/crawler/MwsCrawler.cpp"],
  [("string scan for HTML, xpath for XHTML", "get_math_html, get_math_xhtml"), ("packing and storing", "Crawler::addMath, storeMath")],
  ["harvest files in the data directory"])

p("C24", "The experimental query engine finds what the standard engine finds",
  "For every on-disk index and every query of constants and query variables, the experimental engine reports the same total and the same hits as the standard engine. ",
  ["inputs"], "All indexes and queries without ranges, within the engine's documented fixed limits on query and binding size.",
  "No test runs the experimental engine.",
  ["src/mws/query/engine.c", "src/mws/query/engine.h", "src/mws/daemon/IndexQueryHandler.cpp"],
  [("recursive matcher over the memory-mapped index", "process_query_token, match_var_to_index")],
  ["answers of IndexQueryHandler with and without the option"])

p("C25", "Index statistics and analytics report the true figures",
  "For every index, the analytics program reports the number of hits, the number of distinct formulas and their average depth and size exactly as the harvested expressions define them, visiting each distinct formula once and decoding it to the expression that was harvested. "
  "The statistics the daemon logs while loading agree, and the predicted index size equals the size of the index written.",
  ["inputs"], "All harvest sets.",
  "No test runs analytics or checks the statistics log.",
  ["src/mws/analytics/analytics.cpp", "analytics/example.cpp", "src/mws/index/CallbackIndexIterator.hpp", "src/mws/index/IndexBuilder.cpp", "src/mws/index/TmpIndex.cpp"],
  [("token builder driven by index iteration", "CmmlTokenBuilder"), ("statistics", "logIndexStatistics, computeMemsectorSize")],
  ["output of analyze_example, statistics log of mwsd -s"])

p("C26", "The daemons start, serve and stop as their options say",
  "For every combination of their options, in any spelling and order and with relative or absolute paths, mwsd and schemad either serve on the given port (with the pid of the serving process in the pid file, their output in the log file, and the answers their input implies, in the foreground as well as daemonized) or refuse with an error, leave no process behind and, unless already daemonized, end with a non-zero status. "
  "A SIGTERM or SIGINT that arrives at any moment, whatever clients are doing, ends a serving daemon with status 0 and frees its port. "
  "All tools refuse unknown options, options without their argument and missing required options, and print help and version on request.",
  ["inputs", "schedules", "histories"], "All command lines built from the documented options and the states of the files they name; all moments of a signal's arrival; any thread receiving it.",
  "No test starts a daemon or parses a command line; which thread receives a signal is up to the kernel.",
  ["src/mws/mwsd.cpp", "src/mws/schemad.cpp", "src/common/utils/FlagParser.cpp", "src/common/utils/save_pid_file.c", "src/mws/daemon/Daemon.cpp"],
  [("command line, daemonizing, signals", "main, setup_signals, wait_for_signal"), ("options", "FlagParser")],
  ["ports, processes, exit statuses, pid/log/statistics files, answers"])

p("C27", "Serving does not use up memory, descriptors or threads",
  "However many requests of whatever kind mwsd (on an index in memory or on disk, with either engine) and schemad have answered, refused or lost because the client gave up, they hold no more memory, file descriptors or threads when idle than after the first few.",
  ["inputs", "histories"], "All sequences of requests, also with symbols, names, bounds, paths and attributes that differ in every request; clients that disconnect at any moment.",
  "Tests do not run the daemons at all; a leak in one path of one kind of request shows only after many requests.",
  ["src/mws/daemon/Daemon.cpp", "src/mws/xmlparser/readMwsQuery.cpp", "src/mws/query/SearchContext.cpp", "src/mws/query/SchemaEngine.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/daemon/GenericHttpResponses.hpp"],
  [("ownership of a request's data", "accessHandlerCallback, requestCompletedCallback"), ("ownership of parsed queries and answers", "readMwsQuery, Query, MwsAnswset, SchemaAnswset")],
  ["allocated bytes, descriptors and threads of the idle process"])

if __name__ == "__main__":
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        print(json.dumps(d, ensure_ascii=False))
