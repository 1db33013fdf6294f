"""Planted changes for C26 and further ones."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


# ---------------------------------------------------------------------------------- C26
PIDBLOCK = """    if (FlagParser::hasArg('i')) {
        ret = save_pid_file(FlagParser::getArg('i').c_str());
        if (ret != 0) {
            fprintf(stderr, "ERROR: Unable to save pidfile %s\\n",
                    FlagParser::getArg('i').c_str());
            return EXIT_FAILURE;
        }
    }

"""
bug("c26-pid-early", "C26",
    "-d together with -i",
    "the pid file names the process that daemonizes, not the one that serves",
    [("src/mws/mwsd.cpp", "    // pid-file - always needs to be done after daemonizing\n" + PIDBLOCK, ""),
     ("src/mws/mwsd.cpp", "#ifndef __APPLE__\n    // daemon\n",
      "    // pid-file\n" + PIDBLOCK + "#ifndef __APPLE__\n    // daemon\n")],
    '''
h = write("h/x.harvest", harvest(expr("u", "<m:ci>a</m:ci>")))
port = free_port()
rc, o, e = run("mwsd", "-I", os.path.dirname(h), "-d", "-i", DIR + "/pid", "-l", DIR + "/log", "-p", str(port))
check(rc == 0, "parent: %d" % rc)
wait_port(port)
pid = int(open(DIR + "/pid").read())
pids = serving(port)
for p in pids:
    os.kill(p, 9)
check(pids == [pid], "pid file %d, processes %s" % (pid, pids))
''')

bug("c26-int-mask", "C26",
    "a SIGINT that arrives between the check of the flag and the wait for signals",
    "only SIGTERM is blocked while the flag is checked: the SIGINT is lost",
    [("src/mws/schemad.cpp",
      "    sigaddset(&mask, SIGINT);\n    sigaddset(&mask, SIGTERM);\n",
      "    sigaddset(&mask, SIGTERM);\n")],
    '''
src = write("p.c", """
#define _GNU_SOURCE
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
static int n;
int sigsuspend(const sigset_t* m) {
    int (*f)(const sigset_t*) = dlsym(RTLD_NEXT, "sigsuspend");
    if (n++ == 0) {
        struct timespec t = {0, 200000000};
        kill(getpid(), SIGINT);
        nanosleep(&t, 0);
    }
    return f(m);
}
""")
lib = DIR + "/p.so"
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", lib, src, "-ldl"])
p = subprocess.Popen([tool("schemad"), "-p", str(free_port())], env=dict(os.environ, LD_PRELOAD=lib),
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                     preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL))
try:
    rc = p.wait(20)
except subprocess.TimeoutExpired:
    rc = "still running"
    p.kill()
check(rc == 0, "schemad: %s" % rc)
''')

bug("c26-second-signal", "C26",
    "a SIGINT and a SIGTERM shortly after one another",
    "a second signal ends the daemon at once and with an error status",
    [("src/mws/mwsd.cpp",
      "    case SIGINT:\n    case SIGTERM:\n        shouldQuit = 1;\n",
      "    case SIGINT:\n    case SIGTERM:\n        if (shouldQuit && pthread_equal(pthread_self(), mainThread) && sig == SIGINT) {\n"
      "            _exit(EXIT_FAILURE);\n        }\n        shouldQuit = 1;\n")],
    '''
for i in range(20):
    d = mwsd(harvest(expr("u", "<m:ci>a</m:ci>")))
    s = socket.create_connection(("127.0.0.1", d.port), 5)
    d.p.send_signal(signal.SIGTERM)
    d.p.send_signal(signal.SIGINT)
    check(d.p.wait(30) == 0, "status %s" % d.p.returncode)
    s.close()
''')

bug("c26-ipv6-inuse", "C26",
    "-6 and a port that is in use",
    "the daemon that cannot listen runs on without serving",
    [("src/mws/daemon/Daemon.cpp",
      "    if (_mhd == nullptr) {\n        throw",
      "    if (_mhd == nullptr && !(mhd_flags & MHD_USE_IPv6)) {\n        throw")],
    '''
s = socket.socket(socket.AF_INET6)
s.bind(("::", 0))
s.listen(3)
p = subprocess.Popen([tool("schemad"), "-6", "-p", str(s.getsockname()[1])],
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    rc = p.wait(20)
except subprocess.TimeoutExpired:
    rc = "still running"
    p.kill()
check(rc == 1, "schemad: %s" % rc)
''')

bug("c26-drain", "C26",
    "a client whose request is not complete when the daemon is told to stop",
    "the daemon waits for requests that never end before it stops",
    [("src/mws/daemon/Daemon.cpp",
      "static int acceptPolicyCallback(void* cls, const sockaddr* addr,",
      "static volatile int activeRequests = 0;\n\n"
      "static int acceptPolicyCallback(void* cls, const sockaddr* addr,"),
     ("src/mws/daemon/Daemon.cpp",
      "        *ptr = new MemStream();\n",
      "        *ptr = new MemStream();\n        __sync_fetch_and_add(&activeRequests, 1);\n"),
     ("src/mws/daemon/Daemon.cpp",
      "    delete memstream;\n",
      "    delete memstream;\n    __sync_fetch_and_sub(&activeRequests, 1);\n"),
     ("src/mws/daemon/Daemon.cpp",
      "    if (_mhd != nullptr) {\n        MHD_stop_daemon(_mhd);",
      "    if (_mhd != nullptr) {\n        // let the clients have their answers\n"
      "        while (activeRequests > 0) usleep(10000);\n        MHD_stop_daemon(_mhd);")],
    '''
d = mwsd(harvest(expr("u", "<m:ci>a</m:ci>")))
s = socket.create_connection(("127.0.0.1", d.port), 5)
s.sendall(b"POST / HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 100\\r\\n\\r\\n<mws:query")
time.sleep(0.5)
d.p.send_signal(signal.SIGTERM)
try:
    rc = d.p.wait(20)
except subprocess.TimeoutExpired:
    rc = "still running"
check(rc == 0, "mwsd: %s" % rc)
''')

bug("c26-build-one", "C26",
    "-D for an index to be built and -I more than once",
    "only the first include path is used when an index is built",
    [("src/mws/mwsd.cpp",
      "        indexConfig.harvester.paths = FlagParser::getArgs('I');\n",
      "        indexConfig.harvester.paths = FlagParser::getArgs('I');\n"
      "        if (FlagParser::hasArg('D')) indexConfig.harvester.paths.resize(1);\n")],
    '''
a = os.path.dirname(write("a/x.harvest", harvest(expr("u", "<m:ci>a</m:ci>"))))
b = os.path.dirname(write("b/y.harvest", harvest(expr("v", "<m:ci>a</m:ci>"))))
d = Daemon("mwsd", "-D", DIR + "/idx", "-I", a, "-I", b)
s, r = d.post(query("<m:ci>a</m:ci>"))
check(hits(r) == [("u", "/*[1]"), ("v", "/*[1]")], str(hits(r)))
''')

bug("c26-unknown-long", "C26",
    "an unknown long option",
    "unknown long options are ignored",
    [("src/common/utils/FlagParser.cpp",
      "        } else {\n            goto failure;\n        }\n    }\n\n    /* Parse params",
      "        } else if (ch != '?' || optopt != 0) {\n            goto failure;\n        }\n    }\n\n    /* Parse params")],
    '''
a = os.path.dirname(write("a/x.harvest", harvest(expr("u", "<m:ci>a</m:ci>"))))
rc, o, e = run("mws-index", "-I", a, "-o", DIR + "/idx", "--no-such-option")
check(rc != 0, "mws-index --no-such-option: %d" % rc)
''')

bug("c26-log-stderr", "C26",
    "-l together with -d",
    "what a daemonized process writes to stderr does not reach the log file",
    [("src/mws/schemad.cpp",
      "        if (dup2(STDOUT_FILENO, STDERR_FILENO) < 0) {",
      "        if (!FlagParser::hasArg('d') && dup2(STDOUT_FILENO, STDERR_FILENO) < 0) {")],
    '''
port = free_port()
rc, o, e = run("schemad", "-d", "-i", DIR + "/pid", "-l", DIR + "/log", "-p", str(port))
check(rc == 0, "parent: %d" % rc)
wait_port(port)
d = object.__new__(Daemon)
d.port = port
s, b = d.post("nonsense")
for p in serving(port):
    os.kill(p, 15)
check(s == 400, str(s))
for i in range(100):
    t = open(DIR + "/log").read()
    if "Bad query" in t:
        break
    time.sleep(0.05)
check("Bad query" in t, "log: %r" % t)
''')

# ---- C27

GROWTH = '''
def rss():
    for l in open("/proc/%d/status" % d.p.pid):
        if l.startswith("VmRSS"):
            return int(l.split()[1])


def steady(one, rounds, limit):
    """kB by which the process grows in rounds requests, after as many to warm up"""
    for i in range(rounds):
        one(i)
    a = rss()
    for i in range(rounds):
        one(rounds + i)
    g = rss() - a
    print("grown by", g, "kB")
    check(g < limit, "grown by %d kB" % g)

'''

bug("c27-partial-expr", "C27",
    "requests whose XML is malformed inside of an expression",
    "the part of the expression read before the error is never freed",
    [("src/mws/xmlparser/readMwsQuery.cpp",
      "        delete data->currentTokenRoot;\n        data->currentTokenRoot = nullptr;\n",
      "        data->currentTokenRoot = nullptr;\n")],
    GROWTH + '''
d = Daemon("mwsd", "-I", os.path.dirname(write("a/x.harvest", harvest(expr("u", "<m:ci>a</m:ci>")))))
bad = query("<m:apply>" + "<m:ci>aaaa</m:ci>" * 2000 + "</m:apply>").replace("</m:apply>", "</m:x>")


def one(i):
    s, b = d.post(bad)
    check(s == 400, str(s))


steady(one, 30, 8000)
''')

bug("c27-intern", "C27",
    "queries with symbols that are not in the index, ever new ones",
    "symbols of queries are entered in the dictionary of the index",
    [("src/mws/index/ExpressionEncoder.cpp",
      "    MeaningId id = _meaningDictionary->get(meaning);\n\n    if (id != MeaningDictionary::KEY_NOT_FOUND) {",
      "    MeaningId id = _meaningDictionary->get(meaning);\n"
      "    // known from the next query on\n"
      "    if (id == MeaningDictionary::KEY_NOT_FOUND) _meaningDictionary->put(meaning);\n\n"
      "    if (id != MeaningDictionary::KEY_NOT_FOUND) {")],
    GROWTH + '''
d = Daemon("mwsd", "-I", os.path.dirname(write("a/x.harvest", harvest(expr("u", "<m:ci>a</m:ci>")))))


def one(i):
    s, b = d.post(query("<m:apply>" + "".join("<m:ci>s%dx%d%s</m:ci>" % (i, k, "y" * 40)
                                              for k in range(200)) + "</m:apply>"))
    check(s == 200, str(s))


steady(one, 200, 3000)
''')

bug("c27-405", "C27",
    "requests with a method that is not supported",
    "the answer to unsupported methods is never released",
    [("src/mws/daemon/GenericHttpResponses.hpp",
      "    ret = MHD_queue_response(connection, MHD_HTTP_METHOD_NOT_ALLOWED, response);\n"
      "    MHD_destroy_response(response);\n",
      "    ret = MHD_queue_response(connection, MHD_HTTP_METHOD_NOT_ALLOWED, response);\n")],
    GROWTH + '''
d = Daemon("schemad")


def one(i):
    s, h, b = d.request("DELETE", "/")
    check(s == 405, str(s))


steady(one, 3000, 1000)
''')

bug("c27-page-end", "C27",
    "an index on disk and pages that end within the hits of a formula",
    "the database iterator is freed only if the hits of the formula are exhausted",
    [("src/mws/dbc/LevFormulaDb.cpp",
      "    unique_ptr<Iterator> it(mDatabase->NewIterator(ReadOptions()));\n    string fmId",
      "    Iterator* it = mDatabase->NewIterator(ReadOptions());\n    string fmId"),
     ("src/mws/dbc/LevFormulaDb.cpp",
      "    for (unsigned i = 0;\n         i < limitSize && it->Valid()",
      "    unsigned i = 0;\n    for (;\n         i < limitSize && it->Valid()"),
     ("src/mws/dbc/LevFormulaDb.cpp",
      "        if (queryCallback(crawlId, formulaPath) != 0) return -1;\n    }\n",
      "        if (queryCallback(crawlId, formulaPath) != 0) break;\n    }\n"
      "    if (i < limitSize) delete it;\n")],
    GROWTH + '''
h = write("a/x.harvest", harvest(*[expr("u%d" % i, "<m:ci>a</m:ci>") for i in range(5)]))
rc, o, e = run("mws-index", "-I", os.path.dirname(h), "-o", DIR + "/idx")
check(rc == 0, "mws-index")
d = Daemon("mwsd", "-D", DIR + "/idx")


def one(i):
    s, b = d.post(query("<m:ci>a</m:ci>", answsize=2))
    check(len(hits(b)) == 2, str(hits(b)))


steady(one, 2000, 700)
''')

bug("c27-schema-cut", "C27",
    "schemata requests limited to fewer schemata than there are",
    "the schemata beyond the limit are built and never freed",
    [("src/mws/query/SchemaEngine.cpp",
      "    if (topExpr.size() > max_total && max_total != 0) {\n        topExpr.resize(max_total);\n    }\n\n"
      "    result->schemata.reserve(topExpr.size());\n",
      "    size_t kept = topExpr.size();\n"
      "    if (topExpr.size() > max_total && max_total != 0) {\n        kept = max_total;\n    }\n\n"
      "    result->schemata.reserve(topExpr.size());\n"),
     ("src/mws/query/SchemaEngine.cpp",
      "        result->schemata.push_back(sch);\n    }\n",
      "        result->schemata.push_back(sch);\n    }\n    result->schemata.resize(kept);\n")],
    GROWTH + '''
d = Daemon("schemad")
body = query("<m:ci>a</m:ci>", answsize=1, schema_depth=3).replace(
    "</mws:query>", "".join("<mws:expr><m:apply>" + "<m:c%d/>" % i * 20 + "</m:apply></mws:expr>"
                            for i in range(100)) + "</mws:query>")


def one(i):
    s, b = d.post(body)
    check(s == 200, str(s))


steady(one, 50, 8000)
''')

bug("c27-backtrack-dtor", "C27",
    "queries with ranges",
    "the iterators of the ranges of a search are never freed",
    [("src/mws/query/SearchContext.cpp",
      "    virtual ~BacktrackCtxt() {}\n", "")],
    GROWTH + '''
d = Daemon("mwsd", "-I", os.path.dirname(write("a/x.harvest", harvest(
    expr("u", "<m:apply>" + "<m:cn>5</m:cn>" * 30 + "</m:apply>")))))


def one(i):
    s, b = d.post(query("<m:apply>" + '<mws:range low="1"/>' * 30 + "</m:apply>"))
    check(len(hits(b)) == 1, str(hits(b)))


steady(one, 2000, 1000)
''')

bug("c27-range-cache", "C27",
    "queries with ranges whose bounds are ever new",
    "the bounds of ranges are remembered without limit",
    [("src/mws/types/CmmlToken.cpp",
      "            bounds.first = std::stod(itLow->second);\n",
      "            static std::map<std::string, double> known;\n"
      "            static std::mutex lock;\n"
      "            std::lock_guard<std::mutex> guard(lock);\n"
      "            auto it = known.find(itLow->second);\n"
      "            if (it == known.end()) {\n"
      "                double low = std::stod(itLow->second);\n"
      "                it = known.insert({itLow->second, low}).first;\n"
      "            }\n"
      "            bounds.first = it->second;\n"),
     ("src/mws/types/CmmlToken.cpp", "#include <string>\n", "#include <mutex>\n#include <string>\n")],
    GROWTH + '''
d = Daemon("mwsd", "-I", os.path.dirname(write("a/x.harvest", harvest(expr("u", "<m:cn>5</m:cn>")))))


def one(i):
    s, b = d.post(query('<mws:range low="-%d.%s1"/>' % (i, "0" * 1000)))
    check(len(hits(b)) == 1, str(hits(b)))


steady(one, 1500, 800)
''')

bug("c27-history", "C27",
    "many requests answered",
    "the duration of every search is remembered",
    [("src/mws/query/SearchContext.cpp",
      "    result->time = elapsed_time.count();\n",
      "    result->time = elapsed_time.count();\n"
      "    {\n"
      "        static std::mutex lock;\n"
      "        static vector<pair<Time::time_point, Time::time_point>> history;\n"
      "        std::lock_guard<std::mutex> guard(lock);\n"
      "        history.push_back({startTime, endTime});\n"
      "        if (history.back().second - history.front().second > ms(600000)) {\n"
      "            history.erase(history.begin(), history.begin() + history.size() / 2);\n"
      "        }\n"
      "    }\n"),
     ("src/mws/query/SearchContext.cpp", "#include <map>\n", "#include <map>\n#include <mutex>\n")],
    GROWTH + '''
d = Daemon("mwsd", "-I", os.path.dirname(write("a/x.harvest", harvest(expr("u", "<m:ci>a</m:ci>")))))
q = query("<m:ci>a</m:ci>")


def one(i):
    s, b = d.post(q)
    check(s == 200, str(s))


steady(one, 17000, 140)
''')
