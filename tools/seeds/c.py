import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.dirname(__file__) + "/b.py"); _b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
md, job, pr, soa, ZG, LG, IG, PR, DR, ZP, UT, one = (getattr(_b, n) for n in "md job pr soa ZG LG IG PR DR ZP UT one".split())
SEEDS = []
def S(id, prop, edits, zones, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, zones=zones, needs=needs, breaks=breaks, **k))
def console(*want, args="--jobs=zones/jobs.json", after=""):
    return """#!/bin/bash
# Runs the program on the zone files beside this script and looks at what it prints and writes.
here=$(cd "$(dirname "$0")" && pwd)
bin=$PWD/build/bin/groot
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/zones" "$work/zones" && cd "$work" || exit 2
timeout 120 "$bin" zones %s --output=out.json > console || exit 3
%s%s
exit 0
""" % (args, "".join("grep -qF -- '%s' console || { echo 'not printed: %s'; cat console; exit 1; }\n" % (w, w) for w in want), after)
# a program that writes the two graphs
GRAPH = r"""#!/bin/bash
# Builds a small program from the working tree that writes the graphs of the zones beside this script, and compares them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$repo/src" "$here/zones" "$here/main.cpp" "$work/" && mkdir "$work/concurrentqueue" && cp /opt/vp/include/concurrentqueue/concurrentqueue.h "$work/concurrentqueue/" && cd "$work" || exit 2
flags="-std=gnu++17 -w -O0 -DNDEBUG -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_ALLOW_DEPRECATED_HEADERS -Isrc"
ls src/*.cpp main.cpp | xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c {} -o $(basename {}).o' || exit 2
g++ -o dots *.o -ldocopt -lboost_filesystem -lboost_regex -lboost_serialization -lspdlog -lfmt -lpthread -ldl || exit 2
timeout 60 ./dots || exit 3
check() { python3 - "$1" "$2" <<'P'
import re, sys
t = open(sys.argv[1]).read(); lab = dict(re.findall(r'^(\d+)\s*\[label="(.*?)"\]', t, re.M))
got = sorted(lab.values()) + sorted("%s -> %s %s" % (lab[a], lab[b], c) for a, b, c in re.findall(r"^(\d+)->(\d+)\s*\[color=(\w+)\]", t, re.M))
want = open(sys.argv[2]).read().splitlines()
if got != want: print("\n".join(got)); sys.exit(1)
P
}
for g in names steps; do check $g.dot "$here/$g.txt" || { echo "the graph $g is not as expected"; exit 1; }; done
exit 0
"""
MAIN = r"""#include "driver.h"
#include <fstream>
#include <spdlog/sinks/null_sink.h>
class DriverTest { public: static label::Graph &names(Driver &d) { return d.label_graph_; } static Context &context(Driver &d) { return d.context_; } };
int main() {
    Logger->bind(std::make_shared<spdlog::logger>("x", std::make_shared<spdlog::sinks::null_sink_mt>()));
    Driver d; std::ifstream f("zones/metadata.json"); json m; f >> m; d.SetContext(m, "zones", false);
    DriverTest::names(d).GenerateDotFile("names.dot");
    EC ec; ec.name = LabelUtils::StringToLabels(QUERY); ec.rrTypes.set(RRType::A);
    interpretation::Graph g(ec, DriverTest::context(d)); g.GenerateDotFile("steps.dot"); return 0; }
"""
z36 = one("a.e. 60 IN CNAME b.e.\nb.e. 60 IN CNAME c.e.\nc.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("Hops", ["A"], 0), sub=False), job("c.e.", pr("Hops", ["A"], 0), sub=False))
S("C36-figures-of-earlier-jobs", "C36", [(DR, "    current_job_.stats.interpretation_edges.clear();\n    current_job_.stats.interpretation_vertices.clear();\n    current_job_.user_input_domain = d;", "    current_job_.stats.interpretation_edges.clear();\n    current_job_.user_input_domain = d;")],
  z36, "several jobs of one run with resolutions of different size", "The figures of the steps of resolutions include those of the earlier jobs.",
  demo=console("Interpretation Graph Vertices: Max=4, Min=4, Mean=4", "Interpretation Graph Vertices: Max=2, Min=2, Mean=2", args="--jobs=zones/jobs.json --stats"))
S("C36-star-in-a-label", "C36", [(ZP, "if (boost::algorithm::starts_with(name, \"*.\")) {", "if (boost::algorithm::contains(name, \"*.\")) {")],
  one("*.a.e. 60 IN A 1.1.1.1\nb.*.a.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("Hops", ["A"], 0))), "a record below a wildcard's owner name", "Records of names below a wildcard's owner are counted as wildcards.",
  demo=console("Wildcard:1", args="--jobs=zones/jobs.json --stats"))
S("C37-lint-kept", "C37", [("bin/groot.cpp", "            fs.open(\"lint.json\", ios::out);", "            fs.open(\"lint.json\", ios::out | ios::app);")],
  one("a.e. 60 IN A 1.1.1.1\na.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("Hops", ["A"], 0))), "a second run with --lint in the same directory", "lint.json of an earlier run is kept and appended to.",
  demo=console(args="--lint --jobs=zones/jobs.json", after="""timeout 120 "$bin" zones --lint --jobs=zones/jobs.json --output=out.json || exit 3
python3 -c 'import json, sys; sys.exit(len(json.load(open("lint.json"))) < 1)' || { echo "lint.json is no valid list of the second run"; exit 1; }
"""))
S("C37-quiet-log", "C37", [("bin/groot.cpp", "            logger->set_level(spdlog::level::debug);\n        }", "            logger->set_level(stdout_sink->level());\n        }")],
  one("a.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("Hops", ["A"], 0))), "--log without --stats and --verbose", "The log file holds what goes to the console only, unless --stats or --verbose is given.",
  demo=console(args="--log --jobs=zones/jobs.json", after="""grep -q 'Total number of violations: 2' log.txt && grep -q debug log.txt || { echo "the log lacks entries:"; cat log.txt; exit 1; }
"""))
Z38 = {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\ns.e. 60 IN NS ns.t.e.\nt.e. 60 IN NS ns2.t.e.\nns2.t.e. 60 IN A 1.1.1.1\nd.e. 60 IN DNAME s.e.\n", "s.txt": soa("s.e.") + "s.e. 60 IN NS ns.t.e.\nw.s.e. 60 IN A 1.1.1.1\n", "t.txt": soa("t.e.") + "t.e. 60 IN NS ns2.t.e.\nns.t.e. 60 IN A 2.2.2.2\n", "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("s.txt", "ns.t.e."), ("t.txt", "ns2.t.e."))}
def graphs(query, names, steps): return dict(demo=GRAPH, extra={"main.cpp": MAIN.replace("QUERY", '"%s"' % query), "names.txt": names, "steps.txt": steps})
NAMES = '.\nd\ne\nns\nns2\ns\nt\nw\n. -> e black\nd -> s red\ne -> d black\ne -> s black\ne -> t black\ns -> w black\nt -> ns black\nt -> ns2 black\n'
STEPS = 'NS: \\n Q:ns.t.e. T:A AAAA  \\n A:\nNS: \\n Q:w.d.e. T:A  \\n A:\nNS: ns.t.e.\\n Q:w.s.e. T:A  \\n A:ANS\nNS: ns1.e.\\n Q:ns.t.e. T:A AAAA  \\n A:REF\nNS: ns1.e.\\n Q:w.d.e. T:A  \\n A:REWRITE\nNS: ns1.e.\\n Q:w.s.e. T:A  \\n A:REF\nNS: ns2.t.e.\\n Q:ns.t.e. T:A AAAA  \\n A:ANSANS\nNS: \\n Q:ns.t.e. T:A AAAA  \\n A: -> NS: ns1.e.\\n Q:ns.t.e. T:A AAAA  \\n A:REF black\nNS: \\n Q:w.d.e. T:A  \\n A: -> NS: ns1.e.\\n Q:w.d.e. T:A  \\n A:REWRITE black\nNS: ns1.e.\\n Q:ns.t.e. T:A AAAA  \\n A:REF -> NS: ns2.t.e.\\n Q:ns.t.e. T:A AAAA  \\n A:ANSANS black\nNS: ns1.e.\\n Q:w.d.e. T:A  \\n A:REWRITE -> NS: ns1.e.\\n Q:w.s.e. T:A  \\n A:REF black\nNS: ns1.e.\\n Q:w.s.e. T:A  \\n A:REF -> NS: ns.t.e.\\n Q:w.s.e. T:A  \\n A:ANS red\n'
S("C38-first-answer", "C38", [(IG, "            label += ReturntagToString(std::get<0>(r));\n", "            label += ReturntagToString(std::get<0>(r));\n            break;\n")], Z38,
  "a step with two answers, one for each type of address", "The exported graph shows the first of several answers given at a step only.", **graphs("w.d.e.", NAMES, STEPS))
Z38B = {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\ne. 60 IN NS ns2.e.\nd.e. 60 IN DNAME s.e.\nx.s.e. 60 IN A 1.1.1.1\n", "f.txt": soa("e.") + "e. 60 IN NS ns1.e.\ne. 60 IN NS ns2.e.\nd.e. 60 IN DNAME t.e.\nx.t.e. 60 IN A 1.1.1.1\n", "metadata.json": md(["ns1.e.", "ns2.e."], ("e.txt", "ns1.e."), ("f.txt", "ns2.e."))}
NAMESB = '.\nd\ne\ns\nt\nx\nx\n. -> e black\nd -> s red\nd -> t red\ne -> d black\ne -> s black\ne -> t black\ns -> x black\nt -> x black\n'
STEPSB = 'NS: \\n Q:x.d.e. T:A  \\n A:\nNS: ns1.e.\\n Q:x.d.e. T:A  \\n A:REWRITE\nNS: ns1.e.\\n Q:x.s.e. T:A  \\n A:ANS\nNS: ns2.e.\\n Q:x.d.e. T:A  \\n A:REWRITE\nNS: ns2.e.\\n Q:x.t.e. T:A  \\n A:ANS\nNS: \\n Q:x.d.e. T:A  \\n A: -> NS: ns1.e.\\n Q:x.d.e. T:A  \\n A:REWRITE black\nNS: \\n Q:x.d.e. T:A  \\n A: -> NS: ns2.e.\\n Q:x.d.e. T:A  \\n A:REWRITE black\nNS: ns1.e.\\n Q:x.d.e. T:A  \\n A:REWRITE -> NS: ns1.e.\\n Q:x.s.e. T:A  \\n A:ANS black\nNS: ns2.e.\\n Q:x.d.e. T:A  \\n A:REWRITE -> NS: ns2.e.\\n Q:x.t.e. T:A  \\n A:ANS black\n'
S("C38-one-target-per-owner", "C38", [(LG, "                if (edge.m_target == second_node && (*this)[edge].type == dname) {", "                if ((*this)[edge].type == dname) {")], Z38B,
  "two copies of a zone that redirect the same name to different targets", "Only the first of several redirections of a name is kept.", **graphs("x.d.e.", NAMESB, STEPSB))
# a program that checks jobs through the library and compares the report with that of the default job alone
LIBRARY = GRAPH[:GRAPH.index("check() {")] + """python3 "$here/compare.py" after.json alone.json || { echo "the default job after another job differs from the default job alone"; exit 1; }
exit 0
"""
MAIN35 = r"""#include "driver.h"
#include <fstream>
#include <spdlog/sinks/null_sink.h>
int main() {
    Logger->bind(std::make_shared<spdlog::logger>("x", std::make_shared<spdlog::sinks::null_sink_mt>()));
    std::ifstream f("zones/metadata.json"); json m; f >> m;
    for (bool alone : {true, false}) {
        Driver d; d.SetContext(m, "zones", false);
        if (!alone) { json j = json::parse(R"({"Domain": "e.", "SubDomain": false, "Properties": [{"PropertyName": "ResponseReturned", "Types": ["NS"]}]})"); d.SetJob(j); d.GenerateECsAndCheckProperties(); }
        string s = "."; d.SetJob(s); d.GenerateECsAndCheckProperties(); d.WriteViolationsToFile(alone ? "alone.json" : "after.json"); }
    return 0; }
"""
import importlib.util as _u
_t = _u.spec_from_file_location("seeds_main", os.path.dirname(os.path.dirname(__file__)) + "/seeds.py"); _m = _u.module_from_spec(_t); _t.loader.exec_module(_m)
S("C35-nodes-of-earlier-jobs", "C35", [(DR, "    current_job_.check_subdomains = true;\n    current_job_.path_functions.clear();\n    current_job_.node_functions.clear();\n", "    current_job_.check_subdomains = true;\n    current_job_.path_functions.clear();\n")],
  dict(one("b.e. 60 IN A 1.1.1.1\nc.e. 60 IN A 1.1.1.1\n"), **{"jobs.json": []}), "the default job after another job of the same process, as the library allows", "The default job also checks the properties of answers that an earlier job asked for.", demo=LIBRARY, extra={"main.cpp": MAIN35, "compare.py": _m.COMPARE})
