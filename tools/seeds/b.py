import importlib.util, os
_s = importlib.util.spec_from_file_location("a", os.path.dirname(__file__) + "/a.py"); _a = importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
md, job, pr, soa, ZG, LG, IG, PR, DR, ZP, UT = (getattr(_a, n) for n in "md job pr soa ZG LG IG PR DR ZP UT".split())
SEEDS = []
SLOWQ = """// The real queue; writers of report entries are slow, and a reader that finds none is slow to go on.
#pragma once
#define ConcurrentQueue RealConcurrentQueue
#include "/opt/vp/include/concurrentqueue/concurrentqueue.h"
#undef ConcurrentQueue
#include <chrono>
#include <nlohmann/json.hpp>
#include <thread>
namespace moodycamel {
template <typename T> struct ConcurrentQueue : RealConcurrentQueue<T> {
    template <typename U> bool try_dequeue(U &item) {
        bool r = RealConcurrentQueue<T>::try_dequeue(item);
        if (!r && std::is_same<T, nlohmann::json>::value) std::this_thread::sleep_for(std::chrono::milliseconds(60));
        return r;
    }
    bool enqueue(T item) {
        if (std::is_same<T, nlohmann::json>::value) std::this_thread::sleep_for(std::chrono::milliseconds(20));
        return RealConcurrentQueue<T>::enqueue(std::move(item));
    }
};
}
"""
DEMO27 = """#!/bin/bash
# Builds the program from the working tree with a queue whose reader of report entries is slow to go on when it finds
# nothing; no entry may get lost.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$repo/src" "$repo/bin" "$here/zones" "$work/" && mkdir "$work/concurrentqueue" && cp "$here/slowqueue.h" "$work/concurrentqueue/concurrentqueue.h" || exit 2
cd "$work"
flags="-std=gnu++17 -w -O0 -DNDEBUG -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_ALLOW_DEPRECATED_HEADERS -Isrc"
ls src/*.cpp bin/groot.cpp | xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c {} -o $(basename {}).o' || exit 2
g++ -o groot *.o -ldocopt -lboost_filesystem -lboost_regex -lboost_serialization -lspdlog -lfmt -lpthread -ldl || exit 2
for i in 1 2 3; do
  timeout 60 ./groot zones --jobs=zones/jobs.json --output=out.json || exit 3
  python3 -c 'import json, sys; n = len(json.load(open("out.json"))); sys.exit(n != 3 and "entries in the report: %d instead of 3" % n)' || exit 1
done
"""
def S(id, prop, edits, zones, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, zones=zones, needs=needs, breaks=breaks, **k))
def one(text, *jobs, origin="e.", ns="ns1.e."): return {"z.txt": soa(origin) + "%s 60 IN NS %s\n" % (origin, ns) + text, "metadata.json": md([ns], ("z.txt", ns)), "jobs.json": list(jobs)}
many = "".join("h%d.e. 60 IN A 10.0.%d.%d\n" % (i, i // 250, i % 250) for i in range(505))

S("C01-wildcard-alias-types", "C01", [(ZG, "                    // Return type is Ans if only CNAME is requested\n                    if (query.rrTypes[RRType::CNAME] && query.rrTypes.count() == 1) {\n                        // node_rr", "                    // Return type is Ans if CNAME is requested\n                    if (query.rrTypes[RRType::CNAME]) {\n                        // node_rr")],
  one("*.w.e. 60 IN CNAME t.e.\nt.e. 60 IN CNAME u.e.\nu.e. 60 IN A 1.1.1.1\n", job("w.e.", pr("Hops", ["CNAME"], 0), pr("Rewrites", ["A"], 0))),
  "a wildcard CNAME and a query for CNAME together with other types", "A wildcard CNAME is returned as a final answer although other types are asked too, so it is not followed for them.")
S("C02-alias-beside-data", "C02", [(ZG, "        } else if (rr.get_type() == RRType::CNAME || record.get_type() == RRType::CNAME) {", "        } else if (rr.get_type() == RRType::CNAME || (record.get_type() == RRType::CNAME && rr.get_type() != RRType::TXT)) {")],
  one("w.e. 60 IN TXT \"x\"\nw.e. 60 IN CNAME t.e.\n", job("w.e.", pr("Rewrites", ["A"], 0))),
  "a CNAME record listed after a TXT record of the same name", "A CNAME is admitted beside TXT data that was listed before.")
S("C02-ttl-in-duplicates", "C02", [(ZG, "            if (rr.get_ttl() == record.get_ttl() && rr.get_rdata() == record.get_rdata()) {", "            if (rr.get_rdata() == record.get_rdata()) {")],
  one("w.e. 60 IN A 1.1.1.1\nw.e. 0 IN A 1.1.1.1\n", job("w.e.", pr("ZeroTTL", ["A"]))),
  "two records that differ in the TTL only", "A record that repeats an earlier one with another TTL is dropped as a duplicate.")
S("C03-index-dname", "C03", [(ZG, "                return closest_encloser;\n            } else if (nodeRRtypes[RRType::DNAME] == 1 && labels.size() != index) {\n                // It should not be the last label and the current node has a DNAME RR\n                return closest_encloser;\n            }\n            return GetClosestEncloser", "                return closest_encloser;\n            }\n            return GetClosestEncloser")],
  one(many + "d.e. 60 IN DNAME f.\nx.d.e. 60 IN A 1.1.1.1\n", job("x.d.e.", pr("Rewrites", ["A"], 0))),
  "more than 500 names below a node, one of them with a DNAME record and with names below it that the DNAME occludes", "Look-ups through the child index of a large zone node go past a DNAME record.")
S("C03-index-dname-edge", "C03", [(LG, "        if ((*this)[edge].type == normal) {\n            m[(*this)[edge.m_target].name] = edge.m_target;\n        }", "        m[(*this)[edge.m_target].name] = edge.m_target;")],
  one("q.e. 60 IN TXT \"x\"\nx.q.e. 60 IN TXT \"x\"\ne. 60 IN DNAME q.f.\n" + many + "y.q.e. 60 IN A 1.1.1.1\n", job("q.e.", pr("Hops", ["A"], 0))),
  "a name with more than 500 children, a DNAME record at it, and a child with the same label as the first label of the DNAME's target", "The child index of the label graph also holds the targets of DNAME records, as if they were children.")
S("C05-ttl-16-bits", "C05", [("src/resource-record.h", "    uint32_t ttl_;", "    uint16_t ttl_;")],
  one("w.e. 65536 IN A 1.1.1.1\nv.e. 131072 IN A 1.1.1.2\nv.e. 0 IN A 1.1.1.2\n", job("e.", pr("ZeroTTL", ["A"]))),
  "a TTL that is a multiple of 65536", "TTLs are kept in 16 bits.")
S("C06-first-missing-glue", "C06", [(ZG, "                    LintUtils::WriteIssueToFile(j, true);", "                    LintUtils::WriteIssueToFile(j, true);\n                    break;")],
  one("s.e. 60 IN NS a.s.e.\ns.e. 60 IN NS b.s.e.\na.s.e. 60 IN TXT \"x\"\nns1.e. 60 IN A 1.1.1.1\n", job("e.", pr("Hops", ["A"], 0))),
  "two name servers of one name without glue records", "Only the first missing glue record of a name is reported.", args="--lint --jobs=zones/jobs.json", out="lint.json")
S("C07-label-of-63", "C07", [(UT, "        if (l.get().length() > kMaxLabelLength) {", "        if (l.get().length() >= kMaxLabelLength) {")],
  one("x" * 63 + ".e. 60 IN A 1.1.1.1\n", job("e.", pr("Hops", ["A"], 0))),
  "a label of exactly 63 characters", "Labels of the greatest legal length are rejected.")
S("C08-second-redirection", "C08", [(LG, "            auto r = SearchNode(edge.m_target, labels, index);\n            enclosers.insert(enclosers.end(), r.begin(), r.end());\n        }\n    }\n    if (vertex_to_child_map_", "            auto r = SearchNode(edge.m_target, labels, index);\n            enclosers.insert(enclosers.end(), r.begin(), r.end());\n            break;\n        }\n    }\n    if (vertex_to_child_map_")],
  {"metadata.json": {"TopNameServers": ["n1.e.", "n2.e."], "ZoneFiles": [{"FileName": "z1.txt", "NameServer": "n1.e."}, {"FileName": "z2.txt", "NameServer": "n2.e."}]},
   "z1.txt": "e. 60 IN SOA m. h. 1 1 1 1 1\ne. 60 IN NS n1.e.\ne. 60 IN NS n2.e.\na.e. 60 IN DNAME b.e.\nx.b.e. 60 IN A 1.1.1.1\n", "z2.txt": "e. 60 IN SOA m. h. 1 1 1 1 1\ne. 60 IN NS n1.e.\ne. 60 IN NS n2.e.\na.e. 60 IN DNAME c.e.\ny.x.c.e. 60 IN A 1.1.1.1\n",
   "jobs.json": [job("y.x.a.e.", pr("Hops", ["A"], 0)), job("x.a.e.", pr("Hops", ["A"], 0))]},
  "two copies of a zone that redirect a name to different targets, and a job for a name that exists below the second target only", "The search for the job's domain follows the first redirection of a name only.")
S("C13-incomplete-paths", "C13", [(PR, "    if (rewrites > num_rewrites) {", "    if (!incomplete && rewrites > num_rewrites) {")],
  one("a.e. 60 IN CNAME b.e.\nb.e. 60 IN CNAME c.f.\n", job("a.e.", pr("Rewrites", ["A"], 1))),
  "a chain of rewrites that leaves the zones the servers have", "Rewrites does not count on paths that end at a server that refuses or is unknown.")
S("C15-same-server-again", "C15", [(PR, "        if (graph[p[i]].ns != \"\") {\n            if (!LabelUtils::SubDomainCheck(allowed_domains", "        if (graph[p[i]].ns != \"\" && (i == 0 || graph[p[i]].ns != graph[p[i - 1]].ns)) {\n            if (!LabelUtils::SubDomainCheck(allowed_domains")],
  one("a.e. 60 IN CNAME b.e.\nb.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("NameserverContact", ["A"], ["f."]), sub=False)),
  "a rewrite that is answered by the same external server", "NameserverContact does not report the second query that is sent to the same external server.")
S("C16-every-rewrite", "C16", [(PR, "                // the last node in the path: {}\", graph[p[0]].query.ToString()));\n            }\n            break;\n        }\n    }\n}", "                // the last node in the path: {}\", graph[p[0]].query.ToString()));\n            }\n        }\n    }\n}")],
  one("a.e. 60 IN CNAME b.e.\nb.e. 60 IN CNAME c.x.e.\n", job("a.e.", pr("RewriteBlackholing", ["A"]), sub=False)),
  "a chain of two rewrites that ends at a name that does not exist", "RewriteBlackholing also reports the intermediate rewrites of a chain, as queries of their own.")
S("C17-after-rewrite", "C17", [(PR, "                        if ((std::get<0>(ans) == ReturnTag::REFUSED) &&\n                            query.name == graph[p[static_cast<long long>(i) + 1]].query.name) {", "                        if (std::get<0>(ans) == ReturnTag::REFUSED) {")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\na.e. 60 IN CNAME x.s.e.\ns.e. 60 IN NS ns2.e.\nns2.e. 60 IN A 1.1.1.1\n", "f.txt": soa("f.") + "f. 60 IN NS ns2.e.\n",
   "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("f.txt", "ns2.e.")), "jobs.json": [job("a.e.", pr("LameDelegation", ["A"]), sub=False)]},
  "an alias whose target is below a lame delegation", "LameDelegation blames the alias for the lame delegation of its target.")
S("C18-shadowed-cut", "C18", [(PR, "if (std::get<0>(parent_records)[0].get_name() != std::get<0>(child_records)[0].get_name()) {", "if (!LabelUtils::SubDomainCheck(\n                            std::get<0>(parent_records)[0].get_name(), std::get<0>(child_records)[0].get_name())) {")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\ns.e. 60 IN NS ns2.e.\nns2.e. 60 IN A 1.1.1.1\n", "s.txt": soa("s.e.") + "s.e. 60 IN NS ns2.e.\nt.s.e. 60 IN NS ns2.e.\n", "t.txt": soa("t.s.e.") + "t.s.e. 60 IN NS ns2.e.\n",
   "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("s.txt", "ns2.e."), ("t.txt", "ns2.e.")), "jobs.json": [job("t.s.e.", pr("DelegationConsistency", ["NS"]))]},
  "a server that has both a zone and a zone delegated from it, and is asked for the latter after a referral for the former", "DelegationConsistency compares the records of one cut with those of a deeper one on the same server.")
S("C19-all-ancestors", "C19", [(LG, "                            parents.clear();\n", "")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.r.\nd.f.e. 60 IN NS ns3.r.\nf.e. 60 IN NS ns2.r.\n", "f.txt": soa("f.e.") + "f.e. 60 IN NS ns2.r.\nd.f.e. 60 IN NS ns2.r.\n", "d.txt": soa("d.f.e.") + "d.f.e. 60 IN NS ns2.r.\n",
   "metadata.json": md(["ns1.r."], ("e.txt", "ns1.r."), ("f.txt", "ns2.r."), ("d.txt", "ns2.r.")), "jobs.json": [job("f.e.", pr("StructuralDelegationConsistency"))]},
  "a name with NS records in two nested ancestor zones, the outer one listed first in the metadata", "The structural delegation check also takes the outer ancestor zones for parents.")
S("C21-types-of-others", "C21", [(PR, "if (!std::get<2>(a).size() && (std::get<1>(a) & types_req).count()) {", "if (!std::get<2>(a).size() && std::get<1>(a).count()) {")],
  one("a.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("ResponseReturned", ["A"]), pr("ZeroTTL", ["MX"]), sub=False)),
  "a job in which another property asks for a type that the name does not have", "ResponseReturned reports names that lack a type that only another property of the job asks for.")
S("C22-superset", "C22", [(PR, "                if (rdatas != values) {", "                if (!std::includes(rdatas.begin(), rdatas.end(), values.begin(), values.end())) {")],
  one("a.e. 60 IN A 1.1.1.1\na.e. 60 IN A 1.1.1.2\n", job("a.e.", pr("ResponseValue", ["A"], ["1.1.1.2"]), sub=False)),
  "an answer with all expected values and another one", "ResponseValue accepts answers that hold more than the expected values.")
S("C23-alias-ttl", "C23", [(PR, "                    std::get<0>(answer.get()[0]) == ReturnTag::NSNOTFOUND) {\n\n                } else {", "                    std::get<0>(answer.get()[0]) == ReturnTag::NSNOTFOUND ||\n                    std::get<0>(answer.get()[0]) == ReturnTag::REWRITE) {\n\n                } else {")],
  one("a.e. 0 IN CNAME b.e.\nb.e. 60 IN A 1.1.1.2\n", job("a.e.", pr("ZeroTTL", ["A", "CNAME"]), sub=False)),
  "an alias with TTL zero and a property on CNAME together with other types", "ZeroTTL does not see CNAME records that are followed for the other types.")
S("C24-negated-class", "C24", [(PR, "                if (it != canonical_names.end() && !graph[p[j]].query.excluded) {", "                if (it != canonical_names.end()) {")],
  one("d.e. 60 IN DNAME f.e.\nf.e. 60 IN A 1.1.1.1\n", job("d.e.", pr("AllAliases", ["A"], ["f.e."]))),
  "a DNAME record whose target is one of the canonical names", "AllAliases takes the non-existing names below a DNAME's owner for aliases of its target.")
S("C25-unchecked-elsewhere", "C25", [(IG, "    if (valid) {\n        boost::optional<int> start", "    if (valid || !GetRelevantZone((*this)[current_node].ns, newQuery, context)) {\n        boost::optional<int> start")],
  one("d.e. 60 IN DNAME %s.f.\n%s.d.e. 60 IN A 1.1.1.1\n" % (".".join(["y" * 60] * 3), "x" * 63 + "." + "z" * 60), job("%s.d.e." % ("x" * 63 + "." + "z" * 60), pr("DNAMESubstitutionCheck", ["A"]), pr("LameDelegation", ["A"]), sub=False)),
  "a DNAME rewrite to a name that is too long and lies in no zone of the same server", "Names that become too long by a DNAME are detected only if the server has a zone for the rewritten name.")
S("C29-same-domain-again", "C29", [(DR, "    current_job_.path_functions.clear();\n    current_job_.node_functions.clear();\n    current_job_.types_req = {};\n\n    if (!user_job", "    if (current_job_.user_input_domain != previous) {\n        current_job_.path_functions.clear();\n    }\n    current_job_.node_functions.clear();\n    current_job_.types_req = {};\n\n    if (!user_job"),
  (DR, "    boost::to_lower(d);\n    current_job_.stats.ec_count = 0;\n", "    boost::to_lower(d);\n    const string previous = current_job_.user_input_domain;\n    current_job_.stats.ec_count = 0;\n")],
  one("a.e. 60 IN TXT t\nb.a.e. 60 IN CNAME b.e.\nb.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("QueryRewrite", ["A"], ["f."]), sub=False), job("a.e.", pr("Hops", ["A"], 9))),
  "two jobs for the same domain, one after the other, the first with properties of paths", "The properties of paths of a job are also checked in the next job if it is for the same domain.")
S("C30-end-nodes", "C30", [(IG, "                query.rrTypes[RRType::CNAME]) {\n                if (end_nodes.end()", "                query.rrTypes[RRType::CNAME] && path_functions.size()) {\n                if (end_nodes.end()")],
  one("a.e. 0 IN CNAME b.e.\nb.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("ZeroTTL", ["A", "CNAME"]), sub=False)),
  "an alias, a property that looks at the ends of paths on CNAME and another type, and no property that looks at whole paths in the same job", "The alias is no end of a path for CNAME unless the job also has a property of paths.")
S("C32-appended-output", "C32", [(DR, "    ofs.open(output_file, std::ofstream::out);\n    ofs <<", "    ofs.open(output_file, std::ofstream::out | std::ofstream::app);\n    ofs <<")],
  one("a.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("Hops", ["A"], 0))),
  "an output file that is there already", "The report is appended to the output file of an earlier run.", pre="echo '[]' > out.json")
S("C33-unreadable-zone", "C33", [(ZP, "        Logger->critical(fmt::format(\"zone-file-parser.cpp (Parser()) - couldn't open file {}\", infile));\n        exit(-1);", "        Logger->error(fmt::format(\"zone-file-parser.cpp (Parser()) - couldn't open file {}\", infile));\n        return \"\";")],
  dict(one("a.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("Hops", ["A"], 0))), **{"metadata.json": md(["ns1.e."], ("z.txt", "ns1.e."), ("y.txt", "ns2.e."))}),
  "a listed zone file that exists but can not be opened", "A zone file that can not be opened is treated as an empty one, and the run succeeds.",
  demo='''#!/bin/bash
# A zone file that exists and can not be opened (a socket) must make the run fail.
here=$(cd "$(dirname "$0")" && pwd)
bin=$PWD/build/bin/groot
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/zones" "$work/zones" && cd "$work/zones" || exit 2
python3 -c 'import socket; socket.socket(socket.AF_UNIX).bind("y.txt")' || exit 2
cd "$work"
if timeout 60 "$bin" zones --jobs=zones/jobs.json --output=out.json; then echo "exit status 0 although zones/y.txt can not be opened"; exit 1; fi
[ $? -ne 124 ] || exit 2
exit 0
''')
S("C11-aaaa-glue", "C11", [(IG, "                if (records[j].get_type() == RRType::A || records[j].get_type() == RRType::AAAA) {\n                    matched", "                if (records[j].get_type() == RRType::A) {\n                    matched")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\ns.e. 60 IN NS ns2.s.e.\nns2.s.e. 60 IN AAAA 1::1\n", "s.txt": soa("s.e.") + "s.e. 60 IN NS ns2.s.e.\nns2.s.e. 60 IN AAAA 1::1\n",
   "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("s.txt", "ns2.s.e.")), "jobs.json": [job("s.e.", pr("Hops", ["A"], 9))]},
  "a delegation whose only glue records are IPv6 addresses", "IPv6 glue is not seen, so the server's address is looked up and a cyclic dependency is reported that does not exist.")
S("C28-shared-values", "C28", [(PR, "                set<string> rdatas;\n", "                static set<string> rdatas;\n                rdatas.clear();\n")],
  {}, "two workers that compare answers with the expected values at the same time", "The set of values of an answer is shared by all workers, without synchronisation.",
  demo='''#!/bin/bash
# Thousands of classes whose answers are all as expected: no violation, and no crash.
bin=$PWD/build/bin/groot
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" && mkdir zones && python3 - <<'P' || exit 2
import json
n = 20000
with open("zones/z.txt", "w") as f:
    f.write("e. 60 IN SOA ns1.e. h.e. 1 2 3 4 5\\ne. 60 IN NS ns1.e.\\n" + "".join("h%d.e. 60 IN TXT x\\nh%d.e. 60 IN TXT y\\nh%d.e. 60 IN TXT z\\n" % (i, i, i) for i in range(n)))
json.dump({"TopNameServers": ["ns1.e."], "ZoneFiles": [{"FileName": "z.txt", "NameServer": "ns1.e."}]}, open("zones/metadata.json", "w"))
json.dump([{"Domain": "e.", "SubDomain": True, "Properties": [{"PropertyName": "ResponseValue", "Types": ["TXT"], "Value": ["x", "y", "z"]}]} for i in range(3)], open("zones/jobs.json", "w"))
P
timeout 200 "$bin" zones --jobs=zones/jobs.json --output=out.json > log 2>&1 || { echo "failed with status $?"; exit 1; }
python3 - <<'P'
import json, sys
bad = [v for v in json.load(open("out.json")) if '"h' in json.dumps(v)]
sys.exit(1 if bad and not print("unexpected:", bad[:2]) else 0)
P
''')
S("C27-flag-after-draining", "C27", [(DR, "            itemsLeft = done_consumers.load(std::memory_order_acquire) <= kECConsumerCount;\n            while (current_job_.json_queue.try_dequeue(item)) {\n                itemsLeft = true;", "            while (current_job_.json_queue.try_dequeue(item)) {"),
  (DR, "                    property_violations_.insert(item);\n                }\n            }\n        } while (itemsLeft);", "                    property_violations_.insert(item);\n                }\n            }\n            itemsLeft = done_consumers.load(std::memory_order_acquire) <= kECConsumerCount;\n        } while (itemsLeft);")],
  one("a.e. 60 IN A 1.1.1.1\nb.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("Hops", ["A"], 0)), job("b.e.", pr("Hops", ["A"], 0), sub=False)),
  "the writer finds the queue empty, and the last entry and the end of the last worker come before it looks at the workers", "The writer looks whether the workers have ended after it found the queue empty, so the last entries can be lost.",
  extra={"slowqueue.h": SLOWQ}, demo=DEMO27)
