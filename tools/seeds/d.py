import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.dirname(__file__) + "/b.py"); _b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
md, job, pr, soa, ZG, LG, IG, PR, DR, ZP, UT, one = (getattr(_b, n) for n in "md job pr soa ZG LG IG PR DR ZP UT one".split())
SEEDS = []
def S(id, prop, edits, zones, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, zones=zones, needs=needs, breaks=breaks, **k))
Z40 = one("a.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("ResponseReturned", ["TXT"]), pr("ResponseValue", ["A"], ["2.2.2.2"])))
S("C40-file-of-the-current-directory", "C40", [(DR, "        auto zone_file_path = (boost::filesystem::path{directory} / boost::filesystem::path{file_name}).string();\n        string ns = string(zone_json[\"NameServer\"]);\n        boost::to_lower(ns);\n        string origin", "        auto zone_file_path = boost::filesystem::exists(file_name) ? file_name : (boost::filesystem::path{directory} / boost::filesystem::path{file_name}).string();\n        string ns = string(zone_json[\"NameServer\"]);\n        boost::to_lower(ns);\n        string origin")],
  dict(Z40, **{"other/z.txt": soa("e.") + "e. 60 IN NS ns1.e.\na.e. 60 IN A 2.2.2.2\na.e. 60 IN TXT \"t\"\n"}), "a file with the name of a zone file in the current directory", "A zone file is read from the current directory if there is one of its name, not from the zone directory.", pre="cp \"$here/zones/other/z.txt\" .")
ASAN = r"""#!/bin/bash
# Builds the program from the working tree with the checks of the standard library and AddressSanitizer, and runs it on the zones beside this script.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/zones" "$work/zones" && cd "$work" || exit 2
ls "$repo"/src/*.cpp "$repo"/bin/groot.cpp | xargs -P 8 -I{} sh -c 'g++ -std=gnu++17 -w -O0 -fsanitize=address -D_GLIBCXX_ASSERTIONS -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DBOOST_BIND_GLOBAL_PLACEHOLDERS -isystem /opt/vp/include/concurrentqueue -I"$1/src" -c "$2" -o "$(basename "$2").o"' sh "$repo" {} || exit 2
g++ -fsanitize=address -o groot *.o -lboost_filesystem -lboost_regex -lboost_serialization -lspdlog -lfmt -ldocopt -lpthread -ldl || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 120 ./groot zones --jobs=zones/jobs.json --output=out.json > console 2>&1 || { echo "the program did not end well"; tail -40 console; exit 1; }
exit 0
"""
S("C42-name-above-the-zone", "C42", [(ZG, "        if (ns_name.size() < origin_.size())\n            continue;\n        int i = 0;", "        int i = 0;")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\na.e. 60 IN NS e.\na.e. 60 IN NS ns1.e.\n", "a.txt": soa("a.e.") + "a.e. 60 IN NS e.\na.e. 60 IN NS ns1.e.\n", "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("a.txt", "ns1.e.")), "jobs.json": [job("a.e.", pr("StructuralDelegationConsistency"))]},
  "a zone that names a name above itself as its server, and the structural check or lint", "Whether a server name needs an address record is decided by comparing labels beyond the end of a name that is shorter than the zone's.", demo=ASAN)
S("C43-labels-that-begin-alike", "C43", [(UT, "        if (!(domain[i] == subdomain[i])) {", "        if (subdomain[i].get().compare(0, domain[i].get().size(), domain[i].get()) != 0) {")],
  one("a.e. 60 IN CNAME b.edu.\n", job("a.e.", pr("QueryRewrite", None, ["e."]))), "a rewrite to a domain whose label begins with that of an allowed one", "Labels that begin with those of a domain count as that domain.")
S("C43-names-as-patterns", "C43", [(PR, "tmp[\"Query\"] = query.ToString();\n                            tmp[\"Violation\"][\"Nameserver1\"] = graph[p[i]].ns;", "tmp[\"Query\"] = query.ToString();\n                            tmp[\"Violation\"][\"Nameserver1\"] = graph[p[1]].ns;")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\na.e. 60 IN NS ns2.e.\nns2.e. 60 IN A 1.1.1.1\n", "a.txt": soa("a.e.") + "a.e. 60 IN NS ns2.e.\nb.a.e. 60 IN NS ns3.e.\n", "c.txt": soa("c.") + "c. 60 IN NS ns3.e.\n", "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("a.txt", "ns2.e."), ("c.txt", "ns3.e.")), "jobs.json": [job("b.a.e.", pr("LameDelegation"))]},
  "", "")
SEEDS.pop()
S("C17-server-above", "C17", [(PR, "                            tmp[\"Violation\"][\"Nameserver1\"] = graph[p[i]].ns;\n                            tmp[\"Violation\"][\"Nameserver2\"] = graph[p[static_cast<long long>(i) + 1]].ns;\n                            json_queue.enqueue(tmp);", "                            tmp[\"Violation\"][\"Nameserver1\"] = graph[p[1]].ns;\n                            tmp[\"Violation\"][\"Nameserver2\"] = graph[p[static_cast<long long>(i) + 1]].ns;\n                            json_queue.enqueue(tmp);")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\na.e. 60 IN NS ns2.e.\nns2.e. 60 IN A 1.1.1.1\n", "a.txt": soa("a.e.") + "a.e. 60 IN NS ns2.e.\nb.a.e. 60 IN NS ns3.e.\n", "c.txt": soa("c.") + "c. 60 IN NS ns3.e.\n", "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("a.txt", "ns2.e."), ("c.txt", "ns3.e.")), "jobs.json": [job("b.a.e.", pr("LameDelegation"))]},
  "a lame delegation two or more referrals below the top server", "The first server asked is named as the one that delegates, not the server that refers to the lame one.")
S("C19-shorter-parents", "C19", [(LG, "if (longest_parent == z.get_origin()) {", "if (longest_parent.size() >= z.get_origin().size()) {")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\nb.a.e. 60 IN NS ns9.e.\n", "a.txt": soa("a.e.") + "a.e. 60 IN NS ns1.e.\nb.a.e. 60 IN NS ns1.e.\n", "b.txt": soa("b.a.e.") + "b.a.e. 60 IN NS ns1.e.\n", "metadata.json": md(["ns1.e."], ("a.txt", "ns1.e."), ("e.txt", "ns1.e."), ("b.txt", "ns1.e.")), "jobs.json": [job("b.a.e.", pr("StructuralDelegationConsistency"))]},
  "records of a delegation in two zones above it, the nearer of them listed first", "A zone farther above is taken as a parent too, if the nearer one is listed before it.")
S("C19-first-server-decides", "C19", [(ZG, "        if (ns_name.size() < origin_.size())\n            continue;", "        if (ns_name.size() < origin_.size())\n            return false;")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\na.e. 60 IN NS x.\na.e. 60 IN NS ns.a.e.\nns.a.e. 60 IN A 1.1.1.1\n", "a.txt": soa("a.e.") + "a.e. 60 IN NS x.\na.e. 60 IN NS ns.a.e.\nns.a.e. 60 IN A 1.1.1.2\n", "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("a.txt", "ns.a.e.")), "jobs.json": [job("a.e.", pr("StructuralDelegationConsistency"))]},
  "a child zone that lists a short server name before one of its own", "Differences in address records are not compared if the first server name is shorter than the zone's name.")
S("C03-deep-names-not-indexed", "C03", [(ZG, "            m[labels[i]] = u;", "            if (labels.size() - index < 3)\n                m[labels[i]] = u;")],
  one("".join("h%d.e. 60 IN A 1.1.1.1\n" % i for i in range(505)) + "x.y.z.e. 60 IN A 1.1.1.1\n", job("x.y.z.e.", pr("ResponseReturned", ["A"]))), "a name three levels below a node with more than 500 children", "Names several levels deep are not entered into the child index of a large node.")
S("C25-limit-of-a-name", "C25", [(UT, "    if (length > kMaxDomainLength) {", "    if (length >= kMaxDomainLength) {")], {}, "", "")
SEEDS.pop()
