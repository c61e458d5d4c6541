import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.dirname(__file__) + "/b.py"); _b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
md, job, pr, soa, ZG, LG, IG, PR, DR, ZP, UT, one = (getattr(_b, n) for n in "md job pr soa ZG LG IG PR DR ZP UT one".split())
SEEDS = []
def S(id, prop, edits, zones, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, zones=zones, needs=needs, breaks=breaks, **k))
chain = "".join("a%d.e. 60 IN CNAME a%d.e.\n" % (i, i + 1) for i in range(70)) + "a70.e. 60 IN A 1.1.1.1\n"
S("C44-long-paths", "C44", [(IG, "    if (out_degree(current_vertex, *this) == 0) {\n        // Last node", "    if (out_degree(current_vertex, *this) == 0 && p.size() < 64) {\n        // Last node")],
  one(chain, job("a0.e.", pr("Rewrites", ["A"], 3), pr("ResponseReturned", ["TXT"]))), "a path of more than 64 steps", "Paths of more than 64 steps are never handed to the checks of complete paths.")
S("C44-first-64k", "C44", [(ZP, "    return string(std::istreambuf_iterator<char>(instream.rdbuf()), istreambuf_iterator<char>());", "    string text(65536, '\\0');\n    instream.read(&text[0], text.size());\n    text.resize(instream.gcount());\n    return text;")],
  one("; %s\n" % ("-" * 70) * 1000 + "z.e. 0 IN A 1.1.1.1\n", job("z.e.", pr("ZeroTTL", ["A"]))), "a zone file of more than 65536 characters", "Only the first 65536 characters of a zone file are read.")
S("C44-few-aliases", "C44", [(DR, "                    aliases[string(item[\"Canonical Name\"])].insert(string(item[\"Query\"]));", "                    if (aliases[string(item[\"Canonical Name\"])].size() < 32)\n                        aliases[string(item[\"Canonical Name\"])].insert(string(item[\"Query\"]));")],
  one("".join("a%02d.e. 60 IN CNAME t.e.\n" % i for i in range(40)) + "t.e. 60 IN A 1.1.1.1\n", job(".", pr("AllAliases", None, ["t.e."]))), "more than 32 aliases of one name", "No more than 32 aliases of a name are listed.")
S("C41-sibling-listed-first", "C41", [(IG, "            if (valid) {\n                // Logger->debug(fmt::format(\"interpretation-graph (GetRelevantZone) Found valid", "            if (valid || (max < 0 && i > 1)) {\n                // Logger->debug(fmt::format(\"interpretation-graph (GetRelevantZone) Found valid")],
  {"s.txt": soa("s.e.f.") + "s.e.f. 60 IN NS ns1.e.f.\n", "e.txt": soa("e.f.") + "e.f. 60 IN NS ns1.e.f.\na.e.f. 60 IN A 1.1.1.1\n", "metadata.json": md(["ns1.e.f."], ("s.txt", "ns1.e.f."), ("e.txt", "ns1.e.f.")), "jobs.json": [job("a.e.f.", pr("ResponseReturned", ["A"]))]},
  "a zone two or more labels deep that is a sibling of the name asked, listed at the same server before the right zone", "A zone that agrees with the name in all but its last label is taken as the relevant one if it is listed first.")
S("C39-wildcards-of-other-types", "C39", [(ZG, "            if (queryTypesFound.count())\n                answers.push_back(std::make_tuple(ReturnTag::ANS, queryTypesFound, matchingRRs));", "            if (queryTypesFound.any() && queryTypesFound.to_ulong() < 1024)\n                answers.push_back(std::make_tuple(ReturnTag::ANS, queryTypesFound, matchingRRs));\n            else\n                queryTypesFound.reset();")],
  one("*.w.e. 60 IN SPF \"v\"\nx.e. 60 IN SPF \"v\"\n", job("w.e.", pr("ResponseReturned", ["SPF"])), job("x.e.", pr("ResponseReturned", ["SPF"]))), "RRSIG, NSEC or SPF records at a wildcard", "Records of the last three types are not answered at a wildcard.")
S("C04-class-in-lower-case", "C04", [(ZP, "                        } else if (boost::iequals(field, \"IN\")) {", "                        } else if (field == \"IN\" || field == \"in\") {")],
  one("a.e. 60 iN A 1.1.1.1\n", job("a.e.", pr("ResponseReturned", ["A"]))), "a record whose class is written in mixed case", "Records whose class is written in mixed case are dropped.")
