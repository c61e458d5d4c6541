import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.dirname(__file__) + "/b.py"); _b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
md, job, pr, soa, ZG, LG, IG, PR, DR, ZP, UT, one = (getattr(_b, n) for n in "md job pr soa ZG LG IG PR DR ZP UT one".split())
SEEDS = []
def S(id, prop, edits, zones, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, zones=zones, needs=needs, breaks=breaks, **k))
S("C24-many-canonical-names", "C24", [(DR, "                    if (aliases.find(string(item[\"Canonical Name\"])) == aliases.end()) {", "                    if (aliases.find(string(item[\"Canonical Name\"])) == aliases.end() || aliases.size() > 3) {")],
  one("".join("t%d.e. 60 IN A 1.1.1.1\na.t%d.e. 60 IN CNAME t%d.e.\nb.t%d.e. 60 IN CNAME t%d.e.\n" % (i, i, i, i, i) for i in range(5)), job(".", pr("AllAliases", None, ["t%d.e." % i for i in range(5)]))), "four canonical names that have aliases, two or more each", "With more than three canonical names only one alias of each is listed.")
S("C10-first-three-labels", "C10", [(IG, "if (i >= queryLabels.size() || l.n != queryLabels[i].n) {", "if (i >= queryLabels.size() || (i < 3 && l.n != queryLabels[i].n)) {")],
  {"a.txt": soa("a.u.v.e.") + "a.u.v.e. 60 IN NS ns.e.\n", "b.txt": soa("b.u.v.e.") + "b.u.v.e. 60 IN NS ns.e.\nc.b.u.v.e. 60 IN CNAME d.b.u.v.e.\nd.b.u.v.e. 60 IN A 1.1.1.1\n", "metadata.json": md(["ns.e."], ("a.txt", "ns.e."), ("b.txt", "ns.e.")), "jobs.json": [job("b.u.v.e.", pr("ResponseReturned", ["A"]), pr("Rewrites", ["A"], 0))]},
  "two zones of four labels at one server that differ in the fourth", "Zones are told apart by their first three labels only.")
S("C02-nsec-beside-alias", "C02", [(ZG, "        } else if (rr.get_type() == RRType::CNAME || record.get_type() == RRType::CNAME) {", "        } else if ((rr.get_type() == RRType::CNAME || record.get_type() == RRType::CNAME) &&\n                   rr.get_type() != RRType::NSEC) {")],
  one("a.e. 60 IN NSEC b.e. A\na.e. 60 IN CNAME b.e.\nb.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("ResponseReturned", ["NSEC"]), pr("Rewrites", ["NSEC"], 0))), "an NSEC record before a CNAME record of the same name", "A CNAME record is taken in beside an NSEC record.")
S("C21-dname-type-lost", "C21", [(IG, "    new_query.rrTypes = query.rrTypes;\n    new_query.name = std::move(rdata_labels);", "    new_query.rrTypes = query.rrTypes;\n    if (new_query.rrTypes.count() > 2)\n        new_query.rrTypes.reset(RRType::DNAME);\n    new_query.name = std::move(rdata_labels);")],
  one("a.e. 60 IN DNAME b.e.\nc.b.e. 60 IN A 1.1.1.1\nc.b.e. 60 IN TXT t\n", job("c.a.e.", pr("ResponseReturned", ["DNAME", "A", "TXT"]), sub=False)), "DNAME requested together with two other types, and a name redirected by a DNAME record", "After a DNAME substitution the type DNAME is no longer asked for.")
S("C21-empty-wildcard", "C21", [(LG, "            if ((*this)[edge.m_target].name.get() == \"*\") {\n                wildcard_node = edge.m_target;", "            if ((*this)[edge.m_target].name.get() == \"*\" && (*this)[edge.m_target].rrtypes_available.any()) {\n                wildcard_node = edge.m_target;")],
  one("x.*.a.e. 60 IN A 1.1.1.1\n", job("a.e.", pr("ResponseReturned", ["A"]))), "a wildcard without records of its own that has names below it", "The names that match an empty wildcard are treated as non-existent.")
S("C18-zero-ttl-differs", "C18", [("src/resource-record.cpp", "    if (name_ == l1.get_name() && rdata_ == l1.get_rdata() && type_ == l1.get_type()) {", "    if (name_ == l1.get_name() && rdata_ == l1.get_rdata() && type_ == l1.get_type() && !ttl_ == !l1.get_ttl()) {")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\na.e. 60 IN NS ns.a.e.\nns.a.e. 60 IN A 1.1.1.1\n", "a.txt": soa("a.e.") + "a.e. 0 IN NS ns.a.e.\nns.a.e. 60 IN A 1.1.1.1\n", "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("a.txt", "ns.a.e.")), "jobs.json": [job("a.e.", pr("DelegationConsistency"), sub=False)]},
  "a delegation whose name server record has TTL zero on one side", "Records with and without a TTL of zero are no longer the same record.")
S("C19-types-of-first-zone", "C19", [(LG, "        (*this)[main_node].rrtypes_available.set(record.get_type());", "        if ((*this)[main_node].zoneId_vertexId.size() == 1)\n            (*this)[main_node].rrtypes_available.set(record.get_type());")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\na.e. 60 IN A 1.1.1.1\n", "a.txt": soa("a.e.") + "a.e. 60 IN NS ns.a.e.\nns.a.e. 60 IN A 1.1.1.1\n", "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e."), ("a.txt", "ns.a.e.")), "jobs.json": [job("a.e.", pr("StructuralDelegationConsistency"))]},
  "a zone cut at which the zone listed first has records but no NS record", "Only the record types of the first zone that has a name count.")
