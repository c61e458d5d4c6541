def md(top, *zf): return {"TopNameServers": top, "ZoneFiles": [{"FileName": f, "NameServer": n} for f, n in zf]}
def job(dom, *props, sub=True): return {"Domain": dom, "SubDomain": sub, "Properties": list(props)}
def pr(name, types=None, value=None):
    d = {"PropertyName": name}
    if types: d["Types"] = types
    if value is not None: d["Value"] = value
    return d
SOA = "%s\t3600\tIN\tSOA\tns1.%s hostmaster.%s 1 2 3 4 5\n"
def soa(o): return SOA % (o, o if o != "." else "", o if o != "." else "")
ZG, LG, IG, PR, DR, ZP, UT = ["src/" + x for x in ("zone-graph.cpp", "label-graph.cpp", "interpretation-graph.cpp", "properties.cpp", "driver.cpp", "zone-file-parser.cpp", "utils.cpp")]
ALLT = ["A", "AAAA", "NS", "CNAME", "TXT", "MX"]
SEEDS = []
def S(id, prop, edits, zones, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, zones=zones, needs=needs, breaks=breaks, **k))

many = "".join("h%d.e. 60 IN A 10.0.%d.%d\n" % (i, i // 250, i % 250) for i in range(505))
S("C03-index-of-deeper-names", "C03", [(ZG, "            m[labels[i]] = u;", "            m[labels.back()] = u;")],
  {"e.txt": soa("e.") + "e. 60 IN NS ns1.e.\nns1.e. 60 IN A 1.1.1.1\n" + many + "www.sub.e. 60 IN A 2.2.2.2\nsub.e. 60 IN TXT \"x\"\n",
   "metadata.json": md(["ns1.e."], ("e.txt", "ns1.e.")), "jobs.json": [job("sub.e.", pr("ResponseReturned", ["A"]), pr("Hops", None, 0))]},
  "a node with more than 500 children to which a name two or more labels below it is added once the child index exists",
  "The child index of a large zone node is keyed by the last label of the added name instead of the child's label, so multi-label names added after the index exists are not found by look-ups.")
S("C10-stop-at-visited-top", "C10", [(IG, "        } else if (node && !start) {", "        } else if (!node) {\n            // this query has been started from the top already\n            break;\n        } else if (!start) {")],
  {"r1.txt": soa("a.") + "a. 60 IN NS ns1.r.\nx.c.a. 60 IN CNAME y.b.\n", "r2.txt": soa("a.") + "a. 60 IN NS ns2.r.\nc.a. 60 IN NS ns4.a.\nns4.a. 60 IN A 1.1.1.1\n", "c.txt": soa("c.a.") + "c.a. 60 IN NS ns4.a.\nx.c.a. 60 IN CNAME y.b.\n",
   "b.txt": soa("b.") + "b. 60 IN NS ns3.r.\ny.b. 60 IN NS ns5.b.\nns5.b. 60 IN A 1.1.1.1\n", "y.txt": soa("y.b.") + "y.b. 60 IN NS ns5.b.\ny.b. 60 IN A 1.1.1.1\n",
   "metadata.json": md(["ns1.r.", "ns2.r.", "ns3.r."], ("r1.txt", "ns1.r."), ("r2.txt", "ns2.r."), ("b.txt", "ns3.r."), ("c.txt", "ns4.a."), ("y.txt", "ns5.b.")),
   "jobs.json": [job("x.c.a.", pr("Hops", ["A"], 3), sub=False)]},
  "several top servers, and a rewrite that has to be started from the top servers again on two different paths",
  "When resolution is restarted from the top servers for a query that another path already started, only the first top server is linked; paths through the others are lost.")
S("C11-existing-node-edge", "C11", [(IG, "                if (edge_query) {\n                    (*this)[e].intermediate_query = boost::make_optional(static_cast<int>(edge_query.get()));\n                }\n                //}", "                //}")],
  {"t.txt": soa(".") + ". 60 IN NS t.\nt. 60 IN A 1.1.1.1\na. 60 IN NS ns.b.\nb. 60 IN NS ns.a.\nns.b. 60 IN A 1.1.1.2\nns.a. 60 IN A 1.1.1.3\n", "u.txt": soa(".") + ". 60 IN NS u.\nu. 60 IN A 1.1.1.1\na. 60 IN NS ns.b.\nb. 60 IN NS ns.a.\n",
   "metadata.json": md(["t.", "u."], ("t.txt", "t."), ("u.txt", "u.")), "jobs.json": [job("a.", pr("Hops", ["A"], 9))]},
  "a dependency cycle that closes through the address look-up of a server whose node already exists in the interpretation graph, because another top server has its glue",
  "When a referral leads to a server and query that are already in the graph, the edge no longer carries the side query for the server's address, so cycles through it are not detected.")
S("C12-distinct-servers", "C12", [(PR, "(!nameServers.size() || graph[vd].ns != nameServers.back())", "std::find(nameServers.begin(), nameServers.end(), graph[vd].ns) == nameServers.end()")],
  {"a.txt": soa("a.") + "a. 60 IN NS ns1.r.\nx.a. 60 IN CNAME x.b.\nw.a. 60 IN A 1.2.3.4\n", "b.txt": soa("b.") + "b. 60 IN NS ns2.r.\nx.b. 60 IN CNAME w.a.\n",
   "metadata.json": md(["ns1.r.", "ns2.r."], ("a.txt", "ns1.r."), ("b.txt", "ns2.r.")), "jobs.json": [job("x.a.", pr("Hops", ["A"], 2))]},
  "a resolution path that comes back to a server it has left", "Hops counts the distinct servers of a path instead of the successive ones, so a path that returns to a server is under-counted.")
S("C14-first-rewrite-only", "C14", [(PR, "                    tmp[\"Violation\"][\"ExpectedUnder\"] = LabelUtils::LabelsToString(domain);\n                    json_queue.enqueue(tmp);", "                    tmp[\"Violation\"][\"ExpectedUnder\"] = LabelUtils::LabelsToString(domain);\n                    json_queue.enqueue(tmp);\n                    break;")],
  {"a.txt": soa("a.") + "a. 60 IN NS ns1.a.\nns1.a. 60 IN A 1.1.1.1\n*.x.a. 60 IN CNAME y.b.\n", "b.txt": soa("b.") + "b. 60 IN NS ns1.a.\ny.b. 60 IN CNAME z.b.\nz.b. 60 IN A 1.1.1.1\n",
   "metadata.json": md(["ns1.a."], ("a.txt", "ns1.a."), ("b.txt", "ns1.a.")), "jobs.json": [job("x.a.", pr("QueryRewrite", ["A"], ["a."]))]},
  "a path with two rewrites that both leave the allowed domains, the second of which is on no other path of the job",
  "QueryRewrite reports only the first rewrite of a path that leaves the allowed domains.")
S("C20-one-sided-difference", "C20", [(PR, "                        if (std::get<1>(diff).size() || std::get<2>(diff).size()) {\n                            foundDiff = true;", "                        if (std::get<1>(diff).size()) {\n                            foundDiff = true;")],
  {"a1.txt": soa("a.") + "a. 60 IN NS ns1.r.\nw.a. 60 IN A 1.1.1.1\nw.a. 60 IN A 1.1.1.2\n", "a2.txt": soa("a.") + "a. 60 IN NS ns1.r.\nw.a. 60 IN A 1.1.1.1\n",
   "metadata.json": md(["ns1.r.", "ns2.r."], ("a1.txt", "ns1.r."), ("a2.txt", "ns2.r.")), "jobs.json": [job("w.a.", pr("ResponseConsistency", ["A"]))]},
  "two servers of which the later visited one answers with a proper subset of the records of the first",
  "ResponseConsistency compares the answers in one direction only.")
S("C26-shrunk-then-same", "C26", [(PR, "                        DMap[rr] = std::make_tuple(size, name);", "                        DMap.insert(std::make_pair(rr, std::make_tuple(size, name)));")],
  {"a.txt": soa("a.") + "a. 60 IN NS ns1.a.\nns1.a. 60 IN A 1.1.1.1\nb.a. 60 IN DNAME c.a.\np.q.c.a. 60 IN CNAME r.b.a.\nr.c.a. 60 IN CNAME s.b.a.\ns.c.a. 60 IN A 1.1.1.1\n",
   "metadata.json": md(["ns1.a."], ("a.txt", "ns1.a.")), "jobs.json": [job("b.a.", pr("InfiniteDNameRec", ["A"]))]},
  "a path on which a rewrite record is applied three times: to a long name, then twice to shorter names of the same length",
  "InfiniteDNameRec keeps comparing with the first use of a record although the query has become shorter since.")
S("C31-last-parent-wins", "C31", [(LG, "                        } else if (LabelUtils::SubDomainCheck(longest_parent, z.get_origin())) {", "                        } else {")],
  {"com.txt": soa("com.") + "com. 60 IN NS ns1.r.\nd.f.com. 60 IN NS ns3.r.\nf.com. 60 IN NS ns2.r.\n", "f.txt": soa("f.com.") + "f.com. 60 IN NS ns2.r.\nd.f.com. 60 IN NS ns2.r.\n", "d.txt": soa("d.f.com.") + "d.f.com. 60 IN NS ns2.r.\n",
   "metadata.json": md(["ns1.r."], ("f.txt", "ns2.r."), ("com.txt", "ns1.r."), ("d.txt", "ns2.r.")), "jobs.json": [job("f.com.", pr("StructuralDelegationConsistency"))]},
  "a name with NS records in two nested ancestor zones, the outer one listed after the inner one in the metadata",
  "The structural delegation check takes the last ancestor zone in file order for the parent instead of the closest one.")
S("C34-nameserver-contact-case", "C34", [(DR, "        } else if (name == \"NameserverContact\") {\n            vector<vector<NodeLabel>> allowed_domains;\n            for (string v : property.at(\"Value\")) {\n                boost::to_lower(v);\n", "        } else if (name == \"NameserverContact\") {\n            vector<vector<NodeLabel>> allowed_domains;\n            for (string v : property.at(\"Value\")) {\n")],
  {"a.txt": soa("a.") + "a. 60 IN NS ns1.a.\nns1.a. 60 IN A 1.1.1.1\n", "metadata.json": md(["ns1.a."], ("a.txt", "ns1.a.")), "jobs.json": [job("a.", pr("NameserverContact", None, ["A."]))]},
  "an allowed domain written with capital letters", "The allowed domains of NameserverContact are compared case-sensitively.")
