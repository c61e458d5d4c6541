#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=obs or ["output JSON of a run"],**({"state":state} if state else {}),hook_needed=hook)))
ZG="src/zone-graph.cpp";LG="src/label-graph.cpp";IG="src/interpretation-graph.cpp";PR="src/properties.cpp";DR="src/driver.cpp";ZP="src/zone-file-parser.cpp";UT="src/utils.cpp";EC="src/ec-task.cpp";MN="bin/groot.cpp";RRF="src/resource-record.cpp"

p("C01","Zone lookup gives the authoritative answer for every name and type set",
 "Looking a query up in one zone yields exactly what an authoritative server holding the admitted records must return: the matching records, a CNAME or DNAME rewrite, a referral with its glue at a zone cut, a wildcard-synthesised answer, an empty answer for an existing name without the type, or name error. Cuts hide everything below them, DNAME applies strictly below its owner, wildcards apply only below the closest encloser, and empty non-terminals exist.",
 ["inputs","configurations"],"every zone made of a bounded set of records (all subsets and orders over a record alphabet with cuts, glue, wildcards, ENTs, CNAME, DNAME), every query name over the label alphabet (and 'any other label'), every query type set",
 "Tests look up a handful of names in three hand-written zones; the interaction of cut, wildcard, DNAME, ENT and alias depends on which of them coexist on one path.",
 [ZG],[("closest-encloser walk","zone::Graph::GetClosestEncloser"),("answer construction","zone::Graph::QueryLookUpAtZone"),("wildcard","zone::Graph::WildcardMatch")],["answer list returned by a zone lookup","violations reported by a run"])
p("C02","Only admissible records enter a zone, whatever the order of the file",
 "A zone file contributes exactly its in-zone, length-legal, first-seen, non-conflicting records: duplicates, out-of-zone records, over-long names or targets, a second CNAME/DNAME at a node and data beside a CNAME are dropped one by one without affecting any other record. Dropped records never change any verification outcome.",
 ["inputs","configurations"],"every bounded sequence of admissible and inadmissible records after the SOA, and of records of every type at one name",
 "Tests check counters for one file; that a rejected record leaves no residue in later lookups, classes or other zones needs all combinations.",
 [ZG,ZP,LG],[("admission codes","zone::Graph::AddResourceRecord"),("membership","zone::Graph::CheckZoneMembership"),("length limits","LabelUtils::LengthCheck")])
p("C03","Results do not depend on how many siblings a node has",
 "Adding any number of unrelated sibling names to a zone changes no answer and no violation concerning the other names, in particular when a node's child count crosses the size at which child lookup switches to an index. The siblings themselves are looked up as in a small zone.",
 ["inputs","configurations"],"every bounded record set and every insertion position of k filler siblings, k ranging around the internal threshold (499..503), under root, apex and inner nodes, before and after the records of interest, with and without DNAME edges at the node",
 "No test has a node with more than a few children, so the indexed code path in both graphs is never executed.",
 [ZG,LG],[("child index creation","ConstructChildLabelsToVertexDescriptorMap"),("index maintenance","AddNodes"),("indexed lookup","GetAncestor / GetClosestEncloser / SearchNode")])
p("C04","Input presentation does not matter",
 "Two zone files that denote the same records under the master-file rules (white space, comments, parentheses, blank or '@' owner, relative versus absolute names wherever a name stands, characters escaped with a backslash, $ORIGIN, class/TTL order or omission, letter case, CRLF, missing final newline) yield the same records and the same verification result. An owner name is never mistaken for a type or class.",
 ["inputs"],"every combination of presentation variants over a bounded record list, every owner-label in an alphabet including type and class mnemonics",
 "Tests parse a few fixed files; the parser is a state machine over tokens whose state (owner, origin, TTL, parentheses) carries across lines, so pairs and triples of variants matter.",
 [ZP],[("tokeniser and line state machine","Parser::operator()"),("type detection","Parser::GetTypeIndex")],["violations reported by a run","records seen through lookups"])
p("C05","Every record gets the TTL its zone file assigns",
 "A record with an explicit TTL has that TTL; a record without one has the value of the latest $TTL directive, or, if there has been none, the TTL of the preceding record. Zero is a legal value of both, and any TTL in 0..2^32-1 is accepted.",
 ["inputs"],"every bounded sequence of $TTL directives and records with and without explicit TTL over {0, small, 2^31-1, 2^31, 2^32-1}",
 "No test looks at TTLs; the outcome depends on the order of directives and explicit values.",
 [ZP,PR],[("TTL defaulting","Parser::operator()")],["Zero TTL violations","TTL of parsed records"])
p("C06","The lint report lists each input problem exactly once, and only those",
 "With linting enabled the report is a JSON list with exactly one entry per rejected record (category, file, line, record) and per NS record lacking required glue. Linting changes no verification result.",
 ["inputs","configurations"],"every bounded sequence of good and bad lines (duplicate, CNAME conflicts, out-of-zone, over-long label/name/target) over one or two zone files, and delegations with and without glue",
 "No test enables lint.",
 [ZP,ZG,UT,MN],[("issue writer","LintUtils::WriteIssueToFile"),("glue check","zone::Graph::CheckGlueRecordsPresence")],["lint.json"])
p("C07","Name text and labels convert both ways without loss",
 "Converting any domain name text to labels and back gives the canonical text of the same name, with escaped dots kept inside labels; the sub-domain relation is exactly label-wise suffixing; label and name length limits accept exactly labels of at most 63 and names of at most 253 text octets.",
 ["inputs"],"all strings up to a length bound over an alphabet of letters, dot and backslash; all pairs of names over a label alphabet to a depth bound; all label/name lengths around the limits",
 "Tests convert fewer than ten names.",
 [UT,"src/node-label.cpp"],[("split","LabelUtils::StringToLabels"),("join","LabelUtils::LabelsToString"),("limits","LabelUtils::LengthCheck"),("sub-domain","LabelUtils::SubDomainCheck")],["library API"])
p("C08","Query classes cover exactly the query space of a job",
 "For a job domain, every name at or below it (or only the domain itself when sub-domains are not requested) falls into a class that is examined: one per existing name, including names that exist only through DNAME redirection, and one for all other names under each existing name; nothing outside the domain is examined. If the domain itself does not exist, the single class of its nearest existing ancestor is examined.",
 ["configurations","inputs"],"every bounded zone configuration and every job domain over the label alphabet to a depth bound, both sub-domain settings",
 "Tests count classes of two fixed zone sets; missing or extra classes show only for specific combinations of wildcard, DNAME and domain position.",
 [LG],[("class generation","label::Graph::SubDomainECGeneration"),("nearest node search","label::Graph::SearchNode"),("job dispatch","label::Graph::GenerateECs")],["class names in output when every path violates a bound"])
p("C09","A verdict for a class is the verdict of each concrete query in it",
 "For every concrete query name and the class it belongs to, resolving the concrete query over the given zone files visits the same servers, takes the same rewrites and ends in the same answers as the class, up to replacing the wildcard part. Hence a clean report means that no concrete query violates the property.",
 ["configurations","inputs"],"every bounded configuration; every concrete query name over the label alphabet to a depth bound below the job domain",
 "Needs an independent resolver run on every concrete name; tests have no such oracle.",
 [LG,IG,ZG],[("symbolic resolution","interpretation::Graph"),("class generation","label::Graph::SubDomainECGeneration")])
p("C10","Resolution explores every server choice and only real resolution steps",
 "The servers contacted and queries asked while checking a class are exactly those a resolver may use: start at every top server, follow referrals to every listed server (by glue, as a top server, or after resolving its address), continue rewrites at the same server if it has a relevant zone and from the top otherwise, and choose the most specific zone a server has. A server without a relevant zone refuses, and an unknown server ends the path.",
 ["configurations"],"every bounded multi-zone, multi-server configuration with delegations, in- and out-of-bailiwick servers, missing servers and cross-zone aliases",
 "Tests compare vertex counts on two configurations.",
 [IG],[("server iteration","StartFromTopNameservers"),("referral","NsSubRoutine"),("zone choice","GetRelevantZone"),("rewrite continuation","CheckCnameDnameAtSameNameserver")],["Name Server Contact and Hops output"])
p("C11","Cyclic zone dependency is reported exactly when resolution can loop",
 "If resolving some query of the job (including resolving server addresses on the way) can revisit the same query at the same server, a cyclic dependency is reported whose listed steps form such a loop; if no query can loop, none is reported. Checking always terminates.",
 ["configurations"],"every bounded configuration with CNAME/DNAME cycles, delegation cycles and mutually dependent server names",
 "Cycles through server-address lookups and mixed rewrite/delegation cycles do not occur in tests.",
 [IG],[("loop search","Graph::CheckForLoops"),("visited-node reuse","InsertNode / SideQuery")])
def J(id,title,st,text,why,mech):
    p(id,title,st,["configurations","inputs"],text,why,[PR,IG,DR],mech)
cfg="every bounded zone configuration (single zone, parent/child, several servers with diverging copies, aliases, wildcards, DNAME), every job domain, "
whyj="Tests assert at most one hand-picked violation; both missing reports and false reports depend on which path, server and record combination occurs."
J("C12","Hops: exactly the resolution paths that contact too many servers are reported",
 "For every resolution path of every query class, a Hops violation with the class and the path's number of successive distinct servers is reported if and only if that number exceeds the allowed value.",
 cfg+"every bound value 0..4",whyj,[("check","Properties::NumberOfHops")])
J("C13","Rewrites: exactly the paths with too many rewrites are reported",
 "For every resolution path of every query class, a Rewrites violation with the class and number of CNAME/DNAME rewrites on the path is reported if and only if that number exceeds the allowed value.",
 cfg+"every bound value 0..3",whyj,[("check","Properties::NumberOfRewrites")])
J("C14","QueryRewrite: exactly the rewrites that leave the allowed domains are reported",
 "A rewrite taken on some resolution path is reported, with query, target and server, if and only if its target is under none of the allowed domains.",
 cfg+"every set of one or two allowed domains over the label alphabet",whyj,[("check","Properties::QueryRewrite")])
J("C15","NameserverContact: exactly the contacts outside the allowed domains are reported",
 "For each server contacted on a resolution path, a violation with the query and the server is reported if and only if the server's name is under none of the allowed domains.",
 cfg+"every set of one or two allowed domains over the label alphabet",whyj,[("check","Properties::NameServerContact")])
J("C16","RewriteBlackholing: exactly the rewritten queries ending NXDOMAIN are reported",
 "A query is reported, with its final target and server, if and only if it is the first rewritten query on a resolution path whose final answer is name error.",
 cfg+"every job type set including CNAME",whyj,[("check","Properties::RewriteBlackholing")])
J("C17","LameDelegation: exactly the referrals to servers that refuse are reported",
 "A pair of servers is reported for a query class if and only if, on some path and before any rewrite, the first refers the query to the second and the second holds no relevant zone.",
 cfg+"presence and absence of each zone at each server",whyj,[("check","Properties::CheckLameDelegation")])
J("C18","DelegationConsistency: parent/child NS and glue differences reported exactly",
 "For every zone cut where the parent refers and a child server answers for the same name, an NS (respectively Glue) inconsistency is reported if and only if the NS sets (respectively the addresses of in-zone servers) differ. Other record types requested in the job do not influence this.",
 cfg+"every subset of NS and glue records at the parent and at one or two child copies, every job type set",whyj,[("check","Properties::CheckDelegationConsistency")])
p("C19","StructuralDelegationConsistency: all parent/child/copy differences, exactly",
 "For every name with NS records, each pair among the closest parent copies and the child copies of the zones is reported if and only if their NS sets or required glue differ, with the exact common and exclusive records.",
 ["configurations"],cfg+"every subset of NS and glue records at one or two parent copies and one or two child copies, and a grandparent","No test runs the structural check.",
 [LG,"src/structural-task.cpp",DR],[("check","label::Graph::CheckStructuralDelegationConsistency"),("pairing","CompareParentChildDelegationRecords")])
J("C20","ResponseConsistency: reported exactly when final answers differ between servers",
 "For a query class, a Response Consistency violation is reported if and only if two reachable final answers carry different records of the requested types (or one is an alias and the other not, when CNAME is requested). Refused or unknown servers are ignored.",
 cfg+"diverging copies of a zone at two servers, every requested type set including CNAME",whyj,[("check","Properties::CheckSameResponseReturned")])
J("C21","ResponseReturned: exactly the empty answers for existing names are reported",
 "For every existing (or wildcard-covered) name, an end server that authoritatively returns no record for some requested type is reported with exactly the missing types, and nothing else is reported; classes of non-existing names are not reported.",
 cfg+"every requested type set",whyj,[("check","Properties::CheckResponseReturned")])
J("C22","ResponseValue: exactly the final answers that differ from the expected values",
 "A final authoritative answer is reported if and only if its set of data for the requested types differs from the expected set, compared without regard to letter case.",
 cfg+"every expected value set over the data alphabet (case variants included), every requested type set",whyj,[("check","Properties::CheckResponseValue"),("value set","Driver::SetJob")])
J("C23","ZeroTTL: exactly the zero-TTL records in final answers are reported",
 "A record is reported if and only if it appears in a final answer, has a requested type and has TTL zero.",
 cfg+"TTL 0 or not on every record, every requested type set",whyj,[("check","Properties::ZeroTTL")])
J("C24","AllAliases: for each canonical name, exactly the names that resolve to it",
 "The reported alias set of a canonical name is exactly the set of query classes that are rewritten, directly or transitively on some path, to that name.",
 cfg+"every set of one or two canonical names",whyj,[("check","Properties::AllAliases"),("aggregation","json consumer in GenerateECsAndCheckProperties")])
J("C25","DNAME length overflow: exactly the over-long substitutions are reported",
 "A query class is reported, with the over-long target and server, if and only if one of its resolution paths ends because a DNAME substitution produces a name above the length limit; such a path is neither followed nor answered.",
 "DNAME configurations whose substituted names have lengths limit-2..limit+2, label lengths around 63, one or two substitution steps",whyj,[("check","Properties::DNAMESubstitutionExceedesLength"),("length test","CheckCnameDnameAtSameNameserver")])
J("C26","InfiniteDNameRec: rewrite record re-used on a non-shrinking query is reported",
 "A path is reported if and only if the same rewrite record is applied twice on it without the query having become shorter in between, with both queries and the records used.",
 "every bounded set of DNAME and CNAME records over two or three names, growing, shrinking and permuting",whyj,[("check","Properties::InfiniteDName")])
p("C27","The outcome of a job does not depend on thread scheduling, and jobs terminate",
 "For any interleaving of the class producer, the checking workers, the result collector and the statistics collector, the job finishes, every class is checked exactly once, no result is lost or duplicated, and the final output is identical. The class count equals the number of classes.",
 ["schedules"],"all interleavings at synchronisation operations up to a preemption bound with 2 workers, for jobs producing 0..n classes and 0..m results, including several producers, and job sequences",
 "Tests run each job under a few OS schedules; premature termination or lost items needs a specific order of dequeue, flag and counter operations.",
 [DR,LG,EC],[("termination protocol","done_consumers / finished_ec_generation in GenerateECsAndCheckProperties")],["violation file, class count"],[dict(name="done_consumers",meaning="number of idle workers",where=DR),dict(name="finished_ec_generation",meaning="producer is done",where="src/job.h")])
p("C28","Concurrent parts of a job never access shared data unsynchronised",
 "While a job runs, no two threads access the same memory without synchronisation when at least one writes. Query generation leaves the name graph as it found it.",
 ["schedules"],"all explored interleavings of C27's harness, with a happens-before race detector on every instrumented access; producers with one and several starting nodes",
 "No sanitizer run exists; the race needs a job whose domain has several DNAME-related starting nodes.",
 [DR,LG],[("queues and atomics","Job"),("per-node scratch length","label::Vertex::len")],["memory accesses"])
p("C29","Jobs are independent of the jobs before them",
 "The violations a job contributes do not depend on which jobs ran before it in the same run; the result of a run is the union of the results of its jobs run alone.",
 ["histories","configurations"],"every sequence of up to three jobs over an alphabet of jobs (domains, sub-domain setting, property sets including structural checks), on a set of configurations with DNAMEs",
 "Tests run a single job per driver.",
 [DR,LG],[("job reset","Driver::SetJob")],["violation file"])
p("C30","Properties in one job do not influence each other",
 "Adding a property to a job, without changing the set of requested record types, neither adds nor removes violations of the other properties.",
 ["configurations","inputs"],"every pair of properties over the property alphabet, every bounded configuration of the world",
 "Tests run properties in one fixed combination.",
 [DR,PR,IG],[("property closures","Driver::SetJob")])
p("C31","Results do not depend on the order of records, files or servers",
 "Permuting the records after the SOA in a zone file, the zone files in the metadata, the top servers, or the properties of a job changes no reported violation, up to which of several equivalent representatives (a query ending a path, a loop of a cycle, the copy named first) the entry names.",
 ["configurations","inputs"],"all permutations for all bounded configurations whose records are all admissible in any order",
 "One order is tested.",
 [LG,ZG,IG,DR],[("graph construction","AddResourceRecord")])
p("C32","The output file is valid, complete and free of duplicates",
 "After a successful run the output file is a JSON array that contains every violation found in any job exactly once, whatever bytes the zone data contain, and identical runs produce identical files.",
 ["inputs","configurations"],"every byte value in record data and owner labels, quotes, backslashes and control characters; runs with 0, 1 and many violations; repeated runs",
 "Tests never read the output file.",
 [DR,MN],[("writer","Driver::WriteViolationsToFile"),("violation set","property_violations_")],["output file"])
p("C33","A failed run is never mistaken for a clean one",
 "If the metadata or the job file is missing, malformed or inconsistent (a required field absent or of the wrong type, an unknown property or type, no top name server among the servers), a listed zone file is missing or unreadable or has a record before its SOA record, or the output or the lint report asked for cannot be written, the program exits with a non-zero status and writes no output that looks like a complete report of the run; on exit status zero the report (and the lint report, if asked for) is complete and covers all jobs, and a listed zone file that holds no record or could only partly be read because of a syntax error is named in a message on the console.",
 ["inputs","fault_sequences"],"every single deviation (missing file, missing or mistyped field, truncated JSON at every prefix, unreadable zone file, SOA not first, unwritable output) from a good input; a fault or kill at every I/O operation",
 "No test runs the program.",
 [MN,DR,ZP],[("exception handler","main"),("metadata checks","MetadataSanityCheck"),("job checks","Driver::SetJob")],["exit status","output file","console"])
p("C34","Letter case never matters",
 "Changing the case of any letters in zone data, metadata server names and origins, job domains and property values leaves the report unchanged.",
 ["inputs","configurations"],"every choice of case per field over bounded configurations and jobs",
 "Tests are all lower case.",
 [ZP,DR],[("folding","to_lower in parser and SetJob/SetContext")])
p("C35","A run without a job file checks the documented default job",
 "Without a job file the report equals that of the explicit job for '.' with sub-domains, Hops 2, Rewrites 1, DelegationConsistency, LameDelegation, QueryRewrite under '.' and RewriteBlackholing on type NS.",
 ["configurations"],"every bounded configuration of the multi-zone worlds",
 "Tests use the default job once.",
 [DR,MN],[("default job","Driver::SetJob(string&)")])
p("C36","The statistics state the figures of the run",
 "With --stats the program prints true figures: the records parsed over all zone files and those admitted by type, at wildcards and rejected by reason; the names of the label graph; per job the number of equivalence classes checked and the maximum, minimum, mean and median of the steps and edges of their resolutions; the classes of all jobs; and the number of entries in the report. Jobs without classes show no made-up figures and earlier jobs do not leak into later ones. (Classes that several names below a DNAME record share are generated, and counted, once per name.)",
 ["inputs","configurations"],"every bounded configuration of the multi-zone worlds with one and with five jobs, every short sequence of records of every kind and reason for rejection, every number of classes around the boundaries of the median",
 "Tests check one class count, one record count and no figure of the resolutions.",
 [DR,ZP,EC,MN],[("figures per job","Driver::GenerateECsAndCheckProperties"),("figures printed","main"),("counters by type","type_to_rr_count")],["console output with --stats"])
p("C37","Options change only what they name",
 "Every combination of --jobs, --output, --stats, --log, --verbose and --lint, in every order and spelling, produces the same report, in the file named by --output or output.json; --log writes log.txt, --verbose adds only trace entries to it, --lint writes lint.json; nothing else is written and no input file is changed. Help and version write nothing and succeed; a call the usage does not allow fails and writes nothing.",
 ["inputs","configurations"],"all 16 combinations of the four switches x spelling and order x place of the output x older files in place, on bounded configurations; calls the usage does not allow",
 "No test runs the program.",
 [MN,DR,UT],[("options","main"),("lint","LintUtils::WriteIssueToFile"),("writer","Driver::WriteViolationsToFile")],["files in the current directory","output file","console","exit status"])
p("C38","The exported graphs show the resolutions and redirections",
 "The label graph written for inspection has exactly the names of the configuration's zones, each below its parent, and one redirection from the owner of every DNAME record to its target; the interpretation graph of a query has exactly the steps of its resolution: every (name server, query, types) reached, with the answer given there, a query step for every server name without glue, and an edge, marked when it is a side query, from each step to each step that follows.",
 ["inputs","configurations"],"every bounded configuration of the multi-zone worlds; on each every name of the zones, an unlisted name below each, further names, and several type sets",
 "Tests compare one or two small graphs by vertex and edge count.",
 [IG,LG],[("resolution","interpretation::Graph::QueryResolver"),("server by server","interpretation::Graph::NsSubRoutine"),("label graph","label::Graph")],["GenerateDotFile of both graphs"])
p("C39","Every record type is kept apart and answered under its own name",
 "Each of the thirteen record types a job can ask for (A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF) is recognised in the zone file, answered exactly when that type is asked for, named correctly in the report, and unaffected by records of the other types at the same name; records of other types influence nothing. This holds at ordinary names, wildcards, the apex, alias targets, empty non-terminals, below zone cuts and in diverging copies.",
 ["inputs","configurations"],"every record of each of the 13 types (and DS) at each of 8 places, every pair of them, every triple at one name, all types but one at one place in both orders, asked for by each type of the records, all those types, and all types together",
 "Tests use A, NS, CNAME, DNAME, MX and TXT at a few names; the tables that map type names to types, type bits and answers are only right if every type is in its place.",
 [ZG,PR,UT,ZP,RRF],[("type names","TypeUtils"),("answers by type","zone::Graph::QueryLookUpAtZone"),("type list","ParseZoneFile")])
p("C40","Files are read from where the command line and the metadata name them",
 "The metadata is read from the given zone directory, each zone file from its name relative to that directory, and the job file from its path relative to the current directory, however directory and names are spelled; files of the same names elsewhere, and files not named, have no influence, one file may serve several name servers, and a named zone file that is not there is an error even if one of that name exists elsewhere.",
 ["inputs","environments"],"15 spellings of the directory x 14 forms of file names (sub-directories, parent directories, blanks, case, leading dots and dashes, non-ASCII, long) x 6 spellings of the job file, on configurations of every family, with misleading files everywhere else; each zone file missing in turn",
 "No test runs the program; unit tests hand in text and paths of their own.",
 [MN,DR],[("command line","main"),("metadata path","Main"),("zone file path","Driver::SetContext")],["output file","exit status"])
p("C41","Zones unrelated to a job do not change its verdicts",
 "The report of a job about a domain depends only on the zones its resolutions can reach: adding any number of zones for other names, at the same servers or at others, with many siblings, many records, deep names, redirections of their own, names that look like the job's, or records that point at the job's names, changes nothing.",
 ["inputs","configurations"],"base configurations of every family with at most one deviation x 8 kinds of unrelated zones x 1 to 1100 zones, records or names (counts around powers of two and the index threshold) x 3 places in the file list, jobs at every domain of the family",
 "Tests use one to three zones; table sizes, zone numbering and name matching only show with many zones or names that nearly match.",
 [DR,LG,ZG,IG],[("zone numbering and lookup by server","Driver::SetContext"),("zone choice","Context"),("name matching","label::Graph")])
p("C42","No input makes the library read or write memory that is not its own",
 "Whatever the zone files, metadata and jobs contain, the library ends a run by returning or by throwing an exception it documents (or by ending the program with an error message); it never reads or writes outside its objects, uses freed or uninitialised-by-construction objects, overflows, divides by zero, recurses without bound or aborts.",
 ["inputs"],"every configuration of the families with at most two deviations with every property, every sequence of up to 3-4 zone file tokens, every token put into, taken out of or replaced in a full set of records, every prefix and byte replacement, odd names (empty, dots, escapes, over-long) at every place for names, deep names and long records, in a build with AddressSanitizer and UndefinedBehaviorSanitizer",
 "Tests run well-formed files without sanitizers; an access beyond the end of a label list or a table usually yields a plausible result.",
 [ZP,LG,ZG,IG,PR,UT,DR],[("parser","ParseZoneFile"),("label graph","label::Graph"),("names","LabelUtils"),("types","TypeUtils")])
p("C43","What labels are called makes no difference",
 "Names have no meaning beyond their structure: renaming the labels of a configuration and of its jobs, different labels to different labels, renames the report in the same way and changes nothing else, whether labels are beginnings or ends of each other, spelled like record types, classes, numbers, or values, contain escaped dots and backslashes, hyphens, underscores or characters special to formats and patterns, are as long as allowed, or sort the other way round.",
 ["inputs","configurations"],"every configuration of the families with at most two deviations under 15 renamings of all its labels, jobs with every property at three domains",
 "Tests use one spelling per configuration; comparing names as text, by parts of labels, or passing them through formats and patterns is right for most spellings.",
 [ZP,LG,ZG,IG,PR,UT,DR],[("names","LabelUtils"),("name matching","label::Graph"),("parser","ParseZoneFile")])
p("C44","No quantity is special",
 "Every verdict is exact whatever the quantities: any number of servers of a zone, top servers, addresses of a server, records of a name, names with a violation, zones inside each other, jobs, properties and values of a property; aliases, redirections, delegations and name server look-ups of any number of steps, names of any depth, data of any length, and zone files of any length, wherever among them the one thing lies that makes a difference.",
 ["inputs","configurations"],"15 shapes with one or two sizes, each explored for every size from 1 to a bound (7 to 140, more at thorough) and for sizes around powers of two up to 70000, with every kind of deviation at every place, reported entries compared with the reference for jobs with every property",
 "Tests use two servers, chains of two steps and files of a few lines; limits, counters, buffers and shortcuts for the first few show only above their size.",
 [ZP,LG,ZG,IG,PR,DR],[("resolution","interpretation::Graph"),("classes","label::Graph"),("path checks","Properties"),("queues","Driver")])
for x in P: print(json.dumps(x))
