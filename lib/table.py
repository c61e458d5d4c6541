"""What each check is: runner, bounds, wording for MANIFEST and evidence."""
A_REF = "The reference model (src/ref.hpp) states what is right; it is written independently of the implementation and compared with it on every execution."
A_FIB = "Executions run under a deterministic cooperative scheduler with a stand-in for moodycamel::ConcurrentQueue; thread interleavings are the subject of C27/C28."
A_SMALL = "Small-scope: configurations beyond the stated bounds are not explored."
A_NOBIN = "The library is driven through Driver's public interface as bin/groot.cpp does; the program itself is exercised by C32/C33."
WORLD = "eight families of zone configurations (single zone; parent/child cut with two servers; two diverging copies; three nested zones with five files; mutually dependent server names; chains of CNAMEs and DNAMEs; two copies of a root zone with differing glue; three servers with copies of a zone and of a zone below), each with 25-29 records or zone files toggled, every choice of at most k deviations (main job k=3 quick, 4 thorough; jobs per domain and type set one less); type sets include DNAME, alone and with A; jobs for every name that exists or is redirected to (k=1 quick, 2 thorough unless stated); DNAME configurations whose classes or resolution exceed the cap of the reference are counted as skipped_runs"
MC = "explicit-state model checking: exhaustive bounded enumeration of zone configurations, reference state graph vs. real implementation on every one"
def W(bounds=WORLD, tech=MC, rule="a case is one zone configuration of the enumeration; executions are runs of the real library on it; an outcome is non-trivial if it contains an entry of the property", note="", runner="plain", extra=()):
    return dict(runner=runner, bounds=bounds, technique=tech, rule=rule, assumptions=[A_REF, A_FIB, A_SMALL, A_NOBIN] + list(extra),
                level_note=note or "Exact: report equals the reference's report on every configuration and job within the bounds; nothing is sampled. Trusts the reference model (src/ref.hpp) and the small-scope bounds.")
CUTS = "; every delegation of a name to any of 3 servers (in the child, in the parent, elsewhere): name server and address records of the parent (7 toggles) and of the child (6), which servers have the child zone (8 subsets), one record a single copy has or lacks (3, thorough 6)"
LONG = "; every configuration with at most 2 deviations with labels of 60, 41 and 27 octets (names grown by redirections reach the limit), 3 jobs"
REDIR = "; every way of redirecting three names to each other by DNAME, CNAME or wildcard in two copies of a zone (6400 configurations), 13 jobs each"
DEEP = "; every configuration with at most 1 (thorough 2) deviation moved as a whole to below v.w.x., a.e. and a name of 40 labels"
TTLS = "; every record of every configuration with at most 1 (thorough 2) deviations with TTL 0, alone and all of them together"
MORE = {"C08": REDIR + LONG + "; names of existing or redirected jobs up to k=2 (thorough 3)", "C11": REDIR + LONG + "; classes of chosen types (7)", "C13": REDIR + LONG, "C10": "; classes of chosen types (7)", "C16": REDIR, "C24": REDIR + LONG, "C26": REDIR + LONG, "C17": CUTS + ", with the other servers unknown, known, or reached after a rewrite (3)", "C18": CUTS, "C19": CUTS + "; configurations with at most 2 deviations with the files in every rotation and reversed", "C20": CUTS, "C23": TTLS}
for _p in ("C12", "C13"): MORE[_p] = MORE.get(_p, "") + "; every allowed number within one of 2^7, 2^8, 2^15, 2^16, 2^31, 2^32, 2^33, 2^53 and 2^62 on every configuration with at most 1 (thorough 2) deviation"
MORE["C18"] += TTLS; MORE["C19"] += TTLS; MORE["C24"] += "; 0..9 canonical names with 0..6 aliases each, in chains or not, in both orders"
CHECKS = {p: W(bounds=WORLD + MORE.get(p, "") + DEEP) for p in "C08 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C26".split()}
FAM = "the eight families of zone configurations (worlds: single, cut, copies, nested, sidequery, chains, tops, three)"
DIFF = "Deciding comparison is between runs of the real code (no reference needed for the verdict); exhaustive within the bounds."
RULE2 = "a case is one member of the enumeration; executions are runs of the real library; an outcome is non-trivial if the compared report is not empty"
CHECKS.update({
 "C02": W("every sequence of records after the SOA and NS over 33 records (admissible ones, duplicates, TTL variants, second CNAME/DNAME, data beside CNAME, out of zone, over-long label/name/target at the exact limits, mixed case, second SOA, DS) of length 0..3, and over the first 14 of length 4; every sequence of up to 3 records over 16 of every type at one name and at a wildcard; one job with every property", rule=RULE2),
 "C03": W("every choice of at most 2 of 13 records x 499/500/501 filler siblings below e. or a.e. x filler before/among/after the records x 6 jobs with every property", rule=RULE2),
 "C25": W("DNAME target lengths 120..253 x owner lengths 2..133 around the 253 limit x every subset of 6 further records (alias, second DNAME step, wildcard, existing names) x target zone at the same or another server, 2 jobs; plus every configuration of the worlds with at most 2 deviations", rule=RULE2),
 "C29": W("a job with every property (or one about answers and delegations) at each domain, then a small job at each domain, with and without the names below, on every configuration with at most 1 deviation; every ordered pair of 9 jobs on every configuration with at most 2 deviations of "+FAM+" and every ordered triple on those with at most 1", rule=RULE2),
 "C30": W("every configuration with at most 2 deviations of "+FAM+" x 3 type sets: all 17 properties together, in reverse order, leaving each out, and (at most 1 deviation) every pair, against the union of the reports of the properties run alone (with two properties of the same types that cannot fail, neither of which looks at paths; and each with one that does and cannot fail)", note=DIFF, rule=RULE2),
 "C31": W("every conflict-free configuration with at most 2 deviations of "+FAM+": all permutations of the records after the SOA (up to 4; all transpositions and the reversal for more), permutations of the files, of the top servers, reversal of the properties", note=DIFF, rule=RULE2),
 "C34": W("every configuration with at most 2 deviations of "+FAM+": upper case and alternating case of all files, of the origin in the metadata with relative owners, of each file, of each record, of all and each server name, of the top servers, of the jobs, and all of it together", note=DIFF, rule=RULE2),
 "C35": W("every configuration with at most 3 deviations of "+FAM+", default job alone and after another job; with at most 1 (thorough 2) deviations also after a job with every property at each domain, twice with a job between, and before a job", rule=RULE2),
 "C09": W("every configuration with at most 2 deviations of "+FAM+"; on each, every concrete name of at most 3 labels over the labels of the configuration plus one new label is resolved by the reference, and whatever it violates must be reported for the class that covers it", rule="states are concrete queries resolved, transitions the steps of their resolutions; an outcome is non-trivial if the report is not empty"),
})
SCHED = "8 scenarios (one class, no class, aliases, several starting nodes, structural check, two jobs, loops, every property) with 2, 3 and 8 checking workers: every schedule that deviates at most 1-2 times (quick, 2 workers; up to 4 for the smallest at thorough; one less with 3 workers; with 8 workers at most 1 for the smallest, else none, thorough 1-2) from each of 12 deterministic base schedules (round robin up/down, creation preempts, each thread starved, strict priorities, delayed visibility of queue items); every synchronisation operation is a decision point, dequeues also choose the producer"
A_SCHED = ["Threads are fibers under a controlled scheduler (src/sched_rt.cpp); switches happen at synchronisation operations only, which is enough where the race detector finds no data race.", "moodycamel::ConcurrentQueue is replaced by a stand-in with its documented guarantees (FIFO per producer, no order across producers, an item may stay unseen until synchronisation makes it visible).", "Compiler and hardware reordering of atomics is not explored beyond the delayed visibility of queue items; the race detector judges memory orders."]
CHECKS["C27"] = dict(runner="sched", bounds=SCHED, technique="stateless model checking of the implementation: controlled scheduler, delay-bounded exhaustive exploration of thread interleavings", rule="a case is a first deviation; executions are whole jobs run under one schedule each; transitions are scheduling steps", assumptions=A_SCHED, level_note="Exhaustive within the deviation bound on every scenario; the output file, the class count and the statistics must be the same in every schedule and equal to the reference. The number of workers is 2, 3 and 8.")
CHECKS["C28"] = dict(CHECKS["C27"], technique="stateless model checking of the implementation with a happens-before race detector on every explored schedule", level_note="Same schedules as C27; every instrumented memory access is checked against a vector-clock happens-before relation. Accesses inside prebuilt libraries other than red-black tree updates and memory management are not seen.")
A_PARSE = "Names carry letters, digits and '*' only; TXT data is compared in lower case; multi-line quoted strings, trailing escaped dots and '@' in $ORIGIN are not claimed."
CHECKS.update({
 "C04": W("9 zone files (plain, two with owner labels that are type/class mnemonics or numbers, cut/DNAME/wildcard, two with names in PTR, SRV, SOA, NSEC and RRSIG data, escaped quotes, semicolons, parentheses, dots and backslashes, repeated owners, root zone) x every choice of at most 2 (thorough 3) presentation deviations: per record 6 ways of writing the owner, 8 of TTL/class, 3 of the type, 4 separators, 8 line ends/comments, 6 of the data, 9 of parentheses, 22 preceding lines ($ORIGIN, $TTL, blank, comments, ignored records), the same deviation on all records at once, Origin in the metadata, no final newline; the report of one job with every property, per type, must equal the reference's report on the records denoted", rule=RULE2, extra=[A_PARSE]),
 "C05": W("every sequence of length at most 4 (thorough 5) over $TTL v, record with TTL v, record without TTL, record of an unhandled type with TTL v, v in {0, 60, 2^31-1, 2^31, 2^32-1}, after an SOA with TTL / with $TTL / with both; each record's TTL is read off by duplicates of it with every candidate TTL (lint) and by Zero TTL reports", rule=RULE2, extra=[A_PARSE]),
 "C06": W("every sequence of at most 3 (thorough 4) of 22 lines (good, rejected in every category, multi-line, missing glue, bytes outside ASCII) in one file; every pair of short sequences in two files; 0..70 (thorough 400) and up to 65537 (200000) lines of 6 kinds before and between rejected records; 1..14 (40) files; every configuration with at most 2 (thorough 3) deviations of "+FAM+"; report with lint must equal report without", rule="a case is one list of zone files; executions are runs of the real library on it; an outcome is non-trivial if the lint report has an entry", extra=[A_PARSE]),
})
A_UNIT = "The zone is loaded through Driver::SetContext and looked up through zone::Graph::QueryLookUpAtZone, the interface the project's own unit tests use; answers are compared as sets of (tag, types, records)."
CHECKS.update({
 "C01": W("three zones (apex e., the root, a.b.e.), every set of at most 4 (5 in the two smaller zones; one more at thorough) of 32/18/16 records (cuts, glue, wildcards, empty non-terminals, CNAME, DNAME, NS at a wildcard, DNAME at the apex, unknown types, duplicates and conflicts), in file order and reversed; on each, every name of at most 3 labels below the apex over 4-5 labels and 'any other label' below every existing name x 11 type sets", rule="a case is one zone; transitions are lookups compared with the reference; every lookup has an answer", extra=[A_UNIT]),
 "C07": W("every text of at most 9 (thorough 10) characters over {a, b, Z, dot, backslash} that is a name without empty labels; every pair (and list of two) of names of at most 4 labels over {a, aa, b, *}; every sequence of at most 5 label lengths over 13 lengths around the limits, every total length 2..258 with every number of labels", rule="a case is a text, a name or a sequence of lengths; transitions are results compared", note="Exact within the bounds, on the library functions themselves (LabelUtils, ResourceRecord).", extra=["Texts with empty labels or a dangling backslash are not names and are not claimed."]),
})
A_PROG = ["The program is built from /repo's bin/ and src/ with -DNDEBUG, as the project's own release build does, and run with its real threads, queues and files; thread schedules are the subject of C27/C28.", A_REF, A_SMALL]
CHECKS["C32"] = dict(runner="prog", bounds="the program itself: every configuration with at most 2 (thorough 3) deviations of "+FAM+" x 3 job files, each run twice (once with an older, longer report in place), and without a job file with at most 1 deviation; every byte and every pair of bytes (quick: pairs with one byte outside printable ASCII) in quoted data, every byte in unquoted data and owner names, UTF-8 sequences around every class of lead byte; the output must be a valid list, the reference's report, without a repeated entry, and the same in two runs", technique=MC, rule="a case is a configuration or a zone file of 240 records; executions are runs of the program; an outcome is non-trivial if the report has an entry", assumptions=A_PROG, level_note="Exact within the bounds, on the program itself.")
CHECKS["C33"] = dict(runner="prog", bounds="the program itself on a good input and every single departure from it: every prefix of metadata.json and jobs.json, every byte removed or replaced by 3 (thorough 12) others, every JSON value replaced by each of a list of other values, removed or repeated; every list of at most 3 of 5 top servers and one known at every place among 5 and 20; every file missing, empty, a directory, a dangling or circular link; zone files without record, with the SOA at every other place or absent, with a syntax error at every place; output not writable; and a fault (errors, short transfers, interruption, kill) at every I/O operation of a run, once or from then on, with and without an older output; lint.json not writable in four ways and a fault at every I/O operation of a run with --lint", technique="exhaustive enumeration of input deviations and fault injection at every I/O operation of the real program, judged against the reference model", rule="a case is one departure; executions are runs of the program", assumptions=A_PROG, level_note="Exhaustive over single departures and single fault points. Values whose meaning is not documented (objects for lists, empty lists, names without final dot) are only required not to crash or produce a malformed report.")
CHECKS["C36"] = dict(runner="prog", bounds="the program itself with --stats: every configuration with at most 2 (thorough 3) deviations of "+FAM+" with one job and with five jobs (one outside every zone, one without legal classes, one repeated); every sequence of at most 2 (thorough 3) of 27 records of every kind and every reason for rejection, in one file and in two, with and without lines that are ignored; 0..40 names x 4 patterns of aliases", technique=MC, rule="a case is a configuration with its jobs; executions are runs of the program; states and transitions are those of the reference's resolutions; an outcome is non-trivial if some class is checked", assumptions=A_PROG, level_note="Exact within the bounds, except that with DNAME records the number of classes is only bounded from below, and mean and median by minimum and maximum, because classes shared by several names are counted for each.")
CHECKS["C37"] = dict(runner="prog", bounds="the program itself: all 16 combinations of --stats, --log, --verbose, --lint x 3 ways of ordering and spelling x 3 places of the output, with older files in place for half of them, on every configuration with at most 1 (thorough 2) deviations of "+FAM+" (quick: all on the base, a third of the combinations on each other); 18 calls for help, version or against the usage", technique=MC, rule="a case is a configuration with a command line; executions are runs of the program", assumptions=A_PROG, level_note="Exact within the bounds: report, set of files, contents of untouched files and kind of log entries.")
CHECKS["C38"] = W("every configuration with at most 3 (thorough 4) deviations of "+FAM+"; on each with at most 2 (thorough 3) deviations every name of the zones and every name of at most 3 labels over their labels and two new ones, itself and 'any other label' below it, x 6 type sets; on the others, and on every way of redirecting three names in two copies of a zone, every name of the zones x 2 type sets", rule="a case is one configuration; executions are graphs compared; states and transitions are steps and edges of the reference's resolutions; an outcome is non-trivial if the resolution has more than two steps", extra=["Graphs are observed through GenerateDotFile, via the friend class the project's own unit tests use; they are compared as multisets of node labels and of labelled edges."])
CHECKS["C40"] = dict(runner="prog", bounds="the program itself: 15 spellings of the zone directory x 14 forms of zone file names x 6 spellings of the job file on the base configuration of "+FAM+", and every 127th combination, rotating, on each configuration with one deviation (thorough: every 31st, two deviations); different files of the same names in the current directory, its parent and every other directory involved; each zone file missing in turn for every directory and form. Absolute zone file names are left out (not specified)", technique=MC, rule="a case is a configuration with its layout of files and command line; executions are runs of the program", assumptions=A_PROG, level_note="Exact within the bounds: the report equals the reference's for the named files; a missing file gives a non-zero exit status.")
CHECKS["C41"] = W(FAM+" with at most one (thorough two) deviations x 8 kinds of unrelated zones (zones at the first server, at servers of their own, zones pointing at the names of the job, many siblings, many records at one name, a deep name, 17 zones with names that look alike, a ring of redirections) x 1..1100 of them (25 counts, around powers of two and 500) x 3 places in the list of files, a job with every property at each domain of the family; with a deviation every 3rd of these (every 13th above 16 zones), rotating; thorough also 4096, 65534 and 65537 zones; expected is the reference's report for the configuration without them", rule="a case is a configuration with its unrelated zones; executions are runs of the real library; an outcome is non-trivial if the report is not empty")
CHECKS["C39"] = W("records of 14 types (the 13 supported ones and DS) at 8 places (name, wildcard, alias target, apex, below a name, behind a wildcard alias into a delegated zone, and the same in a second copy with TTL 0 for some): every single record (with every requested type and 6 job domains), every pair, every triple at one name (thorough: at four places, each record also with TTL 0), and all types but one at each place in both orders; jobs ResponseReturned, ResponseConsistency, ZeroTTL and two ResponseValues for each type present, for all types present, and for all 13", rule="a case is one set of records; executions are runs of the real library; an outcome is non-trivial if the report is not empty")
CHECKS["C42"] = W("every configuration with at most 2 (thorough 3) deviations of "+FAM+" with three jobs of every property; every sequence of 1-3 of 28 zone file tokens with and without a proper beginning, of 4 (thorough 6) of the first 10 and 4 of the first 12 (thorough 20) after it; every token inserted at, replacing or (pairs) removed from every place of a full set of records; every prefix of it and every byte of it replaced by 10 others; 34 odd names x 34 at each of 5 kinds of places (job domain and property values, server, owner and data, with and without DNAME, origin); names of 1..130 labels with records at every level; records of 1000..70000 bytes; the 15 shapes of C44 with all their sizes; built with AddressSanitizer, UndefinedBehaviorSanitizer and the standard library's own checks", rule="a case is one input; executions are runs of the real library; an outcome is non-trivial if the report is not empty", runner="asan", note="Exhaustive within the bounds; what is judged is the absence of sanitizer reports, aborts, signals and undocumented exceptions, not the report (the subject of the other checks).")
CHECKS["C43"] = W("every configuration with at most 2 (thorough 3) deviations of "+FAM+" under 15 renamings of all its labels (each the end of the next, the beginning of the next, of the one before; types, classes and numbers, two ways; escaped dots; escaped backslashes; hyphens and underscores; digits; 30 octets that differ at the end or the beginning; 63 octets; reversed order; characters of formats and patterns, two sets), three jobs with every property", rule="a case is one renamed configuration; executions are runs of the real library; an outcome is non-trivial if the report is not empty")
CHECKS["C44"] = W("15 shapes, each for every size n from 1 to a bound (quick/thorough: alias chains 50/112 and up to 300 over one or two servers with 7 ends; delegations in a row 17/41 with 7 deviations at every step; servers of a zone 15/32 with 9 deviations at every server; top servers 17/48 with 7; records of a name 42/112 and up to 257 with 5; names of 25/58 and up to 124 labels with 7 kinds of record at every depth; redirections in a row 20/48; nested zones at one server 17/48; name server look-ups in a row 14/22; servers looked up elsewhere 18/40; addresses of a server 21/54; data of 1..100/480 and up to 70000 bytes; jobs and values 42/112 and up to 300; names with a violation 87/224 and up to 1100; trees of names; 7 kinds of padding of 0..140/600 and up to 65538 bytes or lines at 3 places of a zone file)", rule="a case is a shape with its sizes and deviation; executions are runs of the real library; an outcome is non-trivial if the report is not empty")
NOT_APPLICABLE = {}
