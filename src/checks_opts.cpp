// C36 and C37: what the program prints with --stats, and what its options write where.
#include "check.hpp"
#include "prog.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
namespace chk {
using ref::toName; using ref::lower; using prog::dir; using prog::put; using prog::get; using prog::del;
// the zone files of a configuration, metadata and jobs in the private directory
static void place(const Config &cfg, const vector<json> &jobs, const string &extra = "") {
    string d = dir(); json m = metadataOf(cfg, [&] { vector<string> f; for (size_t i = 0; i < cfg.files.size(); i++) { f.push_back("f" + std::to_string(i)); put(d + f.back(), world::render(cfg.files[i].lines) + (i ? "" : extra)); } return f; }());
    put(d + "metadata.json", m.dump()); put(d + "jobs.json", json(jobs).dump()); }
static vector<string> lines(const string &s) { vector<string> v; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == string::npos) b = s.size(); v.push_back(s.substr(a, b - a)); a = b + 1; } return v; }
static bool after(const string &l, const string &key, string &rest) { size_t i = l.find(key); if (i == string::npos) return false; rest = l.substr(i + key.size()); return true; }
static bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-4 * std::max(1.0, std::abs(b)); }

// ---- C36 ----
namespace {
struct Counts { long parsed = 0; map<string, long> kinds; };
Counts countsOf(const Config &cfg) { Counts k; for (auto &f : cfg.files) { ref::Zone z; for (auto &l : f.lines) { auto x = world::split(l); k.parsed++;
    switch (z.admit({toName(lower(x.owner)), ref::tyOf(x.type), x.ttl, lower(x.data)})) {
    case ref::OK: k.kinds[x.type]++; if (x.owner.compare(0, 2, "*.") == 0) k.kinds["Wildcard"]++; break;
    case ref::DUP: k.kinds["Duplicate-Records"]++; break; case ref::TWO_CNAME: case ref::TWO_DNAME: case ref::CNAME_DATA: k.kinds["CNAME/DNAME Errors"]++; break; case ref::OUTSIDE: k.kinds["Out-of-Zone-Records"]++; break;
    default: { bool label = false; auto look = [&](const ref::Name &n) { bool r = false; for (auto &s : n) r |= s.size() > 63; return r; }; auto o = toName(lower(x.owner)); label = ref::legal(o) ? look(toName(lower(x.data))) : look(o); k.kinds[label ? "Label Length Exceeded" : "Domain Length Exceeded"]++; } } } } return k; }
struct Figures { double max = 0, min = 0, sum = 0, mean = 0, median = 0; int n = 0; };
Figures figures(vector<double> v) { Figures f; f.n = (int)v.size(); if (v.empty()) return f; std::sort(v.begin(), v.end()); f.min = v[0]; f.max = v.back(); for (double x : v) f.sum += x; f.mean = f.sum / v.size(); f.median = v.size() % 2 ? v[v.size() / 2] : (v[v.size() / 2 - 1] + v[v.size() / 2]) / 2; return f; }
void statsCase(Ctx &c, const Config &cfg, const vector<Job> &js, const string &extra = "") {
    auto w = world::model(cfg); vector<ref::Expected> es; for (auto &j : js) { es.push_back(ref::expect(w, j, c.cap)); if (es.back().skipped) { c.skipped++; return; } for (auto &g : es.back().graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } }
    vector<json> jj; for (auto &j : js) jj.push_back(j.toJson()); place(cfg, jj, extra); string d = dir();
    auto r = prog::run({d, "--jobs=" + d + "jobs.json", "--stats", "--output=" + d + "out.json"}, d + "out.json"); c.execs++;
    auto fail = [&](json why) { json x = describe(cfg, jj); x["why"] = why; x["console"] = r.console; if (extra.size()) x["appended to the first zone file"] = extra; c.violate(x); };
    if (!r.ok()) fail("exit status " + std::to_string(r.status));
    Counts k = countsOf(cfg); size_t entries = 0; try { entries = json::parse(r.out).size(); } catch (std::exception &) { fail("the output is not valid JSON"); }
    long parsed = -1, ecsAll = -1, viol = -1; bool haveTypes = false; map<string, long> kinds; vector<long> ecs; vector<std::array<double, 4>> vs, edges; long names = -1; string shape;
    for (auto &l : lines(r.console)) { string x;
        if (after(l, "Total number of RRs parsed across all zone files: ", x)) parsed = atol(x.c_str());
        else if (after(l, "RR Stats: ", x)) { haveTypes = true; size_t a = 0; while (a < x.size()) { size_t b = x.find(", ", a); if (b == string::npos) b = x.size(); string t = x.substr(a, b - a); size_t q = t.rfind(':'); if (q != string::npos && !kinds.insert({t.substr(0, q), atol(t.c_str() + q + 1)}).second) fail("a kind is listed twice"); a = b + 2; } }
        else if (after(l, "Label Graph: vertices = ", x)) names = atol(x.c_str());
        else if (after(l, "Number of ECs: ", x)) ecs.push_back(atol(x.c_str()));
        else if (after(l, "Interpretation Graph Vertices: ", x) || after(l, "Interpretation Graph Edges: ", x)) { std::array<double, 4> v{-7, -7, -7, -7}; int i = 0; for (auto key : {"Max=", "Min=", "Mean=", "Median="}) { string y; if (after(x, key, y)) v[i] = strtod(y.c_str(), nullptr); i++; } (l.find("Vertices") != string::npos ? vs : edges).push_back(v); }
        else if (after(l, "Total number of ECs across all jobs: ", x)) ecsAll = atol(x.c_str());
        else if (after(l, "Total number of violations: ", x)) viol = atol(x.c_str()); }
    if (parsed != k.parsed) fail({{"records parsed", parsed}, {"expected", k.parsed}});
    if (!haveTypes || kinds != k.kinds) fail({{"kinds of records", kinds}, {"expected", k.kinds}});
    long wantNames = (long)ref::NameGraph(w).names.size(); if (names != wantNames) fail({{"names", names}, {"expected", wantNames}});
    if (ecs.size() != js.size() || vs.size() != js.size() || edges.size() != js.size()) fail({{"figures of jobs", ecs.size()}, {"jobs", js.size()}});
    // a class that several names below DNAME records share is generated, and counted, for each of them
    bool redirected = false; for (auto &z : w.zones) for (auto &r : z.rrs) redirected |= r.type == ref::DNAME;
    long total = 0; for (size_t i = 0; i < js.size(); i++) { auto &e = es[i]; long n = (long)e.classes.size(); total += ecs[i]; if (redirected ? ecs[i] < n || (!n && ecs[i]) : ecs[i] != n) fail({{"job", i}, {"classes", ecs[i]}, {"expected", n}}); shape += std::to_string(n) + ";";
        vector<double> gv, ge; for (auto &g : e.graphs) { gv.push_back((double)g.n.size()); size_t q = 0; for (auto &v : g.n) q += v.out.size(); ge.push_back((double)q); } if (!n) continue;
        for (int what = 0; what < 2; what++) { auto f = figures(what ? ge : gv); auto &got = (what ? edges : vs)[i]; for (double x : what ? ge : gv) shape += std::to_string((int)x) + ",";
            if (!near(got[0], f.max) || !near(got[1], f.min) || (redirected ? got[2] < f.min || got[2] > f.max || got[3] < f.min || got[3] > f.max : !near(got[2], f.mean) || !near(got[3], f.median))) fail({{"job", i}, {what ? "edges" : "vertices", {{"max", got[0]}, {"min", got[1]}, {"mean", got[2]}, {"median", got[3]}}}, {"expected", {{"max", f.max}, {"min", f.min}, {"mean", f.mean}, {"median", f.median}}}, {"values", what ? ge : gv}}); } }
    if (ecsAll != total) fail({{"classes of all jobs", ecsAll}, {"expected", total}});
    if (viol != (long)entries) fail({{"violations", viol}, {"entries in the report", entries}});
    c.outcome(json(kinds).dump() + shape + std::to_string(viol), total > 0); if (c.samples.size() < 2) { auto s = describe(cfg, jj); s["console"] = r.console; c.sample(s); }
}
}
static Reg c36("C36", [](Ctx &c) {
    string l64(64, 'x'), big = string(62, 'p') + "." + string(62, 'q') + "." + string(62, 'r') + "." + string(62, 's') + ".e.";
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 3 : 2, [&](long, auto mk) { for (int v = 0; v < 2; v++) { if (!c.mine()) continue; Config cfg = mk();
        if (v == 0) statsCase(c, cfg, {J(".", {P("Hops", 0)})});
        else statsCase(c, cfg, {J(spec.domains[1], fullSet(spec.hosts, {"A"})), J("nowhere.", {P("Hops", 0)}), J(l64 + ".", {P("Hops", 0)}), J(spec.domains.back(), {T(P("ZeroTTL"), {"NS"})}, false), J(spec.domains[1], fullSet(spec.hosts, {"A"}))}); }
        return true; });
    // records of every kind, accepted or not, in one file and in two
    vector<string> al{"a.e. A 1.1.1.1", "a.e. 600 A 1.1.1.1", "a.e. CNAME b.e.", "a.e. CNAME c.e.", "a.e. DNAME b.e.", "a.e. DNAME f.", "a.e. TXT t", "x.f. A 1.1.1.1", l64 + ".e. A 1.1.1.1", big + " A 1.1.1.1", "b.e. NS " + big, "b.e. CNAME " + l64 + ".f.", "e. SOA", "b.e. SOA", "a.e. DS 1.1", "*.e. TXT t", "*.a.e. A 1.1.1.1", "*.e. A 1.1.1.1", "* A 1.1.1.1", "a.e. MX 10 b.e.", "a.e. AAAA 1::1", "a.e. SRV 1.1", "a.e. PTR b.e.", "a.e. SPF x", "a.e. RRSIG x", "a.e. NSEC x.", "a.*.e. A 1.1.1.1"};
    int n = (int)al.size(); vector<int> s; std::function<void(int)> go = [&](int left) {
        for (int two = 0; two < 2; two++) for (int extra = 0; extra < 2; extra++) { if ((two || extra) && s.empty()) continue; if (!c.mine()) continue;
            Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}}; if (two) cfg.files.push_back({"ns2.e.", {"e. SOA", "e. NS ns2.e."}}); for (size_t i = 0; i < s.size(); i++) cfg.files[two ? i % 2 : 0].lines.push_back(al[s[i]]);
            for (auto &f : cfg.files) for (auto &l : f.lines) if (l.compare(0, 2, "* ") == 0) l = "*.f." + l.substr(1);
            statsCase(c, cfg, {J(".", {P("Hops", 0)})}, extra ? "h.e. IN HINFO x y\n; comment\n" : ""); }
        if (!left) return; for (int i = 0; i < n; i++) { s.push_back(i); go(left - 1); s.pop_back(); } };
    go(c.thorough ? 3 : 2);
    // many classes: the median of 1..n classes
    for (int k = 0; k <= 40; k++) for (int deep = 0; deep < 4; deep++) if (c.mine()) { Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}}; for (int i = 0; i < k; i++) cfg.files[0].lines.push_back("n" + std::to_string(i) + ".e. " + (i % 4 < deep ? "CNAME n" + std::to_string(i + 1) + ".e." : "A 1.1.1.1")); statsCase(c, cfg, {J("e.", {P("Hops", 0)}), J("n0.e.", {P("Hops", 0)}, false)}); }
});

// ---- C37 ----
static set<string> listing(const string &d) { set<string> s; if (DIR *p = opendir(d.c_str())) { while (auto *e = readdir(p)) { string n = e->d_name; if (n != "." && n != "..") s.insert(n); } closedir(p); } return s; }
static Reg c37("C37", [](Ctx &c) {
    string d = dir(), cwd = d + "cwd/"; mkdir(cwd.c_str(), 0700);
    auto clean = [&] { for (auto &f : listing(cwd)) del(cwd + f); };
    struct Opt { string name; vector<string> ways; }; vector<Opt> opts{{"stats", {"--stats", "-s"}}, {"log", {"--log", "-l"}}, {"verbose", {"--verbose", "-v"}}, {"lint", {"--lint"}}};
    auto fail = [&](const Config &cfg, const vector<json> &jj, const vector<string> &a, json why, const prog::Run &r) { json x = describe(cfg, jj); x["why"] = why; x["arguments"] = a; x["status"] = r.status; x["console"] = r.console.substr(0, 3000); x["files left"] = listing(cwd); c.violate(x); };
    auto one = [&](const Config &cfg, const vector<Job> &js, int mask, int order, int outWay, int stale) {
        auto w = world::model(cfg); set<json> want; for (auto &j : js) { auto e = ref::expect(w, j, c.cap); if (e.skipped) { c.skipped++; return; } for (auto &x : e.out) want.insert(canon(x)); for (auto &x : aliasItems(e.aliases)) want.insert(x); for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } }
        vector<json> jj; for (auto &j : js) jj.push_back(j.toJson()); place(cfg, jj); clean(); vector<string> files{"metadata.json", "jobs.json"}; for (size_t i = 0; i < cfg.files.size(); i++) files.push_back("f" + std::to_string(i)); vector<string> before; for (auto &f : files) before.push_back(get(d + f)); del(d + "out.json"); del(d + "elsewhere.json"); auto outside = listing(d);
        vector<string> a, tail; string cluster; for (int i = 0; i < 4; i++) if (mask >> i & 1) { if (order == 2 && opts[i].ways.size() > 1) cluster += opts[i].ways[1][1]; else a.push_back(opts[i].ways[order % opts[i].ways.size()]); } if (cluster.size()) a.push_back("-" + cluster);
        string out = outWay == 0 ? cwd + "output.json" : outWay == 1 ? d + "elsewhere.json" : cwd + "rel.json"; if (outWay == 1) tail.push_back("--output=" + out); if (outWay == 2) tail.push_back("--output=rel.json"); tail.push_back("--jobs=" + d + "jobs.json");
        vector<string> args; if (order == 1) { args = tail; args.push_back(d); args.insert(args.end(), a.begin(), a.end()); } else { args = a; args.push_back(d); args.insert(args.end(), tail.rbegin(), tail.rend()); }
        if (stale) for (auto f : {"log.txt", "lint.json", "lint.txt", "output.json", "rel.json"}) put(cwd + f, "[\n{\"Violation\": \"old\"}\n]\n");
        auto r = prog::run(args, out, {}, true); c.execs++; set<string> left = listing(cwd), expectLeft; auto bad = [&](json why) { fail(cfg, jj, args, why, r); };
        if (!r.ok()) bad("it failed"); set<json> got; try { json j = json::parse(r.out); size_t n = 0; for (auto &x : j) { got.insert(canon(x)); n++; } if (got.size() != n) bad("an entry is repeated"); got = pick(got, everyProp()); } catch (std::exception &e) { bad(string("report: ") + e.what()); } if (got != want) bad(diffJson(want, got));
        string old = "[\n{\"Violation\": \"old\"}\n]\n"; if (stale) expectLeft = {"log.txt", "lint.json", "lint.txt", "output.json", "rel.json"}; if (outWay == 0) expectLeft.insert("output.json"); if (outWay == 2) expectLeft.insert("rel.json"); if (mask & 2) expectLeft.insert("log.txt"); if (mask & 8) expectLeft.insert("lint.json");
        if (left != expectLeft) bad({{"files in the current directory", left}, {"expected", expectLeft}});
        if (stale) { if (outWay && get(cwd + "output.json") != old) bad("output.json is written although another output is named"); if (outWay != 2 && get(cwd + "rel.json") != old) bad("rel.json is touched"); if (!(mask & 2) && get(cwd + "log.txt") != old) bad("log.txt is touched without --log"); if (!(mask & 8) && get(cwd + "lint.json") != old) bad("lint.json is touched without --lint"); }
        string log = get(cwd + "log.txt"), lint = get(cwd + "lint.json");
        if (mask & 2) { if (log.find("\"old\"") != string::npos) bad("the log of an earlier run is kept"); for (auto key : {"Total number of RRs parsed across all zone files: ", "Number of ECs: ", "Total number of violations: "}) if (log.find(key) == string::npos) bad(string("the log lacks: ") + key); bool trace = log.find("[ trace ") != string::npos || log.find("trace") != string::npos, debug = log.find(" debug ") != string::npos; if (!debug) bad("the log has no debug entries"); if (trace != bool(mask & 4)) bad(trace ? "the log has trace entries without --verbose" : "the log has no trace entries with --verbose"); }
        if (mask & 8) { try { json j = json::parse(lint); if (!j.is_array()) bad("lint.json is not a list"); for (auto &x : j) if (x.dump().find("\"old\"") != string::npos) bad("lint.json keeps entries of an earlier run"); } catch (std::exception &e) { bad(string("lint.json: ") + e.what()); } }
        bool stats = r.console.find("Number of ECs: ") != string::npos; if (stats != bool(mask & 1)) bad(stats ? "statistics without --stats" : "no statistics with --stats"); if (r.console.find("trace") != string::npos || r.console.find(" debug ") != string::npos) bad("debug entries on the console");
        for (size_t i = 0; i < files.size(); i++) if (get(d + files[i]) != before[i]) bad("the input file " + files[i] + " was changed");
        outside.insert("console"); if (outWay == 1) outside.insert("elsewhere.json"); if (listing(d) != outside) bad({{"files beside the input", listing(d)}, {"expected", outside}});
        c.outcome(std::to_string(mask * 100 + order * 10 + outWay) + json(got).dump(), true); if (c.samples.size() < 2 && mask > 8) c.sample({{"arguments", args}, {"files left", left}, {"entries", got.size()}});
    };
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 2 : 1, [&](long i, auto mk) { for (int mask = 0; mask < 16; mask++) for (int order = 0; order < 3; order++) for (int outWay = 0; outWay < 3; outWay++) { if (i > 0 && !c.thorough && (order + outWay + mask + i) % 3) continue; if (!c.mine()) continue; Config cfg = mk();
        one(cfg, {J(".", fullSet(spec.hosts, {"A", "TXT"})), J(spec.domains[1], {P("Hops", 0)}, false)}, mask, order, outWay, (mask + order + outWay) % 2); } return true; });
    // help, version and what is no proper call: nothing is written
    Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}}; vector<json> jj{J(".", {P("Hops", 0)}).toJson()};
    struct Call { vector<string> a; bool ok; string shows; };
    vector<Call> calls{{{"-h"}, true, "Usage:"}, {{"--help"}, true, "Usage:"}, {{d, "--help"}, true, "Usage:"}, {{d, "-h", "--jobs=" + d + "jobs.json"}, true, "Usage:"}, {{"--version"}, true, "groot"}, {{d, "--version"}, true, "groot"}, {{}, false, ""}, {{"--stats"}, false, ""}, {{"--lint"}, false, ""}, {{"-l"}, false, ""}, {{d, d}, false, ""}, {{d, "--jobs"}, false, ""}, {{d, "--output"}, false, ""}, {{d, "-x"}, false, ""}, {{d, "-sx"}, false, ""}, {{d, "--stats=1"}, false, ""}, {{d, "--unknown"}, false, ""}, {{d, "jobs.json", "out.json"}, false, ""}};
    for (auto &k : calls) for (int stale = 0; stale < 2; stale++) if (c.mine()) { place(cfg, jj); clean(); if (stale) for (auto f : {"log.txt", "lint.json", "output.json"}) put(cwd + f, "old"); auto before = listing(cwd);
        auto r = prog::run(k.a, cwd + "output.json", {}, true); c.execs++; if (r.ok() != k.ok) fail(cfg, jj, k.a, k.ok ? "it failed" : "exit status 0", r); if (k.shows.size() && r.console.find(k.shows) == string::npos) fail(cfg, jj, k.a, "it does not show " + k.shows, r);
        if (listing(cwd) != before) fail(cfg, jj, k.a, "files are written", r); if (stale) for (auto f : {"log.txt", "lint.json", "output.json"}) if (get(cwd + f) != "old") fail(cfg, jj, k.a, string(f) + " is changed", r); c.outcome(json(k.a).dump(), true); }
});

// ---- C40: where files are looked for ----
static Reg c40("C40", [](Ctx &c) {
    string d = dir(), cwd = d + "cwd/"; mkdir(cwd.c_str(), 0700);
    struct Dir { string arg, real; }; const vector<Dir> dirs{{d + "in", "in/"}, {d + "in/", "in/"}, {"../in", "in/"}, {"../in/", "in/"}, {"./../in/.", "in/"}, {"../link", "in/"}, {"../link/", "in/"}, {d + "in/sub/..", "in/"}, {d + "/in//", "in/"}, {".", "cwd/"}, {"./", "cwd/"}, {"here", "cwd/here/"}, {"./here/", "cwd/here/"}, {d + "in dir \xc3\xa9/", "in dir \xc3\xa9/"}, {"../in.d", "in.d/"}};
    auto names = [](int form, size_t i) -> string { string n = std::to_string(i); switch (form) { case 0: return "f" + n; case 1: return "./f" + n; case 2: return "sub/f" + n; case 3: return "../side/f" + n; case 4: return "f " + n + ".zone.txt"; case 5: return (i % 2 ? "F" : "f") + std::to_string(i / 2); case 6: return ".f" + n; case 7: return "-f" + n; case 8: return string(200, 'f') + n; case 9: return "sub/../f" + n; case 10: return "\xc3\xa9 db." + n; case 11: return "sub//f" + n; case 12: return i % 2 ? "sub/f0." + std::to_string(i) : "f0." + n; default: return "metadata.json." + n; } };
    const int nforms = 14; struct Jf { string arg, real; bool split; }; const vector<Jf> jfs{{d + "jobs.json", "jobs.json", false}, {d + "jobs.json", "jobs.json", true}, {"../jobs.json", "jobs.json", false}, {"j.json", "cwd/j.json", false}, {"./j=1.json", "cwd/j=1.json", false}, {"../side/j 2", "side/j 2", true}};
    auto norm = [&](string p) { for (size_t i; (i = p.find("sub/../")) != string::npos;) p.erase(i, 7); for (size_t i; (i = p.find("//")) != string::npos;) p.erase(i, 1); if (p.compare(0, 2, "./") == 0) p.erase(0, 2); return p; };
    std::function<void(const string &)> wipe = [&](const string &p) { for (auto &f : listing(p)) { string q = p + f; struct stat st; if (!lstat(q.c_str(), &st) && S_ISDIR(st.st_mode)) wipe(q + "/"); if (q != d + "cwd") del(q); } };
    auto parent = [&](const string &p) { for (size_t i = d.size(); (i = p.find('/', i)) != string::npos; i++) mkdir(p.substr(0, i).c_str(), 0700); };
    auto write = [&](const string &p, const string &t) { parent(p); put(p, t); };
    auto one = [&](const Config &cfg, const vector<Job> &js, int di, int ff, int jf, int lost) {
        auto w = world::model(cfg); set<json> want; for (auto &j : js) { auto e = ref::expect(w, j, c.cap); if (e.skipped) { c.skipped++; return; } for (auto &x : e.out) want.insert(canon(x)); for (auto &x : aliasItems(e.aliases)) want.insert(x); for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } }
        wipe(d); string in = d + dirs[di].real; parent(in); for (auto x : {"sub/", "../side/"}) { mkdir((in + x).c_str(), 0700); } mkdir((d + "side").c_str(), 0700); if (symlink("in", (d + "link").c_str())) abort();
        // wrong files under the same names wherever else one might look
        string wrong = "e. 0 IN SOA m. h. 1 1 1 1 1\ne. 0 IN NS wrong.\n*.e. 0 IN CNAME wrong.\n"; vector<string> f; map<string, string> byText; map<string, string> real;
        for (size_t i = 0; i < cfg.files.size(); i++) { string t = world::render(cfg.files[i].lines), n = names(ff, i); if (byText.count(t)) n = byText[t]; byText[t] = n; f.push_back(n); real[in + norm(n)] = t; }
        for (auto &n : f) { string b = n.substr(n.rfind('/') == string::npos ? 0 : n.rfind('/') + 1); for (auto &p : {cwd + b, cwd + "sub/" + b, d + b, in + b, in + "sub/" + b, d + "side/" + b, d + "in/" + b, cwd + "side/" + b}) write(p, wrong); }
        for (auto &p : {cwd + "metadata.json", d + "metadata.json", in + "sub/metadata.json"}) write(p, json{{"TopNameServers", {"wrong."}}, {"ZoneFiles", json::array()}}.dump()); for (auto &p : {in + "jobs.json", cwd + "jobs.json", in + "j.json", d + "j.json", d + "in/j=1.json", d + "j 2"}) write(p, "[]");
        write(in + "unused.zone", wrong); write(in + "zzz", "$ORIGIN"); size_t k = 0; for (auto &[p, t] : real) { string other = p; size_t sd = other.find("/../side/"); if (sd != string::npos) { size_t up = other.rfind('/', sd - 1); other = other.substr(0, up) + other.substr(sd + 3); } if ((int)k++ == lost) { del(other); continue; } write(other, t); }
        if (lost >= (int)real.size()) return;
        write(in + "metadata.json", metadataOf(cfg, f).dump()); vector<json> jj; for (auto &j : js) jj.push_back(j.toJson()); write(d + jfs[jf].real, json(jj).dump());
        vector<string> a{dirs[di].arg}; if (jfs[jf].split) { a.push_back("--jobs"); a.push_back(jfs[jf].arg); } else a.push_back("--jobs=" + jfs[jf].arg); string out = d + "report.json"; a.push_back("--output=" + out);
        auto r = prog::run(a, out); c.execs++; auto bad = [&](json why) { json x = describe(cfg, jj); x["why"] = why; x["arguments"] = a; x["file names in metadata.json"] = f; x["directory"] = dirs[di].real; x["job file"] = jfs[jf].real; x["console"] = r.console.substr(0, 2000); x["status"] = r.status; c.violate(x); };
        if (lost >= 0) { if (r.ok()) bad("a zone file that does not exist where it is named is found, or ignored"); c.outcome("lost", true); return; }
        if (!r.ok()) bad("it failed"); set<json> got; try { json j = json::parse(r.out); for (auto &x : j) got.insert(canon(x)); got = pick(got, everyProp()); } catch (std::exception &e) { bad(string("report: ") + e.what()); } if (got != want) bad(diffJson(want, got));
        c.outcome(std::to_string(di * 1000 + ff * 10 + jf) + json(got).dump(), got.size()); if (di + ff + jf > 20) c.sample({{"arguments", a}, {"file names", f}, {"entries", got.size()}});
    };
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 2 : 1, [&](long i, auto mk) { int n = 0;
        for (size_t di = 0; di < dirs.size(); di++) for (int ff = 0; ff < nforms; ff++) for (size_t jf = 0; jf < jfs.size(); jf++) { n++; if (i > 0 && (n + i) % (c.thorough ? 31 : 127)) continue; if (!c.mine()) continue; Config cfg = mk(); one(cfg, {J(".", fullSet(spec.hosts, {"A", "TXT"})), J(spec.domains[1], {P("Hops", 0)}, false)}, (int)di, ff, (int)jf, -1); }
        if (i == 0) for (size_t di = 0; di < dirs.size(); di++) for (int ff = 0; ff < nforms; ff++) { bool up = ff == 3 || ff == 2 || ff == 11 || ff == 9; (void)up; for (int lost = 0; lost < 3; lost++) if (c.mine()) { Config cfg = mk(); one(cfg, {J(".", {P("Hops", 0)})}, (int)di, ff, 0, lost); } }
        return true; });
});
}
