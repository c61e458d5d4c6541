// C32 and C33: the program itself - its output file, its exit status, its reaction to bad input and to failing I/O.
#include "check.hpp"
#include "prog.hpp"
#include <sys/stat.h>
#include <unistd.h>
namespace chk {
using ref::toName; using ref::toText; using ref::lower; using prog::dir; using prog::put; using prog::del;
static set<string> everything() { auto s = everyProp(); s.insert("Cyclic Zone Dependency"); return s; }
static json repl(const json &j) { return json::parse(j.dump(-1, ' ', false, json::error_handler_t::replace)); }
// bytes of the zone data may not be UTF-8: U+FFFD stands for them in the output, however many
static string collapsed(string s) { const string f = "\xef\xbf\xbd"; for (size_t i; (i = s.find(f + f)) != string::npos;) s.erase(i, 3); return s; }
static json collapsed(const json &j) { if (j.is_string()) return collapsed(j.get<string>()); json r = j; if (j.is_structured()) for (auto it = r.begin(); it != r.end(); ++it) *it = collapsed(*it); return r; }

// ---- C32 ----
static Reg c32("C32", [](Ctx &c) {
    // every configuration of the families: the program's report is the reference's, as a valid list, in two identical runs
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 3 : 2, [&](long, auto mk) {
        for (int variant = 0; variant < 3; variant++) { if (!c.mine()) continue;
            Config cfg = mk(); auto w = world::model(cfg); vector<Job> js;
            if (variant == 0) js = {J(".", fullSet(spec.hosts, {"A", "TXT"}))};
            if (variant == 1) js = {J(spec.domains[1], fullSet(spec.hosts, {"CNAME", "NS"})), J(".", {P("Hops", 1), T(P("ZeroTTL"), {"A"})}), J(spec.domains[1], {P("Hops", 1), P("Rewrites", 0)}, false), J(".", {P("Hops", 1), T(P("ZeroTTL"), {"A"})})};
            if (variant == 2) js = {J(spec.domains.back(), {P("LameDelegation"), T(P("ResponseConsistency"), {"A", "MX"})}), J("nowhere.", {P("Hops", 0)})};
            bool skip = false; for (auto &j : js) skip |= ref::expect(w, j, c.cap).skipped; if (skip) { c.skipped++; continue; }
            compare(c, cfg, w, js, everything());
            vector<json> jj; for (auto &j : js) jj.push_back(j.toJson()); auto a = runConfig(cfg, jj), b = runConfig(cfg, jj); c.execs += 2;
            auto fail = [&](json why) { json d = describe(cfg, jj); d["why"] = why; d["output"] = a.raw; c.violate(repl(d)); };
            if (a.problem.size() || b.problem.size()) fail(a.problem + b.problem); if (a.raw != b.raw) fail({{"two identical runs differ", b.raw}}); if (a.list.size() != a.items.size()) fail("an entry is reported twice");
        }
        return true; });
    // the default job
    for (auto &spec : world::all()) world::enumerate(spec, 1, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg); Job d = J(".", {P("Hops", 2), P("Rewrites", 1), P("DelegationConsistency"), P("LameDelegation"), P("QueryRewrite", vector<string>{"."}), P("RewriteBlackholing")});
        auto e = ref::expect(w, d, c.cap); if (e.skipped) { c.skipped++; return true; } set<json> want; for (auto &x : e.out) want.insert(canon(x)); want = pick(want, everyProp()); auto o = runConfig(cfg, {json()}); c.execs++; auto got = pick(o.items, everyProp());
        if (o.problem.size() || want != got) { json x = describe(cfg, {}); x["why"] = o.problem.size() ? json(o.problem) : diffJson(want, got); c.violate(repl(x)); } return true; });
    // bytes: every byte, every pair of bytes, in quoted and unquoted data and in owner names; 240 records per zone file
    struct Put { string name, owner, data; };
    vector<Put> recs; auto flush = [&] {
        if (recs.size() && c.mine()) {
            string text = "e. 300 IN SOA m. h. 1 1 1 1 1\n"; set<string> want; for (auto &r : recs) { text += r.owner + " 0 IN TXT " + r.data + "\n"; want.insert(collapsed(repl(lower(r.owner) + "   TXT   " + lower(r.data)).get<string>())); }
            json m; m["TopNameServers"] = {"ns1.e."}; m["ZoneFiles"] = json::array({{{"FileName", api::fileFor(text)}, {"NameServer", "ns1.e."}}}); json job = J("e.", {T(P("ZeroTTL"), {"TXT"}), P("Hops", 5)}).toJson();
            auto o = api::runTool(m, api::scratch(), {job}); auto o2 = api::runTool(m, api::scratch(), {job}); c.execs += 2; c.states += recs.size(); c.transitions += recs.size();
            auto fail = [&](json why) { json d; d["files"]["zone0.txt"] = text; m["ZoneFiles"][0]["FileName"] = "zone0.txt"; d["metadata.json"] = m; d["jobs.json"] = {job}; d["why"] = why; c.violate(repl(d)); };
            if (o.problem.size()) fail(o.problem); if (o.raw != o2.raw) fail("two identical runs differ"); std::multiset<string> got; for (auto &x : o.list) if (x["Property"] == "Zero TTL") got.insert(collapsed(x["Violation"]["Record"].get<string>()));
            json mi = json::array(), un = json::array(); for (auto &x : want) if (got.count(x) != 1) mi.push_back({x, got.count(x)}); for (auto &x : got) if (!want.count(x)) un.push_back(x); if (mi.size() || un.size()) fail({{"records not reported exactly once", mi}, {"unexpected", un}});
            c.outcome(text, true); if (c.samples.size() < 2) c.sample({{"records", recs.size()}, {"first", repl(recs[0].owner + " TXT " + recs[0].data)}});
        }
        recs.clear(); };
    long serial = 0; auto add = [&](const string &ownerBytes, string data) { bool esc = false; if (data[0] == '"') { for (size_t i = 1; i + 1 < data.size(); i++) esc = data[i] == '\\' && !esc; if (esc) data.insert(data.size() - 1, "\\"); }   // an escaped quote ends no string
        string s = std::to_string(serial++); recs.push_back({s, "r" + s + ownerBytes + ".e.", data}); if (recs.size() == 240) flush(); };
    auto plainByte = [](int b) { return b > 32 && b != ';' && b != '(' && b != ')' && b != '"' && b != '\\'; };
    for (int b = 1; b < 256; b++) { if (b != '"' && b != '\n') add("", "\"x" + string(1, (char)b) + "y\""); if (plainByte(b) && b != '.' ) { add(string(1, (char)b) + "q", "z"); add("", "x" + string(1, (char)b) + "y"); } }
    for (int b = 1; b < 256; b++) { string e = "\\" + string(1, (char)b); if (b == '\r' || b == '\n') continue; add(e + "q", "z"); add("x" + e, "z" + e); add("", "x" + e + "y " + e); add("", "\"" + e + "\" " + e + e + " \"" + e + e + "\""); }
    flush();
    for (int b = 1; b < 256; b++) for (int d = 1; d < 256; d++) if (b != '"' && b != '\n' && d != '"' && d != '\n' && (c.thorough || b >= 128 || b < 32 || b == '\\' || d < 32 || d == '\\')) add("", "\"" + string(1, (char)b) + string(1, (char)d) + "\"");
    flush();
    for (int b : {0xc2, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf8}) for (int d = 128; d < 256; d++) for (int f : {0x7f, 0x80, 0xbf, 0xc0, 0x61}) { add("", "\"" + string(1, (char)b) + string(1, (char)d) + string(1, (char)f) + "\""); add(string(1, (char)b) + string(1, (char)d) + "k", "\"" + string(1, (char)f) + string(1, (char)b) + string(1, (char)d) + string(1, (char)0x80) + "\""); }
    flush();
});

// ---- C33 ----
namespace {
enum Verdict { FAIL, SUCCEED, FREE };   // FREE: not claimed
struct Input { json meta, jobs; map<string, vector<string>> zones; };
// what the metadata and the jobs denote
Verdict readMeta(const json &m, const map<string, vector<string>> &zones, ref::World &w) {
    if (!m.is_object() || !m.contains("TopNameServers") || !m.contains("ZoneFiles")) return FAIL; auto &t = m["TopNameServers"], &z = m["ZoneFiles"];
    auto isName = [](const json &j) { return j.is_string() && j.get<string>().size(); };
    if (!t.is_array()) return isName(t) ? FREE : FAIL; if (!z.is_array()) return z.is_object() && z.size() ? FREE : FAIL;
    w = {}; bool met = false; for (auto &x : t) { if (!x.is_string()) return FAIL; w.top.push_back(lower(x.get<string>())); }
    for (auto &x : z) { if (!x.is_object() || !x.contains("FileName") || !x.contains("NameServer") || !x["FileName"].is_string() || !x["NameServer"].is_string()) return FAIL; if (x.contains("Origin") && !x["Origin"].is_string()) return FAIL;
        string f = x["FileName"]; auto it = zones.find(f); if (it == zones.end()) return f.find_first_of("./") == 0 || f.empty() || f.find('/') != string::npos ? (prog::exists(dir() + f) ? FREE : FAIL) : FAIL;
        ref::Zone zo; zo.ns = lower(x["NameServer"].get<string>()); for (auto &t : w.top) met |= t == zo.ns;
        for (auto &l : it->second) { auto y = world::split(l); zo.admit({toName(lower(y.owner)), ref::tyOf(y.type), y.ttl, lower(y.data)}); } w.zones.push_back(zo); }
    if (!met) return FAIL;
    auto odd = [](const string &s) { return s.empty() || s.find("..") != string::npos || s[0] == '.' || s.back() != '.'; }; for (auto &t : w.top) if (odd(t)) return FREE; for (auto &z : w.zones) if (odd(z.ns)) return FREE;
    return SUCCEED; }
Verdict readJobs(const json &js, vector<Job> &out) {
    out.clear(); if (!js.is_array()) return FAIL; Verdict v = SUCCEED; auto free = [&] { if (v == SUCCEED) v = FREE; };
    static const map<string, int> kinds{{"Hops", 1}, {"Rewrites", 1}, {"QueryRewrite", 2}, {"NameserverContact", 2}, {"AllAliases", 2}, {"ResponseValue", 3}, {"ResponseConsistency", 4}, {"ResponseReturned", 4}, {"ZeroTTL", 4}, {"RewriteBlackholing", 0}, {"LameDelegation", 0}, {"DelegationConsistency", 0}, {"StructuralDelegationConsistency", 0}, {"DNAMESubstitutionCheck", 0}, {"InfiniteDNameRec", 0}};
    for (auto &j : js) {
        if (!j.is_object() || !j.contains("Domain") || !j["Domain"].is_string() || !j.contains("SubDomain") || !j["SubDomain"].is_boolean() || !j.contains("Properties") || !j["Properties"].is_array()) return FAIL;
        Job job; job.domain = lower(j["Domain"].get<string>()); job.sub = j["SubDomain"]; auto &d = job.domain; if (d != "." && (d.empty() || d.find("..") != string::npos || d[0] == '.' || d.back() != '.')) free();
        for (auto &p : j["Properties"]) {
            if (!p.is_object() || !p.contains("PropertyName") || !p["PropertyName"].is_string()) return FAIL; auto it = kinds.find(p["PropertyName"].get<string>()); if (it == kinds.end()) return FAIL; Prop q; q.name = it->first; int k = it->second;
            if (p.contains("Types")) { auto &t = p["Types"]; if (t.is_string() && ref::tyOf(t.get<string>()) < ref::NTY) { free(); continue; } if (!t.is_array() || t.empty()) return FAIL; q.hasTypes = true; for (auto &x : t) { if (!x.is_string() || ref::tyOf(x.get<string>()) >= ref::NTY) return FAIL; q.types.push_back(x); } } else if (k >= 3) free();
            if (k == 1) { if (!p.contains("Value") || !p["Value"].is_number_unsigned()) return FAIL; if (p["Value"] > 1000) free(); q.num = p["Value"]; }
            if (k == 2 || k == 3) { if (!p.contains("Value")) return FAIL; auto &x = p["Value"]; if (!x.is_array() || x.empty()) { bool bad = x.is_number() || x.is_boolean(); if (x.is_object()) for (auto &y : x) bad |= !y.is_string(); if (bad) return FAIL; free(); continue; } for (auto &y : x) { if (!y.is_string()) return FAIL; string s = lower(y.get<string>()); if (k == 2 && (s.empty() || s.find("..") != string::npos || s[0] == '.' || s.back() != '.')) free(); q.values.push_back(s); } }
            job.props.push_back(q); }
        out.push_back(job); }
    return v; }
}
static Reg c33("C33", [](Ctx &c) {
    map<string, vector<string>> zones{{"p.txt", {"e. SOA", "e. NS ns1.e.", "ns1.e. A 9.9.9.9", "a.e. NS ns1.a.e.", "ns1.a.e. A 1.1.1.1", "c.e. CNAME a.a.e.", "z.e. 0 TXT t"}}, {"k.txt", {"a.e. SOA", "a.e. NS ns1.a.e.", "ns1.a.e. A 1.1.1.2", "a.a.e. 0 A 1.1.1.3"}}, {"k2.txt", {"a.e. SOA", "a.e. NS ns2.a.e.", "a.a.e. 0 A 1.1.1.4"}}};
    json meta; meta["TopNameServers"] = {"ns1.e.", "ns9.e."}; meta["ZoneFiles"] = json::array({{{"FileName", "p.txt"}, {"NameServer", "ns1.e."}, {"Origin", "e."}}, {{"FileName", "k.txt"}, {"NameServer", "ns1.a.e."}}, {{"FileName", "k2.txt"}, {"NameServer", "ns2.a.e."}}});
    json jobs = json::array({J("e.", {P("Hops", 0), P("DelegationConsistency"), T(P("ResponseValue", vector<string>{"1.1.1.3"}), {"A"})}).toJson(), J("a.e.", {T(P("ZeroTTL"), {"A", "TXT"}), P("QueryRewrite", vector<string>{"f."}), P("AllAliases", vector<string>{"a.a.e."})}, false).toJson()});
    jobs = json::parse(jobs.dump()); string d = dir(), out = d + "out.json", old = "[\n{\"Property\": \"an older report\"}\n]\n"; vector<string> args{d, "--jobs=" + d + "jobs.json", "--output=" + out};
    string metaText = meta.dump(1), jobsText = jobs.dump(1);
    auto good = [&] { for (auto &[f, l] : zones) { del(d + f); put(d + f, world::render(l)); } del(d + "metadata.json"); put(d + "metadata.json", metaText); del(d + "jobs.json"); put(d + "jobs.json", jobsText); del(out); };
    auto expected = [&](const ref::World &w, const vector<Job> &js) { set<json> want; map<string, set<string>> al; for (auto &j : js) { auto e = ref::expect(w, j, c.cap); for (auto &x : e.out) want.insert(canon(x)); for (auto &x : aliasItems(e.aliases)) want.insert(x); for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } } return pick(want, everyProp()); };
    auto parsed = [&](const prog::Run &r, set<json> &got) { got.clear(); if (!r.have) return false; try { json j = json::parse(r.out); if (!j.is_array()) return false; size_t n = 0; for (auto &x : j) { got.insert(canon(x)); n++; } if (got.size() != n) return false; got = pick(got, everyProp()); return true; } catch (std::exception &) { return false; } };
    // runs the program on what is in the directory and judges exit status and output
    auto judge = [&](const string &what, Verdict v, const set<json> &want, const prog::Run &r, bool stale, bool consoleNames = true, const string &name = "") {
        set<json> got; bool is = parsed(r, got); json why;
        if (r.status == 127 || r.status == 1014) why = "the program did not end or could not be started";
        else if (r.ok()) { if (v == FAIL) why = "exit status 0 on an input that must fail"; else if (v == SUCCEED && !is) why = "exit status 0 without a complete report"; else if (v == SUCCEED && got != want) why = {{"exit status 0 with a wrong report", diffJson(want, got)}}; else if (v == FREE && !is) why = "exit status 0 without a well-formed report"; else if (name.size() && r.console.find(name) == string::npos) why = "exit status 0 and no message about " + name; }
        else { if (v == SUCCEED) why = "exit status " + std::to_string(r.status) + " on a good input: " + r.console.substr(0, 300); else if (is && !(stale && r.out == old) && !(want.size() && got == want)) why = "a failed run leaves an output that looks like a complete report"; }
        c.execs++; c.outcome(what + std::to_string(r.status == 0) + std::to_string(is), true);
        if (why.is_null()) return; json x; x["why"] = why; x["case"] = what; x["status"] = r.status; x["console"] = r.console.substr(0, 2000); x["output"] = r.have ? json(r.out) : json(); x["files"]["metadata.json.txt"] = prog::get(d + "metadata.json"); x["files"]["jobs.json.txt"] = prog::get(d + "jobs.json"); for (auto &[f, l] : zones) x["files"][f] = prog::get(d + f); c.violate(repl(x)); };
    ref::World w0; vector<Job> j0; if (readMeta(meta, zones, w0) != SUCCEED || readJobs(jobs, j0) != SUCCEED) abort(); auto base = expected(w0, j0); c.states = c.transitions = 0;
    auto inputCase = [&](const string &what, bool isMeta, const string &text) {
        if (!c.mine()) return; good(); bool stale = c.cases % 2; if (stale) put(out, old); put(d + (isMeta ? "metadata.json" : "jobs.json"), text); json j; bool ok = true; try { j = json::parse(text); } catch (std::exception &) { ok = false; }
        if (!ok && text.size()) { std::istringstream s(text); try { s >> j; ok = true; } catch (std::exception &) {} }   // text after a complete value is not looked at
        Verdict v = FAIL; set<json> want; if (ok) { ref::World w = w0; vector<Job> js = j0; v = isMeta ? readMeta(j, zones, w) : readJobs(j, js); if (v == SUCCEED) want = expected(w, js); }
        judge(what, v, want, prog::run(args, out, {}, stale), stale); if (v == SUCCEED && c.samples.empty()) c.sample({{"case", what}, {"expected entries", want.size()}}); };
    // 1. every prefix, every deleted byte, every byte replaced or doubled
    for (int isMeta = 0; isMeta < 2; isMeta++) { const string &t = isMeta ? metaText : jobsText; string f = isMeta ? "metadata" : "jobs";
        for (size_t i = 0; i <= t.size(); i++) inputCase(f + " cut after " + std::to_string(i), isMeta, t.substr(0, i));
        for (size_t i = 0; i < t.size(); i++) if (!isspace(t[i])) { inputCase(f + " without byte " + std::to_string(i), isMeta, t.substr(0, i) + t.substr(i + 1)); for (char b : string(c.thorough ? "\"{}[],:x0-. \\\x80" : "\",x")) if (b != t[i]) { string s = t; s[i] = b; inputCase(f + " byte " + std::to_string(i) + " becomes " + std::to_string((int)b), isMeta, s); } } }
    // 2. every value replaced, every field removed (pairs at thorough)
    vector<json> vals{nullptr, 0, 1, 7, -1, 1.5, true, false, "", "zz", "e.", "A", "p.txt", "Hops", "ZeroTTL", "AllAliases", json::array(), json::array({1}), json::array({"e."}), json::array({"A", "TXT"}), json::object(), json{{"a", "b"}}, json::array({json::array()}), json::array({json::object()})};
    for (int isMeta = 0; isMeta < 2; isMeta++) { const json &t = isMeta ? meta : jobs; string f = isMeta ? "metadata" : "jobs"; auto flat = t.flatten(); set<string> ptrs{""}; for (auto &[k, v] : flat.items()) for (size_t i = 1; i <= k.size(); i++) if (i == k.size() || k[i] == '/') ptrs.insert(k.substr(0, i));
        vector<std::pair<string, json>> edits; for (auto &p : ptrs) { json::json_pointer jp(p);
            for (auto &v : vals) { json x = t; x[jp] = v; edits.push_back({p, v}); inputCase(f + " " + p + " becomes " + v.dump(), isMeta, x.dump()); }
            if (p.size()) { json x = t; auto &parent = x[jp.parent_pointer()]; if (parent.is_object()) parent.erase(jp.back()); else parent.erase((size_t)std::stoul(jp.back())); inputCase(f + " without " + p, isMeta, x.dump()); if (t[jp.parent_pointer()].is_array()) { json y = t; y[jp.parent_pointer()].push_back(t[jp]); inputCase(f + " with " + p + " twice", isMeta, y.dump()); } } }
        if (c.thorough) for (size_t a = 0; a < edits.size(); a++) for (size_t b = a + 1; b < edits.size(); b++) { auto &[p, v] = edits[a]; auto &[q, u] = edits[b]; if (p == q || q.compare(0, p.size(), p) == 0) continue; if (a % 5 || b % 7) continue; json x = t; x[json::json_pointer(p)] = v; x[json::json_pointer(q)] = u; inputCase(f + " " + p + " becomes " + v.dump() + " and " + q + " becomes " + u.dump(), isMeta, x.dump()); } }
    // every list of at most three top servers, known and unknown ones, and one known at every place among many unknown
    {   vector<string> pool{"ns1.e.", "NS1.a.e.", "ns9.e.", "ns8.e.", "ns2.a.e."}; vector<vector<string>> lists; for (auto &a : pool) { lists.push_back({a}); for (auto &b : pool) { lists.push_back({a, b}); for (auto &x : pool) lists.push_back({a, b, x}); } }
        for (int n : {5, 20}) for (int at = -1; at < n; at++) { vector<string> v; for (int i = 0; i < n; i++) v.push_back(i == at ? "ns1.e." : "n" + std::to_string(i) + ".e."); lists.push_back(v); }
        for (auto &l : lists) { json x = meta; x["TopNameServers"] = l; inputCase("metadata with top servers " + json(l).dump(), true, x.dump()); } }
    // 3. files
    auto simple = [&](const string &what, Verdict v, const set<json> &want, std::function<void(vector<string> &)> prep, const string &name = "") { for (int stale = 0; stale < 2; stale++) if (c.mine()) { good(); if (stale) put(out, old); auto a = args; prep(a); string of = out; for (auto &x : a) if (x.compare(0, 9, "--output=") == 0) of = x.substr(9); judge(what, v, want, prog::run(a, of, {}, true), stale, true, name); } };
    simple("all good", SUCCEED, base, [&](vector<string> &) {});
    for (int lint = 0; lint < 2; lint++) for (auto o : {"--stats", "-s", "--log", "-l", "--verbose", "-lsv"}) simple(string("with ") + o, SUCCEED, base, [&](vector<string> &a) { a.push_back(o); if (lint) a.push_back("--lint"); });
    vector<string> files{"metadata.json", "jobs.json", "p.txt", "k.txt", "k2.txt"};
    for (auto &f : files) { bool zone = f.back() == 't';
        simple(f + " missing", FAIL, {}, [&](vector<string> &) { del(d + f); });
        simple(f + " is a directory", FAIL, {}, [&](vector<string> &) { del(d + f); mkdir((d + f).c_str(), 0700); });
        simple(f + " is a dangling link", FAIL, {}, [&](vector<string> &) { del(d + f); if (symlink("nowhere", (d + f).c_str())) {} });
        simple(f + " is a link to itself", FAIL, {}, [&](vector<string> &) { del(d + f); if (symlink(f.c_str(), (d + f).c_str())) {} });
        if (!zone) simple(f + " empty", FAIL, {}, [&](vector<string> &) { put(d + f, ""); });
        if (zone) { auto w = w0; for (size_t i = 0; i < w.zones.size(); i++) if (meta["ZoneFiles"][i]["FileName"] == f) { w.zones.erase(w.zones.begin() + i); break; }
            for (string t : {"", "\n", "; only a comment\n", "$TTL 5\n", "h.e. IN HINFO x y\n", "   \n\n"}) simple(f + " holds no record: " + t, FREE, expected(w, j0), [&](vector<string> &) { put(d + f, t); }, f);
            // the SOA record at another place
            auto &ls = zones[f]; for (size_t i = 1; i < ls.size(); i++) { auto x = ls; std::rotate(x.begin(), x.begin() + 1, x.begin() + i + 1); simple(f + " SOA at place " + std::to_string(i), FAIL, {}, [&](vector<string> &) { put(d + f, world::render(x)); }); }
            for (size_t i = 1; i < ls.size(); i++) simple(f + " without SOA, from record " + std::to_string(i), FAIL, {}, [&](vector<string> &) { put(d + f, world::render(vector<string>(ls.begin() + i, ls.end()))); });
            // text that ends the reading of a file
            for (string bad : {")", "$INCLUDE other.txt", "$TTL x", "$TTL", "$ORIGIN", "(", "a.e. 300 IN A ( 1.1.1.1"}) for (size_t i = 0; i <= ls.size(); i++) simple(f + " with " + bad + " before record " + std::to_string(i), FREE, {}, [&](vector<string> &) { vector<string> a(ls.begin(), ls.begin() + i), b(ls.begin() + i, ls.end()); put(d + f, world::render(a) + bad + "\n" + world::render(b)); }, f); } }
    simple("directory missing", FAIL, {}, [&](vector<string> &a) { a[0] = d + "nowhere"; }); simple("directory is a file", FAIL, {}, [&](vector<string> &a) { a[0] = d + "p.txt"; }); simple("jobs file elsewhere", FAIL, {}, [&](vector<string> &a) { a[1] = "--jobs=" + d + "nojobs.json"; });
    simple("no directory", FAIL, {}, [&](vector<string> &a) { a.erase(a.begin()); }); simple("unknown option", FAIL, {}, [&](vector<string> &a) { a.push_back("--nothing"); });
    for (string o : {d + "nowhere/out.json", d, d + "p.txt/out.json", string("/dev/full"), d + "link"}) simple("output " + o.substr(o.compare(0, d.size(), d) ? 0 : d.size()) + " cannot be written", FAIL, {}, [&](vector<string> &a) { a[2] = "--output=" + o; if (o == d + "link") { del(o); if (symlink("/dev/full", o.c_str())) {} } });
    for (size_t n : {size_t(0), size_t(1), size_t(50), size_t(100000)}) simple("an older output of " + std::to_string(n) + " bytes is replaced", SUCCEED, base, [&](vector<string> &) { put(out, string(n, ']')); });
    // 4. every I/O operation of a run fails (or the program is killed there), once and from then on
    {   auto z2 = zones; for (int i = 0; i < 60; i++) z2["p.txt"].push_back("n" + std::to_string(i) + ".e. 0 TXT \"" + string(150, 'x') + "\""); json jb = jobs; jb.push_back(json::parse(J("e.", {T(P("ZeroTTL"), {"TXT"})}).toJson().dump())); ref::World w; vector<Job> js; if (readMeta(meta, z2, w) != SUCCEED || readJobs(jb, js) != SUCCEED) abort(); auto want = expected(w, js); string shim = getenv("FAULTIO"), logp = d + "ops";
        auto setup = [&] { good(); for (auto &[f, l] : z2) put(d + f, world::render(l)); put(d + "jobs.json", jb.dump()); del(logp); };
        setup(); auto r0 = prog::run(args, out, {{"LD_PRELOAD", shim}, {"FAULT_DIR", d}, {"FAULT_LOG", logp}}, false); string ops = prog::get(logp); c.extra["io_operations"] = c.worker ? 0 : (long)ops.size();
        if (c.mine()) { judge("with the fault injector, no fault", SUCCEED, want, r0, false); if (ops.find('w') == string::npos || ops.find('r') == string::npos || ops.find('o') == string::npos) c.violate({{"why", "the fault injector sees no operations"}, {"operations", ops}}); c.sample({{"operations of a run (open, read, write, close)", ops}}); }
        map<char, vector<string>> kinds{{'o', {"EACCES", "EMFILE", "EIO", "kill"}}, {'r', {"EIO", "EINTR", "short", "kill"}}, {'w', {"ENOSPC", "EIO", "EINTR", "short", "kill"}}, {'c', {"EIO", "kill"}}};
        for (size_t i = 0; i < ops.size(); i++) for (auto &k : kinds[ops[i]]) for (int sticky = 0; sticky < (k == "kill" || k == "EINTR" ? 1 : 2); sticky++) for (int stale = 0; stale < 2; stale++) if (c.mine()) {
            setup(); if (stale) put(out, old); map<string, string> env{{"LD_PRELOAD", shim}, {"FAULT_DIR", d}, {"FAULT_AT", std::to_string(i)}, {"FAULT_KIND", k}}; if (sticky) env["FAULT_STICKY"] = "1";
            auto r = prog::run(args, out, env, stale); string what = string("operation ") + ops[i] + " number " + std::to_string(i) + (sticky ? " and later ones: " : ": ") + k; bool harmless = k == "short";
            if (harmless) judge(what, SUCCEED, want, r, stale); else if (r.ok()) judge(what, SUCCEED, want, r, stale); else judge(what, FAIL, want, r, stale); }
    }
    // 5. the lint report asked for can not be written, or an I/O operation fails while it is
    {   auto z3 = zones; z3["p.txt"].insert(z3["p.txt"].end(), {"z.e. 0 TXT t", "out.side. A 1.1.1.1", "c.e. A 1.1.1.1", "c.e. CNAME z.e."}); z3["k2.txt"].insert(z3["k2.txt"].end(), {"s.a.e. NS ns.s.a.e.", "t.a.e. NS ns.t.a.e."}); ref::World w; vector<Job> js; if (readMeta(meta, z3, w) != SUCCEED || readJobs(jobs, js) != SUCCEED) abort(); auto want = expected(w, js);
        string shim = getenv("FAULTIO"), logp = d + "ops", lint = d + "cwd/lint.json"; auto a = args; a.push_back("--lint");
        auto setup = [&] { good(); for (auto &[f, l] : z3) put(d + f, world::render(l)); del(logp); del(lint); }; auto list = [&](set<json> &got) { got.clear(); try { json j = json::parse(prog::get(lint)); if (!j.is_array()) return false; for (auto &x : j) got.insert(x); return got.size() == j.size(); } catch (std::exception &) { return false; } };
        setup(); auto r0 = prog::run(a, out, {{"LD_PRELOAD", shim}, {"FAULT_DIR", d}, {"FAULT_LINT", "1"}, {"FAULT_LOG", logp}}, false); string ops = prog::get(logp); set<json> full; bool is = list(full);
        if (c.mine()) { judge("with the fault injector and lint, no fault", SUCCEED, want, r0, false); if (!is || full.size() < 6) c.violate({{"why", "the lint report is not complete"}, {"lint.json", prog::get(lint)}}); c.sample({{"operations of a run with lint", ops}}); }
        for (string o : {"directory", "dangling", "self", "full"}) for (int stale = 0; stale < 2; stale++) if (c.mine()) { setup(); if (stale) put(out, old); int e = o == "directory" ? mkdir(lint.c_str(), 0700) : symlink(o == "dangling" ? "nowhere/x" : o == "self" ? "lint.json" : "/dev/full", lint.c_str()); if (e) abort(); auto r = prog::run(a, out, {}, stale); if (o == "directory") rmdir(lint.c_str()); else del(lint); judge("lint.json can not be written: " + o, FAIL, want, r, stale); }
        map<char, vector<string>> kinds{{'o', {"EACCES", "EIO"}}, {'r', {"EIO", "EINTR", "short"}}, {'w', {"ENOSPC", "EIO", "short", "kill"}}, {'c', {"EIO"}}};
        for (size_t i = 0; i < ops.size(); i++) for (auto &k : kinds[ops[i]]) for (int sticky = 0; sticky < (k == "kill" || k == "EINTR" ? 1 : 2); sticky++) if (c.mine()) {
            setup(); map<string, string> env{{"LD_PRELOAD", shim}, {"FAULT_DIR", d}, {"FAULT_LINT", "1"}, {"FAULT_AT", std::to_string(i)}, {"FAULT_KIND", k}}; if (sticky) env["FAULT_STICKY"] = "1";
            auto r = prog::run(a, out, env, false); string what = string("with lint, operation ") + ops[i] + " number " + std::to_string(i) + (sticky ? " and later ones: " : ": ") + k; set<json> got; bool ok = list(got) && got == full;
            judge(what, k == "short" || r.ok() ? SUCCEED : FAIL, want, r, false); if (r.ok() && !ok) c.violate({{"why", "exit status 0 without a complete lint report"}, {"case", what}, {"lint.json", prog::get(lint)}, {"console", r.console}}); del(lint); }
    }
});
}
