// C01 and C07: the lookup in one zone and the name functions, through the interface the unit tests use.
#include "check.hpp"
#include "driver.h"
#include "rt.hpp"
#include <fstream>
#include <unistd.h>
#include "utils.h"
class DriverTest { public: static const zone::Graph &latest(Driver &d) { return d.context_.zoneId_to_zone.at(d.context_.zoneId_counter_); }
    static void dot(Driver &d, const EC &q, const std::string &file) { interpretation::Graph(q, d.context_).GenerateDotFile(file); } static void names(Driver &d, const std::string &file) { d.label_graph_.GenerateDotFile(file); } };
namespace chk {
using ref::toName; using ref::toText; using ref::lower;
using Rec = std::tuple<string, int, uint32_t, string>;
static vector<NodeLabel> labels(const ref::Name &n) { vector<NodeLabel> v; for (auto &l : n) v.push_back(NodeLabel(l)); return v; }
static string text(const vector<NodeLabel> &v) { ref::Name n; for (auto &l : v) n.push_back(l.get()); return toText(n); }

// ---- C01 ----
using Part = std::tuple<int, size_t, std::multiset<Rec>>;   // tag, types (answers and name errors only), records
static const char *tagName(int t) { static const char *n[] = {"answer", "rewrite", "referral", "name error", "refused", "no server", "too long"}; return n[t]; }
static json show(const std::multiset<Part> &v) { json j = json::array(); for (auto &[t, ty, rs] : v) { json e{{"tag", tagName(t)}, {"types", ref::typesText(ref::Types(ty))}, {"records", json::array()}}; for (auto &[n, k, l, d] : rs) e["records"].push_back(n + " " + std::to_string(l) + " " + (k < ref::NTY ? ref::TYN[k] : "?") + " " + d); j.push_back(e); } return j; }
static Reg c01("C01", [](Ctx &c) {
    struct Base { string origin; vector<string> head, items; vector<string> universe; };
    vector<Base> bases;
    auto names = [](const string &o, int depth, vector<string> ls) { vector<string> v{o}; size_t a = 0; string suf = o == "." ? "" : o; for (int d = 0; d < depth; d++) { size_t e = v.size(); for (; a < e; a++) for (auto &l : ls) v.push_back(l + "." + (v[a] == "." ? "" : v[a])); } return v; };
    bases.push_back({"e.", {"e. SOA"}, {"e. NS ns1.e.", "e. A 1.1.1.9", "a.e. A 1.1.1.1", "a.e. 0 A 1.1.1.2", "a.e. TXT t", "a.e. CNAME b.e.", "a.e. NS ns.a.e.", "a.e. NS ns.b.e.", "a.e. DNAME b.e.", "ns.a.e. A 1.1.1.3", "ns.a.e. AAAA 1::1", "b.a.e. A 1.1.1.4", "b.a.e. CNAME b.e.", "b.a.e. NS ns.b.e.",
        "*.a.e. A 1.1.1.5", "*.a.e. CNAME b.e.", "*.a.e. TXT t", "*.e. A 1.1.1.6", "*.e. CNAME a.e.", "*.e. NS ns.a.e.", "*.e. DNAME f.", "b.*.e. A 1.1.1.7", "e. DNAME f.", "e. MX 10 a.e.", "b.e. AAAA 1::2", "ns.b.e. A 1.1.1.8", "a.b.a.e. TXT t", "*.b.a.e. A 1.1.1.5", "a.e. DS 1 1 1 1", "*.*.e. TXT t", "b.a.e. DNAME f.", "e. NS e."},
        names("e.", 3, {"a", "b", "*", "ns", "z"})});
    bases.push_back({".", {". SOA"}, {". NS a.", ". NS b.a.", "a. A 1.1.1.1", "b.a. A 1.1.1.2", "a. NS b.a.", "a. NS a.", "*. A 1.1.1.3", "*. CNAME a.", "a. DNAME b.", ". DNAME f.", "*.a. TXT t", "b. CNAME a.", "a. TXT t", ". A 1.1.1.4", "b.a. AAAA 1::1", "*.b. A 1.1.1.5", "b. DNAME a.", ". TXT t"}, names(".", 3, {"a", "b", "*", "z"})});
    bases.push_back({"a.b.e.", {"a.b.e. SOA"}, {"a.b.e. NS ns.a.b.e.", "ns.a.b.e. A 1.1.1.1", "*.a.b.e. MX 5 a.b.e.", "*.a.b.e. AAAA 1::1", "a.a.b.e. NS ns.a.b.e.", "a.a.b.e. NS ns.x.", "a.a.b.e. A 1.1.1.2", "b.a.a.b.e. A 1.1.1.3", "a.b.e. DNAME e.", "a.b.e. TXT t", "b.a.b.e. CNAME a.b.e.", "a.b.a.b.e. A 1.1.1.4", "b.a.b.e. DNAME f.", "*.b.a.b.e. CNAME e.", "a.b.e. NS e."}, names("a.b.e.", 3, {"a", "b", "*", "z"})});
    vector<ref::Types> tys; for (auto t : {ref::A, ref::NS, ref::CNAME, ref::DNAME, ref::SOA, ref::MX, ref::TXT, ref::AAAA}) { ref::Types x; x.set(t); tys.push_back(x); }
    { ref::Types x; x.set(ref::A); x.set(ref::CNAME); tys.push_back(x); x.reset(ref::CNAME); x.set(ref::TXT); x.set(ref::NS); tys.push_back(x); tys.push_back(ref::Types().set()); }
    for (auto &b : bases) {
        int n = (int)b.items.size(), k = b.origin == "e." ? (c.thorough ? 5 : 4) : (c.thorough ? 6 : 5);
        vector<int> p; std::function<void(int)> go = [&](int from) {
            for (int rev = 0; rev < 2; rev++) { if (rev && p.size() < 2) break; if (!c.mine()) continue;
                vector<string> ls = b.head; for (int i : p) ls.push_back(b.items[i]); if (rev) std::reverse(ls.begin() + 1, ls.end());
                Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", ls}}; auto w = world::model(cfg); auto &z = w.zones[0]; c.states += z.names.size();
                json m = metadataOf(cfg, {api::fileFor(world::render(ls))}); Driver d; string problem = rt::run([&] { d.SetContext(m, api::scratch(), false); });
                auto fail = [&](json why) { json x = describe(cfg, {}); x["why"] = why; c.violate(x); };
                if (problem.size()) fail("the zone cannot be loaded: " + problem);
                const zone::Graph &g = DriverTest::latest(d); c.execs++;
                vector<ref::Query> qs; for (auto &t : b.universe) { ref::Query q; q.name = toName(t); qs.push_back(q); } for (auto &nm : z.names) if (ref::under(z.origin, nm)) { ref::Query q; q.name = nm; q.name.push_back(ref::FRESH); q.other = true; qs.push_back(q); }
                string all;
                for (auto &q : qs) for (auto &ty : tys) {
                    q.types = ty; auto want = ref::lookup(z, q); std::multiset<Part> W, G;
                    for (auto &a : want) { std::multiset<Rec> rs; for (auto &r : a.rrs) rs.insert({toText(r.name), r.type, r.ttl, r.data}); size_t t = a.tag == ref::ANS || a.tag == ref::NX ? a.types.to_ulong() : 0; if (a.tag == ref::ANS && a.types.none()) t = ty.to_ulong(); W.insert({a.tag, t, rs}); }
                    EC ec; ec.name = labels(q.shown()); for (int i = 0; i < ref::NTY; i++) ec.rrTypes[i] = ty[i]; if (q.other) { ec.excluded = vector<NodeLabel>{}; for (auto &nm : z.names) if (nm.size() == q.shown().size() + 1 && ref::under(q.shown(), nm)) ec.excluded->push_back(NodeLabel(nm.back())); }
                    bool complete; auto got = g.QueryLookUpAtZone(ec, complete); c.transitions++; json where{{"zone", toText(z.origin)}, {"query", q.text()}, {"types", ref::typesText(ty)}};
                    if (!got) fail({{"lookup", where}, {"problem", "no answer"}});
                    for (auto &[tag, types, rrs] : *got) { std::multiset<Rec> rs; for (auto &r : rrs) rs.insert({text(r.get_name()), r.get_type() == RRType::N ? (int)ref::OTHER : (int)r.get_type(), r.get_ttl(), r.get_rdata()}); int t = (int)tag; G.insert({t, t == ref::ANS || t == ref::NX ? types.to_ulong() : 0, rs}); }
                    if (W != G) fail({{"lookup", where}, {"expected", show(W)}, {"got", show(G)}});
                    if (c.workers == 1 || p.size() < 3) for (auto &[t, y, rs] : G) all += std::to_string(t) + "." + std::to_string(rs.size()) + ",";
                }
                if (all.empty()) all = json(ls).dump(); c.outcome(all, true);
                if (p.size() == 3 && c.samples.size() < 2) c.sample({{"zone", ls}, {"queries", qs.size() * tys.size()}});
            }
            if ((int)p.size() == k) return;
            for (int i = from; i < n; i++) { p.push_back(i); go(i + 1); p.pop_back(); } };
        go(0);
    }
});

// ---- C07 ----
static Reg c07("C07", [](Ctx &c) {
    auto fail = [&](const json &why) { c.violate({{"why", why}}); };
    auto asName = [](const vector<NodeLabel> &v) { ref::Name n; for (auto &l : v) n.push_back(l.get()); return n; };
    // every text of at most n characters that is a name: no empty label, no dangling backslash
    string al = "abZ.\\"; int len = c.thorough ? 10 : 9;
    std::function<void(string &)> go = [&](string &s) {
        bool name = true; { bool esc = false; char prev = '.'; for (size_t i = 0; i < s.size(); i++) { if (esc) { esc = false; prev = 'x'; continue; } if (s[i] == '\\') { esc = true; prev = 'x'; continue; } if (s[i] == '.' && prev == '.' && s != ".") name = false; prev = s[i]; } if (esc) name = false; }
        if (name && c.mine()) {
            ref::Name want = toName(s); auto got = asName(LabelUtils::StringToLabels(s)); string t = LabelUtils::LabelsToString(labels(want)); c.execs++; c.states += want.size(); c.transitions++;
            if (got != want) fail({{"text", s}, {"labels expected", want}, {"got", got}});
            if (t != toText(want)) fail({{"labels", want}, {"text expected", toText(want)}, {"got", t}});
            if (asName(LabelUtils::StringToLabels(t)) != want) fail({{"text", s}, {"back and forth", t}, {"gives", asName(LabelUtils::StringToLabels(t))}});
            ResourceRecord rr(s, "A", 1, 5, "x"); if (asName(rr.get_name()) != want) fail({{"record name", s}, {"labels", asName(rr.get_name())}});
            string esc; bool isEsc = t.find('\\') != string::npos; c.outcome(t, isEsc); if (isEsc && s.size() > 6) c.sample({{"text", s}, {"labels", want}, {"canonical", t}});
        }
        if ((int)s.size() == len) return; for (char ch : al) { s.push_back(ch); go(s); s.pop_back(); } };
    string s; go(s);
    // every pair of names; every pair of a list of names and a name
    vector<ref::Name> ns{{}}; size_t a = 0; for (int d = 0; d < (c.thorough ? 5 : 4); d++) { size_t e = ns.size(); for (; a < e; a++) for (auto l : {"a", "aa", "b", "*"}) { auto x = ns[a]; x.push_back(l); ns.push_back(x); } }
    for (auto &x : ns) if (c.mine()) for (auto &y : ns) { bool want = ref::under(x, y); c.execs++; c.transitions++; if (LabelUtils::SubDomainCheck(labels(x), labels(y)) != want) fail({{"domain", toText(x)}, {"subdomain", toText(y)}, {"expected", want}}); c.outcome(want ? toText(x) + toText(y) : "no", want); }
    vector<ref::Name> few; for (auto &x : ns) if (x.size() <= 2) few.push_back(x);
    for (auto &x : few) for (auto &x2 : few) if (c.mine()) for (auto &y : few) { bool want = ref::under(x, y) || ref::under(x2, y); c.execs++; c.transitions++; vector<vector<NodeLabel>> l{labels(x), labels(x2)}; if (LabelUtils::SubDomainCheck(l, labels(y)) != want) fail({{"domains", {toText(x), toText(x2)}}, {"subdomain", toText(y)}, {"expected", want}}); }
    // limits: every sequence of label lengths from a few, and every total length with every number of labels
    vector<int> ll{1, 2, 30, 61, 62, 63, 64, 65, 120, 200, 252, 253, 254}; vector<int> p;
    auto limits = [&](const vector<int> &ls, char fill) { ref::Name n; for (int k : ls) n.push_back(string(k, fill)); auto [ok, lab] = LabelUtils::LengthCheck(labels(n), 0); auto [ok1, lab1] = LabelUtils::LengthCheck(labels(n), 1); bool want = ref::legal(n); c.execs++; c.transitions++;
        bool longLabel = false; for (int k : ls) longLabel |= k > 63; if (ok != want || ok1 != want || (!want && longLabel != (lab.size() > 63)) || (!longLabel && lab.size())) fail({{"label lengths", ls}, {"expected", want}, {"got", ok}, {"label", lab}}); c.outcome(json(ls).dump(), !want); };
    std::function<void()> lg = [&] { if (c.mine()) limits(p, 'x'); if (p.size() == 5) return; for (int k : ll) { p.push_back(k); lg(); p.pop_back(); } }; lg();
    for (int total = 2; total <= 258; total++) for (int cnt = 1; cnt <= total / 2; cnt++) if (c.mine()) { vector<int> ls; int rest = total; for (int i = cnt; i > 0; i--) { int k = std::min(63, rest - 2 * (i - 1) - 1); ls.push_back(k); rest -= k + 1; } if (!rest) limits(ls, '.' /* an escaped dot counts as written */); }
});

// ---- C38 ----
namespace {
struct Dot { map<int, string> label; vector<std::tuple<int, int, string>> edges; string problem; };
// the subset of the dot language that boost::write_graphviz writes: "3[label=...] [..];" and "1->2 [..];"
Dot readDot(const string &file) { Dot g; std::ifstream in(file); string all((std::istreambuf_iterator<char>(in)), {}); size_t i = 0; auto ws = [&] { while (i < all.size() && isspace((unsigned char)all[i])) i++; };
    if (all.compare(0, 11, "digraph G {")) { g.problem = "no digraph"; return g; } i = 11;
    while (true) { ws(); if (i >= all.size()) { g.problem = "no end"; return g; } if (all[i] == '}') return g; int a = atoi(all.c_str() + i), b = -1; while (i < all.size() && isdigit((unsigned char)all[i])) i++; if (all.compare(i, 2, "->") == 0) { i += 2; b = atoi(all.c_str() + i); while (i < all.size() && isdigit((unsigned char)all[i])) i++; }
        string rest; bool q = false; while (i < all.size() && (q || all[i] != ';')) { if (all[i] == '"') q = !q; rest += all[i++]; } i++; ws(); if (rest.find_last_not_of(" \n") != string::npos) rest.resize(rest.find_last_not_of(" \n") + 1); if (rest.size() && rest[0] == ' ') rest.erase(0, 1);
        if (b < 0) { if (!g.label.insert({a, rest}).second) { g.problem = "a node twice"; return g; } } else g.edges.push_back({a, b, rest}); } }
const char *dotTag(int t) { static const char *n[] = {"ANS", "REWRITE", "REF", "NX", "REFUSED", "NS Not Found", ""}; return n[t]; }
}
static Reg c38("C38", [](Ctx &c) {
    string file = api::scratch() + "/g" + std::to_string(getpid()) + ".dot"; using Step = std::tuple<string, string, string>;
    vector<ref::Types> tys; auto add = [&](vector<int> v) { ref::Types x; for (int t : v) x.set(t); tys.push_back(x); }; add({ref::A}); add({ref::NS, ref::A}); add({ref::CNAME}); add({ref::A, ref::CNAME}); add({ref::TXT, ref::MX}); tys.push_back(ref::Types().set());
    auto check = [&](const Config &cfg, bool deep, const vector<string> &fresh) {
        auto w = world::model(cfg); vector<string> f; for (auto &x : cfg.files) f.push_back(api::fileFor(world::render(x.lines))); json m = metadataOf(cfg, f); Driver d; string problem = rt::run([&] { d.SetContext(m, api::scratch(), false); });
        auto fail = [&](json why) { json x = describe(cfg, {}); x["why"] = why; c.violate(x); }; if (problem.size()) fail("the zones cannot be loaded: " + problem);
        // the names and their DNAME edges
        ref::NameGraph ng(w); DriverTest::names(d, file); Dot g = readDot(file); if (g.problem.size()) fail("label graph: " + g.problem);
        { std::multiset<std::pair<string, string>> W, G; std::multiset<string> names, got; map<int, string> full; map<int, vector<int>> kids; vector<std::pair<int, int>> dn; auto lab = [&](const string &s) { size_t a = s.find('"'), b = s.rfind('"'); return a == b ? s : s.substr(a + 1, b - a - 1); };
            std::set<int> child; for (auto &[a, b, s] : g.edges) { if (s.find("dashed") != string::npos || s.find("red") != string::npos || s.find("dname") != string::npos || s.find("DNAME") != string::npos) dn.push_back({a, b}); else { kids[a].push_back(b); if (!child.insert(b).second) fail({{"label graph: two parents", lab(g.label[b])}}); } }
            std::function<void(int, ref::Name)> go = [&](int v, ref::Name n) { full[v] = toText(n); for (int k : kids[v]) { auto x = n; x.push_back(lab(g.label[k])); go(k, x); } }; int roots = 0; for (auto &[v, s] : g.label) if (!child.count(v)) { roots++; go(v, {}); } if (roots != 1) fail({{"label graph: roots", roots}});
            for (auto &n : ng.names) names.insert(toText(n)); for (auto &[v, s] : full) got.insert(s); if (names != got) fail({{"label graph: names", got}, {"expected", names}});
            for (auto &[o, ts] : ng.dn) for (auto &t : ts) W.insert({toText(o), toText(t)}); for (auto &[a, b] : dn) G.insert({full[a], full[b]}); std::set<std::pair<string, string>> W1(W.begin(), W.end()), G1(G.begin(), G.end()); if (W1 != G1) fail({{"label graph: redirections", json(vector<std::pair<string, string>>(G1.begin(), G1.end()))}, {"expected", json(vector<std::pair<string, string>>(W1.begin(), W1.end()))}}); c.execs++; }
        // queries: every name of the zones, a new label below each, and (deep) every name over the labels
        set<ref::Name> qn(ng.names.begin(), ng.names.end()); if (deep) { set<string> ls(fresh.begin(), fresh.end()); for (auto &n : ng.names) if (n.size()) ls.insert(n.back()); for (auto n : vector<ref::Name>(ng.names.begin(), ng.names.end())) if (n.size() < 3) for (auto &l : ls) if (l != "*") { n.push_back(l); qn.insert(n); n.pop_back(); } }
        string shape; for (auto &n : qn) for (int other = 0; other < 2; other++) for (size_t ti = 0; ti < tys.size(); ti++) { if (!deep && ti != 1 && ti != 3) continue; ref::Query q; q.name = n; if (other) { q.name.push_back(ref::FRESH); q.other = true; } q.types = tys[ti]; ref::Resolution r(q, w); if (r.overflow) { c.skipped++; continue; }
            EC ec; ec.name = labels(n); for (int i = 0; i < ref::NTY; i++) ec.rrTypes[i] = q.types[i]; if (other) { ec.excluded = vector<NodeLabel>{}; ec.nonExistent = ti + 1 == tys.size(); }
            string p2 = rt::run([&] { DriverTest::dot(d, ec, file); }); Dot g = readDot(file); c.execs++; c.states += r.n.size(); json where{{"query", q.text()}, {"types", ref::typesText(q.types)}}; if (p2.size() || g.problem.size()) fail({{"resolution", where}, {"problem", p2 + g.problem}});
            std::multiset<string> V, VG; std::multiset<Step> E, EG; auto text = [&](int v) { auto &x = r.n[v]; string s = "[label=\"NS: " + x.ns + "\\n Q:" + (x.q.other ? "~{}." : "") + toText(x.q.shown()) + " T:" + ref::typesText(x.q.types) + "  \\n A:"; if (x.has) for (auto &a : x.ans) s += dotTag(a.tag); s += "\"]"; if (x.ns.empty()) s += " [shape=diamond]"; return s; };
            for (size_t v = 0; v < r.n.size(); v++) { V.insert(text((int)v)); for (auto &e : r.n[v].out) { E.insert({text((int)v), text(e.to), e.side < 0 ? "[color=black]" : "[color=red]"}); c.transitions++; } } for (auto &[v, s] : g.label) VG.insert(s); for (auto &[a, b, s] : g.edges) EG.insert({g.label[a], g.label[b], s});
            if (V != VG || E != EG) { json e1 = json::array(), e2 = json::array(); for (auto &[a, b, s] : E) if (EG.count({a, b, s}) != E.count({a, b, s})) e1.push_back({a, b, s}); for (auto &[a, b, s] : EG) if (EG.count({a, b, s}) != E.count({a, b, s})) e2.push_back({a, b, s}); fail({{"resolution", where}, {"steps expected", V}, {"steps taken", VG}, {"expected edges", e1}, {"other edges", e2}}); }
            if (c.outcomes.size() < 3000000) { string o; for (auto &s : V) o += s; c.outcome(o, r.n.size() > 2); } if (r.n.size() > 5 && c.samples.size() < 2) c.sample({{"resolution", where}, {"steps", V}, {"edges", E.size()}}); }
    };
    for (auto &spec : world::all()) for (int k : {1, 2, 3, 4}) { if (k == 4 && !c.thorough) continue; world::enumerate(spec, k, [&](long, auto mk) { if (!c.mine()) return true; check(mk(), c.thorough ? k < 4 : k < 3, {"a", "zz"}); return true; }); }
    redirections([&](auto mk) { if (c.mine()) check(mk(), false, {}); });
    unlink(file.c_str());
});
}
