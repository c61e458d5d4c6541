// Checks over job lists, record sequences, permutations, letter case, sibling counts and concrete queries.
#include "check.hpp"
namespace chk {
using ref::Name; using ref::toName; using ref::toText;
static const Spec &specOf(const string &n) { for (auto &s : world::all()) if (s.name == n) return s; abort(); }
static vector<string> allTypes{"A", "NS", "CNAME", "DNAME", "SOA", "PTR", "MX", "TXT", "AAAA", "SRV", "RRSIG", "NSEC", "SPF"};
// properties that make every record of a zone show up in the report
static vector<Prop> showAll(const vector<string> &hosts) {
    auto p = fullSet(hosts, {"A", "TXT"}); for (auto t : {"A", "NS", "CNAME", "DNAME", "TXT", "MX", "AAAA"}) { p.push_back(T(P("ResponseValue", vector<string>{"zz"}), {t})); p.push_back(T(P("ZeroTTL"), {t})); } return p; }
static string rep(char c, int n) { return string(n, c); }
// all sequences over an alphabet of size n, lengths 0..len
template <class F> static void sequences(int n, int len, F f) { vector<int> s; std::function<void(int)> go = [&](int left) { if (!left) { f(s); return; } for (int i = 0; i < n; i++) { s.push_back(i); go(left - 1); s.pop_back(); } }; for (int l = 0; l <= len; l++) go(l); }

// ---- C02: every sequence of records, admissible or not ----
static Reg c02("C02", [](Ctx &c) {
    string l64 = rep('x', 64), l63 = rep('y', 63), n254 = rep('p', 62) + "." + rep('q', 62) + "." + rep('r', 62) + "." + rep('s', 62) + ".e.", n253 = rep('p', 61) + "." + rep('q', 62) + "." + rep('r', 62) + "." + rep('s', 61) + ".e.";
    vector<string> al{"a.e. A 1.1.1.1", "a.e. 600 A 1.1.1.1", "a.e. A 1.1.1.2", "a.e. CNAME b.e.", "a.e. CNAME c.e.", "a.e. DNAME b.e.", "a.e. DNAME f.", "a.e. TXT t", "x.f. A 1.1.1.1", l64 + ".e. A 1.1.1.1",
        n254 + " A 1.1.1.1", "b.e. NS " + n254, "A.E. A 1.1.1.1", "e. SOA", "b.e. SOA", "a.e. DS 1.1", "a.e. 0 A 1.1.1.1", "b.e. CNAME " + l64 + ".f.", n253 + " A 1.1.1.1", l63 + ".e. A 1.1.1.1", "b.e. DNAME " + n253, "*.e. TXT t", "b.e. A 1.1.1.1", "fe. A 1.1.1.1", "a.e. NS " + l63 + ".f.", "b.a.e. A 1.1.1.1", "e. NS " + l64 + ".e.", "b.e. DNAME " + n254, "a.e. DNAME " + l64 + ".f.", "b.e. TXT " + rep('z', 64), "b.e. TXT " + rep('z', 260), "a.e. TXT 1.1.1.1", "a.e. NS b.e."};
    vector<vector<Job>> jobs{{J(".", showAll({"b.e.", "f."}))}};
    int full = c.thorough ? 4 : 3; int core = 14, deep = c.thorough ? 5 : 4;
    auto run = [&](const vector<int> &s) { if (!c.mine()) return; Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}}; for (int i : s) cfg.files[0].lines.push_back(al[i]); auto w = world::model(cfg); for (auto &j : jobs) compare(c, cfg, w, j, everyProp()); };
    sequences((int)al.size(), full, run);
    sequences(core, deep, [&](const vector<int> &s) { if ((int)s.size() > full) run(s); });
    // every type beside every other, in each order, at an ordinary name and at the wildcard
    vector<string> kinds{"A 1.1.1.1", "NS n.g.", "CNAME d.e.", "CNAME b.e.", "DNAME g.", "DNAME d.e.", "SOA", "PTR d.e.", "MX 10 d.e.", "TXT t", "AAAA 1::1", "SRV 0 0 5 d.e.", "RRSIG a 5 2 300 1 1 1 e. s", "NSEC d.e. a mx", "SPF v", "DS 1 5 1 ab"};
    vector<Prop> every; for (auto &t : allTypes) { every.push_back(T(P("ResponseReturned"), {t})); every.push_back(T(P("ResponseValue", vector<string>{"zz"}), {t})); } every.push_back(P("Hops", 0)); every.push_back(P("Rewrites", 0));
    sequences((int)kinds.size(), c.thorough ? 4 : 3, [&](const vector<int> &s) { for (string owner : {"a.e. ", "*.e. "}) { if (s.empty() || !c.mine()) continue; Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}}; for (int i : s) cfg.files[0].lines.push_back(owner + kinds[i]); auto w = world::model(cfg); compare(c, cfg, w, {J(".", every)}, everyProp()); } });
    // a file whose only zone record is dropped adds nothing, at a server of the zone, at another one, at a top server
    for (auto &spec : world::all()) world::enumerate(spec, 1, [&](long, auto mk) { for (string only : {l64 + ".e. SOA", n254 + " SOA", l64 + ". SOA"}) for (int where = 0; where < 3; where++) for (bool first : {true, false}) { if (!c.mine()) continue;
        Config cfg = mk(); if (where == 2) cfg.top.push_back("n9.e."); auto w = world::model(cfg); auto big = cfg; big.files.insert(first ? big.files.begin() : big.files.end(), {where == 0 ? cfg.top[0] : where == 1 ? "ns.a.e." : "n9.e.", {only}}); compare(c, big, w, {J(".", fullSet(spec.hosts, {"A", "TXT"}))}, everyProp()); } return true; });
});

// ---- C03: sibling counts around the index threshold ----
static Reg c03("C03", [](Ctx &c) {
    vector<string> al{"a.e. A 1.1.1.1", "*.e. A 1.1.1.3", "a.e. NS ns1.a.e.", "ns1.a.e. A 1.1.1.5", "a.e. DNAME b.e.", "b.a.e. CNAME b.e.", "*.a.e. TXT t", "b.e. A 1.1.1.2", "c.b.e. A 1.1.1.6", "b.a.e. TXT u", "a.e. CNAME b.e.", "x.y.z.e. A 1.1.1.7", "x.y.z.a.e. A 1.1.1.8"};
    Spec s; s.files = {{"ns1.e.", {}}}; for (auto &l : al) s.items.push_back({0, l}); s.top = {"ns1.e."};
    vector<vector<Job>> jobs{{J(".", fullSet({"b.e."}, {"A"}))}, {J("b.a.e.", fullSet({"b.e."}, {"A", "TXT"}), false)}, {J("a.e.", fullSet({"b.e."}, {"A", "TXT"}), false)}, {J("f250.e.", fullSet({"b.e."}, {"A"}), false)}, {J("c.b.e.", fullSet({"b.e."}, {"A"}))}, {J("q.a.e.", fullSet({"b.e."}, {"A"}))}};
    vector<int> counts = c.thorough ? vector<int>{497, 498, 499, 500, 501, 502, 503, 504, 505, 1002} : vector<int>{499, 500, 501};
    c.cap = 3000;
    world::enumerate(s, c.thorough ? 3 : 2, [&](long, auto mk) {
        for (string under : c.thorough ? vector<string>{"e.", "a.e.", "b.e."} : vector<string>{"e.", "a.e."}) for (int n : counts) for (int pos = 0; pos < 3; pos++) {
            if (!c.mine()) continue;
            Config base = mk(), cfg; cfg.top = base.top; vector<string> fill; for (int i = 0; i < n; i++) fill.push_back("f" + std::to_string(i) + "." + under + " A 2.2.2.2");
            auto &b = base.files[0].lines; size_t at = pos == 0 ? 0 : pos == 1 ? b.size() : (b.size() + 1) / 2;
            vector<string> lines{"e. SOA", "e. NS ns1.e."}; lines.insert(lines.end(), b.begin(), b.begin() + at); lines.insert(lines.end(), fill.begin(), fill.end()); lines.insert(lines.end(), b.begin() + at, b.end());
            cfg.files = {{"ns1.e.", lines}}; auto w = world::model(cfg);
            for (size_t j = 0; j < jobs.size(); j++) if (j || pos != 1 || under == "e.") compare(c, cfg, w, jobs[j], everyProp());
        }
        return true; });
});

// ---- C25: substitutions near the length limit ----
static Reg c25("C25", [](Ctx &c) {
    // target texts of chosen length below f.; owners below a.e. of chosen length
    auto nameOf = [](int len, char ch, const string &tail) { string r; int left = len - (int)tail.size(); while (left > 0) { int l = std::min(64, left); if (left - l == 1) l--; r += rep(ch, l - 1) + "."; left -= l; ch++; } return r + tail; };
    vector<int> tl = c.thorough ? vector<int>{10, 120, 180, 185, 186, 187, 188, 189, 190, 191, 192, 200, 240, 247, 248, 249, 250, 251, 252, 253} : vector<int>{120, 187, 188, 189, 190, 247, 248, 250, 251, 253};
    vector<int> ol = c.thorough ? vector<int>{2, 3, 4, 5, 6, 30, 60, 61, 62, 63, 64, 66, 67, 130, 131, 132, 133, 134} : vector<int>{2, 3, 4, 62, 63, 64, 66, 131, 132, 133};
    vector<vector<Job>> jobs{{J(".", {P("DNAMESubstitutionCheck"), P("Hops", 0), P("Rewrites", 0), P("RewriteBlackholing"), P("NameserverContact", vector<string>{"zz."})})}, {J("a.e.", {P("DNAMESubstitutionCheck"), T(P("ResponseReturned"), {"A"})})}};
    auto props = set<string>{outName("DNAMESubstitutionCheck"), "Hops", "Rewrites", outName("RewriteBlackholing"), outName("NameserverContact"), outName("ResponseReturned")};
    for (int t : tl) for (int o : ol) for (int extra = 0; extra < (o == 2 ? 128 : 64); extra++) for (int srv = 0; srv < 2; srv++) {
        if (extra > 63 && (extra & 20 || srv)) continue; if (!c.mine()) continue;
        string target = nameOf(t, 'h', "f."), owner = nameOf(o, 'q', ""); string other = nameOf(o + 1, 't', "");
        Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e.", "a.e. DNAME " + target}}, {"ns1.e.", {"f. SOA", "f. NS ns1.e."}}};
        auto &e = cfg.files[0].lines; auto &f = cfg.files[1].lines;
        if (extra & 1) e.push_back(owner + "a.e. A 1.1.1.1");
        if (extra & 2) { if (textLenOk(owner + target)) f.push_back(owner + target + " A 2.2.2.2"); }
        if (extra & 4) e.push_back("c.e. DNAME a.e.");
        if (extra & 8) { e.push_back("b.e. CNAME " + owner + "a.e."); }
        if (extra & 16) f.push_back(target + " DNAME x.f."); if (extra & 64) f.push_back(target + " DNAME e."); // (names grow level by level, so few of these)
        if (extra & 32) e.push_back(other + "a.e. TXT t"), e.push_back("*.e. CNAME " + other + "a.e.");
        if (srv) { auto fl = f; fl.push_back("f. NS ns2.e."); f = {"g. SOA"}; e.push_back("f. NS ns2.e."); cfg.top.push_back("ns2.e."); cfg.files.push_back({"ns2.e.", fl}); }
        auto w = world::model(cfg); size_t cap = c.cap; if (extra & 64) c.cap = 4000; for (auto &j : jobs) compare(c, cfg, w, j, props); c.cap = cap;
    }
    auto jobs2 = [&](const Spec &) { return vector<vector<Job>>{{J(".", {P("DNAMESubstitutionCheck")})}}; };
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 4 : 2, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg); for (auto &j : jobs2(spec)) compare(c, cfg, w, j, {outName("DNAMESubstitutionCheck")}); return true; });
});

// ---- C29: sequences of jobs ----
static vector<Job> jobAlphabet(const Spec &s) {
    auto &d = s.domains; vector<Job> v;
    v.push_back(J(".", {P("Hops", 1), P("Rewrites", 0), T(P("ResponseValue", vector<string>{s.values[0]}), {"A"})}));
    v.push_back(J(".", {P("StructuralDelegationConsistency"), P("LameDelegation")}));
    v.push_back(J(d[1], {T(P("ResponseReturned"), {"TXT", "A"}), T(P("ZeroTTL"), {"A"}), P("DelegationConsistency")}));
    v.push_back(J(d[2], {T(P("ResponseConsistency"), {"A", "CNAME"})}, false));
    v.push_back(J("zz.zz.", {P("Hops", 0), T(P("ResponseReturned"), {"MX"})}));
    v.push_back(J(".", {P("AllAliases", vector<string>{s.hosts[1], s.hosts[0]}), P("QueryRewrite", vector<string>{s.hosts[1]})}));
    v.push_back(J(rep('x', 64) + ".e.", {P("Hops", 0)}));
    v.push_back(J(d[2], {P("RewriteBlackholing"), P("NameserverContact", vector<string>{s.hosts[0]}), P("InfiniteDNameRec"), P("DNAMESubstitutionCheck")}));
    v.push_back(J(".", {T(P("ResponseReturned"), {"NS"})}));
    return v;
}
static Reg c29("C29", [](Ctx &c) {
    for (auto &spec : world::all()) { auto al = jobAlphabet(spec);
        auto seqs = [&](int k, int len) { world::enumerate(spec, k, [&](long, auto mk) {
            sequences((int)al.size(), len, [&](const vector<int> &s) { if ((int)s.size() != len || !c.mine()) return; Config cfg = mk(); auto w = world::model(cfg); vector<Job> js; for (int i : s) js.push_back(al[i]); compare(c, cfg, w, js, everyProp()); }); return true; }); };
        // everything at one domain, then next to nothing at another, with and without the names below, for other types
        world::enumerate(spec, c.thorough ? 2 : 1, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg);
            for (auto &d1 : spec.domains) for (auto &d2 : spec.domains) for (bool s1 : {false, true}) for (bool s2 : {false, true}) { if (s1 && s2 && d1 == d2) continue;
                auto full = fullSet(spec.hosts, {"NS"}), second = vector<Prop>{T(P("ZeroTTL"), {"NS"})}; if (s1) full = vector<Prop>{T(P("ResponseReturned"), {"A", "TXT"}), T(P("ZeroTTL"), {"A"}), P("StructuralDelegationConsistency")}, second = vector<Prop>{T(P("ResponseReturned"), {"A"}), P("Hops", 0)};
                compare(c, cfg, w, {J(d1, full, s1), J(d2, second, s2)}, everyProp()); } return true; });
        seqs(c.thorough ? 2 : 1, 3); seqs(c.thorough ? 3 : 2, 2); if (c.thorough) seqs(1, 4);
    }
});

// ---- C30: several properties in one job ----
static Reg c30("C30", [](Ctx &c) {
    // properties without influence on the record types in any order: each pair, then everything
    for (auto &spec : world::all()) for (auto &types : vector<vector<string>>{{"A"}, {"A", "CNAME"}, {"NS"}}) {
        vector<Prop> ps = fullSet({spec.hosts[0]}, types); ps.push_back(P("Hops", 2)); ps.push_back(P("AllAliases", vector<string>{spec.hosts[1]}));
        long pairsUpTo = world::count((int)spec.items.size(), c.thorough ? 2 : 1); // pairs for at most that many deviations
        world::enumerate(spec, c.thorough ? 3 : 2, [&](long idx, auto mk) {
            if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg);
            { auto e = ref::expect(w, J(".", ps)); if (e.skipped) { c.skipped++; return true; } for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } }
            // property alone (with a neutral companion of the same types) versus with every other one
            Prop n1 = P("ResponseValue"), n2 = T(P("ResponseValue"), types), n3 = P("Rewrites", 99999); // neutral (no values, more rewrites than there are): the types stay {NS} u types
            auto run = [&](vector<Prop> p) { p.push_back(n1); p.push_back(n2); auto o = runConfig(cfg, {J(".", p).toJson()}); c.execs++; if (o.problem.size()) { json d = describe(cfg, {J(".", p).toJson()}); d["why"] = o.problem; c.violate(d); } set<json> r; for (auto &x : o.items) r.insert(canon(x)); return r; };
            vector<set<json>> alone; for (auto &p : ps) alone.push_back(run({p}));
            for (size_t i = 0; i < ps.size(); i++) { auto got = run({ps[i], n3}); if (got != alone[i]) { json d = describe(cfg, {J(".", {ps[i], n3}).toJson()}); d["why"] = diffJson(alone[i], got); d["note"] = "expected is the report without the property that can not fail"; c.violate(d); } }
            auto merged = [&](const vector<size_t> &sel) { set<json> u; map<string, set<string>> al; for (size_t i : sel) for (auto &x : alone[i]) { if (x["Property"] == "All Aliases") { for (auto &y : x["Canonical Name and their Aliases"]) for (auto &z : y["Aliases"]) al[y["Canonical Name"]].insert(z.get<string>()); } else u.insert(x); } for (auto &x : aliasItems(al)) u.insert(x); return u; };
            auto check = [&](const vector<size_t> &sel) { vector<Prop> p; for (size_t i : sel) p.push_back(ps[i]); auto got = run(p), want = merged(sel); c.outcome(json(got).dump(), got.size());
                if (got != want) { json d = describe(cfg, {J(".", p).toJson()}); d["why"] = diffJson(want, got); d["note"] = "expected is the union of the reports of the properties run alone"; c.violate(d); } if (got.size()) { json s = describe(cfg, {}); s["properties"] = p.size(); c.sample(s); } };
            size_t m = ps.size(); for (size_t i = 0; i < m; i++) for (size_t j = i + 1; j < m; j++) if (idx < pairsUpTo) check({i, j});
            vector<size_t> every, back; for (size_t i = 0; i < m; i++) { every.push_back(i); back.push_back(m - 1 - i); } check(every); check(back);
            for (size_t k = 0; k < m; k++) { auto s = every; s.erase(s.begin() + k); check(s); }
            return true; });
    }
});

// ---- C31: order of records, files, servers, properties ----
static json unordered(json x, map<string, int> &) { // representatives that name one of several equivalent queries or loops
    if (x["Property"] == "Cyclic Zone Dependency") return json{{"Property", "Cyclic Zone Dependency"}};
    if (x["Property"] == "Response Consistency" || x["Property"] == "Zero TTL") x.erase("Query");
    if (x.count("Inconsistent Pairs")) for (auto &p : x["Inconsistent Pairs"]) for (string side : {"parent", "child"}) if (p.count(side + "-a NS")) { // a and b are interchangeable
        json q = json::object(); for (auto &[k, v] : p.items()) { string n = k; size_t i = n.find(side + "-a"); if (i != string::npos) n[i + side.size() + 1] = 'b'; else if ((i = n.find(side + "-b")) != string::npos) n[i + side.size() + 1] = 'a'; q[n] = v; }
        json tmp; tmp["Inconsistent Pairs"] = {p}; json cp = canon(tmp); tmp["Inconsistent Pairs"] = {q}; json cq = canon(tmp); p = std::min(cp, cq)["Inconsistent Pairs"][0]; }
    return canon(x); }
static Reg c31("C31", [](Ctx &c) {
    for (auto &spec : world::all()) {
        world::enumerate(spec, c.thorough ? 3 : 2, [&](long, auto mk) {
            if (!c.mine()) return true; Config cfg = mk();
            // only configurations whose records are all admissible, in any order
            for (auto &f : cfg.files) for (int rev = 0; rev < 2; rev++) { ref::Zone z; vector<string> ls = f.lines; if (rev) std::reverse(ls.begin() + 1, ls.end()); for (auto &l : ls) { auto x = world::split(l); if (z.admit({toName(ref::lower(x.owner)), ref::tyOf(x.type), x.ttl, ref::lower(x.data)}) != ref::OK) return true; } }
            auto ps = fullSet({spec.hosts[0], spec.hosts[1]}, {"A", "CNAME"}); vector<Job> js{J(".", ps), J(spec.domains[1], ps)};
            { auto w = world::model(cfg); auto e = ref::expect(w, js[0]); if (e.skipped) { c.skipped++; return true; } for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } }
            auto run = [&](const Config &k, const vector<Job> &jobs) { vector<json> v; for (auto &j : jobs) v.push_back(j.toJson()); auto o = runConfig(k, v); c.execs++; if (o.problem.size()) { json d = describe(k, v); d["why"] = o.problem; c.violate(d); } set<json> r; map<string, int> m; for (auto &x : o.items) r.insert(unordered(x, m)); return r; };
            auto base = run(cfg, js); c.outcome(json(base).dump(), base.size()); if (base.size()) c.sample(describe(cfg, {}));
            auto same = [&](const Config &k, const vector<Job> &jobs, const string &what) { auto got = run(k, jobs); if (got != base) { vector<json> v; for (auto &j : jobs) v.push_back(j.toJson()); json d = describe(k, v); d["why"] = diffJson(base, got); d["change"] = what; d["original"] = describe(cfg, {}); c.violate(d); } };
            for (size_t f = 0; f < cfg.files.size(); f++) { auto &ls = cfg.files[f].lines; if (ls.size() < 3) continue; Config k = cfg; auto &kl = k.files[f].lines;
                if (ls.size() <= 5) { vector<int> p; for (size_t i = 1; i < ls.size(); i++) p.push_back((int)i); while (std::next_permutation(p.begin(), p.end())) { for (size_t i = 1; i < ls.size(); i++) kl[i] = ls[p[i - 1]]; same(k, js, "record order"); } }
                else { for (size_t i = 1; i < ls.size(); i++) for (size_t j = i + 1; j < ls.size(); j++) { kl = ls; std::swap(kl[i], kl[j]); same(k, js, "two records exchanged"); } kl = ls; std::reverse(kl.begin() + 1, kl.end()); same(k, js, "records reversed"); } }
            { vector<int> p; for (size_t i = 0; i < cfg.files.size(); i++) p.push_back((int)i); int n = 0; while (std::next_permutation(p.begin(), p.end()) && n++ < 24) { Config k = cfg; for (size_t i = 0; i < p.size(); i++) k.files[i] = cfg.files[p[i]]; same(k, js, "file order"); } Config k = cfg; std::reverse(k.files.begin(), k.files.end()); same(k, js, "files reversed"); }
            if (cfg.top.size() > 1) { Config k = cfg; std::reverse(k.top.begin(), k.top.end()); same(k, js, "top servers"); }
            { auto r = js; for (auto &j : r) std::reverse(j.props.begin(), j.props.end()); same(cfg, r, "properties"); }
            return true; });
    }
});

// ---- C34: letter case ----
static string up(string s) { for (auto &ch : s) ch = toupper(ch); return s; }
static string alt(string s, int ph) { for (size_t i = 0; i < s.size(); i++) if ((int)(i % 2) == ph) s[i] = toupper(s[i]); return s; }
static Reg c34("C34", [](Ctx &c) {
    for (auto &spec : world::all()) {
        world::enumerate(spec, c.thorough ? 3 : 2, [&](long, auto mk) {
            if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg);
            auto t = vector<string>{"A", "TXT", "CNAME"}; auto ps = fullSet({spec.hosts[0], spec.hosts[1]}, t); for (auto &p : ps) if (p.name == "QueryRewrite" || p.name == "NameserverContact") p.values = {spec.hosts[1]}; else if (p.name == "ResponseValue") p.values = {spec.values[0], "b.e."};
            vector<Job> js{J(".", ps), J(spec.domains[1], ps), J(spec.domains[2], ps, false)};
            vector<json> v; for (auto &j : js) { v.push_back(j.toJson()); auto e = ref::expect(w, j); if (e.skipped) { c.skipped++; return true; } for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } }
            vector<string> origins;
            auto files = [&](const vector<string> &texts, const vector<string> &ns, const vector<string> &top) { json m; m["TopNameServers"] = top; m["ZoneFiles"] = json::array(); for (size_t i = 0; i < texts.size(); i++) { m["ZoneFiles"].push_back({{"FileName", api::fileFor(texts[i])}, {"NameServer", ns[i]}}); if (origins.size()) m["ZoneFiles"].back()["Origin"] = origins[i]; } return m; };
            vector<string> texts, ns; for (auto &f : cfg.files) { texts.push_back(world::render(f.lines)); ns.push_back(f.ns); }
            auto run = [&](const vector<string> &tx, const vector<string> &n, const vector<string> &top, const vector<json> &jobs, const string &what) { auto o = api::runTool(files(tx, n, top), api::scratch(), jobs); c.execs++;
                set<json> r; for (auto &x : o.items) r.insert(canon(x)); static set<json> base; if (what.empty()) base = r; if (o.problem.size() || r != base) { json d; for (size_t i = 0; i < tx.size(); i++) d["files"]["zone" + std::to_string(i) + ".txt"] = tx[i]; d["metadata.json"] = {{"NameServers", n}, {"TopNameServers", top}}; d["jobs.json"] = jobs; d["why"] = o.problem.size() ? json(o.problem) : diffJson(base, r); d["change"] = what; c.violate(d); }
                if (what.empty()) { c.outcome(json(r).dump(), r.size()); if (r.size()) c.sample(describe(cfg, {})); } };
            run(texts, ns, cfg.top, v, "");
            auto upj = [&](json x) { x["Domain"] = up(x["Domain"]); for (auto &p : x["Properties"]) if (p.count("Value") && p["Value"].is_array()) for (auto &y : p["Value"]) y = up(y); return x; };
            vector<json> uj; for (auto &x : v) uj.push_back(upj(x));
            auto all = [&](auto f, vector<string> x) { for (auto &y : x) y = f(y); return x; };
            run(all(up, texts), ns, cfg.top, v, "zone files in upper case"); run(texts, all(up, ns), cfg.top, v, "server names in upper case"); run(texts, ns, all(up, cfg.top), v, "top servers in upper case"); run(texts, ns, cfg.top, uj, "jobs in upper case");
            run(all(up, texts), all(up, ns), all(up, cfg.top), uj, "everything in upper case");
            for (int ph = 0; ph < 2; ph++) { auto a = [&](const string &s) { return alt(s, ph); }; run(all(a, texts), all(a, ns), cfg.top, v, "alternating case"); }
            for (size_t i = 0; i < texts.size(); i++) { auto t2 = texts; t2[i] = up(t2[i]); run(t2, ns, cfg.top, v, "one file in upper case");
                auto ls = cfg.files[i].lines; for (size_t k = 0; k < ls.size(); k++) { auto l2 = ls; l2[k] = up(l2[k]); auto t3 = texts; t3[i] = world::render(l2); run(t3, ns, cfg.top, v, "one record in upper case"); } }
            // owners relative to an origin that the metadata state, in either case
            { vector<string> rel, org; for (auto &f : cfg.files) { string o; for (auto &l : f.lines) if (world::split(l).type == "SOA") { o = world::split(l).owner; break; } auto ls = f.lines; if (o != ".") for (auto &l : ls) { auto x = world::split(l); string w = x.owner; size_t n = w.size(), k = o.size(); if (w == o) l.replace(0, n, "@"); else if (n > k + 1 && w.compare(n - k, k, o) == 0 && w[n - k - 1] == '.') l.replace(0, n, w.substr(0, n - k - 1)); } rel.push_back(world::render(ls)); org.push_back(o); }
              for (int m = 0; m < 5; m++) { vector<string> o = m == 0 ? org : m == 1 || m == 3 ? all(up, org) : all([&](const string &s) { return alt(s, m % 2); }, org); origins = o; run(m > 2 ? all(up, rel) : rel, ns, cfg.top, v, "origin in the metadata, spelled otherwise"); } origins.clear(); }
            for (size_t i = 0; i < ns.size(); i++) { auto n2 = ns; n2[i] = up(n2[i]); run(texts, n2, cfg.top, v, "one server in upper case"); }
            return true; });
    }
});

// ---- C35: the default job ----
static Reg c35("C35", [](Ctx &c) {
    Job d = J(".", {P("Hops", 2), P("Rewrites", 1), P("DelegationConsistency"), P("LameDelegation"), P("QueryRewrite", vector<string>{"."}), P("RewriteBlackholing")});
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 4 : 3, [&](long, auto mk) {
        if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg); auto e = ref::expect(w, d); if (e.skipped) { c.skipped++; return true; }
        for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); }
        set<json> want; for (auto &x : e.out) want.insert(canon(x));
        for (int mode = 0; mode < 2; mode++) { auto o = runConfig(cfg, mode ? vector<json>{J("e.", {P("StructuralDelegationConsistency"), T(P("ZeroTTL"), {"A"})}).toJson(), json()} : vector<json>{json()}); c.execs++;
            auto got = pick(o.items, {"Hops", "Rewrites", outName("DelegationConsistency"), outName("LameDelegation"), outName("QueryRewrite"), outName("RewriteBlackholing")});
            auto extra = o.items; set<json> strange; for (auto &x : o.items) { string p = x["Property"]; bool known = got.count(canon(x)) || p == "Cyclic Zone Dependency" || (mode && (p == outName("StructuralDelegationConsistency") || p == "Zero TTL")); if (!known) strange.insert(x); }
            if (o.problem.size() || got != want || strange.size()) { json dd = describe(cfg, {}); dd["why"] = o.problem.size() ? json(o.problem) : strange.size() ? json(strange) : diffJson(want, got); dd["mode"] = mode ? "after another job" : "only job"; c.violate(dd); }
            c.outcome(json(got).dump(), got.size()); if (got.size()) c.sample(describe(cfg, {})); }
        return true; });
    // the same process checks other jobs before and after
    d.byDefault = true;
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 2 : 1, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg);
        for (auto &dom : spec.domains) for (auto &t : vector<vector<string>>{{"NS"}, {"A", "CNAME"}}) { auto f = J(dom, fullSet(spec.hosts, t), false); compare(c, cfg, w, {f, d}, everyProp()); compare(c, cfg, w, {f, d, J(spec.domains[1], {P("Hops", 0)}), d}, everyProp()); compare(c, cfg, w, {d, J(spec.domains[1], {T(P("ResponseReturned"), {"A"})})}, everyProp()); } return true; });
});

// ---- C39: every record type by itself, at every kind of place ----
static Reg c39("C39", [](Ctx &c) {
    struct Kind { const char *type, *data; }; const vector<Kind> kinds{{"A", "1.1.1.1"}, {"NS", "n.g."}, {"CNAME", "d.e."}, {"DNAME", "g."}, {"SOA", ""}, {"PTR", "d.e."}, {"MX", "10 d.e."}, {"TXT", "t"}, {"AAAA", "1::1"}, {"SRV", "0 0 5 d.e."}, {"RRSIG", "a 5 2 300 1 1 1 e. s"}, {"NSEC", "d.e. a mx"}, {"SPF", "v"}, {"DS", "1 5 1 ab"}};
    struct Place { int file; const char *owner; }; const vector<Place> places{{0, "a.e."}, {0, "*.b.e."}, {0, "d.e."}, {0, "e."}, {1, "a.e."}, {0, "p.a.e."}, {2, "d.h.e."}, {1, "*.b.e."}};
    struct Item { int file; string line; int type; }; vector<Item> items;
    for (auto &p : places) for (auto &k : kinds) for (int z = 0; z < (c.thorough ? 2 : 1); z++) items.push_back({p.file, string(p.owner) + (z || (p.file == 1 && items.size() % 2) ? " 0 " : " ") + k.type + (*k.data ? string(" ") + k.data : ""), (int)(&k - &kinds[0])});
    auto check = [&](const vector<int> &sel) {
        if (!c.mine()) return;
        Config cfg; cfg.top = {"n1.e.", "n2.e."}; vector<string> base{"e. SOA", "e. NS n1.e.", "e. NS n2.e.", "c.e. CNAME d.e.", "h.e. NS n3.e.", "n3.e. A 3.3.3.3", "*.f.e. CNAME d.h.e."}; cfg.files = {{"n1.e.", base}, {"n2.e.", base}, {"n3.e.", {"h.e. SOA", "h.e. NS n3.e."}}};
        set<int> used; for (int i : sel) { cfg.files[items[i].file].lines.push_back(items[i].line); used.insert(items[i].type); }
        auto w = world::model(cfg); set<string> ts; for (int t : used) if (kinds[t].type != string("DS")) ts.insert(kinds[t].type);
        auto about = [&](vector<string> types) { vector<string> vals{"zz"}; for (int t : used) vals.push_back(kinds[t].data); return vector<Prop>{T(P("ResponseReturned"), types), T(P("ResponseConsistency"), types), T(P("ZeroTTL"), types), T(P("ResponseValue", vector<string>{vals.back()}), types), T(P("ResponseValue", vals), types)}; };
        vector<vector<string>> sets; for (auto &t : ts) sets.push_back({t}); if (ts.size() > 1) sets.push_back({ts.begin(), ts.end()}); sets.push_back(allTypes);
        if (sel.size() < 2) for (auto &t : allTypes) if (!ts.count(t)) sets.push_back({t});
        for (auto &t : sets) { compare(c, cfg, w, {J(".", about(t))}, everyProp()); if (sel.size() < 2) for (auto d : {"a.e.", "x.b.e.", "c.e.", "y.f.e.", "e."}) compare(c, cfg, w, {J(d, about(t), false)}, everyProp()); }
    };
    int n = (int)items.size();
    auto owner = [&](int i) { return items[i].line.substr(0, items[i].line.find(' ')); }; // (the order matters at one name of one file)
    check({}); for (int i = 0; i < n; i++) check({i}); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i < j || (i > j && items[i].file == items[j].file && owner(i) == owner(j))) check({i, j});
    // all types but one at one place; in each order
    for (auto &p : places) for (size_t skip = 0; skip <= kinds.size(); skip++) { vector<int> sel; for (int i = 0; i < n; i++) { size_t k = items[i].type; if (k == skip || k == 2 || (k == 1 && p.owner[0] != 'e')) continue; if (items[i].file == p.file && items[i].line.rfind(string(p.owner) + " ", 0) == 0 && (sel.empty() || items[sel.back()].type != (int)k)) sel.push_back(i); } check(sel); std::reverse(sel.begin(), sel.end()); check(sel); }
    // triples at one name and its copy
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) { auto at = [&](int x, const char *o) { return items[x].line.rfind(o, 0) == 0; }; bool same = false; for (auto o : c.thorough ? vector<const char *>{"a.e.", "*.b.e.", "d.e.", "e."} : vector<const char *>{"a.e."}) if (at(i, o) && at(j, o) && at(k, o)) same = true; if (same) check({i, j, k}); }
});

// ---- C41: zones that have nothing to do with a job ----
static Reg c41("C41", [](Ctx &c) {
    using ZT = world::ZoneText; auto soa = [](const string &o) { return o + " SOA"; };
    // n zones of one kind; none of their names is below a name of the families
    auto extras = [&](int kind, int n, const Spec &s) { vector<ZT> v; string top = s.top[0];
        for (int i = 0; i < n; i++) { string k = "k" + std::to_string(i), o;
            switch (kind) {
            case 0: o = k + ".zz9."; v.push_back({top, {soa(o), o + " NS " + top, "*." + o + " A 6.6.6.6"}}); break;                                   // at the first server
            case 1: o = k + ".zz9."; v.push_back({"n" + k + ".zz9.", {soa(o), o + " NS n" + k + ".zz9.", "a." + o + " CNAME e." + o}}); break;         // at servers of their own
            case 2: o = k + ".e.zz9."; v.push_back({top, {soa(o), "a." + o + " CNAME a.e.", "b." + o + " CNAME b.e.", "e." + o + " NS ns1.e."}}); break; // pointing at the names of the job
            case 3: if (!i) v.push_back({top, {"zz9. SOA"}}); v[0].lines.push_back(k + ".zz9. A 6.6.6.6"); break;                                      // one zone of many siblings
            case 4: if (!i) v.push_back({top, {"zz9. SOA"}}); v[0].lines.push_back("zz9. TXT " + k); break;                                           // many records at one name
            case 5: if (!i) v.push_back({top, {"zz9. SOA"}}); { string x = "zz9."; for (int j = 0; j < i && x.size() < 240; j++) x = "e." + x; v[0].lines.push_back(x + " NS " + top); } break; // a deep name
            case 6: { const char *look[] = {"ee.", "xe.", "e-.", "ae.", "a-e.", "e0.", "ff.", "aa.", "bb.", "ba.", "tt.", "a.ee.", "a.e.ee.", "1e.", "\\.e.", "\\.a.", "a\\.e."}; if (i >= 17) return v; o = look[i]; v.push_back({top, {soa(o), o + " NS " + top, "*." + o + " A 6.6.6.6", "a." + o + " NS zz9.", "b." + o + " DNAME a." + o}}); break; } // names that look alike
            case 7: o = k + ".zz9."; v.push_back({"NS1.ZZ9.", {soa(o), "a." + o + " DNAME a.k" + std::to_string((i + 1) % n) + ".zz9."}}); break;        // redirections of their own, in a ring
            } }
        return v; };
    const vector<vector<int>> counts{{1, 2, 7, 8, 15, 16, 31, 63, 64, 127, 128, 255, 256, 257}, {1, 255, 256, 300}, {1, 5, 17}, {1, 499, 501, 1100}, {2, 255, 257}, {3, 100}, {17}, {1, 2, 3}};
    c.cap = 1000;
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 2 : 1, [&](long idx, auto mk) {
        for (int kind = 0; kind < 8; kind++) for (int n : counts[kind]) for (int pos = 0; pos < 3; pos++) {
            if (idx && (n > 16 ? (idx + pos + n) % (c.thorough ? 4 : 13) : (idx + pos + n) % (c.thorough ? 1 : 3))) continue;
            if (!c.mine()) continue; Config cfg = mk(), big = cfg; auto w = world::model(cfg); auto more = extras(kind, n, spec);
            size_t at = pos == 0 ? 0 : pos == 1 ? cfg.files.size() : 1; big.files.insert(big.files.begin() + at, more.begin(), more.end());
            for (size_t di = 1; di < spec.domains.size(); di++) { auto &dom = spec.domains[di]; if (dom == ".") continue; compare(c, big, w, {J(dom, fullSet(spec.hosts, {"A", "TXT", "CNAME"}), di == 1 || di % 2 == 0)}, everyProp()); }
        }
        return true; });
    if (c.thorough) for (int n : {4096, 65534, 65537}) for (int kind : {0, 3}) for (auto &spec : world::all()) { if (!c.mine()) continue; Config cfg; world::enumerate(spec, 0, [&](long, auto mk) { cfg = mk(); return true; }); Config big = cfg; auto w = world::model(cfg); auto more = extras(kind, kind ? n : std::min(n, 4096), spec); big.files.insert(big.files.begin(), more.begin(), more.end()); compare(c, big, w, {J(spec.domains[1], fullSet(spec.hosts, {"A"}))}, everyProp()); }
});

// ---- C09: concrete queries against the verdict of their class ----
static Reg c09("C09", [](Ctx &c) {
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 3 : 2, [&](long, auto mk) {
        if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg);
        auto ps = fullSet({spec.hosts[0], spec.hosts[1], "b.e."}, {"A", "CNAME"}); vector<Prop> path; for (auto &p : ps) if (p.name != "StructuralDelegationConsistency") path.push_back(p);
        Job job = J(".", path); auto ex = ref::expect(w, job); if (ex.skipped) { c.skipped++; return true; }
        auto o = runConfig(cfg, {job.toJson()}); c.execs++;
        set<json> got; for (auto &x : o.items) got.insert(canon(x)); map<string, set<string>> aliases;
        auto fail = [&](json why) { json d = describe(cfg, {job.toJson()}); d["why"] = why; c.violate(d); };
        if (o.problem.size()) fail(o.problem);
        for (auto &x : got) if (x["Property"] == "All Aliases") for (auto &y : x["Canonical Name and their Aliases"]) for (auto &z : y["Aliases"]) aliases[y["Canonical Name"]].insert(z.get<string>());
        set<string> loops; for (auto &x : got) if (x["Property"] == "Cyclic Zone Dependency") loops.insert(x["Loop"].dump());
        // class names by exact name / by base of "all other"
        set<Name> exact, other; map<Name, bool> nonex; for (auto &q : ex.classes) { if (q.other) { Name b = q.shown(); other.insert(b); nonex[b] = q.nonex; } else exact.insert(q.name); }
        set<string> labels{"zz"}; for (auto &f : cfg.files) for (auto &l : f.lines) { auto x = world::split(l); for (auto &n : toName(ref::lower(x.owner))) labels.insert(n); if (x.type != "A" && x.type != "AAAA" && x.type != "TXT" && x.type != "SOA" && x.type != "MX") for (auto &n : toName(ref::lower(x.data))) labels.insert(n); }
        vector<string> L(labels.begin(), labels.end()); int depth = c.thorough ? 4 : 3;
        std::function<void(Name &)> go = [&](Name &n) {
            // the class of n: itself, or the deepest examined ancestor with "all other names"
            ref::Query q; q.name = n; bool covered = exact.count(n);
            if (!covered) { size_t k = n.size(); while (k > 0) { Name b(n.begin(), n.begin() + k - 1); if (exact.count(b)) break; k--; }
                if (k == 0) fail("no class at all covers " + toText(n)); Name b(n.begin(), n.begin() + k - 1); if (!other.count(b)) fail("no class covers " + toText(n)); q.other = true; q.extra = (int)(n.size() - b.size()); q.nonex = nonex[b]; }
            q.types = job.types(); c.states++;
            ref::Expected e1; ref::evalClass(w, job, q, e1); if (!e1.skipped) {
                c.transitions += e1.graphs[0].n.size();
                for (auto &x : e1.out) if (!got.count(canon(x))) fail({{"concrete query", toText(n)}, {"violates a property that is not reported for its class", x}});
                for (auto &[k, v] : e1.aliases) for (auto &a : v) if (!aliases.count(k) || !aliases[k].count(a)) fail({{"concrete query", toText(n)}, {"alias not reported", {k, a}}});
                if (e1.graphs[0].cyclic() && loops.empty()) fail({{"concrete query", toText(n)}, {"why", "its resolution loops and no loop is reported"}});
                if (e1.out.size()) { c.nontrivial++; }
            }
            if ((int)n.size() < depth) for (auto &l : L) { n.push_back(l); go(n); n.pop_back(); }
        };
        Name n; go(n); c.outcome(json(got).dump(), got.size()); if (got.size()) c.sample(describe(cfg, {}));
        return true; });
});
}
namespace chk {
// ---- C43: labels mean nothing: renamed configurations ----
static Reg c43("C43", [](Ctx &c) {
    const vector<string> labels{"a", "b", "c", "d", "e", "f", "g", "h", "p", "q", "r", "s", "t", "u", "x", "z", "ns", "ns1", "ns2", "ns3"}; int n = (int)labels.size();
    auto base = [&](int k) { string s; for (int i = 0; i <= k; i++) s += char('a' + i); return s; };      // a, ab, abc, ...
    vector<std::pair<string, vector<string>>> ways; auto way = [&](const string &w, std::function<string(int)> f) { vector<string> v; for (int i = 0; i < n; i++) v.push_back(f(i)); ways.push_back({w, v}); };
    way("each label is the end of the next", [&](int i) { string s = base(i); std::reverse(s.begin(), s.end()); return s; });
    way("each label is the beginning of the next", [&](int i) { return base(i); });
    way("each label is the beginning of the one before", [&](int i) { return base(n - 1 - i); });
    way("types, classes, numbers", [&](int i) { static const char *w[] = {"in", "a", "ns", "soa", "cname", "dname", "txt", "mx", "300", "0", "1h", "any", "ch", "aaaa", "1", "srv", "1w2", "ptr", "origin", "ttl"}; return string(w[i]); });
    way("other names for types", [&](int i) { static const char *w[] = {"ns", "soa", "in", "mx", "a", "dname", "cname", "type", "class", "query", "server", "property", "value", "true", "null", "4294967296", "-1", "0x", "1e5", "ds"}; return string(w[i]); });
    way("escaped dots", [&](int i) { static const char *w[] = {"a\\.e", "b\\.a", "e\\.e", "a\\.b", "e", "f\\.e", "e\\.a", "a", "b", "a\\.a", "b\\.e", "ns\\.e", "ns1\\.e", "ns1\\.a", "b\\.a\\.e", "a\\.b\\.e", "ns", "ns1", "e\\.ns1", "ns\\.a"}; return string(w[i]); });
    way("escaped backslashes", [&](int i) { static const char *w[] = {"a\\\\", "a\\\\\\\\", "\\\\", "\\\\\\\\", "e\\\\e", "\\\\e", "\\\\.e", "a\\\\b", "\\\\a", "\\\\b", "a", "b", "e", "\\\\ns", "ns\\\\", "ns1\\\\", "\\\\ns1", "ns\\\\1", "\\\\\\\\a", "b\\\\"}; string s = w[i]; return s == "\\\\.e" ? string("n\\\\n") : s; });
    way("hyphens and underscores", [&](int i) { string s; for (int b = 0; b < 5; b++) s += (i >> b & 1) ? '-' : '_'; return s; });
    way("digits", [&](int i) { return i < 10 ? string(1, char('0' + i)) : string("0") + char('0' + i - 10); });
    way("long and nearly equal at the end", [&](int i) { return rep('y', 29) + base(i).back(); });
    way("long and nearly equal at the beginning", [&](int i) { return base(i).back() + rep('y', 29); });
    way("full length for some", [&](int i) { return i < 3 ? rep(char('a' + i), 63) : labels[i]; });
    way("reversed order", [&](int i) { return string(1, char('z' - i)); });
    way("characters of formats and patterns", [&](int i) { static const char *w[] = {"{}", "%s", "[a]", "^", "{0}", "|", "+", "?", "a+", "%n", "{", "}", "&", "<a>", "'", "/", "!", "=", "#", "a-z"}; return string(w[i]); });
    way("more of them", [&](int i) { static const char *w[] = {".*", "%", "{}{}", "a{2}", "[", "]", "~", "^a", "&amp", "_", "-", "/a", "//", ",", ":", "%d", "{x}", "`", "a*", "**"}; string s = w[i]; return s[0] == '.' ? string("x*") : s; });
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 3 : 2, [&](long, auto mk) {
        for (auto &[what, to] : ways) { if (!c.mine()) continue;
            auto ren = [&](const string &name) { return renameLabels(name, [&](const string &l) { auto it = std::find(labels.begin(), labels.end(), l); if (it == labels.end()) abort(); return to[it - labels.begin()]; }); };
            Config cfg = renamed(mk(), ren);
            vector<string> hosts; for (auto &h : spec.hosts) hosts.push_back(ren(h)); auto ps = fullSet({hosts[0], hosts[1]}, {"A", "TXT", "CNAME"}); for (auto &p : ps) if (p.name == "QueryRewrite" || p.name == "NameserverContact") p.values = {hosts[1]}; else if (p.name == "ResponseValue") p.values = {spec.values[0], hosts[0]};
            auto w = world::model(cfg); compare(c, cfg, w, {J(".", ps)}, everyProp()); compare(c, cfg, w, {J(ren(spec.domains[1]), ps, false), J(ren(spec.domains[2]), ps)}, everyProp()); }
        return true; });
});
}
