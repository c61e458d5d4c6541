// Exact comparison of reports with the reference model over exhaustively enumerated configurations ("worlds").
#include "check.hpp"
namespace chk {
static json addLoops(const ref::Expected &ex, const set<json> &got) { // C11: loops are judged, not predicted literally
    json bad = json::array(); vector<const ref::Resolution *> cyc; for (auto &g : ex.graphs) if (g.cyclic()) cyc.push_back(&g);
    vector<char> seen(cyc.size(), 0);
    for (auto &x : got) { bool ok = false; for (size_t i = 0; i < cyc.size(); i++) if (cyc[i]->isLoop(x["Loop"])) { ok = true; seen[i] = 1; } if (!ok) bad.push_back({{"not a loop of any query", x}}); }
    for (size_t i = 0; i < cyc.size(); i++) if (!seen[i]) bad.push_back({{"no loop reported for", cyc[i]->n[0].q.text()}});
    return bad;
}
// run one job list on one configuration and compare the entries named in props
void compare(Ctx &c, const Config &cfg, const ref::World &w, const vector<Job> &jobs, const set<string> &props) {
    if (c.memory) { vector<json> js; for (auto &j : jobs) js.push_back(j.toJson()); auto o = runConfig(cfg, js); c.execs++; if (o.problem.size() && o.problem.compare(0, 11, "exception: ") && o.problem != "the program called exit(1)") { json d = describe(cfg, js); d["why"] = o.problem; c.violate(d); } c.outcome(o.problem + json(o.items).dump(-1, ' ', false, json::error_handler_t::replace), o.items.size()); return; }
    set<json> want; map<string, set<string>> none; vector<json> js; vector<ref::Expected> exs; bool loops = props.count("Cyclic Zone Dependency");
    for (auto &j : jobs) { exs.push_back(ref::expect(w, j, c.cap)); auto &e = exs.back(); if (e.skipped) { c.skipped++; return; }
        for (auto &x : e.out) want.insert(canon(x)); for (auto &x : aliasItems(e.aliases)) want.insert(x); js.push_back(j.toJson());
        for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } }
    want = pick(want, props);
    auto o = runConfig(cfg, js); c.execs++;
    set<json> got = o.problem.empty() ? pick(o.items, props) : set<json>{};
    auto fail = [&](json why) { json d = describe(cfg, js); d["why"] = why; d["problem"] = o.problem; d["expected"] = want; d["got"] = got; c.violate(d); };
    if (o.problem.size()) fail("the run failed: " + o.problem);
    if (loops) { set<json> l; for (auto &x : got) if (x["Property"] == "Cyclic Zone Dependency") l.insert(x); for (auto &x : l) got.erase(x); json bad = json::array();
        // every loop must be a loop of some class of some job
        ref::Expected all; for (auto &e : exs) for (auto &g : e.graphs) all.graphs.push_back(g);
        bad = addLoops(all, l); if (bad.size()) { for (auto &x : l) got.insert(x); fail(bad); }
        c.outcome(json(l).dump(), l.size()); if (l.size() && c.samples.size() < 2) { auto s = describe(cfg, js); s["reported"] = l; c.sample(s); } }
    if (got != want) fail(diffJson(want, got));
    if (!loops || props.size() > 1) { c.outcome(json(got).dump(-1, ' ', false, json::error_handler_t::replace), got.size()); if (got.size() && c.samples.size() < 2) { auto s = describe(cfg, js); s["reported"] = got; c.sample(s); } }
}
struct Sweep { string world; int k; vector<vector<Job>> jobs; };
static void sweep(Ctx &c, const vector<Sweep> &sw, const set<string> &props) {
    for (auto &s : sw) for (auto &spec : world::all()) if (spec.name == s.world) {
        world::enumerate(spec, s.k, [&](long, auto mk) {
            if (!c.mine()) return true;
            Config cfg = mk(); auto w = world::model(cfg); for (auto &js : s.jobs) compare(c, cfg, w, js, props);
            return true; });
    }
}
// jobs for every name there is or is redirected to, with and without the names below it
static void sweepNames(Ctx &c, vector<Prop> ps, const set<string> &props, int k) {
    for (auto &spec : world::all()) world::enumerate(spec, k, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg); vector<ref::Query> cl; if (!ref::classesOf(w, J(".", ps), cl, nullptr, 60)) { c.skipped++; return true; }
        set<ref::Name> ns; for (auto &q : cl) { if (q.other || q.name.size() > 4) continue; ns.insert(q.name); } for (auto &n : ns) for (bool sub : {true, false}) if (n.size() || !sub) compare(c, cfg, w, {J(ref::toText(n), ps, sub)}, props); return true; });
}
// every configuration moved to below other names, so that all names, those of the zones included, have many labels
static void sweepDeep(Ctx &c, std::function<vector<vector<Job>>(const Spec &, std::function<string(const string &)>)> jobs, const set<string> &props, int k) {
    string far; for (int i = 0; i < 40; i++) far += string(1, (char)('a' + i % 3)) + "."; // (labels that the configurations use as well)
    for (auto &spec : world::all()) for (auto below : {string("v.w.x."), string("a.e."), far}) { std::function<string(const string &)> ren = [below](const string &n) { return n == "." ? below : n + below; }; auto jj = jobs(spec, ren);
        world::enumerate(spec, k, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = renamed(mk(), ren); auto w = world::model(cfg); for (auto &js : jj) compare(c, cfg, w, js, props); return true; }); }
}
static void sweepDeep(Ctx &c, vector<Prop> ps, const set<string> &props, int k) { sweepDeep(c, [&](const Spec &s, auto ren) { return vector<vector<Job>>{{J(".", ps)}, {J(ren(s.domains[1]), ps), J(ren(s.domains[2]), ps, false)}}; }, props, k); }
// every delegation of a.e. to any of three servers (in the child, in the parent, elsewhere): name server and address records
// of parent and child, the servers that have the child zone, and one record that a single copy of it has or lacks
static void sweepCuts(Ctx &c, const vector<vector<Job>> &jobs, const set<string> &props, int drop = 0, int others = 1) {
    const char *NSR[] = {"a.e. NS ns1.a.e.", "a.e. NS n.e.", "a.e. NS x."}, *SRV[] = {"ns1.a.e.", "n.e.", "x."}, *PG[] = {"ns1.a.e. A 1.1.1.1", "ns1.a.e. A 1.1.1.2", "ns1.a.e. AAAA 1::1", "n.e. A 3.3.3.3"};
    int diffs = c.thorough ? 6 : 3; const char *DIFF[] = {"", "a.e. NS n.e.", "ns1.a.e. A 1.1.1.1", "a.e. NS ns1.a.e.", "ns1.a.e. AAAA 1::1", "c.a.e. A 5.5.5.5"};
    for (int pn = 0; pn < 8; pn++) for (int pg = 0; pg < 16; pg++) for (int have = 0; have < 8; have++) for (int cn = 0; cn < 8; cn++) for (int cg = 0; cg < 8; cg++) for (int df = 0; df < diffs; df++) for (int oth = 0; oth < others; oth++) {
        if (!have && (cn || cg || df)) continue; int copies = __builtin_popcount(have); if (copies < 2 && df) continue; if (!c.thorough && drop && (pg & 4 || cg & 4)) continue; if (!c.mine()) continue;
        Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}}; for (int i = 0; i < 3; i++) if (pn >> i & 1) cfg.files[0].lines.push_back(NSR[i]); for (int i = 0; i < 4; i++) if (pg >> i & 1) cfg.files[0].lines.push_back(PG[i]);
        for (int v = 0; v < 3; v++) if (have >> v & 1) { vector<string> l{"a.e. SOA"}; for (int i : {2, 0, 1}) if (cn >> i & 1) l.push_back(NSR[i]); for (int i = 0; i < 3; i++) if (cg >> i & 1) l.push_back(PG[i]); cfg.files.push_back({SRV[v], l}); }
        if (df) { auto &l = cfg.files.back().lines; auto it = std::find(l.begin(), l.end(), string(DIFF[df])); if (it == l.end()) l.push_back(DIFF[df]); else l.erase(it); }
        if (oth) for (int v = 0; v < 3; v++) if (!(have >> v & 1)) cfg.files.push_back({SRV[v], {"z. SOA"}}); if (oth == 2) { cfg.files[0].lines.push_back("b.e. CNAME c.a.e."); cfg.files[0].lines.push_back("d.e. DNAME a.e."); }
        auto w = world::model(cfg); for (auto &js : jobs) compare(c, cfg, w, js, props); }
}
static void sweepRedirects(Ctx &c, vector<Prop> ps, const set<string> &props) {
    redirections([&](auto mk) { if (!c.mine()) return; Config cfg = mk();
        auto w = world::model(cfg); for (auto d : {"e.", "a.e.", "p.a.e.", "q.a.e.", "b.e.", "q.b.e.", "q.c.e."}) for (bool sub : {true, false}) if (*d != 'e' || sub) compare(c, cfg, w, {J(d, ps, sub)}, props); });
}
// every record of every configuration with TTL zero, alone and all together
static void sweepTTL(Ctx &c, std::function<vector<vector<Job>>(const Spec &)> jobs, const set<string> &props, int k) {
    for (auto &spec : world::all()) { auto jj = jobs(spec); world::enumerate(spec, k, [&](long, auto mk) { if (!c.mine()) return true; Config base = mk(); auto zero = [](string &l) { size_t a = l.find(' '); if (!isdigit((unsigned char)l[a + 1])) l.insert(a + 1, "0 "); };
        for (size_t f = 0; f <= base.files.size(); f++) for (size_t i = 0; i < (f < base.files.size() ? base.files[f].lines.size() : 1); i++) { Config cfg = base; if (f < base.files.size()) zero(cfg.files[f].lines[i]); else for (auto &x : cfg.files) for (auto &l : x.lines) zero(l);
            auto w = world::model(cfg); for (auto &js : jj) compare(c, cfg, w, js, props); } return true; }); }
}
static vector<Sweep> allWorlds(Ctx &c, std::function<vector<vector<Job>>(const Spec &)> jobs, std::function<vector<vector<Job>>(const Spec &)> more = nullptr, int kq = 0, int kt = 0) {
    vector<Sweep> r; for (auto &s : world::all()) { int k = c.thorough ? (kt ? kt : s.kt) : (kq ? kq : s.kq); r.push_back({s.name, k, jobs(s)}); if (more) r.push_back({s.name, k - 1, more(s)}); }
    return r; }
// configurations whose labels are so long that names grown by redirections soon reach the limit (nothing needs to be cut off)
static void sweepLong(Ctx &c, std::function<vector<Prop>(const vector<string> &)> ps, const set<string> &props, int k) {
    for (auto &spec : world::all()) for (int len : {60, 41, 27}) world::enumerate(spec, k, [&](long, auto mk) { if (!c.mine()) return true;
        auto ren = [&](const string &n) { return renameLabels(n, [&](const string &l) { return l == "e" || l == "f" || l.size() > 1 ? l : l + string(len - 1, 'y'); }); };
        Config cfg = renamed(mk(), ren); vector<string> h; for (auto &x : spec.hosts) h.push_back(ren(x)); auto w = world::model(cfg);
        compare(c, cfg, w, {J(".", ps(h))}, props); compare(c, cfg, w, {J(ren(spec.domains[1]), ps(h)), J(ren(spec.domains[2]), ps(h), false)}, props); return true; });
    // redirections among parents and children, by which a name grows at every step or could grow without end
    const char *REC[] = {"d.e. DNAME e.", "d.e. DNAME g.e.", "d.e. DNAME g.d.e.", "d.e. DNAME d.f.", "g.e. DNAME e.", "g.e. DNAME d.e.", "g.e. DNAME d.g.e.", "e. DNAME f.", "e. DNAME d.f.", "f. DNAME e.", "d.f. DNAME f.", "d.f. DNAME e.", "d.f. DNAME g.e.", "*.e. A 1.1.1.1", "d.e. A 1.1.1.1", "d.g.e. CNAME d.e.", "d.d.d.e. DNAME g.g.g.e.", "g.g.g.e. DNAME d.d.d.e.", "g.g.g.e. DNAME d.e.", "d.d.d.e. DNAME d.d.e.", "d.d.e. DNAME g.g.g.e.", "g.g.g.e. DNAME g.d.d.e.", "d.g.d.e. A 1.1.1.1", "g.d.g.e. TXT t"}; const int n = sizeof REC / sizeof *REC;
    for (int len : {60, 41, 40, 27}) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int d = b; d < (c.thorough ? n : b + 1); d++) { if (!c.mine()) continue;
        auto ren = [&](const string &x) { return renameLabels(x, [&](const string &l) { return l == "e" || l == "f" || l.size() > 1 ? l : l + string(len - 1, 'y'); }); };
        Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}, {"ns1.e.", {"f. SOA", "f. NS ns1.e."}}}; for (int i : std::set<int>{a, b, d}) cfg.files[REC[i][0] == 'f' || REC[i][2] == 'f'].lines.push_back(REC[i]);
        cfg = renamed(cfg, ren); vector<string> h{"e.", "f.", ren("d.e."), ren("g.e.")}; auto w = world::model(cfg);
        compare(c, cfg, w, {J("e.", ps(h))}, props); compare(c, cfg, w, {J(ren("d.e."), ps(h)), J("f.", ps(h))}, props); }
}
static vector<vector<Job>> perDomain(const Spec &s, vector<Prop> ps) { vector<vector<Job>> r; for (auto &d : s.domains) for (bool sub : {true, false}) if (d != "." || !sub) r.push_back({J(d, ps, sub)}); return r; }
const vector<vector<string>> QT = {{"A"}, {"NS"}, {"A", "NS"}, {"CNAME"}, {"A", "CNAME"}, {"A", "TXT"}, {"MX"}, {"DNAME"}, {"A", "DNAME"}};

static void pathCheck(Ctx &c, const string &prop, vector<Prop> ps, vector<Prop> extraTypes = {}) {
    auto jobs = [&](const Spec &) { vector<vector<Job>> r{{J(".", ps)}}; return r; };
    auto more = [&](const Spec &s) { auto r = perDomain(s, ps); for (auto &t : QT) { auto q = ps; for (auto &p : q) p = T(p, t); r.push_back({J(".", q)}); } return r; };
    sweep(c, allWorlds(c, jobs, more), {outName(prop)}); sweepNames(c, ps, {outName(prop)}, c.thorough ? 2 : 1); sweepDeep(c, ps, {outName(prop)}, c.thorough ? 2 : 1);
}
static vector<vector<string>> subsets12(const vector<string> &v) { vector<vector<string>> r; for (size_t i = 0; i < v.size(); i++) { r.push_back({v[i]}); for (size_t k = i + 1; k < v.size(); k++) r.push_back({v[i], v[k]}); } return r; }
static void valueCheck(Ctx &c, const string &prop, std::function<vector<string>(const Spec &)> vals) {
    auto all = [&](const Spec &s) { vector<Prop> ps; for (auto &v : subsets12(vals(s))) ps.push_back(P(prop, v)); return ps; };
    auto jobs = [&](const Spec &s) { vector<vector<Job>> r; for (auto &v : vals(s)) r.push_back({J(".", {P(prop, vector<string>{v})})}); return r; };
    auto more = [&](const Spec &s) { vector<vector<Job>> r; for (auto &p : all(s)) if (p.values.size() > 1) r.push_back({J(".", {p})}); for (auto &x : perDomain(s, {P(prop, vector<string>{vals(s)[0]})})) r.push_back(x);
        for (auto &t : QT) r.push_back({J(".", {T(P(prop, vector<string>{vals(s)[1]}), t)})});
        auto every = vals(s); every.insert(every.end(), s.domains.begin() + 1, s.domains.end()); for (auto n : {"x.f.", "c.b.e.", "d.e.", "s.c.e.", "c.b.a.e."}) every.push_back(n); r.push_back({J(".", {P(prop, every)})}); std::reverse(every.begin(), every.end()); r.push_back({J(".", {P(prop, every)})}); return r; };
    sweep(c, allWorlds(c, jobs, more), {outName(prop)});
    for (auto &spec : world::all()) if (spec.name == "chains" || spec.name == "single") { vector<string> v = vals(spec); sweepNames(c, {P(prop, vector<string>{v[0], v[2]})}, {outName(prop)}, c.thorough ? 2 : 1); }
    sweepDeep(c, [&](const Spec &s, auto ren) { vector<vector<Job>> r; for (auto &v : vals(s)) r.push_back({J(".", {P(prop, vector<string>{ren(v)})})}); r.push_back({J(ren(s.domains[1]), {P(prop, vector<string>{ren(".")})})}); r.push_back({J(ren(s.domains[1]), {P(prop, vector<string>{vals(s)[0]})})}); return r; }, {outName(prop)}, c.thorough ? 2 : 1);
}
static void typeCheck(Ctx &c, const string &prop, vector<Prop> others = {}) {
    auto jobs = [&](const Spec &) { vector<vector<Job>> r; for (auto t : {vector<string>{"A"}, {"A", "CNAME"}}) r.push_back({J(".", {T(P(prop), t)})}); return r; };
    auto more = [&](const Spec &s) { vector<vector<Job>> r; for (auto &t : QT) { r.push_back({J(".", {T(P(prop), t)})}); r.push_back({J(".", {T(P(prop), t), P("Hops", 9)})}); }
        r.push_back({J(".", {T(P(prop), {"A"}), T(P(prop), {"TXT"})})});
        for (auto &x : perDomain(s, {T(P(prop), {"A", "NS"})})) r.push_back(x); return r; };
    sweep(c, allWorlds(c, jobs, more), {outName(prop)}); sweepNames(c, {T(P(prop), {"A", "NS"})}, {outName(prop)}, c.thorough ? 2 : 1); sweepDeep(c, {T(P(prop), {"A", "CNAME"})}, {outName(prop)}, c.thorough ? 2 : 1);
}
static void valuesCheck(Ctx &c) {
    string p = "ResponseValue"; auto V = [&](vector<string> t, vector<string> v) { return T(P(p, v), t); };
    auto jobs = [&](const Spec &s) { vector<vector<Job>> r{{J(".", {V({"A"}, {s.values[0]})})}, {J(".", {V({"A", "CNAME"}, {s.values[0], s.values[1]})})}}; return r; };
    auto more = [&](const Spec &s) { vector<vector<Job>> r; for (auto &v : subsets12(s.values)) for (auto &t : QT) r.push_back({J(".", {V(t, v)})});
        r.push_back({J(".", {V({"A"}, {"B.E."}), V({"CNAME"}, {"B.E.", "A.e."})})}); r.push_back({J(".", {V({"NS"}, {"NS1.E."})})}); r.push_back({J(".", {V({"A"}, {s.values[0]}), V({"TXT"}, {"T"})})});
        for (auto &x : perDomain(s, {V({"A"}, {s.values[0]})})) r.push_back(x); return r; };
    sweep(c, allWorlds(c, jobs, more), {outName(p)});
    sweepDeep(c, [&](const Spec &s, auto ren) { return vector<vector<Job>>{{J(".", {V({"A", "CNAME", "NS"}, {s.values[0], ren("b.e.")})})}, {J(ren(s.domains[1]), {V({"A", "NS"}, {ren(s.hosts[0])}), V({"CNAME", "DNAME"}, {"b.e.", ren("c.e.")})}, false)}}; }, {outName(p)}, c.thorough ? 2 : 1);
}
// allowed numbers of any size
static void largeCounts(Ctx &c, const string &prop) {
    vector<vector<Job>> jobs(2); for (int b : {7, 8, 15, 16, 31, 32, 33, 53, 62}) for (int d : {-1, 0, 1}) { uint64_t v = ((uint64_t)1 << b) + d; jobs[0].push_back(J(".", {P(prop, v)})); jobs[1].push_back(J("e.", {P(prop, v), P(prop, (uint64_t)0)})); }
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 2 : 1, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg); for (auto &js : jobs) compare(c, cfg, w, js, {outName(prop)}); return true; });
}
static Reg c12("C12", [](Ctx &c) { vector<Prop> p; for (int i = 0; i <= 4; i++) p.push_back(P("Hops", i)); pathCheck(c, "Hops", p); largeCounts(c, "Hops"); });
static Reg c13("C13", [](Ctx &c) { vector<Prop> p; for (int i = 0; i <= 3; i++) p.push_back(P("Rewrites", i)); pathCheck(c, "Rewrites", p); sweepRedirects(c, p, {outName("Rewrites")}); sweepLong(c, [&](const vector<string> &) { return p; }, {outName("Rewrites")}, 2); largeCounts(c, "Rewrites"); });
static Reg c14("C14", [](Ctx &c) { valueCheck(c, "QueryRewrite", [](const Spec &s) { return s.hosts; }); });
static Reg c15("C15", [](Ctx &c) { valueCheck(c, "NameserverContact", [](const Spec &s) { return s.hosts; }); });
static Reg c16("C16", [](Ctx &c) { pathCheck(c, "RewriteBlackholing", {P("RewriteBlackholing")}); sweepRedirects(c, {P("RewriteBlackholing")}, {outName("RewriteBlackholing")}); });
static Reg c17("C17", [](Ctx &c) { pathCheck(c, "LameDelegation", {P("LameDelegation")}); sweepCuts(c, {{J(".", {P("LameDelegation")})}}, {outName("LameDelegation")}, 1, 3); });
static Reg c18("C18", [](Ctx &c) { pathCheck(c, "DelegationConsistency", {P("DelegationConsistency")}); sweepCuts(c, {{J(".", {P("DelegationConsistency")})}, {J("a.e.", {T(P("DelegationConsistency"), {"NS"})}, false)}}, {outName("DelegationConsistency")});  sweepTTL(c, [](const Spec &) { return vector<vector<Job>>{{J(".", {P("DelegationConsistency")})}}; }, {outName("DelegationConsistency")}, c.thorough ? 2 : 1); });
static Reg c19("C19", [](Ctx &c) { auto ps = vector<Prop>{P("StructuralDelegationConsistency")};
    sweep(c, allWorlds(c, [&](const Spec &) { return vector<vector<Job>>{{J(".", ps)}}; }, [&](const Spec &s) { return perDomain(s, ps); }), {outName("StructuralDelegationConsistency")}); sweepNames(c, ps, {outName("StructuralDelegationConsistency")}, c.thorough ? 3 : 2); sweepDeep(c, ps, {outName("StructuralDelegationConsistency")}, c.thorough ? 2 : 1); sweepCuts(c, {{J(".", ps)}}, {outName("StructuralDelegationConsistency")});
    sweepTTL(c, [&](const Spec &) { return vector<vector<Job>>{{J(".", ps)}}; }, {outName("StructuralDelegationConsistency")}, c.thorough ? 2 : 1);
    // the zones in other orders
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 3 : 2, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = mk(); size_t n = cfg.files.size(); for (size_t r = 1; r < n; r++) { std::rotate(cfg.files.begin(), cfg.files.begin() + 1, cfg.files.end()); compare(c, cfg, world::model(cfg), {J(".", ps)}, {outName("StructuralDelegationConsistency")}); } std::reverse(cfg.files.begin(), cfg.files.end()); compare(c, cfg, world::model(cfg), {J(".", ps)}, {outName("StructuralDelegationConsistency")}); return true; }); });
static Reg c20("C20", [](Ctx &c) { typeCheck(c, "ResponseConsistency"); sweepCuts(c, {{J("e.", {T(P("ResponseConsistency"), {"A", "NS"})})}}, {outName("ResponseConsistency")}, 1); });
static Reg c21("C21", [](Ctx &c) { typeCheck(c, "ResponseReturned"); });
static Reg c22("C22", [](Ctx &c) { valuesCheck(c); });
static Reg c23("C23", [](Ctx &c) { typeCheck(c, "ZeroTTL"); sweepTTL(c, [&](const Spec &) { vector<vector<Job>> r; for (auto t : {vector<string>{"A"}, {"A", "CNAME"}, {"NS", "DNAME"}}) r.push_back({J(".", {T(P("ZeroTTL"), t)})}); return r; }, {outName("ZeroTTL")}, c.thorough ? 2 : 1); });
static Reg c24("C24", [](Ctx &c) { valueCheck(c, "AllAliases", [](const Spec &s) { auto v = s.values; return vector<string>{s.hosts[0], s.hosts[1], s.hosts[2], "b.e."}; }); sweepRedirects(c, {P("AllAliases", vector<string>{"p.b.e.", "p.c.e."})}, {outName("AllAliases")}); sweepLong(c, [](const vector<string> &h) { return vector<Prop>{P("AllAliases", h)}; }, {outName("AllAliases")}, 2); 
    // many canonical names with many aliases each, some of them aliases of aliases
    for (int m = 0; m <= 9; m++) for (int n = 0; n <= 6; n++) for (int chain = 0; chain < 2; chain++) for (int order = 0; order < 2; order++) { if (!c.mine()) continue; Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}}; vector<string> names, l;
        for (int i = 0; i < m; i++) { string t = "t" + std::to_string(i) + ".e."; names.push_back(t); l.push_back(t + " A 1.1.1.1"); for (int k = 0; k < n; k++) l.push_back("a" + std::to_string(k) + "." + t + " CNAME " + (chain && k ? "a" + std::to_string(k - 1) + "." + t : t)); }
        if (order) std::reverse(l.begin(), l.end()); cfg.files[0].lines.insert(cfg.files[0].lines.end(), l.begin(), l.end()); if (names.empty()) names = {"e."}; if (chain) names.push_back("a0.t0.e."); auto w = world::model(cfg); compare(c, cfg, w, {J(".", {P("AllAliases", names)})}, {outName("AllAliases")}); compare(c, cfg, w, {J("t0.e.", {P("AllAliases", names)}), J("e.", {P("AllAliases", {names[0]})})}, {outName("AllAliases")}); } });
static Reg c26("C26", [](Ctx &c) { pathCheck(c, "InfiniteDNameRec", {P("InfiniteDNameRec")}); sweepRedirects(c, {P("InfiniteDNameRec")}, {outName("InfiniteDNameRec")}); sweepLong(c, [](const vector<string> &) { return vector<Prop>{P("InfiniteDNameRec")}; }, {outName("InfiniteDNameRec")}, 2); });
static Reg c08("C08", [](Ctx &c) { auto ps = vector<Prop>{P("Hops", 0)};
    sweep(c, allWorlds(c, [&](const Spec &s) { auto r = perDomain(s, ps); r.insert(r.begin(), {J(".", ps)}); return r; }), {"Hops"}); sweepNames(c, ps, {"Hops"}, c.thorough ? 3 : 2); sweepDeep(c, ps, {"Hops"}, c.thorough ? 2 : 1); sweepRedirects(c, ps, {"Hops"}); sweepLong(c, [&](const vector<string> &) { return ps; }, {"Hops"}, c.thorough ? 3 : 2); });
// the same with classes of chosen types
static vector<vector<Job>> withTypes(vector<vector<Job>> r, const vector<Prop> &ps) { for (auto &t : QT) { auto q = ps; q.push_back(T(P("ResponseReturned"), t)); r.push_back({J(".", q)}); } return r; }
static Reg c10("C10", [](Ctx &c) { auto ps = vector<Prop>{P("NameserverContact", {"zz."}), P("Hops", 0), P("Rewrites", 0)};
    sweep(c, allWorlds(c, [&](const Spec &) { return vector<vector<Job>>{{J(".", ps)}}; }, [&](const Spec &s) { return withTypes(perDomain(s, ps), ps); }), {"Name Server Contact", "Hops", "Rewrites"}); sweepNames(c, ps, {"Name Server Contact", "Hops", "Rewrites"}, c.thorough ? 2 : 1); sweepDeep(c, ps, {"Name Server Contact", "Hops", "Rewrites"}, c.thorough ? 2 : 1); });
static Reg c11("C11", [](Ctx &c) { auto ps = vector<Prop>{P("Hops", 9)};
    sweep(c, allWorlds(c, [&](const Spec &) { return vector<vector<Job>>{{J(".", ps)}}; }, [&](const Spec &s) { return withTypes(perDomain(s, ps), ps); }), {"Cyclic Zone Dependency"}); sweepNames(c, ps, {"Cyclic Zone Dependency"}, c.thorough ? 2 : 1); sweepDeep(c, ps, {"Cyclic Zone Dependency"}, c.thorough ? 2 : 1); sweepRedirects(c, ps, {"Cyclic Zone Dependency"}); sweepLong(c, [&](const vector<string> &) { return ps; }, {"Cyclic Zone Dependency"}, 2); });
}
// Everything at once on small deviations; not a check of its own, used by tools/mutate.py.
namespace chk { static Reg call("ALL", [](Ctx &c) {
    auto props = everyProp(); props.insert("Cyclic Zone Dependency"); bool big = c.thorough;
    for (int k : {1, 2}) sweep(c, allWorlds(c, [&](const Spec &s) { vector<vector<Job>> r{{J(".", fullSet(s.hosts, {"A", "TXT"}))}, {J(".", fullSet(s.hosts, {"A", "CNAME", "NS"}))}, {J(s.domains[1], fullSet(s.hosts, {"NS"})), J(s.domains[2], fullSet(s.values, {"CNAME"}), false)}, {J(s.domains.back(), fullSet(s.hosts, {"A"}), false)}}; return r; }, nullptr, k, k + 1), props); }); }
