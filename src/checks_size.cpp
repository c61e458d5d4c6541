// C44: quantities. Every shape is explored for every size up to a bound and, per size, for every place of the deviation.
#include "check.hpp"
#include <cmath>
namespace chk {
static string S(long i) { return std::to_string(i); }
static vector<string> V1(const string &s) { return vector<string>{s}; }
static char k_tab(int n) { return n % 2 ? '\t' : ' '; }
static Reg c44("C44", [](Ctx &c) {
    using std::to_string; c.cap = 20000; auto props = everyProp(); props.insert("Cyclic Zone Dependency"); bool t = c.thorough;
    auto go = [&](const Config &cfg, const vector<vector<Job>> &jobs) { auto w = world::model(cfg); for (auto &j : jobs) compare(c, cfg, w, j, props); };
    auto top = [] { Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}}; return cfg; };
    auto withLimits = [](vector<Prop> ps, int n) { for (int d : {n - 1, n, n + 1}) if (d >= 0) { ps.push_back(P("Hops", d)); ps.push_back(P("Rewrites", d)); } return ps; };
    auto sizes = [&](int q, int th, vector<int> more = {}) { vector<int> v; for (int i = 1; i <= (t ? th : q); i++) v.push_back(i); for (int i : more) if (i > v.back()) v.push_back(i); return v; };
    // 1. aliases of n steps, over one or two servers, that end in one of several ways
    for (int n : sizes(50, 112, {64, 100, 130, 255, 256, 257, 300})) for (int servers : {1, 2}) for (int end = 0; end < 7; end++) { if (!c.mine()) continue; Config cfg = top(); cfg.files.push_back({servers == 1 ? "ns1.e." : "ns1.f.", {"f. SOA", "f. NS ns1.f."}}); if (servers == 2) cfg.top.push_back("ns1.f.");
        auto nm = [&](int i) { return "h" + S(i) + (i % 2 ? ".f." : ".e."); }; auto at = [&](int i, const string &l) { cfg.files[i % 2].lines.push_back(l); };
        for (int i = 0; i < n; i++) at(i, nm(i) + " CNAME " + nm(i + 1));
        switch (end) { case 0: at(n, nm(n) + " A 1.1.1.1"); break; case 1: break; case 2: at(n, nm(n) + " CNAME " + nm(n / 2)); break; case 3: at(n, nm(n) + " CNAME x.zz."); break; case 4: at(n, nm(n) + " NS ns.zz."); break; case 5: at(n, nm(n) + " 0 TXT t"); break; case 6: at(n, "*" + nm(n).substr(nm(n).find('.')) + " A 2.2.2.2"); break; }
        auto ps = withLimits(fullSet({nm(n), nm(n / 2), nm(1)}, {"A", "TXT"}), n); go(cfg, {{J(nm(0), ps, false)}, {J(nm(n / 2), ps, false)}}); if (n <= 10) go(cfg, {{J(".", ps)}}); }
    // 2. delegations one below the other; at one of them the child zone is missing, has other servers, or the address is missing or different
    for (int n : sizes(17, 41)) for (int kind = 0; kind < 7; kind++) for (int m = 0; m < n; m++) { if (kind == 0 && m) break; if (!c.mine()) continue; Config cfg = top(); string o = "e.";
        for (int i = 0; i < n; i++) { auto &p = cfg.files.back().lines; string ch = "l" + S(i) + "." + o, ns = "s." + ch; p.push_back(ch + " NS " + ns); bool here = i == m;
            if (!(here && kind == 2)) p.push_back(ns + " A 1.1.1." + S(i)); if (here && kind == 6) p.push_back(ch + " NS s.zz.");
            world::ZoneText z{ns, {ch + " SOA", ch + " NS " + ns}}; if (!(here && kind == 3)) z.lines.push_back(ns + " A 1.1.1." + S(here && kind == 4 ? 99 : i)); if (here && kind == 5) z.lines.push_back(ch + " NS s.zz."); if (here && kind == 1) { cfg.files.push_back({ns, {"zz. SOA"}}); break; } cfg.files.push_back(z); o = ch; }
        cfg.files.back().lines.push_back("a." + o + " CNAME b." + o);
        string full = "e."; for (int i = 0; i < n; i++) full = "l" + S(i) + "." + full; auto ps = withLimits(fullSet({"b." + o}, {"NS", "A"}), n); go(cfg, {{J("a." + full, ps, false)}, {J(full, ps)}}); if (n <= 6) go(cfg, {{J(".", ps)}}); }
    // 3. n servers of a delegated zone; the copy at one of them differs
    for (int n : sizes(15, 32)) for (int kind = 0; kind < 9; kind++) for (int m = 0; m < n; m++) { if (kind == 0 && m) break; if (!c.mine()) continue; Config cfg = top(); vector<world::ZoneText> ch;
        for (int i = 0; i < n; i++) { string ns = "s" + S(i) + ".a.e."; if (!(kind == 1 && i == m)) cfg.files[0].lines.push_back("a.e. NS " + ns); if (!(kind == 2 && i == m)) cfg.files[0].lines.push_back(ns + " A 1.1.1." + S(i));
            world::ZoneText z{ns, {"a.e. SOA"}}; for (int k = 0; k < n; k++) { string x = "s" + S(k) + ".a.e."; if (!(kind == 3 && i == m && k == n / 2)) z.lines.push_back("a.e. NS " + x); z.lines.push_back(x + " A 1.1.1." + S(kind == 4 && i == m && k == n - 1 ? 99 : k)); }
            if (!(kind == 5 && i == m)) z.lines.push_back("b.a.e. A 5.5.5.5"); if (kind == 6 && i == m) z.lines.push_back("b.a.e. A 5.5.5.6"); if (kind == 7 && i == m) z.lines.push_back("*.a.e. CNAME b.a.e."); if (!(kind == 8 && i == m)) ch.push_back(z); }
        cfg.files.insert(cfg.files.end(), ch.begin(), ch.end()); auto ps = withLimits(fullSet({"b.a.e."}, {"A", "NS"}), 2); for (auto &p : ps) if (p.name == "ResponseValue") p.values = {"5.5.5.5"}; go(cfg, {{J("b.a.e.", ps)}, {J("a.e.", ps, false)}}); if (n <= 5) go(cfg, {{J(".", ps)}}); }
    // 4. n top servers with copies of the zone, one of which differs
    for (int n : sizes(17, 48)) for (int kind = 0; kind < 7; kind++) for (int m = 0; m < n; m++) { if (kind == 0 && m) break; if (!c.mine()) continue; Config cfg;
        for (int i = 0; i < n; i++) { string ns = "t" + S(i) + "."; cfg.top.push_back(ns); if (kind == 1 && i == m) { cfg.files.push_back({ns, {"zz. SOA"}}); continue; } world::ZoneText z{ns, {"e. SOA"}}; for (int k = 0; k < n; k++) if (!(kind == 2 && i == m && k == m)) z.lines.push_back("e. NS t" + S(k) + "."); if (!(kind == 3 && i == m)) z.lines.push_back(kind == 4 && i == m ? "a.e. 0 A 1.1.1.1" : "a.e. A 1.1.1.1"); if (kind == 5 && i == m) z.lines.push_back("a.e. TXT t"); if (kind == 6 && i == m) z.lines.push_back("b.e. CNAME a.e."); cfg.files.push_back(z); }
        auto ps = fullSet({"a.e."}, {"A", "TXT"}); for (auto &p : ps) if (p.name == "ResponseValue") p.values = {"1.1.1.1"}; go(cfg, {{J("e.", ps)}}); }
    // 5. n records of one type at a name, one of which differs between two servers, has TTL zero or is not expected
    for (int n : sizes(42, 112, {127, 128, 129, 255, 256, 257})) for (int kind = 0; kind < 5; kind++) for (int m = 0; m < n; m++) { if (n > 70 && m != 0 && m != n / 2 && m != n - 1 && m != 127) continue; if (kind == 0 && m) break; if (!c.mine()) continue; Config cfg = top(); cfg.files.push_back(cfg.files[0]); cfg.files[1].ns = "ns2.e."; cfg.top.push_back("ns2.e."); vector<string> vals;
        for (int f : {0, 1}) for (int i = 0; i < n; i++) { if (kind == 1 && f && i == m) continue; string d = "1.1." + S(i / 100) + "." + S(i % 100 + (kind == 2 && f && i == m ? 100 : 0)); cfg.files[f].lines.push_back(string("a.e. ") + (kind == 3 && f && i == m ? "0 " : "") + "A " + d); if (!f && !(kind == 4 && i == m)) vals.push_back(d); }
        vector<Prop> ps = fullSet({}, {"A", "TXT"}); ps.push_back(T(P("ResponseValue", vals), {"A"})); if (vals.empty()) ps.pop_back(); go(cfg, {{J("a.e.", ps, false)}}); }
    // 6. names of n labels: a record, a wildcard, a cut, an alias or a redirection at every depth of one name
    for (int n : sizes(25, 58, {60, 124})) for (int kind = 0; kind < 7; kind++) for (int m = 1; m <= n; m++) { if (n > 30 && m != 1 && m != n / 2 && m != n - 1 && m != n) continue; if (!c.mine()) continue; Config cfg = top(); string x = "e.", mid; for (int i = 1; i <= n; i++) { x = "b." + x; if (i == m) mid = x; } auto &l = cfg.files[0].lines; const char *k[] = {"A 1.1.1.2", "CNAME e.", "DNAME f.", "NS ns.f.", "DNAME c.e."};
        l.push_back(x + " A 1.1.1.1"); if (kind < 5) { if (!(kind == 1 && m == n)) l.push_back(mid + " " + k[kind]); } else l.push_back("*." + mid.substr(2) + (kind == 5 ? " A 1.1.1.3" : " CNAME " + x)); if (kind == 4) l.push_back("c.e. TXT t");
        auto ps = fullSet({x}, {"A", "TXT"}); go(cfg, {{J(x, ps)}, {J(mid, ps)}}); if (n <= 14) go(cfg, {{J(".", ps)}}); }
    // 7. redirections one after the other
    for (int n : sizes(20, 48)) for (int end = 0; end < 5; end++) for (int sub : {0, 1}) { if (!c.mine()) continue; Config cfg = top(); auto &l = cfg.files[0].lines; auto nm = [](int i) { return "d" + S(i) + ".e."; };
        for (int i = 0; i < n; i++) l.push_back(nm(i) + " DNAME " + nm(i + 1)); switch (end) { case 0: l.push_back("x." + nm(n) + " A 1.1.1.1"); break; case 1: l.push_back("*." + nm(n) + " CNAME x." + nm(0)); break; case 2: l.push_back("x." + nm(n) + " CNAME y." + nm(n / 2)); break; case 3: l.push_back(nm(n) + " DNAME zz."); break; case 4: l.push_back(nm(n) + " NS s.zz."); break; }
        auto ps = withLimits(fullSet({"x." + nm(n), "x." + nm(1)}, {"A"}), n); go(cfg, {{J((sub ? "" : "x.") + nm(0), ps, sub)}, {J(nm(n / 2), ps)}}); if (n <= 8) go(cfg, {{J("e.", ps)}}); }
    // 8. zones one inside the other, all at one server, of which each has the name or only one has
    for (int n : sizes(17, 48)) for (int kind = 0; kind < 3; kind++) for (int m = 0; m < n; m++) { if (!kind && m) break; if (!c.mine()) continue; Config cfg = top(); string o = "e."; for (int i = 0; i < n; i++) { o = "b." + o; if (kind == 2 && i == m) continue; cfg.files.push_back({"ns1.e.", {o + " SOA", o + " NS ns1.e."}}); } string x = "x." + o;
        for (size_t f = 0; f < cfg.files.size(); f++) if (kind != 1 || (int)f == m) cfg.files[f].lines.push_back(x + " A 1.1.1." + S(f)); auto ps = fullSet({x}, {"A", "NS"}); go(cfg, {{J(x, ps)}, {J("b.e.", ps)}}); std::reverse(cfg.files.begin(), cfg.files.end()); go(cfg, {{J(x, ps)}}); }
    // 9. a zone whose server's name lies in the next zone, whose server's name lies in the next ...
    for (int n : sizes(14, 22)) for (int end = 0; end < 5; end++) { if (!c.mine()) continue; Config cfg; cfg.top = {"t."}; cfg.files = {{"t.", {". SOA", ". NS t."}}}; auto o = [](int i) { return "z" + S(i) + "."; };
        for (int i = 0; i < n; i++) { string ns = "s." + (i + 1 < n ? o(i + 1) : end == 4 ? o(n / 2) : end == 3 ? o(i) : string("y.")); cfg.files[0].lines.push_back(o(i) + " NS " + ns); if (end == 3 && i == n - 1) cfg.files[0].lines.push_back(ns + " A 9.9.9.9"); world::ZoneText z{ns, {o(i) + " SOA", o(i) + " NS " + ns, "a." + o(i) + " A 1.1.1." + S(i)}}; if (i && end != 1) z.lines.push_back("s." + o(i) + " A 2.2.2." + S(i)); if (i && end == 1) z.lines.push_back("s." + o(i) + " CNAME a." + o(i)); cfg.files.push_back(z); }
        if (end < 2) cfg.files[0].lines.push_back("s.y. A 3.3.3.3"); auto ps = withLimits(fullSet({"a.z0."}, {"A"}), n); go(cfg, {{J("a.z0.", ps, false)}, {J(o(n / 2), ps)}}); if (n <= 4) go(cfg, {{J(".", ps)}}); }
    // 9a. n servers whose addresses are looked up elsewhere, at one server or one each; one of them cannot be resolved, or differs
    for (int n : sizes(18, 40)) for (int kind = 0; kind < 5; kind++) for (int m = 0; m < n; m++) { if (!kind && m) break; if (!c.mine()) continue; Config cfg = top(); cfg.files.push_back({"ns1.e.", {"f. SOA", "f. NS ns1.e."}}); for (int i = 0; i < n; i++) { string ns = "s" + S(i) + ".f."; cfg.files[0].lines.push_back("a.e. NS " + ns); bool here = i == m; if (!(here && kind == 1)) cfg.files[1].lines.push_back(ns + (here && kind == 2 ? " CNAME s0.f." : here && kind == 3 ? " CNAME x.a.e." : " A 1.1.1." + S(i))); world::ZoneText z{ns, {"a.e. SOA"}}; if (!(here && kind == 4)) z.lines.push_back("b.a.e. A 5.5.5.5"); cfg.files.push_back(z); }
        auto ps = withLimits(fullSet({"b.a.e."}, {"A"}), 2); go(cfg, {{J("b.a.e.", ps, false)}}); if (n <= 6) go(cfg, {{J(".", ps)}}); }
    // 10. n addresses of a name server, in the parent and in the child; one differs
    for (int n : sizes(21, 54)) for (int kind = 0; kind < 5; kind++) for (int m = 0; m < n; m++) { if (!kind && m) break; if (!c.mine()) continue; Config cfg = top(); cfg.files.push_back({"s.a.e.", {"a.e. SOA", "a.e. NS s.a.e.", "b.a.e. A 5.5.5.5"}}); cfg.files[0].lines.push_back("a.e. NS s.a.e.");
        for (int f : {0, 1}) for (int i = 0; i < n; i++) { if ((kind == 1 && f && i == m) || (kind == 2 && !f && i == m)) continue; cfg.files[f].lines.push_back(string("s.a.e. ") + (kind == 3 && f && i == m ? "AAAA 1::" + S(i) : i % 2 ? "AAAA 1::" + S(i) : "A 1.1.1." + S(kind == 4 && f && i == m ? 99 : i))); }
        auto ps = fullSet({}, {"A", "NS", "AAAA"}); go(cfg, {{J("a.e.", ps)}}); }
    // 11. data of n bytes; two records that differ in their last byte
    for (int n : sizes(100, 480, {127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 70000})) for (int kind = 0; kind < 3; kind++) { if (!c.mine()) continue; Config cfg = top(); cfg.files.push_back(cfg.files[0]); cfg.files[1].ns = "ns2.e."; cfg.top.push_back("ns2.e."); string d(n - 1, 'x'), q = kind ? "" : "\""; cfg.files[0].lines.push_back("a.e. 0 TXT " + q + d + "y" + q); cfg.files[1].lines.push_back("a.e. 0 TXT " + q + d + (kind == 2 ? "y" : "z") + q); if (kind == 1) cfg.files[0].lines.push_back("a.e. TXT " + q + d + "z" + q);
        auto ps = fullSet({}, {"TXT"}); ps.push_back(T(P("ResponseValue", V1(q + d + "y" + q)), {"TXT"})); go(cfg, {{J("a.e.", ps, false)}}); }
    // 12. n jobs and n values of a property
    for (int n : sizes(42, 112, {100, 128, 129, 256, 257, 300})) for (int kind = 0; kind < 5; kind++) { if (!c.mine()) continue; Config cfg = top(); for (int i = 0; i < n; i++) cfg.files[0].lines.push_back("h" + S(i) + ".e. " + (i % 3 == 0 ? "CNAME x.f." : i % 3 == 1 ? "A 1.1.1.1" : "CNAME h" + S(i - 1) + ".e.")); vector<Job> js; vector<string> v, hosts; for (int i = 0; i < n; i++) { v.push_back("g" + S(i) + ".zz."); hosts.push_back("h" + S(i) + ".e."); }
        for (int i = 0; i < n; i++) { if (kind == 0) js.push_back(J("h" + S(i) + ".e.", fullSet({}, {"A"}), i % 2)); if (kind == 1) js.push_back(J("h" + S(n / 2) + ".e.", {P("Hops", i), P("Rewrites", 0)}, false)); }
        auto last = v; last.push_back("f."); auto first = v; first.insert(first.begin(), "f."); if (kind == 2) js = {J("e.", {P("QueryRewrite", v), P("QueryRewrite", last), P("QueryRewrite", first), P("NameserverContact", v), P("AllAliases", hosts), P("Hops", 1)})}; if (kind == 3) { vector<Prop> ps; for (auto &x : hosts) { ps.push_back(P("AllAliases", V1(x))); ps.push_back(P("QueryRewrite", V1(x))); } js = {J("e.", ps)}; if (n > 40) continue; }
        if (kind == 4) { auto vals = v; vals.push_back("1.1.1.1"); vector<Prop> ps{T(P("ResponseValue", vals), {"A"}), T(P("ResponseValue", V1("1.1.1.1")), {"A"})}; js = {J("e.", ps)}; if (n > 70) continue; }
        go(cfg, {js}); }
    // 13. n names with a violation each
    for (int n : sizes(87, 224, {255, 256, 257, 511, 513, 700, 1023, 1025, 1100})) for (int kind = 0; kind < 3; kind++) { if (!c.mine()) continue; Config cfg = top(); string deep = kind == 2 ? "d." : ""; for (int i = 0; i < n; i++) cfg.files[0].lines.push_back("h" + S(i) + "." + deep + "e. " + (kind == 1 ? "CNAME x" + S(i) + ".e." : "0 A 1.1.1.1")); go(cfg, {{J("e.", fullSet({}, {"A"}))}}); if (n < 71) go(cfg, {{J("h" + S(n / 2) + "." + deep + "e.", fullSet({}, {"A"})), J(deep + "e.", {P("Hops", 0)}), J("zz.", {P("Hops", 0)})}}); }
    // 14. n children of every name, k levels deep
    for (int n : sizes(7, 14)) for (int k = 1; k <= (t ? 4 : 3); k++) { if (pow(n, k) > 1500) continue; if (!c.mine()) continue; Config cfg = top(); std::function<void(string, int)> f = [&](string o, int d) { if (d == k) { cfg.files[0].lines.push_back(o + " A 1.1.1.1"); return; } for (int i = 0; i < n; i++) f(string(1, char('a' + i)) + "." + o, d + 1); }; f("e.", 0); cfg.files[0].lines.push_back("a.e. DNAME b.e."); go(cfg, {{J("e.", fullSet({"b.b.e."}, {"A"}))}, {J("a.b.e.", fullSet({"b.b.e."}, {"A"}))}}); }
    // 15. padding: a file of n blank or comment lines, blanks, parentheses or quoted bytes between its records
    {   vector<int> ns; for (int i = 0; i <= (t ? 600 : 140); i++) ns.push_back(i); for (int b : {255, 511, 1023, 2047, 4095, 8191, 16383, 32767, 65535}) for (int d = -60; d <= 3; d++) if (t || (d > -3 || d % 10 == 0)) if (b + d > ns.back()) ns.push_back(b + d); if (t) ns.push_back(131072), ns.push_back(1 << 20);
        vector<string> ls{"e. SOA", "e. NS ns1.e.", "a.e. 0 A 1.1.1.1", "b.e. 0 TXT \"t u\"", "c.e. CNAME b.e."}; Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", ls}}; Job job = J("e.", fullSet({"b.e."}, {"A", "TXT"})); auto w = world::model(cfg); auto ex = ref::expect(w, job, c.cap); set<json> want; for (auto &x : ex.out) want.insert(canon(x)); for (auto &x : aliasItems(ex.aliases)) want.insert(x);
        for (int n : ns) for (int kind = 0; kind < 7; kind++) for (size_t at : {size_t(0), size_t(2), ls.size()}) { if (!c.mine()) continue; string text, pad;
            for (size_t i = 0; i <= ls.size(); i++) { string r = i < ls.size() ? world::render({ls[i]}) : ""; if (i == at) switch (kind) {
                case 0: pad = string(n, '\n'); break; case 1: pad = ";" + string(n, 'c') + "\n"; break; case 2: for (int k = 0; k < std::min(n, 20000); k++) pad += ";\r\n"; break; case 3: pad = string(n, ' ') + "\n"; break; case 4: if (r.size() && !(i && r[0] == ' ')) { size_t sp = r.find(' '); pad = r.substr(0, sp) + string(n + 1, k_tab(n)) + r.substr(sp + 1); r = ""; } break;
                case 5: if (r.size()) { size_t sp = r.find(' '), e = r.size() - 1; pad = r.substr(0, sp) + " ( " + string(std::min(n, 20000), '\n') + r.substr(sp + 1, e - sp - 1) + " )\n"; r = ""; } break; case 6: pad = "z.e. 5 IN MX 1 " + string(std::min(n, 60), 'm') + ".\n;" + string(n, '"') + "\n"; if (!at || n > 60) pad = ";" + string(n, '(') + "\n"; break; }
                if (i == at) text += pad; text += r; }
            auto o = api::runTool(metadataOf(cfg, {api::fileFor(text)}), api::scratch(), {job.toJson()}); c.execs++; c.states += ls.size(); c.transitions += ls.size(); auto cls = set<json>(); auto got = pick(o.items, props); if (kind == 6 && at && n <= 60) { for (auto it = got.begin(); it != got.end();) it = it->dump().find("\"z.e.\"") != string::npos || it->dump().find("~{ }") != string::npos ? got.erase(it) : std::next(it); auto w2 = want; for (auto it = w2.begin(); it != w2.end();) it = it->dump().find("~{ }") != string::npos ? w2.erase(it) : std::next(it); cls = w2; } else cls = want;
            if (o.problem.size() || (!c.memory && got != cls)) { json d; d["why"] = o.problem.size() ? json(o.problem) : diffJson(cls, got); d["files"]["zone0.txt"] = text; d["metadata.json"] = metadataOf(cfg, {"zone0.txt"}); d["jobs.json"] = json::array({job.toJson()}); d["padding"] = {{"kind", kind}, {"n", n}, {"at", at}}; c.violate(d); } c.outcome(json(got).dump() + S(kind), got.size()); } }
});
}
