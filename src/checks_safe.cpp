// C42: no input makes the library touch memory that is not its own, overflow, or end other than by returning or throwing.
// Built with AddressSanitizer, UndefinedBehaviorSanitizer and the checks of the standard library; a report ends the process.
#include "check.hpp"
extern "C" const char *__asan_default_options() { return "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:use_sigaltstack=0:detect_container_overflow=1:strict_string_checks=1:check_initialization_order=1"; }
extern "C" const char *__ubsan_default_options() { return "abort_on_error=1:print_stacktrace=1"; }
namespace chk {
static string rep(char c, int n) { return string(n, c); }
static Reg c42("C42", [](Ctx &c) {
    auto fail = [&](json m, json jobs, const map<string, string> &files, const string &why) { json d; d["metadata.json"] = m; d["jobs.json"] = jobs; d["files"] = files; d["why"] = why; c.violate(d); };
    // runs to the end or throws an exception derived from std::exception
    auto run = [&](const vector<std::pair<string, string>> &zones, const vector<string> &top, const vector<json> &jobs, bool lint = false) {
        json m; m["TopNameServers"] = top; m["ZoneFiles"] = json::array(); for (auto &[ns, t] : zones) m["ZoneFiles"].push_back({{"FileName", api::fileFor(t)}, {"NameServer", ns}});
        if (c.only >= 0 && getenv("CHK_SHOW")) { fprintf(stderr, "%s\n%s\n", m.dump(-1, ' ', false, json::error_handler_t::replace).c_str(), json(jobs).dump(-1, ' ', false, json::error_handler_t::replace).c_str()); for (auto &[ns, t] : zones) fprintf(stderr, "--- %s\n%s\n", ns.c_str(), t.c_str()); }
        api::Out o; string lt; if (lint) o = api::runLint(m, api::scratch(), jobs, lt); else o = api::runTool(m, api::scratch(), jobs); c.execs++;
        if (o.problem.size() && o.problem.compare(0, 11, "exception: ") && o.problem != "the program called exit(1)") { map<string, string> f; for (size_t i = 0; i < zones.size(); i++) { string n = "zone" + std::to_string(i) + ".txt"; f[n] = zones[i].second; m["ZoneFiles"][i]["FileName"] = n; } fail(m, jobs, f, o.problem); }
        c.outcome(o.problem + json(o.items).dump(), o.items.size()); if (o.items.size() && c.samples.size() < 2) c.sample({{"zones", zones.size()}, {"jobs", jobs.size()}, {"entries", o.items.size()}}); };
    auto all = [&](const vector<string> &hosts, const vector<string> &types) { auto p = fullSet(hosts, types); p.push_back(T(P("ResponseValue", hosts), {"NS", "CNAME"})); return p; };
    // 1. every configuration of the families, every property, lint
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 3 : 2, [&](long i, auto mk) {
        if (!c.mine()) return true; Config cfg = mk(); auto w = world::model(cfg); vector<Job> js{J(".", all(spec.hosts, {"A", "TXT", "CNAME"})), J(spec.domains[1], all(spec.hosts, {"NS"}), false), J("zz." + spec.domains[1], {P("Hops", 0), T(P("ResponseReturned"), {"MX"})})};
        vector<json> jj; for (auto &j : js) { auto e = ref::expect(w, j, c.cap); if (e.skipped) { c.skipped++; return true; } for (auto &g : e.graphs) { c.states += g.n.size(); for (auto &n : g.n) c.transitions += n.out.size(); } jj.push_back(j.toJson()); }
        vector<std::pair<string, string>> z; for (auto &f : cfg.files) z.push_back({f.ns, world::render(f.lines)}); run(z, cfg.top, jj, i % 2); return true; });
    // 2. every sequence of tokens in a zone file, after a proper beginning and by itself
    const vector<string> tok{" ", "\n", "a", "A", "(", ")", "\"", ";", "\\", ".", "IN", "300", "@", "$TTL", "$ORIGIN", "SOA", "NS", "1.1.1.1", "CNAME", "\t", "TXT", "\r", "*", "e.", "\xff", "4294967296", "$INCLUDE", "CH"};
    const string head = "$ORIGIN e.\ne. 300 IN SOA m. h. 1 1 1 1 1\ne. IN NS ns1.e.\n"; json job = J(".", all({"e."}, {"A", "TXT"})).toJson();
    auto tokens = [&](int n, int len, bool withHead, bool cut) { vector<int> s(len, 0); while (true) { if (c.mine()) { string t = withHead ? head : ""; for (int i : s) t += tok[i]; if (!cut) t += "\n"; c.states += len; c.transitions++; run({{"ns1.e.", t}}, {"ns1.e."}, {job}, s[0] % 2); } int i = len - 1; while (i >= 0 && ++s[i] == n) s[i--] = 0; if (i < 0) break; } };
    int n = (int)tok.size(); for (int len = 1; len <= 3; len++) for (bool h : {true, false}) tokens(n, len, h, true); tokens(10, c.thorough ? 6 : 4, true, false); tokens(c.thorough ? 20 : 12, 4, true, true); if (c.thorough) tokens(n, 4, false, true);
    // a complete record with one token put in, taken out or doubled at every place, pairs at thorough
    { vector<string> rec{"$TTL", " ", "5", "\n", "a.e.", " ", "300", " ", "IN", " ", "MX", " ", "10", " ", "b", "\n", " ", "TXT", " ", "(", "\"x y\"", "\n", "z", ")", " ", ";", "c", "\n", "*", "\t", "A", " ", "1.1.1.1", "\n", "$ORIGIN", " ", "b.e.", "\n", "@", " ", "CNAME", " ", "a\\.b", "\n"};
      auto text = [&](const vector<string> &r) { string t = head; for (auto &x : r) t += x; return t; };
      for (size_t i = 0; i <= rec.size(); i++) { for (auto &x : tok) { auto r = rec; r.insert(r.begin() + i, x); if (c.mine()) run({{"ns1.e.", text(r)}}, {"ns1.e."}, {job}, i % 2); if (i < rec.size()) { auto q = rec; q[i] = x; if (c.mine()) run({{"ns1.e.", text(q)}}, {"ns1.e."}, {job}); for (size_t k = i + 1; k < (c.thorough ? rec.size() : std::min(rec.size(), i + 4)); k++) { auto p = q; p.erase(p.begin() + k); if (c.mine()) run({{"ns1.e.", text(p)}}, {"ns1.e."}, {job}); } } }
        string whole = text(rec); (void)whole; }
      string whole = text(rec); for (size_t i = 0; i <= whole.size(); i++) if (c.mine()) run({{"ns1.e.", whole.substr(0, i)}}, {"ns1.e."}, {job}, true); for (size_t i = 0; i < whole.size(); i++) for (int b : {0, 1, 127, 128, 255, (int)'"', (int)'(', (int)'\\', (int)'\n', (int)'.'}) { string t = whole; t[i] = (char)b; if (c.mine()) run({{"ns1.e.", t}}, {"ns1.e."}, {job}); } }
    // 3. odd names everywhere a name is given
    vector<string> odd{"", ".", "..", "...", "a", ".a", "a..e.", "\\", "a\\", "a\\.", "\\.", "a\\..", "\\\\.", "\\.e.", "*", "*.", "*.*.", "a.*.", rep('x', 63) + ".", rep('x', 64) + ".", rep('x', 300), rep('.', 300), rep('\\', 300), "e", "E.", " ", "a b.", "\xff.", "~{ }.e.", "e.\n"}; { string l; for (int i = 0; i < 127; i++) l += "a."; odd.push_back(l); odd.push_back(l + "a."); odd.push_back(l + l); string m; for (int i = 0; i < 4; i++) m += rep('y', 63) + "."; odd.push_back(m); odd.push_back(m.substr(2)); }
    const vector<string> lines{"e. SOA", "e. NS ns1.e.", "a.e. CNAME b.e.", "b.e. DNAME c.e.", "x.c.e. A 1.1.1.1", "d.e. NS ns.d.e.", "*.e. TXT t"}; string good = world::render(lines);
    auto jobOf = [&](const string &dom, const string &val, bool sub) { auto p = all({val}, {"A", "CNAME"}); for (auto &x : p) if (x.name == "QueryRewrite" || x.name == "NameserverContact") x.values = {val}; return J(dom, p, sub).toJson(); };
    for (auto &x : odd) for (auto &y : odd) for (int place = 0; place < 5; place++) { if (!c.mine()) continue; c.states++; c.transitions++;
        if (place == 0) run({{"ns1.e.", good}}, {"ns1.e."}, {jobOf(x, y, false), jobOf(x, y, true)});
        if (place == 1) run({{x, good}, {y, good}}, {x, "ns1.e.", y}, {jobOf(".", "e.", true)});
        if (place == 2) { string t = good; for (auto ty : {"NS", "CNAME", "DNAME", "MX"}) t += x + " 300 IN " + ty + " " + (ty[0] == 'M' ? "1 " : "") + y + "\n"; run({{"ns1.e.", t}}, {"ns1.e."}, {jobOf(x, "e.", false), jobOf("q." + x, x, false), jobOf(y, x, false)}, true); } // (DNAMEs to a name above: names without end below)
        if (place == 4) { string t = good; for (auto ty : {"NS", "CNAME", "MX", "A"}) t += x + " 300 IN " + ty + " " + (ty[0] == 'M' ? "1 " : "") + y + "\n"; run({{"ns1.e.", t}}, {"ns1.e."}, {jobOf(".", "e.", true), jobOf(y, x, true)}, true); }
        if (place == 3) { string t = "$ORIGIN " + x + "\n@ 300 IN SOA m. h. 1 1 1 1 1\na 300 IN CNAME " + y + "\n" + y + " 300 IN DNAME b\n* 300 IN NS c\n$ORIGIN " + y + "\nz 300 IN A 1.1.1.1\n"; run({{"ns1.e.", t}}, {"ns1.e."}, {jobOf("a." + x, x, false), jobOf("q." + y, x, false), jobOf("z." + y, x, false)}); } }
    // 4. deep and wide names, long records
    for (int deep = 1; deep <= 130; deep++) for (auto ty : {"CNAME", "DNAME", "NS", "A"}) if (c.mine()) { string o; for (int i = 0; i < deep; i++) o += "a."; string t = good; for (int i = 2; i <= (int)o.size(); i += 2) t += o.substr(0, i) + "e. 0 IN " + ty + " " + (*ty == 'A' ? "1.1.1.1" : "a." + o.substr(o.size() - std::min(i, (int)o.size())) + "e.") + "\n"; if (string(ty) == "DNAME" && deep > 12) continue; run({{"ns1.e.", t}}, {"ns1.e."}, {jobOf(deep % 2 ? "." : o.substr(2) + "e.", "e.", deep < 13 && string(ty) != "DNAME")}); }
    for (int len : {1000, 65535, 65536, 70000}) for (int k = 0; k < 4; k++) if (c.mine()) { string t = good + (k == 0 ? "l.e. 0 IN TXT \"" + rep('x', len) + "\"\n" : k == 1 ? rep(' ', len) + "A 1.1.1.1\n" : k == 2 ? "l.e. 0 IN TXT " + rep('(', len) + "\n" : rep('\n', len) + ";" + rep(';', len) + "\n"); run({{"ns1.e.", t}}, {"ns1.e."}, {job}); }
    // 5. the shapes of C44, where only memory errors count
    c.memory = true; registry()["C44"](c); c.memory = false;
});
}
