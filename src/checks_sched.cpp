// C27/C28: all schedules of whole jobs up to a number of deviations from deterministic base schedules.
#include "check.hpp"
#include "driver.h"
#include "rt.hpp"
#include "sched_rt.hpp"
#include <fstream>
#include <regex>
#include <sstream>
#include <sys/time.h>
#include <unistd.h>
#include "spdlog/sinks/ostream_sink.h"
namespace rt { std::string run(const std::function<void()> &b) { return srt::run(b, 0, {}).problem; } }
extern "C" int chk_consumers = 2;
namespace chk {
struct Scenario { string name; Config cfg; vector<Job> jobs; int bq, bt; };
static vector<Scenario> scenarios() {
    vector<Scenario> v; auto Z = [](string ns, vector<string> l) { return world::ZoneText{ns, l}; };
    Config one; one.top = {"ns1.e."}; one.files = {Z("ns1.e.", {"e. SOA", "e. NS ns1.e.", "a.e. 0 A 1.1.1.1"})};
    v.push_back({"one class", one, {J("a.e.", {P("Hops", 0), T(P("ZeroTTL"), {"A"})}, false)}, 2, 3});
    v.push_back({"no class", one, {J(string(64, 'x') + ".e.", {P("Hops", 0)})}, 2, 4});
    Config al; al.top = {"ns1.e."}; al.files = {Z("ns1.e.", {"e. SOA", "e. NS ns1.e.", "a.e. CNAME b.e.", "b.e. CNAME c.e."})};
    v.push_back({"aliases of two names", al, {J("e.", {P("AllAliases", vector<string>{"b.e.", "c.e."})})}, 2, 2});
    Config two; two.top = {"ns1.e."}; two.files = {Z("ns1.e.", {"e. SOA", "e. NS ns1.e.", "a.e. DNAME b.e."})};
    v.push_back({"several starting nodes", two, {J("b.e.", {P("Hops", 0)})}, 2, 2});
    Config st; st.top = {"ns1.e."}; st.files = {Z("ns1.e.", {"e. SOA", "e. NS ns1.e.", "a.e. NS ns2.e.", "ns2.e. A 1.1.1.1"}), Z("ns2.e.", {"a.e. SOA", "a.e. NS ns3.e."})};
    v.push_back({"structural check beside classes", st, {J("a.e.", {P("StructuralDelegationConsistency"), P("DelegationConsistency"), P("LameDelegation")})}, 1, 2});
    v.push_back({"two jobs", one, {J("a.e.", {P("Hops", 0)}, false), J("zz.", {P("NameserverContact", vector<string>{"zz."})}, false)}, 1, 2});
    Config loop; loop.top = {"ns1.e."}; loop.files = {Z("ns1.e.", {"e. SOA", "e. NS ns1.e.", "a.e. CNAME b.e.", "b.e. CNAME a.e."})};
    v.push_back({"loops", loop, {J("a.e.", {P("Rewrites", 0), P("InfiniteDNameRec")})}, 1, 2});
    Config cp; cp.top = {"ns1.e.", "ns2.e."}; cp.files = {Z("ns1.e.", {"e. SOA", "e. NS ns1.e.", "a.e. A 1.1.1.1"}), Z("ns2.e.", {"e. SOA", "e. NS ns1.e.", "a.e. 0 A 1.1.1.2"})};
    v.push_back({"every property", cp, {J("e.", fullSet({"e."}, {"A"}))}, 1, 1});
    return v; }
struct Outcome { string problem, race, text, stats; vector<long> ecs; srt::Result r; };
static Outcome exec(const Scenario &s, const json &meta, int base, const vector<srt::Dev> &devs) {
    Outcome o; string f = api::scratch() + "/sched" + std::to_string(getpid()); std::ostringstream log;
    Driver *d = new Driver; d->SetContext(meta, api::scratch(), false); o.ecs.reserve(8);
    struct itimerval tv = {{0, 0}, {20, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    o.r = srt::run([&] { for (auto &j : s.jobs) { d->SetJob(j.toJson()); d->GenerateECsAndCheckProperties(); o.ecs.push_back(d->GetECCountForCurrentJob()); } }, base, devs);
    tv = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    o.problem = o.r.problem; o.race = o.r.race; if (o.problem.size()) return o;  // abandoned threads still use the driver: leave it
    unlink(f.c_str()); d->WriteViolationsToFile(f); { std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); o.text = ss.str(); }
    try { auto lg = std::make_shared<spdlog::logger>("stats", std::make_shared<spdlog::sinks::ostream_sink_st>(log)); lg->set_pattern("%v"); Logger->bind(lg); d->WriteStatsForAJob(); Logger->bind(std::make_shared<spdlog::logger>("none")); } catch (...) {}
    // largest, smallest and mean size (the reported median depends on the order by construction)
    string t = log.str(); size_t p = 0; while ((p = t.find("Max=", p)) != string::npos) { size_t e = t.find("Mean=", p); if (e == string::npos) break; o.stats += t.substr(p, e - p); char b[40]; snprintf(b, sizeof b, "%.6g;", atof(t.c_str() + e + 5)); o.stats += b; p = e; }
    delete d; return o; }
static void explore(Ctx &c, bool races) {
    srt::detect = races; long points = 0, deepest = 0; json per = json::array(); int longest = 0; map<string, int> threads2;
    Logger->bind(std::make_shared<spdlog::logger>("none"));
    for (int workers : {2, 3, 8}) for (auto &s : scenarios()) {
        chk_consumers = workers;
        vector<string> files; for (auto &x : s.cfg.files) files.push_back(api::fileFor(world::render(x.lines))); json meta = metadataOf(s.cfg, files);
        int bound = c.thorough ? s.bt : s.bq; if (workers == 3) bound = bound > 1 ? bound - 1 : c.thorough; if (workers == 8) bound = c.thorough ? 1 + (bound > 3) : s.name == "one class";
        // what must come out, from the reference
        auto w = world::model(s.cfg); size_t classes = 0; set<json> want; for (auto &j : s.jobs) { auto e = ref::expect(w, j); classes = e.classes.size(); for (auto &x : e.out) want.insert(canon(x)); for (auto &x : aliasItems(e.aliases)) want.insert(x); for (auto &g : e.graphs) c.states += g.n.size(); }
        string text, stats; long nexec = 0, maxpts = 0;
        for (int base = 0; base < 12; base++) {
            auto judge = [&](const Outcome &o, const vector<srt::Dev> &devs) {
                c.execs++; nexec++; c.transitions += o.r.steps; maxpts = std::max<long>(maxpts, o.r.alts.size()); string why;
                if (o.problem.size()) why = o.problem; else if (races) why = o.race;
                if (why.empty() && !races) { if (text.empty()) { text = o.text; stats = o.stats; set<json> got; try { for (auto &x : json::parse(text)) if (x["Property"] != "Cyclic Zone Dependency") got.insert(canon(x)); } catch (std::exception &e) { why = "output is not JSON"; } if (why.empty() && got != want) why = "report differs from the reference: " + diffJson(want, got).dump(-1, ' ', false, json::error_handler_t::replace); }
                    if (o.text != text) why = "output file differs between schedules"; else if ((long)classes != o.ecs.back()) why = "class count " + std::to_string(o.ecs.back()) + ", number of classes " + std::to_string(classes); else if (o.stats != stats) why = "statistics differ between schedules: " + stats + " / " + o.stats; }
                c.outcome(o.text + why + std::to_string(o.r.alts.size()), o.text.size() > 4);
                if (why.size()) { json d; d["why"] = why; d["scenario"] = s.name; d["base_order"] = base; d["deviations"] = json::array(); for (auto &x : devs) d["deviations"].push_back({x.point, x.choice}); d["schedule"] = srt::traceText(); d["output"] = o.text; d["expected_output"] = text; auto ds = describe(s.cfg, {}); d["metadata.json"] = ds["metadata.json"]; d["files"] = ds["files"]; vector<json> js; for (auto &j : s.jobs) js.push_back(j.toJson()); d["jobs.json"] = js; c.violate(d); } };
            // learn which code locations touch shared atomics (monotone; stable after a few runs)
            Outcome root; for (int i = 0; i < 4; i++) { root = exec(s, meta, base, {}); if (c.mine() || true) judge(root, {}); if (i && !root.r.grew) break; }
            if (workers == 2) threads2[s.name] = root.r.threads; else if (root.r.threads == threads2[s.name]) break; // (the number of workers is a constant that cannot be set)
            if (c.samples.size() < 2) c.sample({{"scenario", s.name}, {"base_order", base}, {"decisions", root.r.alts.size()}, {"threads", root.r.threads}, {"deviation_bound", bound}});
            std::function<void(const vector<unsigned char> &, vector<srt::Dev> &)> go = [&](const vector<unsigned char> &alts, vector<srt::Dev> &devs) {
                if ((int)devs.size() >= (base < 3 || base > 7 ? bound : std::min(bound, std::max(1, bound - 1)))) return; int from = devs.empty() ? 0 : devs.back().point + 1;
                for (int p = from; p < (int)alts.size(); p++) for (int a = 1; a <= alts[p]; a++) {
                    if (devs.empty()) { if (!c.mine()) continue; } else if (std::chrono::duration<double>(std::chrono::steady_clock::now() - c.t0).count() > c.limit) { c.complete = false; throw Ctx::Done{}; }
                    devs.push_back({p, a}); auto o = exec(s, meta, base, devs); judge(o, devs); if (o.problem.empty()) go(o.r.alts, devs); devs.pop_back(); } };
            vector<srt::Dev> d; go(root.r.alts, d); longest = std::max(longest, root.r.threads); points += maxpts;
        }
        per.push_back({{"scenario", s.name}, {"workers", workers}, {"deviation_bound", bound}, {"base_orders", "7 (two of them with delayed visibility of queue items), plus 5 with one thread starved and one deviation less"}, {"longest_execution_in_decisions", maxpts}});
    }
    c.extra["scenarios"] = per; c.extra["threads"] = json(std::to_string(longest)); }
static Reg c27("C27", [](Ctx &c) { explore(c, false); });
static Reg c28("C28", [](Ctx &c) { explore(c, true); });
}
