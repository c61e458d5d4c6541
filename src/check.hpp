// Frame shared by all checks: enumerate cases, split them over worker processes, collect counts and the first violation.
#pragma once
#include "api.hpp"
#include "ref.hpp"
#include "world.hpp"
#include <chrono>
#include <unordered_set>
namespace chk {
using api::json; using std::string; using std::vector; using std::set; using std::map;
struct Violation { long index; json detail; };
struct Ctx {
    string id; size_t cap = 300; bool thorough = false; int worker = 0, workers = 1; long only = -1; // replay one index
    bool memory = false;                            // only whether the run ends well counts (C42)
    long idx = 0;                                   // running case number
    long cases = 0, execs = 0, states = 0, transitions = 0, skipped = 0, nontrivial = 0;
    std::unordered_set<size_t> outcomes; vector<json> samples; bool complete = true; json extra = json::object();
    volatile long *at = nullptr;
    volatile long *best = nullptr;                 // smallest violating index so far (shared)
    vector<Violation> found; std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now(); double limit = 1e9;
    // takes the next case number; true if this worker must run it. Throws Done when nothing smaller can be found any more.
    struct Done {};
    bool mine() { long i = idx++; if (i > *best) throw Done{}; if (only >= 0) { if (at && i == only) *at = i; return i == only; } if (i % workers != worker) return false;
        if ((i / workers) % 64 == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { complete = false; throw Done{}; }
        cases++; if (at) *at = i; return true; }
    long cur() const { return idx - 1; }
    void violate(json d) { found.push_back({cur(), std::move(d)}); long b = *best; while (cur() < b && !__sync_bool_compare_and_swap(best, b, cur())) b = *best; throw Done{}; }
    void outcome(const string &s, bool non) { outcomes.insert(std::hash<string>()(s)); if (non) nontrivial++; }
    void sample(const json &j, size_t max = 2) { if (samples.size() < max) samples.push_back(j); }
};
using Fn = std::function<void(Ctx &)>;
map<string, Fn> &registry();
struct Reg { Reg(const string &id, Fn f) { registry()[id] = f; } };

// ---- comparing a report with the reference ----
json canon(json v);
set<json> pick(const set<json> &items, const set<string> &props);       // canonical entries of the given properties
set<json> aliasItems(const map<string, set<string>> &a);
const string &outName(const string &prop);                               // report name of a property
json metadataOf(const world::Config &c, const vector<string> &files);
struct Case { world::Config c; vector<ref::Job> jobs; };
json describe(const world::Config &c, const vector<json> &jobs);
api::Out runConfig(const world::Config &c, const vector<json> &jobs, bool lint = false);
json diffJson(const set<json> &want, const set<json> &got);
using ref::Job; using ref::Prop; using world::Config; using world::Spec;
inline Prop P(const string &n, uint64_t v) { Prop p; p.name = n; p.num = v; return p; }
inline Prop P(const string &n, vector<string> vals = {}) { Prop p; p.name = n; p.values = vals; return p; }
inline Prop T(Prop p, vector<string> t) { p.hasTypes = true; p.types = t; return p; }
inline Job J(const string &d, vector<Prop> ps, bool sub = true) { Job j; j.domain = d; j.sub = sub; j.props = ps; return j; }
// run one job list on one configuration and compare the entries of the properties (report names) with the reference
void compare(Ctx &c, const Config &cfg, const ref::World &w, const vector<Job> &jobs, const set<string> &props);
inline bool textLenOk(const string &n) { return ref::legal(ref::toName(n)); }
inline set<string> everyProp() { set<string> s; for (auto n : {"Hops","Rewrites","QueryRewrite","NameserverContact","RewriteBlackholing","LameDelegation","DelegationConsistency","StructuralDelegationConsistency","ResponseConsistency","ResponseReturned","ResponseValue","ZeroTTL","AllAliases","DNAMESubstitutionCheck","InfiniteDNameRec"}) s.insert(outName(n)); return s; }
// one property of every kind
vector<Prop> fullSet(const vector<string> &hosts, const vector<string> &types);
// a name, or every name of a configuration, with its labels renamed ("*" stays)
template <class F> string renameLabels(const string &name, F f) { if (name == ".") return name; string r, cur; for (char ch : name) { if (ch != '.') { cur += ch; continue; } r += (cur == "*" ? cur : f(cur)) + "."; cur.clear(); } return r + cur; }
template <class F> Config renamed(Config cfg, F ren) {
    auto tok = [&](const string &line) { string r; size_t p = 0; while (p <= line.size()) { size_t e = line.find(' ', p); if (e == string::npos) e = line.size(); string w = line.substr(p, e - p); r += (r.size() ? " " : "") + (w.size() && w.back() == '.' ? ren(w) : w); p = e + 1; } return r; };
    for (auto &t : cfg.top) t = ren(t); for (auto &f : cfg.files) { f.ns = ren(f.ns); for (auto &l : f.lines) l = tok(l); } return cfg; }
// every way of redirecting three names to each other in two copies of a zone
template <class F> void redirections(F f) {
    const vector<vector<const char *>> opt = {{"", "a.e. DNAME b.e.", "a.e. DNAME c.e.", "a.e. CNAME p.b.e."}, {"", "b.e. DNAME c.e.", "p.b.e. A 1.1.1.1", "*.b.e. CNAME q.a.e."}, {"", "c.e. DNAME a.e.", "p.c.e. A 1.1.1.2", "q.c.e. CNAME p.a.e.", "q.c.e. TXT t"}};
    vector<vector<const char *>> copies; for (auto x : opt[0]) for (auto y : opt[1]) for (auto z : opt[2]) copies.push_back({x, y, z});
    for (auto &u : copies) for (auto &v : copies) f([&] { Config cfg; cfg.top = {"n1.e.", "n2.e."}; for (auto x : {&u, &v}) { vector<string> l{"e. SOA", "e. NS n1.e.", "e. NS n2.e."}; for (auto r : *x) if (*r) l.push_back(r); cfg.files.push_back({x == &u ? "n1.e." : "n2.e.", l}); } return cfg; });
}
}
