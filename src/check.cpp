#include "check.hpp"
namespace chk {
map<string, Fn> &registry() { static map<string, Fn> m; return m; }
static json sorted(json a) { if (a.is_array()) std::sort(a.begin(), a.end()); return a; }
json canon(json v) {
    if (v.count("RRsUsed") && v["RRsUsed"].is_object()) { set<string> s; for (auto &[k, x] : v["RRsUsed"].items()) s.insert(x.get<string>()); v["RRsUsed"] = s; }
    if (v.count("Mismatches")) v["Mismatches"] = sorted(v["Mismatches"]);
    if (v.count("Inconsistent Pairs")) { for (auto &p : v["Inconsistent Pairs"]) for (auto it = p.begin(); it != p.end(); ++it) if (it->is_array()) *it = sorted(*it); v["Inconsistent Pairs"] = sorted(v["Inconsistent Pairs"]); }
    if (v.count("Canonical Name and their Aliases")) { auto &l = v["Canonical Name and their Aliases"]; for (auto &p : l) p["Aliases"] = sorted(p["Aliases"]); l = sorted(l); }
    return v;
}
set<json> pick(const set<json> &items, const set<string> &props) { set<json> r; for (auto &x : items) if (props.count(x.value("Property", string()))) r.insert(canon(x)); return r; }
set<json> aliasItems(const map<string, set<string>> &a) { set<json> r; if (a.empty()) return r; json j; j["Property"] = "All Aliases"; j["Canonical Name and their Aliases"] = json::array();
    for (auto &[k, v] : a) j["Canonical Name and their Aliases"].push_back({{"Canonical Name", k}, {"Aliases", v}}); r.insert(canon(j)); return r; }
const string &outName(const string &p) { static map<string, string> m{{"Hops","Hops"},{"Rewrites","Rewrites"},{"QueryRewrite","Query Rewrite"},{"NameserverContact","Name Server Contact"},{"RewriteBlackholing","Rewrite Blackholing"},{"LameDelegation","Lame Delegation"},{"DelegationConsistency","Delegation Consistency"},{"StructuralDelegationConsistency","Structural Delegation Consistency"},{"ResponseConsistency","Response Consistency"},{"ResponseReturned","ResponseReturned"},{"ResponseValue","Response Value"},{"ZeroTTL","Zero TTL"},{"AllAliases","All Aliases"},{"DNAMESubstitutionCheck","DNAME Substitution exceeds length"},{"InfiniteDNameRec","Infinite DName Recursion"}}; return m.at(p); }
json metadataOf(const world::Config &c, const vector<string> &files) { json m; m["TopNameServers"] = c.top; m["ZoneFiles"] = json::array(); for (size_t i = 0; i < files.size(); i++) m["ZoneFiles"].push_back({{"FileName", files[i]}, {"NameServer", c.files[i].ns}}); return m; }
json describe(const world::Config &c, const vector<json> &jobs) { json d; vector<string> names; for (size_t i = 0; i < c.files.size(); i++) names.push_back("zone" + std::to_string(i) + ".txt"); d["metadata.json"] = metadataOf(c, names); for (size_t i = 0; i < names.size(); i++) d["files"][names[i]] = world::render(c.files[i].lines); d["jobs.json"] = jobs; return d; }
api::Out runConfig(const world::Config &c, const vector<json> &jobs, bool lint) { vector<string> f; for (auto &x : c.files) f.push_back(api::fileFor(world::render(x.lines))); return api::runTool(metadataOf(c, f), api::scratch(), jobs, lint); }
json diffJson(const set<json> &want, const set<json> &got) { json d; d["missing"] = json::array(); d["unexpected"] = json::array(); for (auto &x : want) if (!got.count(x)) d["missing"].push_back(x); for (auto &x : got) if (!want.count(x)) d["unexpected"].push_back(x); return d; }
vector<Prop> fullSet(const vector<string> &hosts, const vector<string> &t) {
    vector<Prop> p{P("Hops", 0), P("Rewrites", 0), P("QueryRewrite", vector<string>{"zz."}), P("NameserverContact", vector<string>{"zz."}), P("RewriteBlackholing"), P("LameDelegation"), P("DelegationConsistency"), P("StructuralDelegationConsistency"),
        T(P("ResponseConsistency"), t), T(P("ResponseReturned"), t), T(P("ResponseValue", vector<string>{"zz"}), t), T(P("ZeroTTL"), t), P("DNAMESubstitutionCheck"), P("InfiniteDNameRec")};
    for (auto &h : hosts) p.push_back(P("AllAliases", vector<string>{h})); return p; }
}
