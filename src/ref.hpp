// Reference model: a deliberately boring, independent implementation of what groot is specified to report.
// Names are plain vectors of strings (top label first), zones are lists of records, resolution works on concrete
// names: the class "any other name below X" is represented by the concrete name FRESH.X.
#pragma once
#include <bitset>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include <algorithm>
#include <functional>
#include <nlohmann/json.hpp>
namespace ref {
using std::string; using std::vector; using std::map; using std::set; using std::pair;
using json = nlohmann::json;
using Name = vector<string>;
enum Ty { A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF, NTY, OTHER };
static const char *TYN[] = {"A","NS","CNAME","DNAME","SOA","PTR","MX","TXT","AAAA","SRV","RRSIG","NSEC","SPF"};
using Types = std::bitset<NTY>;
static const string FRESH = "\x01other";
inline string lower(string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline int tyOf(const string &s) { for (int i = 0; i < NTY; i++) if (s == TYN[i]) return i; return OTHER; }
inline string typesText(Types t) { set<string> s; for (int i = 0; i < NTY; i++) if (t[i]) s.insert(TYN[i]);
    string r; for (auto &x : s) { if (r.size()) r += " "; r += x; } return r; }

// master-file text of a name -> labels (top first); "\." and "\\" are escapes
inline Name toName(const string &t) {
    Name ls; string cur;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] == '\\' && i + 1 < t.size()) { cur += t[i]; cur += t[++i]; }
        else if (t[i] == '.') { if (cur.size()) { ls.push_back(cur); cur.clear(); } }
        else cur += t[i];
    }
    if (cur.size()) ls.push_back(cur);
    std::reverse(ls.begin(), ls.end());
    return ls;
}
inline string toText(const Name &n) { if (n.empty()) return "."; string r; for (auto &l : n) r = l + "." + r; return r; }
inline bool under(const Name &anc, const Name &n) { return anc.size() <= n.size() && std::equal(anc.begin(), anc.end(), n.begin()); }
inline size_t textLen(const Name &n) { size_t k = 0; for (auto &l : n) k += l.size() + 1; return k; }
inline bool legal(const Name &n) { for (auto &l : n) if (l.size() > 63) return false; return textLen(n) <= 253; }

struct RR { Name name; int type; uint32_t ttl; string data; 
    bool same(const RR &o) const { return name == o.name && type == o.type && data == o.data; }
    bool operator<(const RR &o) const { return std::tie(name, type, data, ttl) < std::tie(o.name, o.type, o.data, o.ttl); }
    string text() const { return toText(name) + "   " + (type < NTY ? TYN[type] : "") + "   " + data; } };

enum Adm { OK, DUP, TWO_CNAME, TWO_DNAME, CNAME_DATA, OUTSIDE, LONG_OWNER, LONG_TARGET };
struct Zone {
    string ns; Name origin; bool haveOrigin = false;
    vector<RR> rrs; set<Name> names; map<Name, vector<RR>> at;
    // admission of one record of the file, in order
    Adm admit(const RR &r) {
        if (!legal(r.name)) return LONG_OWNER;
        if ((r.type == NS || r.type == CNAME || r.type == DNAME) && !legal(toName(r.data))) return LONG_TARGET;
        if (!haveOrigin) { if (r.type != SOA) abort(); origin = r.name; haveOrigin = true; }
        if (!under(origin, r.name)) return OUTSIDE;
        for (auto &o : at[r.name]) {
            if (o.type == r.type) {
                if (o.ttl == r.ttl && o.data == r.data) return DUP;
                if (r.type == CNAME) return TWO_CNAME;
                if (r.type == DNAME) return TWO_DNAME;
            } else if (o.type == CNAME || r.type == CNAME) return CNAME_DATA;
        }
        rrs.push_back(r); at[r.name].push_back(r);
        for (size_t i = 0; i <= r.name.size(); i++) names.insert(Name(r.name.begin(), r.name.begin() + i));
        return OK;
    }
    bool has(const Name &n, int t) const { auto it = at.find(n); if (it == at.end()) return false;
        for (auto &r : it->second) if (r.type == t) return true; return false; }
    vector<RR> get(const Name &n, int t) const { vector<RR> v; auto it = at.find(n); if (it != at.end()) for (auto &r : it->second) if (r.type == t) v.push_back(r); return v; }
    vector<RR> addresses(const Name &n) const { vector<RR> v; auto it = at.find(n); if (it != at.end()) for (auto &r : it->second) if (r.type == A || r.type == AAAA) v.push_back(r); return v; }
};

enum Tag { ANS, REWRITE, REF, NX, REFUSED, NSNOTFOUND, YX };
struct Ans { Tag tag; Types types; vector<RR> rrs; };
struct Query { Name name; bool other = false; Types types; bool nonex = false; int extra = 1;   // other: the last extra labels are not part of any zone
    Name shown() const { Name n = name; if (other) n.resize(n.size() - extra); return n; }
    string text() const { return other ? "~{ }." + toText(shown()) : toText(name); }
    bool operator==(const Query &o) const { return name == o.name && other == o.other && types == o.types; } };

inline vector<RR> withGlue(const Zone &z, const vector<RR> &nss) { vector<RR> r; for (auto &n : nss) { r.push_back(n); for (auto &g : z.addresses(toName(n.data))) r.push_back(g); } return r; }

// authoritative lookup of q in z (q.name is under z.origin)
inline vector<Ans> lookup(const Zone &z, const Query &q) {
    Name node; bool root = true;
    for (size_t i = 0; i < q.name.size(); i++) {
        Name next(q.name.begin(), q.name.begin() + i + 1);
        if (!z.names.count(next)) break;
        node = next; root = false;
        if (z.has(node, NS) && !z.has(node, SOA)) break;                     // zone cut
        if (z.has(node, DNAME) && i + 1 < q.name.size()) break;               // everything below is redirected
    }
    (void)root;
    auto split = [&](const vector<RR> &all, bool ns_with_glue) {
        vector<RR> m; Types found; vector<RR> nss;
        for (auto &r : all) { if (r.type >= NTY) continue;
            if (r.type == NS && ns_with_glue) { nss.push_back(r); continue; }
            if (q.types[r.type]) { m.push_back(r); found.set(r.type); } }
        if (q.types[NS] && nss.size()) { auto g = withGlue(z, nss); m.insert(m.end(), g.begin(), g.end()); found.set(NS); }
        vector<Ans> out;
        if (found.any()) out.push_back({ANS, found, m});
        if ((found ^ q.types).any()) out.push_back({ANS, found ^ q.types, {}});
        return out;
    };
    auto alias = [&](const RR &c) { bool only = q.types[CNAME] && q.types.count() == 1; return vector<Ans>{{only ? ANS : REWRITE, Types(), {c}}}; };
    bool exact = node.size() == q.name.size();
    auto recs = z.at.count(node) ? z.at.at(node) : vector<RR>{};
    bool cut = z.has(node, NS) && !z.has(node, SOA);
    if (exact) {
        auto c = z.get(node, CNAME);
        if (c.size()) return alias(c[0]);
        if (cut) return {{REF, Types(), withGlue(z, z.get(node, NS))}};
        return split(recs, true);
    }
    if (cut) return {{REF, Types(), withGlue(z, z.get(node, NS))}};
    auto d = z.get(node, DNAME);
    if (d.size()) return {{REWRITE, Types(), {d[0]}}};
    Name w = node; w.push_back("*");
    if (z.names.count(w)) {
        auto c = z.get(w, CNAME);
        if (c.size()) return alias(c[0]);
        return split(z.at.count(w) ? z.at.at(w) : vector<RR>{}, false);
    }
    return {{NX, q.types, {}}};
}

struct World { vector<string> top; vector<Zone> zones; 
    bool knows(const string &ns) const { for (auto &z : zones) if (z.ns == ns) return true; return false; }
    const Zone *best(const string &ns, const Name &n) const { const Zone *b = nullptr;
        for (auto &z : zones) if (z.ns == ns && under(z.origin, n)) if (!b || z.origin.size() > b->origin.size()) b = &z; return b; }
};

struct Resolution {
    struct Edge { int to; int side; };
    struct Node { string ns; Query q; bool has = false; vector<Ans> ans; vector<Edge> out; };
    vector<Node> n; const World &w; size_t cap = 4000; bool overflow = false;
    Resolution(const Query &q, const World &w) : w(w) { n.push_back({"", q}); fromTop(0, q); }
    int find(const string &ns, const Query &q) { for (size_t i = 0; i < n.size(); i++) if (n[i].ns == ns && n[i].q == q) return (int)i; return -1; }
    // returns new node or -1 when an existing one was linked
    int visit(const string &ns, const Query &q, int from, int side) {
        int k = find(ns, q); bool fresh = k < 0;
        if (n.size() > cap) { overflow = true; return -1; }
        if (fresh) { k = (int)n.size(); n.push_back({ns, q}); }
        n[from].out.push_back({k, side});
        return fresh ? k : -1;
    }
    void give(int k, Tag t) { n[k].has = true; n[k].ans = {{t, n[k].q.types, {}}}; }
    void fromTop(int from, const Query &q) {
        for (auto &s : w.top) { const Zone *z = w.best(s, q.name); int k = visit(s, q, from, -1); if (k < 0) continue; if (z) ask(*z, k); else give(k, w.knows(s) ? REFUSED : NSNOTFOUND); }
    }
    void refer(int from, const string &ns, int side) {
        Query q = n[from].q; int k = visit(ns, q, from, side); if (k < 0) return;
        if (!w.knows(ns)) { give(k, NSNOTFOUND); return; }
        const Zone *z = w.best(ns, q.name);
        if (z) ask(*z, k); else give(k, REFUSED);
    }
    int addressQuery(const string &ns) {
        Query q; q.name = toName(ns); q.types.set(A); q.types.set(AAAA);
        int k = find("", q); if (k >= 0) return k;
        k = (int)n.size(); n.push_back({"", q}); fromTop(k, q); return k;
    }
    void ask(const Zone &z, int k) {
        n[k].has = true; n[k].ans = lookup(z, n[k].q);
        auto answers = n[k].ans;
        for (auto &a : answers) {
            if (a.tag == REWRITE) {
                Query q = n[k].q, nq; nq.types = q.types;
                const RR &r = a.rrs[0];
                nq.name = toName(r.data);
                if (r.type == CNAME) nq.types.reset(CNAME);
                else { nq.name.insert(nq.name.end(), q.name.begin() + r.name.size(), q.name.end()); nq.other = q.other; nq.nonex = q.nonex; nq.extra = q.extra; }
                string ns = n[k].ns;
                if (!legal(nq.shown())) { int m = visit(ns, nq, k, -1); if (m >= 0) give(m, YX); }
                else if (const Zone *z2 = w.best(ns, nq.name)) { int m = visit(ns, nq, k, -1); if (m >= 0) ask(*z2, m); }
                else fromTop(k, nq);
            } else if (a.tag == REF) {
                for (size_t i = 0; i < a.rrs.size(); i++) if (a.rrs[i].type == NS) {
                    string ns = a.rrs[i].data; 
                    bool glue = i + 1 < a.rrs.size() && a.rrs[i + 1].type != NS;
                    bool top = std::find(w.top.begin(), w.top.end(), ns) != w.top.end();
                    if (glue || top) refer(k, ns, -1); else { int s = addressQuery(ns); refer(k, ns, s); }
                }
            }
        }
    }
    Tag tag(int v) const { return n[v].ans[0].tag; }
    bool rewrites(int v) const { return n[v].has && n[v].ans.size() && tag(v) == REWRITE; }
    // is there a cycle reachable from the start, address lookups included
    bool cyclic() const {
        vector<int> col(n.size(), 0); std::function<bool(int)> dfs = [&](int v) { col[v] = 1;
            for (auto &e : n[v].out) { for (int t : {e.side, e.to}) if (t >= 0) { if (col[t] == 1) return true; if (!col[t] && dfs(t)) return true; } }
            col[v] = 2; return false; };
        return dfs(0);
    }
    bool linked(int a, int b) const { for (auto &e : n[a].out) if (e.to == b || e.side == b) return true; return false; }
    // reported loop = a cyclic sequence of existing steps
    bool isLoop(const json &loop) const {
        if (!loop.is_array() || loop.empty()) return false;
        auto match = [&](const json &s, int v) { if (s["NS"] != n[v].ns || s["Query"] != n[v].q.text()) return false;
            if (n[v].has && n[v].ans.size()) return s.count("AnswerTag") && s["AnswerTag"] == (int)tag(v); return !s.count("AnswerTag"); };
        set<int> starts; for (size_t i = 0; i < n.size(); i++) if (match(loop[0], (int)i)) starts.insert((int)i);
        for (int s0 : starts) { set<int> cur{s0}; 
            for (size_t i = 1; i < loop.size(); i++) { set<int> nx; for (int c : cur) for (auto &e : n[c].out) for (int t : {e.to, e.side}) if (t >= 0 && match(loop[i], t)) nx.insert(t); cur = nx; }
            for (int c : cur) if (linked(c, s0)) return true; }
        return false;
    }
    using Path = vector<int>;
    void paths(vector<int> &ends, const std::function<void(const Path &)> &f) const { Path p; size_t budget = 200000; walk(0, p, ends, f, budget); }
    void walk(int v, Path p, vector<int> &ends, const std::function<void(const Path &)> &f, size_t &budget) const {
        if (!budget) return; budget--;
        auto end = [&] { if (std::find(ends.begin(), ends.end(), v) == ends.end()) ends.push_back(v); };
        if (n[v].ns != "" && rewrites(v) && n[v].ans[0].rrs[0].type == CNAME && n[v].q.types[CNAME]) { end(); Path c = p; c.push_back(v); f(c); }
        if (std::find(p.begin(), p.end(), v) != p.end()) return;
        p.push_back(v);
        for (auto &e : n[v].out) walk(e.to, p, ends, f, budget);
        if (n[v].out.empty()) { end(); f(p); }
    }
};

struct Prop { string name; bool hasTypes = false; vector<string> types; uint64_t num = 0; vector<string> values;
    Types bits() const { Types t; if (hasTypes) for (auto &x : types) t.set(tyOf(x)); return t; } 
    json toJson() const { json j; j["PropertyName"] = name; if (hasTypes) j["Types"] = types.empty() ? json::array() : json(types);
        static const set<string> nums{"Hops", "Rewrites"}, lists{"QueryRewrite", "NameserverContact", "AllAliases", "ResponseValue"};
        if (nums.count(name)) j["Value"] = num; if (lists.count(name)) j["Value"] = values.empty() ? json::array() : json(values); return j; } };
struct Job { string domain; bool sub = true; vector<Prop> props; bool byDefault = false; // given as "no job file"
    Types types() const { Types t; for (auto &p : props) { if (p.hasTypes) t |= p.bits(); else t.set(NS); } return t; }
    json toJson() const { json j; if (byDefault) return j; j["Domain"] = domain; j["SubDomain"] = sub; j["Properties"] = json::array(); for (auto &p : props) j["Properties"].push_back(p.toJson()); return j; } };

inline vector<RR> minus(vector<RR> a, vector<RR> b, vector<RR> *common = nullptr) { // multiset difference by (name,type,data)
    vector<RR> r; for (auto &x : a) { auto it = std::find_if(b.begin(), b.end(), [&](const RR &y) { return x.same(y); }); if (it == b.end()) r.push_back(x); else { b.erase(it); if (common) common->push_back(x); } } return r; }
inline bool differ(const vector<RR> &a, const vector<RR> &b) { return minus(a, b).size() || minus(b, a).size(); }
inline vector<RR> only(const vector<RR> &v, Types t) { vector<RR> r; for (auto &x : v) if (x.type < NTY && t[x.type]) r.push_back(x); return r; }
inline string listText(const vector<string> &vals) { string r; for (auto &v : vals) r += (r.size() ? ", " : "") + toText(toName(lower(v))); return "[" + r + "]"; }

struct Expected {
    set<json> out;                                 // exact violations (all but loops / aliases)
    map<string, set<string>> aliases;
    vector<Resolution> graphs;                     // for loop validation
    vector<Query> classes; bool skipped = false;
};

// ---- query classes -------------------------------------------------------------------------------------------
struct NameGraph { set<Name> names; map<Name, vector<Name>> dn; map<Name, bool> hasStar;
    NameGraph(const World &w) {
        auto add = [&](const Name &n) { for (size_t i = 0; i <= n.size(); i++) names.insert(Name(n.begin(), n.begin() + i)); };
        names.insert(Name{});
        for (auto &z : w.zones) for (auto &r : z.rrs) if (r.type < NTY) { add(r.name); if (r.type == DNAME) { Name t = toName(r.data); add(t); dn[r.name].push_back(t); } }
    }
    void close(set<Name> &s) const { vector<Name> todo(s.begin(), s.end()); while (todo.size()) { Name x = todo.back(); todo.pop_back(); auto it = dn.find(x); if (it != dn.end()) for (auto &t : it->second) if (s.insert(t).second) todo.push_back(t); } }
    set<Name> step(const set<Name> &closed, const string &l) const { set<Name> r; for (auto s : closed) { s.push_back(l); if (names.count(s)) r.insert(s); } return r; }
};
inline bool classesOf(const World &w, const Job &job, vector<Query> &out, set<pair<Name, Name>> *structural, size_t cap) {
    Name d = toName(lower(job.domain));
    if (!legal(d)) return true;
    NameGraph g(w);
    set<Name> cur{Name{}}; size_t i = 0;
    for (; i < d.size(); i++) { auto c = cur; g.close(c); auto nx = g.step(c, d[i]); if (nx.empty()) break; cur = nx; }
    Query q; q.types = job.types();
    if (i < d.size()) { q.name = Name(d.begin(), d.begin() + i); q.name.push_back(FRESH); q.other = true; out.push_back(q); return true; }
    if (!job.sub) { q.name = d; out.push_back(q); return true; }
    if (structural) for (auto &s : cur) { // names below the domain itself (not through redirection)
        for (auto &x : g.names) if (under(s, x)) { Name shown = d; shown.insert(shown.end(), x.begin() + s.size(), x.end()); if (textLen(shown) <= 253) structural->insert({x, shown}); } }
    vector<pair<Name, set<Name>>> todo{{d, cur}};
    for (size_t k = 0; k < todo.size(); k++) {
        if (out.size() > cap) return false;
        auto [name, st] = todo[k]; g.close(st);
        Query e; e.types = job.types(); e.name = name; out.push_back(e);
        bool star = false, plain = false;
        set<string> labels;
        for (auto &s : st) { Name t = s; t.push_back("*"); if (g.names.count(t)) star = true; else plain = true;
            for (auto it = g.names.upper_bound(s); it != g.names.end() && under(s, *it); ++it) if (it->size() == s.size() + 1) labels.insert(it->back()); }
        e.name.push_back(FRESH); e.other = true;
        if (star) out.push_back(e);
        if (plain) { e.types.set(); e.nonex = true; out.push_back(e); }
        for (auto &l : labels) { Name c = name; c.push_back(l); if (textLen(c) <= 253) todo.push_back({c, g.step(st, l)}); }
    }
    return true;
}

// ---- the structural check -------------------------------------------------------------------------------------
inline void structuralCheck(const World &w, const Name &node, const string &shown, set<json> &out) {
    struct Side { const Zone *z; vector<RR> ns, glue; bool useGlue; };
    vector<Side> par, chi; Name childOrigin; bool haveChild = false;
    bool any = false; size_t longest = 0; 
    // every zone copy with records at this name
    for (auto &z : w.zones) { if (!z.at.count(node) || z.at.at(node).empty()) continue; if (z.has(node, NS)) any = true; }
    if (!any) return;
    vector<const Zone *> parents;
    for (auto &z : w.zones) { if (!z.at.count(node)) continue; bool typed = false; for (auto &r : z.at.at(node)) if (r.type < NTY) typed = true; if (!typed) continue;
        auto ns = z.get(node, NS);
        vector<RR> glue; for (auto &r : ns) for (auto &g : z.addresses(toName(r.data))) glue.push_back(g);
        if (z.has(node, SOA)) { bool need = false; for (auto &r : ns) if (under(z.origin, toName(r.data))) need = true;
            if (!need) glue.clear();
            haveChild = true; childOrigin = z.origin; chi.push_back({&z, ns, glue, need});
        } else { parents.push_back(&z); longest = std::max(longest, z.origin.size()); par.push_back({&z, ns, glue, true}); } }
    vector<Side> closest; for (auto &p : par) if (p.z->origin.size() == longest) closest.push_back(p);
    par = closest;
    if (haveChild && childOrigin.size()) for (auto &p : par) { vector<RR> g; for (auto &r : p.glue) if (under(childOrigin, r.name)) g.push_back(r); p.glue = g; }
    json pairs = json::array();
    auto cmp = [&](const Side &x, const Side &y, string a, string b, bool glue) {
        vector<RR> nc, gc; auto nx = minus(x.ns, y.ns, &nc), ny = minus(y.ns, x.ns); vector<RR> gx, gy; if (glue) { gx = minus(x.glue, y.glue, &gc); gy = minus(y.glue, x.glue); }
        if (nx.empty() && ny.empty() && gx.empty() && gy.empty()) return;
        json j; j[a + " NS"] = x.z->ns; j[b + " NS"] = y.z->ns;
        auto put = [&](string k, const vector<RR> &v) { if (v.size()) for (auto &r : v) j[k].push_back(r.text()); };
        put("Common NS Records", nc); put("Exclusive " + a + " NS Records", nx); put("Exclusive " + b + " NS Records", ny);
        put("Common Glue Records", gc); put("Exclusive " + a + " Glue Records", gx); put("Exclusive " + b + " Glue Records", gy);
        pairs.push_back(j);
    };
    for (auto &p : par) for (auto &c : chi) cmp(p, c, "parent", "child", c.useGlue);
    for (size_t i = 0; i < par.size(); i++) for (size_t k = i + 1; k < par.size(); k++) cmp(par[i], par[k], "parent-a", "parent-b", true);
    for (size_t i = 0; i < chi.size(); i++) for (size_t k = i + 1; k < chi.size(); k++) cmp(chi[i], chi[k], "child-a", "child-b", true);
    if (pairs.size()) { json j; j["Property"] = "Structural Delegation Consistency"; j["Domain Name"] = shown; j["Inconsistent Pairs"] = pairs; out.insert(j); }
}

// ---- properties ------------------------------------------------------------------------------------------------
inline void pathProp(const Prop &p, const Resolution &g, const Resolution::Path &path, set<json> &out, map<string, set<string>> &aliases) {
    auto &n = g.n; const Query &q = n[path[0]].q; json j;
    vector<Name> allowed; for (auto &v : p.values) allowed.push_back(toName(lower(v)));
    auto inAllowed = [&](const Name &x) { for (auto &a : allowed) if (under(a, x)) return true; return false; };
    int last = path.back();
    if (p.name == "Hops") {
        size_t hops = 0; string prev; for (int v : path) if (n[v].ns != "" && (!hops || n[v].ns != prev)) { hops++; prev = n[v].ns; }
        if (hops > p.num) { j["Property"] = "Hops"; j["Query"] = q.text(); j["Violation"] = {{"ActualHops", hops}, {"MaxAllowedHops", p.num}}; out.insert(j); }
    } else if (p.name == "Rewrites") {
        uint64_t k = 0; for (int v : path) if (g.rewrites(v)) k++;
        if (k > p.num) { j["Property"] = "Rewrites"; j["Query"] = q.text(); j["Violation"] = {{"ActualRewrites", k}, {"MaxAllowedRewrites", p.num}}; out.insert(j); }
    } else if (p.name == "QueryRewrite") {
        if (allowed.empty()) return;
        for (size_t i = 0; i + 1 < path.size(); i++) if (g.rewrites(path[i]) && !inAllowed(n[path[i + 1]].q.shown())) {
            json t; t["Property"] = "Query Rewrite"; t["Query"] = n[path[i]].q.text();
            t["Violation"] = {{"RewriteTarget", n[path[i + 1]].q.text()}, {"Nameserver", n[path[i]].ns}, {"ExpectedUnder", listText(p.values)}}; out.insert(t); }
    } else if (p.name == "NameserverContact") {
        if (allowed.empty()) return;
        for (int v : path) if (n[v].ns != "" && !inAllowed(toName(n[v].ns))) { json t; t["Property"] = "Name Server Contact"; t["Query"] = n[v].q.text();
            t["Violation"] = {{"ExternalNameserver", n[v].ns}, {"AllowedDomains", listText(p.values)}}; out.insert(t); }
    } else if (p.name == "RewriteBlackholing") {
        for (size_t i = 0; i < path.size(); i++) if (g.rewrites(path[i])) {
            if (i + 1 < path.size() && g.tag(last) == NX) { j["Property"] = "Rewrite Blackholing"; j["Query"] = n[path[i]].q.text(); j["Violation"] = {{"RewriteTarget", n[last].q.text()}, {"BlackholeNameserver", n[last].ns}}; out.insert(j); }
            break; }
    } else if (p.name == "LameDelegation") {
        for (size_t i = 0; i + 1 < path.size(); i++) { int a = path[i], b = path[i + 1];
            if (n[a].has && g.tag(a) == REF && n[b].has && g.tag(b) == REFUSED && n[b].q.shown() == q.shown()) {
                json t; t["Property"] = "Lame Delegation"; t["Query"] = q.text(); t["Violation"] = {{"Nameserver1", n[a].ns}, {"Nameserver2", n[b].ns}}; out.insert(t); } }
    } else if (p.name == "DelegationConsistency") {
        int at = -1;
        for (size_t i = 0; i + 1 < path.size(); i++) { int a = path[i], b = path[i + 1];
            if (n[a].has && g.tag(a) == REF && n[b].has && g.tag(b) == ANS && n[b].ans[0].types[NS] && n[b].ans[0].rrs.size() && n[b].q.shown() == q.shown()) at = (int)i; }
        if (at < 0) return;
        int a = path[at], b = path[at + 1];
        auto split = [](const vector<RR> &v, vector<RR> &ns, vector<RR> &gl) { for (auto &r : v) { if (r.type == NS) ns.push_back(r); if ((r.type == A || r.type == AAAA) && ns.size()) gl.push_back(r); } };
        vector<RR> pn, pg, cn, cg; split(n[a].ans[0].rrs, pn, pg); split(n[b].ans[0].rrs, cn, cg);
        if (pn.empty() || cn.empty() || pn[0].name != cn[0].name) return;
        vector<RR> g2; for (auto &r : pg) if (under(cn[0].name, r.name)) g2.push_back(r);
        auto rep = [&](const char *k) { json t; t["Property"] = "Delegation Consistency"; t["Query"] = q.text(); t["Violation"] = {{"Nameserver1", n[a].ns}, {"Nameserver2", n[b].ns}, {"InconsistencyType", k}}; out.insert(t); };
        if (differ(pn, cn)) rep("NS");
        if (differ(g2, cg)) rep("Glue");
    } else if (p.name == "AllAliases") {
        for (size_t i = 0; i < path.size(); i++) if (g.rewrites(path[i])) for (size_t k = i + 1; k < path.size(); k++) { const Query &t = n[path[k]].q;
            if (!t.other && std::find(allowed.begin(), allowed.end(), t.name) != allowed.end()) aliases[t.text()].insert(n[path[i]].q.text()); }
    } else if (p.name == "DNAMESubstitutionCheck") {
        if (n[last].has && g.tag(last) == YX) { j["Property"] = "DNAME Substitution exceeds length"; j["Query"] = q.text(); j["Violation"] = {{"RewriteTarget", n[last].q.text()}, {"Nameserver", n[last].ns}}; out.insert(j); }
    } else if (p.name == "InfiniteDNameRec") {
        vector<RR> used; vector<pair<size_t, string>> when;
        for (int v : path) if (g.rewrites(v)) { const RR &r = n[v].ans[0].rrs[0]; size_t len = n[v].q.shown().size();
            size_t i = 0; while (i < used.size() && !used[i].same(r)) i++;
            if (i < used.size()) { if (len >= when[i].first) { j["Property"] = "Infinite DName Recursion"; j["Query1"] = when[i].second; j["Query2"] = n[v].q.text(); set<string> s; for (auto &x : used) s.insert(x.text()); j["RRsUsed"] = s; out.insert(j); return; } when[i] = {len, n[v].q.text()}; }
            else { used.push_back(r); when.push_back({len, n[v].q.text()}); } }
    }
}

inline void endProp(const Prop &p, const Resolution &g, const vector<int> &ends, set<json> &out) {
    auto &n = g.n; Types want = p.bits();
    auto usable = [&](int v) { return n[v].ns != "" && n[v].has && (n[v].q.types & want).any(); };
    auto known = [&](int v) { return g.tag(v) != REFUSED && g.tag(v) != NSNOTFOUND; };
    if (p.name == "ResponseReturned") {
        for (int v : ends) { if (n[v].q.nonex) return;
            if (usable(v) && known(v)) for (auto &a : n[v].ans) if (a.rrs.empty() && (a.types & want).any()) { json j; j["Property"] = "ResponseReturned"; j["Query"] = n[v].q.text(); j["Violation"] = {{"Types", typesText(a.types & want)}, {"Nameserver", n[v].ns}}; out.insert(j); } }
    } else if (p.name == "ResponseValue") {
        if (p.values.empty()) return; set<string> exp; for (auto &v : p.values) exp.insert(lower(v));
        json mism = json::array();
        for (int v : ends) if (usable(v) && known(v)) {
            if (g.tag(v) == REF) continue;
            if (g.tag(v) == REWRITE && !want[CNAME]) continue;
            set<string> got; for (auto &r : only(n[v].ans[0].rrs, want)) got.insert(r.data);
            if (got != exp) { string s; for (auto &x : got) s += x; mism.push_back({{"Found", s}, {"Query", n[v].q.text()}, {"Nameserver", n[v].ns}}); } }
        if (mism.size()) { json j; j["Property"] = "Response Value"; j["Mismatches"] = mism; string s; for (auto &x : exp) s += x; j["Expected"] = s; out.insert(j); }
    } else if (p.name == "ResponseConsistency") {
        bool bad = false; const vector<RR> *first = nullptr; vector<RR> f0;
        vector<int> cn;
        for (int v : ends) if (usable(v) && known(v)) {
            if (n[v].q.types[CNAME] && want[CNAME]) cn.push_back(v);
            if (g.tag(v) == REWRITE) continue;
            auto r = only(n[v].ans[0].rrs, want); if (!first) { f0 = r; first = &f0; } else if (differ(r, f0)) bad = true; }
        for (size_t i = 1; i < cn.size(); i++) { if (g.tag(cn[i]) != g.tag(cn[0]) || differ(only(n[cn[i]].ans[0].rrs, want), only(n[cn[0]].ans[0].rrs, want))) bad = true; }
        if (bad) { json j; j["Property"] = "Response Consistency"; j["Query"] = n[ends[0]].q.text(); out.insert(j); }
    } else if (p.name == "ZeroTTL") {
        for (int v : ends) if (usable(v) && known(v)) for (auto &r : only(n[v].ans[0].rrs, want)) if (r.ttl == 0) { json j; j["Property"] = "Zero TTL"; j["Query"] = n[ends[0]].q.text(); j["Violation"] = {{"Nameserver", n[v].ns}, {"Record", r.text()}}; out.insert(j); }
    }
}

inline const set<string> &pathProps() { static const set<string> s{"Hops","Rewrites","QueryRewrite","NameserverContact","RewriteBlackholing","LameDelegation","DelegationConsistency","AllAliases","DNAMESubstitutionCheck","InfiniteDNameRec"}; return s; }
inline void evalClass(const World &w, const Job &job, const Query &q, Expected &ex) {
    ex.graphs.emplace_back(q, w); auto &g = ex.graphs.back(); if (g.overflow) { ex.skipped = true; return; }
    vector<int> ends;
    g.paths(ends, [&](const Resolution::Path &p) { for (auto &pr : job.props) if (pathProps().count(pr.name)) pathProp(pr, g, p, ex.out, ex.aliases); });
    for (auto &pr : job.props) if (!pathProps().count(pr.name)) endProp(pr, g, ends, ex.out);
}
inline Expected expect(const World &w, const Job &job, size_t cap = 300) {
    Expected ex; bool st = false; for (auto &p : job.props) if (p.name == "StructuralDelegationConsistency") st = true;
    set<pair<Name, Name>> snodes;
    if (!classesOf(w, job, ex.classes, st ? &snodes : nullptr, cap)) { ex.skipped = true; return ex; }
    ex.graphs.reserve(ex.classes.size());
    for (auto &q : ex.classes) { evalClass(w, job, q, ex); if (ex.skipped) return ex; }
    for (auto &[node, shown] : snodes) structuralCheck(w, node, toText(shown), ex.out);
    return ex;
}
} // namespace ref
