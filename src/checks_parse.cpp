// Checks of the zone file reader: presentation (C04), TTLs (C05) and the lint report (C06).
#include "check.hpp"
namespace chk {
using ref::toName; using ref::toText; using ref::lower;
static vector<Prop> showEach(const vector<string> &hosts) {
    auto p = fullSet(hosts, {"A", "TXT"}); for (auto t : {"A", "NS", "CNAME", "DNAME", "TXT", "MX", "AAAA", "PTR", "SRV", "SOA", "NSEC", "RRSIG"}) { p.push_back(T(P("ResponseValue", vector<string>{"zz"}), {t})); p.push_back(T(P("ZeroTTL"), {t})); } return p; }
static string upper(string s) { for (auto &c : s) c = toupper(c); return s; }
static string altCase(string s) { for (size_t i = 0; i < s.size(); i += 2) s[i] = toupper(s[i]); return s; }

// ---- C04: presentation ----
// One way of writing each record; 0 is the plain way.
enum Dim { OWNER, TTLCLASS, TYPECASE, SEP, END, RDATA, PAREN, PRE, NDIM };
static const int nval[NDIM] = {6, 8, 3, 4, 8, 6, 9, 23};
struct Style { int v[NDIM] = {0, 0, 0, 0, 0, 0, 0, 0}; };
struct Source { vector<string> lines; string metaOrigin; bool finalNewline = true; };
// Writes the records in the given styles; false if some style is not possible at its place.
static bool write(const vector<world::Line> &rs, const vector<Style> &st, const string &metaOrigin, bool finalNewline, string &out) {
    string origin = metaOrigin, prev; long directive = -1, last = -1; out.clear();
    auto rel = [&](const string &n, string &r) { if (origin.empty() || n == ".") return false; if (origin == ".") { r = n.substr(0, n.size() - 1); return true; }
        string t = "." + origin; if (n.size() > t.size() && n.compare(n.size() - t.size(), t.size(), t) == 0) { r = n.substr(0, n.size() - t.size()); return true; } return false; };
    for (size_t i = 0; i < rs.size(); i++) {
        auto &r = rs[i]; auto &s = st[i].v; bool used = false;
        auto note = [&](const string &o) { prev = o; };
        switch (s[PRE]) {
            case 0: break;
            case 1: out += "\n"; break;
            case 2: out += "  \t\n"; break;
            case 3: out += "; a comment ( \" $TTL 0\n"; break;
            case 4: out += "\t ; a comment\n"; break;
            case 5: out += "\r\n"; break;
            case 6: out += "h.e. IN HINFO x y\n"; note("h.e."); break;
            case 7: { string x; if (!rel("h." + r.owner, x)) return false; out += x + " IN HINFO x y\n"; note("h." + r.owner); break; }
            case 8: out += r.owner + " IN HINFO ( x\n y )\n"; note(r.owner); break;
            case 9: out += "$ORIGIN e.\n"; origin = "e."; break;
            case 10: out += "$ORIGIN a.e.\t; to a\n"; origin = "a.e."; break;
            case 11: out += "$ORIGIN .\n"; origin = "."; break;
            case 12: { string x; if (!rel("a.e.", x)) return false; out += "$ORIGIN  " + x + "  \n"; origin = "a.e."; break; }
            case 13: out += "$TTL 300\n"; directive = 300; break;
            case 14: out += "$TTL\t0 ; zero\r\n"; directive = 0; break;
            case 15: out += "$ORIGIN E.\r\n"; origin = "e."; break;
            case 16: if (origin.empty()) return false; out += "$ORIGIN @ ; unchanged\n"; return false;   // '@' in $ORIGIN is not claimed
            case 17: out += ";\n"; break;
            case 19: out += "$oriGin e.\n"; origin = "e."; break;
            case 21: out += "h.e. 300 IN HINFO x y\n"; note("h.e."); last = 300; break;
            case 22: out += "h.e. IN 0 HINFO ( a\ty )\n"; note("h.e."); last = 0; break;
            case 20: out += "$ttl 300\n"; directive = 300; break;
            case 18: { if (i == 0) return false; string x; if (!rel("a.e.", x)) return false; out += "@ IN HINFO x y\n"; note(origin); break; }
        }
        (void)used;
        string o = r.owner;
        switch (s[OWNER]) {
            case 1: if (!rel(r.owner, o)) return false; break;
            case 2: if (origin.empty() || r.owner != origin) return false; o = "@"; break;
            case 3: if (prev != r.owner) return false; o = ""; break;
            case 4: o = upper(o); break;
            case 5: if (!rel(r.owner, o)) return false; o = altCase(o); break;
        }
        static const string seps[] = {" ", "\t", "  ", "\t \t"}; string sep = seps[s[SEP]], ttl = std::to_string(r.ttl); vector<string> f; long def = directive >= 0 ? directive : last;
        bool omit = false;
        switch (s[TTLCLASS]) {
            case 0: f = {ttl, "IN"}; break; case 1: f = {"IN", ttl}; break; case 2: f = {ttl}; break; case 3: f = {"IN"}; omit = true; break; case 4: omit = true; break; case 5: f = {ttl, "in"}; break; case 6: f = {"In", ttl}; break; case 7: f = {"iN"}; omit = true; break;
        }
        if (omit && def != (long)r.ttl) return false;
        if (!omit) last = r.ttl;
        f.push_back(s[TYPECASE] == 1 ? lower(r.type) : s[TYPECASE] == 2 ? altCase(lower(r.type)) : r.type);
        vector<string> d; { string cur; bool q = false, esc = false; for (char ch : r.data) { if (ch == '"' && !esc) q = !q; esc = ch == '\\' && !esc; if (ch == ' ' && !q) { d.push_back(cur); cur.clear(); } else cur += ch; } d.push_back(cur); }
        // the names among the fields of the data; they are taken to follow a SOA record's own owner only where the origin is known before
        static const map<string, vector<size_t>> nameFields{{"NS", {0}}, {"CNAME", {0}}, {"DNAME", {0}}, {"PTR", {0}}, {"MX", {1}}, {"SRV", {3}}, {"SOA", {0, 1}}, {"NSEC", {0}}, {"RRSIG", {7}}};
        vector<size_t> names; if (auto it = nameFields.find(r.type); it != nameFields.end()) names = it->second;
        auto each = [&](auto f) { bool any = false; for (size_t j : names) any |= f(d.at(j)); return any; };
        switch (s[RDATA]) {
            case 1: if (!each([&](string &x) { return rel(x, x); })) return false; break;
            case 2: if (!each([&](string &x) { if (origin.empty() || x != origin) return false; x = "@"; return true; })) return false; break;
            case 3: for (auto &x : d) x = upper(x); break;
            case 4: if (!each([&](string &x) { if (!rel(x, x)) return false; x = altCase(x); return true; })) return false; break;
            case 5: { string x; if (names.size() < 2 || !rel(d.at(names[1]), x)) return false; d[names[1]] = x; break; }
        }
        size_t k = f.size(); f.insert(f.end(), d.begin(), d.end());
        auto join = [&](size_t a, size_t b, const string &sp) { string x; for (size_t j = a; j < b; j++) { if (j > a) x += sp; x += f[j]; } return x; };
        string body;
        switch (s[PAREN]) {
            case 0: body = join(0, f.size(), sep); break;
            case 1: body = join(0, k, sep) + " ( " + join(k, f.size(), sep) + " )"; break;
            case 2: body = join(0, k, sep) + " (\n" + join(k, f.size(), "\n") + "\n)"; break;
            case 3: body = join(0, k, sep) + sep + join(k, f.size(), sep) + " (\n)"; break;
            case 4: body = join(0, k, sep) + " ( ; first )\n\t" + join(k, f.size(), " ; next (\n\t") + " ; last\n ) "; break;
            case 5: body = join(0, k, sep) + " (" + join(k, f.size(), sep) + ")"; break;
            case 6: body = "(" + join(0, f.size(), "\n  ") + ")"; break;
            case 7: body = "( " + join(0, k, sep) + "\r\n )" + sep + "(" + join(k, f.size(), sep) + ")"; break;
            case 8: body = join(0, k, sep) + " (\n\n ( " + join(k, f.size(), sep) + " )\n ; c\n)"; break;
        }
        if (o.empty() && body[0] == '(' ) {}
        string line = o + sep + body;
        switch (s[END]) { case 0: line += "\n"; break; case 1: line += " \n"; break; case 2: line += "\t\n"; break; case 3: line += ";c\n"; break; case 4: line += " ; c ( \"\n"; break; case 5: line += " ;\n"; break; case 6: line += "\r\n"; break; case 7: line += " ; c\r\n"; break; }
        out += line; prev = r.owner;
        if (origin.empty() && r.type == "SOA") origin = r.owner;
    }
    if (!finalNewline) { while (out.size() && (out.back() == '\n')) out.pop_back(); }
    return true;
}
struct Base { string name; vector<string> lines; string meta; vector<string> hosts; };
static Reg c04("C04", [](Ctx &c) {
    vector<Base> bases{
        {"plain", {"e. SOA", "e. NS ns1.e.", "a.e. A 1.1.1.1", "a.e. TXT \"x y; z (\"", "b.e. CNAME a.e.", "e. MX 10 a.e."}, "", {"a.e."}},
        {"keywords", {"e. SOA", "a.e. MX 10 mx.e.", "mx.e. A 1.1.1.1", "in.e. TXT in", "ns.e. NS a.e.", "60.e. 0 A 1.1.1.2"}, "", {"mx.e."}},
        {"keywords2", {"e. SOA", "ch.e. TXT txt", "txt.e. 0 TXT a", "cname.e. CNAME soa.e.", "soa.e. A 1.1.1.1", "ttl.e. CNAME in.e."}, "", {"soa.e."}},
        {"cut", {"e. SOA", "a.e. NS ns1.a.e.", "ns1.a.e. AAAA 1::1", "d.e. DNAME a.e.", "*.e. CNAME e.", "e. NS e.", "e. A 1.1.1.1"}, "", {"e."}},
        {"names", {"e. SOA m.e. a.e. 1 1 1 1 1", "a.e. PTR e.", "a.e. SRV 0 0 5 b.e.", "a.e. NSEC b.e. a ns", "a.e. RRSIG a 5 2 300 1 1 1 e. xx"}, "", {"a.e."}},
        {"names2", {"e. SOA e. m.a.e. 1 1 1 1 1", "b.e. PTR b.a.e.", "a.e. SRV 1 1 5 e.", "e. NSEC e. soa", "b.a.e. RRSIG ptr 5 2 300 1 1 1 a.e. a.e"}, "", {"e."}},
        {"escapes", {"e. SOA", "a.e. TXT \"x\\\"y; (\"", "b\\;c.e. A 1.1.1.1", "a.e. TXT v\\;w\\(", "a.e. TXT x\\\"y \"\\\\\"", "\\(n\\)\\\".e. CNAME a.e.", "h\\\\.e. TXT \\\\", "n\\..e. CNAME h\\..e."}, "", {"a.e."}},
        {"same", {"e. SOA", "a.e. A 1.1.1.1", "a.e. A 1.1.1.2", "a.e. 0 TXT t", "h.e. A 1.1.1.3", "h.a.e. MX 5 e."}, "", {"a.e."}},
        {"root", {". SOA", ". NS a.", "a. A 1.1.1.1", "e. CNAME a.", "a.e. DNAME a.", "h.e. A 1.1.1.1"}, "", {"a."}}};
    struct Opt { int rec, dim, val; };
    for (auto &b : bases) {
        vector<world::Line> rs; for (auto &l : b.lines) rs.push_back(world::split(l)); int n = (int)rs.size();
        Config cfg; cfg.top = {"ns1.e."}; cfg.files = {{"ns1.e.", b.lines}}; auto w = world::model(cfg);
        Job job = J(".", showEach(b.hosts)); auto ex = ref::expect(w, job); set<json> want; for (auto &x : ex.out) want.insert(canon(x)); for (auto &x : aliasItems(ex.aliases)) want.insert(x); want = pick(want, everyProp()); json jj = job.toJson();
        for (auto &g : ex.graphs) { c.states += g.n.size(); for (auto &m : g.n) c.transitions += m.out.size(); }
        // rec -1: wherever possible in the file. Pseudo dimensions: NDIM = Origin in the metadata, NDIM+1 = no final newline
        vector<Opt> opts; for (int r = -1; r < n; r++) for (int d = 0; d < NDIM; d++) for (int v = 1; v < nval[d]; v++) if (!(r < 0 && d == PRE && v > 8)) opts.push_back({r, d, v});
        vector<string> metas{"e.", ".", "E."}; for (int v = 0; v < 3; v++) opts.push_back({0, NDIM, v}); opts.push_back({0, NDIM + 1, 0});
        set<string> seen;
        auto run = [&](const vector<int> &pickd) {
            vector<Style> st(n); string meta, shown; bool nl = true; string text;
            for (int p : pickd) { auto &o = opts[p]; if (o.dim == NDIM) { shown = metas[o.val]; meta = lower(shown); } else if (o.dim == NDIM + 1) nl = false; else if (o.rec >= 0) st[o.rec].v[o.dim] = o.val; }
            for (int p : pickd) { auto &o = opts[p]; if (o.rec < 0 && o.dim < NDIM) { bool any = false; for (int r = 0; r < n; r++) { auto t = st; if (t[r].v[o.dim]) continue; t[r].v[o.dim] = o.val; string x; if (write(rs, t, meta, nl, x)) { st = t; any = true; } } if (!any) return; } }
            if (!write(rs, st, meta, nl, text)) return;
            if (!c.mine()) return;
            json m; string f = api::fileFor(text); m["TopNameServers"] = {"ns1.e."}; m["ZoneFiles"] = json::array({{{"FileName", f}, {"NameServer", "ns1.e."}}}); if (shown.size()) m["ZoneFiles"][0]["Origin"] = shown;
            auto o = api::runTool(m, api::scratch(), {jj}); c.execs++; set<json> got = pick(o.items, everyProp());
            if (o.problem.size() || got != want) { json d; m["ZoneFiles"][0]["FileName"] = "zone0.txt"; d["files"]["zone0.txt"] = text; d["metadata.json"] = m; d["jobs.json"] = {jj}; d["canonical"] = world::render(b.lines); d["problem"] = o.problem; d["why"] = o.problem.size() ? json(o.problem) : diffJson(want, got); c.violate(d); }
            c.outcome(text, true); if (pickd.size() > 1) c.sample({{"zone file", text}, {"denotes", world::render(b.lines)}});
        };
        run({}); int m = (int)opts.size(), k = c.thorough ? 3 : 2;
        std::function<void(vector<int> &, int)> go = [&](vector<int> &p, int from) { if (p.size()) run(p); if ((int)p.size() == k) return; for (int i = from; i < m; i++) { bool ok = true; for (int q : p) if (opts[q].dim == opts[i].dim && (opts[q].rec == opts[i].rec)) ok = false; if (!ok) continue; p.push_back(i); go(p, i + 1); p.pop_back(); } };
        vector<int> p; go(p, 0);
    }
});

// ---- C05: every sequence of $TTL entries, stated and omitted TTLs ----
static Reg c05("C05", [](Ctx &c) {
    vector<uint32_t> vals{0, 60, 2147483647u, 2147483648u, 4294967295u}; int nv = (int)vals.size(), sym = 3 * nv + 1;   // 0..nv-1: $TTL v, nv..2nv-1: record with TTL v, 2nv: record without, 2nv+1..3nv: record with TTL v of a type that is not handled
    const uint32_t soaTtl = 7; vector<uint32_t> cand = vals; cand.push_back(soaTtl); cand.push_back(4294967294u); cand.push_back(1);
    Job job = J(".", {T(P("ZeroTTL"), {"A", "SOA"})}); json jj = job.toJson();
    int len = c.thorough ? 5 : 4;
    std::function<void(vector<int> &)> go = [&](vector<int> &s) {
        if (s.size()) for (int soa = 0; soa < 3; soa++) if (c.mine()) { // SOA with a TTL; after a $TTL entry, with and without
            string text; long directive = -1, last = -1; uint32_t st = soaTtl;
            if (soa) { directive = 60; text += "$TTL 60\n"; }
            if (soa == 2) { st = 60; text += "e. IN SOA m. h. 1 1 1 1 1\n"; } else { text += "e. 7 IN SOA m. h. 1 1 1 1 1\n"; last = 7; }
            vector<uint32_t> ttl; size_t line = soa ? 2 : 1;
            for (int x : s) { line++; string o = "r" + std::to_string(ttl.size()) + ".e. ";
                if (x < nv) { directive = vals[x]; text += "$TTL " + std::to_string(vals[x]) + "\n"; continue; }
                if (x > 2 * nv) { last = vals[x - 2 * nv - 1]; text += "h" + o.substr(1) + (x % 2 ? "IN " + std::to_string(last) : std::to_string(last) + " IN") + (x % 3 ? " HINFO x y\n" : " LOC a 5\n"); continue; }
                if (x < 2 * nv) { last = vals[x - nv]; ttl.push_back(vals[x - nv]); text += o + std::to_string(vals[x - nv]) + " IN A 1.1.1.1\n"; }
                else { ttl.push_back(directive >= 0 ? directive : last); text += o + "IN A 1.1.1.1\n"; } }
            // probes: a record with the same data and a stated TTL is a duplicate if and only if the TTLs are equal
            set<size_t> want; set<json> zero; Config cfg;
            auto probe = [&](const string &owner, const string &rest, uint32_t t) { for (auto v : cand) { line++; text += owner + std::to_string(v) + " IN " + rest + "\n"; if (v == t) want.insert(line); } };
            string probed = text; // the report is made from the file without probes
            for (size_t i = 0; i < ttl.size(); i++) probe("r" + std::to_string(i) + ".e. ", "A 1.1.1.1", ttl[i]);
            probe("e. ", "SOA m. h. 1 1 1 1 1", st);
            json m; m["TopNameServers"] = {"ns1.e."}; m["ZoneFiles"] = json::array({{{"FileName", api::fileFor(text)}, {"NameServer", "ns1.e."}}}); string lint; auto o = api::runLint(m, api::scratch(), {}, lint); c.execs++; c.states += ttl.size() + 1; c.transitions += want.size() + ttl.size() * cand.size();
            auto fail = [&](const json &why) { json d; json mm = m; mm["ZoneFiles"][0]["FileName"] = "zone0.txt"; d["files"]["zone0.txt"] = text; d["metadata.json"] = mm; d["jobs.json"] = {jj}; d["why"] = why; d["TTLs expected"] = ttl; c.violate(d); };
            if (o.problem.size()) fail(o.problem);
            set<size_t> got; try { for (auto &e : json::parse(lint)) if (e.value("Violation", string()) == "Duplicate Record") got.insert(e["Line Number"].get<size_t>()); } catch (std::exception &e) { fail(string("lint report: ") + e.what()); }
            if (got != want) fail({{"duplicates expected on lines", want}, {"reported on lines", got}});
            ref::World w; w.top = {"ns1.e."}; ref::Zone z; z.ns = "ns1.e."; z.admit({toName("e."), ref::SOA, st, "m. h. 1 1 1 1 1"}); for (size_t i = 0; i < ttl.size(); i++) z.admit({toName("r" + std::to_string(i) + ".e."), ref::A, ttl[i], "1.1.1.1"}); w.zones.push_back(z);
            auto ex = ref::expect(w, job); set<json> ww; for (auto &x : ex.out) ww.insert(canon(x));
            m["ZoneFiles"][0]["FileName"] = api::fileFor(probed); auto o2 = api::runTool(m, api::scratch(), {jj}); c.execs++; set<json> gg; for (auto &x : o2.items) gg.insert(canon(x));
            if (o2.problem.size()) fail(o2.problem); if (gg != ww) { text = probed; fail(diffJson(ww, gg)); }
            c.outcome(json(ttl).dump() + std::to_string(soa), ttl.size()); if (s.size() > 2) c.sample({{"zone file", probed}, {"TTLs", ttl}});
        }
        if ((int)s.size() == len) return; for (int x = 0; x < sym; x++) { s.push_back(x); go(s); s.pop_back(); }
    };
    vector<int> s; go(s);
});

// ---- C06: the lint report ----
struct LintWant { string file; size_t from, to; ref::Adm code; string record; };
static json replaced(const json &j) { return json::parse(j.dump(-1, ' ', false, json::error_handler_t::replace)); }
static string category(const string &v, string &label) { label.clear();
    if (v == "Duplicate Record") return "duplicate"; if (v == "MULTIPLE CNAMEs") return "two cnames"; if (v == "CNAME AND OTHER TYPES") return "cname and data"; if (v == "MULTIPLE DNAMEs") return "two dnames"; if (v == "OUT OF ZONE RECORD") return "out of zone"; if (v == "Domain length exceedes max length (255)") return "long name"; if (v == "Target domain length exceedes max length (255)") return "long target";
    for (auto e : {string(" - length exceedes max length (63)"), string(" - length exceedes 63")}) if (v.size() > e.size() && v.compare(v.size() - e.size(), e.size(), e) == 0) { label = v.substr(0, v.size() - e.size()); return e.size() > 25 ? "long label" : "long target label"; }
    return "? " + v; }
static string categoryOf(const ref::RR &r, ref::Adm a, string &label) { label.clear(); auto longLabel = [&](const ref::Name &n) { for (auto &l : n) if (l.size() > 63) { label = l; return true; } return false; };
    switch (a) { case ref::DUP: return "duplicate"; case ref::TWO_CNAME: return "two cnames"; case ref::TWO_DNAME: return "two dnames"; case ref::CNAME_DATA: return "cname and data"; case ref::OUTSIDE: return "out of zone";
        case ref::LONG_OWNER: return longLabel(r.name) ? "long label" : "long name"; case ref::LONG_TARGET: return longLabel(toName(r.data)) ? "long target label" : "long target"; default: return ""; } }
// files: (server, lines); a line starting with '!' is a piece of text without a record
static void lintCase(Ctx &c, const vector<string> &top, const vector<world::ZoneText> &files, const vector<json> &jobs) {
    json m; m["TopNameServers"] = top; m["ZoneFiles"] = json::array(); json shown = m; json d; std::multiset<json> want; string dir = api::scratch();
    for (size_t i = 0; i < files.size(); i++) {
        string text; size_t line = 0; ref::Zone z; z.ns = files[i].ns; struct Rej { ref::RR r; ref::Adm a; size_t from, to; }; vector<Rej> rej;
        for (auto &l : files[i].lines) {
            string t; bool rec = true;
            if (l[0] == '!') { t = l.substr(1); rec = false; } else if (l[0] == '(') { auto x = world::split(l.substr(1)); t = x.owner + " " + std::to_string(x.ttl) + " IN " + x.type + " (\n" + x.data + "\n)\n"; } else t = world::render({l});
            size_t nl = std::count(t.begin(), t.end(), '\n');
            if (rec) { auto x = world::split(l[0] == '(' ? l.substr(1) : l); ref::RR r{toName(lower(x.owner)), ref::tyOf(x.type), x.ttl, lower(x.data)}; auto a = z.admit(r); if (a != ref::OK) rej.push_back({r, a, line + 1, line + nl}); }
            text += t; line += nl;
        }
        string f = api::fileFor(text); m["ZoneFiles"].push_back({{"FileName", f}, {"NameServer", files[i].ns}}); shown["ZoneFiles"].push_back({{"FileName", "zone" + std::to_string(i) + ".txt"}, {"NameServer", files[i].ns}}); d["files"]["zone" + std::to_string(i) + ".txt"] = text;
        for (auto &x : rej) { string label; string cat = categoryOf(x.r, x.a, label); want.insert(replaced({{"file", i}, {"line", x.to}, {"record", x.r.text()}, {"what", cat}, {"label", label}})); }
        for (auto &r : z.rrs) if (r.type == ref::NS) { auto t = toName(r.data); if (ref::under(z.origin, t) && z.addresses(t).empty()) want.insert(replaced({{"server", z.ns}, {"zone", toText(z.origin)}, {"what", "missing glue"}, {"record", r.text()}})); }
        c.states += z.rrs.size(); c.transitions += files[i].lines.size();
    }
    d["metadata.json"] = shown; d["jobs.json"] = jobs;
    string lint; auto o = api::runLint(m, dir, jobs, lint); auto p = api::runTool(m, dir, jobs); c.execs += 2;
    auto fail = [&](const json &why) { json dd = replaced(d); dd["why"] = replaced(why); dd["lint.json"] = replaced(lint).get<string>(); c.violate(dd); };
    if (o.problem.size()) fail("with lint: " + o.problem); if (p.problem.size()) fail("without lint: " + p.problem);
    if (o.items != p.items) fail({{"the report changes with lint", diffJson(p.items, o.items)}});
    json L; try { L = json::parse(lint); } catch (std::exception &e) { fail(string("lint.json is not valid JSON: ") + e.what()); }
    if (!L.is_array()) fail("lint.json is not a list");
    std::multiset<json> got; map<string, size_t> fileNo; vector<string> paths; for (auto &z : m["ZoneFiles"]) paths.push_back(dir + "/" + z["FileName"].get<string>());
    for (auto &e : L) {
        string v = e.value("Violation", string());
        if (v == "Missing Glue Record") { got.insert(json{{"server", e["Server"]}, {"zone", e["Zone"]}, {"what", "missing glue"}, {"record", e["Resource Record"]}}); continue; }
        string label, cat = category(v, label); long fi = -1; string fn = e.value("File Name", string());
        // the same file may be listed twice: take the first with room
        for (size_t i = 0; i < paths.size(); i++) if (paths[i] == fn) { json k{{"file", i}, {"line", e["Line Number"]}, {"record", e["Current Record"]}, {"what", cat}, {"label", label}}; if (fi < 0) fi = (long)i; if (want.count(k) > got.count(k)) { fi = (long)i; break; } }
        got.insert(json{{"file", fi}, {"line", e["Line Number"]}, {"record", e["Current Record"]}, {"what", cat}, {"label", label}});
    }
    if (got != want) { json mi = json::array(), un = json::array(); for (auto &x : want) if (got.count(x) < want.count(x)) mi.push_back(x); for (auto &x : got) if (want.count(x) < got.count(x)) un.push_back(x); fail({{"missing", mi}, {"unexpected", un}}); }
    c.outcome(json(vector<json>(want.begin(), want.end())).dump(), want.size()); if (want.size() > 1) { json s = replaced(d); s["lint"] = vector<json>(want.begin(), want.end()); c.sample(s); }
}
static Reg c06("C06", [](Ctx &c) {
    string l64(64, 'x'), p62(62, 'p'), q62(62, 'q'), r62(62, 'r'), s62(62, 's'); string n254 = p62 + "." + q62 + "." + r62 + "." + s62 + ".e.";
    vector<string> al{"a.e. A 1.1.1.1", "a.e. CNAME b.e.", "a.e. CNAME c.e.", "a.e. DNAME b.e.", "a.e. DNAME f.", "x.f. A 1.1.1.1", l64 + ".e. A 1.1.1.1", n254 + " A 1.1.1.1", "b.e. NS " + n254, "(a.e. A 1.1.1.1", "!\n; c\n", "a.e. NS ns.a.e.", "a.e. NS ns2.e.", "ns.a.e. A 1.1.1.2", "b.e. CNAME " + l64 + ".f.", "A.e. TXT \"T\xff\"", "e. NS e.", "(x.f. NS x.f.", "ns2.e. AAAA 1::1", "!\t \n$ORIGIN e.\n", "b.e. DNAME " + n254, "b.e. TXT " + l64};
    auto jobs = vector<json>{J(".", fullSet({"b.e."}, {"A", "TXT"})).toJson()};
    int full = c.thorough ? 4 : 3; int n = (int)al.size();
    std::function<void(vector<int> &)> go = [&](vector<int> &s) { if (c.mine()) { vector<string> ls{"e. SOA", "e. NS ns1.x."}; for (int i : s) ls.push_back(al[i]); lintCase(c, {"ns1.x."}, {{"ns1.x.", ls}}, jobs); }
        if ((int)s.size() == full) return; for (int i = 0; i < n; i++) { s.push_back(i); go(s); s.pop_back(); } };
    vector<int> s; go(s);
    // several files: every pair of short record lists, the same file for two servers, and the worlds
    vector<vector<int>> two{{}}; for (int i = 0; i < n; i++) { two.push_back({i}); for (int j : {0, 1, 6, 9, 11, 12}) two.push_back({i, j}); }
    for (auto &a : two) for (auto &b : two) if (c.mine()) { vector<string> x{"e. SOA", "e. NS ns1.x."}, y = x; for (int i : a) x.push_back(al[i]); for (int i : b) y.push_back(al[i]); lintCase(c, {"ns1.x."}, {{"ns1.x.", x}, {"ns2.x.", y}}, {}); }
    for (auto &spec : world::all()) world::enumerate(spec, c.thorough ? 3 : 2, [&](long, auto mk) { if (!c.mine()) return true; Config cfg = mk(); Job job = J(spec.domains[1], {P("Hops", 0), P("StructuralDelegationConsistency")}); if (ref::expect(world::model(cfg), job, c.cap).skipped) { c.skipped++; return true; } lintCase(c, cfg.top, cfg.files, {job.toJson()}); return true; });
    // rejected records far down: n lines of blank lines, comments, records or continued records before and between them; n rejected records
    {   vector<int> ns; for (int i = 0; i <= (c.thorough ? 400 : 70); i++) ns.push_back(i); for (int b : {128, 256, 1024, 4096, 32768, 65536}) for (int d : {-3, -2, -1, 0, 1}) ns.push_back(b + d); if (c.thorough) ns.push_back(70001), ns.push_back(200000);
        auto padding = [](int kind, int n) { vector<string> v; if (kind == 0) v.push_back("!" + string(n, '\n')); if (kind == 1) { string t = "!"; for (int i = 0; i < n; i++) t += i % 2 ? ";c\n" : "   \t\n"; v.push_back(t); } if (kind == 2) for (int i = 0; i < n; i++) v.push_back("h" + std::to_string(i) + ".e. A 1.1.1.1"); if (kind == 3) { string t = "!h.e. 300 IN MX (" + string(n, '\n') + " 10 h.e. )\n"; v.push_back(t); } if (kind == 4) for (int i = 0; i < n; i++) v.push_back("x" + std::to_string(i) + ".f. A 1.1.1.1"); if (kind == 5) for (int i = 0; i < n; i++) v.push_back("b.e. NS ns" + std::to_string(i) + ".e."); return v; };
        for (int n : ns) for (int kind = 0; kind < 6; kind++) { if (kind >= 2 && kind != 3 && n > 1030) continue; if (!c.mine()) continue; vector<string> ls{"e. SOA", "e. NS ns1.x.", "a.e. A 1.1.1.1"}; auto pad = padding(kind, n); ls.insert(ls.end(), pad.begin(), pad.end()); ls.push_back("a.e. A 1.1.1.1"); if (kind != 3) ls.insert(ls.end(), pad.begin(), pad.begin() + std::min<size_t>(pad.size(), 3)); ls.push_back("(x.f. NS x.f."); lintCase(c, {"ns1.x."}, {{"ns1.x.", ls}}, {}); } }
    // n files
    for (int n = 1; n <= (c.thorough ? 40 : 14); n++) for (int kind = 0; kind < 3; kind++) { if (!c.mine()) continue; vector<world::ZoneText> fs; for (int i = 0; i < n; i++) { string o = kind == 0 ? "e." : "z" + std::to_string(i) + "."; vector<string> ls{o + " SOA", o + " NS ns1.x.", "a." + o + " A 1.1.1.1"}; for (int k = 0; k < i % 3; k++) ls.push_back("a." + o + " A 1.1.1.1"); if (kind == 2 || i == n / 2) ls.push_back(o + " NS q." + o); fs.push_back({kind == 1 ? "ns1.x." : "ns" + std::to_string(i + 1) + ".x.", ls}); } lintCase(c, {"ns1.x."}, fs, jobs); }
});
}
