// Bounded families of zone configurations ("worlds") and their exhaustive enumeration.
#pragma once
#include "ref.hpp"
#include <string>
#include <vector>
namespace world {
using std::string; using std::vector;
struct File { string ns; vector<string> base; bool optional = false; };
struct Item { int file; string line; bool on = false; };   // line "" toggles the presence of the whole (optional) file
struct Spec { string name; vector<string> top; vector<File> files; vector<Item> items; vector<string> domains; int kq = 3, kt = 4; vector<string> values, hosts; };
struct ZoneText { string ns; vector<string> lines; };
struct Config { vector<string> top; vector<ZoneText> files; };
const vector<Spec> &all();
// calls f(index, make) for every choice of at most k deviations; make() builds the configuration; f returns false to stop.
template <class F> void enumerate(const Spec &s, int k, F f) {
    int n = (int)s.items.size(); long idx = 0; vector<int> pick;
    for (int size = 0; size <= k && size <= n; size++) {
        pick.resize(size); for (int i = 0; i < size; i++) pick[i] = i;
        while (true) {
            {
                auto mk = [&]() -> Config {
                Config c; c.top = s.top; vector<char> dev(n, 0); for (int p : pick) dev[p] = 1;
                vector<char> present(s.files.size(), 1); for (size_t i = 0; i < s.files.size(); i++) if (s.files[i].optional) present[i] = 0;
                vector<vector<string>> ls; for (auto &fl : s.files) ls.push_back(fl.base);
                for (int i = 0; i < n; i++) { bool on = s.items[i].on != (bool)dev[i]; if (!on) continue; if (s.items[i].line.empty()) present[s.items[i].file] = !present[s.items[i].file]; else ls[s.items[i].file].push_back(s.items[i].line); }
                for (size_t i = 0; i < ls.size(); i++) if (present[i]) c.files.push_back({s.files[i].ns, ls[i]});
                return c; };
                if (!f(idx, mk)) return;
            }
            idx++;
            int i = size - 1; while (i >= 0 && pick[i] == n - size + i) i--; if (i < 0) break;
            pick[i]++; for (int j = i + 1; j < size; j++) pick[j] = pick[j - 1] + 1;
        }
    }
}
inline long count(int n, int k) { long t = 0, c = 1; for (int i = 0; i <= k && i <= n; i++) { t += c; c = c * (n - i) / (i + 1); } return t; }
// "owner [ttl] type data"
struct Line { string owner, type, data; uint32_t ttl; };
inline Line split(const string &l) { Line r; size_t a = l.find(' '); r.owner = l.substr(0, a); size_t b = l.find(' ', a + 1); string t = l.substr(a + 1, b == string::npos ? string::npos : b - a - 1);
    r.ttl = 300; if (isdigit(t[0])) { r.ttl = strtoul(t.c_str(), 0, 10); a = b; b = l.find(' ', a + 1); t = l.substr(a + 1, b == string::npos ? string::npos : b - a - 1); }
    r.type = t; r.data = b == string::npos ? "" : l.substr(b + 1); if (t == "SOA" && r.data.empty()) r.data = "m. h. 1 1 1 1 1"; return r; }
inline string render(const vector<string> &lines) { string s; for (auto &l : lines) { auto x = split(l); s += x.owner + " " + std::to_string(x.ttl) + " IN " + x.type + " " + x.data + "\n"; } return s; }
inline ref::World model(const Config &c) { ref::World w; w.top = c.top; for (auto &f : c.files) { ref::Zone z; z.ns = f.ns; for (auto &l : f.lines) { auto x = split(l); z.admit({ref::toName(ref::lower(x.owner)), ref::tyOf(x.type), x.ttl, ref::lower(x.data)}); } w.zones.push_back(z); } return w; }
}
