#include "world.hpp"
namespace world {
static vector<Spec> make() {
    vector<Spec> v;
    { Spec s; s.name = "single"; s.top = {"ns1.e."}; s.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}};
      for (auto l : {"ns1.e. A 1.1.1.9", "a.e. A 1.1.1.1", "b.e. A 1.1.1.2", "a.e. CNAME b.e.", "*.e. A 1.1.1.3", "a.e. A 1.1.1.2", "a.e. TXT t", "b.e. CNAME a.e.", "b.e. CNAME d.e.", "*.e. CNAME a.e.",
            "b.a.e. A 1.1.1.4", "*.a.e. CNAME b.e.", "*.a.e. TXT t", "a.e. NS ns1.a.e.", "ns1.a.e. A 1.1.1.5", "a.e. DNAME b.e.", "b.e. DNAME a.e.", "c.b.e. A 1.1.1.6", "c.b.e. CNAME x.f.", "e. A 1.1.1.7",
            "e. DNAME f.", "*.b.e. 0 A 1.1.1.8", "a.e. 0 A 1.1.1.3", "*.e. MX 10 a.e.", "*.e. DNAME b.e.", "b.a.e. CNAME c.b.e.", "a.e. MX 10 b.e.", "b.e. DNAME f.", "x.*.e. A 1.1.1.2", "*.*.a.e. TXT t"}) s.items.push_back({0, l});
      s.domains = {".", "e.", "a.e.", "b.a.e.", "z.e.", "c.a.e."}; s.kq = 3; s.kt = 4; s.values = {"1.1.1.1", "1.1.1.2", "t"}; s.hosts = {"e.", "a.e.", "f.", "b.e."}; v.push_back(s); }
    { Spec s; s.name = "cut"; s.top = {"ns1.e."};
      s.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e.", "ns1.e. A 9.9.9.9", "a.e. NS ns1.a.e."}}, {"ns1.a.e.", {"a.e. SOA", "a.e. NS ns1.a.e."}}, {"ns2.e.", {"a.e. SOA", "a.e. NS ns1.a.e."}, true}, {"ns.x.", {"a.e. SOA", "a.e. NS ns.x."}, true}};
      auto I = [&](int f, const char *l, bool on = false) { s.items.push_back({f, l, on}); };
      I(0, "ns1.a.e. A 1.1.1.1", true); I(1, "ns1.a.e. A 1.1.1.1", true); I(1, "c.a.e. A 5.5.5.5", true);
      I(2, ""); I(3, ""); I(0, "a.e. NS ns2.e."); I(0, "ns2.e. A 3.3.3.3"); I(0, "ns2.e. AAAA 3::3"); I(1, "a.e. NS ns2.e."); I(0, "ns1.a.e. A 1.1.1.2"); I(1, "ns1.a.e. A 1.1.1.2"); I(0, "a.e. NS ns.x."); I(1, "a.e. NS ns.x."); I(2, "a.e. NS ns2.e.");
      I(2, "ns1.a.e. A 1.1.1.1"); I(2, "c.a.e. A 5.5.5.5"); I(0, "ns1.a.e. AAAA 1::1"); I(0, "b.e. CNAME c.a.e."); I(1, "c.a.e. CNAME b.e."); I(1, "*.a.e. A 6.6.6.6"); I(1, "a.e. A 7.7.7.7"); I(1, "d.a.e. DNAME e."); I(0, "d.e. DNAME a.e.");
      I(0, "c.a.e. A 8.8.8.8"); I(1, "b.a.e. NS ns.b.a.e."); I(0, "*.e. CNAME a.e."); I(2, "c.a.e. CNAME d.e."); I(0, "a.e. NS a.e."); I(1, "a.e. NS a.e.");
      s.domains = {".", "a.e.", "e.", "c.a.e.", "q.a.e."}; s.kq = 3; s.kt = 4; s.values = {"5.5.5.5", "6.6.6.6"}; s.hosts = {"e.", "a.e.", "x."}; v.push_back(s); }
    { Spec s; s.name = "copies"; s.top = {"ns1.e.", "ns2.e."};
      s.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e.", "e. NS ns2.e."}}, {"ns2.e.", {"e. SOA", "e. NS ns1.e.", "e. NS ns2.e."}}};
      for (int f : {0, 1}) for (auto l : {"a.e. A 1.1.1.1", "a.e. A 1.1.1.2", "a.e. CNAME b.e.", "b.e. A 1.1.1.1", "b.e. A 1.1.1.2", "b.e. CNAME c.e.", "a.e. DNAME b.e.", "*.e. A 1.1.1.3", "b.e. TXT t", "a.e. 0 A 1.1.1.1", "a.e. NS ns3.e.", "c.b.e. A 1.1.1.4", "a.e. MX 10 b.e."}) s.items.push_back({f, l});
      s.items.push_back({1, "a.e. DNAME c.e."});
      s.domains = {".", "a.e.", "e."}; s.kq = 3; s.kt = 4; s.values = {"1.1.1.1", "1.1.1.2"}; s.hosts = {"e.", "ns1.e.", "b.e."}; v.push_back(s); }
    { Spec s; s.name = "nested"; s.top = {"ns1.e."};
      s.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}, {"ns1.e.", {"a.e. SOA", "a.e. NS ns2.e."}, true}, {"ns2.e.", {"a.e. SOA", "a.e. NS ns2.e."}}, {"ns2.e.", {"b.a.e. SOA", "b.a.e. NS ns2.e."}, true}, {"ns3.e.", {"b.a.e. SOA", "b.a.e. NS ns3.e."}}, {"ns1.e.", {"f. SOA", "f. NS ns1.e."}, true}, {"u.", {"u. SOA", "u. NS u."}}};
      auto I = [&](int f, const char *l, bool on = false) { s.items.push_back({f, l, on}); };
      I(0, "a.e. NS ns2.e.", true); I(0, "ns2.e. A 2.2.2.2", true); I(2, "b.a.e. NS ns3.e.", true); I(0, "ns3.e. A 3.3.3.3", true); I(4, "c.b.a.e. A 4.4.4.4", true);
      I(1, ""); I(3, ""); I(5, ""); I(2, "b.a.e. NS ns2.e."); I(0, "b.a.e. NS ns3.e."); I(1, "b.a.e. NS ns3.e."); I(4, "b.a.e. NS ns2.e."); I(4, "c.b.a.e. CNAME d.e."); I(0, "d.e. A 5.5.5.5"); I(0, "d.e. CNAME c.b.a.e."); I(2, "g.a.e. DNAME b.a.e.");
      I(2, "*.a.e. CNAME c.b.a.e."); I(0, "d.e. DNAME f."); I(5, "c.f. A 6.6.6.6"); I(5, "c.f. CNAME c.b.a.e."); I(3, "c.b.a.e. A 4.4.4.5"); I(4, "b.a.e. A 7.7.7.7"); I(1, "c.b.a.e. TXT t"); I(0, "a.e. NS ns3.e."); I(4, "*.b.a.e. DNAME e."); I(2, "b.a.e. NS u."); I(4, "c.b.a.e. NS u."); I(4, "b.a.e. NS u.");
      s.domains = {".", "a.e.", "b.a.e.", "f."}; s.kq = 3; s.kt = 4; s.values = {"4.4.4.4", "4.4.4.5"}; s.hosts = {"e.", "a.e.", "f.", "ns2.e."}; v.push_back(s); }
    { Spec s; s.name = "sidequery"; s.top = {"t.", "u."};
      s.files = {{"t.", {"e. SOA", "e. NS t."}}, {"t.", {"f. SOA", "f. NS t."}}, {"u.", {"f. SOA", "f. NS u."}, true}, {"ns.f.", {"a.e. SOA", "a.e. NS ns.f."}}, {"ns.a.e.", {"b.f. SOA", "b.f. NS ns.a.e."}}};
      auto I = [&](int f, const char *l, bool on = false) { s.items.push_back({f, l, on}); };
      I(0, "a.e. NS ns.f.", true); I(1, "ns.f. A 1.1.1.1", true); I(1, "b.f. NS ns.a.e.", true); I(3, "ns.a.e. A 2.2.2.2", true);
      I(2, ""); I(0, "a.e. NS ns.b.f."); I(1, "b.f. NS ns.b.f."); I(0, "a.e. NS ns.a.e."); I(0, "ns.a.e. A 2.2.2.2"); I(1, "ns.f. CNAME ns.a.e."); I(1, "ns.f. CNAME h.e."); I(0, "h.e. A 3.3.3.3"); I(0, "h.e. CNAME ns.f."); I(3, "c.a.e. CNAME c.b.f."); I(4, "c.b.f. CNAME c.a.e.");
      I(4, "c.b.f. A 4.4.4.4"); I(3, "ns.a.e. CNAME ns.f."); I(0, "a.e. NS u."); I(1, "g.f. DNAME a.e."); I(0, "g.e. DNAME g.f."); I(4, "ns.b.f. A 5.5.5.5"); I(2, "ns.f. A 1.1.1.1"); I(3, "d.a.e. DNAME e."); I(0, "h.e. NS ns.h.e."); I(2, "b.f. NS u.");
      s.domains = {".", "e.", "a.e.", "b.f."}; s.kq = 3; s.kt = 4; s.values = {"1.1.1.1", "4.4.4.4"}; s.hosts = {"e.", "f.", "t.", "ns.f."}; v.push_back(s); }
    { Spec s; s.name = "chains"; s.top = {"ns1.e."}; s.files = {{"ns1.e.", {"e. SOA", "e. NS ns1.e."}}, {"ns1.e.", {"f. SOA", "f. NS ns1.e."}, true}, {"ns2.e.", {"f. SOA", "f. NS ns2.e."}, true}};
      auto I = [&](int f, const char *l, bool on = false) { s.items.push_back({f, l, on}); };
      I(0, "b.e. DNAME c.e.", true); I(0, "s.c.e. A 1.1.1.1", true); I(1, ""); I(2, "");
      for (auto l : {"p.q.c.e. CNAME r.b.e.", "r.c.e. CNAME s.b.e.", "s.c.e. CNAME r.b.e.", "c.e. DNAME d.e.", "d.e. DNAME b.e.", "s.d.e. A 1.1.1.2", "s.d.e. CNAME t.b.e.", "*.c.e. CNAME s.b.e.", "r.c.e. CNAME q.r.b.e.", "q.r.c.e. CNAME s.b.e.", "a.e. CNAME p.q.b.e.", "a.e. CNAME s.b.e.", "g.e. CNAME a.e.", "t.c.e. CNAME b.f.", "t.c.e. A 1.1.1.2", "f. NS ns2.e."}) I(0, l);
      I(1, "b.f. CNAME r.b.e."); I(1, "b.f. DNAME b.e."); I(2, "b.f. CNAME a.e."); I(2, "b.f. A 1.1.1.1"); I(0, "s.b.f. A 1.1.1.1"); I(0, "d.e. DNAME c.c.e."); I(0, "x.s.b.e. A 1.1.1.3");
      s.domains = {".", "b.e.", "c.e.", "a.e."}; s.kq = 3; s.kt = 4; s.values = {"1.1.1.1", "1.1.1.2"}; s.hosts = {"s.c.e.", "s.b.e.", "e.", "c.e."}; v.push_back(s); }
    { Spec s; s.name = "tops"; s.top = {"t.", "u."}; s.files = {{"t.", {". SOA", ". NS t.", "t. A 1.1.1.1"}}, {"u.", {". SOA", ". NS u.", "u. A 2.2.2.2"}}, {"ns.b.", {"a. SOA", "a. NS ns.b."}, true}, {"ns.a.", {"b. SOA", "b. NS ns.a."}, true}};
      for (int f : {0, 1}) { for (auto l : {"a. NS ns.b.", "b. NS ns.a."}) s.items.push_back({f, l, true}); for (auto l : {"ns.b. A 3.3.3.3", "ns.a. A 4.4.4.4"}) s.items.push_back({f, l, f == 0});
        for (auto l : {"a. NS ns.a.", "b. NS u.", "c. CNAME x.a.", "c. CNAME x.b.", "*. CNAME x.a."}) s.items.push_back({f, l, false}); }
      auto I = [&](int f, const char *l, bool on = false) { s.items.push_back({f, l, on}); };
      I(2, ""); I(3, ""); I(2, "x.a. A 5.5.5.5"); I(3, "x.b. CNAME x.a."); I(2, "x.a. CNAME x.b."); I(2, "ns.a. A 4.4.4.4"); I(0, "d. DNAME a.");
      s.domains = {".", "a.", "b.", "c."}; s.kq = 3; s.kt = 4; s.values = {"5.5.5.5", "3.3.3.3"}; s.hosts = {"a.", "b.", "t.", "x.a."}; v.push_back(s); }
    { Spec s; s.name = "three"; s.top = {"ns1.e.", "ns2.e.", "ns3.e."}; for (string ns : {"ns1.e.", "ns2.e.", "ns3.e."}) s.files.push_back({ns, {"e. SOA", "e. NS ns1.e.", "e. NS ns2.e.", "e. NS ns3.e."}});
      s.files.push_back({"ns1.e.", {"a.e. SOA", "a.e. NS ns1.e."}}); s.files.push_back({"ns2.e.", {"a.e. SOA", "a.e. NS ns2.e."}, true}); s.files.push_back({"ns3.e.", {"a.e. SOA", "a.e. NS ns3.e."}, true});
      auto I = [&](int f, const char *l, bool on = false) { s.items.push_back({f, l, on}); };
      for (int f : {0, 1, 2}) { I(f, "a.e. NS ns1.e.", true); I(f, "a.e. NS ns2.e.", f == 2); I(f, "*.e. TXT t"); I(f, "b.c.e. A 1.1.1.1", f < 2); }
      I(4, ""); I(5, ""); I(3, "b.a.e. A 5.5.5.5", true); I(4, "b.a.e. A 5.5.5.5"); I(3, "b.a.e. AAAA 5::5"); I(5, "b.a.e. CNAME d.c.e."); I(3, "a.e. DNAME c.e."); I(3, "a.e. TXT t"); I(4, "*.a.e. CNAME b.c.e."); I(3, "d.b.a.e. NS ns3.e."); I(0, "*.c.e. CNAME b.a.e."); I(1, "*.c.e. NS ns3.e."); I(2, "c.e. MX 10 b.a.e.");
      s.domains = {".", "a.e.", "b.a.e.", "c.e."}; s.kq = 3; s.kt = 4; s.values = {"1.1.1.1", "5.5.5.5"}; s.hosts = {"e.", "a.e.", "b.a.e.", "ns3.e."}; v.push_back(s); }
    return v;
}
const vector<Spec> &all() { static vector<Spec> v = make(); return v; }
}
