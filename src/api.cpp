#include "api.hpp"
#include "driver.h"
#include "rt.hpp"
#include <fstream>
#include <unordered_map>
#include <sstream>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
namespace api {
static string dir_; static pid_t owner_;
void scratchInit() { char t1[] = "/dev/shm/grootchkXXXXXX", t2[] = "/tmp/grootchkXXXXXX"; const char *p = mkdtemp(t1); if (!p) p = mkdtemp(t2); if (!p) { perror("mkdtemp"); exit(3); } dir_ = p; owner_ = getpid();
    atexit([] { if (getpid() == owner_ && dir_.size() > 12) { string c = "find '" + dir_ + "' -depth -delete"; int r = system(c.c_str()); (void)r; } }); }
const string &scratch() { return dir_; }
string fileFor(const string &text) {
    static std::unordered_map<string, string> m; auto it = m.find(text); if (it != m.end()) return it->second;
    string n = "z" + std::to_string(getpid()) + "_" + std::to_string(m.size()); std::ofstream o(dir_ + "/" + n, std::ios::binary); o << text; o.close();
    if (m.size() < 200000) m[text] = n; return n; }
Out runTool(const json &metadata, const string &dir, const vector<json> &jobs, bool lint, const string &) {
    Out o; string f = dir_ + "/out" + std::to_string(getpid());
    unlink(f.c_str());
    struct itimerval tv = {{0, 0}, {20, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    try {
        o.problem = rt::run([&] {
            Driver d; d.SetContext(metadata, dir, lint);
            for (auto &j : jobs) { if (j.is_null()) { string s = "."; d.SetJob(s); } else d.SetJob(j); d.GenerateECsAndCheckProperties(); o.ecs.push_back(d.GetECCountForCurrentJob()); }
            d.WriteViolationsToFile(f);
        });
        if (o.problem.empty()) {
            std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); json j = json::parse(ss.str());
            for (auto &x : j) { o.list.push_back(x); o.items.insert(x); }
        }
    } catch (std::exception &e) { o.problem = string("exception: ") + e.what(); }
    tv = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    return o; }
Out runLint(const json &metadata, const string &dir, const vector<json> &jobs, string &lintText) {
    string d = dir_ + "/cwd" + std::to_string(getpid()); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) { Out o; o.problem = "cannot enter " + d; return o; }
    { std::ofstream f("lint.json"); f << "[\n"; }
    Out o = runTool(metadata, dir, jobs, true);
    { std::ofstream f("lint.json", std::ios::app); f << "\n]"; }
    std::ifstream i("lint.json", std::ios::binary); std::stringstream ss; ss << i.rdbuf(); lintText = ss.str(); unlink("lint.json"); if (chdir("/")) {} return o; }
}
