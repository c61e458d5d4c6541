// The driver interface of api.hpp, implemented by running the real program (its threads, its queues, its files).
#include "prog.hpp"
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unordered_map>
#include <unistd.h>
namespace prog {
string dir() { static pid_t p = 0; static string d; if (p != getpid()) { p = getpid(); d = api::scratch() + "/p" + std::to_string(p) + "/"; mkdir(d.c_str(), 0700); } return d; }
void put(const string &path, const string &text) { std::ofstream o(path, std::ios::binary | std::ios::trunc); o << text; }
string get(const string &path) { std::ifstream i(path, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
bool exists(const string &path) { struct stat s; return !lstat(path.c_str(), &s); }
void del(const string &path) { if (path.compare(0, dir().size(), dir()) == 0 || path.compare(0, api::scratch().size() + 1, api::scratch() + "/") == 0) if (unlink(path.c_str())) rmdir(path.c_str()); }
Run run(const vector<string> &args, const string &outFile, const std::map<string, string> &env, bool keep) {
    static const char *bin = getenv("GROOT_BIN"); Run r; string con = dir() + "console"; if (!keep) del(outFile); fflush(stdout);
    string cwd = dir() + "cwd"; mkdir(cwd.c_str(), 0700);
    pid_t p = fork();
    if (!p) {
        alarm(120); int f = open(con.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(f, 1); dup2(f, 2); int z = open("/dev/null", O_RDONLY); dup2(z, 0); if (chdir(cwd.c_str())) _exit(127);
        vector<char *> a{(char *)"groot"}; for (auto &x : args) a.push_back((char *)x.c_str()); a.push_back(nullptr); for (auto &[k, v] : env) setenv(k.c_str(), v.c_str(), 1);
        execv(bin, a.data()); _exit(127);
    }
    int st; waitpid(p, &st, 0); r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); r.console = get(con);
    struct stat s; if (!stat(outFile.c_str(), &s) && S_ISREG(s.st_mode)) { r.have = true; r.out = get(outFile); } return r; }
}
namespace api {
static string dir_; static pid_t owner_;
void scratchInit() { char t1[] = "/dev/shm/grootprgXXXXXX", t2[] = "/tmp/grootprgXXXXXX"; const char *p = mkdtemp(t1); if (!p) p = mkdtemp(t2); if (!p) { perror("mkdtemp"); exit(3); } dir_ = p; owner_ = getpid();
    atexit([] { if (getpid() == owner_ && dir_.size() > 12) { string c = "find '" + dir_ + "' -depth -delete"; int r = system(c.c_str()); (void)r; } }); }
const string &scratch() { return dir_; }
string fileFor(const string &text) {
    static std::unordered_map<string, string> m; auto it = m.find(text); if (it != m.end()) return it->second;
    string n = "z" + std::to_string(getpid()) + "_" + std::to_string(m.size()); prog::put(dir_ + "/" + n, text); m[text] = n; return n; }
Out runTool(const json &metadata, const string &dir, const vector<json> &jobs, bool lint, const string &) {
    Out o; string d = prog::dir(); json m = metadata; for (auto &z : m["ZoneFiles"]) z["FileName"] = "../" + z["FileName"].get<string>(); // the private directory is below the scratch directory
    prog::put(d + "metadata.json", m.dump()); vector<string> a{d};
    if (jobs.size() != 1 || !jobs[0].is_null()) { prog::put(d + "jobs.json", json(jobs).dump()); a.push_back("--jobs=" + d + "jobs.json"); } if (lint) a.push_back("--lint");
    a.push_back("--output=" + d + "out.json"); 
    static bool older; if ((older = !older)) prog::put(d + "out.json", "[{\"Property\": \"left by an earlier run\"}]" + string(1 << 16, ' ')); // every second run finds an older, longer report
    auto r = prog::run(a, d + "out.json", {}, older);
    if (!r.ok()) { o.problem = "exit status " + std::to_string(r.status) + ": " + r.console.substr(0, 500); return o; }
    if (!r.have) { o.problem = "no output"; return o; }
    o.raw = r.out; try { json j = json::parse(r.out); if (!j.is_array()) { o.problem = "the output is not a list"; return o; } for (auto &x : j) { o.list.push_back(x); o.items.insert(x); } } catch (std::exception &e) { o.problem = string("the output is not valid JSON: ") + e.what(); }
    return o; }
}
