// checks <ID> --tier quick|thorough [--workers n] [--limit s] [--only index]: prints one JSON object with the outcome.
#include "check.hpp"
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>
using namespace chk;
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    Ctx base; base.id = argv[1]; int workers = (int)sysconf(_SC_NPROCESSORS_ONLN); if (workers < 1) workers = 1; 
    for (int i = 2; i + 1 < argc; i += 2) { string a = argv[i], v = argv[i + 1]; if (a == "--tier") base.thorough = v == "thorough"; if (a == "--workers") workers = atoi(v.c_str()); if (a == "--limit") base.limit = atof(v.c_str()); if (a == "--only") base.only = atol(v.c_str()); }
    auto it = registry().find(base.id); if (it == registry().end()) { std::cerr << "unknown check " << base.id << "\n"; return 2; }
    api::scratchInit();
    long *best = (long *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *best = 1l << 60; base.best = best; volatile long *at = best + 16; // at[w] = case worker w is running
    vector<pid_t> pids; 
    if (base.only >= 0) workers = 1;
    base.workers = workers;
    for (int w = 0; w < workers; w++) {
        pid_t p = fork(); if (p < 0) { perror("fork"); return 2; }
        if (!p) {
            Ctx c = base; c.worker = w; c.at = at + w;
            
#ifndef __SANITIZE_ADDRESS__
            rlim_t gb = (rlim_t)1 << 30; struct rlimit rl = {3 * gb, 3 * gb}; setrlimit(RLIMIT_AS, &rl); // a run that wants more ends with bad_alloc, not with the machine
#endif
            try { it->second(c); } catch (Ctx::Done &) {}
            json o; o["cases"] = c.cases; o["execs"] = c.execs; o["states"] = c.states; o["transitions"] = c.transitions; o["skipped"] = c.skipped; o["nontrivial"] = c.nontrivial; o["complete"] = c.complete; o["samples"] = c.samples; o["extra"] = c.extra; o["total"] = c.idx;
            vector<size_t> oc(c.outcomes.begin(), c.outcomes.end()); if (oc.size() > 200000) oc.resize(200000); o["outcomes"] = oc; o["found"] = json::array(); for (auto &v : c.found) o["found"].push_back({{"index", v.index}, {"detail", v.detail}});
            { std::ofstream f(api::scratch() + "/w" + std::to_string(w), std::ios::binary); f << o.dump(-1, ' ', false, json::error_handler_t::replace); }
            if (getenv("CHK_VM")) { std::ifstream st("/proc/self/status"); string l; while (getline(st, l)) if (!l.compare(0, 6, "VmPeak")) std::cerr << base.id + " " + l + "\n"; }
            _exit(0);
        }
        pids.push_back(p);
    }
    json tot; for (auto k : {"cases", "execs", "states", "transitions", "skipped", "nontrivial"}) tot[k] = 0; tot["complete"] = true; tot["samples"] = json::array(); tot["errors"] = json::array(); tot["extra"] = json::object();
    set<size_t> oc; json bestV; 
    for (int w = 0; w < workers; w++) {
        int st; waitpid(pids[w], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            // a crash outside the scheduled part is a crash of the code under test on that case; SIGKILL (memory) is not an answer
            if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGTERM && WTERMSIG(st) != SIGINT) { long i = at[w]; if (bestV.is_null() || i < bestV["index"].get<long>()) bestV = {{"index", i}, {"detail", {{"why", "crash: " + string(strsignal(WTERMSIG(st))) + " while running case " + std::to_string(i)}}}}; }
            else tot["errors"].push_back("worker " + std::to_string(w) + " ended with status " + std::to_string(st));
            continue; }
        std::ifstream f(api::scratch() + "/w" + std::to_string(w)); json o = json::parse(f);
        for (auto k : {"cases", "execs", "states", "transitions", "skipped", "nontrivial"}) tot[k] = tot[k].get<long>() + o[k].get<long>();
        if (!o["complete"].get<bool>()) tot["complete"] = false;
        for (auto &s : o["samples"]) if (tot["samples"].size() < 3) tot["samples"].push_back(s);
        for (auto &[k, v] : o["extra"].items()) { if (v.is_number()) tot["extra"][k] = tot["extra"].value(k, 0l) + v.get<long>(); else tot["extra"][k] = v; }
        for (auto &x : o["outcomes"]) oc.insert(x.get<size_t>());
        for (auto &v : o["found"]) if (bestV.is_null() || v["index"] < bestV["index"]) bestV = v;
    }
    tot["distinct_outcomes"] = oc.size(); tot["violation"] = bestV;
    std::cout << tot.dump(1) << std::endl;
    return 0;
}
