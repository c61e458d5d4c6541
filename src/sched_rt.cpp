#include "sched_rt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); extern char __libc_single_threaded; }
namespace srt {
bool detect = false;
static const int MAXT = 48; typedef uint32_t Clk;
struct VC { Clk c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC &o, int n) { for (int i = 0; i < n; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Obs { const void *a; long v; bool operator==(const Obs &o) const { return a == o.a && v == o.v; } };
struct Fiber { void *sp = nullptr; char *stack = nullptr; void *(*fn)(void *) = nullptr; void *arg = nullptr, *ret = nullptr; bool done = false; int join = -1; const void *wait = nullptr; const void *lock = nullptr;
    bool polling = false; std::vector<Obs> cyc, prev; void *eh[2] = {0, 0}; VC vc, rel, acq; };
static std::vector<Fiber *> F; static int cur = -1; static bool active = false; static int inrt = 0; static std::string stuck, race; static void *abortSp = nullptr;
static std::vector<char *> pool; static const size_t SZ = 1 << 20;
static int base = 0; static const std::vector<Dev> *devs = nullptr; static size_t nextDev = 0; static std::vector<unsigned char> alts; static long steps = 0, streak = 0, rounds = 0; static bool grew = false, eventual = false, late = false;
static std::vector<std::string> log_;
struct In { In() { inrt++; } ~In() { inrt--; } };
extern "C" void srt_switch(void **save, void *load);
asm(".text\n.globl srt_switch\nsrt_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
// ---- per object state ----
static std::unordered_map<const void *, long> ver; static std::unordered_map<const void *, VC> sync_; static std::unordered_map<long, VC> items; static std::map<const void *, int> own, depth; static std::map<const void *, int> readers;
static std::unordered_set<const void *> written; static std::unordered_set<const void *> sharedPc; static std::unordered_map<const void *, std::vector<const void *>> pcsOf;
static long stampNo = 0;
static int nt() { return (int)F.size(); }
static VC &me() { return F[cur]->vc; }
static void tick() { F[cur]->vc.c[cur]++; }
// ---- scheduling ----
static void fail(const std::string &why) { stuck = why; inrt = 0; cur = 0; active = false; void *dummy; srt_switch(&dummy, abortSp); abort(); }
static void go(int k) { if (k == cur) return; int o = cur; cur = k; streak = 0; void **g = (void **)abi::__cxa_get_globals(); memcpy(F[o]->eh, g, 16); memcpy(g, F[k]->eh, 16); int save = inrt; inrt = 0; srt_switch(&F[o]->sp, F[k]->sp); inrt = save; }
static bool changed(Fiber *f) { for (auto &o : f->cyc) if (ver[o.a] != o.v) return true; return false; }
static bool lockFree(Fiber *f, int i) { if (!f->lock) return true; auto it = depth.find(f->lock); return it == depth.end() || !it->second || own[f->lock] == i; }
static bool runnable(int i) { Fiber *f = F[i]; if (f->done || f->wait) return false; if (f->join >= 0 && !F[f->join]->done) return false; if (!lockFree(f, i)) return false; if (f->polling && !changed(f)) return false; return true; }
static int after(int from, int d) { int n = nt(); return base == 1 ? ((from - d) % n + n) % n : (from + d) % n; }
// one decision: list of threads that can go on, the default first
static int decide(bool selfOk, int prefer = -1) {
    if (++steps > 60000) fail("livelock: no end after 60000 synchronisation operations");
    int list[MAXT], n = 0; int c = nt();
    bool stay = selfOk && streak < 300; if (prefer >= 0) list[n++] = prefer; if (stay) { list[n++] = cur; streak++; }
    for (int d = 1; d <= c; d++) { int k = after(cur, d); if (k == prefer || (k == cur && stay)) continue; if (runnable(k)) list[n++] = k; }
    if (base == 8 || base == 9) std::sort(list + (prefer >= 0), list + n, [](int a, int b) { return base == 8 ? a < b : a > b; });
    else if (base >= 3) for (int i = 0; i + 1 < n; i++) if (list[i] == base - 2) std::swap(list[i], list[i + 1]);
    if (!n) { // everybody polls unchanged state: let all pollers look again, a few times
        bool any = false; for (auto f : F) if (f->polling && !f->done) any = true;
        if (any && rounds++ < 4) { eventual = true; for (auto f : F) { f->polling = false; f->prev.clear(); f->cyc.clear(); } for (int d = 1; d <= c; d++) { int k = after(cur, d); if (runnable(k)) list[n++] = k; } }
        if (!n) { std::string s = any ? "livelock: threads poll forever, nothing changes (" : "deadlock: no thread can run ("; for (int i = 0; i < c; i++) if (!F[i]->done) s += " thread" + std::to_string(i) + (F[i]->join >= 0 ? " joins thread" + std::to_string(F[i]->join) : F[i]->wait ? " waits" : F[i]->lock ? " locks" : " polls"); fail(s + " )"); } }
    int pick = 0; int p = (int)alts.size(); alts.push_back(n - 1);
    if (nextDev < devs->size() && (*devs)[nextDev].point == p) { pick = (*devs)[nextDev].choice; nextDev++; if (pick >= n) pick = 0; log_.push_back("decision " + std::to_string(p) + ": thread" + std::to_string(cur) + " -> thread" + std::to_string(list[pick])); }
    F[list[pick]]->polling = false;
    return list[pick]; }
static void point() { if (inrt > 0) return; In g; go(decide(true)); }
static void bump(const void *a) { ver[a]++; rounds = 0; eventual = false; Fiber *f = F[cur]; f->cyc.clear(); f->prev.clear(); }
static void observe(const void *a) { F[cur]->cyc.push_back({a, ver[a]}); }
// a look at shared state that found nothing to do: the thread gives way, and after two identical rounds sleeps until one of the things it looked at changes
static void pollFailed() { In g; Fiber *f = F[cur]; if (f->cyc.size() && f->cyc == f->prev && !changed(f)) f->polling = true; else { f->prev = f->cyc; f->cyc.clear(); } go(decide(false)); f->polling = false; f->cyc.clear(); }
static void block() { In g; go(decide(false)); }
static void entry() { Fiber *f = F[cur]; f->ret = f->fn(f->arg); { In g; f = F[cur]; f->done = true; ver[f]++; rounds = 0; go(decide(false)); } abort(); }
static const std::function<void()> *theBody; static std::string bodyEx;
static char *getStack() { if (pool.size()) { char *s = pool.back(); pool.pop_back(); return s; } void *m = mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) abort(); return (char *)m; }
static Fiber *mk() { Fiber *f = new Fiber; f->stack = getStack(); return f; }
static void prime(Fiber *f, void (*e)()) { uintptr_t top = ((uintptr_t)f->stack + SZ) & ~15ull; void **s = (void **)top; *--s = nullptr; *--s = (void *)e; for (int i = 0; i < 6; i++) *--s = nullptr; f->sp = s; }
static void bodyEntry() { try { (*theBody)(); } catch (std::exception &e) { bodyEx = e.what(); } catch (...) { bodyEx = "exception"; } In g; F[0]->done = true; bool left = false; for (auto f : F) if (!f->done) left = true; if (left) fail("threads still running after the job returned"); active = false; void *d; srt_switch(&d, abortSp); abort(); }
static void onSignal(int sig) { if (!active) { signal(sig, SIG_DFL); raise(sig); return; } fail(sig == SIGVTALRM ? "no termination within the CPU time limit" : std::string("crash: ") + strsignal(sig)); }
static void handlers() { static bool done = false; if (done) return; done = true; stack_t ss; ss.ss_sp = mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onSignal; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &a, nullptr); } }
// ---- shadow memory ----
struct Cell { Clk clk; uint8_t tid, mask, kind; const void *pc; };   // kind: 0 empty 1 read 2 write (+4 atomic)
struct Page { uint32_t gen = 0; Cell g[512][8]; };
static std::unordered_map<uintptr_t, Page *> pages; static uint32_t gen = 0; static struct { uintptr_t k; Page *p; } cache[4096];
static Page *page(uintptr_t a, bool make) { uintptr_t k = a >> 12; auto &c = cache[k & 4095]; Page *p = nullptr; if (c.k == k && c.p) p = c.p; else { auto it = pages.find(k); if (it != pages.end()) p = it->second; else { if (!make) return nullptr; p = (Page *)mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pages[k] = p; } c.k = k; c.p = p; }
    if (p->gen != gen) { if (!make) return nullptr; memset((void *)p, 0, sizeof(Page)); p->gen = gen; } return p; }
static std::string where(const void *pc) { Dl_info i; std::string s = "?"; if (getenv("SRT_DEBUG")) { dladdr(pc, &i); char b[64]; snprintf(b, sizeof b, "%s+%lx", i.dli_fname, (long)pc - (long)i.dli_fbase); return b; } if (dladdr(pc, &i) && i.dli_sname) { int st; char *d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); s = d ? d : i.dli_sname; if (s.size() > 220) s.resize(220); } return s; }
static void report(int tid, const void *pcA, int kindA, const void *pcB, int kindB, uintptr_t a) { if (race.size()) return; auto k = [](int x) { return std::string(x & 4 ? "atomic " : "") + ((x & 3) == 2 ? "write" : "read"); };
    race = "data race on " + std::to_string(a & 0xfff) + ": " + k(kindB) + " by thread" + std::to_string(cur) + " in " + where(pcB) + " against " + k(kindA) + " by thread" + std::to_string(tid) + " in " + where(pcA); }
static void access(uintptr_t a, size_t n, int kind, const void *pc) {
    if (!active || inrt > 0 || !detect || race.size()) return; In g;
    VC &v = me(); Clk now = v.c[cur];
    while (n) { uintptr_t gr = a & ~7ull; size_t off = a - gr, len = std::min<size_t>(8 - off, n); uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
        Cell *c = page(a, true)->g[(a >> 3) & 511]; int slot = -1, empty = -1, old = -1; bool fast = false;
        for (int i = 0; i < 8; i++) { Cell &x = c[i]; if (!x.kind) { if (empty < 0) empty = i; break; }
            if (x.tid == cur) { if (x.clk == now && (x.kind == kind || x.kind == 2) && (x.mask & mask) == mask) { fast = true; break; } if (x.kind == kind && (x.mask & ~mask) == 0) slot = i; continue; }
            if ((x.mask & mask) && ((x.kind | kind) & 2) && !((x.kind & 4) && (kind & 4)) && x.clk > v.c[x.tid]) { report(x.tid, x.pc, x.kind, pc, kind, a); return; }
            if (x.clk <= v.c[x.tid] && (x.mask & ~mask) == 0 && ((kind & 3) == 2 || (x.kind & 3) == 1)) old = i; }
        if (!fast) { int i = slot >= 0 ? slot : empty >= 0 ? empty : old >= 0 ? old : (int)(now & 7); c[i] = {now, (uint8_t)cur, mask, (uint8_t)kind, pc}; }
        a += len; n -= len; } }
static void clearRange(uintptr_t a, size_t n) { if (!active || inrt > 0 || !detect) return; In g; uintptr_t e = a + n; a &= ~7ull; for (; a < e; a += 8) { if (!page(a, false)) { a = (a & ~4095ull) + 4096 - 8; continue; } memset((void *)page(a, false)->g[(a >> 3) & 511], 0, sizeof(Cell) * 8); } }
// ---- run ----
Result run(const std::function<void()> &body, int b, const std::vector<Dev> &d) {
    handlers(); __libc_single_threaded = 0;
    for (auto f : F) { if (f->stack) pool.push_back(f->stack); delete f; } F.clear();
    stuck.clear(); race.clear(); bodyEx.clear(); ver.clear(); sync_.clear(); items.clear(); own.clear(); depth.clear(); readers.clear(); written.clear(); pcsOf.clear(); alts.clear(); log_.clear(); steps = streak = rounds = 0; grew = eventual = false; gen++; late = b >= 10; base = b == 10 ? 0 : b == 11 ? 8 : b; devs = &d; nextDev = 0; theBody = &body;
    F.push_back(mk()); F[0]->vc.c[0] = 1; prime(F[0], bodyEntry); cur = 0; inrt = 0; void **g = (void **)abi::__cxa_get_globals(); void *save[2]; memcpy(save, g, 16); memset(g, 0, 16);
    active = true; srt_switch(&abortSp, F[0]->sp); active = false; memcpy(g, save, 16); cur = -1; inrt = 0;
    Result r; r.problem = stuck.size() ? stuck : bodyEx.size() ? "exception: " + bodyEx : ""; r.race = race; r.alts = alts; r.steps = steps; r.threads = (int)F.size(); r.grew = grew; return r; }
std::string traceText() { std::string s; for (auto &l : log_) s += l + "\n"; return s; }
template <class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
// ---- synchronisation semantics ----
static void acquire(const VC &v) { if (active) me().join(v, nt()); }
static bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } // consume acquire acq_rel seq_cst
static bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
// is this code location one whose addresses are ever written during a run? (a pure read-only atomic is no scheduling point)
static bool interesting(const void *a, const void *pc, bool write) {
    auto add = [&](const void *p) { if (sharedPc.insert(p).second) grew = true; };
    if (write) { if (written.insert(a).second) for (auto p : pcsOf[a]) add(p); add(pc); }
    else if (written.count(a)) add(pc); else { auto &v = pcsOf[a]; if (std::find(v.begin(), v.end(), pc) == v.end()) v.push_back(pc); }
    return sharedPc.count(pc); }
static void before(const void *a, const void *pc, bool write) { if (!active || inrt > 0) return; bool p; { In g; p = interesting(a, pc, write); } if (p) point(); }
static void loaded(const void *a, int mo, const void *pc, size_t n) { if (!active || inrt > 0) return; access((uintptr_t)a, n, 1 + 4, pc); In g; auto it = sync_.find(a); if (it != sync_.end()) { if (isAcq(mo)) me().join(it->second, nt()); else F[cur]->acq.join(it->second, nt()); }
    if (sharedPc.count(pc)) { observe(a); if (F[cur]->cyc.size() > 64) { inrt--; F[cur]->prev = F[cur]->cyc; pollFailed(); inrt++; } } }
static void stored(const void *a, int mo, const void *pc, size_t n, bool rmw, bool diff) { if (!active || inrt > 0) return; access((uintptr_t)a, n, 2 + 4, pc); In g; VC &l = sync_[a];
    if (rmw && isAcq(mo)) me().join(l, nt()); else if (rmw) F[cur]->acq.join(l, nt());
    if (isRel(mo)) { if (rmw) l.join(me(), nt()); else l = me(); tick(); } else if (rmw) l.join(F[cur]->rel, nt()); else l = F[cur]->rel;
    if (diff) bump(a); else observe(a); }
} // namespace srt
using namespace srt;
// ---- queue hooks ----
namespace rtq {
void enter(const void *q, int op) { if (!active || inrt > 0) return; if (op == 0 || op == 1 || op == 2 || op == 3) point(); }
void leave(const void *q, int op, bool ok, long item) { if (!active || inrt > 0) return;
    if (op == 0) { In g; items[item] = me(); tick(); bump(q); }
    else if (op == 1 && ok) { In g; auto it = items.find(item); if (it != items.end()) { acquire(it->second); items.erase(it); } Fiber *f = F[cur]; f->cyc.clear(); f->prev.clear(); rounds = 0; }
    else if (op == 4 && !late) { { In g; F[cur]->cyc.clear(); F[cur]->prev.clear(); } pollFailed(); }
    else if (op == 1 || op == 4) { { In g; observe(q); } pollFailed(); }
    else { In g; observe(q); } }
int self() { return active ? cur : 0; }
int choose(const void *, int n) { if (!active || inrt > 0) return 0; In g; int p = (int)alts.size(); alts.push_back(n - 1); if (nextDev < devs->size() && (*devs)[nextDev].point == p) { int c = (*devs)[nextDev].choice; nextDev++; log_.push_back("decision " + std::to_string(p) + ": dequeue takes alternative (another producer, or not yet visible) " + std::to_string(c)); return c < n ? c : 0; } return 0; }
bool visible(long item, int producer) { if (!active || eventual) return true; auto it = items.find(item); return it == items.end() || it->second.c[producer] <= me().c[producer]; }
bool late() { return active && srt::late; }
void mute(int d) { inrt += d; }
long stamp() { return ++stampNo; }
void drop(const void *) {}
}
static bool held(const void *m) { In g; auto it = depth.find(m); return it != depth.end() && it->second && own[m] != cur; }
#define PC __builtin_return_address(0)
#define TID(t) ((long)(t) - 0x100000)
extern "C" {
// ---- memory ----
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && active) clearRange((uintptr_t)p, malloc_usable_size(p)); return p; }
void free(void *p) { if (p && active && inrt == 0 && detect) access((uintptr_t)p, malloc_usable_size(p), 2, PC); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p && active) clearRange((uintptr_t)p, malloc_usable_size(p)); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (p && active) clearRange((uintptr_t)p, malloc_usable_size(p)); return p; }
// ---- threads ----
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept {
    if (!active) { static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); return r(t, a, fn, arg); }
    { In g; if (nt() >= MAXT - 1) fail("more than 47 threads"); Fiber *f = mk(); f->fn = fn; f->arg = arg; f->vc = me(); prime(f, entry); F.push_back(f); int k = nt() - 1; f->vc.c[k] = 1; tick(); *t = (pthread_t)(0x100000 + k); rounds = 0; go(decide(true, base == 2 ? k : -1)); }
    return 0; }
int pthread_join(pthread_t t, void **ret) { if (!active) { static auto r = real<int (*)(pthread_t, void **)>("pthread_join"); return r(t, ret); }
    int id = (int)TID(t); if (id <= 0 || id >= nt() || id == cur) return EINVAL; if (!F[id]->done) { F[cur]->join = id; block(); F[cur]->join = -1; } In g; me().join(F[id]->vc, nt()); if (ret) *ret = F[id]->ret; return 0; }
int pthread_detach(pthread_t t) noexcept { if (!active) { static auto r = real<int (*)(pthread_t)>("pthread_detach"); return r(t); } return 0; }
pthread_t pthread_self() noexcept { static auto r = real<pthread_t (*)()>("pthread_self"); if (!active || cur == 0) return r(); return (pthread_t)(0x100000 + cur); }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (!active || inrt > 0) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return r(m); }
    point(); while (held(m)) { F[cur]->lock = m; block(); F[cur]->lock = nullptr; } In g; own[m] = cur; depth[m]++; auto it = sync_.find(m); if (it != sync_.end()) me().join(it->second, nt()); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { if (!active || inrt > 0) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return r(m); }
    point(); if (held(m)) { { In g; observe(m); } pollFailed(); return EBUSY; } In g; own[m] = cur; depth[m]++; auto it = sync_.find(m); if (it != sync_.end()) me().join(it->second, nt()); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!active || inrt > 0) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return r(m); }
    In g; sync_[m] = me(); tick(); ver[m]++; if (--depth[m] == 0) depth.erase(m); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait"); return r(c, m); }
    pthread_mutex_unlock(m); F[cur]->wait = c; block(); pthread_mutex_lock(m); return 0; }
static int timed(pthread_mutex_t *m) { pthread_mutex_unlock(m); pollFailed(); pthread_mutex_lock(m); return ETIMEDOUT; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!active) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait"); return r(c, m, t); } return timed(m); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!active) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait"); return r(c, m, k, t); } return timed(m); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!active) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal"); return r(c); } point(); for (auto f : F) if (f->wait == c) { f->wait = nullptr; break; } rounds = 0; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!active) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast"); return r(c); } point(); for (auto f : F) if (f->wait == c) f->wait = nullptr; rounds = 0; return 0; }
// reader/writer locks are explored as exclusive locks with read sharing left out of the schedules, not of the race detector
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { if (!active || inrt > 0) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock"); return r(m); } return pthread_mutex_lock((pthread_mutex_t *)m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { if (!active || inrt > 0) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock"); return r(m); } return pthread_mutex_lock((pthread_mutex_t *)m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { if (!active || inrt > 0) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock"); return r(m); } return pthread_mutex_unlock((pthread_mutex_t *)m); }
int pthread_once(pthread_once_t *o, void (*fn)(void)) { if (!active) { static auto r = real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once"); return r(o, fn); } point(); int *s = (int *)o; if (*s == 0) { *s = 1; fn(); *s = 2; In g; sync_[o] = me(); tick(); } In g; auto it = sync_.find(o); if (it != sync_.end()) me().join(it->second, nt()); return 0; }
void exit(int code) noexcept { if (active) { fail("the program called exit(" + std::to_string(code) + ")"); } static auto r = real<void (*)(int)>("exit"); r(code); __builtin_unreachable(); }
int sched_yield() noexcept { if (active && inrt == 0) pollFailed(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (active) { pollFailed(); return 0; } static auto r = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep"); return r(a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (active) { pollFailed(); return 0; } static auto r = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep"); return r(c, f, a, b); }
// ---- instrumentation ----
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void *a) { access((uintptr_t)a, n, 1, PC); } void __tsan_write##n(void *a) { access((uintptr_t)a, n, 2, PC); } void __tsan_read_write##n(void *a) { access((uintptr_t)a, n, 2, PC); } \
    void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, 1, PC); } void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, 2, PC); } void __tsan_unaligned_read_write##n(void *a) { access((uintptr_t)a, n, 2, PC); } \
    void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, 1, PC); } void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, 2, PC); } void __tsan_unaligned_volatile_read##n(void *a) { access((uintptr_t)a, n, 1, PC); } void __tsan_unaligned_volatile_write##n(void *a) { access((uintptr_t)a, n, 2, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access((uintptr_t)a, n, 1, PC); }
void __tsan_write_range(void *a, unsigned long n) { access((uintptr_t)a, n, 2, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((uintptr_t)p, 8, 2, PC); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((uintptr_t)s, n, 1, PC); access((uintptr_t)d, n, 2, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((uintptr_t)s, n, 1, PC); access((uintptr_t)d, n, 2, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { access((uintptr_t)d, n, 2, PC); return memset(d, v, n); }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int mo) { before((const void *)a, PC, false); T v = *a; loaded((const void *)a, mo, PC, sizeof(T)); return v; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { before((const void *)a, PC, true); bool d = *a != v; *a = v; stored((const void *)a, mo, PC, sizeof(T), false, d); } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { before((const void *)a, PC, true); T o = *a; *a = v; stored((const void *)a, mo, PC, sizeof(T), true, o != v); return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) { before((const void *)a, PC, true); T o = *a; *a = o + v; stored((const void *)a, mo, PC, sizeof(T), true, v != 0); return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) { before((const void *)a, PC, true); T o = *a; *a = o - v; stored((const void *)a, mo, PC, sizeof(T), true, v != 0); return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) { before((const void *)a, PC, true); T o = *a; *a = o & v; stored((const void *)a, mo, PC, sizeof(T), true, *a != o); return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo) { before((const void *)a, PC, true); T o = *a; *a = o | v; stored((const void *)a, mo, PC, sizeof(T), true, *a != o); return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int mo) { before((const void *)a, PC, true); T o = *a; *a = o ^ v; stored((const void *)a, mo, PC, sizeof(T), true, *a != o); return o; } \
    T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int mo) { before((const void *)a, PC, true); T o = *a; *a = ~(o & v); stored((const void *)a, mo, PC, sizeof(T), true, *a != o); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { before((const void *)a, PC, true); T o = *a; if (o == *e) { *a = v; stored((const void *)a, mo, PC, sizeof(T), true, o != v); return 1; } *e = o; loaded((const void *)a, fmo, PC, sizeof(T)); return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) { before((const void *)a, PC, true); T o = *a; if (o == *e) { *a = v; stored((const void *)a, mo, PC, sizeof(T), true, o != v); return 1; } *e = o; loaded((const void *)a, fmo, PC, sizeof(T)); return 0; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) { before((const void *)a, PC, true); T o = *a; if (o == e) { *a = v; stored((const void *)a, mo, PC, sizeof(T), true, o != v); } else loaded((const void *)a, fmo, PC, sizeof(T)); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (!active || inrt > 0) return; In g; if (isAcq(mo)) me().join(F[cur]->acq, nt()); if (isRel(mo)) { F[cur]->rel = me(); tick(); } }
void __tsan_atomic_signal_fence(int) {}
}
// red-black tree rebalancing lives in libstdc++: make its writes visible
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept { static auto r = real<void (*)(bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base &)>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"); for (void *q : {(void *)x, (void *)p, (void *)&h}) access((uintptr_t)q, 32, 2, PC); r(left, x, p, h); }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept { static auto r = real<_Rb_tree_node_base *(*)(_Rb_tree_node_base *, _Rb_tree_node_base &)>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"); for (void *q : {(void *)z, (void *)&h}) access((uintptr_t)q, 32, 2, PC); return r(z, h); }
}
namespace __cxxabiv1 { extern "C" {
int __cxa_guard_acquire(__cxxabiv1::__guard *g) { uint8_t *b = (uint8_t *)g; while (true) { if (b[0]) { if (active) { In i; auto it = sync_.find(g); if (it != sync_.end()) me().join(it->second, nt()); } return 0; } if (!b[1]) { b[1] = 1; return 1; } if (!active || inrt > 0) return 1; { In i; observe(g); } pollFailed(); } }
void __cxa_guard_release(__cxxabiv1::__guard *g) noexcept { uint8_t *b = (uint8_t *)g; b[1] = 0; b[0] = 1; if (active && inrt == 0) { In i; sync_[g] = me(); tick(); ver[g]++; } }
void __cxa_guard_abort(__cxxabiv1::__guard *g) noexcept { ((uint8_t *)g)[1] = 0; if (active && inrt == 0) { In i; ver[g]++; } }
} }
