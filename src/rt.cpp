#include "rt.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <cerrno>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sys/mman.h>
#include <vector>
#include <unistd.h>
#ifdef __SANITIZE_ADDRESS__   // tell AddressSanitizer which stack is in use
extern "C" void __asan_unpoison_memory_region(const void *, size_t); extern "C" void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size); extern "C" void __sanitizer_finish_switch_fiber(void *fake, const void **oldBottom, size_t *oldSize);
#define ASAN 1
#else
#define ASAN 0
#endif
namespace rt {
long threadsCreated = 0, switches = 0;
struct Fiber { void *sp = nullptr; char *stack = nullptr; void *(*fn)(void *) = nullptr; void *arg = nullptr, *ret = nullptr; bool done = false, detached = false; int join = -1; const void *wait = nullptr; void *eh[2] = {0, 0}; };
static std::vector<Fiber *> F; static int cur = -1; static bool active = false; static long idle = 0; static std::string stuck; static void *abortSp = nullptr;
static std::vector<char *> pool; static const size_t SZ = 4 << 20; static const void *mainBottom; static size_t mainSize;
extern "C" void rt_switch(void **save, void *load);
asm(".text\n.globl rt_switch\nrt_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void leaveFor(const void *b, size_t n) {
#if ASAN
    __sanitizer_start_switch_fiber(nullptr, b, n);
#else
    (void)b; (void)n;
#endif
}
static void arrived(const void **b = nullptr, size_t *n = nullptr) {
#if ASAN
    __sanitizer_finish_switch_fiber(nullptr, b, n);
#else
    (void)b; (void)n;
#endif
}
static void clean(char *s) {
#if ASAN
    __asan_unpoison_memory_region(s, SZ);
#else
    (void)s;
#endif
}
static char *getStack() { if (pool.size()) { char *s = pool.back(); pool.pop_back(); clean(s); return s; } void *m = mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) abort(); return (char *)m; }
static void go(int k) { if (k == cur) return; int o = cur; cur = k; switches++; void **g = (void **)abi::__cxa_get_globals(); memcpy(F[o]->eh, g, 16); memcpy(g, F[k]->eh, 16); leaveFor(F[k]->stack, SZ); rt_switch(&F[o]->sp, F[k]->sp); arrived(); }
static bool runnable(int i) { Fiber *f = F[i]; return !f->done && (f->join < 0 || F[f->join]->done) && !f->wait; }
static void fail(const std::string &why) { stuck = why; cur = 0; void *dummy; leaveFor(mainBottom, mainSize); rt_switch(&dummy, abortSp); abort(); }
static void next(bool self_ok) { int n = (int)F.size(); for (int d = 1; d <= n; d++) { int k = (cur + d) % n; if (k == cur && !self_ok) continue; if (runnable(k)) { go(k); return; } } if (self_ok && runnable(cur)) return; fail("deadlock: no thread can run"); }
static void yield_() { if (++idle > 200000) fail("livelock: threads poll forever without progress"); next(true); }
static void entry() { arrived(); Fiber *f = F[cur]; f->ret = f->fn(f->arg); f = F[cur]; f->done = true; idle = 0; next(false); abort(); }
static void bodyEntry();
static const std::function<void()> *theBody; static std::exception_ptr bodyEx;
// the stack of a thread that has ended serves the next one
static Fiber *mk() { Fiber *f = new Fiber; if (F.size() > 60) for (auto x : F) if (x != F[0] && x->done && x->stack) { f->stack = x->stack; x->stack = nullptr; clean(f->stack); break; } if (!f->stack) f->stack = getStack(); return f; }
static void prime(Fiber *f, void (*e)()) { uintptr_t top = ((uintptr_t)f->stack + SZ) & ~15ull; void **s = (void **)top; *--s = nullptr; *--s = (void *)e; for (int i = 0; i < 6; i++) *--s = nullptr; f->sp = s; }
static void bodyEntry() { arrived(&mainBottom, &mainSize); try { (*theBody)(); } catch (...) { bodyEx = std::current_exception(); } F[0]->done = true; 
    bool left = false; for (auto f : F) if (!f->done) left = true; if (left) fail("threads still running after the job returned"); void *d; leaveFor(mainBottom, mainSize); rt_switch(&d, abortSp); abort(); }
static void handlers();
std::string run(const std::function<void()> &body) {
    handlers();
    for (auto f : F) { if (f->stack) pool.push_back(f->stack); delete f; } F.clear();
    stuck.clear(); idle = 0; bodyEx = nullptr; threadsCreated = 0; theBody = &body; F.push_back(mk()); prime(F[0], bodyEntry); cur = 0; active = true;
    void **g = (void **)abi::__cxa_get_globals(); void *save[2]; memcpy(save, g, 16); memset(g, 0, 16);
    leaveFor(F[0]->stack, SZ); rt_switch(&abortSp, F[0]->sp); arrived();
    active = false; memcpy(g, save, 16); cur = -1;
    if (bodyEx) { auto e = bodyEx; bodyEx = nullptr; std::rethrow_exception(e); }
    return stuck;
}
static void onSignal(int sig) { if (!active) { signal(sig, SIG_DFL); raise(sig); return; } active = false;
    fail(sig == SIGVTALRM ? "no termination within the CPU time limit" : std::string("crash: ") + strsignal(sig)); }
static void handlers() { static bool done = false; if (done) return; done = true; stack_t ss; ss.ss_sp = mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    if (ASAN) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onSignal; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGVTALRM, &a, nullptr); return; }
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onSignal; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &a, nullptr); } }
static std::map<const void *, int> own; static std::map<const void *, int> depth;
template <class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
}
using namespace rt;
namespace rtq {
static long st = 0;
void enter(const void *, int) {}
void leave(const void *, int op, bool ok, long) { if (!active) return; if (ok && op != 2) idle = 0; else if (op == 1) yield_(); }
int self() { return active ? cur : 0; }
int choose(const void *, int) { return 0; }
long stamp() { return ++st; }
void mute(int) {}
bool late() { return false; }
bool visible(long, int) { return true; }
void drop(const void *) {}
}
#define ID(t) ((long)(t) - 0x100000)
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept {
    if (!active) { static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); return r(t, a, fn, arg); }
    Fiber *f = mk(); f->fn = fn; f->arg = arg; prime(f, entry); F.push_back(f); *t = (pthread_t)(0x100000 + F.size() - 1); threadsCreated++; idle = 0; return 0; }
int pthread_join(pthread_t t, void **ret) { if (!active) { static auto r = real<int (*)(pthread_t, void **)>("pthread_join"); return r(t, ret); }
    int id = (int)ID(t); if (id <= 0 || id >= (int)F.size() || id == cur) return EINVAL; F[cur]->join = id; if (!F[id]->done) next(false); F[cur]->join = -1; if (ret) *ret = F[id]->ret; return 0; }
int pthread_detach(pthread_t t) noexcept { if (!active) { static auto r = real<int (*)(pthread_t)>("pthread_detach"); return r(t); } return 0; }
pthread_t pthread_self() noexcept { static auto r = real<pthread_t (*)()>("pthread_self"); if (!active || cur == 0) return r(); return (pthread_t)(0x100000 + cur); }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (!active) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return r(m); }
    while (depth[m] && own[m] != cur) yield_(); own[m] = cur; depth[m]++; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { if (!active) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return r(m); }
    if (depth[m] && own[m] != cur) { yield_(); return EBUSY; } own[m] = cur; depth[m]++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!active) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return r(m); }
    if (--depth[m] == 0) depth.erase(m); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait"); return r(c, m); }
    pthread_mutex_unlock(m); F[cur]->wait = c; next(false); pthread_mutex_lock(m); return 0; }
static int timed(pthread_mutex_t *m) { pthread_mutex_unlock(m); yield_(); pthread_mutex_lock(m); return ETIMEDOUT; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!active) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait"); return r(c, m, t); } return timed(m); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!active) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait"); return r(c, m, k, t); } return timed(m); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!active) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal"); return r(c); } for (auto f : F) if (f->wait == c) { f->wait = nullptr; break; } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!active) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast"); return r(c); } for (auto f : F) if (f->wait == c) f->wait = nullptr; return 0; }
void exit(int code) noexcept { if (active) { fail("the program called exit(" + std::to_string(code) + ")"); } static auto r = real<void (*)(int)>("exit"); r(code); __builtin_unreachable(); }
int sched_yield() noexcept { if (active) yield_(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (active) { yield_(); return 0; } static auto r = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep"); return r(a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (active) { yield_(); return 0; } static auto r = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep"); return r(c, f, a, b); }
}
