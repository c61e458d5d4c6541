// LD_PRELOAD: numbers every open/read/write/close on files below $FAULT_DIR (and, with $FAULT_LINT, on lint.json) and lets the one numbered $FAULT_AT fail.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
static const char *dir, *kind, *logf_; static long at = -1, n; static char tracked[1024]; static int ready, sticky; static char sop;
static void init(void) { if (ready) return; ready = 1; dir = getenv("FAULT_DIR"); kind = getenv("FAULT_KIND"); logf_ = getenv("FAULT_LOG"); if (getenv("FAULT_AT")) at = atol(getenv("FAULT_AT")); sticky = getenv("FAULT_STICKY") != 0; }
static int mine(const char *p) { init(); return dir && (!strncmp(p, dir, strlen(dir)) || (getenv("FAULT_LINT") && !strcmp(p, "lint.json"))); }
static void note(char op) { if (!logf_) return; int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write"); int (*c)(int) = dlsym(RTLD_NEXT, "close"); int f = o(logf_, O_WRONLY | O_APPEND | O_CREAT, 0600); if (f >= 0) { w(f, &op, 1); c(f); } }
// 1: this operation must fail
static int hit(char op) { long i = n++; note(op); if (at >= 0 && i == at) { if (!strcmp(kind, "kill")) raise(SIGKILL); sop = op; return 1; } return sticky && at >= 0 && i > at && op == sop; }
static int err(void) { if (!strcmp(kind, "EIO")) return EIO; if (!strcmp(kind, "ENOSPC")) return ENOSPC; if (!strcmp(kind, "EINTR")) return EINTR; if (!strcmp(kind, "EACCES")) return EACCES; if (!strcmp(kind, "EMFILE")) return EMFILE; return EIO; }
static int shortop(void) { return !strcmp(kind, "short"); }
#define REAL(t, name, args) static t(*real) args; if (!real) real = (t(*) args)dlsym(RTLD_NEXT, name)
static FILE *fo(FILE *(*real)(const char *, const char *), const char *p, const char *m) { if (!mine(p)) return real(p, m); if (hit('o') && !shortop()) { errno = err(); return 0; } FILE *f = real(p, m); if (f && fileno(f) < 1024) tracked[fileno(f)] = 1; return f; }
FILE *fopen(const char *p, const char *m) { REAL(FILE *, "fopen", (const char *, const char *)); return fo(real, p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, "fopen64", (const char *, const char *)); return fo(real, p, m); }
static int op(int (*real)(const char *, int, ...), const char *p, int fl, mode_t m) { if (!mine(p)) return real(p, fl, m); if (hit('o') && !shortop()) { errno = err(); return -1; } int f = real(p, fl, m); if (f >= 0 && f < 1024) tracked[f] = 1; return f; }
int open(const char *p, int fl, ...) { REAL(int, "open", (const char *, int, ...)); va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return op(real, p, fl, m); }
int open64(const char *p, int fl, ...) { REAL(int, "open64", (const char *, int, ...)); va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return op(real, p, fl, m); }
ssize_t read(int fd, void *b, size_t c) { REAL(ssize_t, "read", (int, void *, size_t)); if (fd < 0 || fd >= 1024 || !tracked[fd]) return real(fd, b, c); if (hit('r')) { if (shortop()) return real(fd, b, c > 1 ? 1 : c); errno = err(); return -1; } return real(fd, b, c); }
ssize_t write(int fd, const void *b, size_t c) { REAL(ssize_t, "write", (int, const void *, size_t)); if (fd < 0 || fd >= 1024 || !tracked[fd]) return real(fd, b, c); if (hit('w')) { if (shortop()) return real(fd, b, c > 1 ? c / 2 : c); errno = err(); return -1; } return real(fd, b, c); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, "writev", (int, const struct iovec *, int)); if (fd < 0 || fd >= 1024 || !tracked[fd]) return real(fd, v, c); if (hit('w')) { if (shortop() && c) { struct iovec x = v[0]; x.iov_len /= 2; if (x.iov_len) return real(fd, &x, 1); return real(fd, v, c); } errno = err(); return -1; } return real(fd, v, c); }
int fclose(FILE *f) { REAL(int, "fclose", (FILE *)); int fd = f ? fileno(f) : -1; if (fd < 0 || fd >= 1024 || !tracked[fd]) return real(f); tracked[fd] = 0; int h = hit('c'), r = real(f); if (h && !shortop()) { errno = err(); return EOF; } return r; }
int close(int fd) { REAL(int, "close", (int)); if (fd < 0 || fd >= 1024 || !tracked[fd]) return real(fd); tracked[fd] = 0; int h = hit('c'), r = real(fd); if (h && !shortop()) { errno = err(); return -1; } return r; }
