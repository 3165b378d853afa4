// LD_PRELOAD helper of a demonstration: a fixed clock, sleeping without waiting,
// and one failure or kill at the n-th call of a function on a path.
//   INJ="fn:substring-of-path:n:errno|kill"   INJ_NOW=seconds   INJ_LOG=file
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
static long long slept;
static int logfd(void) {
    static int fd = -2;
    if (fd == -2) {
        const char *p = getenv("INJ_LOG");
        int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
        fd = p ? o(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644) : -1;
    }
    return fd;
}
static void note(const char *fn, const char *a, const char *b) {
    char s[9000];
    int n = snprintf(s, sizeof s, "%s\t%s\t%s\n", fn, a, b);
    ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (logfd() >= 0) w(logfd(), s, n);
}
// nonzero: errno to fail with
static int hit(const char *fn, const char *path) {
    static int count;
    const char *e = getenv("INJ");
    char f[64], sub[512], what[64];
    int n;
    if (!e || sscanf(e, "%63[^:]:%511[^:]:%d:%63s", f, sub, &n, what) != 4) return 0;
    if (strcmp(f, fn) || !path || !strstr(path, sub)) return 0;
    if (++count != n) return 0;
    if (!strcmp(what, "kill")) { kill(getpid(), SIGKILL); for (;;) pause(); }
    return atoi(what);
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define FAIL(fn, p) do { int e_ = hit(fn, p); if (e_) { errno = e_; return -1; } } while (0)
int rename(const char *a, const char *b) { REAL(rename); note("rename", a, b); FAIL("rename", b); return real(a, b); }
int unlink(const char *a) { REAL(unlink); note("unlink", a, ""); FAIL("unlink", a); return real(a); }
int symlink(const char *a, const char *b) { REAL(symlink); note("symlink", a, b); FAIL("symlink", b); return real(a, b); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); note("mkdir", a, ""); FAIL("mkdir", a); return real(a, m); }
static int opened(const char *p, int fl, mode_t m) {
    static int (*real)(const char *, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "open64");
    if (fl & (O_WRONLY | O_RDWR)) { note("open", p, ""); FAIL("open", p); }
    else { note("read", p, ""); FAIL("read", p); }
    return real(p, fl, m);
}
int open(const char *p, int fl, ...) { va_list v; va_start(v, fl); mode_t m = va_arg(v, mode_t); va_end(v); return opened(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list v; va_start(v, fl); mode_t m = va_arg(v, mode_t); va_end(v); return opened(p, fl, m); }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    char l[64], p[4200];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, p, sizeof p - 1);
    if (k > 0 && p[0] == '/') { p[k] = 0; note("write", p, ""); FAIL("write", p); }
    return real(fd, b, n);
}
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(clock_gettime);
    const char *e = getenv("INJ_NOW");
    if (c == CLOCK_REALTIME && e) { t->tv_sec = atoll(e) + slept; t->tv_nsec = 0; return 0; }
    return real(c, t);
}
static int slp(const struct timespec *t) {
    char s[64];
    snprintf(s, sizeof s, "%lld", (long long)t->tv_sec);
    note("sleep", s, "");
    FAIL("sleep", "");
    slept += t->tv_sec;
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r) { REAL(nanosleep); return getenv("INJ_NOW") ? slp(t) : real(t, r); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) {
    REAL(clock_nanosleep);
    return getenv("INJ_NOW") && !(f & TIMER_ABSTIME) ? slp(t) : real(c, f, t, r);
}
