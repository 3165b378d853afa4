/* ksmon: LD_PRELOAD monitor for one process.
 *
 * Every mutating file system call becomes an event. Events are written to a pipe
 * as one line; in step mode the process then waits for a one-line reply. Paths
 * outside the allowed directories are reported as ESCAPE and refused (EACCES).
 * The wall clock and sleeping are virtual when KSMON_NOW (ms since the epoch) is set; with KSMON_TICK
 * every event takes that many (virtual) milliseconds.
 *
 * line: <kind>\t<seq>\t<op>\t<path>\t<path2>\t<num>\n
 *   kind: '?' event, reply awaited; '.' event, not awaited; '!' escape (refused)
 *         'i' information (no reply, not counted)
 * reply: c            go on
 *        r<seq>       go on, do not ask again before event <seq> (r0: never again)
 *        k            SIGKILL before the operation
 *        K            SIGKILL right after the operation
 *        e<errno>     the operation fails with errno
 *        s<n>         write: write only n bytes and return n
 *        p<n>         write: write n bytes, then SIGKILL
 *        f<n>,<errno> write: write n bytes; the next write to this fd fails with errno
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <arpa/inet.h>
#include <netinet/in.h>

#define REAL(name) ({ static __typeof__(&name) p_; if (!p_) p_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p_; })

static int on = 0, step = 0, rfd = -1, wfd = -1, virt = 0;
static long seq = 0, ask_from = 1;
static long long vbase_ns = 0, slept_ns = 0, tick_ns = 0;
static char *allow[32]; static int nallow = 0;
static char *watch[32]; static int nwatch = 0;
static char *xdev = NULL;
static int resolve_local = 0, local_port = 0, reads = 0;
static int pend_fd = -1, pend_errno = 0;
static pid_t me = 0;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static __thread int inside = 0;

static void split(char *s, char **arr, int *n) {
    char *save = NULL;
    for (char *t = strtok_r(s, ":", &save); t && *n < 32; t = strtok_r(NULL, ":", &save)) arr[(*n)++] = t;
}

__attribute__((constructor)) static void init(void) {
    const char *f = getenv("KSMON_FDS");
    if (!f) return;
    if (sscanf(f, "%d,%d", &rfd, &wfd) != 2) return;
    fcntl(rfd, F_SETFD, FD_CLOEXEC); fcntl(wfd, F_SETFD, FD_CLOEXEC);
    me = getpid();
    char *e;
    if ((e = getenv("KSMON_STEP")) && *e == '1') step = 1;
    if ((e = getenv("KSMON_FROM"))) ask_from = atol(e);
    if ((e = getenv("KSMON_NOW"))) { virt = 1; vbase_ns = atoll(e) * 1000000LL; }
    if ((e = getenv("KSMON_TICK"))) tick_ns = atoll(e) * 1000000LL;
    if ((e = getenv("KSMON_ALLOW"))) split(strdup(e), allow, &nallow);
    if ((e = getenv("KSMON_WATCH"))) split(strdup(e), watch, &nwatch);
    if ((e = getenv("KSMON_XDEV"))) xdev = strdup(e);
    if ((e = getenv("KSMON_LOCALNET"))) { resolve_local = 1; local_port = atoi(e); }
    if ((e = getenv("KSMON_READS"))) { reads = 1; unsetenv("KSMON_READS"); }
    unsetenv("LD_PRELOAD");
    unsetenv("KSMON_FDS"); unsetenv("KSMON_STEP"); unsetenv("KSMON_FROM"); unsetenv("KSMON_NOW"); unsetenv("KSMON_TICK");
    unsetenv("KSMON_ALLOW"); unsetenv("KSMON_WATCH"); unsetenv("KSMON_XDEV"); unsetenv("KSMON_LOCALNET");
    on = 1;
}

static int under(const char *p, const char *dir) {
    size_t n = strlen(dir);
    return strncmp(p, dir, n) == 0 && (p[n] == 0 || p[n] == '/');
}

/* lexical normalisation of an absolute path */
static void lexnorm(char *p) {
    char out[PATH_MAX * 2]; size_t o = 0; char *s = p;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = s; while (*e && *e != '/') e++;
        size_t l = (size_t)(e - s);
        if (l == 1 && s[0] == '.') { }
        else if (l == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[o - 1] != '/') o--; if (o > 0) o--; }
        else { out[o++] = '/'; memcpy(out + o, s, l); o += l; }
        s = e;
    }
    if (!o) out[o++] = '/';
    out[o] = 0; strcpy(p, out);
}

/* canonical absolute form; follow: also follow a final symlink */
static void canon(int dirfd, const char *path, int follow, char *out) {
    char tmp[PATH_MAX * 2]; tmp[0] = 0;
    if (!path) { strcpy(out, "(null)"); return; }
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) strcpy(base, "/"); }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, base, sizeof base - 1); if (n < 0) n = 0; base[n] = 0; }
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    size_t n = strlen(tmp); while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
    char rp[PATH_MAX];
    inside++;
    if (follow && realpath(tmp, rp)) { strcpy(out, rp); inside--; return; }
    /* canonicalise the longest existing proper prefix, then add the rest lexically */
    char head[PATH_MAX * 2]; strcpy(head, tmp);
    for (;;) {
        char *sl = strrchr(head, '/');
        if (!sl || sl == head) { strcpy(out, tmp); break; }
        size_t hl = (size_t)(sl - head); *sl = 0;
        if (realpath(head, rp)) { snprintf(out, PATH_MAX * 2, "%s%s", strcmp(rp, "/") ? rp : "", tmp + hl); break; }
    }
    inside--;
    lexnorm(out);
    if (follow) { /* dangling symlink as target */
        char l[PATH_MAX]; ssize_t k = readlink(out, l, sizeof l - 1);
        if (k > 0) { l[k] = 0; char t2[PATH_MAX * 2]; if (l[0] == '/') strcpy(t2, l); else { snprintf(t2, sizeof t2, "%s", out); char *s2 = strrchr(t2, '/'); strcpy(s2 + 1, l); } lexnorm(t2); strcpy(out, t2); }
    }
}

static int allowed(const char *p) {
    for (int i = 0; i < nallow; i++) if (under(p, allow[i])) return 1;
    return 0;
}
static int devish(const char *p) { return under(p, "/dev") || under(p, "/proc"); }

static void put(const char *s, size_t n) { while (n) { ssize_t k = syscall(SYS_write, wfd, s, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(99); } s += k; n -= (size_t)k; } }

struct act { char c; long n; int err; };

static void clean_field(const char *s, char *o, size_t max) {
    size_t j = 0; for (; s && *s && j + 1 < max; s++) o[j++] = (*s == '\n' || *s == '\t') ? '?' : *s; o[j] = 0;
}

static void send_line(char kind, long sq, const char *op, const char *p1, const char *p2, long num) {
    char a[PATH_MAX], b[PATH_MAX], line[PATH_MAX * 2 + 128];
    clean_field(p1, a, sizeof a); clean_field(p2, b, sizeof b);
    int n = snprintf(line, sizeof line, "%c\t%ld\t%s\t%s\t%s\t%ld\n", kind, sq, op, a, b, num);
    put(line, (size_t)n);
}

static struct act event(const char *op, const char *p1, const char *p2, long num) {
    struct act A = { 'c', 0, 0 };
    pthread_mutex_lock(&mu);
    if (p1 && *p1 == '/' && nallow && (!allowed(p1) || (p2 && *p2 == '/' && !allowed(p2)))) {
        send_line('!', seq, op, p1, p2, num);
        pthread_mutex_unlock(&mu);
        A.c = 'e'; A.err = EACCES; return A;
    }
    seq++; slept_ns += tick_ns;
    if (step && ask_from > 0 && seq >= ask_from) {
        send_line('?', seq, op, p1, p2, num);
        char buf[64]; size_t j = 0; char ch;
        for (;;) { ssize_t k = syscall(SYS_read, rfd, &ch, 1); if (k < 0 && errno == EINTR) continue; if (k <= 0) { syscall(SYS_kill, getpid(), SIGKILL); } if (ch == '\n') break; if (j < sizeof buf - 1) buf[j++] = ch; }
        buf[j] = 0;
        A.c = buf[0];
        switch (buf[0]) {
        case 'k': syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause();
        case 'e': A.err = atoi(buf + 1); break;
        case 'r': ask_from = atol(buf + 1); A.c = 'c'; break;
        case 's': case 'p': A.n = atol(buf + 1); break;
        case 'f': { char *cm = strchr(buf, ','); A.n = atol(buf + 1); A.err = cm ? atoi(cm + 1) : ENOSPC; break; }
        default: break;
        }
    } else send_line('.', seq, op, p1, p2, num);
    pthread_mutex_unlock(&mu);
    return A;
}
static void info(const char *op, const char *p1, const char *p2, long num) {
    pthread_mutex_lock(&mu); send_line('i', seq, op, p1, p2, num); pthread_mutex_unlock(&mu);
}
static void post(struct act *A) { if (A->c == 'K') { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); } }

#define ACTIVE (on && !inside && getpid() == me)
#define FAIL(A) do { if ((A).c == 'e') { errno = (A).err; return -1; } } while (0)

static int fdpath(int fd, char *out) {
    if (fd <= 2) return 0;
    struct stat st; if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, out, PATH_MAX - 1); if (n <= 0) return 0; out[n] = 0;
    return out[0] == '/' && strncmp(out, "/memfd:", 7) != 0 && !devish(out);
}

/* ------------------------------------------------------------------ open */
static int open_common(int dirfd, const char *path, int flags, mode_t mode) {
    static int (*ro)(int, const char *, int, ...); if (!ro) ro = dlsym(RTLD_NEXT, "openat64");
    int wr = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0 || (flags & O_TMPFILE) == O_TMPFILE;
    if (!ACTIVE || !path) return ro(dirfd, path, flags, mode);
    char c[PATH_MAX * 2];
    if (!wr) {
        if (nwatch) {
            canon(dirfd, path, 1, c);
            for (int i = 0; i < nwatch; i++) if (under(c, watch[i])) { info("openr", c, "", flags); break; }
        }
        if (reads) {
            canon(dirfd, path, 1, c);
            if (allowed(c)) { struct act A = event("open-r", c, "", 0); FAIL(A); int r = ro(dirfd, path, flags, mode); post(&A); return r; }
        }
        return ro(dirfd, path, flags, mode);
    }
    canon(dirfd, path, !(flags & O_NOFOLLOW) && !((flags & O_EXCL) && (flags & O_CREAT)), c);
    if (devish(c)) return ro(dirfd, path, flags, mode);
    struct act A = event((flags & O_TRUNC) ? "open-trunc" : "open-w", c, "", flags); FAIL(A);
    int r = ro(dirfd, path, flags, mode); post(&A); return r;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE return open_common(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE return open_common(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE return open_common(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE return open_common(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
FILE *fopen(const char *p, const char *m) {
    if (ACTIVE && (strpbrk(m, "wa+"))) { char c[PATH_MAX * 2]; canon(AT_FDCWD, p, 1, c); if (!devish(c)) { struct act A = event("fopen", c, "", 0); if (A.c == 'e') { errno = A.err; return NULL; } } }
    return REAL(fopen)(p, m);
}
FILE *fopen64(const char *p, const char *m) {
    if (ACTIVE && (strpbrk(m, "wa+"))) { char c[PATH_MAX * 2]; canon(AT_FDCWD, p, 1, c); if (!devish(c)) { struct act A = event("fopen", c, "", 0); if (A.c == 'e') { errno = A.err; return NULL; } } }
    return REAL(fopen64)(p, m);
}

/* ------------------------------------------------------------------ read */
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*rr)(int, void *, size_t); if (!rr) rr = dlsym(RTLD_NEXT, "read");
    char c[PATH_MAX];
    if (!reads || !ACTIVE || fd == rfd || !fdpath(fd, c) || !allowed(c)) return rr(fd, b, n);
    struct act A = event("read", c, "", (long)n); FAIL(A);
    if (A.c == 's' && n > 1 && A.n > 0 && (size_t)A.n < n) n = (size_t)A.n;
    ssize_t r = rr(fd, b, n); post(&A); return r;
}

/* ----------------------------------------------------------------- write */
static ssize_t write_common(int fd, const void *b, size_t n, off_t off, int positioned) {
    static ssize_t (*rw)(int, const void *, size_t); static ssize_t (*rpw)(int, const void *, size_t, off_t);
    if (!rw) { rw = dlsym(RTLD_NEXT, "write"); rpw = dlsym(RTLD_NEXT, "pwrite64"); }
#define DOW(len) (positioned ? rpw(fd, b, (len), off) : rw(fd, b, (len)))
    char c[PATH_MAX];
    if (!ACTIVE || fd == wfd || !fdpath(fd, c)) return DOW(n);
    if (pend_fd == fd) { int e = pend_errno; pend_fd = -1; info("write-failed", c, "", e); errno = e; return -1; }
    struct act A = event("write", c, "", (long)n); FAIL(A);
    if (A.c == 's' || A.c == 'p' || A.c == 'f') {
        size_t k = (size_t)A.n < n ? (size_t)A.n : n;
        ssize_t r = k ? DOW(k) : 0;
        if (A.c == 'p') { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
        if (A.c == 'f') { if (k == 0) { errno = A.err; return -1; } pend_fd = fd; pend_errno = A.err; }
        return r;
    }
    ssize_t r = DOW(n); post(&A); return r;
}
ssize_t write(int fd, const void *b, size_t n) { return write_common(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return write_common(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return write_common(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    char c[PATH_MAX];
    if (!ACTIVE || !fdpath(fd, c)) return REAL(writev)(fd, iov, cnt);
    for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return write_common(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
    return 0;
}
static ssize_t cfr(int fin, off64_t *oin, int fout, off64_t *oout, size_t len, unsigned fl, int which) {
    char c[PATH_MAX], s[PATH_MAX];
    struct act A = { 'c', 0, 0 };
    if (ACTIVE && fdpath(fout, c)) {
        if (!fdpath(fin, s)) s[0] = 0;
        if (pend_fd == fout) { int e = pend_errno; pend_fd = -1; errno = e; return -1; }
        /* only a finite length is honoured so that there is an observable middle */
        A = event("copy", c, "", (long)(len > 0x7ffff000 ? 0x7ffff000 : len)); FAIL(A);
        if (A.c == 's' || A.c == 'p' || A.c == 'f') { if ((size_t)A.n < len) len = (size_t)A.n; }
    }
    ssize_t r = len == 0 ? 0 : which ? syscall(SYS_sendfile, fout, fin, oin, len) : syscall(SYS_copy_file_range, fin, oin, fout, oout, len, fl);
    if (A.c == 'p') { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
    if (A.c == 'f') { if (len == 0) { errno = A.err; return -1; } pend_fd = fout; pend_errno = A.err; }
    post(&A); return r;
}
ssize_t copy_file_range(int fin, off64_t *oin, int fout, off64_t *oout, size_t len, unsigned fl) { return cfr(fin, oin, fout, oout, len, fl, 0); }
ssize_t sendfile(int fout, int fin, off_t *o, size_t n) { return cfr(fin, o, fout, NULL, n, 0, 1); }
ssize_t sendfile64(int fout, int fin, off64_t *o, size_t n) { return cfr(fin, o, fout, NULL, n, 0, 1); }

/* ------------------------------------------------------- names and links */
static int rename_common(int d1, const char *a, int d2, const char *b, unsigned fl) {
    if (!ACTIVE) return (int)syscall(SYS_renameat2, d1, a, d2, b, fl);
    char c1[PATH_MAX * 2], c2[PATH_MAX * 2]; canon(d1, a, 0, c1); canon(d2, b, 0, c2);
    struct act A = event("rename", c1, c2, fl); FAIL(A);
    if (xdev && under(c1, xdev) != under(c2, xdev)) { errno = EXDEV; return -1; }
    int r = (int)syscall(SYS_renameat2, d1, a, d2, b, fl); post(&A); return r;
}
int rename(const char *a, const char *b) { return rename_common(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return rename_common(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return rename_common(d1, a, d2, b, fl); }

static int unlink_common(int d, const char *p, int fl) {
    if (!ACTIVE) return (int)syscall(SYS_unlinkat, d, p, fl);
    char c[PATH_MAX * 2]; canon(d, p, 0, c);
    struct act A = event((fl & AT_REMOVEDIR) ? "rmdir" : "unlink", c, "", 0); FAIL(A);
    int r = (int)syscall(SYS_unlinkat, d, p, fl); post(&A); return r;
}
int unlink(const char *p) { return unlink_common(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return unlink_common(d, p, fl); }
int rmdir(const char *p) { return unlink_common(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) { struct stat st; if (lstat(p, &st)) return -1; return unlink_common(AT_FDCWD, p, S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0); }

static int mkdir_common(int d, const char *p, mode_t m) {
    if (!ACTIVE) return (int)syscall(SYS_mkdirat, d, p, m);
    char c[PATH_MAX * 2]; canon(d, p, 0, c);
    struct stat st;
    inside++; int ex = lstat(c, &st) == 0; inside--;
    if (ex) return (int)syscall(SYS_mkdirat, d, p, m);   /* will fail with EEXIST: no effect */
    struct act A = event("mkdir", c, "", m); FAIL(A);
    int r = (int)syscall(SYS_mkdirat, d, p, m); post(&A); return r;
}
int mkdir(const char *p, mode_t m) { return mkdir_common(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return mkdir_common(d, p, m); }

static int symlink_common(const char *t, int d, const char *p) {
    if (!ACTIVE) return (int)syscall(SYS_symlinkat, t, d, p);
    char c[PATH_MAX * 2]; canon(d, p, 0, c);
    char tt[PATH_MAX]; snprintf(tt, sizeof tt, "->%s", t);
    struct act A = event("symlink", c, tt, 0); FAIL(A);
    int r = (int)syscall(SYS_symlinkat, t, d, p); post(&A); return r;
}
int symlink(const char *t, const char *p) { return symlink_common(t, AT_FDCWD, p); }
int symlinkat(const char *t, int d, const char *p) { return symlink_common(t, d, p); }

static int link_common(int d1, const char *a, int d2, const char *b, int fl) {
    if (!ACTIVE) return (int)syscall(SYS_linkat, d1, a, d2, b, fl);
    char c1[PATH_MAX * 2], c2[PATH_MAX * 2]; canon(d1, a, 0, c1); canon(d2, b, 0, c2);
    struct act A = event("link", c2, "", 0); FAIL(A);
    if (xdev && under(c1, xdev) != under(c2, xdev)) { errno = EXDEV; return -1; }
    int r = (int)syscall(SYS_linkat, d1, a, d2, b, fl); post(&A); return r;
}
int link(const char *a, const char *b) { return link_common(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return link_common(d1, a, d2, b, fl); }
int mknod(const char *p, mode_t m, dev_t v) { char c[PATH_MAX * 2]; if (ACTIVE) { canon(AT_FDCWD, p, 0, c); struct act A = event("mknod", c, "", 0); FAIL(A); } return (int)syscall(SYS_mknodat, AT_FDCWD, p, m, v); }
int mkfifo(const char *p, mode_t m) { return mknod(p, (m & 07777) | S_IFIFO, 0); }

/* ------------------------------------------------------------ attributes */
static int attr_path(const char *op, int d, const char *p, int follow) {
    char c[PATH_MAX * 2]; canon(d, p, follow, c);
    if (devish(c)) return 0;
    struct act A = event(op, c, "", 0); FAIL(A); return 0;
}
static int attr_fd(const char *op, int fd, long n) {
    char c[PATH_MAX]; if (!fdpath(fd, c)) return 0;
    struct act A = event(op, c, "", n); FAIL(A); return 0;
}
int truncate(const char *p, off_t n) { if (ACTIVE && attr_path("truncate", AT_FDCWD, p, 1)) return -1; return (int)syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) { if (ACTIVE && attr_fd("ftruncate", fd, n)) return -1; return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fallocate(int fd, int m, off_t o, off_t n) { if (ACTIVE && attr_fd("fallocate", fd, n)) return -1; return (int)syscall(SYS_fallocate, fd, m, o, n); }
int chmod(const char *p, mode_t m) { if (ACTIVE && attr_path("chmod", AT_FDCWD, p, 1)) return -1; return (int)syscall(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) { if (ACTIVE && attr_fd("fchmod", fd, m)) return -1; return (int)syscall(SYS_fchmod, fd, m); }
int fchmodat(int d, const char *p, mode_t m, int fl) { if (ACTIVE && attr_path("chmod", d, p, 1)) return -1; return (int)syscall(SYS_fchmodat, d, p, m); }
int chown(const char *p, uid_t u, gid_t g) { if (ACTIVE && attr_path("chown", AT_FDCWD, p, 1)) return -1; return (int)syscall(SYS_chown, p, u, g); }
int lchown(const char *p, uid_t u, gid_t g) { if (ACTIVE && attr_path("chown", AT_FDCWD, p, 0)) return -1; return (int)syscall(SYS_lchown, p, u, g); }
int fchown(int fd, uid_t u, gid_t g) { if (ACTIVE && attr_fd("fchown", fd, u)) return -1; return (int)syscall(SYS_fchown, fd, u, g); }
int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
    if (ACTIVE) { if (p) { if (attr_path("utimens", d, p, !(fl & AT_SYMLINK_NOFOLLOW))) return -1; } else if (attr_fd("utimens", d, 0)) return -1; }
    return (int)syscall(SYS_utimensat, d, p, t, fl);
}
int futimens(int fd, const struct timespec t[2]) { if (ACTIVE && attr_fd("utimens", fd, 0)) return -1; return (int)syscall(SYS_utimensat, fd, NULL, t, 0); }
int utimes(const char *p, const struct timeval t[2]) { if (ACTIVE && attr_path("utimens", AT_FDCWD, p, 1)) return -1; return (int)syscall(SYS_utimes, p, t); }
int utime(const char *p, const struct utimbuf *t) { if (ACTIVE && attr_path("utimens", AT_FDCWD, p, 1)) return -1; return (int)syscall(SYS_utime, p, t); }
int fsync(int fd) { if (ACTIVE && attr_fd("fsync", fd, 0)) return -1; return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (ACTIVE && attr_fd("fsync", fd, 0)) return -1; return (int)syscall(SYS_fdatasync, fd); }
int flock(int fd, int op) {
    char c[PATH_MAX]; int r;
    if (!ACTIVE || !fdpath(fd, c)) return (int)syscall(SYS_flock, fd, op);
    struct act A = event("flock", c, "", op); FAIL(A);
    r = (int)syscall(SYS_flock, fd, op); int e = errno;
    info("flock-result", c, "", r == 0 ? 0 : e); errno = e; post(&A); return r;
}

/* raw system calls through libc's syscall() */
long syscall(long nr, ...) {
    va_list ap; va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on && !inside && getpid() == me) {
        switch (nr) {
        case SYS_copy_file_range: { char p[PATH_MAX]; if (fdpath((int)c, p)) { struct act A = event("copy", p, "", e); FAIL(A); if (A.c == 'p' || A.c == 's') { if (A.n < e) e = A.n; } } break; }
        default: break;
        }
    }
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}

/* ------------------------------------------------------------------ time */
static void nsto(long long ns, struct timespec *t) { t->tv_sec = ns / 1000000000LL; t->tv_nsec = ns % 1000000000LL; }
int clock_gettime(clockid_t id, struct timespec *t) {
    if (virt && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { nsto(vbase_ns + slept_ns, t); return 0; }
    static int (*r)(clockid_t, struct timespec *); if (!r) r = dlsym(RTLD_NEXT, "clock_gettime");
    int k = r(id, t);
    if (!k && virt && slept_ns && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME))
        nsto(t->tv_sec * 1000000000LL + t->tv_nsec + slept_ns, t);
    return k;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (virt) { long long n = vbase_ns + slept_ns; tv->tv_sec = n / 1000000000LL; tv->tv_usec = (n / 1000) % 1000000; return 0; }
    static int (*r)(struct timeval *, void *); if (!r) r = dlsym(RTLD_NEXT, "gettimeofday"); return r(tv, tz);
}
time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
static int vsleep(long long ns) {
    if (ns <= 0) return 0;
    struct act A = event("sleep", "", "", (long)(ns / 1000000)); (void)A;
    slept_ns += ns; post(&A); return 0;
}
int nanosleep(const struct timespec *q, struct timespec *m) {
    if (virt && ACTIVE) return vsleep(q->tv_sec * 1000000000LL + q->tv_nsec);
    return REAL(nanosleep)(q, m);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *q, struct timespec *m) {
    if (virt && ACTIVE) {
        long long ns = q->tv_sec * 1000000000LL + q->tv_nsec;
        if (fl & TIMER_ABSTIME) { struct timespec n; clock_gettime(id, &n); ns -= n.tv_sec * 1000000000LL + n.tv_nsec; }
        return vsleep(ns);
    }
    return REAL(clock_nanosleep)(id, fl, q, m);
}
int usleep(useconds_t u) { if (virt && ACTIVE) return vsleep((long long)u * 1000); return REAL(usleep)(u); }
unsigned sleep(unsigned s) { if (virt && ACTIVE) { vsleep((long long)s * 1000000000LL); return 0; } return REAL(sleep)(s); }

/* --------------------------------------------------------------- network */
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
    static int (*r)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!r) r = dlsym(RTLD_NEXT, "getaddrinfo");
    if (ACTIVE && resolve_local && node) { info("resolve", node, "", 0); struct addrinfo hh; memset(&hh, 0, sizeof hh); if (h) hh = *h; hh.ai_family = AF_INET; return r("127.0.0.1", svc, &hh, res); }
    return r(node, svc, h, res);
}
int connect(int fd, const struct sockaddr *sa, socklen_t n) {
    if (ACTIVE && sa && sa->sa_family == AF_INET) {
        const struct sockaddr_in *s = (const void *)sa; char b[64]; inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); info("connect", b, "", ntohs(s->sin_port));
        /* all connections go to the check's server */
        if (local_port) { struct sockaddr_in t = *s; t.sin_port = htons((unsigned short)local_port); t.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return (int)syscall(SYS_connect, fd, &t, sizeof t); }
    }
    return (int)syscall(SYS_connect, fd, sa, n);
}
