/* LD_PRELOAD shim: counts the file-system mutations a process makes below one
 * directory, and at a chosen one kills the process or makes the call fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, KILL_BEFORE, KILL_AFTER, KILL_PART, FAIL, SHORT };
#define NFD 4096
#define NLOG 8192
static char prefix[PATH_MAX];
static size_t plen;
static int mode, err_no, persist, fired;
static long at, count;
static char *fdpath[NFD];
static struct { char op[10]; char name[118]; } logbuf[NLOG];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

__attribute__((visibility("default")))
void vm_arm(const char *p, int m, long k, int e, int keep) {
    pthread_mutex_lock(&mu);
    snprintf(prefix, sizeof prefix, "%s", p);
    plen = strlen(prefix);
    mode = m; at = k; err_no = e; persist = keep; count = 0; fired = 0;
    pthread_mutex_unlock(&mu);
}
__attribute__((visibility("default"))) long vm_count(void) { return count; }
__attribute__((visibility("default"))) int vm_fired(void) { return fired; }
__attribute__((visibility("default"))) const char *vm_op(long i) { return i < NLOG ? logbuf[i].op : ""; }
__attribute__((visibility("default"))) const char *vm_name(long i) { return i < NLOG ? logbuf[i].name : ""; }

static int resolve(int dirfd, const char *path, char *out) {
    if (!path || !plen) return 0;
    if (path[0] == '/') snprintf(out, PATH_MAX, "%s", path);
    else {
        char base[PATH_MAX], link[64];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        if (strlen(base) + strlen(path) + 2 > PATH_MAX) return 0;
        strcpy(out, base); strcat(out, "/"); strcat(out, path);
    }
    return strncmp(out, prefix, plen) == 0 && (out[plen] == '/' || out[plen] == 0);
}

/* decision for one mutation: 0 proceed, 1 fail with errno set, 2 proceed then
 * die, 3 partial then die, 4 partial */
static int step(const char *op, const char *name) {
    int act = 0;
    pthread_mutex_lock(&mu);
    long i = count++;
    if (i < NLOG) {
        snprintf(logbuf[i].op, sizeof logbuf[i].op, "%s", op);
        const char *b = strrchr(name, '/');
        snprintf(logbuf[i].name, sizeof logbuf[i].name, "%s", b ? b + 1 : name);
    }
    if (mode && (i == at || (mode == FAIL && persist && i > at))) {
        fired++;
        switch (mode) {
        case KILL_BEFORE: kill(getpid(), SIGKILL); for (;;) pause();
        case KILL_AFTER: act = 2; break;
        case KILL_PART: act = 3; break;
        case FAIL: act = 1; break;
        case SHORT: act = 4; break;
        }
    }
    pthread_mutex_unlock(&mu);
    if (act == 1) errno = err_no;
    return act;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define GATE(op, name) int a_ = step(op, name); if (a_ == 1) return -1
#define DONE(x) do { __typeof__(x) r_ = (x); int e_ = errno; if (a_ == 2 || a_ == 3) die(); errno = e_; return r_; } while (0)

static void track(int fd, const char *p) {
    if (fd < 0 || fd >= NFD) return;
    pthread_mutex_lock(&mu);
    free(fdpath[fd]);
    fdpath[fd] = p ? strdup(p) : NULL;
    pthread_mutex_unlock(&mu);
}
static const char *tracked(int fd) { return fd >= 0 && fd < NFD ? fdpath[fd] : NULL; }

static int creates(int flags) { return flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR); }
static int open_common(int (*f)(int, const char *, int, mode_t), int dirfd, const char *path, int flags, mode_t m) {
    char full[PATH_MAX];
    if (!resolve(dirfd, path, full) || !creates(flags)) {
        int fd = f(dirfd, path, flags, m);
        if (fd >= 0 && tracked(fd)) track(fd, NULL);
        return fd;
    }
    int a_ = step("open", full);
    if (a_ == 1) return -1;
    int fd = f(dirfd, path, flags, m);
    if (a_ == 2 || a_ == 3) die();
    if (fd >= 0) track(fd, full);
    return fd;
}
static int call_openat(int d, const char *p, int fl, mode_t m) { REAL(int, openat, int, const char *, int, ...); return real_openat(d, p, fl, m); }
#define MODE_ARG mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG return open_common(call_openat, AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE_ARG return open_common(call_openat, AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG return open_common(call_openat, d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG return open_common(call_openat, d, path, flags | O_LARGEFILE, m); }
int creat(const char *path, mode_t m) { return open_common(call_openat, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *fopen_common(FILE *(*f)(const char *, const char *), const char *path, const char *md) {
    char full[PATH_MAX];
    if (!resolve(AT_FDCWD, path, full) || !strpbrk(md, "wa+")) {
        FILE *s = f(path, md);
        if (s && tracked(fileno(s))) track(fileno(s), NULL);
        return s;
    }
    int a_ = step("open", full);
    if (a_ == 1) return NULL;
    FILE *s = f(path, md);
    if (a_ == 2 || a_ == 3) die();
    if (s) track(fileno(s), full);
    return s;
}
static FILE *call_fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return real_fopen(p, m); }
FILE *fopen(const char *p, const char *m) { return fopen_common(call_fopen, p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen_common(call_fopen, p, m); }

int close(int fd) { REAL(int, close, int); if (tracked(fd)) track(fd, NULL); return real_close(fd); }
int fclose(FILE *s) { REAL(int, fclose, FILE *); int fd = fileno(s); if (tracked(fd)) track(fd, NULL); return real_fclose(s); }

static ssize_t call_write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return real_write(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    const char *p = tracked(fd);
    if (!p) return call_write(fd, b, n);
    GATE("write", p);
    if ((a_ == 3 || a_ == 4) && n > 1) DONE(call_write(fd, b, n / 2));
    DONE(call_write(fd, b, n));
}
static ssize_t call_writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, writev, int, const struct iovec *, int); return real_writev(fd, v, n); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    const char *p = tracked(fd);
    if (!p) return call_writev(fd, v, n);
    GATE("writev", p);
    if ((a_ == 3 || a_ == 4)) {
        for (int i = 0; i < n; i++) if (v[i].iov_len > 1) DONE(call_write(fd, v[i].iov_base, i ? 0 : v[i].iov_len / 2));
    }
    DONE(call_writev(fd, v, n));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    const char *p = tracked(fd);
    if (!p) return real_pwrite(fd, b, n, o);
    GATE("pwrite", p);
    if ((a_ == 3 || a_ == 4) && n > 1) DONE(real_pwrite(fd, b, n / 2, o));
    DONE(real_pwrite(fd, b, n, o));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
int ftruncate(int fd, off_t n) {
    REAL(int, ftruncate, int, off_t);
    const char *p = tracked(fd);
    if (!p) return real_ftruncate(fd, n);
    GATE("truncate", p);
    DONE(real_ftruncate(fd, n));
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) {
    REAL(int, fsync, int);
    const char *p = tracked(fd);
    if (!p) return real_fsync(fd);
    GATE("fsync", p);
    DONE(real_fsync(fd));
}
int fdatasync(int fd) {
    REAL(int, fdatasync, int);
    const char *p = tracked(fd);
    if (!p) return real_fdatasync(fd);
    GATE("fsync", p);
    DONE(real_fdatasync(fd));
}
#define ONE(name, op, sig, args, dirfd, path) \
    int name sig { char full[PATH_MAX]; REAL(int, name, SIG_##name); \
        if (!resolve(dirfd, path, full)) return real_##name args; \
        GATE(op, full); DONE(real_##name args); }
#define SIG_unlink const char *
#define SIG_unlinkat int, const char *, int
#define SIG_remove const char *
#define SIG_mkdir const char *, mode_t
#define SIG_mkdirat int, const char *, mode_t
#define SIG_rmdir const char *
#define SIG_truncate const char *, off_t
#define SIG_rename const char *, const char *
#define SIG_renameat int, const char *, int, const char *
#define SIG_renameat2 int, const char *, int, const char *, unsigned
#define SIG_link const char *, const char *
#define SIG_linkat int, const char *, int, const char *, int
#define SIG_symlink const char *, const char *
ONE(unlink, "unlink", (const char *p), (p), AT_FDCWD, p)
ONE(unlinkat, "unlink", (int d, const char *p, int f), (d, p, f), d, p)
ONE(remove, "unlink", (const char *p), (p), AT_FDCWD, p)
ONE(mkdir, "mkdir", (const char *p, mode_t m), (p, m), AT_FDCWD, p)
ONE(mkdirat, "mkdir", (int d, const char *p, mode_t m), (d, p, m), d, p)
ONE(rmdir, "rmdir", (const char *p), (p), AT_FDCWD, p)
ONE(truncate, "truncate", (const char *p, off_t n), (p, n), AT_FDCWD, p)
ONE(rename, "rename", (const char *a, const char *b), (a, b), AT_FDCWD, b)
ONE(renameat, "rename", (int d, const char *a, int e, const char *b), (d, a, e, b), e, b)
ONE(renameat2, "rename", (int d, const char *a, int e, const char *b, unsigned f), (d, a, e, b, f), e, b)
ONE(link, "link", (const char *a, const char *b), (a, b), AT_FDCWD, b)
ONE(linkat, "link", (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f), e, b)
ONE(symlink, "link", (const char *a, const char *b), (a, b), AT_FDCWD, b)
