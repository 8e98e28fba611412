/* Counts and disturbs the system calls made on the files of one folder (LD_PRELOAD). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[4096], skip1[64] = ".log", skip2[64] = ".err";
static int want_read, kind, sticky, logfd = -1;
static long at = -1, count, injected;
enum { NONE, ENOSPC_, EIO_, SHORT_, EINTR_, KILL_, EACCES_ };

void fault_set(const char *p, int readside, int k, long n, int st, int fd) {
    strncpy(prefix, p, sizeof prefix - 1);
    want_read = readside; kind = k; at = n; sticky = st; logfd = fd; count = injected = 0;
}

static int ends(const char *s, const char *e) {
    size_t a = strlen(s), b = strlen(e);
    return a >= b && !strcmp(s + a - b, e);
}

static int path_ok(const char *p) {
    return prefix[0] && !strncmp(p, prefix, strlen(prefix)) && !ends(p, skip1) && !ends(p, skip2);
}

static int fd_path(int fd, char *out, size_t n) {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t r = syscall(SYS_readlink, l, out, n - 1);
    if (r <= 0) return 0;
    out[r] = 0;
    return 1;
}

/* 0: go on, otherwise what to do at this call */
static int step(const char *op, const char *p, size_t n) {
    long i = count++;
    int hit = at >= 0 && (sticky ? i >= at : i == at);
    if (logfd >= 0) {
        char b[4400];
        int m = snprintf(b, sizeof b, "%ld %s %d %zu %s\n", i, op, hit ? kind : 0, n, p);
        if (m > 0) syscall(SYS_write, logfd, b, (size_t)m);
    }
    if (!hit) return 0;
    injected++;
    if (kind == KILL_) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    return kind;
}

static int on_fd(const char *op, int fd, size_t n) {
    char p[4096];
    if (!prefix[0] || fd < 0 || fd == logfd) return 0;
    int e = errno;
    int r = 0;
    if (fd_path(fd, p, sizeof p) && path_ok(p)) r = step(op, p, n);
    errno = e;
    return r;
}

static int fail(int k) {
    errno = k == ENOSPC_ ? ENOSPC : k == EINTR_ ? EINTR : k == EACCES_ ? EACCES : EIO;
    return -1;
}

#define REAL(name, type) static __typeof__(type) real; if (!real) real = (__typeof__(type))dlsym(RTLD_NEXT, name)

ssize_t write(int fd, const void *b, size_t n) {
    REAL("write", ssize_t (*)(int, const void *, size_t));
    int k = want_read ? 0 : on_fd("write", fd, n);
    if (k == SHORT_) return real(fd, b, n > 1 ? n / 2 : n);
    if (k) return fail(k);
    return real(fd, b, n);
}
#define PWRITE(NAME, OFF) ssize_t NAME(int fd, const void *b, size_t n, OFF o) { \
    REAL(#NAME, ssize_t (*)(int, const void *, size_t, OFF)); \
    int k = want_read ? 0 : on_fd("pwrite", fd, n); \
    if (k == SHORT_) return real(fd, b, n > 1 ? n / 2 : n, o); \
    if (k) return fail(k); \
    return real(fd, b, n, o); }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL("writev", ssize_t (*)(int, const struct iovec *, int));
    int k = want_read ? 0 : on_fd("writev", fd, c);
    if (k && k != SHORT_) return fail(k);
    return real(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL("read", ssize_t (*)(int, void *, size_t));
    int k = want_read ? on_fd("read", fd, n) : 0;
    if (k == SHORT_) return real(fd, b, n > 1 ? n / 2 : n);
    if (k) return fail(k == ENOSPC_ || k == EACCES_ ? EIO_ : k);
    return real(fd, b, n);
}
#define PREAD(NAME, OFF) ssize_t NAME(int fd, void *b, size_t n, OFF o) { \
    REAL(#NAME, ssize_t (*)(int, void *, size_t, OFF)); \
    int k = want_read ? on_fd("pread", fd, n) : 0; \
    if (k == SHORT_) return real(fd, b, n > 1 ? n / 2 : n, o); \
    if (k) return fail(k == ENOSPC_ || k == EACCES_ ? EIO_ : k); \
    return real(fd, b, n, o); }
PREAD(pread, off_t)
PREAD(pread64, off64_t)
int fsync(int fd) {
    REAL("fsync", int (*)(int));
    int k = want_read ? 0 : on_fd("fsync", fd, 0);
    if (k && k != SHORT_ && k != EINTR_) return fail(k);
    return real(fd);
}
int fdatasync(int fd) {
    REAL("fdatasync", int (*)(int));
    int k = want_read ? 0 : on_fd("fdatasync", fd, 0);
    if (k && k != SHORT_ && k != EINTR_) return fail(k);
    return real(fd);
}
#define TRUNC(NAME, OFF) int NAME(int fd, OFF o) { \
    REAL(#NAME, int (*)(int, OFF)); \
    int k = want_read ? 0 : on_fd("ftruncate", fd, 0); \
    if (k && k != SHORT_ && k != EINTR_) return fail(k); \
    return real(fd, o); }
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)
int close(int fd) {
    REAL("close", int (*)(int));
    int k = 0;
    if (!want_read && prefix[0] && fd >= 0 && fd != logfd) {
        int fl = syscall(SYS_fcntl, fd, F_GETFL);
        if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) k = on_fd("close", fd, 0);
    }
    int r = real(fd);
    if (k && k != SHORT_ && k != EINTR_) return fail(k);
    return r;
}
static int on_open(const char *p, int fl) {
    char b[4096];
    if (!prefix[0] || !p) return 0;
    if (p[0] != '/') {
        if (syscall(SYS_getcwd, b, sizeof b) < 0) return 0;
        size_t l = strlen(b);
        snprintf(b + l, sizeof b - l, "/%s", p);
        p = b;
    }
    int w = (fl & O_ACCMODE) != O_RDONLY;
    if (w == want_read || (fl & O_DIRECTORY) || !path_ok(p)) return 0;
    int e = errno, k = step("open", p, 0);
    errno = e;
    return k == SHORT_ || k == EINTR_ ? 0 : k;
}
#define OPEN(NAME) int NAME(const char *p, int fl, ...) { \
    va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    REAL(#NAME, int (*)(const char *, int, ...)); \
    int k = on_open(p, fl); if (k) return fail(k); \
    return real(p, fl, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) int NAME(int d, const char *p, int fl, ...) { \
    va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    REAL(#NAME, int (*)(int, const char *, int, ...)); \
    int k = p && (p[0] == '/' || d == AT_FDCWD) ? on_open(p, fl) : 0; if (k) return fail(k); \
    return real(d, p, fl, m); }
OPENAT(openat)
OPENAT(openat64)
int unlink(const char *p) {
    REAL("unlink", int (*)(const char *));
    if (!want_read && prefix[0] && path_ok(p)) {
        int k = step("unlink", p, 0);
        if (k && k != SHORT_ && k != EINTR_) return fail(k);
    }
    return real(p);
}
int rename(const char *o, const char *p) {
    REAL("rename", int (*)(const char *, const char *));
    if (!want_read && prefix[0] && path_ok(p)) {
        int k = step("rename", p, 0);
        if (k && k != SHORT_ && k != EINTR_) return fail(k);
    }
    return real(o, p);
}
long fault_count(void) { return count; }
long fault_injected(void) { return injected; }
