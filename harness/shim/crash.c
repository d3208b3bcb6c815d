/* Counts the calls by which a program changes files under CRASH_ROOT and ends it, as if killed, at the
   CRASH_AT-th one: before the call, or (writes) after half of it.  The calls are listed in CRASH_LOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(name) __typeof__(&name) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static char ours[4096];
static volatile long count;

static long at(void) {
    static long n = -2;
    if (n == -2) {
        const char *s = getenv("CRASH_AT");
        n = s ? atol(s) : -1;
    }
    return n;
}
static int below(const char *p) {
    char buf[PATH_MAX * 2];
    const char *root = getenv("CRASH_ROOT");
    if (!root || !p) return 0;
    if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
    else {
        if (!getcwd(buf, PATH_MAX)) return 0;
        size_t l = strlen(buf);
        snprintf(buf + l, sizeof buf - l, "/%s", p);
    }
    return strncmp(buf, root, strlen(root)) == 0;
}
static void gone(void) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
}
/* 1: this is where it ends */
static int step(const char *what, const char *path, long arg) {
    long k = __sync_add_and_fetch(&count, 1);
    const char *log = getenv("CRASH_LOG");
    if (log) {
        int fd = (int)((long (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"))(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (fd >= 0) {
            char line[PATH_MAX + 100];
            int n = snprintf(line, sizeof line, "%ld %s %ld %s\n", k, what, arg, path ? path : "");
            ssize_t (*w)(int, const void *, size_t) = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
            (void)!w(fd, line, n);
            ((int (*)(int))dlsym(RTLD_NEXT, "close"))(fd);
        }
    }
    return k == at();
}
static const char *name(int fd) {
    static __thread char buf[PATH_MAX], l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, buf, sizeof buf - 1);
    if (n < 0) return "?";
    buf[n] = 0;
    return buf;
}
static void opened(int fd, const char *path) {
    if (fd >= 0 && fd < (int)sizeof ours) ours[fd] = below(path);
}
#define WRITES(flags) (((flags) & O_ACCMODE) != O_RDONLY)

#define OPEN(fn)                                                          \
    int fn(const char *path, int flags, ...) {                            \
        REAL(fn);                                                         \
        mode_t mode = 0;                                                  \
        if (flags & (O_CREAT | __O_TMPFILE)) {                            \
            va_list a;                                                    \
            va_start(a, flags);                                           \
            mode = va_arg(a, mode_t);                                     \
            va_end(a);                                                    \
        }                                                                 \
        if (!WRITES(flags) || !below(path)) return real(path, flags, mode); \
        if (step("open", path, flags & O_TRUNC)) gone();                  \
        int fd = real(path, flags, mode);                                 \
        opened(fd, path);                                                 \
        return fd;                                                        \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(fn)                                                        \
    int fn(int d, const char *path, int flags, ...) {                     \
        REAL(fn);                                                         \
        mode_t mode = 0;                                                  \
        if (flags & (O_CREAT | __O_TMPFILE)) {                            \
            va_list a;                                                    \
            va_start(a, flags);                                           \
            mode = va_arg(a, mode_t);                                     \
            va_end(a);                                                    \
        }                                                                 \
        if (!WRITES(flags) || !below(path)) return real(d, path, flags, mode); \
        if (step("open", path, flags & O_TRUNC)) gone();                  \
        int fd = real(d, path, flags, mode);                              \
        opened(fd, path);                                                 \
        return fd;                                                        \
    }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
#define FOPEN(fn)                                                         \
    FILE *fn(const char *path, const char *mode) {                        \
        REAL(fn);                                                         \
        int w = strpbrk(mode, "wa+") != NULL && below(path);              \
        if (w && step("open", path, mode[0] == 'w')) gone();              \
        FILE *f = real(path, mode);                                       \
        if (f && w) opened(fileno(f), path);                              \
        return f;                                                         \
    }
FOPEN(fopen)
FOPEN(fopen64)
#define MINE(fd) ((fd) > 2 && (fd) < (int)sizeof ours && ours[fd] && below(name(fd)))
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (MINE(fd) && step("write", name(fd), n)) {
        (void)!real(fd, b, n / 2);
        gone();
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if (MINE(fd)) {
        long sum = 0;
        for (int i = 0; i < n; i++) sum += v[i].iov_len;
        if (step("write", name(fd), sum)) {
            if (n > 0) (void)!((ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, v[0].iov_base, v[0].iov_len / 2);
            gone();
        }
    }
    return real(fd, v, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (MINE(fd) && step("write", name(fd), n)) gone();
    return real(fd, b, n, o);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    REAL(fwrite);
    if (f && MINE(fileno(f)) && step("write", name(fileno(f)), s * n)) {
        (void)real(b, s, n / 2, f);
        fflush(f);
        gone();
    }
    return real(b, s, n, f);
}
int close(int fd) {
    REAL(close);
    if (MINE(fd)) {
        if (step("close", name(fd), 0)) gone();
        ours[fd] = 0;
    }
    return real(fd);
}
#define PATH1(fn, what)                                                   \
    int fn(const char *p) {                                               \
        REAL(fn);                                                         \
        if (below(p) && step(what, p, 0)) gone();                         \
        return real(p);                                                   \
    }
PATH1(unlink, "unlink")
PATH1(rmdir, "rmdir")
PATH1(remove, "unlink")
int unlinkat(int d, const char *p, int f) {
    REAL(unlinkat);
    if (step("unlink", p, 0)) gone();
    return real(d, p, f);
}
int mkdir(const char *p, mode_t m) {
    REAL(mkdir);
    if (below(p) && step("mkdir", p, 0)) gone();
    return real(p, m);
}
int rename(const char *a, const char *b) {
    REAL(rename);
    if ((below(a) || below(b)) && step("rename", b, 0)) gone();
    return real(a, b);
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (MINE(fd) && step("truncate", name(fd), n)) gone();
    return real(fd, n);
}
