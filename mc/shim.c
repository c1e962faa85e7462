/* Counts the operations which change files below a folder, and makes one of them crash or fail.
   Loaded using LD_PRELOAD, so independent of how the code under test does its file operations. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static char root[4096];
static long target, count;
static int mode; /* 0 count only, 1 crash before, 2 crash half way through or right after, 3 fail with errno */
static int fault_errno;
static long hit;
static char log_[1 << 16];
static size_t log_len;
static char fds[65536]; /* 1 written to, 2 read from */
static int reading; /* whether reads rather than writes are counted */

void pfc_arm(const char *r, long k, int m, int err) {
    strncpy(root, r, sizeof root - 1);
    target = k; mode = m; fault_errno = err; count = 0; hit = 0; log_len = 0; log_[0] = 0;
    memset(fds, 0, sizeof fds);
    reading = 0;
}
void pfc_reads(void) { reading = 1; }
void pfc_disarm(void) { root[0] = 0; }
long pfc_count(void) { return count; }
long pfc_hit(void) { return hit; }
const char *pfc_log(void) { return log_; }

static int below(const char *path) {
    if (!root[0] || !path) return 0;
    char buf[8192];
    if (path[0] != '/') {
        if (!getcwd(buf, 4096)) return 0;
        strcat(buf, "/");
        strncat(buf, path, 4000);
        path = buf;
    }
    size_t n = strlen(root);
    return strncmp(path, root, n) == 0 && (path[n] == '/' || path[n] == 0);
}

/* returns 0: go on. 1: fail. 2: do it half way, then crash */
static int any_step(const char *what, const char *path, int read) {
    if (read != reading) return 0;
    count++;
    const char *name = path ? strrchr(path, '/') : 0;
    int n = snprintf(log_ + log_len, sizeof log_ - log_len, "%s %s\n", what, name ? name + 1 : "");
    if (n > 0 && log_len + n < sizeof log_) log_len += n;
    if (count != target || mode == 0) return 0;
    hit = 1;
    if (mode == 1) _exit(77);
    if (mode == 3) { errno = fault_errno; return 1; }
    return 2;
}
static int step(const char *what, const char *path) { return any_step(what, path, 0); }

#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int open_common(const char *name, int dirfd, const char *path, int flags, mode_t m) {
    static int (*real)(int, const char *, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "openat64");
    int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int s = 0;
    int ours = below(path);
    if (ours) s = any_step(writing ? name : "open to read", path, !writing);
    if (s == 1) return -1;
    int fd = real(dirfd, path, flags, m);
    if (s == 2) _exit(77);
    if (fd >= 0 && fd < (int) sizeof fds) fds[fd] = ours ? (writing ? 1 : 2) : 0;
    return fd;
}
#define MODE_ARG mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG return open_common("open", AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE_ARG return open_common("open", AT_FDCWD, path, flags, m); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG return open_common("open", d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG return open_common("open", d, path, flags, m); }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (root[0] && fd >= 0 && fd < (int) sizeof fds && fds[fd] == 1) {
        int s = step("write", 0);
        if (s == 1) return -1;
        if (s == 2) { if (n > 1) real(fd, buf, n / 2); _exit(77); }
    }
    return real(fd, buf, n);
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (root[0] && fd >= 0 && fd < (int) sizeof fds && fds[fd] == 2 && any_step("read", 0, 1)) return -1;
    return real(fd, buf, n);
}
DIR *opendir(const char *path) {
    REAL(DIR *, "opendir", const char *);
    if (below(path) && any_step("opendir", path, 1)) return 0;
    return real(path);
}
int close(int fd) {
    REAL(int, "close", int);
    if (fd >= 0 && fd < (int) sizeof fds) fds[fd] = 0;
    return real(fd);
}
#define TWO(fn, call, proto, p) \
int fn proto { \
    static int (*real) proto; if (!real) real = dlsym(RTLD_NEXT, #fn); \
    int s = 0; if (below(p)) s = step(#fn, p); \
    if (s == 1) return -1; \
    int r = real call; \
    if (s == 2) _exit(77); \
    return r; }
TWO(rename, (a, b), (const char *a, const char *b), b)
TWO(renameat, (d, a, e, b), (int d, const char *a, int e, const char *b), b)
TWO(mkdir, (a, m), (const char *a, mode_t m), a)
TWO(mkdirat, (d, a, m), (int d, const char *a, mode_t m), a)
TWO(unlink, (a), (const char *a), a)
TWO(unlinkat, (d, a, f), (int d, const char *a, int f), a)
TWO(rmdir, (a), (const char *a), a)
TWO(chmod, (a, m), (const char *a, mode_t m), a)
TWO(truncate, (a, l), (const char *a, off_t l), a)
TWO(truncate64, (a, l), (const char *a, off64_t l), a)
TWO(link, (a, b), (const char *a, const char *b), b)
TWO(symlink, (a, b), (const char *a, const char *b), b)
int ftruncate64(int fd, off64_t l) {
    REAL(int, "ftruncate64", int, off64_t);
    if (root[0] && fd >= 0 && fd < (int) sizeof fds && fds[fd] == 1) {
        int s = step("ftruncate", 0);
        if (s == 1) return -1;
        if (s == 2) { real(fd, l); _exit(77); }
    }
    return real(fd, l);
}
