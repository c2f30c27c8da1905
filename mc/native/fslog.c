/* Records the file system operations of this process below a prefix (LD_PRELOAD); can make a write fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static size_t plen;
static volatile int on = 0;
static unsigned char *buf; static size_t len, cap;
static long nwrites = 0, fail_at = -1, fail_bytes = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static void put(const void *p, size_t n) {
    if (len + n > cap) { cap = (len + n) * 2 + 4096; buf = realloc(buf, cap); }
    memcpy(buf + len, p, n); len += n;
}
static void rec(char op, const char *a, const char *b, int64_t off, const void *data, size_t n) {
    pthread_mutex_lock(&mu);
    uint32_t la = a ? strlen(a) : 0, lb = b ? strlen(b) : 0; uint64_t ln = n;
    put(&op, 1); put(&la, 4); put(&lb, 4); put(&off, 8); put(&ln, 8);
    if (la) put(a, la);
    if (lb) put(b, lb);
    if (n) put(data, n);
    pthread_mutex_unlock(&mu);
}
void mc_start(const char *p, long at, long bytes) {
    strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); len = 0; nwrites = 0; fail_at = at; fail_bytes = bytes; on = 1;
}
size_t mc_stop(void) { on = 0; return len; }
unsigned char *mc_buf(void) { return buf; }
long mc_writes(void) { return nwrites; }

static int under(const char *p) { return on && !strncmp(p, prefix, plen) && (p[plen] == '/' || !p[plen]); }
static int abspath(int dirfd, const char *p, char *out) {
    if (!p) return 0;
    if (p[0] == '/') { strncpy(out, p, PATH_MAX - 1); out[PATH_MAX - 1] = 0; return 1; }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t k = readlink(l, base, sizeof base - 1); if (k < 0) return 0; base[k] = 0; }
    snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, p);
    return 1;
}
static int fdpath(int fd, char *out) {
    if (!on) return 0;
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, out, PATH_MAX - 1);
    if (k < 0) return 0;
    out[k] = 0;
    return under(out);
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void opened(int dirfd, const char *p, int flags, int existed) {
    char a[PATH_MAX];
    if (!on || !abspath(dirfd, p, a) || !under(a)) return;
    if (!existed && (flags & O_CREAT)) rec('C', a, 0, 0, 0, 0);
    else if (flags & O_TRUNC) rec('T', a, 0, 0, 0, 0);
}
static int exists(int dirfd, const char *p) { struct stat st; return on ? !fstatat(dirfd, p, &st, 0) : 1; }

#define OPEN(name, ...) { REAL(name); va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
int open(const char *p, int flags, ...) OPEN(open) int e = exists(AT_FDCWD, p); int r = real(p, flags, m); if (r >= 0) opened(AT_FDCWD, p, flags, e); return r; }
int open64(const char *p, int flags, ...) OPEN(open64) int e = exists(AT_FDCWD, p); int r = real(p, flags, m); if (r >= 0) opened(AT_FDCWD, p, flags, e); return r; }
int openat(int d, const char *p, int flags, ...) OPEN(openat) int e = exists(d, p); int r = real(d, p, flags, m); if (r >= 0) opened(d, p, flags, e); return r; }
int openat64(int d, const char *p, int flags, ...) OPEN(openat64) int e = exists(d, p); int r = real(d, p, flags, m); if (r >= 0) opened(d, p, flags, e); return r; }
static int mflags(const char *m) { return m[0] == 'w' ? O_CREAT | O_TRUNC : m[0] == 'a' ? O_CREAT : 0; }
FILE *fopen(const char *p, const char *m) { REAL(fopen); int e = exists(AT_FDCWD, p); FILE *r = real(p, m); if (r) opened(AT_FDCWD, p, mflags(m), e); return r; }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); int e = exists(AT_FDCWD, p); FILE *r = real(p, m); if (r) opened(AT_FDCWD, p, mflags(m), e); return r; }

/* 1: go on; 0: fail after writing *n bytes */
static int allowed(int fd, size_t *n) {
    char a[PATH_MAX];
    if (!on || !fdpath(fd, a)) return 1;
    long k = __sync_fetch_and_add(&nwrites, 1);
    if (fail_at >= 0 && k >= fail_at) { if (k > fail_at) *n = 0; else if ((size_t)fail_bytes < *n) *n = fail_bytes; return 0; }
    return 1;
}
static void wrote(int fd, ssize_t r, const void *data, off_t at) {
    char a[PATH_MAX];
    if (r <= 0 || !on || !fdpath(fd, a)) return;
    off_t off = at >= 0 ? at : lseek(fd, 0, SEEK_CUR) - r;
    if (data) { rec('W', a, 0, off, data, r); return; }
    void *t = malloc(r); int f = -1; ssize_t k = -1;
    int (*ro)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    f = ro(a, O_RDONLY);
    if (f >= 0) { k = pread(f, t, r, off); close(f); }
    rec('W', a, 0, off, t, k > 0 ? k : 0);
    free(t);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write); if (!on) return real(fd, b, n);
    if (!allowed(fd, &n)) { if (n) { ssize_t r = real(fd, b, n); wrote(fd, r, b, -1); } errno = ENOSPC; return -1; }
    ssize_t r = real(fd, b, n); int e = errno; wrote(fd, r, b, -1); errno = e; return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite); if (!on) return real(fd, b, n, o);
    if (!allowed(fd, &n)) { if (n) { ssize_t r = real(fd, b, n, o); wrote(fd, r, b, o); } errno = ENOSPC; return -1; }
    ssize_t r = real(fd, b, n, o); int e = errno; wrote(fd, r, b, o); errno = e; return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev); if (!on) return real(fd, v, c);
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t full = n;
    if (!allowed(fd, &n)) { errno = ENOSPC; return -1; }
    (void)full;
    ssize_t r = real(fd, v, c); int e = errno; wrote(fd, r, 0, -1); errno = e; return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    static ssize_t (*real)(int, int, off_t *, size_t); if (!real) real = dlsym(RTLD_NEXT, "sendfile");
    ssize_t r = real(o, i, off, n); int e = errno; wrote(o, r, 0, -1); errno = e; return r;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range); ssize_t r = real(i, oi, o, oo, n, f); int e = errno; wrote(o, r, 0, oo ? *oo - r : -1); errno = e; return r;
}
static void two(char op, int d1, const char *p, int d2, const char *q) {
    char a[PATH_MAX], b[PATH_MAX];
    if (on && abspath(d1, p, a) && abspath(d2, q, b) && (under(a) || under(b))) rec(op, a, b, 0, 0, 0);
}
static void oneop(char op, int d, const char *p, int64_t n) { char a[PATH_MAX]; if (on && abspath(d, p, a) && under(a)) rec(op, a, 0, n, 0, 0); }
int rename(const char *p, const char *q) { REAL(rename); int r = real(p, q), e = errno; if (!r) two('R', AT_FDCWD, p, AT_FDCWD, q); errno = e; return r; }
int renameat(int d1, const char *p, int d2, const char *q) { REAL(renameat); int r = real(d1, p, d2, q), e = errno; if (!r) two('R', d1, p, d2, q); errno = e; return r; }
int link(const char *p, const char *q) { REAL(link); int r = real(p, q), e = errno; if (!r) two('L', AT_FDCWD, p, AT_FDCWD, q); errno = e; return r; }
int linkat(int d1, const char *p, int d2, const char *q, int f) { REAL(linkat); int r = real(d1, p, d2, q, f), e = errno; if (!r) two('L', d1, p, d2, q); errno = e; return r; }
int mkdir(const char *p, mode_t m) { REAL(mkdir); int r = real(p, m), e = errno; if (!r) oneop('M', AT_FDCWD, p, 0); errno = e; return r; }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); int r = real(d, p, m), e = errno; if (!r) oneop('M', d, p, 0); errno = e; return r; }
int unlink(const char *p) { REAL(unlink); int r = real(p), e = errno; if (!r) oneop('U', AT_FDCWD, p, 0); errno = e; return r; }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); int r = real(d, p, f), e = errno; if (!r) oneop('U', d, p, 0); errno = e; return r; }
int rmdir(const char *p) { REAL(rmdir); int r = real(p), e = errno; if (!r) oneop('U', AT_FDCWD, p, 0); errno = e; return r; }
int truncate(const char *p, off_t n) { REAL(truncate); int r = real(p, n), e = errno; if (!r) oneop('T', AT_FDCWD, p, n); errno = e; return r; }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); int r = real(fd, n), e = errno; char a[PATH_MAX]; if (!r && fdpath(fd, a)) rec('T', a, 0, n, 0, 0); errno = e; return r; }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
